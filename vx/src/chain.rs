//! Iterator chains and for loops -> index loops.
use crate::rewrite::Rw;
use crate::Res;
use proc_macro2::TokenStream;
use quote::{format_ident, quote, ToTokens};
use syn::{visit_mut::VisitMut, *};

pub enum El {
    Tup(Vec<El>),
    Ex(TokenStream),
}
impl El {
    pub fn tokens(&self) -> TokenStream {
        match self {
            El::Ex(t) => t.clone(),
            El::Tup(v) => {
                let t: Vec<_> = v.iter().map(|e| e.tokens()).collect();
                quote!((#(#t),*))
            }
        }
    }
}
fn from_expr(e: &Expr) -> El {
    match e {
        Expr::Tuple(t) => El::Tup(t.elems.iter().map(from_expr).collect()),
        Expr::Paren(p) => from_expr(&p.expr),
        e => El::Ex(e.to_token_stream()),
    }
}
/// `let PAT = EL;` with tuples destructured at generation time.
pub fn bind(p: &Pat, el: &El, out: &mut TokenStream) {
    match (p, el) {
        (Pat::Paren(p), el) => bind(&p.pat, el, out),
        (Pat::Type(p), el) if !matches!(el, El::Tup(_)) => {
            let (pt, t) = (&p.pat, el.tokens());
            let ty = &p.ty;
            out.extend(quote!(let #pt: #ty = #t;));
        }
        (Pat::Tuple(pt), El::Tup(es)) if pt.elems.len() == es.len() => {
            for (p, e) in pt.elems.iter().zip(es) {
                bind(p, e, out);
            }
        }
        (Pat::Reference(r), El::Tup(_)) => bind(&r.pat, el, out),
        (Pat::Reference(r), El::Ex(t)) => {
            let t = deref(t);
            bind(&r.pat, &El::Ex(t), out);
        }
        (Pat::Wild(_), El::Ex(t)) if is_simple(t) => {}
        (p, el) => {
            let t = el.tokens();
            out.extend(quote!(let #p = #t;));
        }
    }
}
fn is_simple(t: &TokenStream) -> bool {
    matches!(parse2::<Expr>(t.clone()), Ok(Expr::Path(_)) | Ok(Expr::Reference(_)))
}
pub fn deref(t: &TokenStream) -> TokenStream {
    if let Ok(Expr::Reference(r)) = parse2::<Expr>(t.clone()) {
        return r.expr.to_token_stream();
    }
    quote!(*(#t))
}

pub enum Src {
    Slice { x: Expr, own: u8 }, // 0 = &, 1 = &mut, 2 = by value
    Range { lo: Expr, hi: Expr, incl: bool },
}
pub struct Chain {
    pub src: Src,
    pub rev: bool,
    pub skip: Option<Expr>,
    pub take: Option<Expr>,
    pub adapters: Vec<ExprMethodCall>,
}

const ADAPT: &[&str] = &[
    "map", "enumerate", "copied", "cloned", "rev", "zip", "skip", "take", "filter", "filter_map", "flat_map", "into_iter", "iter",
    "by_ref", "take_while", "map_while", "step_by",
];
const SINKS: &[&str] = &[
    "collect", "sum", "fold", "for_each", "position", "rposition", "any", "all", "count", "min_by", "max_by", "unzip", "find", "min",
    "max", "last", "product",
];

pub fn strip(e: &Expr) -> &Expr {
    match e {
        Expr::Paren(p) => strip(&p.expr),
        Expr::Group(p) => strip(&p.expr),
        e => e,
    }
}

/// The iterator denoted by `e`, if `e` is one we know how to open.
pub fn as_chain(e: &Expr) -> Option<Chain> {
    let mut ads: Vec<ExprMethodCall> = vec![];
    let mut cur = strip(e);
    loop {
        match cur {
            Expr::Range(r) => {
                let (lo, hi) = (r.start.as_ref()?, r.end.as_ref()?);
                ads.reverse();
                ads.retain(|m| m.method != "into_iter");
                return Some(Chain {
                    src: Src::Range { lo: (**lo).clone(), hi: (**hi).clone(), incl: matches!(r.limits, RangeLimits::Closed(_)) },
                    rev: false,
                    skip: None,
                    take: None,
                    adapters: ads,
                });
            }
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                let inner = strip(&m.receiver);
                let is_src = matches!(n.as_str(), "iter" | "iter_mut" | "into_iter") && m.args.is_empty();
                if is_src && as_chain_recv(inner).is_none() {
                    ads.reverse();
                    let own = match n.as_str() {
                        "iter" => 0,
                        "iter_mut" => 1,
                        _ => {
                            if let Expr::Reference(r) = inner {
                                if r.mutability.is_some() { 1 } else { 0 }
                            } else {
                                2
                            }
                        }
                    };
                    return Some(Chain { src: Src::Slice { x: inner.clone(), own }, rev: false, skip: None, take: None, adapters: ads });
                }
                if !ADAPT.contains(&n.as_str()) {
                    return None;
                }
                ads.push(m.clone());
                cur = inner;
            }
            _ => return None,
        }
    }
}
fn as_chain_recv(e: &Expr) -> Option<Chain> {
    match e {
        Expr::Range(_) => as_chain(e),
        Expr::MethodCall(m) if ADAPT.contains(&m.method.to_string().as_str()) || m.method == "iter_mut" => as_chain(e),
        _ => None,
    }
}

fn find_return(e: &Expr) -> (bool, bool) {
    // (has return, has return inside a loop or has `?`)
    struct V(bool, bool, usize);
    impl<'a> syn::visit::Visit<'a> for V {
        fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
        fn visit_expr_return(&mut self, r: &'a ExprReturn) {
            self.0 = true;
            if self.2 > 0 {
                self.1 = true;
            }
            syn::visit::visit_expr_return(self, r);
        }
        fn visit_expr_try(&mut self, r: &'a ExprTry) {
            self.0 = true;
            if self.2 > 0 {
                self.1 = true;
            }
            syn::visit::visit_expr_try(self, r);
        }
        fn visit_expr_while(&mut self, w: &'a ExprWhile) {
            self.2 += 1;
            syn::visit::visit_expr_while(self, w);
            self.2 -= 1;
        }
        fn visit_expr_for_loop(&mut self, w: &'a ExprForLoop) {
            self.2 += 1;
            syn::visit::visit_expr_for_loop(self, w);
            self.2 -= 1;
        }
        fn visit_expr_loop(&mut self, w: &'a ExprLoop) {
            self.2 += 1;
            syn::visit::visit_expr_loop(self, w);
            self.2 -= 1;
        }
    }
    let mut v = V(false, false, 0);
    syn::visit::Visit::visit_expr(&mut v, e);
    (v.0, v.1)
}

struct RetTo<'a>(&'a dyn Fn(El) -> Res<TokenStream>, Option<String>, Option<Type>);
impl VisitMut for RetTo<'_> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Closure(_) = e {
            return;
        }
        if let Expr::Return(r) = e {
            let el = match &r.expr {
                Some(x) => from_expr(x),
                None => El::Tup(vec![]),
            };
            match (self.0)(el) {
                Ok(t) => *e = parse_quote!({ #t continue; }),
                Err(m) => self.1 = Some(m),
            }
            return;
        }
        if let Expr::Try(t) = e {
            visit_mut::visit_expr_mut(self, &mut t.expr);
            let x = &t.expr;
            let kind = match &self.2 { Some(Type::Path(p)) => p.path.segments.last().unwrap().ident.to_string(), _ => String::new() };
            let (pat, val) = match kind.as_str() {
                "Result" => (quote!(Err(e__)), quote!(Err(e__))),
                "Option" => (quote!(None), quote!(None)),
                _ => { self.1 = Some("unsupported: `?` in an iterator closure without a result type".into()); return; }
            };
            let ok = if kind == "Result" { quote!(Ok) } else { quote!(Some) };
            match (self.0)(El::Ex(val)) {
                Ok(d) => *e = parse_quote!(match #x { #ok(v__) => v__, #pat => { #d continue; } }),
                Err(m) => self.1 = Some(m),
            }
            return;
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

fn closure(e: &Expr, rw: &Rw) -> Res<ExprClosure> {
    match strip(e) {
        Expr::Closure(c) => Ok(c.clone()),
        Expr::Path(p) => {
            if let Some(id) = p.path.get_ident() {
                if let Some(c) = rw.closures.get(&id.to_string()) {
                    return Ok(c.clone());
                }
            }
            let last = p.path.segments.last().unwrap().ident.clone();
            if (last == "max" || last == "min") && p.path.segments.len() == 2 {
                let m = format_ident!("{}", last);
                return Ok(parse_quote!(|a__, b__| a__.#m(b__)));
            }
            // a function used as a closure of one argument
            Ok(parse_quote!(|a__| #p(a__)))
        }
        _ => Err("unsupported: iterator adapter argument that is not a closure".into()),
    }
}

/// Apply a closure to elements: (prelude lets, result element).
fn apply(c: &ExprClosure, args: &[El], down: &dyn Fn(El) -> Res<TokenStream>) -> Res<TokenStream> {
    let mut out = TokenStream::new();
    for (p, a) in c.inputs.iter().zip(args) {
        bind(p, a, &mut out);
    }
    let mut b = (*c.body).clone();
    let (has, bad) = find_return(&b);
    let out_ty = match &c.output { ReturnType::Type(_, t) if has => Some((**t).clone()), _ => None };
    let typed = |e: El| -> Res<TokenStream> {
        match (&out_ty, e) {
            (Some(t), El::Ex(x)) => down(El::Ex(quote!({ let r__: #t = #x; r__ }))),
            (_, e) => down(e),
        }
    };
    let down: &dyn Fn(El) -> Res<TokenStream> = &typed;
    if bad {
        return Err("unsupported: return, or `?`, inside a loop of an iterator closure".into());
    }
    if has {
        let ty = match &c.output { ReturnType::Type(_, t) => Some((**t).clone()), ReturnType::Default => None };
        let mut r = RetTo(down, None, ty);
        r.visit_expr_mut(&mut b);
        if let Some(m) = r.1 {
            return Err(m);
        }
    }
    // a block body: splice its statements so that a tuple tail stays destructurable
    if let Expr::Block(bl) = &b {
        if bl.label.is_none() {
            let mut st = bl.block.stmts.clone();
            if let Some(Stmt::Expr(_, None)) = st.last() {
                let Some(Stmt::Expr(tail, _)) = st.pop() else { unreachable!() };
                for s in &st {
                    s.to_tokens(&mut out);
                }
                out.extend(down(from_expr(&tail))?);
                return Ok(out);
            }
            for s in &st {
                s.to_tokens(&mut out);
            }
            out.extend(down(El::Tup(vec![]))?);
            return Ok(out);
        }
    }
    out.extend(down(from_expr(&b))?);
    Ok(out)
}

fn is_place(e: &Expr) -> bool {
    match e {
        Expr::Path(_) => true,
        Expr::Field(f) => is_place(&f.base),
        Expr::Paren(p) => is_place(&p.expr),
        _ => false,
    }
}

/// Generate the loop; `sink` consumes one element.
pub fn gen_loop(rw: &mut Rw, ch: &Chain, label: Option<&Label>, sink: &mut dyn FnMut(&mut Rw, El) -> Res<TokenStream>) -> Res<TokenStream> {
    let k = rw.next_loop();
    let (i, c, e, d) = (format_ident!("__i{k}"), format_ident!("__c{k}"), format_ident!("__e{k}"), format_ident!("__d{k}"));
    let mut pre = TokenStream::new();
    let mut ads = ch.adapters.clone();
    let mut rev = ch.rev;
    let (mut skip, mut take) = (ch.skip.clone(), ch.take.clone());
    let mut stride: Option<Expr> = None;
    while let Some(a) = ads.first() {
        match a.method.to_string().as_str() {
            "rev" if skip.is_none() && take.is_none() => { rev = !rev; ads.remove(0); }
            "skip" if take.is_none() && skip.is_none() => { skip = Some(a.args[0].clone()); ads.remove(0); }
            "take" if take.is_none() => { take = Some(a.args[0].clone()); ads.remove(0); }
            "iter" | "into_iter" | "by_ref" => { ads.remove(0); }
            "step_by" if stride.is_none() && !rev && skip.is_none() && take.is_none() && matches!(ch.src, Src::Range { incl: false, .. }) => { stride = Some(a.args[0].clone()); ads.remove(0); }
            _ => break,
        }
    }
    let (cond, step, el0, ix): (TokenStream, TokenStream, El, TokenStream);
    match &ch.src {
        Src::Slice { x, own } => {
            let x = match strip(x) { Expr::Reference(r) => strip(&r.expr), x => x };
            let xs: TokenStream = if is_place(x) {
                quote!(#x)
            } else {
                let s = format_ident!("__s{k}");
                if let Expr::Index(_) = x {
                    if *own == 1 { return Err("unsupported: iter_mut over an indexed place".into()); }
                    pre.extend(quote!(let #s = & #x;));
                } else {
                    pre.extend(quote!(let #s = #x;));
                }
                quote!(#s)
            };
            let start = match &skip { Some(s) => quote!(#s), None => quote!(0) };
            pre.extend(quote!(let mut #i: usize = #start;));
            let bound = match &take {
                Some(t) => {
                    if skip.is_some() { return Err("unsupported: skip+take".into()); }
                    pre.extend(quote!(let #e: usize = #t;));
                    quote!(&& #i < #e)
                }
                None => quote!(),
            };
            cond = quote!(#i < #xs.len() #bound);
            step = quote!(let #c = #i; #i = #i + 1;);
            let at = if rev { quote!(#xs[#xs.len() - 1 - #c]) } else { quote!(#xs[#c]) };
            el0 = El::Ex(match own { 0 => quote!(&#at), 1 => quote!(&mut #at), _ if rw.spec.opts.contains("collected") && !rev => quote!(vnth(&#xs, #c)), _ => at });
            ix = if skip.is_some() { quote!((#c - (#start))) } else { quote!(#c) };
        }
        Src::Range { lo, hi, incl } => {
            if take.is_some() || skip.is_some() { return Err("unsupported: skip/take on a range".into()); }
            if let Some(n) = &stride {
                if rev || !ads.is_empty() { return Err("unsupported: step_by followed by an adapter".into()); }
                let t = format_ident!("__t{k}");
                pre.extend(quote!(let mut #i: usize = #lo; let #e: usize = #hi; let #t: usize = #n; vnonzero(#t);));
                cond = quote!(#i < #e);
                step = quote!(let #c = #i; #i = if #e - #i > #t { #i + #t } else { #e };);
            } else if rev {
                if *incl { return Err("unsupported: reversed inclusive range".into()); }
                pre.extend(quote!(let #e = #lo; let mut #i = #hi;));
                cond = quote!(#i > #e);
                step = quote!(#i = #i - 1; let #c = #i;);
            } else if *incl {
                pre.extend(quote!(let mut #i = #lo; let #e = #hi; let mut #d = #i > #e;));
                cond = quote!(!#d);
                step = quote!(let #c = #i; if #i < #e { #i = #i + 1; } else { #d = true; });
            } else {
                pre.extend(quote!(let mut #i = #lo; let #e = #hi;));
                cond = quote!(#i < #e);
                step = quote!(let #c = #i; #i = #i + 1;);
            }
            el0 = El::Ex(quote!(#c));
            ix = if lo.to_token_stream().to_string() == "0" && !rev { quote!(#c) } else { quote!((#c - (#lo))) };
            if rev && ads.iter().any(|a| a.method == "enumerate") { return Err("unsupported: enumerate of a reversed range".into()); }
        }
    }
    let mut cond = cond;
    // zip partners contribute to the loop condition
    let mut zips: Vec<El> = vec![];
    let mut nz = 0;
    for a in &ads {
        if a.method == "zip" {
            let other = strip(&a.args[0]);
            let (x, n_ad, own) = match as_chain(other) {
                Some(Chain { src: Src::Slice { x, own }, adapters, rev: false, .. }) => (x, adapters, own),
                Some(Chain { src: Src::Range { lo, hi, incl: false }, adapters, .. }) if adapters.is_empty() => {
                    cond = quote!(#cond && #i < (#hi) - (#lo));
                    zips.push(El::Ex(quote!(((#lo) + #c))));
                    nz += 1;
                    continue;
                }
                Some(_) => return Err("unsupported: zip partner".into()),
                None => match other {
                    Expr::Reference(r) => ((*r.expr).clone(), vec![], 0),
                    o => (o.clone(), vec![], 0),
                },
            };
            if own == 1 || n_ad.iter().any(|m| m.method != "copied" && m.method != "cloned") {
                return Err("unsupported: zip partner".into());
            }
            let xs = if is_place(&x) { quote!(#x) } else {
                let s = format_ident!("__z{k}_{nz}");
                if let Expr::Index(_) = strip(&x) { pre.extend(quote!(let #s = & #x;)); } else { pre.extend(quote!(let #s = #x;)); }
                quote!(#s)
            };
            cond = quote!(#cond && #i < #xs.len());
            zips.push(El::Ex(if n_ad.is_empty() && own == 0 { quote!(&#xs[#c]) } else if n_ad.is_empty() && own == 2 && rw.spec.opts.contains("collected") { quote!(vnth(&#xs, #c)) } else { quote!(#xs[#c]) }));
            nz += 1;
            if skip.is_some() || rev { return Err("unsupported: zip after skip/rev".into()); }
        }
    }
    let mut counters = 0usize;
    let body = adapt(rw, &ads, 0, el0, &ix, false, &mut zips.into_iter(), k, &mut counters, &mut pre, sink)?;
    let kk = k;
    Ok(quote! {
        #pre
        #label while #cond { __vx_inv!(#kk); #step #body }
        __vx_after!(#kk);
    })
}

#[allow(clippy::too_many_arguments)]
fn adapt(
    rw: &mut Rw,
    ads: &[ExprMethodCall],
    n: usize,
    el: El,
    ix: &TokenStream,
    filtered: bool,
    zips: &mut dyn Iterator<Item = El>,
    k: usize,
    counters: &mut usize,
    pre: &mut TokenStream,
    sink: &mut dyn FnMut(&mut Rw, El) -> Res<TokenStream>,
) -> Res<TokenStream> {
    let Some(a) = ads.get(n) else {
        return sink(rw, el);
    };
    let name = a.method.to_string();
    match name.as_str() {
        "enumerate" => {
            let el2;
            let mut tail = quote!();
            if filtered {
                let cn = format_ident!("__n{k}_{}", *counters);
                let cur = format_ident!("__m{k}_{}", *counters);
                *counters += 1;
                pre.extend(quote!(let mut #cn: usize = 0;));
                tail = quote!(let #cur = #cn; #cn = #cn + 1;);
                el2 = El::Tup(vec![El::Ex(quote!(#cur)), el]);
            } else {
                el2 = El::Tup(vec![El::Ex(ix.clone()), el]);
            }
            let rest = adapt(rw, ads, n + 1, el2, ix, filtered, zips, k, counters, pre, sink)?;
            Ok(quote!(#tail #rest))
        }
        "copied" => {
            let el = El::Ex(deref(&el.tokens()));
            adapt(rw, ads, n + 1, el, ix, filtered, zips, k, counters, pre, sink)
        }
        "cloned" => {
            let t = deref(&el.tokens());
            let el = El::Ex(quote!((#t).clone()));
            adapt(rw, ads, n + 1, el, ix, filtered, zips, k, counters, pre, sink)
        }
        "iter" | "into_iter" | "by_ref" => adapt(rw, ads, n + 1, el, ix, filtered, zips, k, counters, pre, sink),
        "zip" => {
            if filtered {
                return Err("unsupported: zip after filter".into());
            }
            let o = zips.next().unwrap();
            let el = El::Tup(vec![el, o]);
            adapt(rw, ads, n + 1, el, ix, filtered, zips, k, counters, pre, sink)
        }
        "map" => {
            let cl = closure(&a.args[0], rw)?;
            let rest_has_loops = find_return(&cl.body).0;
            let cell = std::cell::RefCell::new((rw, zips, counters, pre, sink));
            let calls = std::cell::Cell::new(0usize);
            let down = |e: El| -> Res<TokenStream> {
                if calls.get() > 0 && !rest_has_loops {
                    return Err("internal: map body consumed twice".into());
                }
                calls.set(calls.get() + 1);
                let mut g = cell.borrow_mut();
                let (rw, zips, counters, pre, sink) = &mut *g;
                adapt(rw, ads, n + 1, e, ix, filtered, *zips, k, counters, pre, *sink)
            };
            apply(&cl, &[el], &down)
        }
        "filter" => {
            let cl = closure(&a.args[0], rw)?;
            let f = format_ident!("__f{k}_{n}");
            let mut b = TokenStream::new();
            let one: Vec<El> = match &el {
                // |(i, _)| on a reference to a tuple
                El::Tup(v) => vec![El::Tup(v.iter().map(|e| { let t = e.tokens(); El::Ex(quote!(&#t)) }).collect())],
                El::Ex(_) => vec![El::Ex(quote!(&#f))],
            };
            let pre_let = match &el { El::Ex(t) => quote!(let #f = #t;), _ => quote!() };
            bind(&cl.inputs[0], &one[0], &mut b);
            let body = &cl.body;
            let (h, bad) = find_return(body);
            if h || bad { return Err("unsupported: return in a filter closure".into()); }
            let el2 = match el { El::Ex(_) => El::Ex(quote!(#f)), t => t };
            let rest = adapt(rw, ads, n + 1, el2, ix, true, zips, k, counters, pre, sink)?;
            Ok(quote!(#pre_let if { #b #body } { #rest }))
        }
        "take_while" => {
            let cl = closure(&a.args[0], rw)?;
            let f = format_ident!("__f{k}_{n}");
            let t = el.tokens();
            let mut b = TokenStream::new();
            bind(&cl.inputs[0], &El::Ex(quote!(&#f)), &mut b);
            let body = &cl.body;
            let rest = adapt(rw, ads, n + 1, El::Ex(quote!(#f)), ix, true, zips, k, counters, pre, sink)?;
            Ok(quote!(let #f = #t; if !{ #b #body } { break; } #rest))
        }
        "map_while" => {
            let cl = closure(&a.args[0], rw)?;
            let (h, bad) = find_return(&cl.body);
            if h || bad { return Err("unsupported: return in a map_while closure".into()); }
            let f = format_ident!("__f{k}_{n}");
            let mut b = TokenStream::new();
            bind(&cl.inputs[0], &el, &mut b);
            let body = &cl.body;
            let rest = adapt(rw, ads, n + 1, El::Ex(quote!(#f)), ix, true, zips, k, counters, pre, sink)?;
            Ok(quote!(if let Some(#f) = { #b #body } { #rest } else { break; }))
        }
        "filter_map" => {
            let cl = closure(&a.args[0], rw)?;
            let (h, bad) = find_return(&cl.body);
            if h || bad { return Err("unsupported: return in a filter_map closure".into()); }
            let f = format_ident!("__f{k}_{n}");
            let mut b = TokenStream::new();
            bind(&cl.inputs[0], &el, &mut b);
            let body = &cl.body;
            let rest = adapt(rw, ads, n + 1, El::Ex(quote!(#f)), ix, true, zips, k, counters, pre, sink)?;
            Ok(quote!(if let Some(#f) = { #b #body } { #rest }))
        }
        "flat_map" => {
            let cl = closure(&a.args[0], rw)?;
            let mut b = TokenStream::new();
            bind(&cl.inputs[0], &el, &mut b);
            if n + 1 != ads.len() { return Err("unsupported: adapters after flat_map".into()); }
            let l = flat(rw, &cl.body, sink)?;
            Ok(quote!(#b #l))
        }
        o => Err(format!("unsupported: iterator adapter {o}")),
    }
}

/// What a flat_map closure yields, one element after the other.
fn flat(rw: &mut Rw, e: &Expr, sink: &mut dyn FnMut(&mut Rw, El) -> Res<TokenStream>) -> Res<TokenStream> {
    let last = |p: &Expr| match p { Expr::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default(), _ => String::new() };
    match strip(e) {
        Expr::Block(b) if b.label.is_none() => {
            let Some((Stmt::Expr(tail, None), lets)) = b.block.stmts.split_last() else { return Err("unsupported: flat_map body".into()) };
            let t = flat(rw, tail, sink)?;
            Ok(quote!({ #(#lets)* #t }))
        }
        Expr::If(i) => {
            let Some((_, no)) = &i.else_branch else { return Err("unsupported: flat_map body".into()) };
            let c = &i.cond;
            let yes: Expr = Expr::Block(ExprBlock { attrs: vec![], label: None, block: i.then_branch.clone() });
            let (a, b) = (flat(rw, &yes, sink)?, flat(rw, no, sink)?);
            Ok(quote!(if #c { #a } else { #b }))
        }
        Expr::Call(c) if c.args.len() == 1 && matches!(last(&c.func).as_str(), "Left" | "Right") => flat(rw, &c.args[0], sink),
        Expr::Call(c) if c.args.len() == 1 && last(&c.func) == "once" => { let x = sink(rw, from_expr(&c.args[0]))?; Ok(quote!(#x;)) }
        Expr::Call(c) if c.args.is_empty() && last(&c.func) == "empty" => Ok(quote!()),
        Expr::Array(a) => {
            let v: Vec<_> = a.elems.iter().map(|x| sink(rw, from_expr(x))).collect::<Res<_>>()?;
            Ok(quote!(#(#v;)*))
        }
        Expr::MethodCall(m) if m.args.is_empty() && m.method == "into_iter" && matches!(strip(&m.receiver), Expr::Array(_)) => flat(rw, &m.receiver, sink),
        Expr::Macro(m) if m.mac.path.is_ident("vec") => {
            let v = m.mac.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated).map_err(|_| "unsupported: flat_map body".to_string())?;
            let v: Vec<_> = v.iter().map(|x| sink(rw, from_expr(x))).collect::<Res<_>>()?;
            Ok(quote!(#(#v;)*))
        }
        e => {
            let inner = as_chain(e).ok_or("unsupported: flat_map body")?;
            gen_loop(rw, &inner, None, sink)
        }
    }
}

/// A method-call expression that ends an iterator chain.
pub fn try_sink(rw: &mut Rw, m: &ExprMethodCall) -> Res<Option<Expr>> {
    let name = m.method.to_string();
    if !SINKS.contains(&name.as_str()) {
        return Ok(None);
    }
    let Some(ch) = as_chain(&m.receiver) else { return Ok(None) };
    if (name == "min" || name == "max") && !m.args.is_empty() {
        return Ok(None);
    }
    let k = rw.peek_loop();
    let acc = format_ident!("__v{k}");
    let turbo: Option<Type> = m.turbofish.as_ref().and_then(|t| match t.args.first() { Some(GenericArgument::Type(t)) => Some(t.clone()), _ => None });
    let e: TokenStream = match name.as_str() {
        "collect" => {
            let ty = match rw.spec.types.get(&k.to_string()) {
                Some(t) => { let t: Type = parse_str(t).map_err(|e| e.to_string())?; Some(t) }
                None => turbo,
            };
            let ann = match ty {
                None => quote!(),
                Some(t) => {
                    let s = t.to_token_stream().to_string();
                    if !s.starts_with("Vec <") { return Err(format!("unsupported: collect into {s}")); }
                    quote!(: #t)
                }
            };
            let l = gen_loop(rw, &ch, None, &mut |_, el| { let t = el.tokens(); Ok(quote!(#acc.push(#t);)) })?;
            quote!({ let mut #acc #ann = Vec::new(); #l #acc })
        }
        "unzip" => {
            let (a, b) = (format_ident!("__v{k}a"), format_ident!("__v{k}b"));
            let l = gen_loop(rw, &ch, None, &mut |_, el| match el {
                El::Tup(v) if v.len() == 2 => { let (x, y) = (v[0].tokens(), v[1].tokens()); Ok(quote!(#a.push(#x); #b.push(#y);)) }
                el => { let t = el.tokens(); Ok(quote!(let (x__, y__) = #t; #a.push(x__); #b.push(y__);)) }
            })?;
            quote!({ let mut #a = Vec::new(); let mut #b = Vec::new(); #l (#a, #b) })
        }
        "sum" | "product" => {
            let s = turbo.map(|t| t.to_token_stream().to_string()).unwrap_or("f64".into());
            let z = match (name.as_str(), s.as_str()) {
                ("sum", "f64") => quote!(-0.0f64),
                ("product", "f64") => quote!(1.0f64),
                ("sum", _) => quote!(0),
                _ => quote!(1),
            };
            let op = if name == "sum" { quote!(+) } else { quote!(*) };
            let l = gen_loop(rw, &ch, None, &mut |_, el| { let t = el.tokens(); Ok(quote!(#acc = #acc #op #t;)) })?;
            quote!({ let mut #acc = #z; #l #acc })
        }
        "count" => {
            let l = gen_loop(rw, &ch, None, &mut |_, el| { let t = el.tokens(); Ok(quote!(let _ = #t; #acc = #acc + 1;)) })?;
            quote!({ let mut #acc: usize = 0; #l #acc })
        }
        "fold" => {
            let init = &m.args[0];
            let cl = closure(&m.args[1], rw)?;
            let l = gen_loop(rw, &ch, None, &mut |_, el| {
                let down = |e: El| { let t = e.tokens(); Ok(quote!(#acc = #t;)) };
                apply(&cl, &[El::Ex(quote!(#acc)), el], &down)
            })?;
            quote!({ let mut #acc = #init; #l #acc })
        }
        "for_each" => {
            let cl = closure(&m.args[0], rw)?;
            let l = gen_loop(rw, &ch, None, &mut |_, el| {
                let down = |e: El| match e { El::Tup(v) if v.is_empty() => Ok(quote!()), e => { let t = e.tokens(); Ok(quote!(#t;)) } };
                apply(&cl, &[el], &down)
            })?;
            quote!({ #l })
        }
        "rposition" => {
            let cl = closure(&m.args[0], rw)?;
            let plain = !ch.rev && ch.skip.is_none() && ch.take.is_none() && ch.adapters.iter().all(|a| matches!(a.method.to_string().as_str(), "map" | "copied" | "cloned" | "iter" | "into_iter"));
            let x = match &ch.src {
                Src::Slice { x, .. } if plain => match strip(x) { Expr::Reference(r) => strip(&r.expr).clone(), x => x.clone() },
                _ => return Err("unsupported: rposition".into()),
            };
            if !is_place(&x) { return Err("unsupported: rposition".into()); }
            let at = format_ident!("__c{k}");
            let rch = Chain { src: match &ch.src { Src::Slice { x, own } => Src::Slice { x: x.clone(), own: *own }, _ => unreachable!() }, rev: true, skip: None, take: None, adapters: ch.adapters.clone() };
            let l = gen_loop(rw, &rch, None, &mut |_, el| {
                let (h, bad) = find_return(&cl.body);
                if h || bad { return Err("unsupported: return in a predicate closure".into()); }
                let mut b = TokenStream::new();
                bind(&cl.inputs[0], &el, &mut b);
                let body = &cl.body;
                Ok(quote!(if { #b #body } { #acc = Some(#x.len() - 1 - #at); break; }))
            })?;
            quote!({ let mut #acc: Option<usize> = None; #l #acc })
        }
        "position" | "any" | "all" | "find" => {
            let cl = closure(&m.args[0], rw)?;
            let cnt = format_ident!("__p{k}");
            let (init, hit, neg) = match name.as_str() {
                "position" => (quote!(None), quote!(Some(#cnt)), false),
                "any" => (quote!(false), quote!(true), false),
                "all" => (quote!(true), quote!(false), true),
                _ => (quote!(None), quote!(Some(x__)), false),
            };
            let find = name == "find";
            let pos = name == "position";
            let l = gen_loop(rw, &ch, None, &mut |_, el| {
                let (h, bad) = find_return(&cl.body);
                if h || bad { return Err("unsupported: return in a predicate closure".into()); }
                let mut b = TokenStream::new();
                let mut p = quote!();
                if find { let t = el.tokens(); p = quote!(let x__ = #t;); bind(&cl.inputs[0], &El::Ex(quote!(&x__)), &mut b); } else { bind(&cl.inputs[0], &el, &mut b); }
                let body = &cl.body;
                let c = if neg { quote!(!{ #b #body }) } else { quote!({ #b #body }) };
                let inc = if pos { quote!(#cnt = #cnt + 1;) } else { quote!() };
                Ok(quote!(#p if #c { #acc = #hit; break; } #inc))
            })?;
            let d = if pos { quote!(let mut #cnt: usize = 0;) } else { quote!() };
            let ty = if pos { quote!(: Option<usize>) } else { quote!() };
            quote!({ #d let mut #acc #ty = #init; #l #acc })
        }
        "min_by" | "max_by" => {
            let cl = closure(&m.args[0], rw)?;
            let keep = if name == "min_by" { quote!(std::cmp::Ordering::Greater) } else { quote!(std::cmp::Ordering::Greater) };
            let minp = name == "min_by";
            let l = gen_loop(rw, &ch, None, &mut |_, el| {
                let t = el.tokens();
                let mut b = TokenStream::new();
                bind(&cl.inputs[0], &El::Ex(quote!(&b__)), &mut b);
                bind(&cl.inputs[1], &El::Ex(quote!(&n__)), &mut b);
                let body = &cl.body;
                // min_by keeps the first minimum, max_by the last maximum
                let (x, y) = if minp { (quote!(n__), quote!(b__)) } else { (quote!(b__), quote!(n__)) };
                Ok(quote!(let n__ = #t; #acc = match #acc { None => Some(n__), Some(b__) => { let o__ = { #b #body }; match o__ { #keep => Some(#x), _ => Some(#y) } } };))
            })?;
            { let ann = opt_ann(rw, k)?; quote!({ let mut #acc #ann = None; #l #acc }) }
        }
        "min" | "max" => {
            let minp = name == "min";
            // references are compared by what they point at
            let val = match ch.adapters.last() { Some(a) => a.method == "map" || a.method == "copied" || a.method == "cloned" || a.method == "filter_map" || a.method == "map_while", None => matches!(ch.src, Src::Range { .. }) };
            let l = gen_loop(rw, &ch, None, &mut |_, el| {
                let t = el.tokens();
                let c = match (minp, val) { (true, false) => quote!(*n__ < *b__), (false, false) => quote!(*n__ >= *b__), (true, true) => quote!(n__ < b__), (false, true) => quote!(n__ >= b__) };
                Ok(quote!(let n__ = #t; #acc = match #acc { None => Some(n__), Some(b__) => { if #c { Some(n__) } else { Some(b__) } } };))
            })?;
            { let ann = opt_ann(rw, k)?; quote!({ let mut #acc #ann = None; #l #acc }) }
        }
        o => return Err(format!("unsupported: iterator sink {o}")),
    };
    let e: Expr = parse2(e.clone()).map_err(|x| format!("internal: {x}: {e}"))?;
    Ok(Some(e))
}

fn opt_ann(rw: &Rw, k: usize) -> Res<TokenStream> {
    Ok(match rw.spec.types.get(&k.to_string()) {
        Some(t) => { let t: Type = syn::parse_str(t).map_err(|e| format!("type: {e}"))?; quote!(: #t) }
        None => quote!(),
    })
}
pub fn for_loop(rw: &mut Rw, f: &ExprForLoop) -> Res<Expr> {
    let it = strip(&f.expr);
    let ch = match as_chain(it) {
        Some(c) => c,
        None => match it {
            Expr::Reference(r) => Chain {
                src: Src::Slice { x: (*r.expr).clone(), own: if r.mutability.is_some() { 1 } else { 0 } },
                rev: false, skip: None, take: None, adapters: vec![],
            },
            o => {
                let own = match o {
                    Expr::Path(p) => match p.path.get_ident() { Some(id) if rw.refs.contains(&id.to_string()) => 0, _ => 2 },
                    _ => 2,
                };
                Chain { src: Src::Slice { x: o.clone(), own }, rev: false, skip: None, take: None, adapters: vec![] }
            }
        },
    };
    let pat = &f.pat;
    let body = &f.body.stmts;
    let l = gen_loop(rw, &ch, f.label.as_ref(), &mut |_, el| {
        let mut b = TokenStream::new();
        bind(pat, &el, &mut b);
        Ok(quote!(#b #(#body)*))
    })?;
    let e = quote!({ #l });
    parse2(e.clone()).map_err(|x| format!("internal: {x}: {e}"))
}
