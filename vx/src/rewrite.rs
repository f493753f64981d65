//! Expression-level rewriting of one extracted function.
use crate::chain;
use crate::overlay::FnSpec;
use crate::Res;
use proc_macro2::TokenStream;
use quote::{format_ident, quote, ToTokens};
use std::collections::{BTreeMap, BTreeSet};
use syn::{visit_mut::VisitMut, *};

pub struct Rw<'a> {
    pub file: &'a File,
    pub spec: &'a FnSpec,
    pub known: &'a BTreeSet<String>,
    pub self_ty: Option<String>,
    pub lits: &'a mut BTreeSet<String>,
    pub notes: &'a mut Vec<String>,
    pub loops: usize,
    pub sorts: usize,
    pub extra: String, // lifted comparator functions
    pub closures: BTreeMap<String, ExprClosure>,
    pub nclos: usize,
    pub refs: BTreeSet<String>, // parameters that are references
    pub locals: BTreeSet<String>,
    pub depth: usize,
    pub strs: BTreeSet<String>, // text compared against
    pub cursors: BTreeSet<String>, // locals that step through the pieces of a text
    pub err: Option<String>,
}

pub fn f_ident(f: &str) -> bool {
    f == "f64" || f == "f32"
}

impl<'a> Rw<'a> {
    pub fn next_loop(&mut self) -> usize {
        self.loops += 1;
        self.loops - 1
    }
    pub fn peek_loop(&self) -> usize {
        self.loops
    }
    fn fail(&mut self, m: String) {
        if self.err.is_none() {
            self.err = Some(m);
        }
    }
    fn take<T>(&mut self, r: Res<T>) -> Option<T> {
        match r {
            Ok(x) => Some(x),
            Err(m) => {
                self.fail(m);
                None
            }
        }
    }

    fn const_of(&self, name: &str) -> Option<Expr> {
        for it in &self.file.items {
            if let Item::Const(c) = it {
                if c.ident == name {
                    return Some((*c.expr).clone());
                }
            }
        }
        None
    }
    fn assoc_const_of(&self, name: &str) -> Option<Expr> {
        let st = self.self_ty.as_ref()?;
        for it in &self.file.items {
            if let Item::Impl(i) = it {
                if crate::emit::type_name(&i.self_ty) == *st {
                    for x in &i.items {
                        if let ImplItem::Const(c) = x {
                            if c.ident == name {
                                return Some(c.expr.clone());
                            }
                        }
                    }
                }
            }
        }
        None
    }
    fn local_fn(&self, path: &str) -> Option<(Signature, Block)> {
        crate::emit::find_fn(self.file, path).ok()
    }

    fn inline(&mut self, name: &str, sig: &Signature, body: &Block, args: Vec<Expr>, recv: Option<Expr>) -> Res<Expr> {
        if self.depth > 6 {
            return Err(format!("unsupported: recursive helper {name}"));
        }
        struct HasRet(bool);
        impl<'b> syn::visit::Visit<'b> for HasRet {
            fn visit_expr_closure(&mut self, _: &'b ExprClosure) {}
            fn visit_expr_return(&mut self, _: &'b ExprReturn) {
                self.0 = true
            }
            fn visit_expr_try(&mut self, _: &'b ExprTry) {
                self.0 = true
            }
        }
        let mut body = body.clone();
        crate::rewrite::tail_returns(&mut body);
        let mut h = HasRet(false);
        syn::visit::Visit::visit_block(&mut h, &body);
        if h.0 {
            return Err(format!("unsupported: helper {name} has an early return and no contract"));
        }
        if !sig.generics.params.is_empty() && sig.generics.params.iter().any(|p| !matches!(p, GenericParam::Lifetime(_))) {
            return Err(format!("unsupported: generic helper {name} without a contract"));
        }
        let mut pats: Vec<TokenStream> = vec![];
        let mut tys: Vec<TokenStream> = vec![];
        for p in &sig.inputs {
            if let FnArg::Typed(t) = p {
                let mut ty = (*t.ty).clone();
                strip_lifetimes(&mut ty);
                pats.push(t.pat.to_token_stream());
                tys.push(ty.to_token_stream());
            }
        }
        if pats.len() != args.len() {
            return Err(format!("unsupported: call of helper {name}"));
        }
        if let Some(r) = recv {
            let r = match r {
                Expr::Path(_) | Expr::Field(_) => r,
                _ => return Err(format!("unsupported: receiver of helper {name}")),
            };
            if r.to_token_stream().to_string() != "self" {
                struct S(Expr);
                impl VisitMut for S {
                    fn visit_expr_mut(&mut self, e: &mut Expr) {
                        if let Expr::Path(p) = e {
                            if p.path.is_ident("self") {
                                *e = self.0.clone();
                                return;
                            }
                        }
                        visit_mut::visit_expr_mut(self, e);
                    }
                }
                S(r).visit_block_mut(&mut body);
            }
        }
        self.notes.push(format!("helper {name} inlined at its call"));
        let stmts = &body.stmts;
        let e = if args.is_empty() {
            quote!({ #(#stmts)* })
        } else {
            quote!({ let (#(#pats,)*): (#(#tys,)*) = (#(#args,)*); #(#stmts)* })
        };
        parse2(e.clone()).map_err(|x| format!("internal: {x}: {e}"))
    }
}

/// `return e;` in tail position of a block becomes the tail expression.
pub fn tail_returns(b: &mut Block) {
    let n = b.stmts.len();
    if n == 0 {
        return;
    }
    if let Stmt::Expr(e, semi) = &mut b.stmts[n - 1] {
        tail_expr(e);
        if let Expr::Return(r) = e {
            if let Some(x) = r.expr.take() {
                *e = *x;
                *semi = None;
            }
        } else if semi.is_some() && matches!(e, Expr::If(_) | Expr::Match(_)) && false {
            *semi = None;
        }
    }
    // if c { return a; } rest   ==>  if c { a } else { rest }
    for i in 0..b.stmts.len() {
        if i + 1 >= b.stmts.len() {
            break;
        }
        let is_guard = match &b.stmts[i] {
            Stmt::Expr(Expr::If(f), _) => {
                f.else_branch.is_none() && matches!(f.then_branch.stmts.last(), Some(Stmt::Expr(Expr::Return(_), _)))
            }
            _ => false,
        };
        if is_guard {
            let rest: Vec<Stmt> = b.stmts.split_off(i + 1);
            let mut rb = Block { brace_token: Default::default(), stmts: rest };
            tail_returns(&mut rb);
            if let Some(Stmt::Expr(Expr::If(mut f), _)) = b.stmts.pop() {
                tail_returns(&mut f.then_branch);
                f.else_branch = Some((Default::default(), Box::new(Expr::Block(ExprBlock { attrs: vec![], label: None, block: rb }))));
                b.stmts.push(Stmt::Expr(Expr::If(f), None));
            }
            return;
        }
    }
}
fn tail_expr(e: &mut Expr) {
    match e {
        Expr::If(f) => {
            if f.else_branch.is_some() {
                tail_returns(&mut f.then_branch);
                if let Some((_, x)) = &mut f.else_branch {
                    tail_expr(x);
                }
            }
        }
        Expr::Block(b) => tail_returns(&mut b.block),
        Expr::Match(m) => {
            for a in &mut m.arms {
                tail_expr(&mut a.body);
                if let Expr::Return(r) = &mut *a.body {
                    if let Some(x) = r.expr.take() {
                        a.body = x;
                    }
                }
            }
        }
        _ => {}
    }
}

pub fn strip_lifetimes(t: &mut Type) {
    struct L;
    impl VisitMut for L {
        fn visit_type_reference_mut(&mut self, r: &mut TypeReference) {
            if let Some(l) = &r.lifetime {
                if l.ident != "static" {
                    r.lifetime = None;
                }
            }
            visit_mut::visit_type_reference_mut(self, r);
        }
    }
    L.visit_type_mut(t);
}

fn simple_place(e: &Expr) -> bool {
    struct C(bool);
    impl<'b> syn::visit::Visit<'b> for C {
        fn visit_expr(&mut self, e: &'b Expr) {
            match e {
                Expr::Call(_) | Expr::Macro(_) | Expr::Assign(_) | Expr::Block(_) | Expr::Closure(_) => self.0 = false,
                Expr::MethodCall(m) if m.method != "len" => self.0 = false,
                _ => syn::visit::visit_expr(self, e),
            }
        }
    }
    let mut c = C(true);
    syn::visit::Visit::visit_expr(&mut c, e);
    c.0
}

impl VisitMut for Rw<'_> {
    fn visit_attributes_mut(&mut self, a: &mut Vec<Attribute>) {
        a.clear();
    }

    fn visit_type_mut(&mut self, t: &mut Type) {
        if let Type::Path(p) = t {
            if let Some(l) = p.path.segments.last_mut() {
                if l.ident == "Formatter" { l.arguments = PathArguments::None; }
            }
        }
        visit_mut::visit_type_mut(self, t);
        if let Type::Path(p) = t {
            if p.qself.is_none() {
                let s = p.path.to_token_stream().to_string();
                if s == "f64" {
                    *t = parse_quote!(F64);
                } else if s == "f32" {
                    *t = parse_quote!(F32);
                }
            }
        }
    }
    fn visit_generic_argument_mut(&mut self, g: &mut GenericArgument) {
        visit_mut::visit_generic_argument_mut(self, g);
    }

    fn visit_path_mut(&mut self, p: &mut Path) {
        // the emitted text is one flat module: crate::a::b::X is X
        let n = p.segments.len();
        if n > 1 && matches!(p.segments[0].ident.to_string().as_str(), "crate" | "super") {
            let k = (1..n).find(|i| p.segments[*i].ident.to_string().starts_with(|c: char| c.is_uppercase())).unwrap_or(n - 1);
            let rest: Vec<PathSegment> = p.segments.iter().skip(k).cloned().collect();
            p.segments = rest.into_iter().collect();
        }
        if n > 2 && matches!(p.segments[0].ident.to_string().as_str(), "std" | "core") && p.segments[1].ident == "fmt" {
            let rest: Vec<PathSegment> = p.segments.iter().skip(1).cloned().collect();
            p.segments = rest.into_iter().collect();
        }
        visit_mut::visit_path_mut(self, p);
    }

    fn visit_item_mut(&mut self, i: &mut Item) {
        visit_mut::visit_item_mut(self, i);
    }

    fn visit_block_mut(&mut self, b: &mut Block) {
        // nested consts become lets, do-nothing statements are dropped,
        // closures bound by let are remembered and inlined where called
        let mut out = vec![];
        for mut s in std::mem::take(&mut b.stmts) {
            match &mut s {
                Stmt::Item(Item::Const(c)) => {
                    let name = c.ident.to_string();
                    struct P(String, bool);
                    impl<'b> syn::visit::Visit<'b> for P {
                        fn visit_pat(&mut self, p: &'b Pat) {
                            match p {
                                Pat::Ident(i) if i.ident == self.0.as_str() => self.1 = true,
                                _ => {}
                            }
                            syn::visit::visit_pat(self, p);
                        }
                    }
                    let (id, ty, ex) = (&c.ident, &c.ty, &c.expr);
                    let _ = name;
                    out.push(parse_quote!(let #id: #ty = #ex;));
                    continue;
                }
                Stmt::Item(Item::Use(_)) => continue,
                Stmt::Local(l) => {
                    if let (Pat::Wild(_), Some(init)) = (&l.pat, &l.init) {
                        if matches!(&*init.expr, Expr::Lit(_) | Expr::Path(_) | Expr::Reference(_)) {
                            continue;
                        }
                        if let Expr::Tuple(t) = &*init.expr { if t.elems.is_empty() { continue; } }
                    }
                    if let (Pat::Ident(id), Some(init)) = (&l.pat, &l.init) {
                        if let Expr::Closure(c) = &*init.expr {
                            self.closures.insert(id.ident.to_string(), c.clone());
                            self.notes.push(format!("closure {} inlined at its calls", id.ident));
                            continue;
                        }
                        // a local that nothing reads and whose initialiser is a literal
                    }
                }
                Stmt::Expr(Expr::Tuple(t), Some(_)) if t.elems.is_empty() => continue,
                Stmt::Expr(Expr::Lit(_), Some(_)) => continue,
                Stmt::Expr(Expr::Block(x), _) if x.block.stmts.is_empty() => continue,
                Stmt::Expr(Expr::If(f), _) if f.else_branch.is_none() && f.cond.to_token_stream().to_string() == "false" => continue,
                _ => {}
            }
            out.push(s);
        }
        b.stmts = out;
        visit_mut::visit_block_mut(self, b);
    }

    fn visit_stmt_mut(&mut self, s: &mut Stmt) {
        if let Stmt::Macro(m) = s {
            let name = m.mac.path.segments.last().unwrap().ident.to_string();
            if name.starts_with("__vx") {
                return;
            }
            if matches!(name.as_str(), "println" | "eprintln" | "print" | "eprint") {
                self.notes.push(format!("{name}! dropped"));
                *s = parse_quote!({});
                return;
            }
            let e = Expr::Macro(ExprMacro { attrs: vec![], mac: m.mac.clone() });
            *s = Stmt::Expr(e, m.semi_token.or(Some(Default::default())));
        }
        // a local that steps through the pieces of a text
        if self.spec.opts.contains("words") {
            if let Stmt::Local(l) = s {
                if let (Pat::Ident(i), Some(init)) = (&l.pat, &mut l.init) { if i.mutability.is_some() {
                    if let Expr::MethodCall(m) = &mut *init.expr {
                        if let Some(t) = (m.method == "split" && m.args.len() == 1).then(|| one_text(&m.args[0])).flatten() {
                            self.cursors.insert(i.ident.to_string());
                            m.method = format_ident!("vpieces");
                            m.args = std::iter::once::<Expr>(parse_quote!(#t)).collect();
                        }
                    }
                } }
            }
        }
        visit_mut::visit_stmt_mut(self, s);
    }

    fn visit_pat_mut(&mut self, p: &mut Pat) {
        if let Pat::Ident(i) = p {
            if i.subpat.is_none() && self.const_of(&i.ident.to_string()).is_some() {
                self.fail(format!("unsupported: module constant {} used in a pattern", i.ident));
            }
        }
        visit_mut::visit_pat_mut(self, p);
    }

    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if self.err.is_some() {
            return;
        }
        // `cut`: ranges index and measure text by its bytes
        if self.spec.opts.contains("cut") {
            // the text's own length, in bytes
            struct L(String);
            impl VisitMut for L {
                fn visit_expr_mut(&mut self, e: &mut Expr) {
                    visit_mut::visit_expr_mut(self, e);
                    if let Expr::MethodCall(m) = e { if m.method == "len" && m.args.is_empty() && m.receiver.to_token_stream().to_string() == self.0 { m.method = format_ident!("vlen"); } }
                }
            }
            match e {
                Expr::Index(i) => { let t = i.expr.to_token_stream().to_string(); L(t).visit_expr_mut(&mut i.index); }
                Expr::MethodCall(m) if m.method == "get" && m.args.len() == 1 => { let t = m.receiver.to_token_stream().to_string(); L(t).visit_expr_mut(&mut m.args[0]); }
                _ => {}
            }
            let ends = |x: &Expr| match chain::strip(x) { Expr::Range(r) if matches!(r.limits, RangeLimits::HalfOpen(_)) => Some((r.start.clone(), r.end.clone())), _ => None };
            let new: Option<Expr> = match &*e {
                Expr::Index(i) => ends(&i.index).map(|(a, b)| {
                    let x = &i.expr;
                    match (a, b) { (Some(a), Some(b)) => parse_quote!((#x).vcut(#a, #b)), (Some(a), None) => parse_quote!((#x).vcut_from(#a)), (None, Some(b)) => parse_quote!((#x).vcut(0, #b)), (None, None) => parse_quote!((#x).vcut_from(0)) }
                }),
                Expr::MethodCall(m) if m.method == "get" && m.args.len() == 1 => ends(&m.args[0]).map(|(a, b)| {
                    let x = &m.receiver;
                    match (a, b) { (Some(a), Some(b)) => parse_quote!((#x).vget(#a, #b)), (Some(a), None) => parse_quote!((#x).vget_from(#a)), (None, Some(b)) => parse_quote!((#x).vget(0, #b)), (None, None) => parse_quote!((#x).vget_from(0)) }
                }),
                _ => None,
            };
            if let Some(x) = new { *e = x; }
        }
        // `words`: a text's words and lines are lists
        if self.spec.opts.contains("words") {
            if let Expr::Path(p) = &mut *e {
                if p.path.segments.len() == 2 && p.path.segments[1].ident == "from_str" && matches!(p.path.segments[0].ident.to_string().as_str(), "f64" | "i32" | "u32" | "usize" | "i64") { p.path.segments[1].ident = format_ident!("vfrom"); }
            }
            if let Expr::ForLoop(f) = e {
                if f.label.is_none() && matches!(chain::strip(&f.expr), Expr::Path(p) if p.path.get_ident().map_or(false, |i| self.cursors.contains(&i.to_string()))) {
                    let (p, b, x) = (&f.pat, &f.body.stmts, &f.expr);
                    *e = parse_quote!(loop { let #p = match #x.next() { Some(x__) => x__, None => break }; #(#b)* });
                    self.visit_expr_mut(e);
                    return;
                }
            }
            if let Expr::ForLoop(f) = e {
                if let Expr::MethodCall(w) = chain::strip(&f.expr) {
                    if is_pieces(w) { let r = &f.expr; f.expr = parse_quote!((#r).into_iter()); }
                }
            }
            if let Expr::MethodCall(m) = e {
                if m.method == "split_whitespace" && m.args.is_empty() { m.method = format_ident!("vwords"); }
                if m.method == "lines" && m.args.is_empty() { m.method = format_ident!("vlines"); }
                wrap_words(&mut m.receiver);
                if m.method == "split" && m.args.len() == 1 {
                    if let Some(t) = one_text(&m.args[0]) { m.method = format_ident!("vsplit"); m.args = std::iter::once::<Expr>(parse_quote!(#t)).collect(); }
                }
                if m.method == "starts_with" && m.args.len() == 1 && matches!(&m.args[0], Expr::Lit(ExprLit { lit: Lit::Str(_), .. })) { m.method = format_ident!("vstarts"); }
                let from_words = matches!(chain::strip(&m.receiver), Expr::MethodCall(w) if is_pieces(w));
                if (from_words && m.method != "into_iter" && m.method != "iter") || (m.method == "for_each" && matches!(chain::strip(&m.receiver), Expr::Path(_))) {
                    let r = &m.receiver;
                    m.receiver = parse_quote!((#r).into_iter());
                }
            }
        }
        match e {
            Expr::ForLoop(f) => {
                let f = f.clone();
                let r = chain::for_loop(self, &f);
                if let Some(x) = self.take(r) {
                    *e = x;
                    visit_mut::visit_expr_mut(self, e);
                }
                return;
            }
            Expr::While(w) => {
                let marked = matches!(w.body.stmts.first(), Some(Stmt::Macro(m)) if m.mac.path.is_ident("__vx_inv"));
                if !marked {
                    let k = self.next_loop();
                    w.body.stmts.insert(0, parse_quote!(__vx_inv!(#k);));
                    let w2 = w.clone();
                    visit_mut::visit_expr_mut(self, e);
                    let _ = w2;
                    let inner = e.clone();
                    *e = parse_quote!({ #inner __vx_after!(#k); });
                    return;
                }
            }
            Expr::Loop(w) => {
                let marked = matches!(w.body.stmts.first(), Some(Stmt::Macro(m)) if m.mac.path.is_ident("__vx_inv"));
                if !marked {
                    let k = self.next_loop();
                    w.body.stmts.insert(0, parse_quote!(__vx_inv!(#k);));
                }
            }
            Expr::MethodCall(m) => {
                let m = m.clone();
                let name = m.method.to_string();
                // itertools: collected, then sorted
                if name == "collect" {
                    if let Expr::MethodCall(so) = chain::strip(&m.receiver) {
                        if so.method == "sorted_by" && so.args.len() == 1 {
                            let (r, c) = (&so.receiver, &so.args[0]);
                            *e = parse_quote!({ let mut s__ = #r.collect::<Vec<_>>(); s__.sort_by(#c); s__ });
                            self.visit_expr_mut(e);
                            return;
                        }
                    }
                }
                let r = chain::try_sink(self, &m);
                match self.take(r) {
                    None => return,
                    Some(Some(x)) => {
                        *e = x;
                        visit_mut::visit_expr_mut(self, e);
                        return;
                    }
                    Some(None) => {}
                }
                if matches!(name.as_str(), "sort_by" | "sort_unstable_by") {
                    self.sort_call(e, &m);
                    return;
                }
                if (name == "max" || name == "min") && m.args.len() == 1 {
                    if let Expr::MethodCall(mm) = e {
                        mm.method = format_ident!("v{}", name);
                    }
                    // literal receivers such as 0.0f64.max(..) are handled by the literal rewrite
                }
                if name == "clamp" && m.args.len() == 2 {
                    if let Expr::MethodCall(mm) = e {
                        mm.method = format_ident!("vclamp");
                    }
                }
                // text: parsing and the conversions of a literal go through the overlay's text library
                if self.spec.opts.contains("parse") {
                    let to = match (name.as_str(), m.args.len()) {
                        ("parse", 0) => Some("vparse"),
                        ("unwrap_or", 1) => Some("vunwrap_or"),
                        ("to_string" | "to_owned", 0) => Some("vto_string"),
                        _ => None,
                    };
                    if let Some(to) = to {
                        if let Expr::MethodCall(mm) = e { mm.method = format_ident!("{}", to); }
                    }
                    if name == "into" && matches!(&*m.receiver, Expr::Lit(ExprLit { lit: Lit::Str(_), .. })) {
                        if let Expr::MethodCall(mm) = e { mm.method = format_ident!("vto_string"); }
                    }
                    if name == "map_err" && m.args.len() == 1 {
                        if let Expr::Closure(k) = &m.args[0] {
                            if k.inputs.len() == 1 && matches!(k.inputs[0], Pat::Wild(_)) {
                                let (r, b) = (&m.receiver, &k.body);
                                *e = parse_quote!(match #r { Ok(x__) => Ok(x__), Err(_) => Err(#b) });
                                self.visit_expr_mut(e);
                                return;
                            }
                        }
                    }
                    if name == "contains" && m.args.len() == 1 && matches!(&m.args[0], Expr::Lit(ExprLit { lit: Lit::Char(_), .. })) {
                        if let Expr::MethodCall(mm) = e { mm.method = format_ident!("vhas"); }
                    }
                    if name == "is_char_boundary" && m.args.len() == 1 {
                        if let Expr::MethodCall(mm) = e { mm.method = format_ident!("vboundary"); }
                    }
                    if name == "contains" && m.args.len() == 1 && matches!(&m.args[0], Expr::Lit(ExprLit { lit: Lit::Str(_), .. })) {
                        if let Expr::MethodCall(mm) = e { mm.method = format_ident!("vcontains"); }
                    }
                    if name == "replace" && m.args.len() == 2 && m.args[1].to_token_stream().to_string() == "\"\"" {
                        if let Some(cs) = char_set(&m.args[0]) {
                            let (r, k) = (&m.receiver, format_ident!("vec_of_{}", cs.len()));
                            *e = parse_quote!((#r).vremove(#k(#(#cs),*)));
                            visit_mut::visit_expr_mut(self, e);
                            return;
                        }
                    }
                }
                // a length is a usize: converting it to the type it has changes nothing (another target type would not type check)
                if matches!(name.as_str(), "unwrap" | "expect") {
                    if let Expr::MethodCall(t) = chain::strip(&m.receiver) {
                        if t.method == "try_into" && t.args.is_empty() && matches!(chain::strip(&t.receiver), Expr::MethodCall(l) if l.method == "len" && l.args.is_empty()) {
                            *e = (*t.receiver).clone();
                            visit_mut::visit_expr_mut(self, e);
                            return;
                        }
                    }
                }
                if name == "ok_or_else" {
                    if let Some(Expr::Closure(c)) = m.args.first() {
                        if c.inputs.is_empty() {
                            let (r, b) = (&m.receiver, &c.body);
                            *e = parse_quote!((#r).ok_or(#b));
                            visit_mut::visit_expr_mut(self, e);
                            return;
                        }
                    }
                }
                // the text Display writes
                let lit = matches!(&*m.receiver, Expr::Lit(ExprLit { lit: Lit::Str(_), .. }));
                if (name == "to_string" || (lit && (name == "into" || name == "to_owned"))) && m.args.is_empty() && self.spec.opts.contains("show") {
                    let r = m.receiver.clone();
                    *e = parse_quote!(shown_string(&#r));
                    visit_mut::visit_expr_mut(self, e);
                    return;
                }
                // the pieces of a text put together
                if name == "join" && m.args.len() == 1 && self.spec.opts.contains("fmt") {
                    if let Expr::MethodCall(mm) = e { mm.method = format_ident!("vjoin"); }
                }
                // partial_cmp through references: the overlay's VCmp trait gives it a contract
                if name == "partial_cmp" && m.args.len() == 1 && self.spec.opts.contains("pcmp") {
                    if let Expr::MethodCall(mm) = e { mm.method = format_ident!("vpartial_cmp"); }
                }
                // the conversion of an error by a function
                if name == "map_err" && m.args.len() == 1 && self.spec.opts.contains("tryid") {
                    if let Expr::Path(p) = &m.args[0] {
                        let r = &m.receiver;
                        *e = parse_quote!((match #r { Ok(x__) => Ok(x__), Err(e__) => Err(#p(e__)) }));
                        visit_mut::visit_expr_mut(self, e);
                        return;
                    }
                }
                // Option/Result combinators with a closure
                if m.args.len() >= 1 && matches!(m.args.last(), Some(Expr::Closure(_))) {
                    let Some(Expr::Closure(c)) = m.args.last().cloned() else { unreachable!() };
                    let r = &m.receiver;
                    let b = &c.body;
                    let p = c.inputs.first();
                    let mut x: Option<Expr> = None;
                    if !has_return(b) {
                        match (name.as_str(), p) {
                            ("map", Some(p)) => x = Some(parse_quote!((match #r { Some(#p) => Some(#b), None => None }))),
                            ("and_then", Some(p)) => x = Some(parse_quote!((match #r { Some(#p) => #b, None => None }))),
                            ("unwrap_or_else", None) => x = Some(parse_quote!((match #r { Some(x__) => x__, None => #b }))),
                            ("map_err", Some(p)) => x = Some(parse_quote!((match #r { Ok(x__) => Ok(x__), Err(#p) => Err(#b) }))),
                            ("map_or", Some(p)) => {
                                let d = &m.args[0];
                                x = Some(parse_quote!((match #r { Some(#p) => #b, None => #d })));
                            }
                            ("is_some_and", Some(p)) => x = Some(parse_quote!((match #r { Some(#p) => #b, None => false }))),
                            _ => {}
                        }
                    }
                    if let Some(x) = x {
                        *e = x;
                        visit_mut::visit_expr_mut(self, e);
                        return;
                    }
                }
                // helper method without a contract: inline
                if let Some(st) = self.self_ty.clone() {
                    let p = format!("{st}::{name}");
                    let is_self = matches!(&*m.receiver, Expr::Path(p) if p.path.is_ident("self"));
                    if is_self && !self.known.contains(&p) {
                        if let Some((sig, body)) = self.local_fn(&p) {
                            let args = m.args.iter().cloned().collect();
                            let r = self.inline(&p, &sig, &body, args, Some((*m.receiver).clone()));
                            if let Some(x) = self.take(r) {
                                *e = x;
                                self.depth += 1;
                                visit_mut::visit_expr_mut(self, e);
                                self.depth -= 1;
                            }
                            return;
                        }
                    }
                }
            }
            Expr::Call(c) => {
                if let Expr::Path(p) = &*c.func {
                    if c.args.is_empty() && p.path.to_token_stream().to_string() == "Vec :: new" {
                        if let Some(t) = self.spec.types.get("vec!").and_then(|t| parse_str::<Type>(t).ok()) {
                            *e = parse_quote!(Vec::<#t>::new());
                            return;
                        }
                    }
                    if p.path.to_token_stream().to_string() == "Vec :: with_capacity" {
                        if let Some(t) = self.spec.types.get("vec!").and_then(|t| parse_str::<Type>(t).ok()) {
                            c.func = parse_quote!(Vec::<#t>::with_capacity);
                            visit_mut::visit_expr_call_mut(self, c);
                            return;
                        }
                    }
                    if let Some(id) = p.path.get_ident() {
                        if let Some(cl) = self.closures.get(&id.to_string()).cloned() {
                            let ps: Vec<&Pat> = cl.inputs.iter().collect();
                            let args: Vec<&Expr> = c.args.iter().collect();
                            let b = &cl.body;
                            if has_return(b) {
                                self.fail("unsupported: return in a local closure".into());
                                return;
                            }
                            let (pp, tt): (Vec<TokenStream>, Vec<TokenStream>) = ps
                                .iter()
                                .map(|p| match p {
                                    Pat::Type(t) => { let (a, b) = (&t.pat, &t.ty); (quote!(#a), quote!(#b)) }
                                    p => (quote!(#p), quote!(_)),
                                })
                                .unzip();
                            *e = if ps.is_empty() { parse_quote!({ #b }) } else { parse_quote!({ let (#(#pp,)*): (#(#tt,)*) = (#(#args,)*); #b }) };
                            visit_mut::visit_expr_mut(self, e);
                            return;
                        }
                    }
                    let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                    // std::ops methods written as functions are the operators
                    if let ([.., t, f], [x, y]) = (segs.as_slice(), c.args.iter().collect::<Vec<_>>().as_slice()) {
                        let op: Option<Expr> = match (t.as_str(), f.as_str()) {
                            ("Add", "add") => Some(parse_quote!((#x) + (#y))),
                            ("Sub", "sub") => Some(parse_quote!((#x) - (#y))),
                            ("Mul", "mul") => Some(parse_quote!((#x) * (#y))),
                            ("Div", "div") => Some(parse_quote!((#x) / (#y))),
                            _ => None,
                        };
                        if let Some(x) = op { *e = x; visit_mut::visit_expr_mut(self, e); return; }
                    }
                    let key = match segs.as_slice() {
                        [a] => Some(a.clone()),
                        [s, b] if s == "Self" => self.self_ty.clone().map(|t| format!("{t}::{b}")),
                        [a, b] => Some(format!("{a}::{b}")),
                        _ => None,
                    };
                    if let Some(k) = key {
                        if !self.known.contains(&k) && !(k.contains("::") && self.known.contains(k.rsplit("::").next().unwrap())) {
                            if let Some((sig, body)) = self.local_fn(&k) {
                                let args: Vec<Expr> = c.args.iter().cloned().collect();
                                let has_self = sig.receiver().is_some();
                                if !has_self {
                                    let r = self.inline(&k, &sig, &body, args, None);
                                    if let Some(x) = self.take(r) {
                                        *e = x;
                                        self.depth += 1;
                                        visit_mut::visit_expr_mut(self, e);
                                        self.depth -= 1;
                                    }
                                    return;
                                }
                            }
                        }
                    }
                }
            }
            Expr::Macro(m) => {
                let m = m.mac.clone();
                let name = m.path.segments.last().unwrap().ident.to_string();
                if name.starts_with("__vx") {
                    return;
                }
                let r = self.mac(&name, &m);
                if let Some(x) = self.take(r) {
                    *e = x;
                    visit_mut::visit_expr_mut(self, e);
                }
                return;
            }
            Expr::Path(p) => {
                if p.qself.is_none() {
                    let s: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                    let v: Vec<&str> = s.iter().map(|s| s.as_str()).collect();
                    match v.as_slice() {
                        [f, c] if f_ident(f) && c.chars().all(|c| c.is_uppercase() || c == '_') => {
                            let (ty, c) = (format_ident!("{}", f.to_uppercase()), format_ident!("{}", c));
                            *e = parse_quote!(#ty::#c());
                            return;
                        }
                        [f, c] if f_ident(f) => {
                            let (ty, c) = (format_ident!("{}", f.to_uppercase()), format_ident!("{}", c));
                            *e = parse_quote!(#ty::#c);
                            return;
                        }
                        [.., "consts", c] => {
                            let c = format_ident!("{}", c);
                            *e = parse_quote!(F64::#c());
                            return;
                        }
                        [c @ ("PI" | "TAU" | "FRAC_PI_2" | "FRAC_PI_4")] if !self.locals.contains(*c) => {
                            let c = format_ident!("{}", c);
                            *e = parse_quote!(F64::#c());
                            return;
                        }
                        [c] if !self.locals.contains(*c) => {
                            if let Some(x) = self.const_of(c) {
                                *e = parse_quote!((#x));
                                visit_mut::visit_expr_mut(self, e);
                                return;
                            }
                        }
                        ["Self", c] => {
                            if let Some(x) = self.assoc_const_of(c) {
                                *e = parse_quote!((#x));
                                visit_mut::visit_expr_mut(self, e);
                                return;
                            }
                        }
                        _ => {}
                    }
                }
            }
            Expr::Lit(l) => {
                if let Lit::Float(f) = &l.lit {
                    let t = f.base10_digits().to_string();
                    if f.suffix() == "f32" || (f.suffix().is_empty() && self.spec.opts.contains("lit32")) {
                        let bits = t.parse::<f32>().unwrap().to_bits();
                        *e = parse_quote!(F32::lit(#bits));
                    } else {
                        let bits = t.parse::<f64>().unwrap().to_bits();
                        self.lits.insert(t);
                        *e = parse_quote!(F64::lit(#bits));
                    }
                    return;
                }
            }
            Expr::Cast(c) => {
                let t = c.ty.to_token_stream().to_string();
                let lit = matches!(&*c.expr, Expr::Lit(_));
                let x = &c.expr;
                if t == "f64" {
                    *e = parse_quote!((#x).to_f64_());
                } else if t == "f32" {
                    *e = parse_quote!((#x).to_f32_());
                } else if self.spec.opts.contains("fcast") && !lit {
                    let m = format_ident!("as_{}_", t);
                    *e = parse_quote!((#x).#m());
                }
            }
            // `texteq`: the function compares texts
            Expr::Binary(b) if self.spec.opts.contains("texteq") && matches!(b.op, BinOp::Eq(_) | BinOp::Ne(_)) => {
                let (l, r) = (&b.left, &b.right);
                *e = if matches!(b.op, BinOp::Eq(_)) { parse_quote!(text_eq(&(#l), &(#r))) } else { parse_quote!((!text_eq(&(#l), &(#r)))) };
                visit_mut::visit_expr_mut(self, e);
                return;
            }
            Expr::Binary(b) => {
                let op: Option<TokenStream> = match b.op {
                    BinOp::AddAssign(_) => Some(quote!(+)),
                    BinOp::SubAssign(_) => Some(quote!(-)),
                    BinOp::MulAssign(_) => Some(quote!(*)),
                    BinOp::DivAssign(_) => Some(quote!(/)),
                    BinOp::RemAssign(_) => Some(quote!(%)),
                    _ => None,
                };
                if let Some(op) = op {
                    let (l, r) = (&b.left, &b.right);
                    if !simple_place(l) {
                        self.fail("unsupported: compound assignment to a computed place".into());
                        return;
                    }
                    let l2 = match &**l {
                        Expr::Unary(_) => quote!((#l)),
                        _ => quote!(#l),
                    };
                    *e = parse_quote!(#l = #l2 #op (#r));
                }
            }
            Expr::Match(m) => {
                let r = str_match(m, &mut self.strs);
                if let Some(x) = self.take(r) {
                    if let Some(x) = x {
                        *e = x;
                        visit_mut::visit_expr_mut(self, e);
                        return;
                    }
                }
            }
            Expr::Try(t) if self.spec.opts.contains("try") => {
                // the error carried outward is not modelled, only that there is one
                let mut x = (*t.expr).clone();
                if let Expr::MethodCall(m) = &x {
                    if m.method == "map_err" && m.args.len() == 1 && matches!(m.args.first(), Some(Expr::Path(_))) {
                        x = (*m.receiver).clone();
                    }
                }
                if self.spec.opts.contains("tryid") {
                    // the error is carried outward as it is
                    let x = &t.expr;
                    *e = parse_quote!((match #x { Ok(x__) => x__, Err(e__) => return Err(e__) }));
                    visit_mut::visit_expr_mut(self, e);
                    return;
                }
                *e = parse_quote!((match (#x).vtry() { Ok(x__) => x__, Err(_) => return vfail() }));
                visit_mut::visit_expr_mut(self, e);
                return;
            }
            Expr::Closure(c) => {
                // left to the verifier, with the contract the overlay gives it
                if self.spec.clos.contains_key(&self.nclos) {
                    let k = self.nclos;
                    let ps: Vec<Ident> = c.inputs.iter().filter_map(|p| match p {
                        Pat::Type(t) => match &*t.pat { Pat::Ident(i) => Some(i.ident.clone()), _ => None },
                        Pat::Ident(i) => Some(i.ident.clone()),
                        _ => None,
                    }).collect();
                    let b = &c.body;
                    c.output = ReturnType::Default;
                    c.body = match &**b {
                        Expr::Block(x) => { let ss = &x.block.stmts; parse_quote!({ __vx_clos!(#k #(#ps)*); #(#ss)* }) }
                        x => parse_quote!({ __vx_clos!(#k #(#ps)*); #x }),
                    };
                }
                self.nclos += 1;
            }
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e);
        // a rewritten literal as method receiver needs no parentheses; nothing else to do
    }
}

/// `match s { "a" | "b" => x, .., _ => z }` on text becomes a chain of comparisons.
fn str_match(m: &ExprMatch, strs: &mut BTreeSet<String>) -> Res<Option<Expr>> {
    fn lits(p: &Pat, o: &mut Vec<Lit>) -> bool {
        match p {
            Pat::Lit(l) if matches!(l.lit, Lit::Str(_)) => { o.push(l.lit.clone()); true }
            Pat::Or(q) => q.cases.iter().all(|c| lits(c, o)),
            Pat::Paren(q) => lits(&q.pat, o),
            _ => false,
        }
    }
    let mut any = false;
    let mut arms: Vec<(Option<Vec<Lit>>, Option<Ident>, Option<Expr>, Expr)> = vec![];
    for a in &m.arms {
        let mut v = vec![];
        let g = a.guard.as_ref().map(|g| (*g.1).clone());
        if lits(&a.pat, &mut v) {
            any = true;
            arms.push((Some(v), None, g, (*a.body).clone()));
        } else {
            match &a.pat {
                Pat::Wild(_) => arms.push((None, None, g, (*a.body).clone())),
                Pat::Ident(i) if i.subpat.is_none() && i.by_ref.is_none() => arms.push((None, Some(i.ident.clone()), g, (*a.body).clone())),
                _ => { if any { return Err("unsupported: mixed text patterns".into()); } return Ok(None); }
            }
        }
    }
    if !any { return Ok(None); }
    let mut out: Expr = parse_quote!(vpanic());
    for (l, id, g, b) in arms.into_iter().rev() {
        for x in l.iter().flatten() { if let Lit::Str(x) = x { strs.insert(x.value()); } }
        let c: Option<Expr> = l.map(|l| { let c = l.iter().map(|l| quote!(str_is(m__, #l))); parse_quote!(#(#c)||*) });
        let bind = id.map(|i| quote!(let #i = m__;));
        out = match (c, g) {
            (None, None) => parse_quote!({ #bind #b }),
            (None, Some(g)) => parse_quote!({ #bind if #g { #b } else { #out } }),
            (Some(c), None) => parse_quote!(if #c { #b } else { #out }),
            (Some(c), Some(g)) => parse_quote!(if (#c) && (#g) { #b } else { #out }),
        };
    }
    let s = &m.expr;
    Ok(Some(parse_quote!((match #s { m__ => #out }))))
}
/// "{} x {}" -> literal and argument pieces, when every hole is a plain one
fn pieces(m: &Macro, skip: usize) -> Option<(Vec<Expr>, Vec<Expr>)> {
    use syn::punctuated::Punctuated;
    let a: Vec<Expr> = m.parse_body_with(Punctuated::<Expr, Token![,]>::parse_terminated).ok()?.into_iter().collect();
    let Expr::Lit(ExprLit { lit: Lit::Str(f), .. }) = a.get(skip)? else { return None };
    let mut named: BTreeMap<String, Expr> = BTreeMap::new();
    let mut plain: Vec<Expr> = vec![];
    let mut used: BTreeSet<String> = BTreeSet::new();
    for x in &a[skip + 1..] {
        match x {
            Expr::Assign(q) => { named.insert(q.left.to_token_stream().to_string(), (*q.right).clone()); }
            _ => plain.push(x.clone()),
        }
    }
    let mut nth = 0;
    let mut taken: BTreeSet<usize> = BTreeSet::new();
    let mut out: Vec<Expr> = vec![];
    let (t, mut lit) = (f.value(), String::new());
    let cs: Vec<char> = t.chars().collect();
    let mut i = 0;
    while i < cs.len() {
        match cs[i] {
            '{' if cs.get(i + 1) == Some(&'{') => { lit.push('{'); i += 2; }
            '}' if cs.get(i + 1) == Some(&'}') => { lit.push('}'); i += 2; }
            '{' => {
                let j = (i..cs.len()).find(|j| cs[*j] == '}')?;
                let n: String = cs[i + 1..j].iter().collect();
                if !lit.is_empty() { let l = std::mem::take(&mut lit); out.push(parse_quote!(#l)); }
                let (nm, sp) = n.split_once(':').unwrap_or((&n, ""));
                let x: Expr = if nm.is_empty() || nm.chars().all(|c| c.is_ascii_digit()) {
                    let k = if nm.is_empty() { nth += 1; nth - 1 } else { nm.parse().ok()? };
                    taken.insert(k);
                    plain.get(k)?.clone()
                }
                    else if nm.chars().all(|c| c.is_alphanumeric() || c == '_') && !nm.chars().all(|c| c.is_numeric()) {
                        match named.get(nm) { Some(x) => { used.insert(nm.to_string()); x.clone() } None => { let id = format_ident!("{}", nm); parse_quote!(#id) } }
                    } else { return None; };
                if sp.is_empty() { out.push(x); }
                else if let Some(w) = sp.strip_prefix('0').and_then(|w| w.parse::<usize>().ok()) { out.push(parse_quote!(Padded { x: #x, w: #w })); }
                else if let Some(w) = sp.strip_prefix('.').and_then(|w| w.parse::<usize>().ok()) { out.push(parse_quote!(Prec { x: #x, p: #w })); }
                else { return None; }
                i = j + 1;
            }
            c => { lit.push(c); i += 1; }
        }
    }
    if !lit.is_empty() { out.push(parse_quote!(#lit)); }
    if taken.len() != plain.len() || named.len() != used.len() { return None; }
    Some((a[..skip].to_vec(), out))
}
/// the characters of a `&['a', 'b'][..]`, `['a', 'b']`, `'a'` pattern
fn char_set(e: &Expr) -> Option<Vec<Expr>> {
    match e {
        Expr::Reference(r) => char_set(&r.expr),
        Expr::Paren(p) => char_set(&p.expr),
        Expr::Index(i) if i.index.to_token_stream().to_string() == ".." => char_set(&i.expr),
        Expr::Array(a) if a.elems.iter().all(|x| matches!(x, Expr::Lit(ExprLit { lit: Lit::Char(_), .. }))) => Some(a.elems.iter().cloned().collect()),
        Expr::Lit(ExprLit { lit: Lit::Char(_), .. }) => Some(vec![e.clone()]),
        Expr::Lit(ExprLit { lit: Lit::Str(t), .. }) if t.value().chars().count() == 1 => { let c = t.value().chars().next().unwrap(); Some(vec![parse_quote!(#c)]) }
        _ => None,
    }
}
fn has_return(e: &Expr) -> bool {
    struct V(bool);
    impl<'a> syn::visit::Visit<'a> for V {
        fn visit_expr_return(&mut self, _: &'a ExprReturn) {
            self.0 = true
        }
        fn visit_expr_try(&mut self, _: &'a ExprTry) {
            self.0 = true
        }
    }
    let mut v = V(false);
    syn::visit::Visit::visit_expr(&mut v, e);
    v.0
}

impl Rw<'_> {
    /// neighbouring literal pieces (module constants included) are one literal
    fn merge_text(&self, p: Vec<Expr>) -> Vec<Expr> {
        let text = |e: &Expr| match e { Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) => Some(s.value()), _ => None };
        let mut out: Vec<Expr> = vec![];
        for x in p {
            let x = match &x {
                Expr::Path(q) => match q.path.get_ident() {
                    Some(i) if !self.locals.contains(&i.to_string()) => self.const_of(&i.to_string()).filter(|c| text(c).is_some()).unwrap_or(x),
                    _ => x,
                },
                _ => x,
            };
            match (out.last().and_then(|l| text(l)), text(&x)) {
                (Some(a), Some(b)) => { let t = a + &b; *out.last_mut().unwrap() = parse_quote!(#t); }
                _ => out.push(x),
            }
        }
        out
    }
    fn mac(&mut self, name: &str, m: &Macro) -> Res<Expr> {
        use syn::punctuated::Punctuated;
        let args = || -> Res<Vec<Expr>> {
            m.parse_body_with(Punctuated::<Expr, Token![,]>::parse_terminated)
                .map(|p| p.into_iter().collect())
                .map_err(|e| format!("unsupported: arguments of {name}!: {e}"))
        };
        Ok(match name {
            "unwrap_or_return" => {
                let a = args()?;
                let (x, m) = (&a[0], &a[1]);
                parse_quote!(match #x { Some(x__) => x__, None => return Err(#m) })
            }
            "assert" | "debug_assert" => {
                let a = args()?;
                let c = &a[0];
                parse_quote!(if !(#c) { vpanic(); })
            }
            "assert_eq" | "debug_assert_eq" => {
                let a = args()?;
                let (x, y) = (&a[0], &a[1]);
                parse_quote!(if !(#x == #y) { vpanic(); })
            }
            "assert_ne" | "debug_assert_ne" => {
                let a = args()?;
                let (x, y) = (&a[0], &a[1]);
                parse_quote!(if #x == #y { vpanic(); })
            }
            "panic" | "unreachable" | "todo" | "unimplemented" => parse_quote!(vpanic()),
            "println" | "eprintln" | "print" | "eprint" => parse_quote!({}),
            "matches" => {
                let t = &m.tokens;
                let f: Expr = parse2(quote!(match_body__(#t))).map_err(|e| format!("unsupported: matches!: {e}"))?;
                let _ = f;
                return Err("unsupported: matches!".into());
            }
            "vec" => {
                if m.tokens.is_empty() {
                    match self.spec.types.get("vec!").and_then(|t| parse_str::<Type>(t).ok()) {
                        Some(t) => parse_quote!(Vec::<#t>::new()),
                        None => parse_quote!(Vec::new()),
                    }
                } else if let Ok(a) = args() {
                    let k = format_ident!("vec_of_{}", a.len());
                    parse_quote!(#k(#(#a),*))
                } else {
                    struct Rep(Expr, Expr);
                    impl syn::parse::Parse for Rep {
                        fn parse(i: syn::parse::ParseStream) -> syn::Result<Self> {
                            let a = i.parse()?;
                            i.parse::<Token![;]>()?;
                            Ok(Rep(a, i.parse()?))
                        }
                    }
                    let r: Rep = m.parse_body().map_err(|e| format!("unsupported: vec!: {e}"))?;
                    let (x, n) = (r.0, r.1);
                    if let Expr::Macro(mm) = &x {
                        if mm.mac.path.is_ident("vec") {
                            return Ok(parse_quote!(vec_rep2(#x, #n)));
                        }
                    }
                    parse_quote!(vec_rep(#x, #n))
                }
            }
            "format" if self.spec.opts.contains("fmt") && pieces(m, 0).is_some() => {
                let (_, p) = pieces(m, 0).unwrap();
                let p = self.merge_text(p);
                let p = p.iter().map(|x| quote!(o__ = str_put(o__, &(#x));));
                parse_quote!({ let mut o__ = String::new(); #(#p)* o__ })
            }
            "write" if self.spec.opts.contains("fmt") && pieces(m, 1).is_some() => {
                let (w, p) = pieces(m, 1).unwrap();
                let w = &w[0];
                let p = self.merge_text(p);
                let p = p.iter().map(|x| quote!(fmt_put(#w, &(#x));));
                parse_quote!({ #(#p)* Ok(()) })
            }
            "format" => {
                self.notes.push("format! replaced by an arbitrary string".into());
                parse_quote!(any_string())
            }
            "write" | "writeln" => {
                self.notes.push("write! replaced by an arbitrary result".into());
                parse_quote!(any_fmt_result())
            }
            o => return Err(format!("unsupported: macro {o}!")),
        })
    }

    fn sort_call(&mut self, e: &mut Expr, m: &ExprMethodCall) {
        let k = self.sorts;
        self.sorts += 1;
        let Some(sp) = self.spec.sort.get(&k).cloned() else {
            self.fail(format!("unsupported: {} without a comparator contract", m.method));
            return;
        };
        let Some(Expr::Closure(c)) = m.args.first() else {
            self.fail("unsupported: sort comparator".into());
            return;
        };
        if c.inputs.len() != 2 {
            self.fail("unsupported: sort comparator".into());
            return;
        }
        let g = |k: &str| sp.get(k).cloned().unwrap_or_default();
        let fname = self.spec.path.replace("::", "_");
        let (pa, pb) = (&c.inputs[0], &c.inputs[1]);
        let mut body: Expr = (*c.body).clone();
        self.visit_expr_mut(&mut body);
        let elem = g("elem");
        let params = g("params");
        let params_c = if params.is_empty() { String::new() } else { format!("{params}, ") };
        let gen = g("generics");
        let mut lets = TokenStream::new();
        chain::bind(pa, &chain::El::Ex(quote!(a__)), &mut lets);
        chain::bind(pb, &chain::El::Ex(quote!(b__)), &mut lets);
        let lets = lets.to_string();
        self.extra.push_str(&format!(
            "fn cmp_{fname}_{k}{gen}({params_c}a__: &{elem}, b__: &{elem}) -> (r: core::cmp::Ordering)\n  {}\n{{ {lets} {} }}\n",
            g("spec"),
            body.to_token_stream()
        ));
        self.extra.push_str(&format!(
            "#[verifier::external_body]\nfn sort_{fname}_{k}{gen}({params_c}v__: &mut Vec<{elem}>)\n  {}\n{{ unimplemented!() }}\n",
            g("sorted")
        ));
        self.notes.push(format!("sort_by assumed: permutes its vector into the order of its (verified) comparator [{fname} {k}]"));
        let f = format_ident!("sort_{}_{}", fname, k);
        let mut recv = (*m.receiver).clone();
        self.visit_expr_mut(&mut recv);
        let args: TokenStream = g("args").parse().unwrap();
        let comma = if args.is_empty() { quote!() } else { quote!(,) };
        *e = parse_quote!(#f(#args #comma &mut #recv));
    }
}

fn one_text(e: &Expr) -> Option<String> {
    match e { Expr::Lit(ExprLit { lit: Lit::Str(t), .. }) => Some(t.value()), Expr::Lit(ExprLit { lit: Lit::Char(c), .. }) => Some(c.value().to_string()), _ => None }
}
/// `x.split_whitespace().f(..)`: the words are a list to run through
fn is_pieces(w: &ExprMethodCall) -> bool {
    matches!(w.method.to_string().as_str(), "split_whitespace" | "vwords" | "vsplit") || (w.method == "split" && w.args.len() == 1 && matches!(&w.args[0], Expr::Lit(_)))
}
fn wrap_words(e: &mut Expr) {
    match e {
        Expr::Paren(p) => wrap_words(&mut p.expr),
        Expr::MethodCall(m) if m.method != "into_iter" && m.method != "iter" => {
            if matches!(chain::strip(&m.receiver), Expr::MethodCall(w) if is_pieces(w)) {
                let r = &m.receiver;
                m.receiver = parse_quote!((#r).into_iter());
            } else {
                wrap_words(&mut m.receiver);
            }
        }
        _ => {}
    }
}
