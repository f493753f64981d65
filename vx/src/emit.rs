//! Finding items in the source and printing Verus text.
use crate::overlay::FnSpec;
use crate::rewrite::Rw;
use crate::Res;
use proc_macro2::{Delimiter, TokenStream, TokenTree};
use quote::{quote, ToTokens};
use std::collections::{BTreeMap, BTreeSet};
use syn::{visit_mut::VisitMut, *};

pub fn type_name(t: &Type) -> String {
    match t {
        Type::Path(p) => p.path.segments.last().unwrap().ident.to_string(),
        Type::Reference(r) => type_name(&r.elem),
        _ => String::new(),
    }
}

fn fn_in<'a>(items: &'a [Item], path: &str) -> Vec<(&'a Signature, &'a Block, Option<&'a ItemImpl>)> {
    let mut out = vec![];
    let parts: Vec<&str> = path.split("::").collect();
    for it in items {
        match it {
            Item::Fn(f) if parts.len() == 1 && f.sig.ident == parts[0] => out.push((&f.sig, &*f.block, None)),
            Item::Impl(i) if parts.len() >= 2 => {
                // Type::f, Type<Arg>::f as "Type<Arg>", Trait for Type as "Trait@Type::f"
                let full = i.self_ty.to_token_stream().to_string().replace(' ', "");
                let tr = i.trait_.as_ref().map(|t| t.1.to_token_stream().to_string().replace(' ', ""));
                let want = parts[..parts.len() - 1].join("::");
                let ok = match want.split_once('@') {
                    Some((t, s)) => tr.as_deref().map(|x| x.rsplit("::").next().unwrap() == t || x == t).unwrap_or(false) && (full == s || type_name(&i.self_ty) == s),
                    None => full == want || (type_name(&i.self_ty) == want),
                };
                if ok {
                    for x in &i.items {
                        if let ImplItem::Fn(f) = x {
                            if f.sig.ident == parts[parts.len() - 1] {
                                out.push((&f.sig, &f.block, Some(i)));
                            }
                        }
                    }
                }
            }
            // a trait's provided method, as Trait::f
            Item::Trait(t) if parts.len() == 2 && t.ident == parts[0] => {
                for x in &t.items {
                    if let TraitItem::Fn(f) = x {
                        if let (true, Some(b)) = (f.sig.ident == parts[1], &f.default) { out.push((&f.sig, b, None)); }
                    }
                }
            }
            Item::Mod(m) => {
                let test = m.attrs.iter().any(|a| a.to_token_stream().to_string().contains("test"));
                if !test {
                    if let Some((_, its)) = &m.content {
                        out.extend(fn_in(its, path));
                    }
                }
            }
            _ => {}
        }
    }
    out
}
pub fn find_fn(file: &File, path: &str) -> Res<(Signature, Block)> {
    let v = fn_in(&file.items, path);
    match v.len() {
        0 => Err(format!("anchor lost: function {path}")),
        _ => Ok((v[0].0.clone(), v[0].1.clone())),
    }
}

/// `#f(1.5)` in overlay text -> the literal's term
pub fn subst_lits(t: &str, lits: &mut BTreeSet<String>) -> String {
    let mut o = String::new();
    let mut rest = t;
    while let Some(i) = rest.find("#f(") {
        o.push_str(&rest[..i]);
        let tail = &rest[i + 3..];
        let j = tail.find(')').unwrap();
        let n = tail[..j].trim();
        let bits = n.parse::<f64>().unwrap().to_bits();
        lits.insert(n.to_string());
        o.push_str(&format!("flit({bits}u64)"));
        rest = &tail[j + 1..];
    }
    o.push_str(rest);
    o
}

fn decimal_ratio(t: &str) -> (String, String) {
    let t = t.replace('_', "").to_lowercase();
    let (m, e) = match t.split_once('e') {
        Some((m, e)) => (m.to_string(), e.parse::<i64>().unwrap()),
        None => (t, 0),
    };
    let (i, f) = match m.split_once('.') {
        Some((i, f)) => (i.to_string(), f.to_string()),
        None => (m, String::new()),
    };
    let mut digits = format!("{i}{f}").trim_start_matches('0').to_string();
    if digits.is_empty() {
        digits = "0".into();
    }
    let exp = e - f.len() as i64;
    if exp >= 0 {
        (format!("{digits}{}", "0".repeat(exp as usize)), "1".into())
    } else {
        (digits, format!("1{}", "0".repeat((-exp) as usize)))
    }
}

pub fn lit_axioms(lits: &BTreeSet<String>, real: bool) -> String {
    let mut o = String::new();
    if !real {
        return o;
    }
    let mut seen: BTreeMap<u64, String> = BTreeMap::new();
    for l in lits {
        seen.entry(l.parse::<f64>().unwrap().to_bits()).or_insert(l.clone());
    }
    o.push_str("pub mod lits {\nuse vstd::prelude::*;\nuse super::fl::*;\n#[verifier::external_body]\npub broadcast proof fn axiom_literals()\n    ensures\n");
    o.push_str("        #[trigger] flit(0u64).r() == 0real,\n");
    for (b, l) in &seen {
        let (neg, l) = match l.strip_prefix('-') { Some(x) => ("-", x), None => ("", l.as_str()) };
        let (n, d) = decimal_ratio(l);
        o.push_str(&format!("        flit({b}u64).r() == {neg}({n}real / {d}real),\n"));
    }
    o.push_str("{}\n}\n");
    o
}

/// `mono: F Linspace`: the type parameter F is read as f64, and Linspace loses its arguments
struct Mono { par: String, types: Vec<String> }
impl Mono {
    fn new(o: &str) -> Mono {
        let mut w = o.split_whitespace().map(|s| s.to_string());
        Mono { par: w.next().unwrap_or_default(), types: w.collect() }
    }
    fn generics(&self, g: &mut Generics) {
        let keep: Vec<GenericParam> = g.params.iter().filter(|p| !matches!(p, GenericParam::Type(t) if t.ident == self.par)).cloned().collect();
        g.params = keep.into_iter().collect();
        if let Some(w) = &mut g.where_clause {
            let keep: Vec<WherePredicate> = w.predicates.iter().filter(|p| !matches!(p, WherePredicate::Type(t) if t.bounded_ty.to_token_stream().to_string() == self.par)).cloned().collect();
            w.predicates = keep.into_iter().collect();
        }
        if g.where_clause.as_ref().map(|w| w.predicates.is_empty()).unwrap_or(false) { g.where_clause = None; }
        if g.params.is_empty() { g.lt_token = None; g.gt_token = None; }
    }
}
impl VisitMut for Mono {
    fn visit_type_mut(&mut self, t: &mut Type) {
        if t.to_token_stream().to_string() == self.par { *t = parse_quote!(f64); return; }
        if let Type::Path(p) = t {
            if let Some(l) = p.path.segments.last_mut() {
                if self.types.contains(&l.ident.to_string()) { l.arguments = PathArguments::None; }
            }
        }
        visit_mut::visit_type_mut(self, t);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::Call(c) = e {
            let f = c.func.to_token_stream().to_string().replace(' ', "");
            if f == format!("{}::from", self.par) && c.args.len() == 1 { let a = &c.args[0]; *e = parse_quote!(Some((#a) as f64)); }
            else if f == format!("{}::one", self.par) { *e = parse_quote!(1.0); }
            else if f == format!("{}::zero", self.par) { *e = parse_quote!(0.0); }
        }
    }
}
pub fn emit_type(file: &File, fname: &str, name: &str, opts: &BTreeMap<String, String>) -> Res<String> {
    let mut found: Option<Item> = None;
    for it in &file.items {
        match it {
            Item::Struct(s) if s.ident == name => found = Some(it.clone()),
            Item::Enum(s) if s.ident == name => found = Some(it.clone()),
            _ => {}
        }
    }
    let mut it = found.ok_or(format!("anchor lost: type {name} in {fname}"))?;
    struct T<'a>(&'a BTreeMap<String, String>);
    impl VisitMut for T<'_> {
        fn visit_attributes_mut(&mut self, a: &mut Vec<Attribute>) {
            a.clear();
        }
        fn visit_visibility_mut(&mut self, v: &mut Visibility) {
            *v = parse_quote!(pub);
        }
        fn visit_variant_mut(&mut self, v: &mut Variant) {
            v.attrs.clear();
            for f in v.fields.iter_mut() {
                f.attrs.clear();
                self.visit_type_mut(&mut f.ty);
            }
        }
        fn visit_type_mut(&mut self, t: &mut Type) {
            let s = t.to_token_stream().to_string().replace(' ', "");
            if let Some(x) = self.0.get(&s) {
                *t = parse_str(x).unwrap();
                return;
            }
            visit_mut::visit_type_mut(self, t);
            let s = t.to_token_stream().to_string();
            if s == "f64" {
                *t = parse_quote!(F64);
            } else if s == "f32" {
                *t = parse_quote!(F32);
            }
        }
    }
    if let Some(m) = opts.get("mono") {
        let mut m = Mono::new(m);
        if let Item::Struct(s) = &mut it { m.generics(&mut s.generics); }
        m.visit_item_mut(&mut it);
    }
    T(opts).visit_item_mut(&mut it);
    let der = opts.get("derive").map(|d| format!("#[derive({d})]\n")).unwrap_or_default();
    let kind = match &it {
        Item::Enum(_) => {
            let mut o = String::new();
            if opts.get("eq").is_some() {
                // derived PartialEq on a field-less enum is structural equality
                if let Item::Enum(en) = &it {
                    if en.variants.iter().any(|v| !v.fields.is_empty()) {
                        return Err(format!("unsupported: enum {name} with fields"));
                    }
                }
                o.push_str(&format!(
                    "impl vstd::std_specs::cmp::PartialEqSpecImpl for {name} {{ open spec fn obeys_eq_spec() -> bool {{ true }} open spec fn eq_spec(&self, o: &{name}) -> bool {{ *self == *o }} }}\nimpl PartialEq for {name} {{ #[verifier::external_body] fn eq(&self, o: &{name}) -> bool {{ unimplemented!() }} }}\n"
                ));
            }
            o
        }
        _ => String::new(),
    };
    let cl = if opts.get("clone").is_some() {
        format!("impl Clone for {name} {{ #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self {{ unimplemented!() }} }}\n")
    } else {
        String::new()
    };
    Ok(format!("{der}{}\n{kind}{cl}", pretty(&it.to_token_stream())))
}

pub fn emit_fn(file: &File, f: &FnSpec, known: &BTreeSet<String>, names: &BTreeMap<String, Vec<String>>, seen: &mut BTreeMap<String, Vec<String>>, lits: &mut BTreeSet<String>, notes: &mut Vec<String>) -> Res<String> {
    let v = fn_in(&file.items, &f.path);
    if v.is_empty() {
        return Err(format!("anchor lost: function {} in {}", f.path, f.file));
    }
    let (mut sig, mut body, mut imp) = (v[0].0.clone(), v[0].1.clone(), v[0].2.cloned());
    if let Some(m) = f.types.get("mono") {
        let mut m = Mono::new(m);
        m.generics(&mut sig.generics);
        m.visit_signature_mut(&mut sig);
        m.visit_block_mut(&mut body);
        if let Some(i) = &mut imp { m.generics(&mut i.generics); m.visit_item_impl_mut(i); }
    }
    let now = crate::names::bindings(&sig, &body);
    let key = format!("{}\t{}", f.file, f.path);
    let mut named = None;
    if let Some(old) = names.get(&key) {
        let m = crate::names::renamed(old, &now);
        if !m.is_empty() { named = Some(crate::names::rename(f, &m)); }
    }
    seen.insert(key, now);
    let f = named.as_ref().unwrap_or(f);
    let whole = f;
    let bare = FnSpec { inv: Default::default(), at: Default::default(), attr: "#[verifier::external_body]\n".into(), ..f.clone() };
    let f = if f.contract.is_some() { body = parse_quote!({ unimplemented!() }); &bare } else { whole };
    let self_ty = imp.as_ref().map(|i| type_name(&i.self_ty));
    if imp.is_none() { sig.inputs = sig.inputs.into_iter().filter(|a| !matches!(a, FnArg::Receiver(_))).collect(); }
    for (k, a) in sig.inputs.iter_mut().enumerate() {
        if let FnArg::Typed(t) = a {
            if matches!(&*t.pat, Pat::Wild(_)) {
                let id = quote::format_ident!("unused{}__", k);
                *t.pat = parse_quote!(#id);
            }
        }
    }
    crate::maps::rewrite(&mut body);
    if f.opts.contains("collected") {
        if let ReturnType::Type(_, t) = &mut sig.output {
            let whole = iterator_item(t).is_some();
            ItemVec.visit_type_mut(t);
            if f.contract.is_none() { Izip.visit_block_mut(&mut body); Yielded.visit_block_mut(&mut body); if whole {
                    let Some(Stmt::Expr(tail, None)) = body.stmts.last_mut() else { return Err("unsupported: an iterator that is not the tail".into()) };
                    let x = tail.clone();
                    *tail = if let Expr::Call(_) = x { parse_quote!(vdrain(#x)) } else { parse_quote!(#x.collect()) };
            } }
        }
        Sources(&f.source).visit_block_mut(&mut body);
    }
    let mut refs = BTreeSet::new();
    let mut locals = BTreeSet::new();
    for a in &sig.inputs {
        if let FnArg::Typed(t) = a {
            if let Pat::Ident(i) = &*t.pat {
                locals.insert(i.ident.to_string());
                if matches!(&*t.ty, Type::Reference(_)) {
                    refs.insert(i.ident.to_string());
                }
            }
        }
    }
    let mut rw = Rw {
        file, spec: f, known, self_ty: self_ty.clone(), lits, notes, loops: 0, sorts: 0, extra: String::new(),
        closures: BTreeMap::new(), nclos: 0, refs, locals, depth: 0, strs: BTreeSet::new(), cursors: BTreeSet::new(), err: None,
    };
    rw.visit_signature_mut(&mut sig);
    rw.visit_block_mut(&mut body);
    if let Some(e) = rw.err {
        return Err(format!("{} ({})", e, f.path));
    }
    let nloops = rw.loops;
    let extra = std::mem::take(&mut rw.extra);
    for k in f.inv.keys() {
        if *k >= nloops {
            return Err(format!("anchor lost: loop {k} of {} (it has {nloops})", f.path));
        }
    }
    if f.opts.iter().any(|o| o.starts_with("loops=")) {
        let want: usize = f.opts.iter().find_map(|o| o.strip_prefix("loops=")).unwrap().parse().unwrap();
        if want != nloops {
            return Err(format!("anchor lost: {} has {nloops} loops, the contract describes {want}", f.path));
        }
    }
    // body
    let al = crate::names::sinks(&pretty(&body.to_token_stream()), f);
    let aliased;
    let f = if al.is_empty() { f } else { aliased = crate::names::alias(f, &al); &aliased };
    let end = f.at.get("fn.end");
    let begin = f.at.get("fn.begin");
    let mut text = String::new();
    if let Some(e) = end {
        let mut stmts = body.stmts.clone();
        if let Some(Stmt::Expr(t, None)) = stmts.last().cloned() {
            stmts.pop();
            let b = quote!(#(#stmts)*);
            text.push_str(&pretty(&b));
            text.push_str(&format!("let r__ = {};\n{}\nr__\n", pretty(&t.to_token_stream()), subst_lits(e, rw.lits)));
        } else {
            let b = quote!(#(#stmts)*);
            text.push_str(&pretty(&b));
            text.push_str(&subst_lits(e, rw.lits));
        }
    } else {
        let s = &body.stmts;
        text.push_str(&pretty(&quote!(#(#s)*)));
    }
    let mut text = place(&text, f, rw.lits)?;
    for (v, x) in &al {
        if let Some(ty) = f.types.get(&v[3..]) { text = text.replacen(&format!("let mut {x} = Vec"), &format!("let mut {x} : {ty} = Vec"), 1); }
    }
    // signature
    let out_ty = match &sig.output {
        ReturnType::Default => String::new(),
        ReturnType::Type(_, t) => {
            let s = t.to_token_stream().to_string();
            format!(" -> ({}: {})", f.ret, s)
        }
    };
    let name = f.rename.clone().unwrap_or(sig.ident.to_string());
    let (gens, wh) = (sig.generics.clone(), sig.generics.where_clause.clone());
    let params = match &f.sig {
        Some(s) => s.clone(),
        None => {
            let p = &sig.inputs;
            format!("{}({})", gens.to_token_stream(), quote!(#p))
        }
    };
    let wh = wh.map(|w| w.to_token_stream().to_string()).unwrap_or_default();
    let spec = subst_lits(&f.spec, rw.lits);
    let mut b0 = begin.map(|b| subst_lits(b, rw.lits)).unwrap_or_default();
    if !rw.strs.is_empty() {
        b0.push_str("proof {");
        for x in &rw.strs { b0.push_str(&format!(" reveal_strlit({x:?});")); }
        b0.push_str(" }\n");
    }
    if f.contract.is_none() && std::env::var("VX_VACUITY").is_ok() {
        b0.push_str("proof { assert(false); }\n");
    }
    // facts about locals that no loop changes stay known inside the loop, unless the loop states what holds at its `break`
    let iso = if f.attr.contains("loop_isolation") || f.attr.contains("external_body") || f.inv.is_empty()
        || f.inv.values().any(|i| i.contains("invariant_except_break") || i.contains("ensures")) { "" } else { "#[verifier::loop_isolation(false)]\n" };
    let mut t = format!("{iso}{}pub fn {name}{params}{out_ty} {wh}\n{spec}\n{{\n{b0}\n{text}\n}}\n", f.attr);
    if let Some(i) = &imp {
        for x in &i.items {
            if let ImplItem::Type(x) = x {
                t = t.replace(&format!("Self :: {}", x.ident), &x.ty.to_token_stream().to_string());
            }
        }
    }
    for (a, b) in &f.subst {
        t = t.replace(a.as_str(), b);
    }
    if let Some(i) = imp {
        if f.opts.contains("free") {
            // a free function: `Self` is the type of the impl it was taken from
            let mut st = (*i.self_ty).clone();
            rw.visit_type_mut(&mut st);
            let st = st.to_token_stream().to_string();
            let mut out = String::new();
            let mut rest = t.as_str();
            let word = |c: Option<char>| c.map_or(false, |c| c.is_alphanumeric() || c == '_');
            while let Some(p) = rest.find("Self") {
                let alone = !word(rest[..p].chars().last().or(out.chars().last())) && !word(rest[p + 4..].chars().next());
                out.push_str(&rest[..p]);
                out.push_str(if alone { &st } else { "Self" });
                rest = &rest[p + 4..];
            }
            out.push_str(rest);
            t = out;
        }
        if !f.opts.contains("free") {
            let mut st = (*i.self_ty).clone();
            rw.visit_type_mut(&mut st);
            let g = i.generics.clone();
            let w = g.where_clause.clone().filter(|_| !f.opts.contains("nowhere")).map(|w| w.to_token_stream().to_string()).unwrap_or_default();
            let params = if f.opts.contains("nowhere") {
                let mut g2 = g.clone();
                for p in g2.params.iter_mut() { if let GenericParam::Type(t) = p { t.bounds.clear(); t.colon_token = None; } }
                g2.params.to_token_stream().to_string()
            } else {
                g.params.to_token_stream().to_string()
            };
            let gp = if g.params.is_empty() { String::new() } else { format!("<{params}>") };
            t = format!("impl{gp} {} {w} {{\n{t}}}\n", st.to_token_stream());
        }
    }
    Ok(format!("{extra}{t}"))
}

/// Replace loop markers by invariants and hints.
fn place(t: &str, f: &FnSpec, lits: &mut BTreeSet<String>) -> Res<String> {
    let mut t = t.to_string();
    let mut k = 0;
    loop {
        let mk = format!("__vx_inv ! ({k}usize ) ;");
        let Some(p) = t.find(&mk) else { break };
        let before = t[..p].trim_end();
        if !before.ends_with('{') {
            return Err("internal: loop marker".into());
        }
        let mut head = before[..before.len() - 1].to_string();
        if let Some(b) = f.at.get(&format!("loop{k}.before")) {
            let kw = head.rfind("while ").max(head.rfind("loop ")).ok_or("internal: loop keyword")?;
            head.insert_str(kw, &format!("{}\n", subst_lits(b, lits)));
        }
        let rest = t[p + mk.len()..].to_string();
        let inv = f.inv.get(&k).map(|s| subst_lits(s, lits)).unwrap_or_default();
        let lb = f.at.get(&format!("loop{k}.begin")).map(|s| subst_lits(s, lits)).unwrap_or_default();
        // loop end: matching brace
        let mut depth = 1usize;
        let mut endp = None;
        for (i, c) in rest.char_indices() {
            match c {
                '{' => depth += 1,
                '}' => {
                    depth -= 1;
                    if depth == 0 { endp = Some(i); break; }
                }
                _ => {}
            }
        }
        let endp = endp.ok_or("internal: loop end")?;
        let le = f.at.get(&format!("loop{k}.end")).map(|s| subst_lits(s, lits)).unwrap_or_default();
        t = format!("{head}\n{inv}{{\n{lb}{}\n{le}{}", &rest[..endp], &rest[endp..]);
        k += 1;
    }
    while let Some(p) = t.find("__vx_clos ! (") {
        let q = p + t[p..].find(") ;").ok_or("internal: closure marker")?;
        let names: Vec<String> = t[p + 13..q].split_whitespace().map(|s| s.to_string()).collect();
        let k: usize = names[0].trim_end_matches("usize").parse().map_err(|_| "internal: closure marker")?;
        let head = t[..p].trim_end().strip_suffix('{').ok_or("internal: closure body")?.to_string();
        let mut c = f.clos.get(&k).map(|s| subst_lits(s, lits)).unwrap_or_default();
        for (i, n) in names[1..].iter().enumerate() { c = c.replace(&format!("${i}"), n); }
        t = format!("{head} {c} {{ {}", &t[q + 3..]);
    }
    for k in 0..64 {
        let mk = format!("__vx_after ! ({k}usize ) ;");
        let a = f.at.get(&format!("loop{k}.after")).map(|s| subst_lits(s, lits)).unwrap_or_default();
        t = t.replace(&mk, &a);
    }
    Ok(t)
}

/// Tokens to text with line breaks.
pub fn pretty(t: &TokenStream) -> String {
    let mut o = String::new();
    pp(t.clone(), &mut o);
    o
}
fn pp(t: TokenStream, o: &mut String) {
    let mut joint = false;
    for x in t {
        match x {
            TokenTree::Group(g) => {
                let (a, b, nl) = match g.delimiter() {
                    Delimiter::Parenthesis => ("(", ")", false),
                    Delimiter::Brace => ("{", "}", true),
                    Delimiter::Bracket => ("[", "]", false),
                    Delimiter::None => ("", "", false),
                };
                o.push_str(a);
                if nl { o.push('\n'); }
                pp(g.stream(), o);
                if nl && !o.ends_with('\n') { o.push('\n'); }
                o.push_str(b);
                o.push(if nl { '\n' } else { ' ' });
                joint = false;
            }
            TokenTree::Punct(p) => {
                o.push(p.as_char());
                joint = p.spacing() == proc_macro2::Spacing::Joint;
                if p.as_char() == ';' { o.push('\n'); } else if !joint { o.push(' '); }
            }
            x => {
                let s = x.to_string();
                o.push_str(&s);
                o.push(' ');
                let _ = joint;
            }
        }
    }
}

/// `X` of `impl Iterator<Item = X>`.
fn iterator_item(t: &Type) -> Option<Type> {
    let Type::ImplTrait(i) = t else { return None };
    for b in &i.bounds {
        let TypeParamBound::Trait(b) = b else { continue };
        let s = b.path.segments.last()?;
        if s.ident != "Iterator" { continue; }
        let PathArguments::AngleBracketed(a) = &s.arguments else { continue };
        for a in &a.args {
            if let GenericArgument::AssocType(x) = a { return Some(x.ty.clone()); }
        }
    }
    None
}
/// A dependency's iterator, stepped through as the vector of what it yields.
struct Sources<'a>(&'a Vec<(String, String)>);
impl VisitMut for Sources<'_> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::MethodCall(m) = e {
            if !m.args.is_empty() { return; }
            if let Some((_, f)) = self.0.iter().find(|(n, _)| m.method == n) {
                let (r, x) = (&m.receiver, parse_str::<Expr>(f.trim_end_matches("&mut").trim_end_matches('&').trim()).unwrap());
                *e = if f.ends_with("&mut") { parse_quote!(#x(&mut #r).into_iter()) } else { parse_quote!(#x(&#r).into_iter()) };
            }
        }
    }
}
/// A returned iterator becomes the vector of what it yields, also inside a result or a pair.
struct ItemVec;
impl VisitMut for ItemVec {
    fn visit_type_mut(&mut self, t: &mut Type) {
        match iterator_item(t) { Some(x) => *t = parse_quote!(Vec<#x>), None => visit_mut::visit_type_mut(self, t) }
    }
}
/// itertools' izip!, by its definition: a chain of zips and a map that flattens the pairs.
struct Izip;
impl VisitMut for Izip {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        let Expr::Macro(m) = e else { return };
        if !m.mac.path.is_ident("izip") { return; }
        let Ok(args) = m.mac.parse_body_with(syn::punctuated::Punctuated::<Expr, Token![,]>::parse_terminated) else { return };
        let ids: Vec<Ident> = (0..args.len()).map(|k| quote::format_ident!("zip{}__", k)).collect();
        if ids.len() < 2 { return; }
        let mut it = args.iter();
        let first = it.next().unwrap();
        let (mut chain, mut pat): (Expr, TokenStream) = (parse_quote!(#first.into_iter()), { let i = &ids[0]; quote!(#i) });
        for (a, i) in it.zip(&ids[1..]) {
            chain = parse_quote!(#chain.zip(#a.into_iter()));
            pat = quote!((#pat, #i));
        }
        *e = parse_quote!(#chain.map(|#pat| (#(#ids),*)));
    }
}
/// Adapter chains that are bound or put into a pair without being consumed.
struct Yielded;
fn lazy(e: &Expr) -> bool {
    matches!(e, Expr::MethodCall(m) if matches!(m.method.to_string().as_str(), "map" | "filter_map" | "map_while" | "filter" | "skip" | "take" | "flat_map") && !m.args.is_empty() && !matches!(&m.args[0], Expr::Path(p) if p.path.segments.len() > 1))
}
impl VisitMut for Yielded {
    fn visit_local_mut(&mut self, l: &mut Local) {
        visit_mut::visit_local_mut(self, l);
        if let Some(i) = &mut l.init { if lazy(&i.expr) && rooted(&i.expr) { drained(&mut i.expr); let x = &i.expr; *i.expr = parse_quote!(#x.collect()); } }
    }
    fn visit_expr_tuple_mut(&mut self, t: &mut ExprTuple) {
        visit_mut::visit_expr_tuple_mut(self, t);
        for e in t.elems.iter_mut() { if lazy(e) && rooted(e) { drained(e); let x = e.clone(); *e = parse_quote!(#x.collect()); } }
    }
    fn visit_expr_closure_mut(&mut self, _: &mut ExprClosure) {}
}
/// The chain starts from something that is iterated, not from an option or a result.
fn rooted(e: &Expr) -> bool {
    match e {
        Expr::MethodCall(m) if matches!(m.method.to_string().as_str(), "map" | "filter_map" | "map_while" | "filter" | "skip" | "take" | "flat_map" | "enumerate" | "rev" | "zip") => match &*m.receiver {
            r @ Expr::MethodCall(_) => rooted(r),
            _ => m.method == "filter_map" || m.method == "map_while" || m.method == "skip" || m.method == "take" || m.method == "flat_map",
        },
        Expr::MethodCall(m) => m.args.is_empty() && !m.method.to_string().starts_with("ok"),
        _ => false,
    }
}
/// An iterator held in a variable: the overlay's `vdrain` steps it to its end.
fn drained(e: &mut Expr) {
    if let Expr::MethodCall(m) = e {
        match &*m.receiver {
            Expr::Path(_) if m.args.is_empty() => {}
            Expr::Path(p) => *m.receiver = parse_quote!(vdrain(#p).into_iter()),
            _ => drained(&mut m.receiver),
        }
    }
}
