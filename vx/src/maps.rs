//! Hash maps and sets: the places a function iterates over one are pointed at the model's `entries` / `keys` / `vals`.
use std::collections::BTreeSet;
use syn::{visit::Visit, visit_mut::VisitMut, *};

fn is_hash(s: &str) -> bool {
    matches!(s, "HashMap" | "HashSet" | "BTreeMap" | "BTreeSet")
}
fn hash_type(t: &Type) -> Option<bool> {
    match t {
        Type::Path(p) => { let s = p.path.segments.last()?.ident.to_string(); is_hash(&s).then(|| s.ends_with("Set")) }
        Type::Reference(r) => hash_type(&r.elem),
        _ => None,
    }
}
#[derive(Default)]
struct Find { maps: BTreeSet<String>, sets: BTreeSet<String> }
impl<'a> Visit<'a> for Find {
    fn visit_local(&mut self, l: &'a Local) {
        let (p, t) = match &l.pat { Pat::Type(t) => (&*t.pat, hash_type(&t.ty)), p => (p, None) };
        let init = l.init.as_ref().and_then(|i| match &*i.expr {
            Expr::Call(c) => match &*c.func {
                Expr::Path(p) if p.path.segments.len() >= 2 => { let s = p.path.segments[p.path.segments.len() - 2].ident.to_string(); is_hash(&s).then(|| s.ends_with("Set")) }
                _ => None,
            },
            _ => None,
        });
        if let (Pat::Ident(i), Some(set)) = (p, t.or(init)) {
            if set { self.sets.insert(i.ident.to_string()); } else { self.maps.insert(i.ident.to_string()); }
        }
        visit::visit_local(self, l);
    }
}
struct Re(Find);
impl Re {
    fn kind(&self, e: &Expr) -> Option<bool> {
        match e {
            Expr::Path(p) => { let s = p.path.get_ident()?.to_string(); if self.0.maps.contains(&s) { Some(false) } else if self.0.sets.contains(&s) { Some(true) } else { None } }
            Expr::Reference(r) => self.kind(&r.expr),
            Expr::Paren(p) => self.kind(&p.expr),
            _ => None,
        }
    }
    fn place(e: &Expr) -> Expr { match e { Expr::Reference(r) => Self::place(&r.expr), Expr::Paren(p) => Self::place(&p.expr), e => e.clone() } }
}
impl VisitMut for Re {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        match e {
            Expr::ForLoop(f) => {
                if let Some(set) = self.kind(&f.expr) {
                    let x = Self::place(&f.expr);
                    *f.expr = if set { parse_quote!(#x.keys_in_order().into_iter()) } else { parse_quote!(#x.entries_in_order().into_iter()) };
                }
            }
            Expr::MethodCall(m) if m.args.is_empty() => {
                let Some(set) = self.kind(&m.receiver) else { return };
                let x = Self::place(&m.receiver);
                match (m.method.to_string().as_str(), set) {
                    ("iter" | "into_iter", false) => *e = parse_quote!(#x.entries_in_order().into_iter()),
                    ("iter" | "into_iter", true) | ("keys" | "into_keys", false) => *e = parse_quote!(#x.keys_in_order().into_iter()),
                    ("values" | "into_values", false) => *e = parse_quote!(#x.values_in_order().into_iter()),
                    _ => {}
                }
            }
            _ => {}
        }
    }
}
pub fn rewrite(b: &mut Block) {
    let mut f = Find::default();
    f.visit_block(b);
    if f.maps.is_empty() && f.sets.is_empty() { return; }
    Re(f).visit_block_mut(b);
}
