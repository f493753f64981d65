//! Names of parameters and locals. The overlays mention them, so a renamed local is followed by renaming it in the overlay's
//! text too: the names each function had when its contract was written are in spec/names.txt (VX_NAMES=FILE writes one).
use crate::overlay::FnSpec;
use std::collections::{BTreeMap, BTreeSet};
use syn::visit::{self, Visit};

struct B(Vec<String>); // a leading `*` marks a `mut` one
impl<'a> Visit<'a> for B {
    fn visit_pat_ident(&mut self, p: &'a syn::PatIdent) {
        let s = p.ident.to_string();
        // a lower case name binds, an upper case one is a constant
        if s.starts_with(|c: char| c.is_lowercase() || c == '_') { self.0.push(if p.mutability.is_some() { format!("*{s}") } else { s }) }
        visit::visit_pat_ident(self, p)
    }
    fn visit_item(&mut self, _: &'a syn::Item) {}
}
pub fn bindings(sig: &syn::Signature, body: &syn::Block) -> Vec<String> {
    let mut b = B(vec![]);
    b.visit_signature(sig);
    b.visit_block(body);
    b.0
}
/// What each name that is gone is called now, going by its position among the names that stayed.
pub fn renamed(old: &[String], new: &[String]) -> BTreeMap<String, String> {
    let muts = |v: &[String]| v.iter().map(|s| s.starts_with('*')).collect::<Vec<_>>();
    let bare = |v: &[String]| v.iter().map(|s| s.trim_start_matches('*').to_string()).collect::<Vec<_>>();
    let (om, nm) = (muts(old), muts(new));
    let (old, new) = (bare(old), bare(new));
    let (n, m) = (old.len(), new.len());
    let mut l = vec![vec![0usize; m + 1]; n + 1];
    for i in (0..n).rev() {
        for j in (0..m).rev() {
            l[i][j] = if old[i] == new[j] { l[i + 1][j + 1] + 1 } else { l[i + 1][j].max(l[i][j + 1]) };
        }
    }
    let (mut pairs, mut i, mut j) = (vec![], 0, 0);
    let (mut gi, mut gj) = (0, 0);
    loop {
        let end = i >= n || j >= m;
        if end || old[i] == new[j] {
            let (ei, ej) = if end { (n, m) } else { (i, j) };
            if ei - gi == ej - gj { for k in 0..ei - gi { pairs.push((old[gi + k].clone(), new[gj + k].clone())) } }
            else {
                for w in [true, false] {
                    let a: Vec<usize> = (gi..ei).filter(|k| om[*k] == w).collect();
                    let b: Vec<usize> = (gj..ej).filter(|k| nm[*k] == w).collect();
                    if a.len() == b.len() { for (x, y) in a.iter().zip(&b) { pairs.push((old[*x].clone(), new[*y].clone())) } }
                }
            }
            if end { break }
            i += 1; j += 1;
            gi = i; gj = j;
        } else if l[i + 1][j] >= l[i][j + 1] { i += 1 } else { j += 1 }
    }
    let (olds, news): (BTreeSet<_>, BTreeSet<_>) = (old.iter().collect(), new.iter().collect());
    let mut r: BTreeMap<String, String> = BTreeMap::new();
    let mut bad = BTreeSet::new();
    for (a, b) in &pairs {
        if news.contains(a) || olds.contains(b) || a.starts_with('_') { continue }
        match r.get(a) { Some(x) if x != b => { bad.insert(a.clone()); } _ => { r.insert(a.clone(), b.clone()); } }
    }
    for a in bad { r.remove(&a); }
    r
}
fn ident(c: char) -> bool { c.is_alphanumeric() || c == '_' }
/// Renames the names (not the fields) of `m`; a name of the text that the new ones would capture moves out of the way.
pub fn apply(t: &str, m: &BTreeMap<String, String>, aside: bool) -> String {
    let news: BTreeSet<&String> = if aside { m.values().collect() } else { BTreeSet::new() };
    let (mut o, mut w, mut q) = (String::new(), String::new(), false);
    let mut flush = |o: &mut String, w: &mut String, call: bool| {
        if w.is_empty() { return }
        let b = o.trim_end();
        let field = b.ends_with('.') && !b.ends_with("..");
        if field || call { o.push_str(w) }
        else if let Some(x) = m.get(w.as_str()) { o.push_str(x) }
        else if news.contains(&*w) { o.push_str(w); o.push_str("__q") }
        else { o.push_str(w) }
        w.clear();
    };
    let mut prev = ' ';
    for c in t.chars() {
        if q { o.push(c); if c == '"' && prev != '\\' { q = false } prev = c; continue }
        if ident(c) { w.push(c) } else { flush(&mut o, &mut w, c == '('); o.push(c); if c == '"' { q = true } }
        prev = c;
    }
    flush(&mut o, &mut w, false);
    o
}
pub fn rename(f: &FnSpec, m: &BTreeMap<String, String>) -> FnSpec {
    let mut g = f.clone();
    g.spec = apply(&g.spec, m, true);
    for v in g.inv.values_mut().chain(g.at.values_mut()) { *v = apply(v, m, true) }
    for s in g.sort.values_mut() { for v in s.values_mut() { *v = apply(v, m, true) } }
    g
}
pub fn alias(f: &FnSpec, m: &BTreeMap<String, String>) -> FnSpec {
    let mut g = f.clone();
    for v in g.inv.values_mut().chain(g.at.values_mut()) { *v = apply(v, m, false) }
    g
}
/// `__vK` names the vector loop K of an iterator chain fills: where the code fills one of its own in that loop, that is the one.
pub fn sinks(text: &str, f: &FnSpec) -> BTreeMap<String, String> {
    let mut r = BTreeMap::new();
    let toks: Vec<&str> = text.split_whitespace().collect();
    for k in f.inv.keys() {
        let v = format!("__v{k}");
        if toks.iter().any(|t| *t == v) || !f.inv.values().chain(f.at.values()).any(|t| t.contains(&v)) { continue }
        let Some(p) = text.find(&format!("__vx_inv ! ({k}usize ) ;")) else { continue };
        let mut depth = 1usize;
        let mut end = text.len();
        for (i, c) in text[p..].char_indices() {
            match c { '{' => depth += 1, '}' => { depth -= 1; if depth == 0 { end = p + i; break } } _ => {} }
        }
        let t: Vec<&str> = text[p..end].split_whitespace().collect();
        let mut c = BTreeSet::new();
        for w in t.windows(3) { if w[1] == "." && w[2].starts_with("push") && ident(w[0].chars().next().unwrap_or(' ')) { c.insert(w[0]); } }
        for w in t.windows(2) { if w[1].starts_with(".push") { c.insert(w[0]); } }
        if c.len() == 1 { r.insert(v, c.iter().next().unwrap().to_string()); }
    }
    r
}
