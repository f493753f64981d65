//! Overlay files: contracts, invariants and proof hints keyed by function and loop ordinal.
use crate::Res;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Default, Clone)]
pub struct FnSpec {
    pub contract: Option<String>, // proved by that overlay, only its contract is used here
    pub file: String,
    pub path: String,   // "name" or "Type::name"
    pub rename: Option<String>,
    pub ret: String,
    pub attr: String,
    pub sig: Option<String>, // full replacement of generics/params list when needed
    pub spec: String,
    pub inv: BTreeMap<usize, String>,
    pub at: BTreeMap<String, String>,
    pub sort: BTreeMap<usize, BTreeMap<String, String>>,
    pub clos: BTreeMap<usize, String>, // contracts of closures handed to another function
    pub opts: BTreeSet<String>,
    pub subst: Vec<(String, String)>, // token-level substitutions on the emitted text
    pub source: Vec<(String, String)>, // iterator-producing methods and the function whose vector they step through
    pub types: BTreeMap<String, String>, // collect / local types
}
impl FnSpec {
    pub fn short(&self) -> String {
        self.path.rsplit("::").next().unwrap().to_string()
    }
}
pub enum Item {
    Raw(String),
    Type { file: String, name: String, opts: BTreeMap<String, String> },
    Fn(FnSpec),
}
impl Item {
    pub fn file(&self) -> Option<&str> {
        match self {
            Item::Raw(_) => None,
            Item::Type { file, .. } => Some(file),
            Item::Fn(f) => Some(&f.file),
        }
    }
}
pub struct Overlay {
    pub items: Vec<Item>,
    pub known_fns: BTreeSet<String>,
    pub real: bool,
    pub broadcast: Vec<String>,
    pub tail: String,
}

fn read_expanded(path: &str, out: &mut String, seen: &mut BTreeSet<String>, contracts: bool) -> Res<()> {
    if !seen.insert(path.to_string()) {
        return Ok(());
    }
    let t = std::fs::read_to_string(path).map_err(|e| format!("overlay {path}: {e}"))?;
    let dir = std::path::Path::new(path).parent().unwrap().to_string_lossy().to_string();
    for l in t.lines() {
        if let Some(f) = l.strip_prefix("=== include ") {
            read_expanded(&format!("{dir}/{}", f.trim()), out, seen, contracts)?;
        } else if let Some(f) = l.strip_prefix("=== contracts ") {
            // the functions of that overlay are used by contract only; it proves them itself
            read_expanded(&format!("{dir}/{}", f.trim()), out, seen, true)?;
        } else if let Some(f) = l.strip_prefix("=== fn ").filter(|_| contracts) {
            let by = std::path::Path::new(path).file_stem().unwrap().to_string_lossy();
            out.push_str(&format!("=== contract {f} {by}\n"));
        } else {
            out.push_str(l);
            out.push('\n');
        }
    }
    Ok(())
}

pub fn load(path: &str) -> Res<Overlay> {
    let mut text = String::new();
    read_expanded(path, &mut text, &mut BTreeSet::new(), false)?;
    let mut ov = Overlay { items: vec![], known_fns: BTreeSet::new(), real: false, broadcast: vec![], tail: String::new() };
    // sections
    let mut cur_head: Option<String> = None;
    let mut cur: String = String::new();
    let mut secs: Vec<(String, String)> = vec![];
    for l in text.lines() {
        if let Some(h) = l.strip_prefix("=== ") {
            if let Some(ch) = cur_head.take() {
                secs.push((ch, std::mem::take(&mut cur)));
            }
            cur.clear();
            cur_head = Some(h.trim().to_string());
        } else {
            cur.push_str(l);
            cur.push('\n');
        }
    }
    if let Some(ch) = cur_head.take() {
        secs.push((ch, cur));
    }
    for (h, b) in secs {
        let w: Vec<&str> = h.split_whitespace().collect();
        match w[0] {
            "raw" => {
                collect_fn_names(&b, &mut ov.known_fns);
                ov.items.push(Item::Raw(b));
            }
            "tail" => ov.tail.push_str(&b),
            "real" => ov.real = true,
            "broadcast" => ov.broadcast.extend(w[1..].iter().map(|s| s.to_string())),
            "type" => {
                let mut opts = BTreeMap::new();
                for l in b.lines() {
                    if let Some((k, v)) = l.split_once("=>").or_else(|| l.split_once(':')) {
                        opts.insert(k.trim().to_string(), v.trim().to_string());
                    }
                }
                ov.items.push(Item::Type { file: w[1].into(), name: w[2].into(), opts });
            }
            "fn" | "contract" => {
                let mut f = FnSpec { file: w[1].into(), path: w[2].into(), ret: "r".into(), ..Default::default() };
                if w[0] == "contract" { f.contract = Some(w[3].to_string()); }
                let mut key = String::from("head");
                let mut buf = String::new();
                let flush = |key: &str, buf: &mut String, f: &mut FnSpec| -> Res<()> {
                    let k: Vec<&str> = key.split_whitespace().collect();
                    match k[0] {
                        "head" => {
                            for l in buf.lines() {
                                if let Some((a, v)) = l.split_once(':') {
                                    let v = v.trim().to_string();
                                    match a.trim() {
                                        "rename" => f.rename = Some(v),
                                        "ret" => f.ret = v,
                                        "attr" => { f.attr.push_str(&v); f.attr.push('\n') }
                                        "sig" => f.sig = Some(v),
                                        "opts" => f.opts.extend(v.split_whitespace().map(|s| s.to_string())),
                                        "subst" => {
                                            let (x, y) = v.split_once("=>").ok_or("subst")?;
                                            f.subst.push((x.trim().into(), y.trim().into()));
                                        }
                                        "source" => {
                                            let (x, y) = v.split_once("=>").ok_or("source")?;
                                            f.source.push((x.trim().into(), y.trim().into()));
                                        }
                                        "mono" => { f.types.insert("mono".into(), v); }
                                        "vec" => { f.types.insert("vec!".into(), v); }
                                        "type" => {
                                            let (x, y) = v.split_once("=>").ok_or("type")?;
                                            f.types.insert(x.trim().into(), y.trim().into());
                                        }
                                        "" => {}
                                        o => return Err(format!("overlay key {o}")),
                                    }
                                }
                            }
                        }
                        "spec" => f.spec = buf.clone(),
                        "inv" => { f.inv.insert(k[1].parse().unwrap(), buf.clone()); }
                        "closure" => { f.clos.insert(k[1].parse().unwrap(), buf.clone()); }
                        "at" => { f.at.insert(k[1].into(), buf.clone()); }
                        "sort" => {
                            let mut m = BTreeMap::new();
                            for l in buf.lines() {
                                if let Some((a, v)) = l.split_once(':') {
                                    m.insert(a.trim().to_string(), v.trim().to_string());
                                }
                            }
                            f.sort.insert(k[1].parse().unwrap(), m);
                        }
                        o => return Err(format!("overlay section {o}")),
                    }
                    buf.clear();
                    Ok(())
                };
                for l in b.lines() {
                    if let Some(k) = l.strip_prefix("--- ") {
                        flush(&key, &mut buf, &mut f)?;
                        key = k.trim().to_string();
                    } else {
                        buf.push_str(l);
                        buf.push('\n');
                    }
                }
                flush(&key, &mut buf, &mut f)?;
                ov.items.push(Item::Fn(f));
            }
            o => return Err(format!("overlay item {o}")),
        }
    }
    Ok(ov)
}

fn collect_fn_names(t: &str, out: &mut BTreeSet<String>) {
    let mut toks = t.split(|c: char| !(c.is_alphanumeric() || c == '_')).filter(|s| !s.is_empty());
    while let Some(x) = toks.next() {
        if x == "fn" {
            if let Some(n) = toks.next() {
                out.insert(n.to_string());
            }
        }
    }
}
