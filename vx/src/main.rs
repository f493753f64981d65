//! vx: mechanical extraction of real functions from /repo into Verus text.
//!
//!   vx REPO OVERLAY OUT.rs        prints a JSON report on stdout
//!
//! exit 0: OUT.rs written; exit 3: the code cannot be extracted (reason in the report).
//! What the extraction changes is listed in /verif/DESIGN.md ("Extraction").
mod chain;
mod emit;
mod maps;
mod names;
mod overlay;
mod rewrite;

use std::collections::{BTreeMap, BTreeSet};

pub type Res<T> = Result<T, String>;

pub fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            '\r' => {}
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let r = run(&a[1], &a[2], &a[3]);
    match r {
        Ok(rep) => println!("{rep}"),
        Err(e) => {
            println!("{{\"error\":{}}}", jstr(&e));
            std::process::exit(3);
        }
    }
}

pub struct SrcFile {
    pub ast: syn::File,
}

fn run(repo: &str, ovp: &str, out: &str) -> Res<String> {
    let ov = overlay::load(ovp)?;
    let mut files: BTreeMap<String, SrcFile> = BTreeMap::new();
    for it in &ov.items {
        if let Some(f) = it.file() {
            if !files.contains_key(f) {
                let p = format!("{repo}/{f}");
                let t = std::fs::read_to_string(&p).map_err(|e| format!("anchor lost: file {f}: {e}"))?;
                let ast = syn::parse_file(&t).map_err(|e| format!("cannot parse {f}: {e}"))?;
                files.insert(f.to_string(), SrcFile { ast });
            }
        }
    }
    let mut lits: BTreeSet<String> = BTreeSet::new();
    let mut body = String::new();
    let mut fns = Vec::new();
    let mut emitted = Vec::new();
    let mut notes: Vec<String> = Vec::new();
    let mut known: BTreeSet<String> = ov.known_fns.clone();
    for it in &ov.items {
        if let overlay::Item::Fn(f) = it {
            known.insert(f.path.clone());
            if let Some((_, p)) = f.path.split_once('@') { known.insert(p.to_string()); }
            known.insert(f.short());
        }
    }
    // the names locals had when the contracts were written
    let mut names: BTreeMap<String, Vec<String>> = BTreeMap::new();
    let np = std::path::Path::new(ovp).parent().map(|d| d.join("names.txt")).unwrap_or_default();
    for l in std::fs::read_to_string(np).unwrap_or_default().lines() {
        let p: Vec<&str> = l.splitn(3, '\t').collect();
        if p.len() == 3 { names.insert(format!("{}\t{}", p[0], p[1]), p[2].split_whitespace().map(String::from).collect()); }
    }
    let mut seen: BTreeMap<String, Vec<String>> = BTreeMap::new();
    let own: BTreeSet<(String, String)> = ov.items.iter().filter_map(|i| match i { overlay::Item::Fn(f) if f.contract.is_none() => Some((f.file.clone(), f.path.clone())), _ => None }).collect();
    let mut stated: BTreeSet<(String, String)> = BTreeSet::new();
    let mut typed: BTreeSet<(String, String)> = BTreeSet::new();
    for it in &ov.items {
        match it {
            overlay::Item::Raw(t) => body.push_str(&emit::subst_lits(t, &mut lits)),
            overlay::Item::Type { file, name, opts } => {
                // named by several overlays: the first place counts
                if !typed.insert((file.clone(), name.clone())) { continue; }
                body.push_str(&emit::emit_type(&files[file].ast, file, name, opts)?);
            }
            overlay::Item::Fn(f) => {
                // a contract named by several overlays, or by one that proves it here: once
                if f.contract.is_some() && (!stated.insert((f.file.clone(), f.path.clone())) || own.contains(&(f.file.clone(), f.path.clone()))) { continue; }
                let t = emit::emit_fn(&files[&f.file].ast, f, &known, &names, &mut seen, &mut lits, &mut notes)?;
                body.push_str(&t);
                if let Some(by) = &f.contract {
                    notes.push(format!("contract of {}::{} used, proved in spec/{by}.vo", f.file, f.path));
                    continue;
                }
                fns.push(format!("{}::{}", f.file, f.path));
                emitted.push(f.rename.clone().unwrap_or(f.short()));
            }
        }
        body.push('\n');
    }
    if let Ok(p) = std::env::var("VX_NAMES") {
        use std::io::Write;
        let mut w = std::fs::OpenOptions::new().append(true).create(true).open(p).map_err(|e| e.to_string())?;
        for (k, v) in &seen { writeln!(w, "{k}\t{}", v.join(" ")).map_err(|e| e.to_string())?; }
    }
    let mut o = String::new();
    o.push_str("#![feature(allocator_api)]\n#![allow(unused, non_snake_case, non_camel_case_types, dead_code, unreachable_code)]\n#![verifier::allow(autoderive_clone_without_spec)]\n");
    o.push_str("use vstd::prelude::*;\nverus! {\n");
    if !ov.broadcast.is_empty() {
        o.push_str(&format!("broadcast use {{{}}};\n", ov.broadcast.join(", ")));
    }
    o.push_str(&body);
    o.push_str(&emit::lit_axioms(&lits, ov.real));
    o.push_str("\n} // verus!\nfn main() {}\n");
    o.push_str(&ov.tail);
    std::fs::write(out, &o).map_err(|e| e.to_string())?;
    let j = |v: &Vec<String>| v.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(",");
    notes.sort();
    notes.dedup();
    Ok(format!("{{\"functions\":[{}],\"emitted\":[{}],\"notes\":[{}]}}", j(&fns), j(&emitted), j(&notes)))
}
