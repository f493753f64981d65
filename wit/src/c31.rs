use crate::core::*;
use crate::ensure;
use serde_json::Value;
use surfrs::spectra::Spectra;
use surfrs::tools::contour::{compute_contours, compute_latlng_gridded_contours};
use surfrs::units::direction::DirectionConvention;

type Label = fn(&usize, &f64) -> String;
fn label(i: &usize, t: &f64) -> String { format!("{i}:{t}") }

// the rings of a feature, and whether they enclose a point (an odd number of crossings)
fn rings(f: &Value) -> Result<Vec<Vec<(f64, f64)>>, String> {
    ensure!(f["geometry"]["type"] == "MultiPolygon", "geometry {}", f["geometry"]["type"]);
    let mut out = vec![];
    for p in f["geometry"]["coordinates"].as_array().ok_or("no coordinates")? {
        for r in p.as_array().ok_or("no polygon")? {
            let mut ring = vec![];
            for q in r.as_array().ok_or("no ring")? {
                let q = q.as_array().ok_or("no point")?;
                ensure!(q.len() == 2, "a point of {} numbers", q.len());
                ring.push((q[0].as_f64().ok_or("not a number")?, q[1].as_f64().ok_or("not a number")?));
            }
            out.push(ring);
        }
    }
    Ok(out)
}
fn encloses(r: &[Vec<(f64, f64)>], x: f64, y: f64) -> bool {
    let mut odd = false;
    for ring in r {
        for i in 0..ring.len() {
            let ((ax, ay), (bx, by)) = (ring[i], ring[(i + 1) % ring.len()]);
            if (ay > y) != (by > y) && x < ax + (y - ay) / (by - ay) * (bx - ax) { odd = !odd; }
        }
    }
    odd
}
fn props(f: &Value, i: usize, ts: &[f64], moved: bool, lab: bool) -> Result<(), String> {
    let p = &f["properties"];
    ensure!(p["threshold"].as_f64().is_some_and(|t| close(t, ts[i], 1e-9)), "contour {i} says level {} of {ts:?}", p["threshold"]);
    let span = ts[ts.len() - 1] - ts[0];
    if moved && span != 0.0 { ensure!(p["normalized"].as_f64().is_some_and(|n| (n - (ts[i] - ts[0]) / span).abs() < 1e-6), "contour {i} of {ts:?} is normalized to {}", p["normalized"]); }
    if !moved { ensure!(p.get("normalized").is_none(), "an unmoved contour is normalized to {}", p["normalized"]); }
    if moved && lab { let w = label(&i, &p["threshold"].as_f64().unwrap()); ensure!(p["label"].as_str() == Some(&w), "contour {i} is labelled {}, not {w}", p["label"]); }
    else { ensure!(p.get("label").is_none(), "contour {i} is labelled {}", p["label"]); }
    Ok(())
}

pub fn run(c: &mut Ctx) {
    c.rule = "grids of 1 to 9 by 1 to 9 random values (with plateaus), 1 to 6 levels, moved by random affine maps or not, labelled or not, also with a value too many or too few; spectra of 3 to 12 frequencies and directions in every convention; regional maps of 1 to 9 by 1 to 9 cells and global ones of 640 to 1440 columns, missing values, levels given or not; every cell centre against every contour; non-trivial: some cell above a level and some below".into();
    for _ in 0..c.n(500, 20_000) {
        if c.over() { break; }
        let (w, h) = (1 + c.rng.below(9), 1 + c.rng.below(9));
        let step = *c.rng.pick(&[0.0, 1.0, 5.0]);
        let extra = if c.rng.chance(0.1) { *c.rng.pick(&[-1i64, 1]) } else { 0 };
        let data: Vec<f64> = (0..(w * h) as i64 + extra).map(|_| { let v = c.rng.fr(-20.0, 20.0); if step > 0.0 { (v / step).round() * step } else { v } }).collect();
        let mut ts: Vec<f64> = (0..1 + c.rng.below(6)).map(|_| c.rng.fr(-22.0, 22.0)).collect();
        ts.sort_by(|a, b| a.partial_cmp(b).unwrap());
        let moved = c.rng.chance(0.7);
        let lab = c.rng.chance(0.5);
        let (ax, bx) = (c.rng.fr(0.1, 4.0), c.rng.fr(-50.0, 50.0));
        let (ay, by) = (c.rng.fr(-4.0, -0.1), c.rng.fr(-50.0, 50.0));
        let nontrivial = extra == 0 && data.iter().any(|v| *v > ts[0]) && data.iter().any(|v| *v < ts[0]);
        c.case("grid", format!("data={data:?} width={w} height={h} levels={ts:?} moved={} labelled={lab}", if moved { format!("({ax}x+{bx}, {ay}y+{by})") } else { "no".into() }), nontrivial, || {
            let tr = |p: &Vec<f64>| vec![ax * p[0] + bx, ay * p[1] + by];
            let r = compute_contours(&data, w, h, &ts, if moved { Some(tr) } else { None }, if lab { Some(label as Label) } else { None });
            if extra != 0 { ensure!(r.is_err(), "{} values for {w} by {h} cells are no error", data.len()); return Ok(()); }
            let Ok(fs) = r else { return Err("an error".into()) };
            ensure!(fs.len() == ts.len(), "{} contours of {} levels", fs.len(), ts.len());
            for (i, f) in fs.iter().enumerate() {
                let f = serde_json::to_value(f).map_err(|e| e.to_string())?;
                props(&f, i, &ts, moved, lab)?;
                let r = rings(&f)?;
                for (m, v) in data.iter().enumerate() {
                    if (v - ts[i]).abs() < 1e-3 { continue; }
                    let (x, y) = ((m % w) as f64 + 0.5, (m / w) as f64 + 0.5);
                    let (x, y) = if moved { (ax * x + bx, ay * y + by) } else { (x, y) };
                    ensure!(encloses(&r, x, y) == (*v > ts[i]), "cell ({}, {}) of value {v} is {} the contour of {}", m % w, m / w, if *v > ts[i] { "outside" } else { "inside" }, ts[i]);
                }
            }
            Ok(())
        });
    }
    for _ in 0..c.n(250, 8_000) {
        if c.over() { break; }
        let g = grid(&mut c.rng, 3, true);
        let conv = match c.rng.below(3) { 0 => DirectionConvention::From, 1 => DirectionConvention::Towards, _ => DirectionConvention::Met };
        let (nk, nth) = (g.f.len(), g.d.len());
        let top = g.e.iter().cloned().fold(0.0, f64::max);
        let ts: Vec<f64> = (0..10).map(|i| 0.1 + (top - 0.1) * i as f64 / 9.0).collect();
        c.case("spectrum", format!("{} {conv:?}", g.desc), top > 0.2, || {
            let draw = |conv: DirectionConvention| -> Result<Vec<Value>, String> {
                let v = match Spectra::new(g.f.clone(), g.d.clone(), g.e.clone(), conv).contoured() { Ok(g) => serde_json::to_value(&g).map_err(|e| e.to_string())?, Err(_) => return Err("an error".into()) };
                ensure!(v["type"] == "FeatureCollection", "a {}", v["type"]);
                Ok(v["features"].as_array().ok_or("no features")?.clone())
            };
            let base = draw(DirectionConvention::From)?;
            ensure!(base.len() == 10, "{} contours", base.len());
            for (i, f) in base.iter().enumerate() {
                props(f, i, &ts, true, false)?;
                let r = rings(f)?;
                for t in 1..nth - 1 { for k in 1..nk - 1 {
                    let v = g.e[k + nk * t];
                    if (v - ts[i]).abs() < 1e-3 { continue; }
                    ensure!(encloses(&r, 1.0 / g.f[k], g.d[t].to_degrees()) == (v > ts[i]), "the bin of {} s and {} degrees with energy {v} is {} the contour of {}", 1.0 / g.f[k], g.d[t].to_degrees(), if v > ts[i] { "outside" } else { "inside" }, ts[i]);
                } }
            }
            let other = draw(conv.clone())?;
            ensure!(other.len() == 10, "{} contours", other.len());
            for (i, (f, b)) in other.iter().zip(&base).enumerate() {
                props(f, i, &ts, true, false)?;
                let (r, s) = (rings(f)?, rings(b)?);
                ensure!(r.iter().map(|x| x.len()).collect::<Vec<_>>() == s.iter().map(|x| x.len()).collect::<Vec<_>>(), "other rings in {conv:?}");
                for (p, q) in r.iter().flatten().zip(s.iter().flatten()) {
                    let want = match conv { DirectionConvention::From => q.1, DirectionConvention::Towards => q.1 + 180.0, DirectionConvention::Met => 270.0 - q.1 };
                    let off = (p.1 - want).rem_euclid(360.0);
                    ensure!(p.0 == q.0 && off.min(360.0 - off) < 1e-6, "the vertex ({}, {}) is at {} s and {} degrees in {conv:?}", q.0, q.1, p.0, p.1);
                }
            }
            Ok(())
        });
    }
    for n in 0..c.n(250, 8_000) {
        if c.over() { break; }
        let global = n % 25 == 0;
        let (w, h) = if global { (*c.rng.pick(&[640usize, 720, 1000, 1440]), 2 + c.rng.below(2)) } else { (1 + c.rng.below(9), 1 + c.rng.below(9)) };
        let a = if global { 0.0 } else { c.rng.fr(-170.0, 300.0) };
        let b = if global { 360.0 - 360.0 / w as f64 } else { a + c.rng.fr(1.0, 50.0) };
        let (s, e) = (c.rng.fr(-80.0, 0.0), c.rng.fr(1.0, 80.0));
        let hole = if c.rng.chance(0.5) { 0.0 } else { c.rng.fr(0.0, 0.7) };
        let data: Vec<f64> = (0..w * h).map(|_| { let v = c.rng.fr(-20.0, 60.0); if c.rng.chance(hole) { f64::NAN } else { v } }).collect();
        if data.iter().all(|v| v.is_nan()) || (w == 1 && !global) { continue; }
        let lo = if c.rng.chance(0.5) { None } else { Some(c.rng.fr(-10.0, 5.0)) };
        let hi = if c.rng.chance(0.5) { None } else { Some(c.rng.fr(6.0, 50.0)) };
        let count = if c.rng.chance(0.5) { None } else { Some(1 + c.rng.below(8)) };
        let lab = c.rng.chance(0.5);
        let cells: Vec<usize> = if global { (0..40).map(|_| c.rng.below((w + 1) * h)).chain((0..h).map(|j| (w + 1) * j + w)).collect() } else { (0..w * h).collect() };
        let shown = if global { format!("{w} columns, {h} rows, first {:?}", &data[..6]) } else { format!("{data:?}") };
        c.case(if global { "globe" } else { "map" }, format!("data={shown} columns={w} rows={h} longitudes {a} to {b} latitudes {s} to {e} levels {lo:?} to {hi:?} count={count:?}"), w * h > 1, || {
            let span = |i: usize| { let lo = lo.unwrap_or(data.iter().cloned().fold(f64::INFINITY, f64::min)); let hi = hi.unwrap_or(data.iter().cloned().fold(f64::NEG_INFINITY, f64::max)); let n = count.unwrap_or(20); if n > 1 { lo + (hi - lo) * i as f64 / (n - 1) as f64 } else { lo } };
            let ts: Vec<f64> = (0..count.unwrap_or(20)).map(span).collect();
            let Ok(fs) = compute_latlng_gridded_contours(data.clone(), w, h, a, b, s, e, lo, hi, count, if lab { Some(label as Label) } else { None }) else { return Err("an error".into()) };
            ensure!(fs.len() == ts.len(), "{} contours of {} levels", fs.len(), ts.len());
            let (cols, end) = if global { (w + 1, 360.0) } else { (w, b) };
            for (i, f) in fs.iter().enumerate() {
                let f = serde_json::to_value(f).map_err(|e| e.to_string())?;
                props(&f, i, &ts, true, lab)?;
                let r = rings(&f)?;
                for m in &cells {
                    let (k, j) = (m % cols, m / cols);
                    let v = data[j * w + if k == w { 0 } else { k }];
                    if (v - ts[i]).abs() < 1e-3 { continue; }
                    let (x, y) = (a + (end - a) * (k as f64 + 0.5) / cols as f64, s + (e - s) * (j as f64 + 0.5) / h as f64);
                    ensure!(encloses(&r, x, y) == (v > ts[i]), "the cell at ({x}, {y}) of value {v} is {} the contour of {}", if v > ts[i] { "outside" } else { "inside" }, ts[i]);
                }
            }
            Ok(())
        });
    }
}
