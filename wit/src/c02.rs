use crate::core::*;
use crate::ensure;
use surfrs::tools::analysis::{watershed, WatershedError};

fn adj(w: usize, h: usize, x: usize) -> Vec<usize> {
    let (j, i) = ((x / w) as i64, (x % w) as i64);
    let mut v = vec![];
    for dj in -1..=1i64 { for di in -1..=1i64 {
        if (di, dj) == (0, 0) || i + di < 0 || i + di >= w as i64 { continue; }
        v.push(((j + dj).rem_euclid(h as i64) * w as i64 + i + di) as usize);
    } }
    v
}
/// flat connected regions with no higher neighbour: the separate peaks
fn peaks(d: &[f64], w: usize, h: usize) -> Vec<Vec<usize>> {
    let mut seen = vec![false; d.len()];
    let mut out = vec![];
    for s in 0..d.len() {
        if seen[s] { continue; }
        let (mut st, mut reg, mut top) = (vec![s], vec![], true);
        seen[s] = true;
        while let Some(x) = st.pop() {
            reg.push(x);
            for y in adj(w, h, x) {
                if d[y] > d[x] { top = false; }
                if d[y] == d[x] && !seen[y] { seen[y] = true; st.push(y); }
            }
        }
        if top { out.push(reg); }
    }
    out
}
fn shape(l: &[i32], n: usize, w: usize, h: usize) -> Result<(), String> {
    ensure!(l.len() == w * h, "{} labels for {} cells", l.len(), w * h);
    ensure!(l.iter().all(|v| *v >= 0 && (*v as usize) < n), "a label is outside 0..{n}: {l:?}");
    for b in 1..n { ensure!(l.contains(&(b as i32)), "basin {b} of {n} has no cell: {l:?}"); }
    Ok(())
}
pub fn run(c: &mut Ctx) {
    c.rule = "random grids 1x1..12x14 of integer levels (so digitizing is exact), of random energies, constant grids, steps 1..1000, with and without blur, cones far apart under a blur of up to one and a half cells, and mismatched lengths; four large grids (37440 cells, 2340 basins, flats 700 cells long); non-trivial: more than one cell".into();
    // more cells, basins and steps of flooding than small counters hold
    for (name, w, h, f) in [
        ("2340 hills on a 208x180 grid", 208usize, 180usize, (|i, j| [[0.0, 1.0, 1.0, 1.0], [0.0, 1.0, 2.0, 1.0], [0.0, 1.0, 1.0, 1.0], [0.0; 4]][j % 4][i % 4]) as fn(usize, usize) -> f64),
        ("a flat strip of 700x3 with one hill at its end", 700, 3, |i, _| if i == 0 { 1.0 } else { 0.0 }),
        ("a flat ring of 3x700 with one hill", 3, 700, |_, j| if j == 350 { 1.0 } else { 0.0 }),
        ("two hills at the ends of a flat 601x4 strip", 601, 4, |i, _| if i == 0 || i == 600 { 1.0 } else { 0.0 }),
    ] {
        c.case("large", name.to_string(), true, || {
            let d: Vec<f64> = (0..w * h).map(|x| f(x % w, x / w)).collect();
            let top = d.iter().copied().fold(0.0, f64::max);
            let (l, cnt) = watershed(&d, w, h, top as usize + 1, None).map_err(|e| format!("{e:?}"))?;
            ensure!(l.len() == w * h, "{} labels for {} cells", l.len(), w * h);
            let p = peaks(&d, w, h);
            ensure!(cnt == p.len() + 1, "{} separate peaks but {} basins", p.len(), cnt - 1);
            let mut cells = vec![0usize; cnt];
            for x in l.iter() { ensure!(*x >= 0 && (*x as usize) < cnt, "label {x} is outside 0..{cnt}"); cells[*x as usize] += 1; }
            ensure!(cells[1..].iter().all(|n| *n > 0), "a basin has no cell");
            let mut of = std::collections::BTreeSet::new();
            for r in &p {
                ensure!(l[r[0]] > 0 && r.iter().all(|x| l[*x] == l[r[0]]), "peak at {:?} is split or unlabelled", r[0]);
                ensure!(of.insert(l[r[0]]), "two peaks share basin {}", l[r[0]]);
            }
            ensure!(p.len() != 1 || l.iter().all(|x| *x == 1), "not every cell joins the only hill");
            ensure!(cells[0] <= 10 * h, "{} cells join no basin", cells[0]);
            Ok(())
        });
    }
    for _ in 0..c.n(3000, 60000) {
        if c.over() { break; }
        let (w, h) = (1 + c.rng.below(12), 1 + c.rng.below(14));
        let n = w * h;
        let k = *c.rng.pick(&[2usize, 3, 5, 9, 40, 100, 255]);
        match c.rng.below(5) {
            4 => {
                // cones far apart on flat ground: a blur smooths each of them and merges none
                let (a, b) = (1 + c.rng.below(3), 1 + c.rng.below(2));
                let (w, h) = (14 * a + c.rng.below(6), 14 * b + c.rng.below(6));
                let scale = *c.rng.pick(&[1e-3, 1.0, 40.0]);
                let sigma = c.rng.fr(0.3, 1.5) as f32;
                let steps = *c.rng.pick(&[50usize, 100, 200, 255]);
                let mut tops: Vec<(i64, i64, f64)> = vec![];
                for x in 0..a { for y in 0..b { let v = 2.5 + c.rng.f(); tops.push((14 * x as i64 + 7, 14 * y as i64 + 7, v)); } }
                let d: Vec<f64> = (0..w * h).map(|x| {
                    let (i, j) = ((x % w) as i64, (x / w) as i64);
                    scale * tops.iter().map(|(p, q, v)| (v - (((i - p).pow(2) + (j - q).pow(2)) as f64).sqrt()).max(0.0)).fold(0.0, f64::max)
                }).collect();
                c.case("blurred", format!("watershed of cones at {tops:?} on a {w}x{h} grid, times {scale}, {steps} levels, Some({sigma})"), a * b > 1, || {
                    let (l, cnt) = watershed(&d, w, h, steps, Some(sigma)).map_err(|e| format!("{e:?}"))?;
                    shape(&l, cnt, w, h)?;
                    ensure!(cnt == tops.len() + 1, "{} hills far apart but {} basins", tops.len(), cnt - 1);
                    let mut at: Vec<i32> = tops.iter().map(|(p, q, _)| l[*q as usize * w + *p as usize]).collect();
                    ensure!(at.iter().all(|x| *x > 0), "a hill's top is in no basin: {at:?}");
                    at.sort();
                    at.dedup();
                    ensure!(at.len() == tops.len(), "two hills share a basin");
                    Ok(())
                });
            }
            0 | 1 => {
                let mut d: Vec<f64> = (0..n).map(|_| c.rng.below(k) as f64).collect();
                if n < 2 { continue; }
                if c.rng.chance(0.4) {
                    // a few smooth hills
                    let m = 1 + c.rng.below(4);
                    let hills: Vec<(i64, i64)> = (0..m).map(|_| (c.rng.below(w) as i64, c.rng.below(h) as i64)).collect();
                    d = (0..n).map(|x| {
                        let (i, j) = ((x % w) as i64, (x / w) as i64);
                        hills.iter().map(|(a, b)| { let dj = (j - b).abs().min(h as i64 - (j - b).abs()); (k as i64 - 1 - (i - a).pow(2) - dj.pow(2)).max(0) as f64 }).fold(0.0, f64::max)
                    }).collect();
                }
                d[c.rng.below(n)] = 0.0;
                let top = d.iter().copied().fold(0.0, f64::max);
                if top == 0.0 { continue; }
                let steps = top as usize + 1;
                c.case("levels", format!("watershed({d:?}, {w}, {h}, {steps}, None)"), true, || {
                    let (l, cnt) = watershed(&d, w, h, steps, None).map_err(|e| format!("{e:?}"))?;
                    shape(&l, cnt, w, h)?;
                    let p = peaks(&d, w, h);
                    ensure!(cnt == p.len() + 1, "{} separate peaks but {} basins, labels {l:?}", p.len(), cnt - 1);
                    let mut used = vec![];
                    for r in &p {
                        let a = l[r[0]];
                        ensure!(a > 0 && r.iter().all(|x| l[*x] == a), "peak at {:?} is split or unlabelled, labels {l:?}", r);
                        ensure!(!used.contains(&a), "two peaks share basin {a}, labels {l:?}");
                        used.push(a);
                    }
                    let mut near: Vec<bool> = (0..n).map(|x| p.iter().any(|r| r.contains(&x))).collect();
                    for _ in 0..5 { near = (0..n).map(|x| near[x] || adj(w, h, x).iter().any(|y| near[*y])).collect(); }
                    for x in 0..n {
                        ensure!(l[x] != 0 || !near[x], "cell {x} joins no basin though a peak is at most five cells away, labels {l:?}");
                        ensure!(p.iter().any(|r| r.contains(&x)) || l[x] == 0 || adj(w, h, x).iter().any(|y| l[*y] == l[x]), "cell {x} is labelled {} away from that basin, labels {l:?}", l[x]);
                    }
                    Ok(())
                });
            }
            2 => {
                let s = *c.rng.pick(&[1e-6, 1.0, 300.0]);
                let flat = c.rng.chance(0.1);
                let off = if c.rng.chance(0.2) { -2.0 * s } else { 0.0 };
                let d: Vec<f64> = (0..n).map(|_| if flat { s } else { off + c.rng.f() * s }).collect();
                let steps = *c.rng.pick(&[1usize, 2, 3, 10, 100, 254, 255, 256, 257, 512, 1000]);
                let blur = if c.rng.chance(0.5) { Some(c.rng.fr(0.3, 3.0) as f32) } else { None };
                c.case("energies", format!("watershed({d:?}, {w}, {h}, {steps}, {blur:?})"), n > 1, || {
                    let (l, cnt) = watershed(&d, w, h, steps, blur).map_err(|e| format!("{e:?}"))?;
                    shape(&l, cnt, w, h)?;
                    ensure!(!flat || cnt == 2, "a flat grid has {} basins", cnt - 1);
                    ensure!(cnt >= 2, "no basin at all");
                    Ok(())
                });
            }
            _ => {
                let m = loop { let m = c.rng.below(2 * n + 3); if m != n { break m; } };
                let d: Vec<f64> = (0..m).map(|_| c.rng.f()).collect();
                c.case("mismatch", format!("watershed({d:?}, {w}, {h}, 100, None)"), true, || {
                    ensure!(matches!(watershed(&d, w, h, 100, None), Err(WatershedError::InvalidData)), "{m} values for a {w}x{h} grid did not give InvalidData");
                    Ok(())
                });
            }
        }
    }
}
