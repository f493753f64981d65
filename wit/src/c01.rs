use crate::core::*;
use crate::ensure;
use surfrs::tools::analysis::nearest_neighbors;

fn oracle(w: usize, h: usize, x: usize) -> Vec<usize> {
    let (j, i) = ((x / w) as i64, (x % w) as i64);
    let mut v = vec![];
    for dj in -1..=1i64 {
        for di in -1..=1i64 {
            if (di, dj) == (0, 0) || i + di < 0 || i + di >= w as i64 { continue; }
            v.push(((j + dj).rem_euclid(h as i64) * w as i64 + i + di) as usize);
        }
    }
    v.sort();
    v.dedup();
    v
}
pub fn run(c: &mut Ctx) {
    c.rule = "every index of every grid up to 9x9 (thorough 24x24), then random grids; non-trivial: grid has more than one cell".into();
    let m = c.n(9, 24);
    c.exhaustive.push(format!("all (width, height, index) with 1 <= width, height <= {m}"));
    for w in 1..=m { for h in 1..=m { for x in 0..w * h { one(c, w, h, x); } } }
    for _ in 0..c.n(2000, 40000) {
        let (w, h) = (1 + c.rng.below(400), 1 + c.rng.below(400));
        let x = c.rng.below(w * h);
        one(c, w, h, x);
        if c.over() { break; }
    }
}
fn one(c: &mut Ctx, w: usize, h: usize, x: usize) {
    c.case("neighbors", format!("nearest_neighbors({w}, {h}, {x})"), w * h > 1, || {
        let mut g = nearest_neighbors(w, h, x);
        let o = oracle(w, h, x);
        g.sort();
        if h < 3 { g.dedup(); }
        ensure!(g == o, "got (sorted) {g:?}, expected {o:?}");
        Ok(())
    });
}
