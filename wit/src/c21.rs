use crate::core::*;
use crate::ensure;
use surfrs::tools::vector::*;

fn data(c: &mut Ctx, n: usize, nan: bool) -> Vec<f64> {
    let k = c.rng.below(4);
    let p = if nan { *c.rng.pick(&[0.0, 0.0, 0.2, 0.9, 1.0]) } else { 0.0 };
    (0..n).map(|_| if c.rng.chance(p) { f64::NAN } else { match k {
        0 => c.rng.range(-3, 3) as f64,
        1 => c.rng.fr(-1.0, 1.0),
        2 => c.rng.range(-1000, -990) as f64,
        _ => *c.rng.pick(&[0.0, 1e-300, -1e300, 1e300, 5.0, f64::INFINITY, f64::NEG_INFINITY]),
    } }).collect()
}
fn stable(n: usize, le: impl Fn(usize, usize) -> bool, r: &[usize]) -> bool {
    // insertion into an ordered list, equal elements keep their place
    let mut v: Vec<usize> = vec![];
    for i in 0..n { let p = v.iter().position(|&j| !le(j, i)).unwrap_or(v.len()); v.insert(p, i); }
    v == r
}
pub fn run(c: &mut Ctx) {
    c.rule = "random vectors of 0..=40 (at times 700) numbers with ties, extremes, infinities and (min_max) NaN; bins of every count on random ranges; non-trivial: two or more elements".into();
    for _ in 0..c.n(20000, 500_000) {
        if c.over() { break; }
        let n = if c.rng.chance(0.1) { c.rng.below(3) } else if c.rng.chance(0.005) { 700 } else { c.rng.below(40) };
        let d = data(c, n, false);
        let w: Vec<i32> = d.iter().map(|x| (x.clamp(-1e6, 1e6) * 2.0) as i32).collect();
        c.case("argsort", format!("argsort {w:?}"), n > 1, || {
            ensure!(stable(n, |a, b| w[a] <= w[b], &argsort(&w)), "got {:?}", argsort(&w));
            Ok(())
        });
        c.case("argsort_partial", format!("argsort_partial {d:?}"), n > 1, || {
            ensure!(stable(n, |a, b| d[a] <= d[b], &argsort_partial(&d)), "got {:?}", argsort_partial(&d));
            Ok(())
        });
        if n > 1 && d.iter().all(|x| x.is_finite()) {
            c.case("diff", format!("diff {d:?}"), true, || {
                let (a, b) = (diff(&d), diff_abs(&d));
                let e: Vec<f64> = (0..n).map(|i| d[i.max(1)] - d[i.max(1) - 1]).collect();
                ensure!(a == e, "diff {a:?}");
                ensure!(b.len() == n && b.iter().zip(&e).all(|(x, y)| *x == y.abs()), "diff_abs {b:?}");
                ensure!(diff(&w) == (0..n).map(|i| w[i.max(1)] - w[i.max(1) - 1]).collect::<Vec<_>>() , "diff of integers {:?}", diff(&w));
                Ok(())
            });
        }
        let g = data(c, n, true);
        let fill = *c.rng.pick(&[-9999.0, 0.0, 1e9]);
        c.case("min_max", format!("min_max of {g:?}, fill {fill}"), n > 1, || {
            let lo = g.iter().copied().filter(|x| !x.is_nan()).fold(f64::INFINITY, f64::min);
            let hi = g.iter().copied().filter(|x| !x.is_nan()).fold(f64::NEG_INFINITY, f64::max);
            ensure!(min_max(&g) == (lo, hi), "min_max {:?}", min_max(&g));
            let mut h = g.clone();
            let r = min_max_fill(&mut h, fill);
            ensure!(r == (lo, hi), "min_max_fill {r:?}");
            ensure!(h.len() == n && h.iter().zip(&g).all(|(x, y)| if y.is_nan() { *x == fill } else { x == y }), "filled {h:?}");
            Ok(())
        });
        let lo = c.rng.range(-100, 100) as f64;
        let hi = lo + match c.rng.below(3) { 0 => c.rng.fr(0.001, 1.0), 1 => c.rng.range(1, 300) as f64, _ => c.rng.fr(1.0, 1e5) };
        let k = *c.rng.pick(&[1u8, 2, 10, 50, 100, 127, 128, 254, 255]);
        let step = (hi - lo) / k as f64;
        let v: Vec<f64> = (0..n).map(|i| match i % 4 { 0 => lo, 1 => hi, 2 => lo + step * c.rng.below(k as usize + 1) as f64, _ => c.rng.fr(lo, hi) }.clamp(lo, hi)).collect();
        c.case("bins", format!("bin/unbin {v:?} in {lo}..{hi} with {k}"), n > 0, || {
            let b = bin(&v, &lo, &hi, &k);
            let u = unbin(&b, &lo, &hi, &k);
            ensure!(b.len() == n && u.len() == n, "lengths {} {}", b.len(), u.len());
            let e = 1e-9 * (hi - lo + lo.abs());
            for i in 0..n {
                ensure!(b[i] <= k, "{} packed to {}", v[i], b[i]);
                ensure!(u[i] <= v[i] + e && v[i] < u[i] + step + e, "{} packed to {} and unpacked to {}", v[i], b[i], u[i]);
                if v[i] == lo || v[i] == hi { ensure!((u[i] - v[i]).abs() <= e, "end {} unpacked to {}", v[i], u[i]); }
            }
            // outside the range saturates at the ends of u8
            let s = bin(&[lo - 3.0 * (hi - lo), hi + 300.0 * (hi - lo), f64::NAN], &lo, &hi, &k);
            ensure!(s == [0, 255, 0], "out of range {s:?}");
            Ok(())
        });
    }
}
