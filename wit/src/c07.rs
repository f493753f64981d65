use crate::core::*;
use crate::ensure;
use surfrs::tools::interpolation::PchipInterpolator;

pub fn run(c: &mut Ctx) {
    c.rule = "2..12 (at times 300) knots with uneven gaps (down to 1e-6 of each other); data rising, falling, flat, straight, alternating, with plateaus, steep steps next to shallow ones; sampled at every knot, inside every interval near both ends, and beyond the ends; non-trivial: three knots or more".into();
    for _ in 0..c.n(4000, 200_000) {
        if c.over() { break; }
        let n = if c.rng.chance(0.004) { 300 } else { 2 + c.rng.below(11) };
        let mut x = vec![c.rng.fr(-500.0, 500.0)];
        let even = c.rng.chance(0.2);
        for i in 1..n {
            let g = if even { 1.5 } else { match c.rng.below(4) { 0 => 1.0, 1 => c.rng.fr(1e-3, 0.1), 2 => c.rng.fr(10.0, 300.0), _ => c.rng.fr(0.1, 10.0) } };
            x.push(x[i - 1] + g);
        }
        let shape = c.rng.below(6);
        let slope = c.rng.fr(-50.0, 50.0);
        let mut y: Vec<f64> = vec![c.rng.fr(-20.0, 20.0)];
        for i in 1..n {
            let d = match c.rng.below(5) { 0 => 0.0, 1 => c.rng.fr(1e-6, 1e-3), 2 => c.rng.fr(100.0, 1e4), _ => c.rng.fr(0.0, 10.0) };
            y.push(match shape {
                0 => y[i - 1] + d,
                1 => y[i - 1] - d,
                2 => y[0] + slope * (x[i] - x[0]),
                3 => y[0],
                4 => if i % 2 == 0 { y[i - 1] + d } else { y[i - 1] - d },
                _ => if c.rng.chance(0.6) { y[i - 1] + d } else { y[i - 1] - d },
            });
        }
        let big = y.iter().fold(1.0f64, |a, b| a.max(b.abs()));
        let tol = 1e-9 * big;
        let line = shape == 2;
        // sample points, ascending
        let mut z = vec![x[0] - 1e6, x[0] - 1e-3];
        for i in 0..n {
            z.push(x[i]);
            if i + 1 < n { for t in [1e-6, 0.05, 0.2, 1.0 / 3.0, 0.5, 2.0 / 3.0, 0.8, 0.95, 1.0 - 1e-6] { z.push(x[i] + (x[i + 1] - x[i]) * t); } }
        }
        z.push(x[n - 1] + 1e-3);
        z.push(x[n - 1] + 1e6);
        let near = |v: f64| { let mut k = 0; while k + 2 < n && v > x[k + 1] { k += 1; } k };
        c.case("pchip", format!("x={x:?} y={y:?}"), n > 2, || {
            let p = PchipInterpolator::new(&x, &y);
            let many = p.interpolate_many(&z);
            ensure!(many.len() == z.len(), "{} values for {} points", many.len(), z.len());
            let mut prev: Option<(f64, f64)> = None;
            for (i, v) in z.iter().enumerate() {
                let r = p.interpolate(*v);
                ensure!(r == many[i] || (r.is_nan() && many[i].is_nan()), "interpolate_many differs at {v}");
                if *v <= x[0] { ensure!(r == y[0], "{r} at {v} before the first knot"); }
                else if *v >= x[n - 1] { ensure!(r == y[n - 1], "{r} at {v} after the last knot"); }
                else {
                    let k = near(*v);
                    let (lo, hi) = (y[k].min(y[k + 1]), y[k].max(y[k + 1]));
                    ensure!(lo - tol <= r && r <= hi + tol, "{r} at {v} outside {lo}..{hi}");
                    if *v == x[k + 1] { ensure!((r - y[k + 1]).abs() <= tol, "{r} at the knot {v}, expected {}", y[k + 1]); }
                    if line { let e = y[0] + slope * (v - x[0]); ensure!((r - e).abs() <= tol * 100.0 + 1e-6 * slope.abs(), "{r} at {v} on the line, expected {e}"); }
                    if let Some((pv, pr)) = prev {
                        if pv >= x[k] { // same interval: towards its right value
                            if y[k] <= y[k + 1] { ensure!(r >= pr - tol, "falls from {pr} at {pv} to {r} at {v}"); }
                            if y[k] >= y[k + 1] { ensure!(r <= pr + tol, "rises from {pr} at {pv} to {r} at {v}"); }
                        }
                    }
                }
                prev = Some((*v, r));
            }
            Ok(())
        });
    }
}
