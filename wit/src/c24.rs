use crate::core::*;
use crate::ensure;
use surfrs::tools::analysis::{bilerp, lerp};
use surfrs::tools::math::*;

pub fn run(c: &mut Ctx) {
    c.rule = "random values and places inside, at the ends of and outside the interval (either order of ends); vectors on whole and half degrees and on the axes; missing markers within and just outside 1e-5; non-trivial: all".into();
    for _ in 0..c.n(30000, 1_000_000) {
        if c.over() { break; }
        let num = |c: &mut Ctx| match c.rng.below(3) { 0 => c.rng.range(-10, 10) as f64, 1 => c.rng.fr(-1.0, 1.0), _ => c.rng.fr(-1e4, 1e4) };
        let (a, b, p, q) = (num(c), num(c), num(c), num(c));
        let (x0, y0) = (num(c), num(c));
        let d = |c: &mut Ctx| { let w = match c.rng.below(3) { 0 => c.rng.range(1, 9) as f64, 1 => c.rng.fr(0.01, 1.0), _ => c.rng.fr(1.0, 500.0) }; if c.rng.chance(0.3) { -w } else { w } };
        let (x1, y1) = (x0 + d(c), y0 + d(c));
        let t = |c: &mut Ctx| match c.rng.below(4) { 0 => 0.0, 1 => 1.0, 2 => c.rng.fr(-1.0, 2.0), _ => c.rng.f() };
        let (s, u) = (t(c), t(c));
        let (x, y) = (if s == 1.0 { x1 } else { x0 + (x1 - x0) * s }, if u == 1.0 { y1 } else { y0 + (y1 - y0) * u });
        let tol = 1e-6 * (1.0 + a.abs() + b.abs() + p.abs() + q.abs());
        c.case("lerp", format!("lerp({a}, {b}, {x}, {x0}, {x1})"), true, || {
            let r = lerp(&a, &b, &x, &x0, &x1);
            ensure!((r - (a + (b - a) * s)).abs() <= tol, "got {r}, expected {}", a + (b - a) * s);
            if x == x0 { ensure!((r - a).abs() <= tol * 1e-6, "at the left end {r}"); }
            Ok(())
        });
        c.case("bilerp", format!("bilerp({a}, {b}, {p}, {q}, {x}, {x0}, {x1}, {y}, {y0}, {y1})"), true, || {
            let r = bilerp(&a, &b, &p, &q, &x, &x0, &x1, &y, &y0, &y1);
            let (l, h) = (a + (b - a) * s, p + (q - p) * s);
            ensure!((r - (l + (h - l) * u)).abs() <= tol * 10.0, "got {r}, expected {}", l + (h - l) * u);
            Ok(())
        });
        let deg = match c.rng.below(3) { 0 => c.rng.below(360) as f64 + 0.5, 1 => c.rng.below(4) as f64 * 90.0 + 0.001, _ => c.rng.fr(0.001, 359.999) };
        let sp = match c.rng.below(3) { 0 => c.rng.range(1, 40) as f64, 1 => c.rng.fr(0.01, 1.0), _ => c.rng.fr(0.0, 60.0) + 1e-3 };
        let (vu, vv) = (-sp * deg.to_radians().sin(), -sp * deg.to_radians().cos());
        c.case("vector", format!("scalar_from_uv({vu}, {vv})"), true, || {
            let (m, g) = scalar_from_uv(vu, vv);
            ensure!(close(m, sp, 1e-9), "speed {m}, expected {sp}");
            ensure!((0..360).contains(&g) && g as f64 <= deg + 1e-6 && deg - 1e-6 < g as f64 + 1.0, "angle {g}, it comes from {deg}");
            Ok(())
        });
        for (vu, vv, e) in [(0.0, -sp, 0), (-sp, 0.0, 90), (0.0, sp, 180), (sp, 0.0, 270)] {
            c.case("axis", format!("scalar_from_uv({vu}, {vv})"), true, || {
                let (m, g) = scalar_from_uv(vu, vv);
                ensure!(close(m, sp, 1e-9) && g == e, "({m}, {g}), expected ({sp}, {e})");
                Ok(())
            });
        }
        let miss = *c.rng.pick(&[999.0, 99.0, 9999.0, -9999.0, 0.0]);
        let off = *c.rng.pick(&[0.0, 9e-6, -9e-6, 1.1e-5, -1.1e-5, 1.0, -1.0, 300.0, f64::NAN, f64::INFINITY]);
        c.case("missing", format!("is_some_missing({}, {miss})", miss + off), true, || {
            let r = is_some_missing(miss + off, miss);
            let e = off.abs() < 1e-5;
            ensure!(r.is_none() == e && f_eq(miss + off, miss) == e, "got {r:?}");
            if let Some(x) = r { ensure!(x == miss + off || x.is_nan(), "value became {x}"); }
            Ok(())
        });
    }
}
