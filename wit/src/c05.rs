use crate::core::*;
use crate::ensure;
use std::f64::consts::TAU;
use surfrs::spectra::Spectra;
use surfrs::units::direction::DirectionConvention;

fn l(a: f64, b: f64, x: f64, x0: f64, x1: f64) -> f64 { a + (b - a) * ((x - x0) / (x1 - x0)) }

pub fn run(c: &mut Ctx) {
    c.rule = "spectra from 1x1 to 12x12 and of 50x72 on even, logarithmic and random ascending axes; points on bins, between bins, below the first and above the last frequency and across north; indices whole, fractional, negative and past the end; non-trivial: more than one frequency and direction".into();
    for _ in 0..c.n(1500, 60_000) {
        if c.over() { break; }
        let g = grid(&mut c.rng, 1, false);
        let s = Spectra::new(g.f.clone(), g.d.clone(), g.e.clone(), DirectionConvention::From);
        let (nk, nth) = (g.f.len(), g.d.len());
        let mut fs = vec![g.f[0] * 0.5, g.f[0], g.f[nk - 1], g.f[nk - 1] * 1.5, c.rng.fr(0.0, 0.7)];
        let k = c.rng.below(nk);
        fs.push(g.f[k]);
        if k + 1 < nk { fs.push(g.f[k] + (g.f[k + 1] - g.f[k]) * c.rng.f()); }
        let mut ds = vec![g.d[0], g.d[nth - 1], 0.0, TAU - 1e-9, c.rng.fr(0.0, TAU), g.d[0] * 0.5, (g.d[nth - 1] + TAU) * 0.5];
        let t = c.rng.below(nth);
        ds.push(g.d[t]);
        if t + 1 < nth { ds.push(g.d[t] + (g.d[t + 1] - g.d[t]) * c.rng.f()); }
        let ids: Vec<f64> = vec![0.0, -0.5, -1.0, -3.0, (nk - 1) as f64, nk as f64, nk as f64 - 0.5, c.rng.below(nk) as f64, c.rng.fr(-1.0, nk as f64), (nth - 1) as f64, nth as f64 + 2.0, nth as f64 - 0.25, c.rng.below(nth) as f64, c.rng.fr(-1.0, nth as f64)];
        c.case("between", format!("freqs={fs:?} dirs={ds:?} indices={ids:?} {}", g.desc), nk > 1 && nth > 1, || {
            for &f in &fs {
                let (a, b) = s.closest_k(f);
                let k = g.f.iter().rposition(|x| *x <= f).unwrap_or(0);
                ensure!(a == k && b == (k + 1).min(nk - 1), "closest_k({f}) is ({a},{b}), expected lower {k}");
                for &d in &ds {
                    let (p, q) = s.closest_th(d);
                    let t = g.d.iter().rposition(|x| *x <= d).unwrap_or(nth - 1);
                    let t2 = (t + 1) % nth;
                    ensure!(p == t && q == t2, "closest_th({d}) is ({p},{q}), expected ({t},{t2})");
                    let d1 = g.d[t];
                    let d2 = if t == nth - 1 { g.d[0] + TAU } else { g.d[t2] };
                    let dd = if t == nth - 1 && d < d1 { d + TAU } else { d };
                    let e = |k: usize| l(g.at(k, t), g.at(k, t2), dd, d1, d2);
                    let want = if k == nk - 1 { e(k) } else { l(e(k), e(k + 1), f.max(g.f[k]), g.f[k], g.f[k + 1]) };
                    let r = s.interp_energy(f, d);
                    ensure!((r - want).abs() <= 1e-6 * want.abs().max(1.0), "interp_energy({f}, {d}) is {r}, expected {want}");
                }
            }
            for &i in &ids {
                for (axis, v, r) in [("ik", &g.f, s.ik(i)), ("ith", &g.d, s.ith(i))] {
                    let n = v.len();
                    let want = if i.ceil() >= n as f64 { v[n - 1] } else if i < 0.0 { v[0] } else if i.fract() == 0.0 { v[i as usize] } else { l(v[i as usize], v[i as usize + 1], i, i.floor(), i.ceil()) };
                    ensure!((r - want).abs() <= 1e-9, "{axis}({i}) is {r}, expected {want}");
                }
            }
            Ok(())
        });
    }
}
