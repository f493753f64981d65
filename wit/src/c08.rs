use crate::core::*;
use crate::ensure;
use surfrs::tools::interpolation::circular_pchip_interpolate;

pub fn run(c: &mut Ctx) {
    c.rule = "1..37 ascending directions in 0..360 (even bins from 0 or from half a bin, random, clustered on one side of north), values random, flat, a single spike, zeros; targets at every direction, either side of it, at 0 and 360, and in the gap across north; non-trivial: two directions or more".into();
    for _ in 0..c.n(3000, 120_000) {
        if c.over() { break; }
        let n = *c.rng.pick(&[1usize, 2, 3, 4, 5, 8, 24, 36]);
        let mut d: Vec<f64> = match c.rng.below(4) {
            0 => (0..n).map(|i| i as f64 * 360.0 / n as f64).collect(),
            1 => (0..n).map(|i| (i as f64 + 0.5) * 360.0 / n as f64).collect(),
            2 => (0..n).map(|_| c.rng.fr(0.0, 359.9)).collect(),
            _ => { let b = c.rng.fr(0.0, 300.0); (0..n).map(|_| b + c.rng.fr(0.0, 59.0)).collect() }
        };
        d.sort_by(|a, b| a.partial_cmp(b).unwrap());
        if d.windows(2).any(|w| w[1] - w[0] < 1e-3) { continue; }
        let spike = c.rng.below(n);
        let kind = c.rng.below(4);
        let v: Vec<f64> = (0..n).map(|i| match kind { 0 => c.rng.fr(0.0, 10.0), 1 => if i == spike { 5.0 } else { 0.0 }, 2 => 2.5, _ => (i as f64 * 10.0).sin() }).collect();
        let mut ts = vec![0.0, 360.0, 1e-6, 359.999];
        for i in 0..n {
            ts.push(d[i]);
            let next = if i + 1 < n { d[i + 1] } else { d[0] + 360.0 };
            for f in [0.01, 0.25, 0.5, 0.75, 0.99] { ts.push((d[i] + (next - d[i]) * f) % 360.0); }
        }
        c.case("circular", format!("dirs={d:?} values={v:?}"), n > 1, || {
            for &t in &ts {
                let r = circular_pchip_interpolate(&d, &v, t);
                // circular neighbours of t
                let k = d.iter().rposition(|x| *x <= t);
                let (a, b) = match k { Some(k) => (k, (k + 1) % n), None => (n - 1, 0) };
                let (lo, hi) = (v[a].min(v[b]), v[a].max(v[b]));
                ensure!(lo - 1e-9 <= r && r <= hi + 1e-9, "{r} at {t} outside {lo}..{hi}");
                if let Some(j) = d.iter().position(|x| *x == t) { ensure!((r - v[j]).abs() <= 1e-9, "{r} at direction {t}, expected {}", v[j]); }
                if t == 360.0 { if let Some(j) = d.iter().position(|x| *x == 0.0) { ensure!((r - v[j]).abs() <= 1e-9, "{r} at 360, expected {} as at 0", v[j]); } }
            }
            Ok(())
        });
    }
}
