use crate::core::*;
use crate::ensure;
use surfrs::tools::analysis::detect_peaks;

// The next extreme after `from`, up to sign: the greatest value (first such) before the first drop of more than delta from it.
fn next(d: &[f64], from: usize, sign: f64, delta: f64) -> Option<(usize, usize)> {
    for t in from..d.len() {
        let mut m = from;
        for j in from..=t { if sign * d[j] > sign * d[m] { m = j; } }
        if if sign > 0.0 { d[t] < d[m] - delta } else { d[t] > d[m] + delta } { return Some((m, t)); }
    }
    None
}
pub fn run(c: &mut Ctx) {
    c.rule = "all sequences of 0..=6 values over {0,1,2} (thorough 0..=8) with delta 0, 0.5, 1; random ones up to 120 values (plateaus, ramps, noise, spectra-like humps) with delta 0..; non-trivial: at least one extreme".into();
    c.exhaustive.push("sequences over {0,1,2} up to length 6 (thorough: 8)".into());
    let go = |c: &mut Ctx, d: Vec<f64>, delta: f64| {
        let (mut mn, mut mx, mut from, mut s) = (vec![], vec![], 0, 1.0);
        while let Some((m, t)) = next(&d, from, s, delta) { if s > 0.0 { mx.push(m) } else { mn.push(m) } from = t; s = -s; }
        c.case("peaks", format!("detect_peaks({d:?}, {delta})"), !mx.is_empty(), || {
            let (a, b) = detect_peaks(&d, delta);
            ensure!((&a, &b) == (&mn, &mx), "minima {a:?} maxima {b:?}, expected {mn:?} and {mx:?}");
            Ok(())
        });
    };
    let top = if c.thorough { 8 } else { 6 };
    for n in 0..=top { for k in 0..3usize.pow(n as u32) {
        if c.over() { return; }
        let d: Vec<f64> = (0..n).map(|i| (k / 3usize.pow(i as u32) % 3) as f64).collect();
        for delta in [0.0, 0.5, 1.0] { go(c, d.clone(), delta); }
    } }
    for _ in 0..c.n(6000, 100_000) {
        if c.over() { break; }
        let n = c.rng.below(120);
        let k = c.rng.below(4);
        let mut x = 0.0;
        let d: Vec<f64> = (0..n).map(|i| match k {
            0 => c.rng.range(0, 4) as f64,
            1 => { x += c.rng.fr(-1.0, 1.0); x }
            2 => (i as f64 * 0.3).sin() * 5.0 + c.rng.fr(-0.5, 0.5),
            _ => { if c.rng.chance(0.3) { x = c.rng.range(-3, 3) as f64; } x }
        }).collect();
        let delta = *c.rng.pick(&[0.0, 0.01, 0.05, 0.3, 1.0, 2.5, 100.0]);
        go(c, d, delta);
    }
}
