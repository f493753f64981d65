use crate::core::*;
use crate::ensure;
use surfrs::spectra::Spectra;
use surfrs::units::direction::DirectionConvention;

fn around(d: &[f64], t: f64) -> (usize, usize) {
    // circular neighbours of t among d (degrees)
    let gap = |a: f64, b: f64| (b - a).rem_euclid(360.0);
    let lo = (0..d.len()).min_by(|a, b| gap(d[*a], t).partial_cmp(&gap(d[*b], t)).unwrap()).unwrap();
    let hi = (0..d.len()).min_by(|a, b| gap(t, d[*a]).partial_cmp(&gap(t, d[*b])).unwrap()).unwrap();
    (lo, hi)
}

pub fn run(c: &mut Ctx) {
    c.rule = "spectra from 2x1 to 12x12 and of 50x72 (even, logarithmic, random axes; directions listed up, down or shuffled; every convention; some negative energies), targets on source bins, between, below the first, above the last frequency, at 0 and 360 degrees; non-trivial: two directions or more".into();
    for _ in 0..c.n(1200, 40_000) {
        if c.over() { break; }
        let mut g = grid(&mut c.rng, 2, false);
        let conv = c.rng.pick(&[DirectionConvention::From, DirectionConvention::Met, DirectionConvention::Towards]).clone();
        let ci = match conv { DirectionConvention::From => 0, DirectionConvention::Met => 1, DirectionConvention::Towards => 2 };
        match c.rng.below(3) {
            0 => {}
            1 => g.d.reverse(),
            _ => { for i in (1..g.d.len()).rev() { let j = c.rng.below(i + 1); g.d.swap(i, j); } }
        }
        if c.rng.chance(0.3) { for e in g.e.iter_mut() { if c.rng.chance(0.2) { *e = -*e; } } }
        let (nk, nth) = (g.f.len(), g.d.len());
        let s = Spectra::new(g.f.clone(), g.d.clone(), g.e.clone(), conv);
        let deg: Vec<f64> = g.d.iter().map(|r| { let d = r.to_degrees(); match ci { 0 => d, 1 => (270.0 - d).rem_euclid(360.0), _ => (d + 180.0).rem_euclid(360.0) } }).collect();
        if (0..nth).any(|a| (0..a).any(|b| { let x = (deg[a] - deg[b]).rem_euclid(360.0); x.min(360.0 - x) < 1e-3 })) { continue; }
        let mut tf = vec![g.f[0] * 0.5, g.f[0], g.f[nk - 1], g.f[nk - 1] * 1.4];
        tf.extend(g.f.iter().cloned());
        for _ in 0..4 { tf.push(c.rng.fr(0.01, 0.7)); }
        tf.sort_by(|a, b| a.partial_cmp(b).unwrap());
        let own = s.direction_deg();
        let mut td: Vec<f64> = vec![0.0, 360.0, 359.99];
        td.extend(own.iter().cloned());
        for _ in 0..5 { td.push(c.rng.fr(0.0, 360.0)); }
        td.sort_by(|a, b| a.partial_cmp(b).unwrap());
        c.case("regrid", format!("convention={ci} freqs={tf:?} dirs={td:?} {}", Grid { desc: String::new(), f: g.f.clone(), d: g.d.clone(), e: g.e.clone() }.text()), nth > 1, || {
            let r = s.interpolate_to_grid(&tf, &td);
            ensure!(r.frequency == tf && r.nth() == td.len() && r.energy.len() == tf.len() * td.len(), "shape {}x{} with {} cells", r.nk(), r.nth(), r.energy.len());
            ensure!(matches!(r.dir_convention, DirectionConvention::From), "convention");
            for (j, d) in td.iter().enumerate() { ensure!(close(r.direction_raw()[j], d.to_radians(), 1e-12), "direction {j}"); }
            for (k, &f) in tf.iter().enumerate() {
                for (j, &d) in td.iter().enumerate() {
                    let v = r.energy[k + j * tf.len()];
                    let (t, u) = around(&deg, d);
                    let (a, b) = if f < g.f[0] { ensure!(v == 0.0, "{v} at {f} Hz, below the first frequency"); continue } else {
                        let k = g.f.iter().rposition(|x| *x <= f).unwrap();
                        (k, if g.f[k] == f { k } else { (k + 1).min(nk - 1) })
                    };
                    let cs = [g.at(a, t), g.at(b, t), g.at(a, u), g.at(b, u)];
                    let lo = cs.iter().cloned().fold(f64::INFINITY, f64::min).max(0.0);
                    let hi = cs.iter().cloned().fold(f64::NEG_INFINITY, f64::max).max(0.0);
                    // a target within rounding of a direction may take either side: allow its other neighbour's range only to 1e-6
                    let tol = 1e-6 * (1.0 + g.e.iter().fold(0.0f64, |m, x| m.max(x.abs())));
                    ensure!(lo - tol <= v && v <= hi + tol && v >= 0.0, "{v} at ({f} Hz, {d} deg) outside {lo}..{hi} of directions {},{}", deg[t], deg[u]);
                }
            }
            for (k, f) in g.f.iter().enumerate() {
                for t in 0..nth {
                    let i = tf.iter().position(|x| x == f).unwrap();
                    let j = td.iter().position(|x| *x == own[t]).unwrap();
                    let v = r.energy[i + j * tf.len()];
                    ensure!((v - g.at(k, t).max(0.0)).abs() < 1e-9 * (1.0 + g.at(k, t).abs()), "{v} on the source bin ({f} Hz, {} deg) with energy {}", own[t], g.at(k, t));
                }
            }
            Ok(())
        });
    }
}
