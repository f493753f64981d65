use crate::core::*;
use crate::ensure;
use surfrs::spectra::{SpectralAxis, Spectra};
use surfrs::units::direction::DirectionConvention;

fn wid(x: &[f64], k: usize) -> f64 { if k == 0 { x[1] - x[0] } else { x[k] - x[k - 1] } }

pub fn run(c: &mut Ctx) {
    c.rule = "spectra from 2x2 to 12x12 and of 50x72 on even, logarithmic and random axes (random energy, one spike, one hill, ramps, mostly zero), every convention, moments 0..4 and -1; non-trivial: more than one cell with energy".into();
    for _ in 0..c.n(1500, 60_000) {
        if c.over() { break; }
        let g = grid(&mut c.rng, 2, false);
        let conv = c.rng.pick(&[DirectionConvention::From, DirectionConvention::Met, DirectionConvention::Towards]).clone();
        let ci = match conv { DirectionConvention::From => 0, DirectionConvention::Met => 1, DirectionConvention::Towards => 2 };
        let s = Spectra::new(g.f.clone(), g.d.clone(), g.e.clone(), conv.clone());
        let (nk, nth) = (g.f.len(), g.d.len());
        let pw = *c.rng.pick(&[0i32, 1, 2, 3, 4, -1]);
        c.case("moments", format!("convention={ci} moment={pw} {}", g.desc), g.e.iter().filter(|e| **e > 0.0).count() > 1, || {
            ensure!(s.nk() == nk && s.nth() == nth, "nk {} nth {}", s.nk(), s.nth());
            let (dk, dth) = (s.dk(), s.dth());
            ensure!(dk.len() == nk && dth.len() == nth, "widths: {} {}", dk.len(), dth.len());
            for k in 0..nk { ensure!(close(dk[k], wid(&g.f, k), 1e-12), "dk[{k}] {}", dk[k]); }
            for t in 0..nth { ensure!(close(dth[t], wid(&g.d, t), 1e-12), "dth[{t}] {}", dth[t]); }
            let ids = s.energy_indices();
            ensure!(ids.len() == nk * nth, "{} indices", ids.len());
            for (i, (k, t)) in ids.iter().enumerate() { ensure!(k + t * nk == i && *k < nk && *t < nth, "index {i} is ({k},{t})"); }
            let of = s.oned(SpectralAxis::Frequency);
            let od = s.oned(SpectralAxis::Direction);
            ensure!(of.len() == nk && od.len() == nth, "lengths {} {}", of.len(), od.len());
            for k in 0..nk {
                for t in 0..nth { ensure!(s.energy_at(k, t) == g.at(k, t), "energy_at({k},{t}) {}", s.energy_at(k, t)); }
                let w: f64 = (0..nth).map(|t| wid(&g.d, t) * g.at(k, t)).sum();
                ensure!(close(of[k], w, 1e-9), "oned frequency {k}: {} expected {w}", of[k]);
            }
            for t in 0..nth {
                let w: f64 = (0..nk).map(|k| wid(&g.f, k) * g.at(k, t)).sum();
                ensure!(close(od[t], w, 1e-9), "oned direction {t}: {} expected {w}", od[t]);
            }
            let ta: f64 = (0..nk).map(|k| of[k] * dk[k]).sum();
            let tb: f64 = (0..nth).map(|t| od[t] * dth[t]).sum();
            ensure!(close(ta, tb, 1e-9), "totals {ta} {tb}");
            let mf = s.mom_f(pw);
            ensure!(mf.len() == nth, "mom_f length {}", mf.len());
            for t in 0..nth {
                let w: f64 = (0..nk).map(|k| g.f[k].powi(pw) * wid(&g.f, k) * g.at(k, t)).sum();
                ensure!(close(mf[t], w, 1e-9), "mom_f({pw})[{t}] {} expected {w}", mf[t]);
            }
            if pw >= 0 {
                let md = s.mom_d(pw);
                ensure!(md.len() == nk, "mom_d length {}", md.len());
                for k in 0..nk {
                    let a: f64 = (0..nth).map(|t| g.d[t].sin().powi(pw) * wid(&g.d, t) * g.at(k, t)).sum();
                    let b: f64 = (0..nth).map(|t| g.d[t].cos().powi(pw) * wid(&g.d, t) * g.at(k, t)).sum();
                    let m: f64 = (0..nth).map(|t| wid(&g.d, t) * g.at(k, t)).sum();
                    ensure!((md[k].0 - a).abs() <= 1e-9 * m.max(1.0) && (md[k].1 - b).abs() <= 1e-9 * m.max(1.0), "mom_d({pw})[{k}] {:?} expected ({a},{b})", md[k]);
                }
            }
            let mw = s.mean_wave_direction_f();
            ensure!(mw.len() == nk, "mean direction length {}", mw.len());
            for k in 0..nk {
                let a: f64 = (0..nth).map(|t| g.d[t].sin() * wid(&g.d, t) * g.at(k, t)).sum();
                let b: f64 = (0..nth).map(|t| g.d[t].cos() * wid(&g.d, t) * g.at(k, t)).sum();
                ensure!((0.0..=360.0).contains(&mw[k]), "mean direction {k} is {}", mw[k]);
                if a.hypot(b) < 1e-6 { continue; }
                let r = match ci { 0 => mw[k], 1 => 270.0 - mw[k], _ => mw[k] - 180.0 }.to_radians();
                let (x, y) = (r.sin(), r.cos());
                let m = a.hypot(b);
                ensure!((x - a / m).abs() < 1e-6 && (y - b / m).abs() < 1e-6, "mean direction {k} is {} for vector ({a},{b})", mw[k]);
            }
            let per = s.period();
            ensure!(per.len() == nk && (0..nk).all(|k| close(per[k] * g.f[k], 1.0, 1e-12)), "period {per:?}");
            let dd = s.direction_deg();
            let dr = s.direction_rad();
            ensure!(dd.len() == nth && dr.len() == nth && s.direction_raw() == g.d, "directions");
            for t in 0..nth {
                let d = g.d[t].to_degrees();
                let w = match ci { 0 => d, 1 => 270.0 - d, _ => d + 180.0 };
                let diff = (dd[t] - w).rem_euclid(360.0);
                ensure!(diff.min(360.0 - diff) < 1e-6 && (0.0..=360.0).contains(&dd[t]), "direction_deg[{t}] {} for {d} in convention {ci}", dd[t]);
                ensure!(close(dr[t], dd[t].to_radians(), 1e-12), "direction_rad[{t}] {}", dr[t]);
            }
            let (lo, hi) = s.energy_range();
            ensure!(g.e.iter().all(|e| lo <= *e && *e <= hi) && g.e.contains(&lo) && g.e.contains(&hi), "energy_range ({lo},{hi})");
            Ok(())
        });
    }
}
