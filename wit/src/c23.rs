use crate::core::*;
use crate::ensure;
use std::f64::consts::PI;
use surfrs::swell::Swell;
use surfrs::tools::waves::*;
use surfrs::units::{Direction, UnitSystem};

// kh of linear theory by bisection
fn kh_of(d: f64) -> f64 {
    let (mut lo, mut hi) = (0.0f64, d + 2.0 * d.sqrt() + 1e-9);
    for _ in 0..200 { let m = 0.5 * (lo + hi); if m * m.tanh() < d { lo = m } else { hi = m } }
    0.5 * (lo + hi)
}

pub fn run(c: &mut Ctx) {
    c.rule = "periods 1 to 30 s, depths 0.05 to 8000 m, angles to 90 degrees either side, slopes 0.001 to 0.3, heights 0.01 to 20 m, swells and beaches at every pair of headings; oracle: the dispersion relation solved by bisection and textbook formulas".into();
    for _ in 0..c.n(6000, 400_000) {
        if c.over() { break; }
        let t = c.rng.fr(1.0, 30.0);
        let h = 10f64.powf(c.rng.fr(-1.3, 3.9));
        let w = 2.0 * PI / t;
        let d = w * w * h / 9.81;
        let kh = kh_of(d);
        let l = 2.0 * PI * h / kh;
        c.case("ldis", format!("period={t} depth={h}"), true, || {
            let r = ldis(t, h).map_err(|_| "no convergence".to_string())?;
            ensure!((r / l - 1.0).abs() < 2e-5, "wavelength {r} m, dispersion gives {l} m");
            Ok(())
        });
        let f = 1.0 / t;
        c.case("wavelength", format!("freq={f} depth={h}"), true, || {
            for dep in [None, Some(h)] {
                let (a, b) = (wavelength(f, dep), celerity(f, dep));
                ensure!((b / (a * f) - 1.0).abs() < 1e-12, "celerity {b} but wavelength {a} with depth {dep:?}");
                let want = if dep.is_some() { l } else { 9.81 / (2.0 * PI * f * f) };
                ensure!((a / want - 1.0).abs() < 0.01, "wavelength {a} instead of {want} with depth {dep:?}");
            }
            let k = wavenuma(w, h);
            ensure!((k * l / (2.0 * PI) - 1.0).abs() < 0.01, "wavenuma {k} instead of {}", 2.0 * PI / l);
            let x = 0.10194 * w * w * h;
            let a = 1.0 + 0.6522 * x + 0.4622 * x * x + 0.0864 * x.powi(4) + 0.0675 * x.powi(5);
            let want = x * (1.0 + 1.0 / (x * a)).sqrt() / h;
            ensure!((k / want - 1.0).abs() < 1e-10, "wavenuma {k}, Chen and Thomson give {want}");
            let (k, cg) = wavenu3(w, h);
            ensure!((k * h / kh - 1.0).abs() < 0.003, "wavenu3 {k} instead of {}", kh / h);
            let want = 0.5 * (1.0 + 2.0 * k * h / (2.0 * k * h).min(20.0).sinh()) * w / k;
            ensure!((cg / want - 1.0).abs() < 1e-9, "group velocity {cg} instead of {want}");
            Ok(())
        });
        let ang = if c.rng.chance(0.1) { *c.rng.pick(&[-90.0, 0.0, 90.0, 89.0]) } else { c.rng.fr(-90.0, 90.0) };
        c.case("coefficients", format!("wavelength={l} depth={h} angle={ang}"), true, || {
            let ks = shoaling_coefficient(l, h);
            let q = if kh > 300.0 { 0.0 } else { 2.0 * kh / (2.0 * kh).sinh() };
            let want = (1.0 / (kh.tanh() * (1.0 + q))).sqrt();
            ensure!((ks / want - 1.0).abs() < 1e-6, "shoaling coefficient {ks} instead of {want}");
            let (kr, b) = refraction_coefficient(l, h, ang);
            let s = ang.to_radians().sin() * kh.tanh();
            ensure!((b.to_radians().sin() - s).abs() < 1e-6, "refracted to {b} degrees, Snell gives sine {s}");
            if kh < 4.0 && ang.abs() < 89.9 {
                let want = (ang.to_radians().cos() / s.asin().cos()).sqrt();
                ensure!((kr - want).abs() < 1e-6, "refraction coefficient {kr} instead of {want}");
            }
            Ok(())
        });
        let hs = c.rng.fr(0.01, 20.0);
        let slope = c.rng.fr(0.001, 0.3);
        let deep = 9.81 * t * t / (2.0 * PI);
        let height = |a: f64| { let th = (a.to_radians().sin() * l / deep).asin(); let h0 = (a.to_radians().cos() / th.cos()).sqrt() * hs; 0.56 * (h0 / deep).powf(-0.2) * h0 };
        c.case("break", format!("period={t} angle={ang} height={hs} slope={slope} depth={h}"), true, || {
            if ang.abs() > 89.0 { return Ok(()); }
            let (hb, db) = break_wave(t, ang, hs, slope, h).map_err(|_| "no convergence".to_string())?;
            let want = height(ang);
            ensure!((hb / want - 1.0).abs() < 1e-3, "breaks at {hb} m instead of {want} m");
            let a = 43.8 * (1.0 - (-19.0 * slope).exp());
            let b = 1.56 / (1.0 + (-19.5 * slope).exp());
            let k = b - a * hb / (9.81 * t * t);
            if k.abs() > 1e-3 { ensure!((db * k / hb - 1.0).abs() < 1e-6, "breaks in {db} m instead of {} m", hb / k); }
            Ok(())
        });
        let (dir, beach) = (c.rng.below(361) as i32, c.rng.below(361) as f64);
        c.case("estimate", format!("period={t} direction={dir} height={hs} beach={beach} slope={slope} depth={h}"), true, || {
            let s = Swell::new(&UnitSystem::Metric, hs, t, Direction::from_degrees(dir), None, None, None);
            let m = (s.direction.get_value().degrees as f64 - beach).rem_euclid(360.0);
            let m = m.min(360.0 - m);
            let r = estimate_breaking_wave_height(&s, beach, slope, h);
            if m > 90.0 { ensure!(r.is_err(), "a swell {m} degrees off the beach breaks"); return Ok(()); }
            let r = r.map_err(|_| format!("no estimate {m} degrees off the beach"))?;
            if m < 89.0 { ensure!((r / height(m) - 1.0).abs() < 1e-3, "breaks at {r} m instead of {} m", height(m)); }
            Ok(())
        });
        let (m0, m2) = (c.rng.fr(0.001, 10.0), c.rng.fr(0.0, 5.0));
        c.case("moments", format!("hs={hs} period={t} energy={m0} bandwidth={m2} frequency={f}"), true, || {
            let want = 1029.0 * 9.81 * 9.81 / (16.0 * PI) * hs * hs * t * t / 1000.0;
            ensure!((wave_energy(hs, t) / want - 1.0).abs() < 1e-12, "energy");
            ensure!(close(zero_spectral_moment(m0, m2), m0 * m2, 1e-12) && close(second_spectral_moment(m0, m2, f), m0 * m2 * f * f, 1e-12), "moments");
            let want = 8.0 * PI * m2 / (9.81 * m0.sqrt());
            ensure!(close(steepness_coefficient(m0, m2), want, 1e-12), "steepness {} instead of {want}", steepness_coefficient(m0, m2));
            ensure!(close(dfp_swell_sea(t * 100.0, hs * 1e5), t * 100.0 * 9.81 / (4.0 * PI * hs * 1e5), 1e-12), "swell frequency drift");
            Ok(())
        });
    }
}
