use crate::core::*;
use crate::ensure;
use surfrs::data::directional_spectral_wave_data_record::DirectionalSpectralWaveDataRecord;
use surfrs::data::forecast_spectral_wave_data_record::ForecastSpectralWaveDataRecord;
use surfrs::location::Location;
use surfrs::swell::SwellProvider;
use surfrs::spectra::Spectra;
use surfrs::swell::Swell;
use surfrs::units::direction::DirectionConvention;

fn abbr(u: &surfrs::units::Unit) -> String { u.abbreviation().to_string() }
const TAU: f64 = std::f64::consts::TAU;

struct Want { hs: f64, rows: Vec<f64>, exact: bool, f: Vec<f64>, east: f64, north: f64, scale: f64, w0: f64 }

// the statistics of one partition (0: everything) by direct summation in the textbook order
fn want(f: &[f64], d: &[f64], e: &[f64], map: &[i32], q: i32, exact: bool) -> Want {
    let (nk, nth) = (f.len(), d.len());
    let w0 = d[1] - d[0];
    let snap = |a: f64| { let (mut c, mut s) = (a.cos(), a.sin()); if s.abs() < 1e-5 { s = 0.0; c = c.signum(); } if c.abs() < 1e-5 { c = 0.0; s = s.signum(); } (c, s) };
    let band = |k: usize| { let s = TAU * f[k]; if k == 0 { 0.5 * s * (f[1] / f[0] - 1.0) } else { let x = f[k] / f[k - 1]; if k == nk - 1 { 0.5 * s * (x - 1.0) / x } else { 0.5 * s * (x - 1.0 / x) } } };
    let (mut m, mut u, mut v, mut scale) = (0.0, 0.0, 0.0, 0.0);
    let mut rows = vec![];
    for k in 0..nk {
        let (mut r, mut a, mut b) = (0.0, 0.0, 0.0);
        for t in 0..nth {
            if q == 0 || map[k + t * nk] == q {
                let x = e[k + t * nk];
                let (c, s) = snap(d[t]);
                r += x; a += x * c; b += x * s;
            }
        }
        let w = band(k) + if k == nk - 1 { 0.25 * TAU * f[k] } else { 0.0 };
        m += r * w; u += a * w; v += b * w; scale += r.abs() * w;
        rows.push(r);
    }
    let m0 = m * w0 / TAU;
    Want { hs: 4.0 * m0.max(0.0).sqrt(), rows, exact, f: f.to_vec(), east: u, north: v, scale, w0 }
}
fn check(s: &Swell, w: &Want, q: usize, conv: &DirectionConvention) -> Result<(), String> {
    ensure!(s.partition == Some(q), "partition {:?} for {q}", s.partition);
    ensure!(abbr(&s.wave_height.unit) == "m" && abbr(&s.period.unit) == "s" && abbr(&s.direction.unit) == surfrs::units::Unit::Degrees.abbreviation(), "units of partition {q}");
    let h = s.wave_height.value.unwrap_or(f64::NAN);
    ensure!((h - w.hs).abs() <= 1e-9 * (1.0 + w.hs), "height of partition {q}: {h}, expected {}", w.hs);
    let p = s.period.value.unwrap_or(f64::NAN);
    let best = w.rows.iter().cloned().fold(0.0, f64::max);
    let can: Vec<usize> = (0..w.f.len()).filter(|&k| best > 0.0 && w.rows[k] >= best * (1.0 - 1e-9)).collect();
    let k = match (0..w.f.len()).find(|&k| (p * w.f[k] - 1.0).abs() < 1e-12) { Some(k) => k, None => return Err(format!("period of partition {q}: {p} belongs to no frequency")) };
    if best == 0.0 { ensure!(k == 0, "period of empty partition {q}: {p}"); }
    else if w.exact { ensure!(Some(&k) == can.first(), "peak of partition {q} at frequency {k}, expected {can:?}"); }
    else { ensure!(can.contains(&k), "peak of partition {q} at frequency {k}, expected {can:?}"); }
    let mut den = w.rows[k] * w.w0;
    let mut sure = true;
    if k > 0 && k + 1 < w.f.len() {
        let (l, hh) = (w.rows[k - 1] * w.w0, w.rows[k + 1] * w.w0);
        let b = l - 2.0 * den + hh;
        if b != 0.0 { sure = b.abs() > 1e-6 * den.abs(); den -= (l - hh) * (l - hh) / 8.0 / b; }
    }
    let got = s.spectral_density.as_ref().and_then(|x| x.value).unwrap_or(f64::NAN);
    ensure!(!sure || (got - den).abs() <= 1e-9 * (1.0 + den.abs()), "peak density of partition {q}: {got}, expected {den}");
    if w.east.hypot(w.north) > 1e-6 * w.scale && w.scale > 0.0 {
        let a = w.north.atan2(w.east).to_degrees();
        let t = match conv { DirectionConvention::Met => 270.0 - a, DirectionConvention::From => a, DirectionConvention::Towards => a + 180.0 };
        let g = s.direction.value.as_ref().map(|x| x.degrees).unwrap_or(-1);
        let over = (t - g as f64).rem_euclid(360.0);
        ensure!((0..360).contains(&g) && (over < 1.0 + 1e-6 || over > 360.0 - 1e-6), "direction of partition {q}: {g}, expected {}", t.rem_euclid(360.0));
    }
    Ok(())
}
pub fn run(c: &mut Ctx) {
    c.rule = "spectra from 2x2 to 12x12 and of 50x72 on even, logarithmic and random axes (random, integer, one spike, one hill, ramps, mostly zero), labels at random over 0 to 6 partitions (at times 300), blocks, or from the watershed; every convention; with and without depth and wind; plus the textbook height of smooth spectra on fine grids; non-trivial: a component of at least 0.1 m".into();
    for _ in 0..c.n(2500, 100_000) {
        if c.over() { break; }
        let mut g = grid(&mut c.rng, 2, false);
        let (nk, nth) = (g.f.len(), g.d.len());
        let exact = c.rng.chance(0.4);
        if exact { for e in g.e.iter_mut() { *e = e.round() } }
        let conv = c.rng.pick(&[DirectionConvention::From, DirectionConvention::Met, DirectionConvention::Towards]).clone();
        let ci = match conv { DirectionConvention::From => 0, DirectionConvention::Met => 1, DirectionConvention::Towards => 2 };
        let np = if c.rng.chance(0.01) { 300 } else { c.rng.below(7) };
        let how = c.rng.below(3);
        let map: Vec<i32> = (0..nk * nth).map(|i| match how { 0 => c.rng.range(-1, np as i64) as i32, 1 => ((i / nk) % (np + 1)) as i32, _ => ((i % nk) % (np + 1)) as i32 }).collect();
        let (depth, wind) = (if c.rng.chance(0.4) { Some(c.rng.fr(3.0, 300.0)) } else { None }, if c.rng.chance(0.4) { Some((c.rng.fr(0.0, 25.0), c.rng.fr(0.0, 6.2))) } else { None });
        let desc = format!("convention={ci} depth={depth:?} wind={wind:?} partitions={np} labels={map:?} frequency={:?} direction={:?} energy={:?}", g.f, g.d, g.e);
        let ws: Vec<Want> = (0..=np).map(|q| want(&g.f, &g.d, &g.e, &map, q as i32, exact)).collect();
        let some = ws[1..].iter().any(|w| w.hs >= 0.1);
        c.case("statistics", desc, some, || {
            let s = Spectra::new(g.f.clone(), g.d.clone(), g.e.clone(), conv.clone());
            let r = s.swell_data(depth, wind.map(|w| w.0), wind.map(|w| w.1), &(map.clone(), np)).map_err(|e| e.to_string())?;
            check(&r.summary, &ws[0], 0, &conv)?;
            let mut seen = vec![false; np + 1];
            let (mut total, mut before) = (0.0, f64::INFINITY);
            for x in &r.components {
                let q = x.partition.unwrap_or(0);
                ensure!(q >= 1 && q <= np && !seen[q], "component for partition {q}");
                seen[q] = true;
                check(x, &ws[q], q, &conv)?;
                ensure!(ws[q].hs >= 0.1 - 1e-9, "partition {q} of {} m listed", ws[q].hs);
                let (h, p) = (x.wave_height.value.unwrap_or(0.0), x.period.value.unwrap_or(0.0));
                let en = 1029.0 * 9.81 * 9.81 / (16.0 * std::f64::consts::PI) * h * h * p * p / 1000.0;
                let e = x.energy.as_ref().ok_or("component without energy".to_string())?;
                let v = e.value.unwrap_or(f64::NAN);
                ensure!(close(v, en, 1e-9) && abbr(&e.unit) == surfrs::units::Unit::KiloJoules.abbreviation(), "energy of partition {q}: {v}, expected {en}");
                ensure!(v <= before, "energies {before} then {v}");
                before = v;
                total += v;
            }
            for q in 1..=np { ensure!(seen[q] || ws[q].hs < 0.1 + 1e-9, "partition {q} of {} m missing", ws[q].hs); }
            let t = r.summary.energy.as_ref().and_then(|x| x.value).unwrap_or(f64::NAN);
            ensure!(close(t, total, 1e-9), "total energy {t}, expected {total}");
            // the records' swell: the same statistics of their own spectrum, cut up by the watershed
            if nk > 1 && nth > 1 {
                let (v, u) = (depth, wind.map(|w| w.0));
                let dd = |value| surfrs::dimensional_data::DimensionalData { value, variable_name: "x".into(), unit: surfrs::units::Unit::Meters };
                let dr = |x: Option<f64>| surfrs::dimensional_data::DimensionalData { value: x.map(surfrs::units::Direction::from_radians), variable_name: "x".into(), unit: surfrs::units::Unit::Degrees };
                let a = DirectionalSpectralWaveDataRecord { date: Default::default(), spectra: s.clone() };
                let b = ForecastSpectralWaveDataRecord { date: Default::default(), reference_date: Default::default(), location: Location::new(40.0, -70.0, "x".into()), depth: dd(v), wind_speed: dd(u), wind_direction: dr(wind.map(|w| w.1)), current_speed: dd(None), current_direction: dr(None), spectra: s };
                for r in [a.swell_data().map_err(|e| e.to_string())?, b.swell_data().map_err(|e| e.to_string())?] {
                    check(&r.summary, &ws[0], 0, &conv)?;
                    let (mut ids, mut total, mut before) = (vec![], 0.0, f64::INFINITY);
                    for x in &r.components {
                        let h = x.wave_height.value.unwrap_or(f64::NAN);
                        ensure!(h >= 0.1 && h <= ws[0].hs * (1.0 + 1e-9), "a component of {h} m in {} m", ws[0].hs);
                        let e = x.energy.as_ref().and_then(|x| x.value).unwrap_or(f64::NAN);
                        ensure!(e <= before && x.partition.map_or(false, |q| q > 0) && !ids.contains(&x.partition), "component {:?} of {e}", x.partition);
                        before = e; total += e; ids.push(x.partition);
                    }
                    let t = r.summary.energy.as_ref().and_then(|x| x.value).unwrap_or(f64::NAN);
                    ensure!(close(t, total, 1e-9), "total energy of a record {t}, expected {total}");
                }
            }
            Ok(())
        });
    }
    // a smooth sea on a fine grid: four times the root of the volume under the density (per Hz and radian)
    for _ in 0..c.n(150, 5000) {
        if c.over() { break; }
        let (nk, nth) = (60, 36);
        let f: Vec<f64> = (0..nk).map(|k| 0.03 * 1.05f64.powi(k as i32)).collect();
        let d: Vec<f64> = (0..nth).map(|t| t as f64 * TAU / nth as f64).collect();
        let (fp, sp, dm, top) = (c.rng.fr(0.06, 0.15), c.rng.fr(0.15, 0.3), c.rng.fr(0.0, TAU), c.rng.fr(0.5, 60.0));
        let e: Vec<f64> = (0..nk * nth).map(|i| { let (k, t) = (i % nk, i / nk); let x = (f[k] / fp).ln() / sp; top * (-0.5 * x * x).exp() * (0.5 * (1.0 + (d[t] - dm).cos())).powi(4) }).collect();
        let conv = c.rng.pick(&[DirectionConvention::From, DirectionConvention::Met]).clone();
        let met = matches!(conv, DirectionConvention::Met);
        c.case("smooth", format!("met={met} peak frequency {fp} spread {sp} direction {dm} top {top}"), true, || {
            let s = Spectra::new(f.clone(), d.clone(), e.clone(), conv.clone());
            let r = s.swell_data(None, None, None, &(vec![1; nk * nth], 1)).map_err(|e| e.to_string())?;
            // integral of the log-normal bump and of the directional lobe in closed form
            let over_f = top * fp * sp * TAU.sqrt() * (sp * sp / 2.0).exp();
            let over_d = TAU * 35.0 / 128.0;
            let h = 4.0 * (over_f * over_d).sqrt();
            for x in std::iter::once(&r.summary).chain(&r.components) {
                let got = x.wave_height.value.unwrap_or(f64::NAN);
                ensure!((got - h).abs() < 0.01 * h, "height {got}, expected {h}");
                let p = x.period.value.unwrap_or(f64::NAN);
                ensure!((p * fp).ln().abs() < 0.05, "period {p} for a peak at {}", 1.0 / fp);
                let a = dm.to_degrees();
                let t = if met { 270.0 - a } else { a };
                let g = x.direction.value.as_ref().map(|v| v.degrees).unwrap_or(-1) as f64;
                let o = (t - g + 180.0).rem_euclid(360.0) - 180.0;
                ensure!((-0.1..1.1).contains(&o), "direction {g}, expected {}", t.rem_euclid(360.0));
            }
            ensure!(r.components.len() == 1, "{} components", r.components.len());
            Ok(())
        });
    }
}
