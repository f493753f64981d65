use crate::core::*;
use crate::ensure;
use chrono::{TimeZone, Utc};
use surfrs::data::directional_spectral_wave_data_record::DirectionalSpectralWaveDataRecord;
use surfrs::data::spectral_wave_data_record::SpectralWaveDataRecord;
use surfrs::units::direction::DirectionConvention;

pub fn run(c: &mut Ctx) {
    c.rule = "1 to 12 frequencies, 1 to 36 directions (even or random, any order), coefficients from 0 to 1.2, missing values (999.0 / 999.9) in any of the five series, through both constructors; non-trivial: two frequencies and two directions or more".into();
    for _ in 0..c.n(1500, 60_000) {
        if c.over() { break; }
        let (nk, nth) = (1 + c.rng.below(12), *c.rng.pick(&[1usize, 2, 3, 5, 8, 12, 24, 36]));
        let even = c.rng.chance(0.6);
        let f: Vec<f64> = (0..nk).map(|i| 0.03 + 0.01 * i as f64).collect();
        let mut d: Vec<f64> = (0..nth).map(|i| if even { i as f64 * std::f64::consts::TAU / nth as f64 } else { c.rng.fr(-1.0, 7.0) }).collect();
        if c.rng.chance(0.3) { d.reverse(); }
        let hole = *c.rng.pick(&[0.0, 0.0, 0.1, 0.4]);
        let rmax = *c.rng.pick(&[0.2, 1.2]);
        let mut s: Vec<Vec<f64>> = vec![];
        for j in 0..5 {
            s.push((0..nk).map(|_| if c.rng.chance(hole) { if j == 0 { 999.9 } else { 999.0 } } else { match j { 0 => if c.rng.chance(0.1) { *c.rng.pick(&[0.0, 999.0]) } else { c.rng.fr(0.0, 20.0) }, 1 | 2 => if c.rng.chance(0.1) { 360.0 } else { c.rng.fr(0.0, 360.0) }, _ => c.rng.fr(0.0, rmax) } }).collect());
        }
        let by_records = c.rng.chance(0.5);
        let date = Utc.with_ymd_and_hms(2022, 3, 4, c.rng.below(24) as u32, 0, 0).unwrap();
        let late = Utc.with_ymd_and_hms(2022, 3, 9, 0, 0, 0).unwrap();
        let desc = format!("records={by_records} frequency={f:?} direction={d:?} energy={:?} mean={:?} primary={:?} r1={:?} r2={:?}", s[0], s[1], s[2], s[3], s[4]);
        c.case("spread", desc, nk > 1 && nth > 1, || {
            let r = if by_records {
                let rec = |j: usize, t| SpectralWaveDataRecord { date: t, separation_frequency: None, value: s[j].clone(), frequency: f.clone() };
                DirectionalSpectralWaveDataRecord::from_data_records(&d, rec(0, date), rec(1, late), rec(2, late), rec(3, late), rec(4, late))
            } else {
                DirectionalSpectralWaveDataRecord::new(&date, &d, &f, &s[0], &s[1], &s[2], &s[3], &s[4])
            };
            ensure!(r.date == date, "date {}", r.date);
            let g = &r.spectra;
            ensure!(g.frequency == f && *g.direction_raw() == d && g.energy.len() == nk * nth && matches!(g.dir_convention, DirectionConvention::From), "axes");
            for k in 0..nk {
                let gone = s[0][k] == 999.9 || (1..5).any(|j| s[j][k] == 999.0);
                let (mut sum, mut cut) = (0.0, false);
                for t in 0..nth {
                    let v = g.energy[k + t * nk];
                    let a1 = s[1][k] / 180.0 * std::f64::consts::PI;
                    let a2 = s[2][k] / 180.0 * std::f64::consts::PI;
                    let w = s[0][k] / std::f64::consts::PI * (0.5 + s[3][k] * (d[t] - a1).cos() + s[4][k] * (2.0 * d[t] - 2.0 * a2).cos());
                    let w = if gone { 0.0 } else { cut |= w < 0.0; w.max(0.0) };
                    ensure!((v - w).abs() <= 1e-9 * (1.0 + w.abs() + s[0][k]), "{v} instead of {w} at frequency {k} direction {t}");
                    sum += v;
                }
                if !gone && !cut && even && nth >= 3 {
                    let m = sum * std::f64::consts::TAU / nth as f64;
                    ensure!((m - s[0][k]).abs() < 1e-7 * (1.0 + s[0][k]), "the directions of frequency {k} carry {m} of {}", s[0][k]);
                }
            }
            Ok(())
        });
    }
}
