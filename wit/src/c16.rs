use crate::core::*;
use crate::ensure;
use chrono::{DateTime, NaiveDate, Utc};
use std::str::FromStr;
use surfrs::data::forecast_spectral_wave_data_record::*;
use surfrs::units::*;

// numbers spread over lines
fn block(c: &mut Ctx, v: &[String], out: &mut Vec<String>) -> bool {
    let mut i = 0;
    let mut over = false;
    while i < v.len() {
        let k = 1 + c.rng.below(8);
        let j = (i + k).min(v.len());
        out.push(format!("  {}", v[i..j].join("  ")));
        i = j;
        over = c.rng.chance(0.06);
        if over { out.push(String::new()); }
    }
    over
}
struct Rec { date: DateTime<Utc>, p: Vec<String>, e: Vec<String> }
fn compass(v: f64) -> f64 { (90.0 - v.to_degrees()).rem_euclid(360.0) }

pub fn run(c: &mut Ctx) {
    c.rule = "files of 1 to 50 frequencies, 1 to 36 directions and 1 to 5 records, numbers broken over lines at random, blank lines among and after them, words that are no numbers; impossible dates, short and non-ASCII date lines, bad points, files cut anywhere; non-trivial: at least two records and two directions".into();
    for _ in 0..c.n(4000, 120_000) {
        if c.over() { break; }
        let small = c.rng.chance(0.7);
        let (nf, nd) = if small { (1 + c.rng.below(6), 1 + c.rng.below(8)) } else { (1 + c.rng.below(50), 1 + c.rng.below(36)) };
        let f: Vec<String> = (0..nf).map(|k| format!("{:.4}", 0.03 + 0.01 * k as f64 + c.rng.fr(0.0, 0.008))).collect();
        let d: Vec<String> = if c.rng.chance(0.5) { let o = c.rng.fr(0.0, 6.28); (0..nd).map(|k| format!("{:.4}", (o - k as f64 * std::f64::consts::TAU / nd as f64).rem_euclid(std::f64::consts::TAU).min(6.2831))).collect() }
            else { (0..nd).map(|_| format!("{:.4}", c.rng.fr(0.0, 6.2831))).collect() };
        let mut out = vec![format!("'WAVEWATCH III SPECTRA'     {nf}    {nd}     1 'spectral resolution for points'")];
        block(c, &f, &mut out);
        // a line over after a block of numbers is taken for a date
        let over = block(c, &d, &mut out);
        let head = out.len() - over as usize;
        // what each entry of the file should answer: a record or an error
        let mut want: Vec<Option<Rec>> = vec![];
        if over { want.push(None); }
        let nr = 1 + c.rng.below(5);
        let broken = c.rng.chance(0.2);
        for r in 0..nr {
            let (y, m, dd, h, mi) = (2000 + c.rng.below(40) as i32, 1 + c.rng.below(12) as u32, 1 + c.rng.below(28) as u32, c.rng.below(24) as u32, c.rng.below(60) as u32);
            let date = NaiveDate::from_ymd_opt(y, m, dd).unwrap().and_hms_opt(h, mi, 0).unwrap().and_utc();
            if broken && c.rng.chance(0.4) {
                // a line that is no date is answered by one error and costs one line
                out.push((*c.rng.pick(&["", "2022", "20221301 0000", "20220230 0000", "20220101 2460", "2022é101 0000", "2022010é0000", "日本日本日本", "20220101 2", "x0220101 0000", "20220101000"])).to_string());
                want.push(None);
                continue;
            }
            out.push(format!("{y:04}{m:02}{dd:02} {h:02}{mi:02}00"));
            if broken && c.rng.chance(0.2) {
                out.push((*c.rng.pick(&["", "'44097     '", "'44097     '  40.97 x", "1 2 3"])).to_string());
                want.push(None);
                continue;
            }
            let w = c.rng.fr(0.0, 30.0);
            let p: Vec<String> = vec![format!("{:.2}", c.rng.fr(-90.0, 90.0)), format!("{:.2}", c.rng.fr(-180.0, 180.0)), format!("{:.1}", c.rng.fr(1.0, 5000.0)), format!("{w:.2}"), format!("{:.1}", c.rng.fr(0.0, 360.0)), format!("{:.2}", c.rng.fr(0.0, 3.0)), format!("{:.1}", c.rng.fr(0.0, 360.0))];
            out.push(format!("'{:<10}'  {}  {}   {}  {} {}   {} {}", format!("B{r}"), p[0], p[1], p[2], p[3], p[4], p[5], p[6]));
            let e: Vec<String> = (0..nf * nd).map(|_| format!("{:.3e}", c.rng.fr(0.0, 2.0))).collect();
            let mut lines = vec![];
            let over = block(c, &e, &mut lines);
            if c.rng.chance(0.05) { let k = c.rng.below(lines.len()); lines[k].push_str("  *****"); }
            if c.rng.chance(0.05) { let k = lines.len() - 1; lines[k].push_str("  7.5"); }
            out.extend(lines);
            want.push(Some(Rec { date, p, e }));
            if over { want.push(None); }
        }
        let mut text = out.join("\n") + "\n";
        let cut = c.rng.chance(0.12);
        if cut { let mut k = c.rng.below(text.len() + 1); while !text.is_char_boundary(k) { k -= 1; } text.truncate(k); }
        let shown = if text.len() > 1500 { format!("{}...", text.chars().take(1500).collect::<String>()) } else { text.clone() };
        c.case(if cut { "cut" } else if broken { "broken" } else { "file" }, format!("file {shown:?}"), nr > 1 && nd > 1, || {
            let mut col = ForecastSpectralWaveDataRecordCollection::from_data(&text);
            if cut {
                if let Ok((md, it)) = col.records() {
                    ensure!(md.frequency.len() <= nf && md.direction.len() <= nd && md.line_count <= head, "{} frequencies of {nf}", md.frequency.len());
                    for w in it { ensure!(w.spectra.energy.len() == md.frequency.len() * md.direction.len(), "{} energies", w.spectra.energy.len()); }
                }
                return Ok(());
            }
            let md = ForecastSpectralWaveDataRecordMetadata::from_str(&text).map_err(|e| format!("head refused: {e}"))?;
            ensure!(md.frequency == f.iter().map(|x| x.parse::<f64>().unwrap()).collect::<Vec<_>>(), "frequencies {:?}", md.frequency);
            ensure!(md.direction.len() == nd && md.line_count == head && md.point_count == 1, "{} directions, {} lines, {} points", md.direction.len(), md.line_count, md.point_count);
            for (g, s) in md.direction.iter().zip(&d) {
                let w = compass(s.parse().unwrap());
                let off = (g.degrees as f64 - w + 540.0).rem_euclid(360.0) - 180.0;
                ensure!(off.abs() <= 0.5001 && (0..=360).contains(&g.degrees), "direction {s} is {} degrees, by the compass {w}", g.degrees);
            }
            let mut it = ForecastSpectralWaveRecordIterator::from_data(&text).map_err(|e| format!("refused: {e}"))?;
            let mut reference = None;
            for (k, w) in want.iter().enumerate() {
                match (w, it.next()) {
                    (None, Some(Err(_))) => { if broken && reference.is_none() { reference = Some(None); } }
                    (Some(r), Some(Ok(g))) => {
                        ensure!(g.date == r.date, "record {k} dated {}, its line {}", g.date, r.date);
                        match reference { None => { reference = Some(Some(g.date)); } _ => {} }
                        if let Some(Some(d0)) = reference { ensure!(g.reference_date == d0, "record {k} has reference date {}, the file's first is {d0}", g.reference_date); }
                        let v: Vec<f64> = r.p.iter().map(|x| x.parse().unwrap()).collect();
                        ensure!(g.location.latitude == v[0] && g.location.longitude == v[1], "record {k} placed at {:?}", g.location);
                        ensure!(g.depth.value == Some(v[2]) && g.depth.unit == Unit::Meters, "record {k}: depth {:?}", g.depth);
                        ensure!(g.wind_speed.value == Some(v[3]) && g.wind_speed.unit == Unit::MetersPerSecond, "record {k}: wind {:?}", g.wind_speed);
                        ensure!(g.current_speed.value == Some(v[5]) && g.current_speed.unit == Unit::MetersPerSecond, "record {k}: current {:?}", g.current_speed);
                        for (q, t) in [(&g.wind_direction, v[4]), (&g.current_direction, v[6])] {
                            let got = q.value.as_ref().map(|d| d.degrees);
                            ensure!(q.unit == Unit::Degrees && got.is_some_and(|d| (d as f64 - t).abs() <= 0.5001), "record {k}: {} {got:?} of {t}", q.variable_name);
                        }
                        let sd: Vec<f64> = serde_json::from_value(serde_json::to_value(&g.spectra).unwrap()["direction"].clone()).unwrap();
                        ensure!(g.spectra.frequency == md.frequency && sd.len() == nd, "record {k}: axes of {} and {}", g.spectra.frequency.len(), sd.len());
                        for (a, b) in sd.iter().zip(&md.direction) { ensure!(close(*a, (b.degrees as f64).to_radians(), 1e-12) || *a == 0.0 && b.degrees == 0, "record {k}: direction {a} of {} degrees", b.degrees); }
                        ensure!(g.spectra.energy == r.e.iter().map(|x| x.parse::<f64>().unwrap()).collect::<Vec<_>>(), "record {k}: {} energies of {}", g.spectra.energy.len(), r.e.len());
                        ensure!(matches!(g.spectra.dir_convention, surfrs::units::direction::DirectionConvention::Met), "record {k}: {:?}", g.spectra.dir_convention);
                        if small && nf > 2 && nd > 2 { use surfrs::swell::SwellProvider;
                            let have = g.swell_data().map_err(|e| e.to_string());
                            let parts = g.spectra.partition(100, None).map_err(|_| "no partitions".to_string())?;
                            let need = g.spectra.swell_data(Some(v[2]), Some(v[3]), g.wind_direction.value.as_ref().map(|d| (d.degrees as f64).to_radians()), &parts).map_err(|e| e.to_string());
                            ensure!(serde_json::to_string(&have.ok()).unwrap() == serde_json::to_string(&need.ok()).unwrap(), "record {k}: swell of another depth or wind");
                        }
                    }
                    (w, g) => return Err(format!("entry {k} should be {}, got {}", if w.is_some() { "a record" } else { "an error" }, match g { None => "the end".into(), Some(Ok(x)) => format!("the record of {}", x.date), Some(Err(e)) => format!("error {e}") })),
                }
            }
            ensure!(it.next().is_none(), "one entry too many");
            let n = want.iter().filter(|w| w.is_some()).count();
            let (_, it) = col.records().map_err(|e| format!("refused: {e}"))?;
            let dates: Vec<_> = it.map(|w| w.date).collect();
            ensure!(dates.len() == n && dates.iter().zip(want.iter().flatten()).all(|(a, b)| *a == b.date), "records() answers {dates:?}");
            Ok(())
        });
    }
}
