use crate::core::*;
use crate::ensure;
use chrono::{NaiveDate, TimeZone, Utc};
use surfrs::data::grib_index_record::{GribIndexRecord, GribIndexRecordCollection};
use surfrs::data::parseable_data_record::ParseableDataRecord;
use surfrs::data::spectral_wave_data_record::{SpectralWaveDataRecord, SpectralWaveDataRecordCollection};
use surfrs::data::wave_data_record::{WaveDataRecord, WaveDataRecordCollection};
use surfrs::dimensional_data::DimensionalData;
use surfrs::swell::SwellProvider;
use surfrs::units::*;

const CARDS: [&str; 16] = ["N", "NNE", "NE", "ENE", "E", "ESE", "SE", "SSE", "S", "SSW", "SW", "WSW", "W", "WNW", "NW", "NNW"];
const JUNK: [&str; 12] = ["MM", "", "x", "-", "1e", "00.", "999", "--1", "1.5.2", "²", "13", "NaN"];

// the calendar moment of five texts, by the proleptic Gregorian calendar
fn moment(r: &[String]) -> Option<chrono::DateTime<Utc>> {
    if r.len() < 5 { return None; }
    let y: i32 = r[0].parse().ok()?;
    let v: Vec<u32> = r[1..5].iter().map(|x| x.parse().ok()).collect::<Option<Vec<u32>>>()?;
    let leap = y % 4 == 0 && (y % 100 != 0 || y % 400 == 0);
    let dim = match v[0] { 1 | 3 | 5 | 7 | 8 | 10 | 12 => 31, 4 | 6 | 9 | 11 => 30, 2 => if leap { 29 } else { 28 }, _ => return None };
    if v[1] < 1 || v[1] > dim || v[2] > 23 || v[3] > 59 { return None; }
    Some(NaiveDate::from_ymd_opt(y, v[0], v[1])?.and_hms_opt(v[2], v[3], 0)?.and_utc())
}
fn date_cols(c: &mut Ctx) -> Vec<String> {
    let mut v = vec![
        format!("{}", 1990 + c.rng.below(40)), format!("{:02}", 1 + c.rng.below(12)), format!("{:02}", 1 + c.rng.below(28)),
        format!("{:02}", c.rng.below(24)), format!("{:02}", c.rng.below(60)),
    ];
    if c.rng.chance(0.1) { v[2] = format!("{:02}", 27 + c.rng.below(6)); }
    if c.rng.chance(0.12) { let k = c.rng.below(5); v[k] = (*c.rng.pick(&["13", "00", "32", "24", "60", "MM", "-1", "2.5", "x", "31", "59", "12"])).into(); }
    v
}
fn num(c: &mut Ctx) -> String {
    if c.rng.chance(0.15) { return "MM".into(); }
    if c.rng.chance(0.05) { return (*c.rng.pick(&["x", "-", "1e", "--1", "1.5.2", "+2.5", "-3", "7", "1e1"])).into(); }
    format!("{:.1}", c.rng.fr(-5.0, 40.0))
}
fn dir(c: &mut Ctx) -> String {
    match c.rng.below(6) {
        0 => "MM".into(),
        1 => (*c.rng.pick(&["x", "NNNE", "12.5", "WNWW"])).into(),
        2 => format!("{}", c.rng.below(361)),
        3 => c.rng.pick(&CARDS).to_lowercase(),
        _ => (*c.rng.pick(&CARDS)).into(),
    }
}
fn same(q: &DimensionalData<f64>, t: &str, u: Unit, what: &str) -> Result<(), String> {
    ensure!(q.unit == u && q.variable_name == what, "{what} is named {:?}, in {:?}", q.variable_name, q.unit);
    let w = t.parse::<f64>().ok();
    ensure!(q.value == w || q.value.is_some_and(f64::is_nan) && w.is_some_and(f64::is_nan), "{what} is {:?}, its column is {t:?}", q.value);
    Ok(())
}
fn same_dir(q: &DimensionalData<Direction>, t: &str, what: &str) -> Result<(), String> {
    ensure!(q.unit == Unit::Degrees && q.variable_name == what, "{what} is named {:?}, in {:?}", q.variable_name, q.unit);
    match CARDS.iter().position(|c| c.eq_ignore_ascii_case(t)) {
        Some(k) => {
            let d = q.value.as_ref().ok_or(format!("{what} missing, its column is {t:?}"))?;
            let off = (d.degrees as f64 - 22.5 * k as f64 + 540.0).rem_euclid(360.0) - 180.0;
            ensure!(off.abs() <= 11.5, "{what} is {} degrees, its column is {t:?}", d.degrees);
        }
        None => ensure!(q.value.as_ref().map(|d| d.degrees) == t.parse::<i32>().ok(), "{what} is {:?}, its column is {t:?}", q.value),
    }
    Ok(())
}
fn wave_ok(w: &WaveDataRecord, r: &[String]) -> Result<(), String> {
    ensure!(Some(w.date) == moment(r), "date {}", w.date);
    same(&w.wave_height, &r[5], Unit::Meters, "wave height")?;
    same(&w.swell_wave_height, &r[6], Unit::Meters, "swell wave height")?;
    same(&w.swell_wave_period, &r[7], Unit::Seconds, "swell period")?;
    same(&w.wind_wave_height, &r[8], Unit::Meters, "wind wave height")?;
    same(&w.wind_wave_period, &r[9], Unit::Seconds, "wind period")?;
    same_dir(&w.swell_wave_direction, &r[10], "swell wave direction")?;
    same_dir(&w.wind_wave_direction, &r[11], "wind wave direction")?;
    let s = match r[12].as_str() { "VERY_STEEP" => Steepness::VerySteep, "STEEP" => Steepness::Steep, "AVERAGE" | "Average" => Steepness::Average, "SWELL" => Steepness::Swell, _ => Steepness::NA };
    ensure!(w.steepness == s, "steepness {:?}", w.steepness);
    same(&w.average_wave_period, &r[13], Unit::Seconds, "average wave period")?;
    same_dir(&w.mean_wave_direction, &r[14], "mean wave direction")?;
    let y = w.swell_data().map_err(|_| "no swell summary".to_string())?;
    let b = |v: Option<f64>| v.map(f64::to_bits);
    let p = |s: &surfrs::swell::Swell| (b(s.wave_height.value), b(s.period.value), s.direction.value.as_ref().map(|d| d.degrees));
    ensure!(p(&y.summary) == (b(w.wave_height.value), b(w.average_wave_period.value), w.mean_wave_direction.value.as_ref().map(|d| d.degrees)), "summary");
    ensure!(y.components.len() == 2 && p(&y.components[0]) == (b(w.swell_wave_height.value), b(w.swell_wave_period.value), w.swell_wave_direction.value.as_ref().map(|d| d.degrees))
        && p(&y.components[1]) == (b(w.wind_wave_height.value), b(w.wind_wave_period.value), w.wind_wave_direction.value.as_ref().map(|d| d.degrees)), "components");
    Ok(())
}
fn unparen(s: &str) -> String { s.replace('(', "").replace(')', "") }
fn spectral_want(r: &[String]) -> Option<(Vec<f64>, Vec<f64>, bool)> {
    let even = r.len() % 2 == 0;
    let st = if even { 6 } else { 5 };
    if r.len() < st { return None; }
    moment(r)?;
    let (mut v, mut f) = (vec![], vec![]);
    for p in r[st..].chunks(2) { v.push(p[0].parse::<f64>().ok()?); f.push(unparen(&p[1]).parse::<f64>().ok()?); }
    Some((v, f, even))
}
fn eqf(a: &[f64], b: &[f64]) -> bool { a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x == y || x.is_nan() && y.is_nan()) }
fn spectral_ok(s: &SpectralWaveDataRecord, r: &[String], w: &(Vec<f64>, Vec<f64>, bool)) -> Result<(), String> {
    ensure!(Some(s.date) == moment(r), "date {}", s.date);
    ensure!(eqf(&s.value, &w.0) && eqf(&s.frequency, &w.1), "pairs {:?} {:?}", s.value, s.frequency);
    ensure!(s.separation_frequency.is_some() == w.2, "separation {:?}", s.separation_frequency);
    if w.2 { if let Ok(x) = r[5].parse::<f64>() { ensure!(s.separation_frequency == Some(x) || x.is_nan(), "separation {:?}", s.separation_frequency); } }
    Ok(())
}
fn mangle(c: &mut Ctx, r: &mut Vec<String>) {
    if c.rng.chance(0.12) { let n = c.rng.below(r.len() + 1); r.truncate(n); }
    if c.rng.chance(0.05) { r.push("7".into()); }
    if c.rng.chance(0.06) && !r.is_empty() { let k = c.rng.below(r.len()); r[k] = (*c.rng.pick(&JUNK)).into(); }
    r.retain(|x| !x.is_empty());
}
fn wave_row(c: &mut Ctx) -> Vec<String> {
    let mut r = date_cols(c);
    for _ in 0..5 { let x = num(c); r.push(x); }
    for _ in 0..2 { let x = dir(c); r.push(x); }
    r.push((*c.rng.pick(&["VERY_STEEP", "STEEP", "AVERAGE", "Average", "SWELL", "N/A", "NA", "MM", "steep"])).into());
    let x = num(c); r.push(x);
    let x = dir(c); r.push(x);
    mangle(c, &mut r);
    r
}
fn spectral_row(c: &mut Ctx) -> Vec<String> {
    let mut r = date_cols(c);
    if c.rng.chance(0.5) { r.push(if c.rng.chance(0.2) { "MM".into() } else { format!("{:.3}", c.rng.fr(0.0, 10.0)) }); }
    let n = if c.rng.chance(0.05) { 40 + c.rng.below(100) } else { c.rng.below(8) };
    for _ in 0..n {
        r.push(format!("{:.3}", c.rng.fr(0.0, 20.0)));
        r.push(if c.rng.chance(0.1) { format!("{:.3}", c.rng.f()) } else { format!("({:.3})", c.rng.f()) });
    }
    mangle(c, &mut r);
    r
}
fn file(c: &mut Ctx, rows: &[Vec<String>]) -> String {
    let mut t = String::from("#YY  MM DD hh mm\n#yr  mo dy hr mn\n");
    for r in rows {
        if c.rng.chance(0.2) { t.push_str("  "); }
        for x in r { t.push_str(x); for _ in 0..1 + c.rng.below(3) { t.push(' '); } }
        t.push_str(if c.rng.chance(0.1) { "\r\n" } else { "\n" });
        if c.rng.chance(0.05) { t.push('\n'); }
    }
    t
}
fn grib_row(c: &mut Ctx) -> Vec<String> {
    let d = date_cols(c);
    let mut r: Vec<String> = vec![
        format!("{}", c.rng.below(900)), format!("{}", c.rng.below(1 << 40)), format!("d={}{}{}{}", d[0], d[1], d[2], d[3]),
        (*c.rng.pick(&["HTSGW", "WVPER", "REFD", "UGRD"])).into(), (*c.rng.pick(&["surface", "1 in sequence", "2 hybrid level"])).into(),
        (*c.rng.pick(&["anl", "34 hour fcst", "3 hour fcst"])).into(),
    ];
    if c.rng.chance(0.12) { let n = c.rng.below(r.len() + 1); r.truncate(n); }
    if c.rng.chance(0.08) && !r.is_empty() { let k = c.rng.below(r.len()); r[k] = (*c.rng.pick(&["x", "-4", "d=2023", "d=20231301", "2023051512", "1.5"])).into(); }
    r
}
fn grib_want(r: &[String]) -> Option<(usize, usize, chrono::DateTime<Utc>)> {
    if r.len() < 6 { return None; }
    let (i, o) = (r[0].parse().ok()?, r[1].parse().ok()?);
    let t = r[2].strip_prefix("d=")?;
    if t.len() != 10 || !t.bytes().all(|b| b.is_ascii_digit()) { return None; }
    let p = [&t[0..4], &t[4..6], &t[6..8], &t[8..10], "00"].map(String::from);
    Some((i, o, moment(&p)?))
}
fn grib_ok(g: &GribIndexRecord, r: &[String], w: (usize, usize, chrono::DateTime<Utc>)) -> Result<(), String> {
    ensure!((g.index, g.offset, g.reference_date) == w && g.var == r[3] && g.level == r[4] && g.valid == r[5], "{g:?}");
    Ok(())
}

pub fn run(c: &mut Ctx) {
    c.rule = "rows of the wave, spectral and grib index formats with valid and invalid dates, missing (MM), malformed, absent and extra columns, alone and as files with comments, blank lines and any run of spaces; non-trivial: the row is a record".into();
    let _ = Utc.timestamp_opt(0, 0);
    for _ in 0..c.n(3000, 120_000) {
        if c.over() { break; }
        match c.rng.below(6) {
            0 | 1 => {
                let r = wave_row(c);
                let ok = r.len() >= 15 && moment(&r).is_some();
                c.case("wave row", format!("{r:?}"), ok, || {
                    let v: Vec<&str> = r.iter().map(|x| x.as_str()).collect();
                    match WaveDataRecord::from_data_row(None, &v) {
                        Ok(w) => { ensure!(ok, "accepted"); wave_ok(&w, &r) }
                        Err(e) => { ensure!(!ok, "rejected: {e}"); Ok(()) }
                    }
                });
            }
            2 => {
                let r = spectral_row(c);
                let w = spectral_want(&r);
                c.case("spectral row", format!("{r:?}"), w.is_some(), || {
                    let v: Vec<&str> = r.iter().map(|x| x.as_str()).collect();
                    match (SpectralWaveDataRecord::from_data_row(None, &v), &w) {
                        (Ok(s), Some(w)) => spectral_ok(&s, &r, w),
                        (Ok(s), None) => Err(format!("accepted: {s:?}")),
                        (Err(e), w) => { ensure!(w.is_none(), "rejected: {e}"); Ok(()) }
                    }
                });
            }
            3 => {
                let r = grib_row(c);
                let w = grib_want(&r);
                c.case("grib row", format!("{r:?}"), w.is_some(), || {
                    let v: Vec<&str> = r.iter().map(|x| x.as_str()).collect();
                    match (GribIndexRecord::from_data_row(None, &v), w) {
                        (Ok(s), Some(w)) => grib_ok(&s, &r, w),
                        (Ok(s), None) => Err(format!("accepted: {s:?}")),
                        (Err(e), w) => { ensure!(w.is_none(), "rejected: {e}"); Ok(()) }
                    }
                });
            }
            4 => {
                let rows: Vec<Vec<String>> = (0..c.rng.below(6)).map(|_| wave_row(c)).collect();
                let t = file(c, &rows);
                let good: Vec<&Vec<String>> = rows.iter().filter(|r| r.len() >= 15 && moment(r).is_some()).collect();
                c.case("wave file", format!("{t:?}"), good.len() > 1, || {
                    let mut f = WaveDataRecordCollection::from_data(&t);
                    let got: Vec<WaveDataRecord> = f.records().collect();
                    ensure!(got.len() == good.len(), "{} records from {} good rows", got.len(), good.len());
                    for (w, r) in got.iter().zip(&good) { wave_ok(w, r)?; }
                    Ok(())
                });
            }
            _ => {
                let grib = c.rng.chance(0.4);
                if grib {
                    let rows: Vec<Vec<String>> = (0..c.rng.below(6)).map(|_| grib_row(c)).collect();
                    let t: String = rows.iter().map(|r| r.join(":") + ":\n").collect();
                    let good: Vec<_> = rows.iter().filter_map(|r| grib_want(r).map(|w| (r, w))).collect();
                    c.case("grib file", format!("{t:?}"), good.len() > 1, || {
                        let mut f = GribIndexRecordCollection::from_data(&t);
                        let got: Vec<GribIndexRecord> = f.records().collect();
                        ensure!(got.len() == good.len(), "{} records from {} good rows", got.len(), good.len());
                        for (g, (r, w)) in got.iter().zip(&good) { grib_ok(g, r, *w)?; }
                        Ok(())
                    });
                } else {
                    let rows: Vec<Vec<String>> = (0..c.rng.below(6)).map(|_| spectral_row(c)).collect();
                    let t = file(c, &rows);
                    let good: Vec<_> = rows.iter().filter_map(|r| spectral_want(r).map(|w| (r, w))).collect();
                    c.case("spectral file", format!("{t:?}"), good.len() > 1, || {
                        let mut f = SpectralWaveDataRecordCollection::from_data(&t);
                        let got: Vec<SpectralWaveDataRecord> = f.records().collect();
                        ensure!(got.len() == good.len(), "{} records from {} good rows", got.len(), good.len());
                        for (s, (r, w)) in got.iter().zip(&good) { spectral_ok(s, r, w)?; }
                        Ok(())
                    });
                }
            }
        }
    }
}
