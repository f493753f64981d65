use crate::core::*;
use crate::ensure;
use chrono::{DateTime, Datelike, NaiveDate, Utc};
use surfrs::data::forecast_cbulletin_wave_data_record::*;
use surfrs::data::parseable_data_record::ParseableDataRecord;
use surfrs::location::Location;
use surfrs::swell::{Swell, SwellProvider};
use surfrs::units::*;

// the first day after (or of) the run with that day of the month, when this or the next month has it
fn moment(run: DateTime<Utc>, s: &str) -> Option<DateTime<Utc>> {
    if !s.is_char_boundary(2) { return None; }
    let d: u32 = s.get(0..2)?.parse().ok()?;
    let h: u32 = s.get(2..)?.parse().ok()?;
    let (y, m) = if d >= run.day() { (run.year(), run.month()) } else if run.month() == 12 { (run.year() + 1, 1) } else { (run.year(), run.month() + 1) };
    let leap = y % 4 == 0 && (y % 100 != 0 || y % 400 == 0);
    let dim = match m { 4 | 6 | 9 | 11 => 30, 2 => if leap { 29 } else { 28 }, _ => 31 };
    if d < 1 || d > dim || h > 23 { return None; }
    Some(NaiveDate::from_ymd_opt(y, m, d)?.and_hms_opt(h, 0, 0)?.and_utc())
}
fn run_date(c: &mut Ctx) -> DateTime<Utc> {
    let m = if c.rng.chance(0.3) { 12 } else { 1 + c.rng.below(12) as u32 };
    let mut d = 1 + c.rng.below(31) as u32;
    let y = 1995 + c.rng.below(40) as i32;
    loop {
        if let Some(x) = NaiveDate::from_ymd_opt(y, m, d) { return x.and_hms_opt(*c.rng.pick(&[0u32, 6, 12, 18]), 0, 0).unwrap().and_utc(); }
        d -= 1;
    }
}
fn step(c: &mut Ctx, run: DateTime<Utc>) -> String {
    match c.rng.below(10) {
        0 => (*c.rng.pick(&["", "1", "12", "0x10", "1é00", "é00", "2x12", "12-1", "3200", "0012", "1224", "+112", "12345", "日本", "3023", "2912"])).into(),
        1 => format!("{:02}{:02}", 27 + c.rng.below(6), c.rng.below(24)),
        2 | 3 => format!("{:02}{:02}", run.day(), c.rng.below(24)),
        _ => format!("{:02}{:02}", 1 + c.rng.below(28), c.rng.below(25)),
    }
}
fn num(c: &mut Ctx) -> String {
    match c.rng.below(40) { 0 => (*c.rng.pick(&["x", "-", "", "MM", "--1", "1.5.2"])).into(), 1 => format!("{:.1}", c.rng.fr(-1.0, 30.0)), 2 => "0".into(), _ => format!("{}", c.rng.below(30)) }
}
fn same(s: &Swell, h: &str, p: &str, d: &str, metric: bool) -> Result<(), String> {
    let (h, p, d): (f64, f64, i32) = (h.parse().unwrap(), p.parse().unwrap(), d.parse().unwrap());
    let m = h / 3.281;
    if metric { ensure!(s.wave_height.unit == Unit::Meters && s.wave_height.value.is_some_and(|v| (v - m).abs() <= 2e-4 * m.abs() + 1e-9), "height {:?}, its column is {h} feet", s.wave_height); }
    else { ensure!(s.wave_height.unit == Unit::Feet && s.wave_height.value == Some(h), "height {:?}, its column is {h}", s.wave_height); }
    ensure!(s.period.unit == Unit::Seconds && s.period.value == Some(p), "period {:?}, its column is {p}", s.period);
    let got = s.direction.value.as_ref().map(|x| x.degrees);
    ensure!(s.direction.unit == Unit::Degrees && got == Some(d), "direction {:?}, its column is {d}", s.direction);
    let e = s.energy.as_ref().and_then(|x| x.value).ok_or("no energy")?;
    let want = 1029.0 * 9.81f64.powi(2) / (16.0 * std::f64::consts::PI) * m * m * p * p / 1000.0;
    ensure!((e - want).abs() <= 2e-3 * want.abs() + 1e-9, "energy {e}, a {m} m wave of {p} s carries {want}");
    Ok(())
}
pub fn run(c: &mut Ctx) {
    c.rule = "rows of a bulletin with runs on every day of the year (December favoured), steps before, on and after the run's day, malformed and non-ASCII steps, incomplete triples and junk numbers; whole bulletins with their heads; non-trivial: the row is complete and has a component".into();
    for _ in 0..c.n(40000, 1_000_000) {
        if c.over() { break; }
        let run = run_date(c);
        let n = c.rng.below(7);
        let mut row = vec![step(c, run), num(c)];
        for _ in 0..n { row.push(num(c)); row.push(num(c)); row.push(if c.rng.chance(0.03) { num(c) + ".5" } else { format!("{:03}", c.rng.below(361)) }); }
        if c.rng.chance(0.1) { let k = c.rng.below(row.len() + 1); row.truncate(k); }
        if c.rng.chance(0.03) { row.push(num(c)); }
        let good = row.len() >= 2 && (row.len() - 2) % 3 == 0 && moment(run, &row[0]).is_some() && (2..row.len()).all(|k| if k % 3 == 1 { row[k].parse::<i32>().is_ok() } else { row[k].parse::<f64>().is_ok() });
        let meta = c.rng.chance(0.97);
        c.case("row", format!("run {run}, row {row:?}{}", if meta { "" } else { ", no head" }), good && row.len() > 2, || {
            let md = ForecastCBulletinWaveRecordMetadata { location: Location::new(1.0, 2.0, "x".into()), model_run_date: run };
            let r: Vec<&str> = row.iter().map(|x| x.as_str()).collect();
            let got = ForecastCBulletinWaveRecord::from_data_row(if meta { Some(&md) } else { None }, &r);
            ensure!(got.is_ok() == (good && meta), "{}", match &got { Ok(_) => "accepted".into(), Err(e) => format!("refused: {e}") });
            let Ok(w) = got else { return Ok(()) };
            ensure!(Some(w.date) == moment(run, &row[0]), "dated {}", w.date);
            let h = row[1].parse::<f64>().ok();
            ensure!(w.significant_wave_height.unit == Unit::Feet && w.significant_wave_height.value == h, "wave height {:?}", w.significant_wave_height);
            let n = (row.len() - 2) / 3;
            ensure!(w.swell_components.len() == n, "{} components of {n}", w.swell_components.len());
            for k in 0..n { same(&w.swell_components[k], &row[2 + 3 * k], &row[3 + 3 * k], &row[4 + 3 * k], false)?; }
            let s = w.swell_data();
            ensure!(s.is_ok() == (n > 0), "summary of {n} components: {}", s.is_ok());
            if let Ok(s) = s {
                ensure!(s.components.len() == n, "summary has {} components", s.components.len());
                for k in 0..n { same(&s.components[k], &row[2 + 3 * k], &row[3 + 3 * k], &row[4 + 3 * k], false)?; }
                ensure!(s.summary.wave_height.value == h && s.summary.wave_height.unit == Unit::Feet, "summary height {:?}", s.summary.wave_height);
                ensure!(s.summary.period.value == row[3].parse().ok() && s.summary.direction.value.as_ref().map(|d| d.degrees) == row[4].parse().ok(), "summary of another component: {:?} {:?}", s.summary.period, s.summary.direction);
            }
            Ok(())
        });
    }
    for _ in 0..c.n(600, 20_000) {
        if c.over() { break; }
        let run = run_date(c);
        let (la, lo) = (c.rng.range(0, 9000) as f64 / 100.0, c.rng.range(0, 18000) as f64 / 100.0);
        let (ns, ew) = (*c.rng.pick(&["N", "S"]), *c.rng.pick(&["E", "W"]));
        let name = *c.rng.pick(&["44097", "46232", "TPC55", "NW-PT", "BUOY 12"]);
        let mut t = format!("Location : {name:<10} ({la:.2}{ns} {lo:.2}{ew})\nModel    : spectral resolution for points\nCycle    : {}{:02}{:02} {:2} UTC\n\nDDHH HS SS PP DDD SS PP DDD\n---------------------------\n", run.year(), run.month(), run.day(), run.format("%k"));
        let mut rows = vec![];
        let mut at = run;
        for _ in 0..1 + c.rng.below(60) {
            let n = c.rng.below(7);
            let mut row = vec![at.format("%d%H").to_string(), format!("{}", c.rng.below(20))];
            for _ in 0..n { row.push(format!("{}", c.rng.below(12))); row.push(format!("{:02}", 1 + c.rng.below(20))); row.push(format!("{:03}", c.rng.below(361))); }
            let mut line = row.join("  ");
            if c.rng.chance(0.5) { line.push_str("      "); }
            if c.rng.chance(0.04) { line = (*c.rng.pick(&["1", "xxxx 3 2 04 142", "1212 3 2 04", "é 1"])).into(); } else { rows.push((at, row)); }
            t.push_str(&line);
            t.push('\n');
            at += chrono::Duration::hours(1 + c.rng.below(6) as i64);
        }
        let whole = c.rng.chance(0.9);
        if !whole { let mut k = c.rng.below(t.len()); while !t.is_char_boundary(k) { k -= 1; } t.truncate(k); }
        c.case("bulletin", format!("bulletin {t:?}"), whole, || {
            let mut col = ForecastCBulletinWaveRecordCollection::from_data(&t);
            let got = col.records();
            if !whole { if let Ok((_, it)) = got { for r in it { let _ = r.swell_data(); } } return Ok(()); }
            let (md, it) = got.map_err(|e| format!("refused: {e}"))?;
            ensure!(md.model_run_date == run, "run dated {}", md.model_run_date);
            let (wla, wlo) = (if ns == "S" { -la } else { la }, if ew == "W" { -lo } else { lo });
            ensure!(md.location.latitude == wla && md.location.longitude == wlo && md.location.name == name, "placed at {:?}", md.location);
            let got: Vec<_> = it.collect();
            ensure!(got.len() == rows.len(), "{} records of {} good rows", got.len(), rows.len());
            for (w, (at, row)) in got.iter().zip(&rows) {
                ensure!(w.date == *at, "row of {at} dated {}", w.date);
                let h: f64 = row[1].parse::<f64>().unwrap() / 3.281;
                ensure!(w.significant_wave_height.unit == Unit::Meters && w.significant_wave_height.value.is_some_and(|v| (v - h).abs() <= 2e-4 * h + 1e-9), "wave height {:?} of {row:?}", w.significant_wave_height);
                ensure!(w.swell_components.len() == (row.len() - 2) / 3, "{} components of {row:?}", w.swell_components.len());
                for (k, s) in w.swell_components.iter().enumerate() { same(s, &row[2 + 3 * k], &row[3 + 3 * k], &row[4 + 3 * k], true)?; }
            }
            Ok(())
        });
    }
}
