use crate::core::*;
use crate::ensure;
use chrono::{NaiveDate, Utc};
use surfrs::data::latest_obs_data_record::{LatestObsDataRecord, LatestObsDataRecordCollection};
use surfrs::data::meteorological_data_record::{MeteorologicalDataRecord, MeteorologicalDataRecordCollection};
use surfrs::data::parseable_data_record::ParseableDataRecord;
use surfrs::dimensional_data::DimensionalData;
use surfrs::swell::SwellProvider;
use surfrs::units::*;

fn moment(r: &[String]) -> Option<chrono::DateTime<Utc>> {
    if r.len() < 5 { return None; }
    let y: i32 = r[0].parse().ok()?;
    let v: Vec<u32> = r[1..5].iter().map(|x| x.parse().ok()).collect::<Option<Vec<u32>>>()?;
    Some(NaiveDate::from_ymd_opt(y, v[0], v[1])?.and_hms_opt(v[2], v[3], 0)?.and_utc())
}
fn date_cols(c: &mut Ctx) -> Vec<String> {
    let mut v = vec![
        format!("{}", 1990 + c.rng.below(40)), format!("{:02}", 1 + c.rng.below(12)), format!("{:02}", 1 + c.rng.below(28)),
        format!("{:02}", c.rng.below(24)), format!("{:02}", c.rng.below(60)),
    ];
    if c.rng.chance(0.15) { let k = c.rng.below(5); v[k] = (*c.rng.pick(&["13", "00", "32", "24", "60", "MM", "-1", "2.5", "x", "31"])).into(); }
    v
}
fn num(c: &mut Ctx) -> String {
    if c.rng.chance(0.2) { return "MM".into(); }
    if c.rng.chance(0.05) { return (*c.rng.pick(&["x", "-", "1e", "+2.5", "-3", "7"])).into(); }
    format!("{:.1}", c.rng.fr(-5.0, 40.0))
}
type Rd = (f64, Unit);
fn reads(q: &DimensionalData<f64>, t: &str, u: Unit, sys: bool, what: &str) -> Result<(), String> {
    let (k, u): Rd = if sys && u == Unit::Feet { (0.3048, Unit::Meters) } else { (1.0, u) };
    ensure!(q.unit == u && q.variable_name == what, "{what} is named {:?}, in {:?}", q.variable_name, q.unit);
    match (q.value, t.parse::<f64>().ok()) {
        (None, None) => Ok(()),
        (Some(a), Some(b)) if (a - k * b).abs() <= 1e-3 * b.abs() => Ok(()),
        (a, _) => Err(format!("{what} is {a:?}, its column is {t:?}")),
    }
}
fn reads_dir(q: &DimensionalData<Direction>, t: &str, what: &str) -> Result<(), String> {
    ensure!(q.unit == Unit::Degrees && q.variable_name == what && q.value.as_ref().map(|d| d.degrees) == t.parse::<i32>().ok(), "{what} is {:?}, its column is {t:?}", q.value);
    Ok(())
}
macro_rules! met {
    ($w:expr, $r:expr, $sys:expr, [$a:expr, $b:expr, $c:expr, $d:expr, $e:expr, $f:expr, $g:expr, $p:expr, $pt:expr, $at:expr, $wt:expr, $dt:expr, $v:expr, $t:expr]) => {{
        let (w, r, s) = ($w, $r, $sys);
        reads_dir(&w.wind_direction, &r[$a], "wind direction")?;
        reads(&w.wind_speed, &r[$b], Unit::MetersPerSecond, s, "wind speed")?;
        reads(&w.wind_gust_speed, &r[$c], Unit::MetersPerSecond, s, "wind gust speed")?;
        reads(&w.wave_height, &r[$d], Unit::Meters, s, "wave height")?;
        reads(&w.dominant_wave_period, &r[$e], Unit::Seconds, s, "dominant wave period")?;
        reads(&w.average_wave_period, &r[$f], Unit::Seconds, s, "average wave period")?;
        reads_dir(&w.mean_wave_direction, &r[$g], "mean wave direction")?;
        reads(&w.air_pressure, &r[$p], Unit::HectaPascal, s, "air pressure")?;
        reads(&w.air_pressure_tendency, &r[$pt], Unit::HectaPascal, s, "air pressure tendency")?;
        reads(&w.air_temperature, &r[$at], Unit::Celsius, s, "air temperature")?;
        reads(&w.water_temperature, &r[$wt], Unit::Celsius, s, "water temperature")?;
        reads(&w.dewpoint_temperature, &r[$dt], Unit::Celsius, s, "dewpoint temperature")?;
        reads(&w.visibility, &r[$v], Unit::NauticalMiles, s, "visibility")?;
        reads(&w.tide, &r[$t], Unit::Feet, s, "tide")?;
        let y = w.swell_data().map_err(|_| "no swell summary".to_string())?;
        ensure!(y.summary.wave_height.value == w.wave_height.value && y.summary.period.value == w.dominant_wave_period.value && y.components.is_empty(), "summary");
    }};
}
fn met_ok(w: &MeteorologicalDataRecord, r: &[String], sys: bool) -> Result<(), String> {
    ensure!(Some(w.date) == moment(r), "date {}", w.date);
    met!(w, r, sys, [5, 6, 7, 8, 9, 10, 11, 12, 17, 13, 14, 15, 16, 18]);
    Ok(())
}
fn obs_ok(w: &LatestObsDataRecord, r: &[String], sys: bool) -> Result<(), String> {
    ensure!(Some(w.date) == moment(&r[3..]), "date {}", w.date);
    ensure!(w.station_id == r[0] && Ok(w.latitude) == r[1].parse() && Ok(w.longitude) == r[2].parse(), "station {} {} {}", w.station_id, w.latitude, w.longitude);
    met!(w, r, sys, [8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21]);
    Ok(())
}
fn row(c: &mut Ctx, obs: bool) -> Vec<String> {
    let mut r: Vec<String> = vec![];
    if obs { r.push(format!("{}", 40000 + c.rng.below(9999))); r.push(format!("{:.3}", c.rng.fr(-90.0, 90.0))); r.push(if c.rng.chance(0.03) { "MM".into() } else { format!("{:.3}", c.rng.fr(-180.0, 180.0)) }); }
    r.extend(date_cols(c));
    let dirs = [0usize, 6];
    for k in 0..14 { let x = if dirs.contains(&k) { if c.rng.chance(0.2) { "MM".into() } else { format!("{}", c.rng.below(361)) } } else { num(c) }; r.push(x); }
    if c.rng.chance(0.1) { let n = c.rng.below(r.len() + 1); r.truncate(n); }
    if c.rng.chance(0.05) { r.push("9".into()); }
    r
}
fn good(r: &[String], obs: bool) -> bool {
    if obs { r.len() >= 22 && moment(&r[3..]).is_some() && r[1].parse::<f64>().is_ok() && r[2].parse::<f64>().is_ok() } else { r.len() >= 19 && moment(r).is_some() }
}

pub fn run(c: &mut Ctx) {
    c.rule = "rows and files of the standard meteorological and latest observations formats, same faults; non-trivial: the row is a record".into();
    for _ in 0..c.n(1500, 40_000) {
        if c.over() { break; }
        let obs = c.rng.chance(0.5);
        if c.rng.chance(0.7) {
            let r = row(c, obs);
            let ok = good(&r, obs);
            c.case(if obs { "latest obs row" } else { "met row" }, format!("{r:?}"), ok, || {
                let v: Vec<&str> = r.iter().map(|x| x.as_str()).collect();
                if obs {
                    match LatestObsDataRecord::from_data_row(None, &v) { Ok(w) => { ensure!(ok, "accepted"); obs_ok(&w, &r, false) } Err(e) => { ensure!(!ok, "rejected: {e}"); Ok(()) } }
                } else {
                    match MeteorologicalDataRecord::from_data_row(None, &v) { Ok(w) => { ensure!(ok, "accepted"); met_ok(&w, &r, false) } Err(e) => { ensure!(!ok, "rejected: {e}"); Ok(()) } }
                }
            });
        } else {
            let rows: Vec<Vec<String>> = (0..c.rng.below(6)).map(|_| row(c, obs)).collect();
            let t: String = std::iter::once("#STN LAT\n".to_string()).chain(rows.iter().map(|r| r.join("  ") + "\n")).collect();
            let ok: Vec<&Vec<String>> = rows.iter().filter(|r| good(r, obs)).collect();
            c.case(if obs { "latest obs file" } else { "met file" }, format!("{t:?}"), ok.len() > 1, || {
                if obs {
                    let mut f = LatestObsDataRecordCollection::from_data(&t);
                    let got: Vec<_> = f.records().collect();
                    ensure!(got.len() == ok.len(), "{} records from {} good rows", got.len(), ok.len());
                    for (w, r) in got.iter().zip(&ok) { obs_ok(w, r, true)?; }
                } else {
                    let mut f = MeteorologicalDataRecordCollection::from_data(&t);
                    let got: Vec<_> = f.records().collect();
                    ensure!(got.len() == ok.len(), "{} records from {} good rows", got.len(), ok.len());
                    for (w, r) in got.iter().zip(&ok) { met_ok(w, r, true)?; }
                }
                Ok(())
            });
        }
    }
}
