use crate::core::*;
use crate::ensure;
use chrono::{DateTime, Utc};
use surfrs::data::meteorological_data_record::StdmetDataRecordCollection;
use surfrs::data::swden_wave_data_record::SwdenWaveDataRecordCollection;
use surfrs::dimensional_data::DimensionalData;
use surfrs::units::*;

fn line(name: &str, v: &[f64], axes: &[(&str, Vec<String>)]) -> String {
    let v: Vec<String> = v.iter().map(|x| format!("{x}")).collect();
    let a: String = axes.iter().map(|(n, x)| format!("|{n} {}", x.join(" "))).collect();
    format!("{name}|{}{a}\n", v.join(" "))
}
fn held(q: &DimensionalData<f64>, x: f64, flag: f64, u: Unit, name: &str) -> Result<(), String> {
    let want = if (x - flag).abs() < 1e-5 { None } else { Some(x) };
    ensure!(q.value == want && q.unit == u && q.variable_name == name, "{name} is {q:?}, reported {x}");
    Ok(())
}
fn pointed(q: &DimensionalData<Direction>, x: f64, name: &str) -> Result<(), String> {
    let want = if (x - 999.0).abs() < 1e-5 { None } else { Some(x as i32) };
    ensure!(q.value.as_ref().map(|d| d.degrees) == want && q.unit == Unit::Degrees && q.variable_name == name, "{name} is {q:?}, reported {x}");
    Ok(())
}
fn at(t: i64) -> DateTime<Utc> { DateTime::from_timestamp(t, 0).unwrap() }
const MET: [(&str, f64); 13] = [("wind_dir", 999.0), ("wind_spd", 99.0), ("gust", 99.0), ("wave_height", 99.0), ("dominant_wpd", 99.0), ("average_wpd", 99.0), ("mean_wave_dir", 999.0),
    ("air_pressure", 9999.0), ("air_temperature", 999.0), ("sea_surface_temperature", 999.0), ("dewpt_temperature", 999.0), ("visibility", 99.0), ("water_level", 99.0)];
const FIVE: [&str; 5] = ["spectral_wave_density", "mean_wave_dir", "principal_wave_dir", "wave_spectrum_r1", "wave_spectrum_r2"];

pub fn run(c: &mut Ctx) {
    c.rule = "buoy data sets of 0..8 times (and 1..6 frequencies), values random or the flag for missing of any variable; non-trivial: two times or more".into();
    for _ in 0..c.n(1500, 40_000) {
        if c.over() { break; }
        let n = c.rng.below(9);
        let mut t = c.rng.range(0, 2_000_000_000);
        let times: Vec<i64> = (0..n).map(|_| { t += 1 + c.rng.below(9000) as i64; t }).collect();
        let tt: Vec<String> = times.iter().map(|x| x.to_string()).collect();
        if c.rng.chance(0.5) {
            let mut vs: Vec<Vec<f64>> = MET.iter().map(|(_, flag)| (0..n).map(|_| if c.rng.chance(0.15) { *flag } else if c.rng.chance(0.1) { *c.rng.pick(&[99.0, 999.0, 9999.0, 0.0]) } else if *flag == 999.0 && c.rng.chance(0.5) { c.rng.below(361) as f64 } else { (c.rng.fr(-50.0, 1100.0) * 10.0).round() / 10.0 }).collect()).collect();
            for k in [0, 6] { for x in vs[k].iter_mut() { *x = x.round(); } }
            let short = if c.rng.chance(0.1) && n > 0 { let k = c.rng.below(13); vs[k].pop(); 1 } else { 0 };
            let text: String = MET.iter().zip(&vs).map(|((name, _), v)| line(name, v, &[("time", tt.clone())])).collect();
            c.case("weather data set", text.clone(), n > 1, || {
                let f = StdmetDataRecordCollection::from_data(text.as_bytes());
                let got: Vec<_> = f.records().collect();
                ensure!(got.len() == n - short, "{} records of {} times", got.len(), n - short);
                for (k, w) in got.iter().enumerate() {
                    let x = |j: usize| vs[j][k];
                    ensure!(w.date == at(times[k]), "record {k} is dated {}", w.date);
                    pointed(&w.wind_direction, x(0), "wind direction")?;
                    held(&w.wind_speed, x(1), 99.0, Unit::MetersPerSecond, "wind speed")?;
                    held(&w.wind_gust_speed, x(2), 99.0, Unit::MetersPerSecond, "wind gust")?;
                    held(&w.wave_height, x(3), 99.0, Unit::Meters, "wave height")?;
                    held(&w.dominant_wave_period, x(4), 99.0, Unit::Seconds, "dominant wave period")?;
                    held(&w.average_wave_period, x(5), 99.0, Unit::Seconds, "mean wave period")?;
                    pointed(&w.mean_wave_direction, x(6), "mean wave direction")?;
                    held(&w.air_pressure, x(7), 9999.0, Unit::HectaPascal, "air pressure")?;
                    ensure!(w.air_pressure_tendency.value.is_none(), "a pressure tendency");
                    held(&w.air_temperature, x(8), 999.0, Unit::Celsius, "air temperature")?;
                    held(&w.water_temperature, x(9), 999.0, Unit::Celsius, "water temperature")?;
                    held(&w.dewpoint_temperature, x(10), 999.0, Unit::Celsius, "dewpoint temperature")?;
                    held(&w.visibility, x(11), 99.0, Unit::NauticalMiles, "visibility")?;
                    held(&w.tide, x(12), 99.0, Unit::Feet, "water level")?;
                }
                Ok(())
            });
        } else {
            let nf = 1 + c.rng.below(6);
            let fs: Vec<f64> = (0..nf).map(|k| (k as f64 + 1.0) / 64.0).collect();
            let ff: Vec<String> = fs.iter().map(|x| x.to_string()).collect();
            let cut = if n > 0 && c.rng.chance(0.2) { 1 + c.rng.below(nf) } else { 0 };
            let who = c.rng.below(5);
            let vs: Vec<Vec<f64>> = (0..5).map(|j| (0..n * nf - if j == who { cut } else { 0 }).map(|_| if c.rng.chance(0.1) { 999.0 } else { (c.rng.fr(0.0, 360.0) * 100.0).round() / 100.0 }).collect()).collect();
            let text: String = FIVE.iter().zip(&vs).map(|(name, v)| line(name, v, &[("time", tt.clone()), ("frequency", ff.clone())])).collect();
            c.case("spectral data set", text.clone(), n > 1, || {
                let f = SwdenWaveDataRecordCollection::from_data(text.as_bytes());
                let got: Vec<_> = f.records().collect();
                let m = n - if cut > 0 { 1 } else { 0 };
                ensure!(got.len() == m, "{} spectra of {m} complete ones", got.len());
                for (k, w) in got.iter().enumerate() {
                    ensure!(w.date == at(times[k]) && w.frequency == fs, "spectrum {k} is dated {}", w.date);
                    for (j, v) in [&w.energy_spectra, &w.mean_wave_direction, &w.primary_wave_direction, &w.first_polar_coefficient, &w.second_polar_coefficient].iter().enumerate() {
                        ensure!(v[..] == vs[j][k * nf..(k + 1) * nf], "{} of spectrum {k} is {v:?}", FIVE[j]);
                    }
                }
                Ok(())
            });
        }
    }
}
