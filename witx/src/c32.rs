use crate::core::*;
use crate::ensure;
use chrono::DateTime;
use std::collections::HashMap;
use surfrs::data::meteorological_data_record::MeteorologicalDataRecord;
use surfrs::dimensional_data::DimensionalData;
use surfrs::data::parseable_data_record::ParseableDataRecord;
use surfrs::units::*;

#[path = "../../wit/src/c32.rs"]
mod base;
use base::{heading, quantity, shown, shown_dir, units};

pub fn run(c: &mut Ctx) {
    c.rule = "weather observations, made from rows and field by field, turned into maps of values and of texts; non-trivial: always".into();
    let us = units();
    for _ in 0..c.n(1500, 40_000) {
        if c.over() { break; }
        let date = DateTime::from_timestamp(c.rng.range(0, 2_000_000_000), 0).unwrap();
        let m = if c.rng.chance(0.5) {
            MeteorologicalDataRecord {
                date, wind_direction: heading(c, &us, "wind direction"), wind_speed: quantity(c, &us, "wind speed"), wind_gust_speed: quantity(c, &us, "wind gust"), wave_height: quantity(c, &us, "wave height"),
                dominant_wave_period: quantity(c, &us, "dominant wave period"), average_wave_period: quantity(c, &us, "mean wave period"), mean_wave_direction: heading(c, &us, "mean wave direction"),
                air_pressure: quantity(c, &us, "air pressure"), air_pressure_tendency: quantity(c, &us, "air pressure tendency"), air_temperature: quantity(c, &us, "air temperature"),
                water_temperature: quantity(c, &us, "water temperature"), dewpoint_temperature: quantity(c, &us, "dewpoint temperature"), visibility: quantity(c, &us, "visibility"), tide: quantity(c, &us, "water level"),
            }
        } else {
            let mut row: Vec<String> = ["2024", "01", "02", "03", "40"].iter().map(|x| x.to_string()).collect();
            for k in 0..14 { let t = if c.rng.chance(0.3) { "MM".into() } else if k == 0 || k == 6 { c.rng.range(0, 360).to_string() } else { format!("{:.1}", c.rng.fr(0.0, 40.0)) }; row.push(t); }
            let v: Vec<&str> = row.iter().map(|x| x.as_str()).collect();
            MeteorologicalDataRecord::from_data_row(None, &v).unwrap()
        };
        c.case("observation map", format!("{m:?}"), true, || {
            let values: HashMap<String, DimensionalData<f64>> = m.clone().into();
            let texts: HashMap<String, Option<String>> = m.clone().into();
            let qs = [&m.wind_speed, &m.wind_gust_speed, &m.wave_height, &m.dominant_wave_period, &m.average_wave_period, &m.air_pressure, &m.air_pressure_tendency, &m.air_temperature, &m.water_temperature, &m.dewpoint_temperature, &m.visibility, &m.tide];
            for q in qs {
                let n = &q.variable_name;
                ensure!(!n.is_empty(), "a quantity in {:?} has no name", q.unit);
                ensure!(values.get(n) == Some(q), "{n} maps to {:?}, it is {q:?}", values.get(n));
                ensure!(texts.get(n) == Some(&q.value.map(|_| shown(q))), "{n} reads {:?}, it is {q:?}", texts.get(n));
            }
            for q in [&m.wind_direction, &m.mean_wave_direction] {
                let n = &q.variable_name;
                let v = values.get(n).ok_or(format!("{n} is missing"))?;
                ensure!(v.value == q.value.as_ref().map(|d| d.degrees as f64) && v.unit == q.unit, "{n} maps to {v:?}, it is {q:?}");
                ensure!(texts.get(n) == Some(&q.value.as_ref().map(|_| shown_dir(q))), "{n} reads {:?}, it is {q:?}", texts.get(n));
            }
            let t = values.get("date").ok_or("no date")?;
            ensure!(t.value == Some(m.date.timestamp() as f64) && t.unit == Unit::Seconds, "date maps to {t:?}");
            Ok(())
        });
    }
}
