use crate::core::*;
use crate::ensure;
use chrono::DateTime;
use surfrs::data::gfs_wave_grib_point_data_record::GFSWaveGribPointDataRecord;
use surfrs::data::latest_obs_data_record::LatestObsDataRecord;
use surfrs::data::meteorological_data_record::MeteorologicalDataRecord;
use surfrs::units::*;

#[path = "../../wit/src/c09.rs"]
mod base;
use base::{dd, dd_ok, dir_ok, dirdd, swell, swell_ok, systems, units};

macro_rules! weather {
    ($a:expr, $b:expr, $s:expr) => {{
        let (a, b, s) = ($a, $b, $s);
        ensure!(a.date == b.date, "date");
        dir_ok(&a.wind_direction, &b.wind_direction, s)?;
        dir_ok(&a.mean_wave_direction, &b.mean_wave_direction, s)?;
        dd_ok(&a.wind_speed, &b.wind_speed, s)?;
        dd_ok(&a.wind_gust_speed, &b.wind_gust_speed, s)?;
        dd_ok(&a.wave_height, &b.wave_height, s)?;
        dd_ok(&a.dominant_wave_period, &b.dominant_wave_period, s)?;
        dd_ok(&a.average_wave_period, &b.average_wave_period, s)?;
        dd_ok(&a.air_pressure, &b.air_pressure, s)?;
        dd_ok(&a.air_pressure_tendency, &b.air_pressure_tendency, s)?;
        dd_ok(&a.air_temperature, &b.air_temperature, s)?;
        dd_ok(&a.water_temperature, &b.water_temperature, s)?;
        dd_ok(&a.dewpoint_temperature, &b.dewpoint_temperature, s)?;
        dd_ok(&a.visibility, &b.visibility, s)?;
        dd_ok(&a.tide, &b.tide, s)?;
    }};
}
pub fn run(c: &mut Ctx) {
    c.rule = "weather observations, latest observations and model points with random units and missing values; non-trivial: always".into();
    let us = units();
    for _ in 0..c.n(1500, 40_000) {
        if c.over() { break; }
        let s = c.rng.pick(&systems()).clone();
        let date = DateTime::from_timestamp(c.rng.range(0, 2_000_000_000), 0).unwrap();
        let m = MeteorologicalDataRecord {
            date, wind_direction: dirdd(c), wind_speed: dd(c, &us, "ws"), wind_gust_speed: dd(c, &us, "wg"), wave_height: dd(c, &us, "wh"),
            dominant_wave_period: dd(c, &us, "dp"), average_wave_period: dd(c, &us, "ap"), mean_wave_direction: dirdd(c), air_pressure: dd(c, &us, "p"),
            air_pressure_tendency: dd(c, &us, "pt"), air_temperature: dd(c, &us, "at"), water_temperature: dd(c, &us, "wt"),
            dewpoint_temperature: dd(c, &us, "dt"), visibility: dd(c, &us, "v"), tide: dd(c, &us, "t"),
        };
        c.case("weather", format!("{m:?} to {s:?}"), true, || { let mut b = m.clone(); let r = b.to_units(&s).clone(); weather!(&m, &b, &s); weather!(&m, &r, &s); Ok(()) });
        let o = LatestObsDataRecord {
            station_id: "44097".into(), latitude: 40.5, longitude: -71.0, date,
            wind_direction: m.wind_direction.clone(), wind_speed: m.wind_speed.clone(), wind_gust_speed: m.wind_gust_speed.clone(), wave_height: m.wave_height.clone(),
            dominant_wave_period: m.dominant_wave_period.clone(), average_wave_period: m.average_wave_period.clone(), mean_wave_direction: m.mean_wave_direction.clone(),
            air_pressure: m.air_pressure.clone(), air_pressure_tendency: m.air_pressure_tendency.clone(), air_temperature: m.air_temperature.clone(),
            water_temperature: m.water_temperature.clone(), dewpoint_temperature: m.dewpoint_temperature.clone(), visibility: m.visibility.clone(), tide: m.tide.clone(),
        };
        c.case("latest obs", format!("{o:?} to {s:?}"), true, || {
            let mut b = o.clone();
            b.to_units(&s);
            ensure!(b.station_id == o.station_id && b.latitude == o.latitude && b.longitude == o.longitude, "station changed");
            weather!(&o, &b, &s);
            Ok(())
        });
        let n = c.rng.below(5);
        let g = GFSWaveGribPointDataRecord { date, wave_summary: swell(c), wind_speed: dd(c, &us, "w"), wind_direction: dirdd(c), swell_components: (0..n).map(|_| swell(c)).collect() };
        c.case("model point", format!("{g:?} to {s:?}"), true, || {
            let mut b = g.clone();
            b.to_units(&s);
            ensure!(b.date == g.date && b.swell_components.len() == n, "date or components");
            dd_ok(&g.wind_speed, &b.wind_speed, &s)?;
            swell_ok(&g.wave_summary, &b.wave_summary, &s)?;
            for k in 0..n { swell_ok(&g.swell_components[k], &b.swell_components[k], &s)?; }
            Ok(())
        });
    }
}
