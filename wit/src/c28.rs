use crate::core::*;
use crate::ensure;
use chrono::{DateTime, FixedOffset, NaiveDate, TimeZone, Utc};
use serde_json::json;
use surfrs::data::nws_weather_forecast_data_record::*;
use surfrs::data::tidal_data_record::*;
use surfrs::units::*;

const NAMES: [(&str, CardinalDirection, i32); 16] = [
    ("N", CardinalDirection::North, 0), ("NNE", CardinalDirection::NorthNorthEast, 22), ("NE", CardinalDirection::NorthEast, 45), ("ENE", CardinalDirection::EastNorthEast, 67),
    ("E", CardinalDirection::East, 90), ("ESE", CardinalDirection::EastSouthEast, 112), ("SE", CardinalDirection::SouthEast, 135), ("SSE", CardinalDirection::SouthSouthEast, 157),
    ("S", CardinalDirection::South, 180), ("SSW", CardinalDirection::SouthSouthWest, 202), ("SW", CardinalDirection::SouthWest, 225), ("WSW", CardinalDirection::WestSouthWest, 247),
    ("W", CardinalDirection::West, 270), ("WNW", CardinalDirection::WestNorthWest, 292), ("NW", CardinalDirection::NorthWest, 315), ("NNW", CardinalDirection::NorthNorthWest, 337),
];
struct P { a: DateTime<FixedOffset>, b: DateTime<FixedOffset>, day: bool, t: f64, tu: (&'static str, Unit), d: f64, h: f64, w: String, wd: usize, texts: [String; 3] }

pub fn run(c: &mut Ctx) {
    c.rule = "forecasts of 0 to 5 (at times 300) periods at any offset from UTC, wind speeds of one word, a number and unit or a range, every compass name; tide predictions with numbers and numeric texts, impossible dates and values, every event; non-trivial: at least one period or record that decodes".into();
    for _ in 0..c.n(3000, 60_000) {
        if c.over() { break; }
        let n = if c.rng.chance(0.003) { 300 } else { c.rng.below(6) };
        let ps: Vec<P> = (0..n).map(|_| {
            let off = FixedOffset::east_opt((c.rng.range(-12, 12) * 3600) as i32).unwrap();
            let t = c.rng.range(0, 4_000_000_000);
            let (k, x, y) = (c.rng.below(7), c.rng.below(60), c.rng.below(60));
            let u = *c.rng.pick(&["mph", "kt", "m/s", "MPH", "knots"]);
            let w = match k { 0 => "calm".into(), 1 => String::new(), 2 | 3 => format!("{x} to {y} {u}"), 4 => format!("{x}.5 {u}"), _ => format!("{x} {u}") };
            P { a: off.timestamp_opt(t, 0).unwrap(), b: off.timestamp_opt(t + 3600, 0).unwrap(), day: c.rng.chance(0.5), t: c.rng.fr(-40.0, 120.0),
                tu: c.rng.pick(&[("F", Unit::Fahrenheit), ("wmoUnit:degC", Unit::Celsius), ("K", Unit::Kelvin), ("f", Unit::Fahrenheit)]).clone(), d: c.rng.fr(-40.0, 40.0), h: c.rng.range(0, 100) as f64, w, wd: c.rng.below(17),
                texts: [format!("icon{x}"), format!("short{y}"), format!("long {x} {y}")] }
        }).collect();
        let j = json!({"type": "Feature", "properties": {"units": "us", "forecastGenerator": "g", "generatedAt": "2024-09-14T18:15:07+00:00", "updateTime": "2024-09-14T16:53:19+00:00", "elevation": {"unitCode": "wmoUnit:m", "value": 0},
            "periods": ps.iter().enumerate().map(|(i, p)| json!({"number": i + 1, "name": "n", "startTime": p.a.to_rfc3339(), "endTime": p.b.to_rfc3339(), "isDaytime": p.day, "temperature": p.t, "temperatureUnit": p.tu.0, "temperatureTrend": null,
                "probabilityOfPrecipitation": {"unitCode": "wmoUnit:percent", "value": 3}, "dewpoint": {"unitCode": "wmoUnit:degC", "value": p.d}, "relativeHumidity": {"unitCode": "wmoUnit:percent", "value": p.h},
                "windSpeed": p.w, "windDirection": if p.wd < 16 { NAMES[p.wd].0 } else { "" }, "icon": p.texts[0], "shortForecast": p.texts[1], "detailedForecast": p.texts[2]})).collect::<Vec<_>>()}}).to_string();
        c.case("forecast", j.clone(), n > 0, || {
            let f = NwsWeatherForecastDataRecordCollection::from_json(&j).map_err(|e| format!("not read: {e}"))?;
            let rs = f.records();
            ensure!(rs.len() == ps.len(), "{} records of {} periods", rs.len(), ps.len());
            for (i, (r, p)) in rs.iter().zip(&ps).enumerate() {
                ensure!(r.start_time == p.a.with_timezone(&Utc) && r.end_time == p.b.with_timezone(&Utc) && r.is_daytime == p.day, "period {i}: {} to {}, daytime {}", r.start_time, r.end_time, r.is_daytime);
                let near = |a: Option<f64>, b: f64| a.map_or(false, |x| (x - b).abs() < 1e-9);
                ensure!(near(r.temperature.value, p.t) && r.temperature.unit == p.tu.1, "period {i}: temperature {:?} {:?} of {} {}", r.temperature.value, r.temperature.unit, p.t, p.tu.0);
                ensure!(near(r.dewpoint.value, p.d) && r.dewpoint.unit == Unit::Celsius, "period {i}: dewpoint {:?} {:?}", r.dewpoint.value, r.dewpoint.unit);
                ensure!(near(r.humidity.value, p.h) && r.humidity.unit == Unit::Percent, "period {i}: humidity {:?} {:?}", r.humidity.value, r.humidity.unit);
                let ws: Vec<&str> = p.w.split(' ').collect();
                let unit = match ws.last().unwrap().to_lowercase().as_str() { "mph" => Unit::MilesPerHour, "kt" | "knots" => Unit::Knots, "m/s" => Unit::MetersPerSecond, _ => Unit::Unknown };
                ensure!(r.wind_speed.value == ws[0].parse::<f64>().ok() && r.wind_speed.unit == unit, "period {i}: wind {:?} {:?} of {:?}", r.wind_speed.value, r.wind_speed.unit, p.w);
                match (&r.wind_direction.value, p.wd < 16) {
                    (Some(d), true) => ensure!(*d.cardinal_direction() == NAMES[p.wd].1 && ((d.degrees - NAMES[p.wd].2 + 540) % 360 - 180).abs() <= 12, "period {i}: wind from {d:?} of {}", NAMES[p.wd].0),
                    (None, false) => {}
                    (d, _) => ensure!(false, "period {i}: wind from {d:?}"),
                }
                ensure!(r.wind_direction.unit == Unit::Degrees && r.icon == p.texts[0] && r.short_forecast == p.texts[1] && r.detailed_forecast == p.texts[2], "period {i}: texts {r:?}");
            }
            Ok(())
        });
        let (x, y) = (c.rng.below(500), c.rng.below(500));
        let g = json!({"properties": {"gridId": "BOX", "gridX": x, "gridY": y, "other": 1}}).to_string();
        c.case("grid point", g.clone(), true, || {
            let p = NwsGridPointData::from_json(&g).map_err(|e| e.to_string())?.properties;
            ensure!(p.grid_id == "BOX" && p.grid_x == x && p.grid_y == y, "{p:?}");
            Ok(())
        });
        // tide predictions
        let n = if c.rng.chance(0.003) { 300 } else { c.rng.below(5) };
        let mut ok = true;
        let mut want = vec![];
        let rows: Vec<serde_json::Value> = (0..n).map(|_| {
            let (q1, q2, q3) = (c.rng.chance(0.03), c.rng.chance(0.1), c.rng.chance(0.03));
            let (y, m, d) = (c.rng.range(1990, 2050) as i32, 1 + c.rng.below(12 + q1 as usize) as u32, 1 + c.rng.below(if q2 { 31 } else { 28 }) as u32);
            let (h, mi) = (c.rng.below(24 + q3 as usize) as u32, c.rng.below(60) as u32);
            let v = c.rng.fr(-3.0, 12.0);
            let date = NaiveDate::from_ymd_opt(y, m, d).and_then(|x| x.and_hms_opt(h, mi, 0)).map(|x| x.and_utc());
            if date.is_none() { ok = false; }
            let mut o = json!({"t": format!("{y}-{m:02}-{d:02} {h:02}:{mi:02}")});
            match c.rng.below(40) { 0 => { o["v"] = json!(true); ok = false; } 1 => { o["v"] = json!("x1"); ok = false; } 2..=15 => o["v"] = json!(v), _ => o["v"] = json!(format!("{v}")) }
            let e = match c.rng.below(3) { 0 => None, 1 => Some(TidalEvent::High), _ => Some(TidalEvent::Low) };
            if let Some(e) = &e { o["type"] = json!(if *e == TidalEvent::High { "H" } else { "L" }); }
            want.push((date, v, e));
            o
        }).collect();
        let j = json!({"predictions": rows}).to_string();
        c.case("tide predictions", j.clone(), ok && n > 0, || {
            let r = TidalDataRecordCollection::from_json(&j);
            ensure!(r.is_ok() == ok, "read {}, expected {ok}: {:?}", r.is_ok(), r.err().map(|e| e.to_string()));
            if let Ok(t) = r {
                ensure!(t.records.len() == want.len(), "{} records of {}", t.records.len(), want.len());
                for (a, b) in t.records.iter().zip(&want) { ensure!(Some(a.date) == b.0 && (a.value - b.1).abs() < 1e-9 && a.event == b.2, "{a:?} of {b:?}"); }
            }
            Ok(())
        });
    }
}
