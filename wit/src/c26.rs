use crate::core::*;
use crate::ensure;
use chrono::{DateTime, Datelike, TimeZone, Timelike, Utc};
use surfrs::location::Location;
use surfrs::station::Station;
use surfrs::tide_station::*;
use surfrs::units::UnitSystem;
use surfrs::weather::*;

fn text(c: &mut Ctx) -> String {
    let n = c.rng.below(8);
    (0..n).map(|_| *c.rng.pick(&['a', 'Z', '0', '7', '-', ' ', 'é', '_', '9', 'K'])).collect()
}
fn instant(c: &mut Ctx) -> DateTime<Utc> {
    Utc.timestamp_opt(c.rng.range(0, 4_000_000_000), 0).unwrap()
}
fn day(d: &DateTime<Utc>) -> String { format!("{:04}{:02}{:02}", d.year(), d.month(), d.day()) }
fn minute(d: &DateTime<Utc>) -> String { format!("{:02}:{:02}", d.hour(), d.minute()) }

pub fn run(c: &mut Ctx) {
    c.rule = "random identifiers (empty, spaced and non-ASCII ones too), positions, instants from 1970 to 2096, every datum, interval and unit system; lists of stations with repeated identifiers; non-trivial: all but a search that finds nothing".into();
    for k in 0..c.n(4000, 100_000) {
        if c.over() { break; }
        let (id, name, state) = (text(c), text(c), text(c));
        let (lat, lon) = (c.rng.fr(-90.0, 90.0), c.rng.fr(-180.0, 360.0));
        let (a, b) = (instant(c), instant(c));
        let (dt, dn) = match k % 6 { 0 => (TideDatum::MHHW, "MHHW"), 1 => (TideDatum::MHW, "MHW"), 2 => (TideDatum::MTL, "MTL"), 3 => (TideDatum::MSL, "MSL"), 4 => (TideDatum::MLW, "MLW"), _ => (TideDatum::MLLW, "MLLW") };
        let (iv, ivn) = match c.rng.below(3) { 0 => (DataInterval::Default, ""), 1 => (DataInterval::Hourly, "h"), _ => (DataInterval::HiLo, "hilo") };
        let (us, un) = match c.rng.below(4) { 0 => (UnitSystem::Metric, "metric"), 1 => (UnitSystem::English, "english"), 2 => (UnitSystem::Knots, "knots"), _ => (UnitSystem::Kelvin, "kelvin") };
        let s = TideStation::new(&id, &Location::new(lat, lon, name.clone()), &state);
        c.case("tidal_data_url", format!("station {id:?} from {a} to {b}, {dn}, {ivn:?}, {un}"), true, || {
            let u = s.tidal_data_url(&a, &b, &dt, &iv, &us);
            let w = format!("https://api.tidesandcurrents.noaa.gov/api/prod/datagetter?begin_date={}%20{}&end_date={}%20{}&station={id}&product=predictions&datum={dn}&interval={ivn}&units={un}&time_zone=gmt&application=web_services&format=json", day(&a), minute(&a), day(&b), minute(&b));
            ensure!(u == w, "asks {u}, expected {w}");
            Ok(())
        });
        c.case("TideStation", format!("station {id:?} {name:?} {state:?} at {lat}, {lon}"), true, || {
            ensure!(s.id() == id && s.name() == name && s.state == state, "new gives {s:?}");
            let l = s.location();
            ensure!(l.latitude == lat && l.longitude == lon && l.name == name, "location() {l:?}");
            let f = serde_json::to_value(s.as_feature()).unwrap();
            ensure!(f["geometry"]["type"] == "Point", "feature {f}");
            ensure!(f["geometry"]["coordinates"] == serde_json::json!([lon, lat]), "the feature of {lat}, {lon} lies at {}", f["geometry"]["coordinates"]);
            ensure!(f["properties"] == serde_json::json!({"id": id, "name": name, "state": state}), "properties {}", f["properties"]);
            Ok(())
        });
        let n = c.rng.below(6);
        let ids: Vec<String> = (0..n).map(|_| (*c.rng.pick(&["a", "b", "ab", "", "A"])).to_string()).collect();
        let q = (*c.rng.pick(&["a", "b", "ab", "", "A"])).to_string();
        c.case("find_station_by_id", format!("{q:?} among {ids:?}"), ids.contains(&q), || {
            let v: Vec<TideStation> = ids.iter().enumerate().map(|(i, x)| TideStation::new(x, &Location::new(i as f64, 0.0, String::new()), "")).collect();
            let t = TideStations::from_stations(v);
            ensure!(t.station_count == ids.len() && t.stations.len() == ids.len() && t.stations.iter().enumerate().all(|(i, x)| x.latitude == i as f64), "from_stations of {} gives {} ({})", ids.len(), t.stations.len(), t.station_count);
            let w = ids.iter().position(|x| *x == q);
            let r = t.find_station_by_id(&q);
            ensure!(r.as_ref().map(|x| x.latitude as usize) == w, "finds {r:?}, expected the one at {w:?}");
            ensure!(r.map_or(true, |x| x.station_id == q), "finds another identifier");
            Ok(())
        });
        let (x, y) = (c.rng.below(500), c.rng.below(500));
        c.case("weather addresses", format!("office {id:?} {x},{y} at {lat}, {lon}"), true, || {
            let g = format!("https://api.weather.gov/gridpoints/{id}/{x},{y}");
            ensure!(create_gridpoints_url(&id, &x, &y) == g, "gridpoints {}", create_gridpoints_url(&id, &x, &y));
            ensure!(create_forecast_url(&id, &x, &y) == format!("{g}/forecast"), "forecast {}", create_forecast_url(&id, &x, &y));
            ensure!(create_hourly_forecast_url(&id, &x, &y) == format!("{g}/forecast/hourly"), "hourly {}", create_hourly_forecast_url(&id, &x, &y));
            let p = create_points_url(&Location::new(lat, lon, name.clone()));
            ensure!(p == format!("https://api.weather.gov/points/{lat},{lon}"), "points {p}");
            Ok(())
        });
    }
    c.case("tide_prediction_stations_url", "tide_prediction_stations_url()".into(), true, || {
        ensure!(TideStations::tide_prediction_stations_url() == "https://api.tidesandcurrents.noaa.gov/mdapi/prod/webapi/stations.json?type=tidepredictions&units=english", "{}", TideStations::tide_prediction_stations_url());
        Ok(())
    });
}
