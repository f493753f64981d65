use crate::core::*;
use crate::ensure;
use chrono::{DateTime, Datelike, TimeZone, Timelike, Utc};
use surfrs::buoy_station::*;
use surfrs::model::ModelDataSource;
use surfrs::station::Station;
use surfrs::tools::dap::*;

fn parses(s: &str) -> Option<(String, Vec<(usize, usize, usize)>)> {
    let mut p = s.split('[');
    let v = p.next()?.to_string();
    let mut rs = vec![];
    for r in p {
        let t: Vec<&str> = r.split(':').collect();
        if t.len() < 3 { return None; }
        rs.push((t[0].parse().ok()?, t[1].parse().ok()?, t[2].replace(']', "").parse().ok()?));
    }
    Some((v, rs))
}
pub fn run(c: &mut Ctx) {
    c.rule = "random identifiers, instants and sources; constraints with 0 to 4 ranges, written and read back, and damaged texts; stations with every combination of instruments, from values and from XML; names with numbers and brackets; non-trivial: all but searches that find nothing".into();
    for k in 0..c.n(3000, 60_000) {
        if c.over() { break; }
        // constraints
        let n = c.rng.below(4);
        let cs: Vec<DapConstraint> = (0..n).map(|_| {
            let v = (*c.rng.pick(&["wind", "time", "a_b", "", "swh.x"])).to_string();
            let m = c.rng.below(5);
            DapConstraint::new(v, (0..m).map(|_| (c.rng.below(2000), c.rng.below(30), c.rng.below(100000))).collect())
        }).collect();
        let w: Vec<String> = cs.iter().map(|x| format!("{}{}", x.var, x.ranges.iter().map(|r| format!("[{}:{}:{}]", r.0, r.1, r.2)).collect::<String>())).collect();
        c.case("constraints written", format!("{cs:?}"), true, || {
            for (x, t) in cs.iter().zip(&w) {
                ensure!(x.to_string() == *t, "{x:?} is written {x}");
                let b = t.parse::<DapConstraint>();
                ensure!(matches!(&b, Ok(y) if y.var == x.var && y.ranges == x.ranges), "{t} reads as {b:?}");
            }
            ensure!(format_dap_constraints(&cs) == w.join(","), "together {}", format_dap_constraints(&cs));
            ensure!(format_dods_url("http://x/y", &cs) == format!("http://x/y.dods?{}", w.join(",")), "url {}", format_dods_url("http://x/y", &cs));
            Ok(())
        });
        let mut t: Vec<char> = w.first().cloned().unwrap_or("wind[0:1:2]".into()).chars().collect();
        for _ in 0..c.rng.below(3) {
            let i = c.rng.below(t.len() + 1);
            match c.rng.below(3) { 0 => t.insert(i, *c.rng.pick(&['[', ']', ':', 'x', '-', '3', ' ', 'é'])), 1 => { if i < t.len() { t.remove(i); } } _ => t.truncate(i) }
        }
        let t: String = t.into_iter().collect();
        c.case("constraint read", format!("{t:?}"), true, || {
            let (r, w) = (t.parse::<DapConstraint>(), parses(&t));
            match (&r, &w) { (Ok(x), Some(y)) if x.var == y.0 && x.ranges == y.1 => {}, (Err(_), None) => {}, _ => ensure!(false, "reads as {r:?}, expected {w:?}") }
            Ok(())
        });
        // stations
        let id: String = (0..c.rng.below(6)).map(|_| *c.rng.pick(&['4', '0', 'W', 'x', '9'])).collect();
        let (lat, lon) = (c.rng.fr(-90.0, 90.0), c.rng.fr(-180.0, 180.0));
        let mut s = BuoyStation::new(id.clone(), lat, lon);
        c.case("BuoyStation::new", format!("{id:?} at {lat}, {lon}"), true, || {
            ensure!(s.id() == id && s.latitude == lat && s.longitude == lon && s.is_active(), "new gives {s:?}");
            Ok(())
        });
        let m = k % 16;
        s.has_meteorological_data = m & 1 > 0; s.has_currents_data = m & 2 > 0; s.has_water_quality_data = m & 4 > 0; s.has_tsnuami_data = m & 8 > 0;
        let (bt, bn) = match k % 9 { 0 => (BuoyType::None, "None"), 1 => (BuoyType::Buoy, "Buoy"), 2 => (BuoyType::Fixed, "Fixed"), 3 => (BuoyType::OilRig, "Oil Rig"), 4 => (BuoyType::Dart, "Dart"), 5 => (BuoyType::Tao, "Tao"), 6 => (BuoyType::USV, "USV"), 7 => (BuoyType::Virtual, "Virtual"), _ => (BuoyType::Other, "Other") };
        s.buoy_type = bt;
        let raw = (0..c.rng.below(5)).map(|_| *c.rng.pick(&["SE Cape ", "44097", " 44097 ", "Block Island, RI", "(154)", " (2 3) ", "-12", "+5", " x ", "A"])).collect::<Vec<_>>().join(*c.rng.pick(&["-", " - ", " "]));
        s.raw_name = raw.clone();
        let shown = {
            let j: String = raw.split('-').map(|x| x.trim()).filter(|x| x.parse::<i64>().is_err()).collect();
            j.split_whitespace().filter(|x| !x.starts_with('(')).collect::<Vec<_>>().join(" ")
        };
        c.case("BuoyStation", format!("{s:?}"), true, || {
            ensure!(s.is_active() == (m != 0), "is_active() is {} with met {}, currents {}, water quality {}, tsunami {}", s.is_active(), m & 1 > 0, m & 2 > 0, m & 4 > 0, m & 8 > 0);
            ensure!(s.name() == shown, "name() is {:?}, expected {shown:?}", s.name());
            let l = s.location();
            ensure!(l.latitude == lat && l.longitude == lon && l.name == shown, "location() {l:?}");
            let f = serde_json::to_value(s.as_feature()).unwrap();
            ensure!(f["geometry"]["type"] == "Point" && f["geometry"]["coordinates"] == serde_json::json!([lon, lat]), "the feature of {lat}, {lon} is {f}");
            ensure!(f["properties"] == serde_json::json!({"id": id, "name": shown, "isActive": m != 0, "type": bn}), "properties {}", f["properties"]);
            ensure!(s.buoy_type.to_string() == bn, "type {}", s.buoy_type);
            Ok(())
        });
        let yn = |b: bool| if b { "y" } else { "n" };
        let xml = format!("<stations count=\"1\"><station id=\"{id}\" lat=\"{lat}\" lon=\"{lon}\" elev=\"2.5\" name=\"n\" owner=\"o\" pgm=\"p\" type=\"dart\" met=\"{}\" currents=\"{}\" waterquality=\"{}\" dart=\"{}\"/></stations>", yn(m & 1 > 0), yn(m & 2 > 0), yn(m & 4 > 0), yn(m & 8 > 0));
        c.case("stations from XML", xml.clone(), true, || {
            let b = BuoyStations::from_raw_data(&xml);
            ensure!(b.stations.len() == 1 && b.station_count == 1, "reads {} stations", b.stations.len());
            let x = &b.stations[0];
            ensure!(x.station_id == id && x.latitude == lat && x.longitude == lon && x.elevation == 2.5 && x.raw_name == "n" && x.owner == "o" && x.program == "p" && x.buoy_type == BuoyType::Dart, "reads {x:?}");
            ensure!((x.has_meteorological_data, x.has_currents_data, x.has_water_quality_data, x.has_tsnuami_data) == (m & 1 > 0, m & 2 > 0, m & 4 > 0, m & 8 > 0), "instruments {:?}", (x.has_meteorological_data, x.has_currents_data, x.has_water_quality_data, x.has_tsnuami_data));
            Ok(())
        });
        let rt = format!("https://www.ndbc.noaa.gov/data/realtime2/{id}.");
        c.case("buoy addresses", format!("station {id:?}"), true, || {
            let w = [
                (s.latest_obs_data_url(), format!("https://ndbc.noaa.gov/data/latest_obs/{id}.txt")),
                (s.meteorological_data_url(), format!("{rt}txt")), (s.wave_data_url(), format!("{rt}spec")), (s.spectral_wave_data_url(), format!("{rt}data_spec")),
                (s.mean_wave_direction_spectral_data_url(), format!("{rt}swdir")), (s.principal_wave_direction_spectral_data_url(), format!("{rt}swdir2")),
                (s.r1_spectral_data_url(), format!("{rt}swr1")), (s.r2_spectral_data_url(), format!("{rt}swr2")),
            ];
            for (a, b) in w { ensure!(a == b, "{a} instead of {b}"); }
            for (k, a, das, dds, dods) in [("stdmet", s.stdmet_dap_url_root(), s.stdmet_das_url(), s.stdmet_dds_url(), s.stdmet_dods_url(&cs)), ("swden", s.swden_dap_url_root(), s.swden_das_url(), s.swden_dds_url(), s.swden_dods_url(&cs))] {
                let r = format!("https://dods.ndbc.noaa.gov/thredds/dodsC/data/{k}/{id}/{id}{}9999.nc", if k == "stdmet" { 'h' } else { 'w' });
                ensure!(a == r && das == format!("{r}.das") && dds == format!("{r}.dds") && dods == format!("{r}.dods?{}", w_join(&cs)), "{k}: {a} {das} {dds} {dods}");
            }
            Ok(())
        });
        let d: DateTime<Utc> = Utc.timestamp_opt(c.rng.range(0, 4_000_000_000), 0).unwrap();
        let (src, root) = match c.rng.below(3) { 0 => (ModelDataSource::NODDAWS, "https://noaa-gfs-bdp-pds.s3.amazonaws.com"), 1 => (ModelDataSource::NOMADS, "https://nomads.ncep.noaa.gov/pub/data/nccf/com/gfs/prod"), _ => (ModelDataSource::NODDGCP, "https://storage.googleapis.com/global-forecast-system") };
        c.case("forecast addresses", format!("station {id:?} at {d} from {root}"), true, || {
            let st = format!("gfs.{}{:02}{:02}/{:02}/wave/station", d.year(), d.month(), d.day(), d.hour());
            let p = format!("{st}/bulls.t{:02}z", d.hour());
            let w = [
                (s.gfswave_bulletin_data_prefix(&d), format!("{p}/gfswave.{id}.cbull")), (s.gfswave_spectral_data_prefix(&d), format!("{p}/gfswave.{id}.spec")),
                (s.gfswave_bulletin_data_url(&src, &d), format!("{root}/{p}/gfswave.{id}.cbull")), (s.gfswave_spectral_data_url(&src, &d), format!("{root}/{p}/gfswave.{id}.spec")),
                (BuoyStation::gfswave_lsl_url(&src, &d), format!("{root}/{st}/ls-l")), (BuoyStations::gfswave_stations_root_url(&src, &d), format!("{root}/{p}/")),
                (s.gfswave_data_url_prefix(&d), p.clone()),
            ];
            for (a, b) in w { ensure!(a == b, "{a} instead of {b}"); }
            Ok(())
        });
        let n = c.rng.below(6);
        let ids: Vec<String> = (0..n).map(|_| (*c.rng.pick(&["a", "b", "ab", "", "A"])).to_string()).collect();
        let q = (*c.rng.pick(&["a", "b", "ab", "", "A"])).to_string();
        c.case("find_station", format!("{q:?} among {ids:?}"), ids.contains(&q), || {
            let t = BuoyStations::from_stations(ids.iter().enumerate().map(|(i, x)| BuoyStation::new(x.clone(), i as f64, 0.0)).collect());
            ensure!(t.station_count == ids.len() && t.stations.len() == ids.len(), "from_stations of {} gives {}", ids.len(), t.station_count);
            let w = ids.iter().position(|x| *x == q);
            let r = t.find_station(&q);
            ensure!(r.as_ref().map(|x| x.latitude as usize) == w, "finds {r:?}, expected the one at {w:?}");
            let f: geojson_count::F = serde_json::from_value(serde_json::to_value(geojson_count::of(t)).unwrap()).unwrap();
            ensure!(f == ids, "the collection names {f:?}");
            Ok(())
        });
    }
}
fn w_join(cs: &[DapConstraint]) -> String { cs.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",") }
mod geojson_count {
    use surfrs::buoy_station::BuoyStations;
    pub type F = Vec<String>;
    pub fn of(t: BuoyStations) -> F {
        let v: geojson::FeatureCollection = t.into();
        v.features.iter().map(|f| f.properties.as_ref().unwrap()["id"].as_str().unwrap().to_string()).collect()
    }
}
