use crate::core::*;
use crate::ensure;
use chrono::{DateTime, Duration, NaiveDate, Utc};
use surfrs::location::Location;
use surfrs::solar::calculate_solar_events;

/// Altitude of the sun's centre, degrees (Astronomical Almanac, low precision: 0.01 degrees)
fn altitude(lat: f64, lon: f64, t: f64) -> f64 {
    let n = t / 86400.0 + 2440587.5 - 2451545.0;
    let g = (357.528 + 0.9856003 * n).to_radians();
    let l = (280.460 + 0.9856474 * n + 1.915 * g.sin() + 0.020 * (2.0 * g).sin()).to_radians();
    let e = (23.439 - 0.0000004 * n).to_radians();
    let (ra, dec) = ((e.cos() * l.sin()).atan2(l.cos()), (e.sin() * l.sin()).asin());
    let h = ((18.697374558 + 24.06570982441908 * n).rem_euclid(24.0) * 15.0 + lon).to_radians() - ra;
    (lat.to_radians().sin() * dec.sin() + lat.to_radians().cos() * dec.cos() * h.cos()).asin().to_degrees()
}

pub fn run(c: &mut Ctx) {
    c.rule = "places anywhere on earth, longitudes counted both ways, and some off it, days from 1980 to 2059, any time of the day; the sun's altitude from an independent almanac; non-trivial: a day with a sunrise and a sunset".into();
    for n in 0..c.n(6000, 200_000) {
        if c.over() { break; }
        let lat = match c.rng.below(5) { 0 => c.rng.fr(60.0, 90.0), 1 => c.rng.fr(-90.0, -60.0), _ => c.rng.fr(-66.0, 66.0) };
        let lon = if n % 11 == 0 { *c.rng.pick(&[0.0, 180.0, -180.0, 179.99, 180.01, 359.9]) } else { c.rng.fr(-180.0, 360.0) };
        let day = NaiveDate::from_ymd_opt(1980, 1, 1).unwrap() + Duration::days(c.rng.below(29_000) as i64);
        let at = c.rng.below(86_400) as i64;
        let date: DateTime<Utc> = day.and_hms_opt(0, 0, 0).unwrap().and_utc() + Duration::seconds(at);
        let east = if lon > 180.0 { lon - 360.0 } else { lon };
        let noon = (day.and_hms_opt(12, 0, 0).unwrap().and_utc().timestamp()) as f64 - east * 240.0;
        let hi = (-20..=20).map(|k| altitude(lat, east, noon + 60.0 * k as f64)).fold(-90.0, f64::max);
        let lo = |s: f64| (-20..=20).map(|k| altitude(lat, east, noon + s * 43_200.0 + 60.0 * k as f64)).fold(90.0, f64::min);
        let (lo1, lo2) = (lo(-1.0), lo(1.0));
        let rim = -5.0 / 6.0;
        let crosses = hi > rim + 0.6 && lo1.max(lo2) < rim - 0.6;
        let never = hi < rim - 0.6 || lo1.min(lo2) > rim + 0.6;
        c.case("day", format!("lat={lat} lon={lon} date={date}"), crosses, || {
            let place = Location::new(lat, lon, "x".into());
            let e = calculate_solar_events(&place, &date);
            if never { ensure!(e.is_none(), "the sun is between {:.2} and {hi:.2} degrees all day, but rises at {} and sets at {}", lo1.min(lo2), e.as_ref().unwrap().sunrise, e.as_ref().unwrap().sunset); }
            if crosses { ensure!(e.is_some(), "the sun is between {:.2} and {hi:.2} degrees, but neither rises nor sets", lo1.max(lo2)); }
            if let Some(e) = &e {
                let (a, b) = (e.sunrise.timestamp() as f64, e.sunset.timestamp() as f64);
                ensure!(a < b, "rises at {} and sets at {}", e.sunrise, e.sunset);
                ensure!(((a + b) / 2.0 - noon).abs() < 1320.0 && a > noon - 45_600.0 && b < noon + 45_600.0, "rises at {} and sets at {}, with local noon at {}", e.sunrise, e.sunset, DateTime::from_timestamp(noon as i64, 0).unwrap());
                for (w, t) in [("sunrise", a), ("sunset", b)] {
                    let h = altitude(lat, east, t);
                    ensure!((h - rim).abs() < 0.75, "at {w} ({}) the sun is at {h:.2} degrees", DateTime::from_timestamp(t as i64, 0).unwrap());
                }
            }
            // the same place and day, written another way
            let other = Location::new(lat, if lon > 180.0 { lon - 360.0 } else if lon < 0.0 && lon > -180.0 { lon + 360.0 } else { lon }, "y".into());
            let f = calculate_solar_events(&other, &(day.and_hms_opt(0, 0, 0).unwrap().and_utc()));
            let ok = match (&e, &f) { (None, None) => true, (Some(e), Some(f)) => (e.sunrise - f.sunrise).num_seconds().abs() <= 1 && (e.sunset - f.sunset).num_seconds().abs() <= 1, _ => !crosses && !never };
            ensure!(ok, "{e:?} or {f:?} for the same place and day");
            Ok(())
        });
        let off = match n % 4 { 0 => (lat, 361.0 + lon.abs() + 180.0), 1 => (lat, -180.5 - lon.abs()), 2 => (-90.5 - lat.abs(), east), _ => (f64::NAN, east) };
        c.case("off the map", format!("lat={} lon={}", off.0, off.1), false, || {
            ensure!(calculate_solar_events(&Location::new(off.0, off.1, "z".into()), &date).is_none(), "a place off the map has a sunrise");
            Ok(())
        });
    }
}
