use crate::core::*;
use crate::ensure;
use chrono::{DateTime, TimeZone, Utc};
use surfrs::tools::date::*;

const H: i64 = 3600;
fn secs(d: &DateTime<Utc>) -> i64 { d.timestamp() }
fn whole(d: &DateTime<Utc>) -> bool { d.timestamp_subsec_nanos() == 0 }
fn fl(t: i64, step: i64) -> i64 { t.div_euclid(step) * step }
fn any(c: &mut Ctx) -> DateTime<Utc> {
    // around midnights, month, year and leap-day ends; before and after the epoch
    let y = c.rng.range(1890, 2110) as i32;
    let anchor = match c.rng.below(5) {
        0 => Utc.with_ymd_and_hms(y, 1, 1, 0, 0, 0).unwrap(),
        1 => Utc.with_ymd_and_hms(y, 3, 1, 0, 0, 0).unwrap(),
        2 => Utc.with_ymd_and_hms(y, c.rng.range(1, 12) as u32, 1, 0, 0, 0).unwrap(),
        3 => Utc.with_ymd_and_hms(y, c.rng.range(1, 12) as u32, c.rng.range(1, 28) as u32, 0, 0, 0).unwrap(),
        _ => Utc.timestamp_opt(c.rng.range(-2_000_000_000, 4_000_000_000), 0).unwrap(),
    };
    let off = match c.rng.below(4) { 0 => c.rng.range(-12, 36) * H, 1 => c.rng.range(-12, 36) * H - 1, 2 => c.rng.range(-12, 36) * H + 1, _ => c.rng.range(-100_000, 100_000) };
    let ns = if c.rng.chance(0.3) { c.rng.below(1_000_000_000) as u32 } else { 0 };
    Utc.timestamp_opt(secs(&anchor) + off, ns).unwrap()
}
pub fn run(c: &mut Ctx) {
    c.rule = "random instants 1890-2110 biased to midnights, month/year/leap-day ends and one second either side of every hour; all hours of a day x multipliers 1..=30; windows up to 20 days, empty and reversed; non-trivial: all".into();
    c.exhaustive.push("every hour of 2024-02-29 x multipliers 1..=30".into());
    for h in 0..24u32 { for m in 1..=30u32 { for (mi, s) in [(0, 0), (59, 59)] {
        let d = Utc.with_ymd_and_hms(2024, 2, 29, h, mi, s).unwrap();
        c.case("round", format!("round_to_nearest_multiple_hour({d}, {m})"), true, || {
            let e = Utc.with_ymd_and_hms(2024, 2, 29, h / m * m, 0, 0).unwrap();
            let r = round_to_nearest_multiple_hour(&d, m);
            ensure!(r == e, "got {r}, the hour at or before it is {e}");
            Ok(())
        });
    } } }
    for _ in 0..c.n(40000, 2_000_000) {
        if c.over() { break; }
        let d = any(c);
        let m = [1u32, 2, 3, 4, 6, 8, 12, 24][c.rng.below(8)];
        let t = secs(&d);
        c.case("round", format!("round_to_nearest_multiple_hour({d}, {m})"), true, || {
            let r = round_to_nearest_multiple_hour(&d, m);
            ensure!(whole(&r) && secs(&r) == fl(t, m as i64 * H), "got {r}");
            Ok(())
        });
        c.case("stations", format!("closest_gfs_model_stations_datetime({d})"), true, || {
            let r = closest_gfs_model_stations_datetime(&d);
            ensure!(whole(&r) && secs(&r) == fl(t - 6 * H, 6 * H), "got {r}");
            Ok(())
        });
        c.case("gridded", format!("closest_gfs_model_gridded_datetime({d})"), true, || {
            let r = closest_gfs_model_gridded_datetime(&d);
            ensure!(whole(&r) && secs(&r) == fl(t - 5 * H, 6 * H), "got {r}");
            Ok(())
        });
        c.case("hourly", format!("closest_hourly_model_datetime({d})"), true, || {
            let r = closest_hourly_model_datetime(&d);
            ensure!(whole(&r) && secs(&r) == fl(t - 2 * H, H), "got {r}");
            Ok(())
        });
        if c.rng.chance(0.2) {
            let len = match c.rng.below(4) { 0 => c.rng.range(-30, 30) * H, 1 => c.rng.range(0, 80) * 6 * H - c.rng.range(-1, 1), 2 => 0, _ => c.rng.range(-100_000, 1_700_000) };
            let e = d + chrono::Duration::seconds(len);
            c.case("list", format!("gfs_model_fmrc_datetimes(({d}, {e}))"), len > 0, || {
                let r = gfs_model_fmrc_datetimes((d, e));
                let mut w = vec![];
                let mut k = fl(t, 6 * H);
                while Utc.timestamp_opt(k, 0).unwrap() <= e { w.push(k); k += 6 * H; }
                ensure!(r.iter().all(whole) && r.iter().map(secs).collect::<Vec<_>>() == w, "got {} runs, expected {}; first {:?} last {:?}", r.len(), w.len(), r.first(), r.last());
                Ok(())
            });
        }
    }
}
