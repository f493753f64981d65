use crate::core::*;
use crate::ensure;
use chrono::{Datelike, Duration, TimeZone, Timelike, Utc};
use surfrs::model::*;

fn outputs(m: &ModelTimeOutputResolution, n: usize) -> Vec<usize> {
    let mut v = vec![0usize];
    while v.len() < n {
        let h = *v.last().unwrap();
        v.push(match m {
            ModelTimeOutputResolution::Hourly => h + 1,
            ModelTimeOutputResolution::ThreeHourly => h + 3,
            ModelTimeOutputResolution::HybridHourlyThreeHourly(c) => if h < *c { h + 1 } else { h + 3 },
            ModelTimeOutputResolution::HybridThreeHourlySixHourly(c) => if h < *c { h + 3 } else { h + 6 },
        });
    }
    v
}
pub fn run(c: &mut Ctx) {
    let mut ms = vec![ModelTimeOutputResolution::Hourly, ModelTimeOutputResolution::ThreeHourly];
    for k in [0, 1, 2, 3, 5, 24, 120, 121, 384] { ms.push(ModelTimeOutputResolution::HybridHourlyThreeHourly(k)); }
    for k in [0, 3, 6, 9, 24, 240, 243, 384] { ms.push(ModelTimeOutputResolution::HybridThreeHourlySixHourly(k)); }
    ms.push(GFSWaveModel::atlantic().time_resolution());
    ms.push(GEFSWaveModel::global_25_mean().time_resolution());
    ms.push(NWPSModel::boston().time_resolution());
    for m in &ms {
        let v = outputs(m, 420);
        for i in 0..400usize {
            c.case("hour of index", format!("{m:?}.hour_for_index({i})"), true, || { ensure!(m.hour_for_index(i) == v[i], "{} instead of {}", m.hour_for_index(i), v[i]); Ok(()) });
            let w = v.iter().rposition(|h| *h <= i).unwrap();
            c.case("index of hour", format!("{m:?}.index_for_hour({i})"), true, || { ensure!(m.index_for_hour(i) == w, "{} instead of {w}", m.index_for_hour(i)); Ok(()) });
        }
        for _ in 0..c.n(40, 400) {
            let (a, b) = (c.rng.below(390), c.rng.below(390));
            c.case("ranges", format!("{m:?} from {a} to {b}"), a <= b, || {
                let w: Vec<usize> = if a <= b { v[a..=b].to_vec() } else { vec![] };
                ensure!(m.hours_for_index_range(a, b) == w, "hours_for_index_range {:?}", m.hours_for_index_range(a, b));
                let w: Vec<usize> = (a..=b).map(|h| v.iter().rposition(|x| *x <= h).unwrap()).collect();
                ensure!(m.indexes_for_hour_range(a, b) == w, "indexes_for_hour_range {:?}", m.indexes_for_hour_range(a, b));
                if a <= b {
                    let first = *v.iter().filter(|h| **h <= a).last().unwrap();
                    let w: Vec<usize> = v.iter().copied().filter(|h| *h >= first && *h <= b).collect();
                    ensure!(m.hours_for_hour_range(a, b) == w, "hours_for_hour_range {:?}", m.hours_for_hour_range(a, b));
                }
                Ok(())
            });
        }
    }
    for (t, s) in [("aws", 0), ("amazon", 0), ("noddaws", 0), ("gcp", 1), ("gcs", 1), ("google", 1), ("noddgcp", 1), ("nomads", 2), ("noaa", 2), ("", 3), ("ftp", 3), ("azure", 3)] {
        for t in [t.to_string(), t.to_uppercase(), format!("the {t} bucket")] {
            c.case("data source", format!("ModelDataSource::try_from({t:?})"), s < 3, || {
                let r = ModelDataSource::try_from(t.as_str());
                let ok = match (&r, s) { (Ok(ModelDataSource::NODDAWS), 0) | (Ok(ModelDataSource::NODDGCP), 1) | (Ok(ModelDataSource::NOMADS), 2) | (Err(_), 3) => true, _ => false };
                ensure!(ok, "{r:?}");
                Ok(())
            });
        }
    }
    let gfs = [GFSWaveModel::atlantic(), GFSWaveModel::west_coast(), GFSWaveModel::east_pacific(), GFSWaveModel::global_16(), GFSWaveModel::global_25()];
    let gefs = [GEFSWaveModel::global_25_mean(), GEFSWaveModel::global_25_spread()];
    let nwps = NWPSModel::boston();
    for _ in 0..c.n(2000, 40000) {
        let t = Utc.with_ymd_and_hms(1999 + c.rng.below(40) as i32, 1 + c.rng.below(12) as u32, 1 + c.rng.below(28) as u32, c.rng.below(24) as u32, c.rng.below(60) as u32, c.rng.below(60) as u32).unwrap();
        let h = c.rng.below(400);
        let f = t - Duration::hours(5);
        let run = f.date_naive().and_hms_opt(f.hour() / 6 * 6, 0, 0).unwrap().and_utc();
        let (ymd, hh) = (format!("{}{:02}{:02}", run.year(), run.month(), run.day()), format!("{:02}", run.hour()));
        for (s, a, b) in [(ModelDataSource::NODDAWS, "https://noaa-gfs-bdp-pds.s3.amazonaws.com", "https://noaa-gefs-pds.s3.amazonaws.com"), (ModelDataSource::NOMADS, "https://nomads.ncep.noaa.gov/pub/data/nccf/com/gfs/prod", "https://nomads.ncep.noaa.gov/pub/data/nccf/com/gefs/prod"), (ModelDataSource::NODDGCP, "https://storage.googleapis.com/global-forecast-system", "")] {
            c.case("address", format!("addresses for {t}, hour {h}, {s:?}"), true, || {
                let mut p: Vec<(String, String, String)> = vec![];
                for m in &gfs { p.push((m.create_url(&s, h, Some(t)), m.create_idx_url(&s, h, Some(t)), format!("{a}/gfs.{ymd}/{hh}/wave/gridded/gfswave.t{hh}z.{}.f{h:03}.grib2", m.id))); }
                for m in &gefs { p.push((m.create_url(&s, h, Some(t)), m.create_idx_url(&s, h, Some(t)), format!("{b}/gefs.{ymd}/{hh}/wave/gridded/gefs.wave.t{hh}z.{}.f{h:03}.grib2", m.id))); }
                p.push((nwps.create_url(&s, h, Some(t)), nwps.create_idx_url(&s, h, Some(t)), format!("https://nomads.ncep.noaa.gov/pub/data/nccf/com/nwps/prod/er.{ymd}/box/{hh}/CG1/box_nwps_CG1_{ymd}_{hh}00.grib2")));
                for (u, i, w) in p { ensure!(u == w, "{u} instead of {w}"); ensure!(i == format!("{w}.idx"), "index {i}"); }
                Ok(())
            });
        }
    }
    c.rule = "output hours are counted step by step, run dates from the calendar, addresses as NOAA publishes them".into();
}
