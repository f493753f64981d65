use crate::core::*;
use crate::ensure;
use chrono::{DateTime, Duration, TimeZone, Utc};
use surfrs::swell::Swell;
use surfrs::tools::waves::track_partitions;
use surfrs::units::direction::Direction;
use surfrs::units::UnitSystem;

type Step = (DateTime<Utc>, Vec<Swell>);

fn deg(s: &Swell) -> Option<i32> { s.direction.value.as_ref().map(|d| d.degrees) }
fn per(s: &Swell) -> Option<f64> { s.period.value }
fn bend(a: i32, b: i32) -> i32 { let x = (a - b).rem_euclid(360); x.min(360 - x) }
// how far swell s is from swell p of the step before; None: too far to be the same
fn off(s: &Swell, p: &Swell, max: f64, dfp: f64) -> Option<f64> {
    let b = bend(deg(s)?, deg(p)?);
    if b > max as i32 { return None; }
    let o = b as f64 / max + ((per(s)? - per(p)?) / dfp).abs();
    if o <= 999.0 { Some(o) } else { None }
}
fn alike(a: &Swell, b: &Swell) -> bool {
    let mut a = a.clone(); let mut b = b.clone();
    a.partition = None; b.partition = None;
    format!("{a:?}") == format!("{b:?}")
}
fn check(x: &[Step], r: &[Vec<Swell>], max: f64, dist: f64) -> Result<(), String> {
    ensure!(r.len() == x.len(), "{} steps for {}", r.len(), x.len());
    for (i, (s, o)) in x.iter().zip(r).enumerate() {
        ensure!(o.len() == s.1.len(), "{} swells in step {i}, given {}", o.len(), s.1.len());
        for (j, (a, b)) in s.1.iter().zip(o).enumerate() {
            ensure!(alike(a, b), "swell {j} of step {i} became {b:?}");
            if x.len() < 2 { ensure!(a.partition == b.partition, "a single step was renumbered"); }
            else { ensure!(b.partition.is_some(), "swell {j} of step {i} has no id"); }
            if x.len() >= 2 && i == 0 { ensure!(b.partition == Some(a.partition.unwrap_or(999)), "swell {j} of the first step is {:?}, was {:?}", b.partition, a.partition); }
        }
    }
    if x.len() < 2 { return Ok(()); }
    let id: Vec<Vec<usize>> = r.iter().map(|s| s.iter().map(|p| p.partition.unwrap()).collect()).collect();
    for i in 1..x.len() {
        let dfp = (x[i].0 - x[i - 1].0).num_seconds() as f64 * 9.81 / (4.0 * std::f64::consts::PI * dist);
        let (now, before) = (&x[i].1, &x[i - 1].1);
        for a in 0..now.len() { for b in 0..a { ensure!(id[i][a] != id[i][b], "swells {b} and {a} of step {i} are both {}", id[i][a]); } }
        for j in 0..now.len() {
            let o: Vec<Option<f64>> = before.iter().map(|p| off(&now[j], p, max, dfp)).collect();
            let best = o.iter().flatten().cloned().fold(f64::INFINITY, f64::min);
            let close: Vec<usize> = (0..before.len()).filter(|&k| matches!(o[k], Some(d) if d <= best + 1e-9)).collect();
            let on = close.iter().any(|&k| id[i - 1][k] == id[i][j]);
            let unused = id[..i].iter().all(|s| !s.contains(&id[i][j]));
            ensure!(on || unused, "swell {j} of step {i} is {}: neither its closest of the step before ({:?} of {:?}) nor new", id[i][j], close, id[i - 1]);
            if best <= 998.0 {
                let taken = close.iter().any(|&k| (0..now.len()).any(|w| id[i][w] == id[i - 1][k] && (0..before.len()).any(|m| id[i - 1][m] == id[i - 1][k] && matches!(off(&now[w], &before[m], max, dfp), Some(d) if d <= best + 1e-9))));
                ensure!(taken, "swell {j} of step {i} is {} though its closest of the step before ({:?} of {:?}, at {best}) goes on as none at least as close", id[i][j], close, id[i - 1]);
            }
        }
    }
    Ok(())
}

fn swell(h: f64, p: f64, d: i32, id: Option<usize>) -> Swell { Swell::new(&UnitSystem::Metric, h, p, Direction::from_degrees(d), None, None, id) }

pub fn run(c: &mut Ctx) {
    let t0 = Utc.with_ymd_and_hms(2023, 2, 28, 20, 0, 0).unwrap();
    // a swell that turns across north, one that stays, one that comes and goes
    for s in 0..12 {
        let d0 = s * 30;
        c.case("turning", format!("from {d0}"), true, || {
            let x: Vec<Step> = (0..8).map(|i| (t0 + Duration::hours(i as i64), vec![swell(2.0, 14.0 + 0.001 * i as f64, (d0 + 8 * i) % 360, Some(0)), swell(1.0, 7.0, (d0 + 150 + 352 * i) % 360, Some(1))])).collect();
            let r = track_partitions(&x, 20.0, 1e6);
            for (i, s) in r.iter().enumerate() { ensure!(s[0].partition == Some(0) && s[1].partition == Some(1), "step {i}: {:?} {:?}", s[0].partition, s[1].partition); }
            check(&x, &r, 20.0, 1e6)
        });
    }
    for _ in 0..c.n(1500, 40000) {
        if c.over() { break; }
        let n = if c.rng.chance(0.004) { 300 } else { c.rng.below(7) };
        let max = *c.rng.pick(&[5.0, 20.0, 30.0, 30.9, 90.0, 180.0, 0.5]);
        let dist = *c.rng.pick(&[1e5, 1e6, 5e6]);
        let mode = c.rng.below(4);
        let lacking = c.rng.chance(0.1);
        let mut t = t0;
        let mut x: Vec<Step> = vec![];
        let mut last: Vec<(f64, i32)> = (0..c.rng.below(5)).map(|_| (c.rng.fr(4.0, 20.0), c.rng.range(0, 359) as i32)).collect();
        for i in 0..n {
            if i > 0 {
                t = t + Duration::seconds(*c.rng.pick(&[3600i64, 10800, 1, 60, 86400]));
                last = last.iter().map(|(p, d)| (p + c.rng.fr(-0.2, 0.2), (d + c.rng.range(-25, 25) as i32).rem_euclid(360))).collect();
                if mode != 0 {
                    if c.rng.chance(0.3) && !last.is_empty() { let k = c.rng.below(last.len()); last.remove(k); }
                    while c.rng.chance(0.4) { let k = c.rng.below(last.len() + 1); let v = if c.rng.chance(0.5) && !last.is_empty() { let v = last[0]; (v.0 + c.rng.fr(-1.0, 1.0), (v.1 + 3) % 360) } else { (c.rng.fr(4.0, 20.0), c.rng.range(0, 359) as i32) }; last.insert(k, v); }
                    if c.rng.chance(0.1) { last.clear(); }
                }
                if c.rng.chance(0.3) { last.reverse(); }
            }
            let k0 = c.rng.below(4);
            let rev = c.rng.chance(0.3);
            let m = last.len();
            let l: Vec<Swell> = last.iter().enumerate().map(|(j, (p, d))| {
                let id = if mode == 3 { if j == 0 { None } else { Some(j * 7 + k0) } } else if rev { Some(m - 1 - j + k0) } else { Some(j + k0) };
                let mut s = swell(1.0 + j as f64, *p, *d, id);
                if lacking && c.rng.chance(0.2) { if c.rng.chance(0.5) { s.period.value = None } else { s.direction.value = None } }
                s
            }).collect();
            x.push((t, l));
        }
        let full = x.iter().all(|s| s.1.iter().all(|p| p.period.value.is_some() && p.direction.value.is_some()));
        let desc = format!("max {max} dist {dist} steps {:?}", x.iter().map(|s| (s.0.timestamp() - t0.timestamp(), s.1.iter().map(|p| (p.period.value, deg(p), p.partition)).collect::<Vec<_>>())).collect::<Vec<_>>());
        c.case("tracked", desc, x.iter().filter(|s| !s.1.is_empty()).count() > 1, || {
            let r = track_partitions(&x, max, dist);
            if full { return check(&x, &r, max, dist); }
            // swells without a period or direction: no panic, same swells
            ensure!(r.len() == x.len() && r.iter().zip(&x).all(|(a, b)| a.len() == b.1.len() && a.iter().zip(&b.1).all(|(p, q)| alike(p, q))), "the swells changed");
            Ok(())
        });
    }
    // two reports of the same time
    c.case("same time", "two steps at the same time".into(), true, || {
        let x: Vec<Step> = vec![(t0, vec![swell(1.0, 8.0, 90, Some(0)), swell(1.0, 12.0, 200, Some(1))]), (t0, vec![swell(1.0, 12.0, 200, Some(0)), swell(1.0, 8.0, 90, Some(1))])];
        let r = track_partitions(&x, 30.0, 1e6);
        ensure!(r.len() == 2 && r[1].len() == 2 && r[1][0].partition != r[1][1].partition, "the ids {:?}", r[1].iter().map(|s| s.partition).collect::<Vec<_>>());
        Ok(())
    });
}
