use crate::core::*;
use crate::ensure;
use chrono::{TimeZone, Utc};
use gribberish::message::Message;
use gribberish::templates::product::tables::FixedSurfaceType;
use surfrs::data::gfs_wave_grib_point_data_record::GFSWaveGribPointDataRecord;
use surfrs::location::Location;
use surfrs::model::{GFSWaveModel, NOAAModel};

fn apart(a: f64, b: f64) -> f64 { let d = (a - b).rem_euclid(360.0); d.min(360.0 - d) }
fn msg(var: &str, lat: &[f64], lng: &[f64], values: Vec<f64>) -> Message {
    Message { date: Utc.timestamp_opt(1_700_000_000, 0).unwrap(), var: var.into(), surface: (FixedSurfaceType::GroundOrWater, None, None), unit: "m".into(), lat: lat.to_vec(), lng: lng.to_vec(), values }
}
pub fn run(c: &mut Ctx) {
    c.rule = "regular grids of 2 to 40 by 2 to 60 points, from north to south and the other way, global from 0 and from -180, regional in either way of writing a longitude, across the prime meridian and the date line; locations at points, halfway, on the edges, in between and outside, in either way of writing; records of up to 14 variables; non-trivial: locations on the grid".into();
    let model = GFSWaveModel::atlantic();
    for _ in 0..c.n(3000, 60_000) {
        if c.over() { break; }
        let (mut rows, mut cols) = (2 + c.rng.below(39), 2 + c.rng.below(59));
        if c.rng.chance(0.3) { rows = 2 + c.rng.below(3); cols = 2 + c.rng.below(3); }
        let kind = c.rng.below(6);
        let (west, dlng) = match kind {
            0 => (0.0, 360.0 / cols as f64),
            1 => (-180.0, 360.0 / (cols - 1) as f64),
            _ => { let w = c.rng.range(-360, 1436) as f64 * 0.25; let w = if w < -180.0 { w + 360.0 } else { w }; (w, *c.rng.pick(&[0.25, 0.16, 1.0, 0.1, 0.5])) }
        };
        let (dlat, down) = (*c.rng.pick(&[0.25, 0.16, 1.0, 0.1]), c.rng.chance(0.5));
        let south = c.rng.range(-90, 50) as f64;
        let mut lat: Vec<f64> = (0..rows).map(|i| south + i as f64 * dlat).collect();
        if down { lat.reverse(); }
        let neg = west < 0.0;
        // a longitude is written one way throughout: -180 to 180 or 0 to 360
        let lng: Vec<f64> = (0..cols).map(|j| { let x = west + j as f64 * dlng; if kind == 1 { if j == cols - 1 { 180.0 } else { x } } else if neg && x > 180.0 { x - 360.0 } else if x >= 360.0 { x - 360.0 } else { x } }).collect();
        let (at, at2) = (c.rng.f() * (rows - 1) as f64, c.rng.f() * (cols - 1) as f64);
        let how = c.rng.below(5);
        let (i, j) = match how { 0 => (at.round(), at2.round()), 1 => (at.round(), at2), 2 => (at, at2.round()), 3 => (if c.rng.chance(0.5) { 0.0 } else { (rows - 1) as f64 }, if c.rng.chance(0.5) { 0.0 } else { (cols - 1) as f64 }), _ => (at, at2) };
        let y = if i == i.floor() { lat[i as usize] } else { lat[0] + i * (lat[1] - lat[0]) };
        let mut x = if j == j.floor() { lng[j as usize] } else { west + j * dlng };
        if x >= 360.0 { x -= 360.0; }
        let flip = c.rng.chance(0.5);
        if flip { if x > 180.0 { x -= 360.0; } else if x < 0.0 { x += 360.0; } }
        let l = Location::new(y, x, "here".into());
        let values: Vec<f64> = (0..rows * cols).map(|k| ((k * 7919) % 1009) as f64 + k as f64 / 4096.0).collect();
        let d = format!("{rows}x{cols} from ({}, {}) by ({}, {dlng}) to ({}, {}), at ({y}, {x})", lat[0], lng[0], lat[1] - lat[0], lat[rows - 1], lng[cols - 1]);
        // written another way, an edge may round to just outside
        let edge = flip && (j == 0.0 || j == (cols - 1) as f64);
        let m = msg("HTSGW", &lat, &lng, values.clone());
        c.case("query_location_data", d.clone(), true, || {
            let r = model.query_location_data(&l, &m);
            let Ok(v) = r else { ensure!(edge, "a location on the grid is refused"); return Ok(()); };
            let k = values.iter().position(|q| *q == v);
            ensure!(matches!(k, Some(k) if (lat[k / cols] - y).abs() <= dlat / 2.0 + 1e-9 && apart(lng[k % cols], x) <= dlng / 2.0 + 1e-9), "reads point {k:?} at {:?}", k.map(|k| (lat[k / cols], lng[k % cols])));
            Ok(())
        });
        // the first and last column of a whole turn are one meridian
        let seam = kind == 1 && apart(x, 180.0) < 1e-9;
        if !seam { c.case("interp_location_data", d.clone(), true, || {
            let r = model.interp_location_data(&l, &m);
            let Ok(v) = r else { ensure!(edge, "a location on the grid is refused"); return Ok(()); };
            let (p, q) = ((i.floor() as usize).min(rows - 2), (j.floor() as usize).min(cols - 2));
            let (s, t) = (i - p as f64, j - q as f64);
            let f = |a: usize, b: usize| values[a * cols + b];
            let w = (f(p, q) * (1.0 - t) + f(p, q + 1) * t) * (1.0 - s) + (f(p + 1, q) * (1.0 - t) + f(p + 1, q + 1) * t) * s;
            ensure!((v - w).abs() <= 1e-6 * 1009.0, "interpolates to {v}, expected {w}");
            Ok(())
        }); }
        // outside
        if kind > 1 && (cols as f64) * dlng < 300.0 {
            let (oy, ox) = if c.rng.chance(0.5) { (y, lng[0] - 1.0 - c.rng.f() * 20.0) } else { (lat[0].min(lat[rows - 1]) - 0.1 - c.rng.f(), x) };
            let ox = if ox < -180.0 { ox + 360.0 } else { ox };
            if oy >= -90.0 {
                let o = Location::new(oy, ox, "out".into());
                c.case("outside the grid", format!("{d}, asked at ({oy}, {ox})"), false, || {
                    ensure!(model.query_location_data(&o, &m).is_err() && model.interp_location_data(&o, &m).is_err() && model.query_location_tolerance(&o, &0.5, &m).is_err(), "a location outside the grid is answered");
                    Ok(())
                });
            }
        }
        // within a tolerance
        let tol = *c.rng.pick(&[0.0, 0.1, 0.167, 0.3, 1.1, 5.0]);
        let gaps: Vec<f64> = values.iter().map(|v| if *v as usize % 5 == 0 { f64::NAN } else { *v }).collect();
        let g = msg("HTSGW", &lat, &lng, gaps.clone());
        c.case("query_location_tolerance", format!("{d}, within {tol}"), true, || {
            let r = model.query_location_tolerance(&l, &tol, &g);
            let Ok(v) = r else { ensure!(edge, "a location on the grid is refused"); return Ok(()); };
            let dist = |k: usize| (lat[k / cols] - y).abs().max(apart(lng[k % cols], x));
            let at: Vec<usize> = v.iter().map(|q| gaps.iter().position(|w| w == q).unwrap_or(usize::MAX)).collect();
            ensure!(at.windows(2).all(|w| w[0] < w[1]), "out of order: {at:?}");
            for k in &at { ensure!(*k != usize::MAX && dist(*k) <= tol + 1e-9, "takes point {k}, {} away", dist(*k)); }
            for k in 0..gaps.len() { ensure!(gaps[k].is_nan() || dist(k) > tol - 1e-9 || at.contains(&k), "leaves out point {k}, {} away", dist(k)); }
            Ok(())
        });
        // a record of a point
        let names = ["HTSGW", "PERPW", "DIRPW", "WIND", "WDIR", "SWELL_1", "SWPER_1", "SWDIR_1", "SWELL_2", "SWPER_2", "SWDIR_2", "WVHGT", "WVPER", "WVDIR"];
        let mut mean = std::collections::HashMap::new();
        let mut ms = vec![];
        for n in names {
            if c.rng.chance(0.12) { continue; }
            let (base, missing) = (c.rng.fr(0.2, 40.0), c.rng.chance(0.15));
            let vs: Vec<f64> = (0..rows * cols).map(|k| if missing || k % 6 == 5 { f64::NAN } else { base + (k % 3) as f64 }).collect();
            let near: Vec<f64> = (0..vs.len()).filter(|k| !vs[*k].is_nan() && (lat[k / cols] - y).abs() <= 0.7 && apart(lng[k % cols], x) <= 0.7).map(|k| vs[k]).collect();
            if (0..vs.len()).any(|k| ((lat[k / cols] - y).abs() - 0.7).abs() < 1e-6 || (apart(lng[k % cols], x) - 0.7).abs() < 1e-6) { continue; }
            let mut m = msg(n.split('_').next().unwrap(), &lat, &lng, vs);
            if let Some(k) = n.split('_').nth(1) { m.surface = (FixedSurfaceType::OrderedSequence, Some(k.parse().unwrap()), None); }
            ms.push(m);
            mean.insert(n, near.iter().sum::<f64>() / near.len() as f64);
        }
        if edge { continue; }
        c.case("from_messages", format!("{d}: {mean:?}"), true, || {
            let r = GFSWaveGribPointDataRecord::from_messages(&model, &ms, &l, 0.7);
            let need = ["HTSGW", "PERPW", "DIRPW"].iter().all(|n| mean.contains_key(n));
            let Ok(r) = r else { ensure!(!need, "no record though height, period and direction are there"); return Ok(()); };
            ensure!(need, "a record without height, period or direction");
            let same = |a: f64, b: f64| (a.is_nan() && b.is_nan()) || (a - b).abs() < 1e-9;
            ensure!(same(r.wave_summary.wave_height.get_value(), mean["HTSGW"]) && same(r.wave_summary.period.get_value(), mean["PERPW"]), "summary {:?}", r.wave_summary);
            ensure!(r.wave_summary.direction.value.as_ref().map(|x| x.degrees) == Some(mean["DIRPW"] as i32), "direction {:?}", r.wave_summary.direction);
            ensure!(match (r.wind_speed.value, mean.get("WIND")) { (Some(a), Some(b)) => same(a, *b), (None, None) => true, _ => false }, "wind {:?}", r.wind_speed);
            ensure!(match (&r.wind_direction.value, mean.get("WDIR")) { (Some(a), Some(b)) => a.degrees == *b as i32, (None, None) => true, _ => false }, "wind direction {:?}", r.wind_direction);
            let mut w: Vec<(f64, f64, i32)> = [["SWELL_1", "SWPER_1", "SWDIR_1"], ["SWELL_2", "SWPER_2", "SWDIR_2"], ["WVHGT", "WVPER", "WVDIR"]].iter().filter(|t| t.iter().all(|n| mean.get(n).map_or(false, |v| !v.is_nan()))).map(|t| (mean[t[0]], mean[t[1]], mean[t[2]] as i32)).collect();
            w.sort_by(|a, b| b.0.partial_cmp(&a.0).unwrap());
            ensure!(w.len() == r.swell_components.len() && w.iter().zip(&r.swell_components).all(|(a, s)| same(a.0, s.wave_height.get_value())), "swells {:?}, expected {w:?}", r.swell_components);
            for s in &r.swell_components { ensure!(w.iter().any(|a| same(a.0, s.wave_height.get_value()) && same(a.1, s.period.get_value()) && s.direction.value.as_ref().map(|x| x.degrees) == Some(a.2)), "swell {s:?}, expected one of {w:?}"); }
            Ok(())
        });
    }
}
