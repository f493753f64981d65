use crate::core::*;
use crate::ensure;
use surfrs::spectra::Spectra;
use surfrs::units::direction::DirectionConvention;

pub fn run(c: &mut Ctx) {
    c.rule = "grids of 1 to 12 frequencies by 1 to 12 directions in every convention, pictures of 0 to 40 pixels a side, thresholds below, at, between and above the bins' periods or none, scalings from 0.3 to 3; each pixel against every bin drawn; non-trivial: at least one bin drawn and one pixel".into();
    for n in 0..c.n(600, 20_000) {
        if c.over() { break; }
        let g = grid(&mut c.rng, 1, false);
        let (f, d) = (g.f.clone(), g.d.clone());
        let conv = match c.rng.below(3) { 0 => DirectionConvention::From, 1 => DirectionConvention::Towards, _ => DirectionConvention::Met };
        let size = if n % 7 == 0 { c.rng.below(4) } else { c.rng.below(41) };
        let (nk, nth) = (f.len(), d.len());
        let bin = c.rng.below(nk);
        let thr = match c.rng.below(5) { 0 => None, 1 => Some(1.0 / f[bin]), 2 => Some(c.rng.fr(2.0, 30.0)), 3 => Some(0.5 / f[nk - 1]), _ => Some(1.5 / f[0]) };
        let exp = if c.rng.chance(0.4) { None } else { Some(c.rng.fr(0.3, 3.0)) };
        let ids: Vec<f64> = (0..nk * nth).map(|i| i as f64).collect();
        let energy = g.e.clone();
        let longest = f.iter().map(|x| 1.0 / x).fold(0.0, f64::max);
        let limit = thr.unwrap_or(longest);
        let e = exp.unwrap_or(1.0);
        let half = (size / 2) as f64;
        // bins drawn, with their place: north up, east to the right
        let dots: Vec<(usize, f64, f64)> = (0..nk * nth).filter(|b| 1.0 / f[b % nk] <= limit).map(|b| {
            let deg = d[b / nk].to_degrees();
            let from = match conv { DirectionConvention::From => deg, DirectionConvention::Towards => deg + 180.0, DirectionConvention::Met => 270.0 - deg };
            let r = half * ((1.0 / f[b % nk]) / limit).powf(e);
            (b, half + r * from.to_radians().sin(), half - r * from.to_radians().cos())
        }).collect();
        let what = format!("f={f:?} d={d:?} {conv:?} size={size} threshold={thr:?} scale={exp:?}");
        c.case("picture", what, size > 0 && !dots.is_empty(), || {
            let s = Spectra::new(f.clone(), d.clone(), energy.clone(), conv.clone());
            let map = s.compute_cartesian_projection_map(size, thr, exp);
            ensure!(map.size == size && map.indices.len() == size * size, "{} pixels of {}", map.indices.len(), map.size);
            for (p, i) in map.indices.iter().enumerate() {
                let (x, y) = ((p % size) as f64, (p / size) as f64);
                let d2 = |q: &(usize, f64, f64)| (q.1 - x).powi(2) + (q.2 - y).powi(2);
                let best = dots.iter().map(d2).fold(f64::INFINITY, f64::min);
                match i {
                    None => ensure!(dots.is_empty() || (x - half).powi(2) + (y - half).powi(2) > half * half, "pixel ({x},{y}) is empty with {} bins drawn", dots.len()),
                    Some(b) => {
                        let Some(q) = dots.iter().find(|q| q.0 == *b) else { return Err(format!("pixel ({x},{y}) shows bin {b}, which is not drawn")); };
                        ensure!(d2(q) <= best + 1e-7 * (1.0 + best), "pixel ({x},{y}) shows bin {b} at distance {} while one lies at {}", d2(q).sqrt(), best.sqrt());
                    }
                }
            }
            let want = |t: &[f64], v: &[f64]| v.len() == size * size && map.indices.iter().zip(v).all(|(i, v)| match i { Some(b) => *v == t[*b], None => v.is_nan() });
            let v = s.project_cartesian_with_map(&ids, &map);
            ensure!(want(&ids, &v), "projected {v:?} with map {:?}", map.indices);
            let v = s.project_cartesian(&energy, size, thr, exp);
            ensure!(want(&energy, &v), "projected {v:?} with map {:?}", map.indices);
            Ok(())
        });
    }
}
