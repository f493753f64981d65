use crate::core::*;
use crate::ensure;
use surfrs::location::*;
use surfrs::units::UnitSystem;

fn lon(c: &mut Ctx) -> f64 {
    match c.rng.below(5) {
        0 => *c.rng.pick(&[-180.0, -90.0, -0.25, 0.0, 0.25, 90.0, 179.75, 180.0, 180.25, 270.0, 359.75]),
        1 => c.rng.range(-720, 1439) as f64 * 0.25,
        2 => c.rng.fr(-180.0, 180.0),
        _ => c.rng.fr(0.0, 359.9),
    }
}
fn lat(c: &mut Ctx) -> f64 {
    match c.rng.below(4) { 0 => *c.rng.pick(&[-90.0, -45.0, -0.25, 0.0, 0.25, 41.35, 89.75, 90.0]), 1 => c.rng.range(-360, 360) as f64 * 0.25, _ => c.rng.fr(-90.0, 90.0) }
}
fn place(la: f64, lo: f64) -> Location { Location::new(la, lo, String::new()) }
// the central angle between unit vectors
fn angle(a: (f64, f64), b: (f64, f64)) -> f64 {
    let v = |p: (f64, f64)| { let (la, lo) = (p.0.to_radians(), p.1.to_radians()); [la.cos() * lo.cos(), la.cos() * lo.sin(), la.sin()] };
    let (x, y) = (v(a), v(b));
    let cr = [x[1] * y[2] - x[2] * y[1], x[2] * y[0] - x[0] * y[2], x[0] * y[1] - x[1] * y[0]];
    (cr[0] * cr[0] + cr[1] * cr[1] + cr[2] * cr[2]).sqrt().atan2(x[0] * y[0] + x[1] * y[1] + x[2] * y[2])
}
pub fn run(c: &mut Ctx) {
    c.rule = "random places biased to poles, equator, the prime and 180 degree meridians, with longitudes written -180..180 and 0..360, near and antipodal pairs; boxes of every width on quarter degrees, across the prime and 180 degree meridians; non-trivial: places differ, box not empty".into();
    for _ in 0..c.n(30000, 1_000_000) {
        if c.over() { break; }
        let (la, lo) = (lat(c), lon(c));
        let (lb, ob) = match c.rng.below(6) {
            0 => (la, lo),
            1 => (-la, if lo >= 180.0 { lo - 180.0 } else { lo + 180.0 }),
            2 => ((la + c.rng.fr(-0.01, 0.01)).clamp(-90.0, 90.0), lo),
            _ => (lat(c), lon(c)),
        };
        c.case("distance", format!("distance ({la}, {lo}) to ({lb}, {ob})"), (la, lo) != (lb, ob), || {
            let (a, b) = (place(la, lo), place(lb, ob));
            let th = angle((la, lo), (lb, ob));
            for (u, r) in [(UnitSystem::Metric, 6371.0), (UnitSystem::English, 3956.0)] {
                let d = a.distance(&b, &u);
                ensure!((d - th * r).abs() <= 2e-6 * r, "got {d}, the great circle is {}", th * r);
                let e = b.distance(&a, &u);
                ensure!((d - e).abs() <= 1e-6 * r, "{d} one way, {e} back");
            }
            Ok(())
        });
        c.case("longitude", format!("longitude {lo}"), true, || {
            let p = place(la, lo);
            let n = if lo > 180.0 { lo - 360.0 } else { lo };
            let ab = if lo < 0.0 { lo + 360.0 } else { lo };
            ensure!(normalize_longitude(lo) == n && p.relative_longitude() == n, "normalized to {} / {}", normalize_longitude(lo), p.relative_longitude());
            ensure!(close(absolute_longitude(lo), ab, 1e-13) && close(p.absolute_longitude(), ab, 1e-13), "absolute {} / {}", absolute_longitude(lo), p.absolute_longitude());
            ensure!(normalize_latitude(la) == la && p.relative_latitude() == la, "latitude {la} became {}", p.relative_latitude());
            let al = p.absolute_latitude();
            ensure!((0.0..=180.0).contains(&al) && (la == -90.0 || close(place(al, lo).relative_latitude(), la, 1e-12)), "absolute latitude {al}");
            Ok(())
        });
        // boxes and points on quarter degrees, so that sums are exact
        let q = |c: &mut Ctx| c.rng.range(-720, 1439);
        let w = q(c);
        let wid = match c.rng.below(4) { 0 => c.rng.range(0, 40), 1 => *c.rng.pick(&[0, 1, 1439, 1438, 720]), _ => c.rng.range(0, 1439) };
        let mut e = w + wid;
        let full = c.rng.chance(0.05);
        let (w, wid) = if full { e = 720; (-720, 1440) } else { (w, wid) };
        if !full { if e >= 1440 { e -= 1440; } if c.rng.chance(0.3) && e > 720 { e -= 1440; } }
        if !full && e - w >= 1440 { continue; }
        let p = match c.rng.below(3) { 0 => w, 1 => e, _ => q(c) };
        let p = { let x = p + c.rng.range(-1, 1); if x < -720 { x + 1440 } else if x >= 1440 { x - 1440 } else { x } };
        let (s, n) = { let (a, b) = (c.rng.range(-360, 360), c.rng.range(-360, 360)); (a.min(b), a.max(b)) };
        let y = match c.rng.below(4) { 0 => s, 1 => n, 2 => (s + n) / 2, _ => c.rng.range(-360, 360) };
        let (bx, pt) = ((w as f64 * 0.25, s as f64 * 0.25, e as f64 * 0.25, n as f64 * 0.25), (y as f64 * 0.25, p as f64 * 0.25));
        c.case("bbox", format!("{pt:?} (lat, lon) within {bx:?} (west, south, east, north)"), wid > 0, || {
            let inside = (full || (p - w).rem_euclid(1440) <= wid) && s <= y && y <= n;
            let r = place(pt.0, pt.1).within_bbox(&bx);
            ensure!(r == inside, "got {r}");
            Ok(())
        });
    }
}
