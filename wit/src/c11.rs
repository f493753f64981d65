use crate::c10::cards;
use crate::core::*;
use crate::ensure;
use surfrs::units::direction::DirectionConvention;
use surfrs::units::*;

fn sector(d: i32) -> CardinalDirection {
    if !(0..=360).contains(&d) { return CardinalDirection::Invalid; }
    cards()[(((d as f64) / 22.5).round() as usize) % 16].0.clone()
}
fn circ(a: f64, b: f64) -> f64 { let x = (a - b).rem_euclid(360.0); x.min(360.0 - x) }
fn good(d: &Direction) -> bool { *d.cardinal_direction() == sector(d.degrees) }
pub fn run(c: &mut Ctx) {
    c.rule = "every whole degree 0..=360 and every pair of them (quick: stride 7), every sector, random integers, radians and convention inputs; non-trivial: all".into();
    c.exhaustive.push("every whole degree from -5 to 365 for from_degrees, flip, invert; every sector".into());
    for d in -5..=365 {
        c.case("sector", format!("CardinalDirection::from_degrees({d})"), true, || { ensure!(CardinalDirection::from_degrees(&d) == sector(d), "got {:?}, nearest sector is {:?}", CardinalDirection::from_degrees(&d), sector(d)); Ok(()) });
        if d < 0 { continue; }
        c.case("turn", format!("flip/invert of {d} degrees"), true, || {
            let a = Direction::from_degrees(d);
            ensure!(a.degrees == d && good(&a), "from_degrees: {a}");
            let i = a.invert();
            let mut f = a.clone();
            f.flip();
            for (n, x) in [("invert", &i), ("flip", &f)] {
                ensure!(circ(x.degrees as f64, d as f64) == 180.0 && (0..360).contains(&x.degrees) && good(x), "{n}: {x}");
            }
            ensure!(a.is_opposite(&i) && i.is_opposite(&a), "not opposite to its inverse");
            let mut g = i.clone();
            g.flip();
            ensure!(circ(g.degrees as f64, d as f64) == 0.0, "turned twice: {g}");
            let r = Direction::from_radians(a.radian() + 1e-9);
            ensure!(r.degrees == d && good(&r), "from_radians: {r}");
            Ok(())
        });
    }
    for (v, _) in cards() {
        c.case("to_degrees", format!("{v:?}.to_degrees()"), true, || {
            ensure!(sector(v.to_degrees()) == v && (0..360).contains(&v.to_degrees()), "{} is in {:?}", v.to_degrees(), sector(v.to_degrees()));
            let k = cards().iter().position(|x| x.0 == v).unwrap() as i32;
            let off = 2 * v.to_degrees() - 45 * k;
            ensure!(off.abs() <= 3 && (k % 2 == 1 || off == 0), "{v:?} is centred on {} degrees, its value is {}", 22.5 * k as f64, v.to_degrees());
            let d = Direction::from_cardinal_direction(v.clone());
            ensure!(*d.cardinal_direction() == v && d.degrees == v.to_degrees(), "from_cardinal_direction: {d}");
            Ok(())
        });
    }
    let st = if c.thorough { 1 } else { 7 };
    for a in (0..=360).step_by(st) { for b in 0..=360 {
        c.case("opposite", format!("{a} is_opposite {b}"), true, || {
            let (x, y) = (Direction::from_degrees(a), Direction::from_degrees(b));
            let e = circ(a as f64, b as f64) >= 170.0;
            ensure!(x.is_opposite(&y) == e && y.is_opposite(&x) == e, "apart {} degrees: {}", circ(a as f64, b as f64), x.is_opposite(&y));
            Ok(())
        });
    } }
    for _ in 0..c.n(3000, 100000) {
        if c.over() { break; }
        let d = if c.rng.chance(0.3) { c.rng.below(361) as f64 } else { c.rng.f() * 360.0 };
        c.case("convention", format!("normalize({d})"), true, || {
            let f = DirectionConvention::From.normalize(d);
            let t = DirectionConvention::Towards.normalize(d);
            let m = DirectionConvention::Met.normalize(d);
            ensure!(f == d, "From gives {f}");
            ensure!(circ(t, d + 180.0) < 1e-9 && (0.0..360.0).contains(&t), "Towards gives {t}");
            ensure!(circ(m, 270.0 - d) < 1e-9 && (0.0..360.0).contains(&m), "Met gives {m}");
            Ok(())
        });
        let n = c.rng.u() as i32;
        c.case("any degree", format!("Direction::from_degrees({n})"), true, || { let d = Direction::from_degrees(n); ensure!(d.degrees == n && good(&d), "{d}"); Ok(()) });
        let r = c.rng.fr(-10.0, 10.0);
        c.case("radians", format!("Direction::from_radians({r})"), true, || { let d = Direction::from_radians(r); ensure!(d.degrees == r.to_degrees() as i32 && good(&d), "{d}"); Ok(()) });
    }
}
