use crate::c09::units;
use crate::core::*;
use crate::ensure;
use surfrs::units::*;

pub fn cards() -> Vec<(CardinalDirection, &'static str)> {
    use CardinalDirection::*;
    vec![(North, "n"), (NorthNorthEast, "nne"), (NorthEast, "ne"), (EastNorthEast, "ene"), (East, "e"), (EastSouthEast, "ese"), (SouthEast, "se"), (SouthSouthEast, "sse"),
        (South, "s"), (SouthSouthWest, "ssw"), (SouthWest, "sw"), (WestSouthWest, "wsw"), (West, "w"), (WestNorthWest, "wnw"), (NorthWest, "nw"), (NorthNorthWest, "nnw")]
}
fn recase(c: &mut Ctx, s: &str) -> String {
    s.chars().map(|x| if c.rng.chance(0.5) { x.to_ascii_uppercase() } else { x.to_ascii_lowercase() }).collect()
}
pub fn run(c: &mut Ctx) {
    c.rule = "every unit's abbreviation and name, every cardinal direction and steepness (all of them), in random case and padding; random integers and random short texts as directions; non-trivial: text not empty".into();
    c.exhaustive.push("all units, cardinal directions and steepness values in their own spelling".into());
    for k in 0..c.n(60, 2000) {
        if c.over() { break; }
        for u in units() {
            for t in [u.abbreviation(), u.name()] {
                let s = if k == 0 { t.to_string() } else { format!("{}{}{}", [" ", "", "\t"][c.rng.below(3)], recase(c, t), ["", " ", "\r\n"][c.rng.below(3)]) };
                c.case("unit", format!("Unit::from({s:?})"), !t.is_empty(), || {
                    ensure!(Unit::from(s.as_str()) == u, "got {:?}, expected {u:?}", Unit::from(s.as_str()));
                    ensure!(u.to_string() == u.abbreviation(), "{u:?} displays as {u}");
                    Ok(())
                });
            }
        }
        for (d, t) in cards() {
            let s = if k == 0 { t.to_string() } else { recase(c, t) };
            c.case("cardinal", format!("{s:?}.parse::<CardinalDirection>()"), true, || {
                let g: Result<CardinalDirection, _> = s.parse();
                ensure!(matches!(&g, Ok(x) if *x == d), "got {:?}, expected {d:?}", g.ok());
                ensure!(d.to_string() == t, "{d:?} displays as {d}");
                let r: Direction = s.parse().map_err(|_| "not a Direction".to_string())?;
                ensure!(*r.cardinal_direction() == d && CardinalDirection::from_degrees(&r.degrees) == d, "Direction gives {r}");
                Ok(())
            });
        }
        use Steepness::*;
        for (v, t) in [(VerySteep, "VERY_STEEP"), (Steep, "STEEP"), (Average, "AVERAGE"), (Swell, "SWELL"), (NA, "NA")] {
            c.case("steepness", format!("{t:?}.parse::<Steepness>()"), true, || {
                let g: Result<Steepness, _> = t.parse();
                ensure!(matches!(&g, Ok(x) if *x == v), "got {:?}, expected {v:?}", g.ok());
                ensure!(v.to_string() == t && v.as_str() == t, "{v:?} displays as {v}");
                Ok(())
            });
        }
        let n = if c.rng.chance(0.7) { c.rng.range(-20, 400) } else { c.rng.u() as i32 as i64 } as i32;
        c.case("degrees", format!("{:?}.parse::<Direction>()", n.to_string()), true, || {
            let r: Direction = n.to_string().parse().map_err(|_| "not a Direction".to_string())?;
            ensure!(r.degrees == n && *r.cardinal_direction() == CardinalDirection::from_degrees(&n), "got {r}");
            Ok(())
        });
        let s: String = (0..c.rng.below(4)).map(|_| *c.rng.pick(&['n', 'e', 's', 'w', 'M', 'x', '-', '.', '1', ' ', '°'])).collect();
        let known = cards().iter().any(|x| x.1 == s.to_ascii_lowercase());
        c.case("nonsense", format!("{s:?}.parse::<Direction>()"), !s.is_empty(), || {
            let r: Result<Direction, _> = s.parse();
            ensure!(r.is_ok() == (known || s.parse::<i32>().is_ok()), "parses: {}", r.is_ok());
            ensure!(s.parse::<CardinalDirection>().is_ok() == known, "parses as a cardinal direction: {}", !known);
            Ok(())
        });
    }
}
