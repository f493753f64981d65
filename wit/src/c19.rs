use crate::core::*;
use crate::ensure;
use surfrs::dimensional_data::DimensionalData;
use surfrs::swell::*;
use surfrs::units::{Direction, Unit, UnitSystem};

fn swell(p: Option<f64>, unit: Unit, d: Option<i32>, h: f64) -> Swell {
    let mut s = Swell::new(&UnitSystem::Metric, h, p.unwrap_or(1.0), Direction::from_degrees(d.unwrap_or(0)), None, None, None);
    s.period = DimensionalData { value: p, variable_name: "period".into(), unit };
    s.direction.value = d.map(Direction::from_degrees);
    s
}
pub fn run(c: &mut Ctx) {
    c.rule = "random lists of 0 to 9 (at times 300) components over few displayed periods (values that round to the same tenth, missing periods), directions 0..360 biased to the 170 and 190 degree limits and to missing ones; non-trivial: two components share a displayed period".into();
    for _ in 0..c.n(40000, 1_500_000) {
        if c.over() { break; }
        let n = if c.rng.chance(0.002) { 300 } else { c.rng.below(10) as usize };
        let base = c.rng.range(0, 360) as i32;
        let mut rows = Vec::new();
        for i in 0..n {
            let p = match c.rng.below(7) { 0 => None, 1 => Some(10.0), 2 => Some(10.04), 3 => Some(10.06), 4 => Some(8.0), 5 => Some(8.049), _ => Some(c.rng.range(40, 90) as f64 * 0.1) };
            let u = if c.rng.chance(0.1) { Unit::Unknown } else { Unit::Seconds };
            let d = match c.rng.below(6) {
                0 => None,
                1 => Some(c.rng.range(0, 360) as i32),
                2 => Some(base),
                _ => { let k = *c.rng.pick(&[-191, -190, -189, -180, -171, -170, -169, 169, 170, 171, 180, 189, 190, 191]); let x = base + k; Some(if x < 0 { x + 360 } else if x > 360 { x - 360 } else { x }) }
            };
            rows.push((p, u, d, 9.0 - i as f64 * 0.5));
        }
        let show: Vec<String> = rows.iter().map(|r| format!("{:?} {} {:?}", r.0, r.1.abbreviation(), r.2)).collect();
        let text: Vec<String> = rows.iter().map(|r| match r.0 { Some(v) => format!("{v:.1} {}", r.1.abbreviation()), None => "N/A".to_string() }).collect();
        let shared = (0..n).any(|i| (0..i).any(|j| text[i] == text[j]));
        c.case("mirror", format!("components (period unit direction): {}", show.join(", ")), shared, || {
            let comps: Vec<Swell> = rows.iter().map(|r| swell(r.0, r.1.clone(), r.2, r.3)).collect();
            let all = SwellSummary { summary: swell(Some(9.0), Unit::Seconds, Some(10), 5.0), components: comps };
            let want: Vec<usize> = (0..n).filter(|&i| {
                let j = (0..n).find(|&j| text[j] == text[i]).unwrap();
                match (rows[i].2, rows[j].2) { (Some(a), Some(b)) if i != j => { let x = (a - b).abs() % 360; x.min(360 - x) >= 170 } _ => false }
            }).collect();
            let mut got = all.probable_false_components();
            got.sort();
            ensure!(got == want, "flagged {got:?}, expected {want:?}");
            let kept = all.filtered_components();
            let keep: Vec<usize> = (0..n).filter(|i| !want.contains(i)).collect();
            ensure!(kept.len() == keep.len() && kept.iter().zip(&keep).all(|(s, &i)| s.wave_height.value == Some(rows[i].3) && s.period.value == rows[i].0 && s.direction.value.as_ref().map(|d| d.degrees) == rows[i].2), "kept {:?}, expected components {keep:?}", kept.iter().map(|s| s.wave_height.value).collect::<Vec<_>>());
            Ok(())
        });
    }
    for _ in 0..c.n(500, 20000) {
        if c.over() { break; }
        let (h, p, d) = (c.rng.fr(0.0, 20.0), c.rng.fr(1.0, 30.0), c.rng.range(0, 360) as i32);
        let (sd, en, k) = (if c.rng.chance(0.5) { Some(c.rng.fr(0.0, 50.0)) } else { None }, if c.rng.chance(0.5) { Some(c.rng.fr(0.0, 50.0)) } else { None }, if c.rng.chance(0.5) { Some(c.rng.below(9) as usize) } else { None });
        let sys = c.rng.below(3);
        c.case("new", format!("Swell::new(system {sys}, {h}, {p}, {d}, {sd:?}, {en:?}, {k:?})"), true, || {
            let (u, w) = match sys { 0 => (UnitSystem::Metric, "m"), 1 => (UnitSystem::English, "ft"), _ => (UnitSystem::Knots, Unit::Unknown.abbreviation()) };
            let s = Swell::new(&u, h, p, Direction::from_degrees(d), sd, en, k);
            ensure!(s.wave_height.value == Some(h) && s.wave_height.unit.abbreviation() == w, "wave height {:?}", s.wave_height);
            ensure!(s.period.value == Some(p) && s.period.unit.abbreviation() == "s", "period {:?}", s.period);
            ensure!(s.direction.value.as_ref().map(|x| x.degrees) == Some(d) && s.partition == k, "direction {:?} partition {:?}", s.direction, s.partition);
            ensure!(s.energy.as_ref().map(|x| (x.value, x.unit.abbreviation())) == en.map(|v| (Some(v), Unit::KiloJoules.abbreviation())), "energy {:?}", s.energy);
            ensure!(s.spectral_density.as_ref().map(|x| (x.value, x.unit.abbreviation())) == sd.map(|v| (Some(v), Unit::MetersSquaredPerHertz.abbreviation())), "density {:?}", s.spectral_density);
            Ok(())
        });
    }
}
