use crate::core::*;
use crate::ensure;
use surfrs::spectra::Spectra;
use surfrs::units::direction::DirectionConvention;

pub fn run(c: &mut Ctx) {
    c.rule = "spectra from 2x2 to 12x12 and of 50x72 (random, one spike, one hill, ramps, mostly zero), labels random, of partition() itself, out of range or negative, limit below, at and above the count; non-trivial: two labels or more in use".into();
    for _ in 0..c.n(1500, 60_000) {
        if c.over() { break; }
        let g = grid(&mut c.rng, 2, false);
        let s = Spectra::new(g.f.clone(), g.d.clone(), g.e.clone(), c.rng.pick(&[DirectionConvention::From, DirectionConvention::Met, DirectionConvention::Towards]).clone());
        let n = 1 + *c.rng.pick(&[0usize, 1, 2, 3, 5, 40, 700]);
        let own = c.rng.chance(0.4);
        let labels: (Vec<i32>, usize) = if own {
            match s.partition(*c.rng.pick(&[5usize, 20, 100]), if c.rng.chance(0.3) { Some(0.8) } else { None }) { Ok(p) => p, Err(_) => continue }
        } else {
            let wild = c.rng.chance(0.2);
            ((0..g.e.len()).map(|_| if wild { c.rng.range(-2, n as i64 + 2) as i32 } else { c.rng.below(n) as i32 }).collect(), n)
        };
        let limit = match c.rng.below(4) { 0 => Some(c.rng.below(labels.1 + 1)), 1 => Some(labels.1 + c.rng.below(3)), _ => None };
        let used = { let mut u = labels.0.clone(); u.sort(); u.dedup(); u.len() };
        c.case("split", format!("labels={labels:?} limit={limit:?} {}", g.desc), used > 1, || {
            let parts = Spectra::split_from_components(&s, &labels, limit);
            let m = limit.unwrap_or(labels.1);
            ensure!(parts.len() == m, "{} parts, expected {m}", parts.len());
            for (i, p) in parts.iter().enumerate() {
                ensure!(p.frequency == g.f && p.direction_raw() == g.d, "part {i} has other axes");
                ensure!(std::mem::discriminant(&p.dir_convention) == std::mem::discriminant(&s.dir_convention), "part {i} has another convention");
                ensure!(p.energy.len() == g.e.len(), "part {i} has {} cells", p.energy.len());
                for j in 0..g.e.len() {
                    let want = if labels.0[j] == i as i32 { g.e[j] } else { 0.0 };
                    ensure!(p.energy[j] == want, "part {i} cell {j}: {} expected {want} (label {})", p.energy[j], labels.0[j]);
                }
                let one = Spectra::from_component(&s, &labels, i as i32);
                ensure!(one.energy == p.energy, "from_component({i}) differs from the split");
            }
            if limit.is_none() && labels.0.iter().all(|l| *l >= 0 && (*l as usize) < labels.1) {
                for j in 0..g.e.len() {
                    let t: f64 = parts.iter().map(|p| p.energy[j]).sum();
                    ensure!(t == g.e[j], "cell {j}: parts sum to {t}, source {}", g.e[j]);
                }
            }
            Ok(())
        });
    }
}
