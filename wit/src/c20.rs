use crate::core::*;
use crate::ensure;
use surfrs::tools::linspace::linspace;

pub fn run(c: &mut Ctx) {
    c.rule = "random ends (equal, reversed, huge, tiny) and counts 0..=400, read forwards, backwards and from both ends in random order, with and without skipping, f64 and f32; non-trivial: at least two numbers".into();
    for _ in 0..c.n(20000, 600_000) {
        if c.over() { break; }
        let n = match c.rng.below(4) { 0 => c.rng.below(4), 1 => c.rng.below(400), _ => c.rng.below(30) };
        let a = match c.rng.below(3) { 0 => c.rng.range(-50, 50) as f64, 1 => c.rng.fr(-1.0, 1.0), _ => c.rng.fr(-1e6, 1e6) };
        let b = match c.rng.below(4) { 0 => a, 1 => a + c.rng.range(0, 50) as f64, 2 => a - c.rng.f(), _ => c.rng.fr(-1e6, 1e6) };
        let want: Vec<f64> = (0..n).map(|k| if n > 1 { a + (b - a) * (k as f64 / (n - 1) as f64) } else { a }).collect();
        let sc = 1.0f64.max(a.abs()).max(b.abs());
        let ok = move |x: f64, y: f64, tol: f64| (x - y).abs() <= tol * sc;
        let mut order: Vec<bool> = (0..n + 3).map(|_| c.rng.chance(0.5)).collect();
        if c.rng.chance(0.2) { order.iter_mut().for_each(|x| *x = false); }
        let skips: Vec<usize> = (0..(n + 3).min(8)).map(|_| match c.rng.below(3) { 0 => c.rng.below(n + 2), _ => c.rng.below(4) }).collect();
        c.case("linspace", format!("linspace({a}, {b}, {n}), taken {}, skipping {skips:?}", order.iter().map(|f| if *f { 'f' } else { 'b' }).collect::<String>()), n > 1, || {
            let v: Vec<f64> = linspace(a, b, n).collect();
            ensure!(v.len() == n && v.iter().zip(&want).all(|(x, y)| ok(*x, *y, 1e-12)), "collected {v:?}");
            let mut it = linspace(a, b, n);
            let (mut lo, mut hi) = (0, n);
            for (i, f) in order.iter().enumerate() {
                ensure!(it.size_hint() == (hi - lo, Some(hi - lo)) && it.len() == hi - lo, "size_hint {:?} after {i} steps", it.size_hint());
                let x = if *f { it.next() } else { it.next_back() };
                if lo == hi { ensure!(x.is_none(), "step {i} past the end gave {x:?}"); continue; }
                let e = if *f { lo += 1; want[lo - 1] } else { hi -= 1; want[hi] };
                ensure!(x.is_some_and(|x| ok(x, e, 1e-12)), "step {i} gave {x:?}, expected {e}");
            }
            // the other ways to take numbers: skipping from either end, and the consuming ones
            let mut it = linspace(a, b, n);
            let (mut lo, mut hi) = (0, n);
            for (i, (f, skip)) in order.iter().zip(&skips).enumerate() {
                let x = if *f { it.nth(*skip) } else { it.nth_back(*skip) };
                if *skip >= hi - lo {
                    ensure!(x.is_none(), "skip {i} ({skip} of {} left) gave {x:?}", hi - lo);
                    lo = hi;
                } else {
                    let e = if *f { lo += skip + 1; want[lo - 1] } else { hi -= skip + 1; want[hi] };
                    ensure!(x.is_some_and(|x| ok(x, e, 1e-12)), "skip {i} ({skip}) gave {x:?}, expected {e}");
                }
                ensure!(it.size_hint() == (hi - lo, Some(hi - lo)) && it.len() == hi - lo, "size_hint {:?} after skip {i}, {} left", it.size_hint(), hi - lo);
                ensure!(it.clone().count() == hi - lo, "count {} of {} left", it.clone().count(), hi - lo);
                let rest: Vec<f64> = it.clone().rev().collect();
                ensure!(rest.len() == hi - lo && rest.iter().zip(want[lo..hi].iter().rev()).all(|(x, y)| ok(*x, *y, 1e-12)), "reversed {rest:?} after skip {i}");
                ensure!(match it.clone().last() { None => lo == hi, Some(x) => lo < hi && ok(x, want[hi - 1], 1e-12) }, "last {:?} after skip {i}", it.clone().last());
                let by: Vec<f64> = it.clone().step_by(skip + 1).collect();
                ensure!(by.len() == (hi - lo).div_ceil(skip + 1) && by.iter().zip(want[lo..hi].iter().step_by(skip + 1)).all(|(x, y)| ok(*x, *y, 1e-12)), "every {}th: {by:?} after skip {i}", skip + 1);
                let mut folded = Vec::new();
                it.clone().for_each(|x| folded.push(x));
                let mut back = Vec::new();
                it.clone().rev().for_each(|x| back.push(x));
                back.reverse();
                ensure!(folded == back && folded.len() == hi - lo, "{folded:?} forwards, {back:?} backwards after skip {i}");
            }
            let v: Vec<f32> = linspace(a as f32, b as f32, n).collect();
            ensure!(v.len() == n && v.iter().zip(&want).all(|(x, y)| ok(*x as f64, *y, 1e-5)), "f32: {v:?}");
            Ok(())
        });
    }
}
