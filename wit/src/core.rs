//! Search for a failing input on the real code: seeded cases judged by independent oracles.
use serde_json::json;
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut r = Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03);
        for _ in 0..8 { r.u(); }
        r
    }
    pub fn u(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize { (self.u() % n.max(1) as u64) as usize }
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 { lo + (self.u() % ((hi - lo + 1) as u64)) as i64 }
    pub fn f(&mut self) -> f64 { (self.u() >> 11) as f64 / (1u64 << 53) as f64 }
    pub fn fr(&mut self, lo: f64, hi: f64) -> f64 { lo + self.f() * (hi - lo) }
    pub fn chance(&mut self, p: f64) -> bool { self.f() < p }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { let i = self.below(v.len()); &v[i] }
}

struct Cur { desc: String, at: Option<Instant>, key: String }

pub struct Ctx {
    pub rng: Rng,
    pub seed: u64,
    pub thorough: bool,
    pub start: Instant,
    evals: u64,
    distinct: HashSet<u64>,
    samples: Vec<String>,
    fails: BTreeMap<String, (String, String, u64)>,
    cur: Arc<Mutex<Cur>>,
    pub rule: String,
    pub exhaustive: Vec<String>,
}
thread_local! { static PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) }; }

impl Ctx {
    pub fn new(seed: u64, thorough: bool) -> Self {
        std::panic::set_hook(Box::new(|i| {
            let s = i.to_string().replace('\n', " ");
            PANIC.with(|p| *p.borrow_mut() = s);
        }));
        let cur = Arc::new(Mutex::new(Cur { desc: String::new(), at: None, key: String::new() }));
        let c2 = cur.clone();
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_millis(500));
            let g = c2.lock().unwrap();
            if let Some(t) = g.at {
                if t.elapsed() > Duration::from_secs(30) {
                    println!("{}", json!({"fails": [{"key": format!("{}:no-return", g.key), "input": g.desc, "what": "the call did not return within 30 s"}], "evaluations": 1, "distinct_nontrivial": 1, "samples": [g.desc], "rule": "hang"}));
                    std::process::exit(0);
                }
            }
        });
        Ctx { rng: Rng::new(seed), seed, thorough, start: Instant::now(), evals: 0, distinct: HashSet::new(), samples: vec![], fails: BTreeMap::new(), cur, rule: String::new(), exhaustive: vec![] }
    }
    /// number of random cases for this tier
    pub fn n(&self, quick: usize, thorough: usize) -> usize { if self.thorough { thorough } else { quick } }
    pub fn over(&self) -> bool {
        self.fails.len() >= 6 || self.start.elapsed() > Duration::from_secs(if self.thorough { 600 } else { 150 })
    }
    /// One case. `key` names the kind of case (it identifies a finding), `desc` is the concrete input.
    pub fn case(&mut self, key: &str, desc: String, nontrivial: bool, f: impl FnOnce() -> Result<(), String>) {
        self.evals += 1;
        if nontrivial {
            let mut h = std::collections::hash_map::DefaultHasher::new();
            (key, &desc).hash(&mut h);
            self.distinct.insert(h.finish());
        }
        if self.samples.len() < 6 && (self.evals % 97 == 1) {
            self.samples.push(format!("{key}: {}", clip(&desc, 600)));
        }
        {
            let mut g = self.cur.lock().unwrap();
            g.desc = desc;
            g.key = key.to_string();
            g.at = Some(Instant::now());
        }
        let r = catch_unwind(AssertUnwindSafe(f));
        let desc = {
            let mut g = self.cur.lock().unwrap();
            g.at = None;
            std::mem::take(&mut g.desc)
        };
        let what = match r {
            Ok(Ok(())) => return,
            Ok(Err(m)) => m,
            Err(_) => format!("panic: {}", PANIC.with(|p| p.borrow().clone())),
        };
        let e = self.fails.entry(key.to_string()).or_insert((desc.clone(), what.clone(), 0));
        e.2 += 1;
        if desc.len() < e.0.len() {
            e.0 = desc;
            e.1 = what;
        }
    }
    pub fn finish(self) {
        let fails: Vec<_> = self.fails.iter().map(|(k, (d, w, n))| json!({"key": k, "input": d, "what": w, "times": n})).collect();
        println!("{}", json!({"fails": fails, "evaluations": self.evals, "distinct_nontrivial": self.distinct.len(), "samples": self.samples, "rule": self.rule, "exhaustive_parts": self.exhaustive}));
    }
}
pub fn clip(s: &str, n: usize) -> String {
    if s.len() <= n { s.to_string() } else { format!("{}…", s.chars().take(n).collect::<String>()) }
}
#[macro_export]
macro_rules! ensure {
    ($c:expr, $($t:tt)*) => { if !($c) { return Err(format!($($t)*)); } };
}
pub fn close(a: f64, b: f64, rel: f64) -> bool {
    if a.is_nan() || b.is_nan() { return a.is_nan() && b.is_nan(); }
    a == b || (a - b).abs() <= rel * (1.0f64).max(a.abs()).max(b.abs())
}

/// Random frequency grid (log spaced, even, or random, ascending), direction grid (radians), energies
pub struct Grid { pub f: Vec<f64>, pub d: Vec<f64>, pub e: Vec<f64>, pub desc: String }
impl Grid { pub fn text(&self) -> String { format!("frequency={:?} direction={:?} energy={:?}", self.f, self.d, self.e) }
    pub fn at(&self, k: usize, t: usize) -> f64 { self.e[k + t * self.f.len()] } }
pub fn grid(r: &mut Rng, min: usize, full_circle: bool) -> Grid {
    let mut nk = *r.pick(&[min, min + 1, 3, 5, 8, 12]).max(&min);
    let mut nth = *r.pick(&[min, min + 1, 3, 4, 8, 12]).max(&min);
    // now and then one of the size of a forecast's
    if r.chance(0.01) { (nk, nth) = (50, 72); }
    let ratio = if nk < 50 { 1.15f64 } else { 1.07 };
    let mut f: Vec<f64> = match r.below(3) {
        0 => (0..nk).map(|i| 0.035 * ratio.powi(i as i32)).collect(),
        1 => (0..nk).map(|i| 0.04 + 0.01 * i as f64).collect(),
        _ => (0..nk).map(|_| r.fr(0.03, 0.6)).collect(),
    };
    f.sort_by(|a, b| a.partial_cmp(b).unwrap());
    for i in 1..nk { if f[i] - f[i - 1] < 1e-4 { f[i] = f[i - 1] + 1e-3; } }
    let tau = std::f64::consts::TAU;
    let mut d: Vec<f64> = match r.below(if full_circle { 2 } else { 3 }) {
        0 => (0..nth).map(|i| i as f64 * tau / nth as f64).collect(),
        1 => (0..nth).map(|i| (i as f64 + 0.5) * tau / nth as f64).collect(),
        _ => (0..nth).map(|_| r.fr(0.0, tau - 0.05)).collect(),
    };
    d.sort_by(|a, b| a.partial_cmp(b).unwrap());
    for i in 1..nth { if d[i] - d[i - 1] < 1e-4 { d[i] = d[i - 1] + 1e-3; } }
    let kind = r.below(5);
    let spike = r.below(nk * nth);
    let (ck, ct) = (r.below(nk) as f64, r.below(nth) as f64);
    let e: Vec<f64> = (0..nk * nth).map(|i| match kind {
        0 => r.fr(0.0, 10.0),
        1 => if i == spike { 7.5 } else { 0.0 },
        2 => { let (k, t) = ((i % nk) as f64, (i / nk) as f64); 5.0 * (-((k - ck).powi(2) + (t - ct).powi(2)) / 3.0).exp() }
        3 => (i + 1) as f64,
        _ => if r.chance(0.3) { r.fr(0.0, 3.0) } else { 0.0 },
    }).collect();
    let desc = format!("frequency={f:?} direction={d:?} energy={e:?}");
    Grid { f, d, e, desc }
}
