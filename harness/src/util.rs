//! Deterministic PRNG, failure recording, JSON output.
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::time::{Duration, Instant};

#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Self { Rng(seed ^ 0x9e3779b97f4a7c15) }
    pub fn u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^ (z >> 31)
    }
    /// uniform in 0..n (n > 0)
    pub fn below(&mut self, n: u64) -> u64 { self.u64() % n }
    pub fn usize(&mut self, n: usize) -> usize { self.below(n as u64) as usize }
    /// inclusive
    pub fn range(&mut self, a: i64, b: i64) -> i64 { a + self.below((b - a + 1) as u64) as i64 }
    pub fn chance(&mut self, num: u64, den: u64) -> bool { self.below(den) < num }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { &v[self.usize(v.len())] }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> { (0..n).map(|_| self.u64() as u8).collect() }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() { let j = self.usize(i + 1); v.swap(i, j); }
    }
}

/// What one case reports: property tag + what went wrong, and the history so far.
pub struct Case {
    pub rng: Rng,
    pub seed: u64,
    pub log: Vec<String>,
    pub fails: Vec<(String, String)>,
    pub stats: BTreeMap<String, u64>,
}
impl Case {
    pub fn new(seed: u64) -> Self { Case { rng: Rng::new(seed), seed, log: vec![], fails: vec![], stats: BTreeMap::new() } }
    pub fn op(&mut self, s: impl Into<String>) { if self.log.len() < 4000 { self.log.push(s.into()); } }
    pub fn hit(&mut self, s: &str) { *self.stats.entry(s.to_string()).or_insert(0) += 1; }
    pub fn fail(&mut self, tag: &str, s: impl Into<String>) { if self.fails.len() < 50 { self.fails.push((tag.to_string(), s.into())); } }
    pub fn check(&mut self, ok: bool, tag: &str, s: impl FnOnce() -> String) { if !ok { let m = s(); self.fail(tag, m); } }
}

pub fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub type Scenario = fn(&mut Case);

pub struct Outcome { pub cases: u64, pub stats: BTreeMap<String, u64>, pub fail: Option<(u64, String, String, Vec<String>)>, pub wall: f64 }

thread_local! { pub static LAST_PANIC: std::cell::RefCell<String> = std::cell::RefCell::new(String::new()); }

/// A panic inside the code under test is a failure of every tag in `panic_tags` of the scenario.
pub fn run_case(tag: &str, f: Scenario, seed: u64) -> Case {
    let mut c = Case::new(seed);
    let r = catch_unwind(AssertUnwindSafe(|| f(&mut c)));
    if r.is_err() {
        let m = LAST_PANIC.with(|p| p.borrow().clone());
        c.fail(tag, format!("panicked: {}", m));
    }
    c
}

/// a case that runs this long is reported as non-termination
const STUCK: Duration = Duration::from_secs(60);

pub fn explore(name: &str, tag: &str, f: Scenario, seed: u64, budget: Duration, max: u64) -> Outcome {
    let t0 = Instant::now();
    let threads = std::env::var("HARNESS_THREADS").ok().and_then(|s| s.parse().ok()).unwrap_or(8u64);
    let next = std::sync::atomic::AtomicU64::new(0);
    let stop = std::sync::atomic::AtomicBool::new(false);
    let res = std::sync::Mutex::new((BTreeMap::<String, u64>::new(), None::<(u64, String, String, Vec<String>)>, 0u64));
    let done = std::sync::atomic::AtomicU64::new(0);
    let running: Vec<std::sync::Mutex<Option<(u64, Instant)>>> = (0..threads).map(|_| std::sync::Mutex::new(None)).collect();
    std::thread::scope(|s| {
        s.spawn(|| loop {
            use std::sync::atomic::Ordering::SeqCst;
            std::thread::sleep(Duration::from_millis(50));
            if done.load(SeqCst) == threads { break; }
            for r in &running {
                if let Some((cs, t)) = *r.lock().unwrap() {
                    if t.elapsed() > STUCK {
                        println!("[{{\"scenario\":{},\"cases\":{},\"wall_s\":{:.3},\"stats\":{{}},\"fail\":{{\"case\":{},\"tag\":{},\"what\":\"the code under test did not terminate\",\"history\":[]}}}}]", esc(name), next.load(SeqCst), t0.elapsed().as_secs_f64(), cs, esc(tag));
                        std::process::exit(1);
                    }
                }
            }
        });
        for k in 0..threads as usize {
            let running = &running;
            let (stop, next, res, done) = (&stop, &next, &res, &done);
            std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(s, move || { loop {
                use std::sync::atomic::Ordering::SeqCst;
                if stop.load(SeqCst) { break; }
                let n = next.fetch_add(1, SeqCst);
                if n >= max || (n >= 8 && t0.elapsed() > budget) { break; }
                let cs = seed.wrapping_mul(1_000_003).wrapping_add(n);
                *running[k].lock().unwrap() = Some((cs, Instant::now()));
                let c = run_case(tag, f, cs);
                *running[k].lock().unwrap() = None;
                let mut r = res.lock().unwrap();
                r.2 += 1;
                for (k, v) in c.stats { *r.0.entry(k).or_insert(0) += v; }
                if let Some((t, m)) = c.fails.iter().find(|(t, _)| t == tag) {
                    if r.1.as_ref().map_or(true, |x| x.0 > cs) { r.1 = Some((cs, t.clone(), m.clone(), c.log.clone())); }
                    stop.store(true, SeqCst);
                }
            }
            done.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
            }).unwrap();
        }
    });
    let (stats, fail, cases) = res.into_inner().unwrap();
    Outcome { cases, stats, fail, wall: t0.elapsed().as_secs_f64() }
}
