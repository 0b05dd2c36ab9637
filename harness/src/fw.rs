//! Case runner, verdicts, coverage bookkeeping and evidence output.
use std::collections::{BTreeMap, HashSet};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Clone)]
pub struct Rng(u64, u64);
pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E3779B97F4A7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}
impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(mix(seed) | 1, mix(seed ^ 0xABCDEF))
    }
    pub fn u64(&mut self) -> u64 {
        let mut x = self.0;
        let y = self.1;
        self.0 = y;
        x ^= x << 23;
        self.1 = x ^ y ^ (x >> 17) ^ (y >> 26);
        self.1.wrapping_add(y)
    }
    /// uniform in 0..n
    pub fn below(&mut self, n: usize) -> usize {
        (self.u64() >> 11) as usize % n.max(1)
    }
    /// uniform in a..=b
    pub fn range(&mut self, a: usize, b: usize) -> usize {
        a + self.below(b - a + 1)
    }
    pub fn f(&mut self) -> f64 {
        (self.u64() >> 11) as f64 / (1u64 << 53) as f64
    }
    pub fn uni(&mut self, a: f64, b: f64) -> f64 {
        a + (b - a) * self.f()
    }
    pub fn chance(&mut self, p: f64) -> bool {
        self.f() < p
    }
    pub fn bool(&mut self) -> bool {
        self.u64() & 1 == 1
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
    pub fn arr<const N: usize>(&mut self, a: f64, b: f64) -> [f64; N] {
        let mut o = [0.; N];
        for x in o.iter_mut() {
            *x = self.uni(a, b);
        }
        o
    }
    /// finite but wildly scaled value
    pub fn wild(&mut self) -> f64 {
        match self.below(12) {
            0 => 0.0,
            1 => -0.0,
            2 => f64::MIN_POSITIVE / 2.0,
            3 => f64::MAX,
            4 => f64::MIN,
            5 => 1.0,
            6 => -1.0,
            7 => self.uni(-1e-12, 1e-12),
            8 => self.uni(-1e9, 1e9),
            _ => self.uni(-100., 100.),
        }
    }
    pub fn wild_arr<const N: usize>(&mut self) -> [f64; N] {
        let mut o = [0.; N];
        for x in o.iter_mut() {
            *x = self.wild();
        }
        o
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.below(i + 1);
            v.swap(i, j);
        }
    }
}

/// Why a case did not hold.
#[derive(Debug, Clone)]
pub enum Fail {
    /// Wrong data or a forbidden event was observed: independent of timing.
    Violation(String),
    /// The observation could also be caused by a stalled machine: the case is repeated, and only
    /// a case that fails every time counts.
    Suspect(String),
    /// The harness itself could not set up the case (port in use, no file, ...).
    Harness(String),
}
pub type Res<T> = Result<T, Fail>;
pub fn viol<T>(s: impl Into<String>) -> Res<T> {
    Err(Fail::Violation(s.into()))
}
pub fn suspect<T>(s: impl Into<String>) -> Res<T> {
    Err(Fail::Suspect(s.into()))
}
pub fn harness<T>(s: impl Into<String>) -> Res<T> {
    Err(Fail::Harness(s.into()))
}
#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !($c) { return Err($crate::fw::Fail::Violation(format!($($a)*))); } };
}
#[macro_export]
macro_rules! ensure_t {
    ($c:expr, $($a:tt)*) => { if !($c) { return Err($crate::fw::Fail::Suspect(format!($($a)*))); } };
}

#[derive(Default)]
pub struct Cov {
    pub evals: u64,
    pub events: u64,
    pub labels: BTreeMap<String, u64>,
    pub sigs: HashSet<u64>,
    pub samples: Vec<String>,
}
impl Cov {
    pub fn merge(&mut self, o: Cov) {
        self.evals += o.evals;
        self.events += o.events;
        for (k, v) in o.labels {
            *self.labels.entry(k).or_insert(0) += v;
        }
        // bounded memory: beyond this the count of distinct inputs is a lower bound
        if self.sigs.len() < 20_000_000 {
            self.sigs.extend(o.sigs);
        }
        if self.samples.len() < 6 {
            self.samples.extend(o.samples);
        }
    }
}

pub struct Ctx {
    pub rng: Rng,
    pub ip: String,
    pub idx: usize,
    pub thorough: bool,
    /// other workloads depend on the calls of this one
    pub nested: bool,
    pub cov: Cov,
}
impl Ctx {
    /// one oracle evaluation
    pub fn eval(&mut self) {
        self.cov.evals += 1;
    }
    pub fn evals(&mut self, n: usize) {
        self.cov.evals += n as u64;
    }
    /// observed events (wire messages, callbacks, calls)
    pub fn events(&mut self, n: usize) {
        self.cov.events += n as u64;
    }
    pub fn hit(&mut self, l: &str) {
        *self.cov.labels.entry(l.to_string()).or_insert(0) += 1;
    }
    pub fn sig(&mut self, s: impl std::hash::Hash) {
        use std::hash::Hasher;
        let mut h = std::collections::hash_map::DefaultHasher::new();
        s.hash(&mut h);
        self.cov.sigs.insert(h.finish());
    }
    pub fn sample(&mut self, s: impl Into<String>) {
        if self.cov.samples.len() < 2 {
            self.cov.samples.push(s.into());
        }
    }
}

pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub level: &'static str,
    /// number of enumerated cases which every run executes
    pub systematic: usize,
    /// cases run in parallel
    pub workers: usize,
    pub quick_s: f64,
    pub thorough_s: f64,
    pub max_cases_quick: usize,
    pub assumptions: &'static [&'static str],
    pub case: fn(&mut Ctx) -> Res<()>,
}

fn case_ip(id: &str, idx: usize, attempt: usize) -> String {
    let p: usize = id[1..].parse().unwrap_or(0);
    let a = 10 + p * 3 + attempt % 3;
    let i = idx % 60000;
    format!("127.{}.{}.{}", a, 1 + i / 240, 1 + i % 240)
}

pub fn case_seed(seed: u64, id: &str, idx: usize) -> u64 {
    let mut h = mix(seed);
    for b in id.bytes() {
        h = mix(h ^ b as u64);
    }
    mix(h ^ (idx as u64).wrapping_mul(0x1000193))
}

fn run_case(p: &Prop, seed: u64, idx: usize, attempt: usize, thorough: bool) -> (Res<()>, Cov) {
    let mut ctx = Ctx {
        rng: Rng::new(case_seed(seed, p.id, idx)),
        ip: case_ip(p.id, idx, attempt),
        idx,
        thorough,
        // no long delays in shortened experiments
        nested: std::env::var("VERIF_SCALE").is_ok(),
        cov: Cov::default(),
    };
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (p.case)(&mut ctx)));
    let r = match r {
        Ok(r) => r,
        Err(e) => {
            let m = panic_text(&e);
            if m.contains("spawn") || m.contains("memory") || m.contains("Too many open files") {
                Err(Fail::Harness(format!("harness panic: {}", m)))
            } else {
                // the trace has no sense for the oracle (it does not happen if the library behaves)
                Err(Fail::Suspect(format!("the behaviour of the client cannot be interpreted: {}", m)))
            }
        }
    };
    (r, ctx.cov)
}

pub fn panic_text(e: &Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else {
        "?".into()
    }
}

/// Runs a case until its verdict is settled: `Suspect` needs three failures in a row.
fn settle(p: &Prop, seed: u64, idx: usize, thorough: bool, inconclusive: &AtomicUsize) -> (Res<()>, Cov) {
    let mut last = String::new();
    for attempt in 0..3 {
        let (r, cov) = run_case(p, seed, idx, attempt, thorough);
        match r {
            Ok(()) => {
                if attempt > 0 {
                    inconclusive.fetch_add(1, Ordering::Relaxed);
                    if std::env::var("VERIF_DEBUG").is_ok() {
                        eprintln!("inconclusive case {}: {}", idx, last);
                    }
                }
                return (Ok(()), cov);
            }
            Err(Fail::Violation(m)) => return (Err(Fail::Violation(m)), cov),
            Err(Fail::Suspect(m)) => {
                last = m;
                if attempt == 2 {
                    return (Err(Fail::Violation(format!("(3 of 3 repetitions) {}", last))), cov);
                }
            }
            Err(Fail::Harness(m)) => {
                last = m.clone();
                if attempt == 2 {
                    return (Err(Fail::Harness(m)), cov);
                }
                std::thread::sleep(Duration::from_millis(50));
            }
        }
    }
    unreachable!()
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn run(p: &Prop, seed: u64, tier: &str, only: Option<usize>, evidence_dir: &str) -> i32 {
    let start = Instant::now();
    let thorough = tier == "thorough";
    if let Some(idx) = only {
        let inc = AtomicUsize::new(0);
        let (r, cov) = settle(p, seed, idx, thorough, &inc);
        println!("replay of case {}: {:?}; {} evaluations, {} events, labels {:?}", idx, r, cov.evals, cov.events, cov.labels);
        return match r {
            Ok(()) => 0,
            Err(Fail::Violation(_)) => {
                println!("VIOLATION property={} replay=case {} seed {}", p.id, idx, seed);
                1
            }
            _ => 2,
        };
    }
    // VERIF_SCALE shortens or lengthens a run (used for experiments, not by the registered commands)
    let scale = std::env::var("VERIF_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0f64);
    let budget = scale * if thorough { p.thorough_s } else { p.quick_s };
    let max_cases = (scale * p.max_cases_quick as f64) as usize;
    let next = AtomicUsize::new(0);
    let stop = AtomicBool::new(false);
    let inconclusive = AtomicUsize::new(0);
    let harness_errs: Mutex<Vec<String>> = Mutex::new(vec![]);
    let found: Mutex<Vec<(usize, String)>> = Mutex::new(vec![]);
    let cov: Mutex<Cov> = Mutex::new(Cov::default());
    let done = AtomicUsize::new(0);
    std::thread::scope(|s| {
        for _ in 0..p.workers {
            s.spawn(|| loop {
                if stop.load(Ordering::Relaxed) {
                    return;
                }
                let idx = next.fetch_add(1, Ordering::Relaxed);
                let el = start.elapsed().as_secs_f64();
                if idx >= p.systematic && (el > budget || (!thorough && idx >= max_cases)) {
                    return;
                }
                // never exceed the time a check is given, even on a very slow machine
                if el > 700.0 {
                    return;
                }
                let (r, c) = settle(p, seed, idx, thorough, &inconclusive);
                cov.lock().unwrap().merge(c);
                done.fetch_add(1, Ordering::Relaxed);
                match r {
                    Ok(()) => {}
                    Err(Fail::Violation(m)) => {
                        found.lock().unwrap().push((idx, m));
                        stop.store(true, Ordering::Relaxed);
                        return;
                    }
                    Err(Fail::Harness(m)) | Err(Fail::Suspect(m)) => {
                        let mut h = harness_errs.lock().unwrap();
                        h.push(format!("case {}: {}", idx, m));
                        if h.len() > 20 {
                            stop.store(true, Ordering::Relaxed);
                        }
                    }
                }
            });
        }
    });
    let cov = cov.into_inner().unwrap();
    let mut found = found.into_inner().unwrap();
    found.sort();
    let herr = harness_errs.into_inner().unwrap();
    let wall = start.elapsed().as_secs_f64();
    let labels: Vec<String> = cov.labels.iter().map(|(k, v)| format!("{}: {}", js(k), v)).collect();
    let samples: Vec<String> = cov.samples.iter().take(6).map(|s| js(s)).collect();
    let assum: Vec<String> = p.assumptions.iter().map(|s| js(s)).collect();
    let vio: Vec<String> = found.iter().map(|(i, m)| format!("{{\"case\": {}, \"what\": {}}}", i, js(m))).collect();
    let ev = format!(
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": {},\n \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n  \"cases\": {},\n  \"events_observed\": {},\n  \"observed\": {{{}}},\n  \"inconclusive_repeated\": {},\n  \"harness_errors\": {},\n  \"samples\": [{}]\n }},\n \"wall_s\": {:.3},\n \"violations\": {},\n \"violation_details\": [{}],\n \"assumptions\": [{}]\n}}\n",
        js(p.id), js(tier), seed, js(p.level), cov.evals, cov.sigs.len(), js(p.rule), done.load(Ordering::Relaxed), cov.events, labels.join(", "),
        inconclusive.load(Ordering::Relaxed), herr.len(), samples.join(", "), wall, found.len(), vio.join(", "), assum.join(", ")
    );
    let _ = std::fs::create_dir_all(evidence_dir);
    let _ = std::fs::write(format!("{}/{}.json", evidence_dir, p.id), ev);
    println!(
        "{} {}: {} cases, {} evaluations, {} distinct, {} events, {} inconclusive repeats, {} harness errors, {:.1} s",
        p.id, tier, done.load(Ordering::Relaxed), cov.evals, cov.sigs.len(), cov.events, inconclusive.load(Ordering::Relaxed), herr.len(), wall
    );
    if let Some((idx, m)) = found.first() {
        let dir = format!("{}/replay", evidence_dir);
        let _ = std::fs::create_dir_all(&dir);
        let path = format!("{}/{}-{}-{}.txt", dir, p.id, seed, idx);
        let _ = std::fs::write(
            &path,
            format!("property {}\nseed {}\ncase {}\nreplay: VERIF_SEED={} /verif/check.sh {} {} {}\n\n{}\n", p.id, seed, idx, seed, p.id, tier, idx, m),
        );
        println!("case {}: {}", idx, m);
        println!("VIOLATION property={} replay={}", p.id, path);
        return 1;
    }
    for h in herr.iter().take(5) {
        eprintln!("harness error: {}", h);
    }
    let n = done.load(Ordering::Relaxed);
    if cov.evals == 0 || cov.sigs.is_empty() || herr.len() * 5 > n {
        eprintln!("inconclusive: {} evaluations, {} of {} cases could not be run", cov.evals, herr.len(), n);
        return 2;
    }
    0
}
