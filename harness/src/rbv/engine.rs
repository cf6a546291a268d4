//! The search engine shared by all checks: seeded proptest generation over many threads, shrinking, crash attribution,
//! evidence, replay. It knows nothing about rustBit.

use proptest::strategy::{BoxedStrategy, Strategy, ValueTree};
use proptest::test_runner::{Config, RngAlgorithm, TestRng, TestRunner};
use serde::{de::DeserializeOwned, Serialize};
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

/// What a case reports about itself, besides its verdict.
#[derive(Default)]
pub struct Obs {
    pub labels: Vec<String>,
    pub nontrivial: bool,
    pub note: Option<String>,
    /// counters added up over the run
    pub counts: BTreeMap<String, u64>,
}

impl Obs {
    pub fn label(&mut self, l: impl Into<String>) {
        self.labels.push(l.into());
    }
    pub fn count(&mut self, l: &str, n: u64) {
        *self.counts.entry(l.to_string()).or_insert(0) += n;
    }
}

#[derive(Clone, Debug)]
pub struct Fail {
    pub msg: String,
    /// a soft failure depends on timing and only counts if it repeats on every re-run of the case
    pub soft: bool,
    /// signature of a specific defect, matched against known_findings.json
    pub sig: Option<String>,
}

pub type Outcome = Result<(), Fail>;

pub fn fail<T>(msg: impl Into<String>) -> Result<T, Fail> {
    Err(Fail { msg: msg.into(), soft: false, sig: None })
}
pub fn soft<T>(msg: impl Into<String>) -> Result<T, Fail> {
    Err(Fail { msg: msg.into(), soft: true, sig: None })
}
pub fn known<T>(sig: &str, msg: impl Into<String>) -> Result<T, Fail> {
    Err(Fail { msg: msg.into(), soft: false, sig: Some(sig.to_string()) })
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !($c) { return $crate::rbv::engine::fail(format!($($a)*)); } };
}
#[macro_export]
macro_rules! ensure_soft {
    ($c:expr, $($a:tt)*) => { if !($c) { return $crate::rbv::engine::soft(format!($($a)*)); } };
}

/// Runs `f`, turning a panic of the code under test into a value.
pub fn no_panic<T>(what: &str, f: impl FnOnce() -> T) -> Result<T, Fail> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(p) => {
            let m = if let Some(s) = p.downcast_ref::<&str>() {
                s.to_string()
            } else if let Some(s) = p.downcast_ref::<String>() {
                s.clone()
            } else {
                "panic".to_string()
            };
            fail(format!("{what} panicked: {m}"))
        }
    }
}

pub struct RunCfg {
    pub seed: u64,
    pub tier: Tier,
    pub prop: &'static str,
    pub known: Vec<String>,
    pub crumbs: Option<Arc<Crumbs>>,
    /// no further cases of this part after it
    pub deadline: Option<Instant>,
    pub started: Instant,
}

pub struct PartReport {
    pub name: &'static str,
    pub evaluations: u64,
    pub distinct_nontrivial: u64,
    pub labels: BTreeMap<String, u64>,
    pub counts: BTreeMap<String, u64>,
    pub samples: Vec<Value>,
    pub violation: Option<(Value, String)>,
    pub known: BTreeMap<String, (u64, String)>,
    pub unconfirmed: u64,
}

pub struct Part {
    pub name: &'static str,
    pub run: Box<dyn Fn(&RunCfg) -> PartReport + Send + Sync>,
    pub replay: Box<dyn Fn(&Value) -> Outcome + Send + Sync>,
}

pub struct Property {
    pub id: &'static str,
    pub rule: &'static str,
    pub assumptions: Vec<&'static str>,
    pub parts: Vec<Part>,
    /// every case runs the whole program in its own network namespace
    pub program: bool,
}

pub trait Case: Serialize + DeserializeOwned + Clone + std::fmt::Debug + Send + Sync + 'static {}
impl<T: Serialize + DeserializeOwned + Clone + std::fmt::Debug + Send + Sync + 'static> Case for T {}

pub struct Spec<C: Case> {
    pub name: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub threads: usize,
    /// write the case down before running it, so that an abort can be attributed
    pub crumbs: bool,
    /// how often a soft failure has to repeat (on top of the first time)
    pub confirm: u32,
    pub shrink: u32,
    pub strategy: fn(Tier) -> BoxedStrategy<C>,
    pub check: fn(&C, &mut Obs) -> Outcome,
}

fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E3779B97F4A7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

fn hash_str(s: &str) -> u64 {
    // FNV-1a: stable across processes and toolchains
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    h
}

fn rng_for(seed: u64, prop: &str, part: &str, index: u64) -> TestRng {
    let mut bytes = [0u8; 32];
    let mut x = mix(seed) ^ hash_str(prop) ^ mix(hash_str(part)) ^ mix(index.wrapping_mul(0x2545F4914F6CDD1D));
    for c in bytes.chunks_mut(8) {
        x = mix(x);
        c.copy_from_slice(&x.to_le_bytes());
    }
    TestRng::from_seed(RngAlgorithm::ChaCha, &bytes)
}

/// Runs a case; soft failures have to repeat.
fn judge<C: Case>(check: fn(&C, &mut Obs) -> Outcome, confirm: u32, c: &C, obs: &mut Obs) -> (Outcome, bool) {
    let run = |obs: &mut Obs| match catch_unwind(AssertUnwindSafe(|| check(c, obs))) {
        Ok(o) => o,
        Err(p) => {
            let m = p
                .downcast_ref::<&str>()
                .map(|s| s.to_string())
                .or_else(|| p.downcast_ref::<String>().cloned())
                .unwrap_or_else(|| "panic".into());
            fail(format!("panicked: {m}"))
        }
    };
    let first = run(obs);
    match &first {
        Err(f) if f.soft => {
            if std::env::var("RBV_LOUD").is_ok() {
                eprintln!("soft: {}", f.msg);
            }
            for i in 0..confirm {
                // let a load spike pass
                std::thread::sleep(Duration::from_millis(200 * (i as u64 + 1)));
                let mut o = Obs::default();
                match run(&mut o) {
                    Ok(()) => return (Ok(()), true),
                    Err(f) if !f.soft => return (Err(f), false),
                    Err(_) => {}
                }
            }
            (first, false)
        }
        _ => (first, false),
    }
}

pub fn part<C: Case>(spec: Spec<C>) -> Part {
    let name = spec.name;
    let check = spec.check;
    let confirm = spec.confirm;
    Part {
        name,
        replay: Box::new(move |v| {
            let c: C = match serde_json::from_value(v.clone()) {
                Ok(c) => c,
                // a candidate of the structural shrinker that is not a case
                Err(e) => return Err(Fail { msg: format!("{e}"), soft: false, sig: Some("__not_a_case".into()) }),
            };
            let mut obs = Obs::default();
            judge(check, confirm, &c, &mut obs).0
        }),
        run: Box::new(move |cfg| run_part(&spec, cfg)),
    }
}

struct Shared {
    next: AtomicU64,
    stop: AtomicBool,
    state: Mutex<PartState>,
}
struct PartState {
    evaluations: u64,
    distinct: HashSet<u64>,
    labels: BTreeMap<String, u64>,
    counts: BTreeMap<String, u64>,
    samples: Vec<(u64, Value)>,
    violation: Option<(u64, Value, String)>,
    known: BTreeMap<String, (u64, String)>,
    unconfirmed: u64,
}

fn run_part<C: Case>(spec: &Spec<C>, cfg: &RunCfg) -> PartReport {
    let total = match cfg.tier {
        Tier::Quick => spec.quick,
        Tier::Thorough => spec.thorough,
    };
    let total = match std::env::var("RBV_CASES").ok().and_then(|s| s.parse::<f64>().ok()) {
        Some(f) => ((total as f64 * f) as u64).max(1),
        None => total,
    };
    let sh = Shared {
        next: AtomicU64::new(0),
        stop: AtomicBool::new(false),
        state: Mutex::new(PartState {
            evaluations: 0,
            distinct: HashSet::new(),
            labels: BTreeMap::new(),
            counts: BTreeMap::new(),
            samples: vec![],
            violation: None,
            known: BTreeMap::new(),
            unconfirmed: 0,
        }),
    };
    std::thread::scope(|s| {
        for t in 0..spec.threads.max(1) {
            let sh = &sh;
            std::thread::Builder::new()
                .stack_size(2 << 20) // as the program's own worker threads
                .name(format!("case-{t}"))
                .spawn_scoped(s, move || worker_thread(spec, cfg, sh, t, total))
                .unwrap();
        }
    });
    let mut st = sh.state.into_inner().unwrap();
    st.samples.sort_by_key(|x| x.0);
    PartReport {
        name: spec.name,
        evaluations: st.evaluations,
        distinct_nontrivial: st.distinct.len() as u64,
        labels: st.labels,
        counts: st.counts,
        samples: st.samples.into_iter().map(|x| x.1).collect(),
        violation: st.violation.map(|(_, v, m)| (v, m)),
        known: st.known,
        unconfirmed: st.unconfirmed,
    }
}

fn worker_thread<C: Case>(spec: &Spec<C>, cfg: &RunCfg, sh: &Shared, t: usize, total: u64) {
    let strategy = (spec.strategy)(cfg.tier);
    let pcfg = Config { failure_persistence: None, ..Config::default() };
    let mut evaluations = 0u64;
    let mut labels: BTreeMap<String, u64> = BTreeMap::new();
    let mut counts: BTreeMap<String, u64> = BTreeMap::new();
    let mut distinct: Vec<u64> = vec![];
    let mut samples: Vec<(u64, Value)> = vec![];
    let mut known: BTreeMap<String, (u64, String)> = BTreeMap::new();
    let mut unconfirmed = 0;
    loop {
        if sh.stop.load(Ordering::Relaxed) {
            break;
        }
        if let Some(d) = cfg.deadline {
            if Instant::now() > d {
                break;
            }
        }
        let i = sh.next.fetch_add(1, Ordering::Relaxed);
        if i >= total {
            break;
        }
        let mut runner = TestRunner::new_with_rng(pcfg.clone(), rng_for(cfg.seed, cfg.prop, spec.name, i));
        let mut tree = match strategy.new_tree(&mut runner) {
            Ok(t) => t,
            Err(e) => panic!("generator gave up: {e}"),
        };
        let c = tree.current();
        let mut obs = Obs::default();
        let (out, flaky) = guarded(spec, cfg, t, &c, &mut obs, spec.confirm);
        evaluations += 1;
        if flaky {
            unconfirmed += 1;
        }
        for l in obs.labels.drain(..) {
            *labels.entry(l).or_insert(0) += 1;
        }
        for (k, n) in std::mem::take(&mut obs.counts) {
            *counts.entry(k).or_insert(0) += n;
        }
        if obs.nontrivial {
            let mut h = Fnv(0xcbf29ce484222325);
            let v = serde_json::to_string(&c).unwrap();
            h.write(v.as_bytes());
            distinct.push(h.finish());
            if (i < 3 || i % (total / 4 + 1) == 0) && v.len() < 4000 && serde_json::from_str::<Value>(&v).is_ok() {
                let mut s = json!({"part": spec.name, "index": i, "case": serde_json::to_value(&c).unwrap()});
                if let Some(n) = obs.note.take() {
                    s["observed"] = json!(n);
                }
                samples.push((i, s));
            }
        }
        if let Err(f) = out {
            if let Some(sig) = &f.sig {
                if cfg.known.contains(sig) {
                    let e = known.entry(sig.clone()).or_insert((0, f.msg.clone()));
                    e.0 += 1;
                    continue;
                }
            }
            // one thread shrinks; the failures of others, at the same time, count as they are
            let first = !sh.stop.swap(true, Ordering::Relaxed);
            let original = (serde_json::to_value(&c).unwrap(), f.msg.clone());
            let mut best: Option<(C, String)> = None;
            let started = Instant::now();
            let mut budget = if first && std::env::var("RBV_RAW").is_err() { spec.shrink } else { 0 };
            let mut more = budget > 0 && tree.simplify();
            while more && budget > 0 && started.elapsed() < Duration::from_secs(60) {
                budget -= 1;
                let c = tree.current();
                let mut o = Obs::default();
                let (out, _) = guarded(spec, cfg, t, &c, &mut o, 0);
                let failing = match out {
                    Err(f) => match &f.sig {
                        Some(s) if cfg.known.contains(s) => false,
                        _ => {
                            best = Some((c, f.msg));
                            true
                        }
                    },
                    Ok(()) => false,
                };
                more = if failing { tree.simplify() } else { tree.complicate() };
            }
            // candidates were tried once only; what they led to has to fail as often as any case
            let best = match best {
                Some(_) if spec.confirm > 0 && cfg.started.elapsed() > Duration::from_secs(450) => original,
                Some((c, m)) if spec.confirm > 0 => match guarded(spec, cfg, t, &c, &mut Obs::default(), spec.confirm).0 {
                    Err(_) => (serde_json::to_value(&c).unwrap(), m),
                    Ok(()) => original,
                },
                Some((c, m)) => (serde_json::to_value(&c).unwrap(), m),
                None => original,
            };
            let mut st = sh.state.lock().unwrap();
            if first || st.violation.is_none() {
                st.violation = Some((i, best.0, best.1));
            }
            break;
        }
    }
    let mut st = sh.state.lock().unwrap();
    st.evaluations += evaluations;
    st.unconfirmed += unconfirmed;
    for (k, n) in labels {
        *st.labels.entry(k).or_insert(0) += n;
    }
    for (k, n) in counts {
        *st.counts.entry(k).or_insert(0) += n;
    }
    st.distinct.extend(distinct);
    st.samples.extend(samples);
    for (k, (n, m)) in known {
        let e = st.known.entry(k).or_insert((0, m));
        e.0 += n;
    }
}

struct Fnv(u64);
impl Hasher for Fnv {
    fn finish(&self) -> u64 {
        mix(self.0)
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.0 = (self.0 ^ *x as u64).wrapping_mul(0x100000001b3);
        }
    }
}

fn guarded<C: Case>(spec: &Spec<C>, cfg: &RunCfg, t: usize, c: &C, obs: &mut Obs, confirm: u32) -> (Outcome, bool) {
    if spec.crumbs {
        if let Some(cr) = &cfg.crumbs {
            cr.enter(t, spec.name, &serde_json::to_string(c).unwrap());
            let r = judge(spec.check, confirm, c, obs);
            cr.leave(t);
            return r;
        }
    }
    judge(spec.check, confirm, c, obs)
}

// ---------------------------------------------------------------------------------------------------------------------
// breadcrumbs: what every thread is doing, in a shared file that survives the process

pub const SLOTS: usize = 256;
const SLOT: usize = 1 << 18;

pub struct Crumbs {
    base: *mut u8,
    cpu_at_start: Vec<AtomicU64>,
    clock: Vec<AtomicUsize>,
    /// ms since `born`, plus 1
    began: Vec<AtomicU64>,
    born: Instant,
}
unsafe impl Send for Crumbs {}
unsafe impl Sync for Crumbs {}

fn thread_cpu(clock: libc::clockid_t) -> u64 {
    unsafe {
        let mut ts: libc::timespec = std::mem::zeroed();
        if libc::clock_gettime(clock, &mut ts) != 0 {
            return 0;
        }
        ts.tv_sec as u64 * 1000 + ts.tv_nsec as u64 / 1_000_000
    }
}

impl Crumbs {
    pub fn open(path: &Path) -> Arc<Crumbs> {
        let f = std::fs::OpenOptions::new().read(true).write(true).create(true).open(path).unwrap();
        f.set_len((SLOTS * SLOT) as u64).unwrap();
        let base = unsafe {
            libc::mmap(
                std::ptr::null_mut(),
                SLOTS * SLOT,
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_SHARED,
                std::os::unix::io::AsRawFd::as_raw_fd(&f),
                0,
            )
        };
        assert!(base != libc::MAP_FAILED);
        Arc::new(Crumbs {
            base: base as *mut u8,
            cpu_at_start: (0..SLOTS).map(|_| AtomicU64::new(u64::MAX)).collect(),
            clock: (0..SLOTS).map(|_| AtomicUsize::new(0)).collect(),
            began: (0..SLOTS).map(|_| AtomicU64::new(0)).collect(),
            born: Instant::now(),
        })
    }
    fn enter(&self, t: usize, part: &str, case: &str) {
        let s = format!("{part}\n{case}");
        if t >= SLOTS || s.len() + 8 > SLOT {
            return;
        }
        unsafe {
            let p = self.base.add(t * SLOT);
            std::ptr::copy_nonoverlapping(s.as_ptr(), p.add(8), s.len());
            std::sync::atomic::fence(Ordering::SeqCst);
            (p as *mut u64).write_volatile(s.len() as u64);
            let mut cl: libc::clockid_t = 0;
            libc::pthread_getcpuclockid(libc::pthread_self(), &mut cl);
            self.clock[t].store(cl as u32 as usize, Ordering::SeqCst);
            self.cpu_at_start[t].store(thread_cpu(cl), Ordering::SeqCst);
            self.began[t].store(self.born.elapsed().as_millis() as u64 + 1, Ordering::SeqCst);
        }
    }
    fn leave(&self, t: usize) {
        if t < SLOTS {
            unsafe { (self.base.add(t * SLOT) as *mut u64).write_volatile(0) };
            self.cpu_at_start[t].store(u64::MAX, Ordering::SeqCst);
            self.began[t].store(0, Ordering::SeqCst);
        }
    }
    /// When cases have been running for too long, leaves only their crumbs.
    pub fn stuck(&self, limit_ms: u64) -> bool {
        let now = self.born.elapsed().as_millis() as u64;
        let over = |t: usize| {
            let b = self.began[t].load(Ordering::SeqCst);
            b > 0 && now > b && now - b > limit_ms
        };
        if !(0..SLOTS).any(over) {
            return false;
        }
        for t in (0..SLOTS).filter(|t| !over(*t)) {
            unsafe { (self.base.add(t * SLOT) as *mut u64).write_volatile(0) };
        }
        true
    }
    /// The longest CPU time any thread has spent on its current case, in ms.
    pub fn worst_cpu(&self) -> (usize, u64) {
        let mut worst = (0, 0);
        for t in 0..SLOTS {
            let st = self.cpu_at_start[t].load(Ordering::SeqCst);
            if st == u64::MAX {
                continue;
            }
            let now = thread_cpu(self.clock[t].load(Ordering::SeqCst) as u32 as libc::clockid_t);
            if now > st && now - st > worst.1 && self.cpu_at_start[t].load(Ordering::SeqCst) == st {
                worst = (t, now - st);
            }
        }
        worst
    }
    pub fn in_flight(path: &Path) -> Vec<(String, Value)> {
        let mut out = vec![];
        let data = match std::fs::read(path) {
            Ok(d) => d,
            Err(_) => return out,
        };
        for t in 0..SLOTS {
            let s = &data[t * SLOT..(t + 1) * SLOT];
            let n = u64::from_ne_bytes(s[..8].try_into().unwrap()) as usize;
            if n > 0 && n + 8 <= SLOT {
                if let Ok(txt) = std::str::from_utf8(&s[8..8 + n]) {
                    if let Some((p, c)) = txt.split_once('\n') {
                        if let Ok(v) = json_from(c) {
                            out.push((p.to_string(), v));
                        }
                    }
                }
            }
        }
        out
    }
}

/// CPU milliseconds after which a single case counts as not terminating (cases need a few ms).
pub const CPU_LIMIT_MS: u64 = 40_000;
pub const EXIT_CPU: i32 = 86;
/// The same by the clock, for cases that wait for ever (they need 30 s at most).
pub const WALL_LIMIT_MS: u64 = 200_000;
pub const EXIT_WALL: i32 = 87;

// ---------------------------------------------------------------------------------------------------------------------
// structural shrinking of cases that kill the process

fn candidates(v: &Value) -> Vec<Value> {
    let mut out = vec![];
    fn at(v: &Value, f: &mut dyn FnMut(Value)) {
        match v {
            Value::Array(a) => {
                let n = a.len();
                let mut step = n;
                while step >= 1 {
                    let mut i = 0;
                    while i < n {
                        let mut b = a[..i].to_vec();
                        b.extend_from_slice(&a[(i + step).min(n)..]);
                        f(Value::Array(b));
                        i += step;
                    }
                    step /= 2;
                }
                if n <= 64 {
                    for i in 0..n {
                        at(&a[i], &mut |x| {
                            let mut b = a.clone();
                            b[i] = x;
                            f(Value::Array(b));
                        });
                    }
                }
            }
            Value::Object(o) => {
                for (k, x) in o {
                    at(x, &mut |y| {
                        let mut b = o.clone();
                        b.insert(k.clone(), y);
                        f(Value::Object(b));
                    });
                }
            }
            Value::Number(n) => {
                if let Some(u) = n.as_u64() {
                    for c in [0, 1, u / 2, u.saturating_sub(1)] {
                        if c < u {
                            f(json!(c));
                        }
                    }
                }
            }
            Value::String(s) if !s.is_empty() => {
                f(json!(""));
                let cs: Vec<char> = s.chars().collect();
                f(json!(cs[..cs.len() / 2].iter().collect::<String>()));
                f(json!(cs[..cs.len() - 1].iter().collect::<String>()));
            }
            _ => {}
        }
    }
    at(v, &mut |x| {
        if out.len() < 400 {
            out.push(x)
        }
    });
    out
}

pub fn shrink_json(mut v: Value, mut bad: impl FnMut(&Value) -> bool, budget: Duration) -> Value {
    let start = Instant::now();
    'outer: loop {
        for c in candidates(&v) {
            if start.elapsed() > budget {
                break 'outer;
            }
            if bad(&c) {
                v = c;
                continue 'outer;
            }
        }
        break;
    }
    v
}

/// Deterministic filler bytes; cases carry the seed instead of the bytes.
pub fn filler(seed: u64, len: usize) -> Vec<u8> {
    let mut out = Vec::with_capacity(len + 8);
    let mut x = mix(seed ^ 0xA5A5_5A5A);
    while out.len() < len {
        x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        out.extend_from_slice(&mix(x).to_le_bytes());
    }
    out.truncate(len);
    out
}

pub struct Prng(pub u64);
impl Prng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        mix(self.0)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 {
            0
        } else {
            self.next() % n
        }
    }
}

/// Parses JSON of any depth (cases may be deeply nested values).
pub fn json_from(s: &str) -> Result<Value, serde_json::Error> {
    let mut d = serde_json::Deserializer::from_str(s);
    d.disable_recursion_limit();
    <Value as serde::Deserialize>::deserialize(&mut d)
}
