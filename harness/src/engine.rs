//! Runs laws (a generator plus an executable oracle), shrinks failures, collects evidence.
use proptest::strategy::{BoxedStrategy, Strategy};
use proptest::test_runner::{
    Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner,
};
use serde::de::DeserializeOwned;
use serde::Serialize;
use serde_json::{json, Value};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::PathBuf;
use std::sync::Mutex;

pub type Check = Result<(), String>;

/// What one case exercised, reported by the oracle.
#[derive(Default)]
pub struct Obs {
    labels: Vec<&'static str>,
    nontrivial: bool,
    evals: u64,
    took: std::time::Duration,
}
impl Obs {
    pub fn label(&mut self, s: &'static str) {
        if !self.labels.contains(&s) {
            self.labels.push(s)
        }
    }
    pub fn label_if(&mut self, c: bool, s: &'static str) {
        if c {
            self.label(s)
        }
    }
    pub fn nontrivial(&mut self) {
        self.nontrivial = true
    }
    pub fn nontrivial_if(&mut self, c: bool) {
        self.nontrivial |= c
    }
    /// additional evaluations of the oracle inside this case (e.g. one per truncation point)
    pub fn evals(&mut self, n: u64) {
        self.evals += n
    }
}

pub trait Case: Serialize + DeserializeOwned + Debug + Clone + Hash + 'static {}
impl<T: Serialize + DeserializeOwned + Debug + Clone + Hash + 'static> Case for T {}

#[derive(Default)]
pub struct Report {
    pub evaluations: u64,
    pub cases: u64,
    pub nontrivial: HashSet<u64>,
    pub labels: BTreeMap<&'static str, u64>,
    pub samples: Vec<Value>,
    pub slowest: std::time::Duration,
    pub failure: Option<Failure>,
}
#[derive(Clone)]
pub struct Failure {
    pub case: Value,
    pub message: String,
    pub harness: bool,
}
impl Report {
    pub fn merge(&mut self, o: Report) {
        self.evaluations += o.evaluations;
        self.cases += o.cases;
        self.slowest = self.slowest.max(o.slowest);
        self.nontrivial.extend(o.nontrivial);
        for (k, v) in o.labels {
            *self.labels.entry(k).or_default() += v
        }
        if self.samples.len() < 2 {
            self.samples.extend(o.samples);
            self.samples.truncate(2)
        }
        if self.failure.is_none() {
            self.failure = o.failure
        }
    }
}

pub struct RunCfg {
    pub seed: u64,
    pub thorough: bool,
    pub journal: Option<PathBuf>,
    /// multiplies the number of generated cases of every law
    pub scale: u32,
}

type Exec = Box<dyn Fn(&RunCfg, u32, u32) -> Report + Send + Sync>;
type Replay = Box<dyn Fn(&Value) -> Result<(), Failure> + Send + Sync>;

pub struct Law {
    pub name: &'static str,
    /// what is generated, and what makes a case non-trivial
    pub rule: &'static str,
    pub exec: Exec,
    pub replay: Replay,
}

/// A panic raised by harness streams to report a violation of the code under test.
pub struct Violated(pub String);

thread_local! {
    static LAST_PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else if let Some(v) = info.payload().downcast_ref::<Violated>() {
            v.0.clone()
        } else {
            "non-string panic".into()
        };
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = Some((msg, loc)));
    }));
}

pub fn last_panic() -> (String, String) {
    LAST_PANIC
        .with(|p| p.borrow_mut().take())
        .unwrap_or_else(|| ("unknown panic".into(), String::new()))
}

/// Calls library code; a panic in it becomes an `Err`.
pub fn guard<R>(what: &str, f: impl FnOnce() -> R) -> Result<R, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => Ok(r),
        Err(p) => {
            let (msg, loc) = last_panic();
            if p.is::<Violated>() {
                return Err(format!("{what}: {msg}"));
            }
            if is_harness_file(&loc) {
                std::panic::resume_unwind(Box::new(HarnessBug(format!("{msg} at {loc}"))));
            }
            Err(format!("{what}: panicked: {msg} at {loc}"))
        }
    }
}

/// Runs a check on a thread with a quarter of the default stack (the code under test is built with
/// some optimisation here, and takes several times as much without).
pub fn on_small_stack(f: impl FnOnce() -> Check + Send) -> Check {
    let run = move || match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => Ok(r),
        Err(p) => {
            if let Some(h) = p.downcast_ref::<HarnessBug>() {
                return Err(h.0.clone());
            }
            let (msg, loc) = last_panic();
            match p.is::<Violated>() {
                true => Ok(Err(msg)),
                false if is_harness_file(&loc) => Err(format!("{msg} at {loc}")),
                false => Ok(Err(format!("panicked: {msg} at {loc}"))),
            }
        }
    };
    let r = std::thread::scope(|sc| {
        let t = std::thread::Builder::new().stack_size(512 << 10).spawn_scoped(sc, run).expect("thread");
        t.join().expect("thread")
    });
    r.unwrap_or_else(|h| std::panic::resume_unwind(Box::new(HarnessBug(h))))
}

struct HarnessBug(String);

fn is_harness_file(loc: &str) -> bool {
    // files of this crate are compiled with paths relative to its root
    loc.starts_with("src/")
}

/// The case a worker is on, for the stall monitor.
struct Slot {
    law: &'static str,
    since: std::time::Instant,
    case: *const (),
    ser: fn(*const ()) -> Value,
}
// the pointer is only read while the slot is locked, and cases are plain data
unsafe impl Send for Slot {}
static SLOTS: Mutex<Vec<std::sync::Arc<Mutex<Option<Slot>>>>> = Mutex::new(Vec::new());
/// the first failure of each law, before it is shrunk
static FOUND: Mutex<Vec<(&'static str, Failure)>> = Mutex::new(Vec::new());

thread_local! {
    static SLOT: std::sync::Arc<Mutex<Option<Slot>>> = {
        let s = std::sync::Arc::new(Mutex::new(None));
        SLOTS.lock().unwrap().push(s.clone());
        s
    };
}
fn ser_case<C: Serialize>(p: *const ()) -> Value {
    serde_json::to_value(unsafe { &*(p as *const C) }).unwrap_or(Value::Null)
}
/// What the monitor found: a case that has been running for too long, or failures found earlier.
pub enum Stuck {
    Case(&'static str, Value),
    Failed(Vec<(&'static str, Failure)>),
}
/// A case that has been running for longer than `limit`, if there is one.
pub fn stuck(limit: std::time::Duration) -> Option<Stuck> {
    let slots = SLOTS.lock().unwrap().clone();
    for s in slots {
        let g = s.lock().unwrap();
        if let Some(c) = &*g {
            if c.since.elapsed() > limit {
                let f = FOUND.lock().unwrap().clone();
                if !f.is_empty() {
                    return Some(Stuck::Failed(f));
                }
                return Some(Stuck::Case(c.law, (c.ser)(c.case)));
            }
        }
    }
    None
}
/// The failures found so far.
pub fn found() -> Option<Stuck> {
    let f = FOUND.lock().unwrap().clone();
    if f.is_empty() {
        None
    } else {
        Some(Stuck::Failed(f))
    }
}
struct Watched;
impl Drop for Watched {
    fn drop(&mut self) {
        SLOT.with(|s| *s.lock().unwrap() = None)
    }
}
fn watch<C: Case>(law: &'static str, c: &C) -> Watched {
    let slot = Slot { law, since: std::time::Instant::now(), case: c as *const C as *const (), ser: ser_case::<C> };
    SLOT.with(|s| *s.lock().unwrap() = Some(slot));
    Watched
}

fn run_one<C: Case>(law: &'static str, check: fn(&C, &mut Obs) -> Check, c: &C, obs: &mut Obs) -> Result<(), Failure> {
    let _w = watch(law, c);
    let start = std::time::Instant::now();
    let res = crate::alloc::measure(|| catch_unwind(AssertUnwindSafe(|| check(c, obs)))).0;
    obs.took = start.elapsed();
    match res {
        Ok(Ok(())) => Ok(()),
        Ok(Err(m)) => Err(Failure { case: Value::Null, message: m, harness: false }),
        Err(p) => {
            let (msg, loc) = match p.downcast_ref::<HarnessBug>() {
                Some(h) => (h.0.clone(), "src/".to_string()),
                None => last_panic(),
            };
            if p.is::<Violated>() {
                return Err(Failure { case: Value::Null, message: msg, harness: false });
            }
            Err(Failure {
                case: Value::Null,
                message: format!("panicked: {msg} at {loc}"),
                harness: is_harness_file(&loc),
            })
        }
    }
}

fn fnv(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        h ^= b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}
fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9e3779b97f4a7c15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}
fn rng(seed: u64, name: &str, shard: u32) -> TestRng {
    let mut x = seed ^ fnv(name).rotate_left(17) ^ ((shard as u64 + 1) << 48);
    let mut b = [0u8; 32];
    for i in 0..4 {
        b[i * 8..i * 8 + 8].copy_from_slice(&splitmix(&mut x).to_le_bytes());
    }
    TestRng::from_seed(RngAlgorithm::ChaCha, &b)
}
fn hash_of<C: Hash>(c: &C) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    c.hash(&mut h);
    h.finish()
}
fn sample_of<C: Serialize>(name: &str, c: &C) -> Value {
    let v = serde_json::to_value(c).unwrap_or(Value::Null);
    let s = v.to_string();
    if s.len() <= 600 {
        json!({"law": name, "case": v})
    } else {
        json!({"law": name, "case_prefix": s.chars().take(600).collect::<String>()})
    }
}

fn account<C: Case>(rep: &mut Report, name: &'static str, c: &C, obs: Obs) {
    rep.cases += 1;
    rep.slowest = rep.slowest.max(obs.took);
    rep.evaluations += obs.evals.max(1);
    for l in obs.labels {
        *rep.labels.entry(l).or_default() += 1
    }
    if obs.nontrivial {
        if rep.nontrivial.insert(hash_of(c)) && rep.samples.len() < 2 {
            rep.samples.push(sample_of(name, c));
        }
    }
}

fn journal<C: Serialize>(cfg: &RunCfg, name: &str, c: &C) {
    if let Some(p) = &cfg.journal {
        let v = json!({"law": name, "case": serde_json::to_value(c).unwrap_or(Value::Null)});
        let _ = std::fs::write(p, v.to_string());
    }
}

fn replayer<C: Case>(law: &'static str, check: fn(&C, &mut Obs) -> Check) -> Replay {
    Box::new(move |v| {
        let c: C = serde_json::from_value(v.clone()).map_err(|e| Failure {
            case: v.clone(),
            message: format!("cannot read replay case: {e}"),
            harness: true,
        })?;
        run_one(law, check, &c, &mut Obs::default()).map_err(|mut f| {
            f.case = v.clone();
            f
        })
    })
}

/// A law over randomly generated cases.
pub fn law<C: Case>(
    name: &'static str,
    rule: &'static str,
    quick: u32,
    thorough: u32,
    strategy: fn() -> BoxedStrategy<C>,
    check: fn(&C, &mut Obs) -> Check,
) -> Law {
    let exec: Exec = Box::new(move |cfg, shard, shards| {
        let total = (if cfg.thorough { thorough } else { quick }).saturating_mul(cfg.scale);
        let cases = (total + shards - 1) / shards;
        let config = Config {
            cases,
            failure_persistence: None,
            max_shrink_iters: 4000,
            max_shrink_time: 45_000,
            max_global_rejects: cases.saturating_mul(4).max(1000),
            // local rejects are drawn again; they only cost time
            max_local_rejects: u32::MAX,
            ..Config::default()
        };
        let mut runner = TestRunner::new_with_rng(config, rng(cfg.seed, name, shard));
        let rep = RefCell::new(Report::default());
        let failed: Cell<bool> = Cell::new(false);
        let last: RefCell<Option<Failure>> = RefCell::new(None);
        let res = runner.run(&strategy(), |c| {
            journal(cfg, name, &c);
            let mut obs = Obs::default();
            match run_one(name, check, &c, &mut obs) {
                Ok(()) => {
                    if !failed.get() {
                        account(&mut rep.borrow_mut(), name, &c, obs);
                    }
                    Ok(())
                }
                Err(f) => {
                    if !failed.replace(true) && !f.harness {
                        let case = serde_json::to_value(&c).unwrap_or(Value::Null);
                        FOUND.lock().unwrap().push((name, Failure { case, ..f.clone() }));
                    }
                    let m = f.message.clone();
                    *last.borrow_mut() = Some(f);
                    Err(TestCaseError::fail(m))
                }
            }
        });
        let mut rep = rep.into_inner();
        match res {
            Ok(()) => {}
            Err(TestError::Fail(_, c)) => {
                // re-run the shrunk case for its own message
                let mut f = run_one(name, check, &c, &mut Obs::default())
                    .err()
                    .or_else(|| last.into_inner())
                    .unwrap();
                f.case = serde_json::to_value(&c).unwrap_or(Value::Null);
                rep.failure = Some(f);
            }
            Err(TestError::Abort(r)) => {
                rep.failure = Some(Failure {
                    case: Value::Null,
                    message: format!("generator aborted: {r}"),
                    harness: true,
                })
            }
        }
        rep
    });
    Law { name, rule, exec, replay: replayer(name, check) }
}

/// A law over a finite domain that is enumerated completely.
pub fn sweep<C: Case>(
    name: &'static str,
    rule: &'static str,
    domain: fn(thorough: bool) -> Box<dyn Iterator<Item = C>>,
    check: fn(&C, &mut Obs) -> Check,
) -> Law {
    let exec: Exec = Box::new(move |cfg, shard, shards| {
        let mut rep = Report::default();
        for (i, c) in domain(cfg.thorough).enumerate() {
            if i as u32 % shards != shard {
                continue;
            }
            journal(cfg, name, &c);
            let mut obs = Obs::default();
            match run_one(name, check, &c, &mut obs) {
                Ok(()) => account(&mut rep, name, &c, obs),
                Err(mut f) => {
                    f.case = serde_json::to_value(&c).unwrap_or(Value::Null);
                    if !f.harness {
                        FOUND.lock().unwrap().push((name, f.clone()));
                    }
                    rep.failure = Some(f);
                    break;
                }
            }
        }
        rep
    });
    Law { name, rule, exec, replay: replayer(name, check) }
}

pub const SHARDS: u32 = 8;

/// Runs every law of a property, in parallel shards, and returns one report per law.
pub fn run_laws(laws: &[Law], cfg: &RunCfg) -> Vec<Report> {
    let reports: Vec<Mutex<Report>> = laws.iter().map(|_| Mutex::new(Report::default())).collect();
    let jobs: Mutex<Vec<(usize, u32)>> = Mutex::new(
        (0..laws.len())
            .rev()
            .flat_map(|l| (0..SHARDS).rev().map(move |s| (l, s)))
            .collect(),
    );
    let threads = if cfg.journal.is_some() { 1 } else { 8 };
    std::thread::scope(|sc| {
        for _ in 0..threads {
            std::thread::Builder::new()
                .stack_size(16 << 20)
                .spawn_scoped(sc, || loop {
                    let job = jobs.lock().unwrap().pop();
                    let Some((l, s)) = job else { break };
                    if reports[l].lock().unwrap().failure.is_some() {
                        continue;
                    }
                    let r = (laws[l].exec)(cfg, s, SHARDS);
                    reports[l].lock().unwrap().merge(r);
                })
                .unwrap();
        }
    });
    reports.into_iter().map(|m| m.into_inner().unwrap()).collect()
}

/// boxed strategy helper
pub fn bx<S: Strategy + 'static>(s: S) -> BoxedStrategy<S::Value> {
    s.boxed()
}

pub fn ensure(c: bool, m: impl FnOnce() -> String) -> Check {
    if c {
        Ok(())
    } else {
        Err(m())
    }
}
