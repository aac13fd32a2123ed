//! The generated-input search engine: sharded proptest generation, counting,
//! shrinking, replay files and evidence.
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

use proptest::strategy::{BoxedStrategy, Strategy, ValueTree};
use proptest::test_runner::{Config, RngAlgorithm, TestRng, TestRunner};
use serde::de::DeserializeOwned;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};

/// A double that survives JSON (NaN and infinities included) bit for bit.
#[derive(Clone, Copy, PartialEq)]
pub struct F(pub f64);

impl std::fmt::Debug for F {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{:?}", self.0)
    }
}

impl Serialize for F {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_str(&format!("{:?}", self.0))
    }
}

impl<'de> Deserialize<'de> for F {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let s = String::deserialize(d)?;
        s.parse().map(F).map_err(serde::de::Error::custom)
    }
}

/// Per-case context: classification labels and the non-triviality verdict.
#[derive(Default)]
pub struct Cx {
    labels: Vec<&'static str>,
    nontrivial: bool,
    pub scratch: Option<PathBuf>,
}

impl Cx {
    /// Tags the case for the distribution table in the evidence.
    pub fn label(&mut self, l: &'static str) {
        if !self.labels.contains(&l) {
            self.labels.push(l);
        }
    }
    pub fn label_if(&mut self, c: bool, l: &'static str) {
        if c {
            self.label(l)
        }
    }
    /// Declares the case non-trivial.
    pub fn nontrivial(&mut self) {
        self.nontrivial = true;
    }
    pub fn nontrivial_if(&mut self, c: bool) {
        self.nontrivial |= c;
    }
}

pub type Res = Result<(), String>;

/// Errors of the harness itself (never a violation).
#[derive(Debug)]
pub struct HarnessError(pub String);

/// Raise from within a check when the harness (not the code) is at fault.
pub fn harness_error(msg: impl Into<String>) -> ! {
    std::panic::panic_any(HarnessError(msg.into()))
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($t:tt)*) => { if !($c) { return Err(format!($($t)*)); } };
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

pub struct Env {
    pub property: &'static str,
    pub seed: u64,
    pub tier: Tier,
    pub shards: usize,
    pub verif: PathBuf,
    pub scratch: PathBuf,
}

pub struct Failure {
    pub sub: &'static str,
    pub shard: usize,
    pub index: usize,
    pub message: String,
    pub case: Value,
    pub shrink_steps: usize,
}

#[derive(Default)]
pub struct SubReport {
    pub evaluations: usize,
    pub nontrivial: HashSet<u64>,
    pub labels: BTreeMap<&'static str, usize>,
    pub samples: Vec<Value>,
    pub failure: Option<Failure>,
    pub harness_error: Option<String>,
}

/// One generated check of a property.
pub struct Sub {
    pub name: &'static str,
    pub run: Box<dyn Fn(&Env) -> SubReport>,
    pub replay: Box<dyn Fn(&Env, &Value) -> Result<Res, String>>,
}

thread_local! {
    static PANIC: std::cell::RefCell<Option<(String, String)>> = const { std::cell::RefCell::new(None) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(h) = info.payload().downcast_ref::<HarnessError>() {
            h.0.clone()
        } else if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".to_string()
        };
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        PANIC.with(|p| *p.borrow_mut() = Some((msg, loc)));
    }));
}

/// Runs `f`; a panic below it becomes a violation unless the harness itself panicked.
/// `Err(Err(msg))` is a harness error.
fn guarded<T>(f: impl FnOnce() -> Result<T, String>) -> Result<T, Result<String, String>> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(Ok(t)) => Ok(t),
        Ok(Err(m)) => Err(Ok(m)),
        Err(payload) => {
            let (msg, loc) = PANIC
                .with(|p| p.borrow_mut().take())
                .unwrap_or_else(|| ("?".into(), "?".into()));
            if payload.is::<HarnessError>() {
                Err(Err(format!("harness panic at {loc}: {msg}")))
            } else {
                // Also where a check trips over an outcome it cannot even index or compare.
                Err(Ok(format!("panic at {loc}: {msg}")))
            }
        }
    }
}

// ---------------------------------------------------------------- cases that never return

/// The case a shard is working on, for the watchdog.
struct Slot {
    shard: usize,
    sub: &'static str,
    since: Option<Instant>,
    case: usize,
    dump: fn(usize) -> Value,
}

static SLOTS: Mutex<Vec<Slot>> = Mutex::new(vec![]);
/// The shard whose thread aborted, plus one.
static ABORTED: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);

thread_local! {
    static SHARD: std::cell::Cell<usize> = const { std::cell::Cell::new(usize::MAX) };
}

/// Marks a shard as working on `case` until dropped.
struct Working(usize);

impl Working {
    fn on<C: Serialize>(shard: usize, sub: &'static str, case: &C) -> Self {
        fn dump<C: Serialize>(p: usize) -> Value {
            // The pointer is valid: the slot is cleared, under its lock, before the case goes away.
            serde_json::to_value(unsafe { &*(p as *const C) }).unwrap_or(Value::Null)
        }
        SHARD.with(|s| s.set(shard));
        let slot = Slot {
            shard,
            sub,
            since: Some(Instant::now()),
            case: case as *const C as usize,
            dump: dump::<C>,
        };
        let mut slots = SLOTS.lock().unwrap();
        match slots.iter_mut().find(|s| s.shard == shard) {
            Some(s) => *s = slot,
            None => slots.push(slot),
        }
        Working(shard)
    }
}

impl Drop for Working {
    fn drop(&mut self) {
        SHARD.with(|s| s.set(usize::MAX));
        if let Ok(mut slots) = SLOTS.lock() {
            if let Some(s) = slots.iter_mut().find(|s| s.shard == self.0) {
                s.since = None;
            }
        }
    }
}

extern "C" {
    fn signal(signum: i32, handler: usize) -> usize;
    fn setrlimit(resource: i32, limit: *const [u64; 2]) -> i32;
}

/// A thread that aborts (a refused allocation, an overflowing stack) waits for the watchdog to
/// report its case.
extern "C" fn on_abort(_: i32) {
    let shard = SHARD.try_with(|s| s.get()).unwrap_or(usize::MAX);
    if shard == usize::MAX {
        std::process::exit(2);
    }
    ABORTED.store(shard + 1, Ordering::SeqCst);
    loop {
        std::thread::sleep(Duration::from_secs(1));
    }
}

/// Reports a case that aborts the process or does not end.
pub fn start_watchdog(property: &'static str, seed: u64, verif: PathBuf, scratch: PathBuf, memory: Option<u64>) {
    const SIGABRT: i32 = 6;
    const RLIMIT_AS: i32 = 9;
    unsafe {
        signal(SIGABRT, on_abort as *const () as usize);
        if let Some(bytes) = memory {
            setrlimit(RLIMIT_AS, &[bytes, bytes]);
        }
    }
    let limit = std::env::var("VERIF_CASE_LIMIT").ok().and_then(|s| s.parse().ok()).unwrap_or(200u64);
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_millis(100));
        let aborted = ABORTED.load(Ordering::SeqCst);
        let slots = SLOTS.lock().unwrap();
        for s in slots.iter() {
            let message = match s.since {
                Some(_) if s.shard + 1 == aborted => "the process aborts".to_string(),
                Some(t) if t.elapsed() > Duration::from_secs(limit) => format!("no end after {limit} s"),
                _ => continue,
            };
            let case = json!({"property": property, "check": s.sub, "message": message,
                              "seed": seed, "case": (s.dump)(s.case)});
            let dir = verif.join("replays");
            let _ = std::fs::create_dir_all(&dir);
            let path = dir.join(format!("{property}.json"));
            let _ = std::fs::write(&path, serde_json::to_string_pretty(&case).unwrap_or_default() + "\n");
            let _ = std::fs::remove_dir_all(&scratch);
            println!("{property} {}: {message}", s.sub);
            println!("VIOLATION property={property} replay={}", path.display());
            std::process::exit(1);
        }
    });
}

/// Catches a panic of the code under test, as a value.
pub fn no_panic<T>(what: &str, f: impl FnOnce() -> T) -> Result<T, String> {
    match guarded(|| Ok(f())) {
        Ok(t) => Ok(t),
        Err(Ok(m)) => Err(format!("{what}: {m}")),
        Err(Err(m)) => harness_error(m),
    }
}

fn fnv(s: &str, mut h: u64) -> u64 {
    for b in s.bytes() {
        h ^= b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}

fn shard_rng(env: &Env, sub: &str, shard: usize) -> TestRng {
    let mut bytes = [0u8; 32];
    let base = format!("{}/{}/{}/{}", env.seed, env.property, sub, shard);
    for i in 0..4 {
        let h = fnv(&format!("{base}/{i}"), 0xcbf29ce484222325 ^ i as u64);
        bytes[i * 8..i * 8 + 8].copy_from_slice(&h.to_le_bytes());
    }
    TestRng::from_seed(RngAlgorithm::ChaCha, &bytes)
}

pub fn sub<C, S, K>(
    name: &'static str,
    quick: usize,
    thorough: usize,
    strategy: S,
    check: K,
) -> Sub
where
    C: Clone + std::fmt::Debug + Serialize + DeserializeOwned + 'static,
    S: Fn() -> BoxedStrategy<C> + Sync + 'static,
    K: Fn(&C, &mut Cx) -> Res + Sync + Clone + 'static + Send,
{
    let check2 = check.clone();
    Sub {
        name,
        run: Box::new(move |env| run_sub(env, name, quick, thorough, &strategy, &check)),
        replay: Box::new(move |env, v| {
            let case: C = serde_json::from_value(v.clone()).map_err(|e| e.to_string())?;
            let mut cx = Cx {
                scratch: Some(env.scratch.join("replay")),
                ..Default::default()
            };
            let _working = Working::on(0, name, &case);
            match guarded(|| check2(&case, &mut cx)) {
                Ok(()) => Ok(Ok(())),
                Err(Ok(m)) => Ok(Err(m)),
                Err(Err(m)) => Err(m),
            }
        }),
    }
}

fn run_sub<C, S, K>(
    env: &Env,
    name: &'static str,
    quick: usize,
    thorough: usize,
    strategy: &S,
    check: &K,
) -> SubReport
where
    C: Clone + std::fmt::Debug + Serialize + DeserializeOwned + 'static,
    S: Fn() -> BoxedStrategy<C> + Sync,
    K: Fn(&C, &mut Cx) -> Res + Sync,
{
    let total = match env.tier {
        Tier::Quick => quick,
        Tier::Thorough => thorough,
    };
    let total = std::env::var("VERIF_CASES")
        .ok()
        .and_then(|s| s.parse::<f64>().ok())
        .map_or(total, |f| ((total as f64 * f) as usize).max(1));
    let stop = AtomicBool::new(false);
    let reports: Mutex<Vec<(usize, SubReport)>> = Mutex::new(vec![]);
    std::thread::scope(|sc| {
        for shard in 0..env.shards {
            let (stop, reports) = (&stop, &reports);
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(sc, move || {
                    let n = total / env.shards + usize::from(shard < total % env.shards);
                    let r = match guarded(|| Ok(strategy())) {
                        Ok(st) => run_shard(env, name, shard, n, &st, check, stop),
                        Err(Ok(m) | Err(m)) => SubReport {
                            harness_error: Some(format!("{name}: building the generator: {m}")),
                            ..Default::default()
                        },
                    };
                    reports.lock().unwrap().push((shard, r));
                })
                .unwrap();
        }
    });
    let mut reports = reports.into_inner().unwrap();
    reports.sort_by_key(|r| r.0);
    let mut out = SubReport::default();
    for (_, r) in reports {
        out.evaluations += r.evaluations;
        out.nontrivial.extend(r.nontrivial);
        for (k, v) in r.labels {
            *out.labels.entry(k).or_default() += v;
        }
        if out.samples.len() < 2 {
            out.samples.extend(r.samples);
        }
        if out.harness_error.is_none() {
            out.harness_error = r.harness_error;
        }
        match (&out.failure, r.failure) {
            (Some(a), Some(b)) if (b.index, b.shard) < (a.index, a.shard) => out.failure = Some(b),
            (None, b) => out.failure = b,
            _ => {}
        }
    }
    out.samples.truncate(2);
    out
}

#[allow(clippy::too_many_arguments)]
fn run_shard<C, K>(
    env: &Env,
    name: &'static str,
    shard: usize,
    n: usize,
    strategy: &BoxedStrategy<C>,
    check: &K,
    stop: &AtomicBool,
) -> SubReport
where
    C: Clone + std::fmt::Debug + Serialize + DeserializeOwned + 'static,
    K: Fn(&C, &mut Cx) -> Res,
{
    let mut rep = SubReport::default();
    let config = Config {
        failure_persistence: None,
        ..Config::default()
    };
    let mut runner = TestRunner::new_with_rng(config, shard_rng(env, name, shard));
    let scratch = env.scratch.join(format!("{name}-{shard}"));
    let eval = |case: &C, rep: Option<&mut SubReport>| -> Result<(), Result<String, String>> {
        let mut cx = Cx {
            scratch: Some(scratch.clone()),
            ..Default::default()
        };
        let working = Working::on(shard, name, case);
        let r = guarded(|| check(case, &mut cx));
        drop(working);
        if let Some(rep) = rep {
            rep.evaluations += 1;
            for l in &cx.labels {
                *rep.labels.entry(l).or_default() += 1;
            }
            if cx.nontrivial {
                let js = serde_json::to_string(case).unwrap();
                let mut h = std::collections::hash_map::DefaultHasher::new();
                js.hash(&mut h);
                let fresh = rep.nontrivial.insert(h.finish());
                if fresh && rep.samples.is_empty() && js.len() < 2500 {
                    rep.samples
                        .push(json!({"check": name, "case": serde_json::to_value(case).unwrap()}));
                }
            }
        }
        r
    };
    for index in 0..n {
        if stop.load(Ordering::Relaxed) {
            break;
        }
        let tree = guarded(|| strategy.new_tree(&mut runner).map_err(|e| e.to_string()));
        let mut tree = match tree {
            Ok(t) => t,
            Err(Ok(e) | Err(e)) => {
                rep.harness_error = Some(format!("{name}: generator failed: {e}"));
                stop.store(true, Ordering::Relaxed);
                break;
            }
        };
        let mut case = tree.current();
        match eval(&case, Some(&mut rep)) {
            Ok(()) => {}
            Err(Err(m)) => {
                rep.harness_error = Some(format!("{name}: {m}"));
                stop.store(true, Ordering::Relaxed);
                break;
            }
            Err(Ok(mut message)) => {
                stop.store(true, Ordering::Relaxed);
                let deadline = Instant::now() + Duration::from_secs(40);
                let mut steps = 0;
                'shrink: while tree.simplify() {
                    loop {
                        steps += 1;
                        if steps > 20000 || Instant::now() > deadline {
                            break 'shrink;
                        }
                        let cand = tree.current();
                        if let Err(Ok(m)) = eval(&cand, None) {
                            case = cand;
                            message = m;
                            break;
                        }
                        if !tree.complicate() {
                            break 'shrink;
                        }
                    }
                }
                rep.failure = Some(Failure {
                    sub: name,
                    shard,
                    index,
                    message,
                    case: serde_json::to_value(&case).unwrap(),
                    shrink_steps: steps,
                });
                break;
            }
        }
    }
    rep
}

/// What a known-finding probe observed.
pub enum Probe {
    /// The listed wrong behaviour, exactly.
    Listed(String),
    /// The property holds on the listed input now.
    Fixed,
    /// Something else is wrong on the listed input.
    Different(String),
}

/// One property: its checks and the probes of its listed findings.
pub struct Property {
    pub id: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub subs: Vec<Sub>,
    pub probes: Vec<(&'static str, Box<dyn Fn(&Env) -> Probe>)>,
}

struct Known {
    property: String,
    probe: String,
}

/// Lines `known: property=<id> probe=<name> <what fails>` of known_findings.txt.
/// `fixed:` lines document repairs and suppress nothing.
fn load_known(verif: &Path) -> Vec<Known> {
    let text = std::fs::read_to_string(verif.join("known_findings.txt")).unwrap_or_default();
    text.lines()
        .filter_map(|l| l.strip_prefix("known: "))
        .map(|l| {
            let field = |k: &str| {
                l.split_whitespace()
                    .find_map(|w| w.strip_prefix(k).and_then(|w| w.strip_prefix('=')))
                    .unwrap_or_default()
                    .to_string()
            };
            Known { property: field("property"), probe: field("probe") }
        })
        .collect()
}

/// Runs the whole property; returns the exit code.
pub fn run_property(env: &Env, prop: &Property) -> i32 {
    let start = Instant::now();
    let mut evaluations = 0;
    let mut nontrivial = 0;
    let mut samples = vec![];
    let mut per_check = serde_json::Map::new();
    let mut violation: Option<(String, Value)> = None;
    let mut error = None;

    for k in load_known(&env.verif) {
        if k.property != prop.id {
            continue;
        }
        let Some(p) = prop.probes.iter().find(|p| p.0 == k.probe) else {
            error = Some(format!("no probe named {}", k.probe));
            continue;
        };
        evaluations += 1;
        match p.1(env) {
            Probe::Listed(what) => println!("KNOWN-FINDING: property={} {what}", prop.id),
            Probe::Fixed => println!("note: listed finding {} no longer fails", k.probe),
            Probe::Different(what) => {
                violation = Some((what, json!({"probe": k.probe})));
            }
        }
    }

    for s in &prop.subs {
        if violation.is_some() || error.is_some() {
            break;
        }
        if let Ok(only) = std::env::var("VERIF_ONLY") {
            if only != s.name {
                continue;
            }
        }
        let t = Instant::now();
        let r = (s.run)(env);
        evaluations += r.evaluations;
        nontrivial += r.nontrivial.len();
        samples.extend(r.samples);
        per_check.insert(
            s.name.to_string(),
            json!({
                "evaluations": r.evaluations,
                "distinct_nontrivial": r.nontrivial.len(),
                "classes": r.labels,
                "wall_s": t.elapsed().as_secs_f64(),
            }),
        );
        println!(
            "{} {}: {} cases, {} distinct non-trivial, {:.1}s",
            prop.id,
            s.name,
            r.evaluations,
            r.nontrivial.len(),
            t.elapsed().as_secs_f64()
        );
        if let Some(f) = r.failure {
            println!(
                "{} {}: FAILED at shard {} case {} (shrunk in {} steps): {}",
                prop.id, f.sub, f.shard, f.index, f.shrink_steps, f.message
            );
            violation = Some((
                f.message.clone(),
                json!({"property": prop.id, "check": f.sub, "message": f.message,
                       "seed": env.seed, "case": f.case}),
            ));
        }
        if let Some(e) = r.harness_error {
            error = Some(e);
        }
    }

    let evidence = json!({
        "property": prop.id,
        "tier": if env.tier == Tier::Quick {"quick"} else {"thorough"},
        "seed": env.seed,
        "level": "exploration",
        "coverage": {
            "evaluations": evaluations,
            "distinct_nontrivial": nontrivial,
            "rule": prop.rule,
            "samples": samples,
            "checks": per_check,
        },
        "assumptions": prop.assumptions,
        "wall_s": start.elapsed().as_secs_f64(),
        "violations": usize::from(violation.is_some()),
    });
    let dir = env.verif.join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    if let Err(e) = std::fs::write(
        dir.join(format!("{}.json", prop.id)),
        serde_json::to_string_pretty(&evidence).unwrap() + "\n",
    ) {
        eprintln!("cannot write evidence: {e}");
        return 2;
    }
    if let Some((msg, replay)) = violation {
        let dir = env.verif.join("replays");
        let _ = std::fs::create_dir_all(&dir);
        let path = dir.join(format!("{}.json", prop.id));
        if let Err(e) = std::fs::write(&path, serde_json::to_string_pretty(&replay).unwrap() + "\n") {
            eprintln!("cannot write the replay file: {e}");
        }
        println!("{msg}");
        println!("VIOLATION property={} replay={}", prop.id, path.display());
        return 1;
    }
    if let Some(e) = error {
        eprintln!("ERROR in the check: {e}");
        return 2;
    }
    0
}
