//! Shared runner for the property checks.
//!
//! A check (one property) is a list of sub-checks. Each sub-check is a proptest strategy that
//! generates a serialisable case and a function that runs the case against the real code and an
//! oracle. The runner is a pure function of (code, VERIF_SEED, VERIF_TIER): a fixed number of
//! shards, each with its own derived seed and fixed case count.

pub mod cobs;
pub mod frames;

use std::{
    any::Any,
    cell::RefCell,
    collections::{BTreeMap, HashSet},
    fmt::Debug,
    hash::{Hash, Hasher},
    panic::AssertUnwindSafe,
    path::{Path, PathBuf},
    process::exit,
    sync::{
        atomic::{AtomicBool, AtomicU64, Ordering},
        Arc, Mutex,
    },
    time::{Duration, Instant},
};

use proptest::{
    strategy::Strategy,
    test_runner::{Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner},
};
use serde::{de::DeserializeOwned, Serialize};
use serde_json::{json, Value};

pub use proptest;
pub use serde;
pub use serde_json;

/// What running one case told us.
#[derive(Default, Clone, Debug)]
pub struct Outcome {
    /// Non-trivial by the sub-check's rule
    pub nontrivial: bool,
    /// Classes the case belongs to, for the distribution in the evidence
    pub labels: Vec<&'static str>,
}

impl Outcome {
    pub fn new(nontrivial: bool) -> Self {
        Self { nontrivial, labels: vec![] }
    }
    pub fn label(mut self, cond: bool, l: &'static str) -> Self {
        if cond && !self.labels.contains(&l) {
            self.labels.push(l);
        }
        self
    }
}

pub type CaseResult = Result<Outcome, String>;

/// `ensure!(cond, "fmt", ..)` returns Err(String) from the case function.
#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => {
        if !($c) {
            return Err(format!($($a)*));
        }
    };
}

#[macro_export]
macro_rules! ensure_eq {
    ($a:expr, $b:expr, $($f:tt)*) => {{
        let (a, b) = (&$a, &$b);
        if !(a == b) {
            return Err(format!("{}: got {:?}, expected {:?}", format!($($f)*), a, b));
        }
    }};
}

/// Panic payload used for defects of the harness itself; never reported as a violation.
pub struct HarnessError(pub String);

pub fn harness_error(msg: impl Into<String>) -> ! {
    std::panic::panic_any(HarnessError(msg.into()))
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

pub struct Run {
    pub id: String,
    pub tier: Tier,
    pub seed: u64,
    root: PathBuf,
    start: Instant,
    replay: Option<Value>,
    replay_hit: bool,
    evaluations: u64,
    nontrivial: u64,
    rules: Vec<String>,
    samples: Vec<Value>,
    subs: BTreeMap<String, Value>,
    assumptions: Vec<String>,
    violations: Vec<(String, PathBuf)>,
    known: Vec<Known>,
    known_seen: Vec<String>,
    exhaustive_subs: usize,
}

/// One recorded-not-repaired finding of the known-findings file.
#[derive(Clone, Debug, serde::Deserialize)]
struct Known {
    property: String,
    sub: String,
    signature: String,
    what: String,
}

thread_local! {
    static PANIC_MSG: RefCell<Option<String>> = const { RefCell::new(None) };
}

const SHARDS: u64 = 8;

fn fnv(data: &[u8]) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    for b in data {
        h ^= *b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}

fn derive_seed(seed: u64, id: &str, sub: &str, shard: u64) -> [u8; 32] {
    let mut out = [0u8; 32];
    for i in 0..4u64 {
        let s = format!("{seed}/{id}/{sub}/{shard}/{i}");
        let mut h = fnv(s.as_bytes());
        h ^= h >> 33;
        h = h.wrapping_mul(0xff51afd7ed558ccd);
        h ^= h >> 33;
        h = h.wrapping_mul(0xc4ceb9fe1a85ec53);
        h ^= h >> 33;
        out[i as usize * 8..][..8].copy_from_slice(&h.to_le_bytes());
    }
    out
}

fn panic_to_string(p: Box<dyn Any + Send>) -> Result<String, HarnessError> {
    let p = match p.downcast::<HarnessError>() {
        Ok(h) => return Err(*h),
        Err(p) => p,
    };
    let base = if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "<non-string panic>".to_string()
    };
    let full = PANIC_MSG.with(|m| m.borrow_mut().take());
    Ok(full.unwrap_or(base))
}

fn truncate(s: String, n: usize) -> String {
    if s.len() <= n {
        return s;
    }
    let mut e = n;
    while !s.is_char_boundary(e) {
        e -= 1;
    }
    format!("{}… ({} bytes)", &s[..e], s.len())
}

/// The case a thread is running right now, for the hang detector.
struct Current {
    since: Instant,
    sub: String,
    case: Box<dyn Fn() -> Value + Send>,
}
type Slot = Arc<Mutex<Option<Current>>>;
static SLOTS: Mutex<Vec<Slot>> = Mutex::new(vec![]);
thread_local! {
    static SLOT: Slot = {
        let s: Slot = Default::default();
        SLOTS.lock().unwrap().push(s.clone());
        s
    };
}
/// One case takes milliseconds; one that is still running after this long does not terminate.
const HANG_S: u64 = 60;

/// A single case that never finishes (a busy loop in the code under test) is a violation.
fn hang_detector(id: String, root: PathBuf, tier: Tier, seed: u64) {
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_secs(2));
        let slots = SLOTS.lock().unwrap().clone();
        for s in slots {
            let s = s.lock().unwrap();
            let Some(c) = &*s else { continue };
            if c.since.elapsed() < Duration::from_secs(HANG_S) {
                continue;
            }
            let msg = format!("the case did not terminate within {HANG_S}s (busy loop)");
            let case = (c.case)();
            let body = json!({"property": id, "sub": c.sub, "seed": seed, "message": msg, "case": case});
            let text = serde_json::to_string_pretty(&body).unwrap();
            let dir = root.join("replays");
            let _ = std::fs::create_dir_all(&dir);
            let path = dir.join(format!("{}-{}-hang-{:08x}.json", id, c.sub, fnv(text.as_bytes()) as u32));
            let _ = std::fs::write(&path, text);
            let ev = json!({
                "property": id,
                "tier": match tier { Tier::Quick => "quick", Tier::Thorough => "thorough" },
                "seed": seed, "level": "exploration",
                "coverage": {"evaluations": 1, "distinct_nontrivial": 1,
                             "rule": "a case that did not terminate", "samples": [case]},
                "assumptions": [], "wall_s": HANG_S, "violations": 1,
            });
            let _ = std::fs::create_dir_all(root.join("evidence"));
            let _ = std::fs::write(root.join("evidence").join(format!("{id}.json")), serde_json::to_string_pretty(&ev).unwrap());
            println!("--- {id} / {}: {msg}", c.sub);
            println!("VIOLATION property={id} replay={}", path.display());
            exit(1);
        }
    });
}

fn run_case<C: Clone + Serialize + Send + 'static>(
    sub: &str, f: &(dyn Fn(&C) -> CaseResult + Sync), case: &C,
) -> CaseResult {
    let slot = SLOT.with(|s| s.clone());
    let cc = case.clone();
    *slot.lock().unwrap() = Some(Current {
        since: Instant::now(),
        sub: sub.to_string(),
        case: Box::new(move || serde_json::to_value(&cc).unwrap_or(Value::Null)),
    });
    let r = std::panic::catch_unwind(AssertUnwindSafe(|| f(case)));
    *slot.lock().unwrap() = None;
    match r {
        Ok(r) => r,
        Err(p) => match panic_to_string(p) {
            Ok(msg) => Err(format!("panic: {msg}")),
            Err(h) => {
                println!("HARNESS-ERROR: {}", h.0);
                eprintln!("HARNESS-ERROR: {}", h.0);
                exit(2);
            }
        },
    }
}

impl Run {
    fn cfg(cases: u32) -> Config {
        Config {
            cases,
            failure_persistence: None,
            max_shrink_iters: 30_000,
            max_shrink_time: 60_000,
            max_local_rejects: 1_000_000,
            max_global_rejects: 1_000_000,
            source_file: None,
            verbose: 0,
            ..Config::default()
        }
    }

    pub fn assume(&mut self, s: &str) {
        if !self.assumptions.iter().any(|a| a == s) {
            self.assumptions.push(s.to_string());
        }
    }

    pub fn is_replay(&self) -> bool {
        self.replay.is_some()
    }

    fn note_violation(&mut self, sub: &str, msg: &str, case: &impl Serialize) {
        // A recorded finding is suppressed only when sub-check and message signature match.
        if let Some(k) = self
            .known
            .iter()
            .find(|k| k.property == self.id && k.sub == sub && msg.contains(&k.signature))
        {
            let line = format!("KNOWN-FINDING: property={} {}", self.id, k.what);
            if !self.known_seen.contains(&line) {
                println!("{line}");
                self.known_seen.push(line);
            }
            return;
        }
        let dir = self.root.join("replays");
        let _ = std::fs::create_dir_all(&dir);
        let body = json!({
            "property": self.id, "sub": sub, "seed": self.seed,
            "message": msg, "case": case,
        });
        let text = serde_json::to_string_pretty(&body).unwrap();
        let name = format!("{}-{}-{:08x}.json", self.id, sub, fnv(text.as_bytes()) as u32);
        let path = dir.join(name);
        std::fs::write(&path, text).unwrap_or_else(|e| {
            println!("HARNESS-ERROR: cannot write replay: {e}");
            exit(2)
        });
        println!("--- {} / {}: {}", self.id, sub, truncate(msg.to_string(), 4000));
        println!("VIOLATION property={} replay={}", self.id, path.display());
        self.violations.push((sub.to_string(), path));
    }

    /// Random search. `quick`/`thorough` are the number of generated cases per tier.
    pub fn check<S, C>(
        &mut self,
        sub: &str,
        rule: &str,
        quick: u64,
        thorough: u64,
        mk: impl Fn() -> S + Sync,
        f: impl Fn(&C) -> CaseResult + Sync,
    ) where
        S: Strategy<Value = C>,
        C: Debug + Clone + Serialize + DeserializeOwned + Send + 'static,
    {
        if let Some(r) = self.replay.clone() {
            if r["sub"] == sub {
                self.replay_hit = true;
                let case: C = serde_json::from_value(r["case"].clone()).unwrap_or_else(|e| {
                    println!("HARNESS-ERROR: replay does not parse: {e}");
                    exit(2)
                });
                println!("replaying {} / {}", self.id, sub);
                match run_case(sub, &f, &case) {
                    Ok(o) => println!("case holds (nontrivial={} labels={:?})", o.nontrivial, o.labels),
                    Err(m) => self.note_violation(sub, &m, &case),
                }
            }
            return;
        }
        if let Ok(only) = std::env::var("VERIF_ONLY_SUB") {
            if only != sub {
                return;
            }
        }

        let t0 = Instant::now();
        let mut evals = 0u64;
        let mut regress = 0u64;

        // Saved regression inputs first.
        let rdir = self.root.join("regress").join(&self.id);
        if let Ok(rd) = std::fs::read_dir(&rdir) {
            let mut files: Vec<_> = rd.filter_map(|e| e.ok()).map(|e| e.path()).collect();
            files.sort();
            for p in files {
                let v: Value = match std::fs::read(&p).ok().and_then(|b| serde_json::from_slice(&b).ok()) {
                    Some(v) => v,
                    None => continue,
                };
                if v["sub"] != sub {
                    continue;
                }
                let case: C = match serde_json::from_value(v["case"].clone()) {
                    Ok(c) => c,
                    Err(e) => {
                        println!("HARNESS-ERROR: regression {} does not parse: {e}", p.display());
                        exit(2)
                    }
                };
                regress += 1;
                evals += 1;
                if let Err(m) = run_case(sub, &f, &case) {
                    self.note_violation(sub, &m, &case);
                }
            }
        }
        if !self.violations.is_empty() {
            self.finish_sub(sub, rule, evals, 0, regress, BTreeMap::new(), vec![], t0, false);
            return;
        }

        let total = match self.tier {
            Tier::Quick => quick,
            Tier::Thorough => thorough,
        };
        let total = match std::env::var("VERIF_SCALE").ok().and_then(|s| s.parse::<f64>().ok()) {
            Some(s) => ((total as f64 * s) as u64).max(SHARDS),
            None => total,
        };
        let per = total.div_ceil(SHARDS).max(1);

        struct Shard<C> {
            evals: u64,
            nontrivial: HashSet<u64>,
            labels: BTreeMap<&'static str, u64>,
            samples: Vec<C>,
            fail: Option<(String, C)>,
        }

        let id = self.id.clone();
        let seed = self.seed;
        let f = &f;
        let mk = &mk;
        let stop = &AtomicBool::new(false);
        let found_min = &AtomicU64::new(u64::MAX);
        let mut shards: Vec<Shard<C>> = std::thread::scope(|s| {
            let hs: Vec<_> = (0..SHARDS)
                .map(|sh| {
                    let id = id.clone();
                    std::thread::Builder::new()
                        .stack_size(16 << 20)
                        .spawn_scoped(s, move || {
                            let rng = TestRng::from_seed(
                                RngAlgorithm::ChaCha,
                                &derive_seed(seed, &id, sub, sh),
                            );
                            let mut runner = TestRunner::new_with_rng(Self::cfg(per as u32), rng);
                            let st = RefCell::new(Shard::<C> {
                                evals: 0,
                                nontrivial: HashSet::new(),
                                labels: BTreeMap::new(),
                                samples: vec![],
                                fail: None,
                            });
                            let failed = std::cell::Cell::new(false);
                            let res = runner.run(&mk(), |case| {
                                // a lower shard already has a counterexample being shrunk
                                if stop.load(Ordering::Relaxed)
                                    && !failed.get()
                                    && found_min.load(Ordering::Relaxed) < sh
                                {
                                    return Ok(());
                                }
                                match run_case(sub, f, &case) {
                                    Ok(o) => {
                                        if !failed.get() {
                                            let mut st = st.borrow_mut();
                                            st.evals += 1;
                                            for l in &o.labels {
                                                *st.labels.entry(l).or_insert(0) += 1;
                                            }
                                            if o.nontrivial {
                                                let h = fnv(format!("{case:?}").as_bytes());
                                                if st.nontrivial.insert(h) && st.samples.len() < 2 {
                                                    st.samples.push(case);
                                                }
                                            }
                                        }
                                        Ok(())
                                    }
                                    Err(m) => {
                                        if !failed.get() {
                                            st.borrow_mut().evals += 1;
                                        }
                                        failed.set(true);
                                        found_min.fetch_min(sh, Ordering::Relaxed);
                                        stop.store(true, Ordering::Relaxed);
                                        Err(TestCaseError::fail(m))
                                    }
                                }
                            });
                            let mut st = st.into_inner();
                            match res {
                                Ok(()) => {}
                                Err(TestError::Fail(r, c)) => st.fail = Some((r.message().to_string(), c)),
                                Err(TestError::Abort(r)) => {
                                    println!("HARNESS-ERROR: generator aborted: {}", r.message());
                                    exit(2)
                                }
                            }
                            st
                        })
                        .unwrap()
                })
                .collect();
            hs.into_iter().map(|h| h.join().unwrap_or_else(|_| {
                println!("HARNESS-ERROR: shard thread died");
                exit(2)
            })).collect()
        });

        let mut labels: BTreeMap<&'static str, u64> = BTreeMap::new();
        let mut all = HashSet::new();
        let mut samples = vec![];
        let mut first_fail = None;
        for s in shards.iter_mut() {
            evals += s.evals;
            all.extend(s.nontrivial.iter().copied());
            for (k, v) in &s.labels {
                *labels.entry(k).or_insert(0) += v;
            }
            if samples.len() < 2 {
                samples.append(&mut s.samples);
            }
            if first_fail.is_none() {
                first_fail = s.fail.take();
            }
        }
        if let Some((m, c)) = first_fail {
            self.note_violation(sub, &m, &c);
        }
        let samples: Vec<Value> = samples
            .into_iter()
            .take(2)
            .map(|c| {
                let v = serde_json::to_value(&c).unwrap_or(Value::Null);
                let txt = v.to_string();
                if txt.len() > 1500 {
                    json!({"sub": sub, "case_truncated": truncate(txt, 1500)})
                } else {
                    json!({"sub": sub, "case": v})
                }
            })
            .collect();
        self.finish_sub(sub, rule, evals, all.len() as u64, regress, labels, samples, t0, false);
    }

    /// Exhaustive enumeration of a finite space.
    pub fn exhaust<C>(
        &mut self,
        sub: &str,
        rule: &str,
        items: impl Iterator<Item = C>,
        f: impl Fn(&C) -> CaseResult + Sync,
    ) where
        C: Debug + Clone + Serialize + DeserializeOwned + Send + 'static,
    {
        if let Some(r) = self.replay.clone() {
            if r["sub"] == sub {
                self.replay_hit = true;
                let case: C = serde_json::from_value(r["case"].clone()).unwrap();
                match run_case(sub, &f, &case) {
                    Ok(_) => println!("case holds"),
                    Err(m) => self.note_violation(sub, &m, &case),
                }
            }
            return;
        }
        if let Ok(only) = std::env::var("VERIF_ONLY_SUB") {
            if only != sub {
                return;
            }
        }
        let t0 = Instant::now();
        let (mut n, mut nt) = (0u64, 0u64);
        let mut labels: BTreeMap<&'static str, u64> = BTreeMap::new();
        let mut samples = vec![];
        for c in items {
            n += 1;
            match run_case(sub, &f, &c) {
                Ok(o) => {
                    for l in &o.labels {
                        *labels.entry(l).or_insert(0) += 1;
                    }
                    if o.nontrivial {
                        nt += 1;
                        if samples.is_empty() {
                            samples.push(json!({"sub": sub, "case": truncate(format!("{c:?}"), 1500)}));
                        }
                    }
                }
                Err(m) => {
                    self.note_violation(sub, &m, &c);
                    break;
                }
            }
        }
        self.finish_sub(sub, rule, n, nt, 0, labels, samples, t0, true);
    }

    #[allow(clippy::too_many_arguments)]
    fn finish_sub(
        &mut self,
        sub: &str,
        rule: &str,
        evals: u64,
        nt: u64,
        regress: u64,
        labels: BTreeMap<&'static str, u64>,
        samples: Vec<Value>,
        t0: Instant,
        exhaustive: bool,
    ) {
        if exhaustive {
            self.exhaustive_subs += 1;
        }
        self.evaluations += evals;
        self.nontrivial += nt;
        self.rules.push(format!("[{sub}] {rule}"));
        self.samples.extend(samples);
        println!(
            "{} {sub}: {evals} cases, {nt} distinct non-trivial, {:.1}s {:?}",
            self.id,
            t0.elapsed().as_secs_f64(),
            labels
        );
        self.subs.insert(
            sub.to_string(),
            json!({"evaluations": evals, "distinct_nontrivial": nt, "regressions": regress,
                   "labels": labels, "exhaustive": exhaustive,
                   "seconds": t0.elapsed().as_secs_f64()}),
        );
    }

    /// For checks with their own search loop (e.g. generated programs).
    pub fn external(
        &mut self,
        sub: &str,
        rule: &str,
        evals: u64,
        nt: u64,
        labels: BTreeMap<&'static str, u64>,
        samples: Vec<Value>,
        t0: Instant,
    ) {
        self.finish_sub(sub, rule, evals, nt, 0, labels, samples, t0, false)
    }
    pub fn external_violation(&mut self, sub: &str, msg: &str, case: &impl Serialize) {
        self.note_violation(sub, msg, case)
    }
    pub fn replay_case(&mut self, sub: &str) -> Option<Value> {
        let r = self.replay.as_ref()?;
        if r["sub"] == sub {
            self.replay_hit = true;
            Some(r["case"].clone())
        } else {
            None
        }
    }

    fn write_evidence(&self) {
        let dir = self.root.join("evidence");
        let _ = std::fs::create_dir_all(&dir);
        let ev = json!({
            "property": self.id,
            "tier": match self.tier { Tier::Quick => "quick", Tier::Thorough => "thorough" },
            "seed": self.seed,
            "level": "exploration",
            "coverage": {
                "evaluations": self.evaluations,
                "distinct_nontrivial": self.nontrivial,
                "rule": self.rules.join(" | "),
                "samples": self.samples,
                "sub_checks": self.subs,
            },
            "assumptions": self.assumptions,
            "wall_s": self.start.elapsed().as_secs_f64(),
            "violations": self.violations.len(),
        });
        let p = dir.join(format!("{}.json", self.id));
        std::fs::write(&p, serde_json::to_string_pretty(&ev).unwrap()).unwrap_or_else(|e| {
            println!("HARNESS-ERROR: cannot write evidence: {e}");
            exit(2)
        });
    }
}

fn find_root() -> PathBuf {
    if let Ok(r) = std::env::var("VERIF_ROOT") {
        return PathBuf::from(r);
    }
    PathBuf::from("/verif")
}

/// Entry point: `bin <ID> [--replay FILE]`
pub fn main_with(checks: &[(&str, fn(&mut Run))]) -> ! {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        PANIC_MSG.with(|m| *m.borrow_mut() = Some(format!("{msg} at {loc}")));
    }));

    let args: Vec<String> = std::env::args().skip(1).collect();
    let id = args.first().cloned().unwrap_or_else(|| {
        println!("usage: <ID> [--replay FILE]");
        exit(2)
    });
    let replay = args.iter().position(|a| a == "--replay").map(|i| {
        let p = args.get(i + 1).map(PathBuf::from).unwrap_or_else(|| exit(2));
        load_json(&p)
    });
    let tier = match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    };
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1u64);
    let Some((_, f)) = checks.iter().find(|(n, _)| *n == id) else {
        println!("unknown property {id}");
        exit(2)
    };
    let root = find_root();
    let known = match std::fs::read(root.join("known_findings.json")) {
        Ok(b) => {
            let v: Value = serde_json::from_slice(&b).unwrap_or_else(|e| {
                println!("HARNESS-ERROR: known_findings.json: {e}");
                exit(2)
            });
            serde_json::from_value(v["known"].clone()).unwrap_or_else(|e| {
                println!("HARNESS-ERROR: known_findings.json: {e}");
                exit(2)
            })
        }
        Err(_) => vec![],
    };

    // Watchdog: running out of time is an error of the check, never a violation.
    let limit = std::env::var("VERIF_WATCHDOG_S").ok().and_then(|s| s.parse().ok()).unwrap_or(
        match tier {
            Tier::Quick => 700u64,
            Tier::Thorough => 6 * 3600,
        },
    );
    let done = Arc::new(Mutex::new(()));
    let _keep = done.clone();
    std::thread::spawn(move || {
        std::thread::sleep(Duration::from_secs(limit));
        println!("WATCHDOG: no result after {limit}s; inconclusive");
        exit(3);
    });

    hang_detector(id.clone(), root.clone(), tier, seed);
    let mut run = Run {
        id: id.clone(),
        tier,
        seed,
        root,
        start: Instant::now(),
        replay,
        replay_hit: false,
        evaluations: 0,
        nontrivial: 0,
        rules: vec![],
        samples: vec![],
        subs: BTreeMap::new(),
        assumptions: vec![],
        violations: vec![],
        known,
        known_seen: vec![],
        exhaustive_subs: 0,
    };
    let r = std::panic::catch_unwind(AssertUnwindSafe(|| f(&mut run)));
    if let Err(p) = r {
        let m = panic_to_string(p).unwrap_or_else(|h| h.0);
        println!("HARNESS-ERROR: {m}");
        exit(2);
    }
    if run.replay.is_some() {
        if !run.replay_hit {
            println!("replay names a sub-check that does not exist");
            exit(2);
        }
        exit(if run.violations.is_empty() { 0 } else { 1 });
    }
    run.write_evidence();
    println!(
        "{}: {} cases, {} distinct non-trivial, {} violation(s), {:.1}s",
        id,
        run.evaluations,
        run.nontrivial,
        run.violations.len(),
        run.start.elapsed().as_secs_f64()
    );
    exit(if run.violations.is_empty() { 0 } else { 1 })
}

fn load_json(p: &Path) -> Value {
    let b = std::fs::read(p).unwrap_or_else(|e| {
        println!("cannot read {}: {e}", p.display());
        exit(2)
    });
    serde_json::from_slice(&b).unwrap_or_else(|e| {
        println!("cannot parse {}: {e}", p.display());
        exit(2)
    })
}

/// Hash helper for dedup keys.
pub fn hash_of<T: Hash>(t: &T) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

/// Histories: mostly random ones, now and then a short pattern repeated many times (for what
/// only shows after long runs of the same), then a random tail
pub fn hist<T, S>(s: S, short: std::ops::Range<usize>) -> proptest::strategy::BoxedStrategy<Vec<T>>
where
    T: Clone + std::fmt::Debug + 'static,
    S: Strategy<Value = T> + 'static,
{
    let s = s.boxed();
    proptest::prop_oneof![
        60 => proptest::collection::vec(s.clone(), short.clone()),
        1 => (proptest::collection::vec(s.clone(), 1..4), proptest::prop_oneof![8usize..80, 8usize..320], proptest::collection::vec(s, short))
            .prop_map(|(p, n, tail)| p.iter().cycle().take(n).cloned().chain(tail).collect()),
    ]
    .boxed()
}
