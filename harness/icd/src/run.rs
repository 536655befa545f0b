//! C14: generated interface programs, compiled in both build configurations and run.

use std::{
    collections::{BTreeMap, BTreeSet},
    path::{Path, PathBuf},
    process::{exit, Command, Stdio},
    sync::{
        atomic::{AtomicUsize, Ordering},
        Mutex,
    },
    time::{Duration, Instant},
};

use crate::gen::{gen_module, is_lt, negate, text, Cfg, Module, Rng};
use vcommon::{serde_json, serde_json::json, Run, Tier};

fn harness(msg: impl AsRef<str>) -> ! {
    println!("HARNESS-ERROR: {}", msg.as_ref());
    exit(2)
}

struct Conf {
    name: &'static str,
    deps: PathBuf,
    externs: Vec<(String, PathBuf)>,
}
struct Env {
    work: PathBuf,
    confs: Vec<Conf>,
}

fn root() -> PathBuf {
    PathBuf::from(std::env::var("VERIF_ROOT").unwrap_or("/verif".into()))
}

/// Build the oracle crate (and the crate under test) in one configuration
fn base(name: &'static str, features: &[&str]) -> Conf {
    let dir = root().join("harness/icd");
    let target = dir.join("work").join(name);
    let mut c = Command::new("cargo");
    c.args(["build", "--offline", "--quiet", "--message-format=json"])
        .arg("--manifest-path")
        .arg(dir.join("base/Cargo.toml"))
        .arg("--target-dir")
        .arg(&target)
        .args(features);
    let o = c.output().unwrap_or_else(|e| harness(format!("cargo: {e}")));
    if !o.status.success() {
        println!("{}", String::from_utf8_lossy(&o.stderr));
        for l in String::from_utf8_lossy(&o.stdout).lines() {
            if let Ok(v) = serde_json::from_str::<serde_json::Value>(l) {
                if v["message"]["level"] == "error" {
                    println!("{}", v["message"]["rendered"].as_str().unwrap_or(""));
                }
            }
        }
        println!("BUILD-ERROR: {name} build of the crate under test failed");
        exit(2);
    }
    let mut externs = vec![];
    for l in String::from_utf8_lossy(&o.stdout).lines() {
        let Ok(v) = serde_json::from_str::<serde_json::Value>(l) else { continue };
        if v["reason"] != "compiler-artifact" {
            continue;
        }
        let n = v["target"]["name"].as_str().unwrap_or("").replace('-', "_");
        if !["postcard_rpc", "postcard", "postcard_schema", "serde", "icdsup"].contains(&n.as_str()) {
            continue;
        }
        for f in v["filenames"].as_array().unwrap() {
            let f = f.as_str().unwrap();
            if f.ends_with(".rlib") {
                externs.push((n.clone(), PathBuf::from(f)));
            }
        }
    }
    if externs.len() != 5 {
        harness(format!("{name}: found {:?}", externs.iter().map(|e| &e.0).collect::<Vec<_>>()));
    }
    Conf { name, deps: target.join("debug/deps"), externs }
}

enum Compiled {
    Ok,
    Rejected(String),
}
fn compile(conf: &Conf, src: &Path, out: &Path, meta_only: bool) -> Compiled {
    let mut c = Command::new("rustc");
    c.args(["--edition", "2021", "--cap-lints", "allow", "-C", "debuginfo=0", "-C", "opt-level=0", "--crate-type", "bin", "--crate-name", "icdprog"]);
    if meta_only {
        c.args(["--emit", "metadata"]);
    }
    c.arg("-L").arg(format!("dependency={}", conf.deps.display()));
    for (n, p) in &conf.externs {
        c.arg("--extern").arg(format!("{n}={}", p.display()));
    }
    c.arg("-o").arg(out).arg(src);
    let o = c.output().unwrap_or_else(|e| harness(format!("rustc: {e}")));
    match o.status.code() {
        Some(0) => Compiled::Ok,
        Some(1) => Compiled::Rejected(String::from_utf8_lossy(&o.stderr).into_owned()),
        c => harness(format!("rustc ended with {c:?}: {}", String::from_utf8_lossy(&o.stderr))),
    }
}

#[derive(Default, Clone, Debug)]
struct ModOut {
    labels: BTreeSet<String>,
    facts: Vec<String>,
    problems: Vec<String>,
    complete: bool,
}
fn execute(bin: &Path) -> Result<Vec<ModOut>, String> {
    let out = bin.with_extension("out");
    let f = std::fs::File::create(&out).unwrap_or_else(|e| harness(format!("{e}")));
    let mut ch = Command::new(bin)
        .stdout(Stdio::from(f))
        .stderr(Stdio::null())
        .spawn()
        .unwrap_or_else(|e| harness(format!("{}: {e}", bin.display())));
    let t0 = Instant::now();
    let st = loop {
        match ch.try_wait() {
            Ok(Some(s)) => break s,
            Ok(None) if t0.elapsed() > Duration::from_secs(60) => {
                let _ = ch.kill();
                return Err("the program did not end within 60 s".into());
            }
            Ok(None) => std::thread::sleep(Duration::from_millis(3)),
            Err(e) => harness(format!("{e}")),
        }
    };
    let txt = std::fs::read_to_string(&out).unwrap_or_default();
    let mut v: Vec<ModOut> = vec![];
    for l in txt.lines() {
        if l.starts_with("@module ") {
            v.push(Default::default());
            continue;
        }
        let Some(m) = v.last_mut() else { continue };
        if let Some(x) = l.strip_prefix("@label ") {
            m.labels.insert(x.into());
        } else if let Some(x) = l.strip_prefix("@fact ") {
            m.facts.push(x.into());
        } else if let Some(x) = l.strip_prefix("@problem ") {
            m.problems.push(x.into());
        } else if l.starts_with("@end ") {
            m.complete = true;
        }
    }
    if !st.success() {
        return Err(format!("the program ended with {st}"));
    }
    Ok(v)
}

fn program(ms: &[&Module]) -> String {
    let mut s = String::from("#![allow(warnings)]\n");
    for (i, m) in ms.iter().enumerate() {
        s.push_str(&text(m, &format!("m{i}")));
    }
    s.push_str("fn main() {\nstd::panic::set_hook(Box::new(|_| {}));\n");
    for i in 0..ms.len() {
        s.push_str(&format!("icdsup::module(\"m{i}\", m{i}::check);\n"));
    }
    s.push_str("}\n");
    s
}

fn first_error(s: &str) -> String {
    s.lines().filter(|l| l.starts_with("error")).take(3).collect::<Vec<_>>().join("; ")
}

impl Env {
    fn setup() -> Env {
        let work = root().join("harness/icd/work");
        let (a, b) = std::thread::scope(|s| {
            let a = s.spawn(|| base("std", &["--features", "std"]));
            let b = s.spawn(|| base("nostd", &[]));
            (a.join().unwrap(), b.join().unwrap())
        });
        let gen = work.join("gen");
        let _ = std::fs::remove_dir_all(&gen);
        std::fs::create_dir_all(&gen).unwrap_or_else(|e| harness(format!("{e}")));
        Env { work: gen, confs: vec![a, b] }
    }
    /// Result per module: Ok(labels) or Err(message)
    fn eval(&self, tag: &str, ms: &[&Module]) -> Vec<Result<BTreeSet<String>, String>> {
        let dir = self.work.join(tag);
        std::fs::create_dir_all(&dir).unwrap_or_else(|e| harness(format!("{e}")));
        let src = dir.join("p.rs");
        std::fs::write(&src, program(ms)).unwrap_or_else(|e| harness(format!("{e}")));
        let mut outs = vec![];
        let mut bad = None;
        for c in &self.confs {
            let bin = dir.join(format!("p_{}", c.name));
            match compile(c, &src, &bin, false) {
                Compiled::Rejected(e) => {
                    bad = Some(format!("{} build: a valid interface does not compile: {}", c.name, first_error(&e)));
                    if std::env::var("ICD_DEBUG").is_ok() {
                        eprintln!("{e}");
                    }
                    break;
                }
                Compiled::Ok => match execute(&bin) {
                    Ok(v) => outs.push(v),
                    Err(e) => {
                        bad = Some(format!("{} build: {e}", c.name));
                        break;
                    }
                },
            }
        }
        if std::env::var("ICD_KEEP").is_err() {
            let _ = std::fs::remove_dir_all(&dir);
        }
        if let Some(e) = bad {
            if ms.len() == 1 {
                return vec![Err(e)];
            }
            let r: Vec<_> = ms.iter().enumerate().map(|(i, m)| self.eval(&format!("{tag}_{i}"), &[m]).remove(0)).collect();
            if r.iter().all(|x| x.is_ok()) {
                harness(format!("{tag}: batch fails but every module alone passes: {e}"));
            }
            return r;
        }
        (0..ms.len())
            .map(|i| {
                let mut labels = BTreeSet::new();
                let mut facts = vec![];
                for (c, o) in self.confs.iter().zip(&outs) {
                    let Some(m) = o.get(i) else { return Err(format!("{}: no report", c.name)) };
                    if !m.complete {
                        return Err(format!("{}: incomplete report", c.name));
                    }
                    if let Some(p) = m.problems.first() {
                        return Err(format!("{} build: {p}", c.name));
                    }
                    labels.extend(m.labels.iter().cloned());
                    facts.push(m.facts.clone());
                }
                if facts[0] != facts[1] {
                    let d = facts[0].iter().zip(&facts[1]).find(|(a, b)| a != b);
                    return Err(format!("host and embedded builds disagree: {d:?}"));
                }
                Ok(labels)
            })
            .collect()
    }
    /// A declaration that must be rejected. Err if it is accepted in either configuration.
    fn eval_neg(&self, tag: &str, m: &Module) -> Result<(), String> {
        let dir = self.work.join(tag);
        std::fs::create_dir_all(&dir).unwrap_or_else(|e| harness(format!("{e}")));
        let src = dir.join("p.rs");
        std::fs::write(&src, program(&[m])).unwrap_or_else(|e| harness(format!("{e}")));
        let mut r = Ok(());
        for c in &self.confs {
            match compile(c, &src, &dir.join(format!("p_{}", c.name)), false) {
                Compiled::Ok => {
                    r = Err(format!("{} build: the declaration with fault {:?} is accepted", c.name, m.neg.unwrap()));
                    break;
                }
                Compiled::Rejected(e) => {
                    if std::env::var("ICD_DEBUG").is_ok() {
                        eprintln!("{:?}: {}", m.neg, e.lines().filter(|l| l.starts_with("error") || l.contains("evaluation panicked")).take(2).collect::<Vec<_>>().join("; "));
                    }
                }
            }
        }
        if std::env::var("ICD_KEEP").is_err() {
            let _ = std::fs::remove_dir_all(&dir);
        }
        r
    }
    fn verdict(&self, tag: &str, m: &Module) -> Result<(), String> {
        if m.neg.is_some() {
            self.eval_neg(tag, m)
        } else {
            self.eval(tag, &[m]).remove(0).map(|_| ())
        }
    }
    fn shrink(&self, m: &Module, msg: String) -> (Module, String) {
        let (mut best, mut msg) = (m.clone(), msg);
        let t0 = Instant::now();
        for round in 0.. {
            let mut cands: Vec<Module> = vec![];
            let mut push = |f: &dyn Fn(&mut Module)| {
                let mut c = best.clone();
                f(&mut c);
                if c != best {
                    cands.push(c);
                }
            };
            push(&|c| c.dispatch = c.neg.is_some());
            push(&|c| c.singles.clear());
            push(&|c| c.eps.clear());
            push(&|c| c.tin.clear());
            push(&|c| c.tout.clear());
            for i in 0..best.eps.len() {
                push(&|c| drop(c.eps.remove(i)));
            }
            for i in 0..best.tin.len() {
                push(&|c| drop(c.tin.remove(i)));
            }
            for i in 0..best.tout.len() {
                push(&|c| drop(c.tout.remove(i)));
            }
            for i in 0..best.singles.len() {
                push(&|c| drop(c.singles.remove(i)));
            }
            for i in 0..3 {
                push(&|c| c.omit[i] = None);
                push(&|c| {
                    c.cfgcol[i] = false;
                    let t: Box<dyn Iterator<Item = &mut Cfg>> = match i {
                        0 => Box::new(c.eps.iter_mut().map(|e| { e.ghost = false; &mut e.cfg })),
                        1 => Box::new(c.tin.iter_mut().map(|e| { e.ghost = false; &mut e.cfg })),
                        _ => Box::new(c.tout.iter_mut().map(|e| { e.ghost = false; &mut e.cfg })),
                    };
                    for c in t {
                        *c = Cfg::None;
                    }
                });
            }
            let next = AtomicUsize::new(0);
            let found: Mutex<Option<(usize, String)>> = Mutex::new(None);
            std::thread::scope(|s| {
                for _ in 0..8 {
                    s.spawn(|| loop {
                        let i = next.fetch_add(1, Ordering::Relaxed);
                        if i >= cands.len() || found.lock().unwrap().as_ref().is_some_and(|f| f.0 < i) {
                            return;
                        }
                        if let Err(e) = self.verdict(&format!("s{round}_{i}"), &cands[i]) {
                            let mut f = found.lock().unwrap();
                            if f.as_ref().is_none_or(|f| f.0 > i) {
                                *f = Some((i, e));
                            }
                        }
                    });
                }
            });
            match found.into_inner().unwrap() {
                Some((i, e)) => {
                    best = cands[i].clone();
                    msg = e;
                }
                None => break,
            }
            if t0.elapsed() > Duration::from_secs(120) {
                break;
            }
        }
        (best, msg)
    }
}

const RULE: &str = "an interface with at least one declared entry that is switched on and a dispatcher";

pub fn c14(run: &mut Run) {
    let env = Env::setup();
    run.assume("generated programs use types without alloc, so that both configurations can compile them");
    run.assume("rows satisfy the macro grammar (one token tree per type cell, generic types through an alias, distinct lifetime names)");
    if let Some(v) = run.replay_case("programs").or_else(|| None) {
        let m: Module = serde_json::from_value(v).unwrap_or_else(|e| harness(format!("replay: {e}")));
        match env.verdict("replay", &m) {
            Ok(()) => println!("case holds"),
            Err(e) => run.external_violation("programs", &e, &m),
        }
        return;
    }
    if run.is_replay() {
        return;
    }
    let t0 = Instant::now();
    let mut evals = 0u64;
    // saved cases
    let mut fixed: Vec<Module> = vec![];
    if let Ok(rd) = std::fs::read_dir(root().join("regress/C14")) {
        let mut fs: Vec<_> = rd.filter_map(|e| e.ok()).map(|e| e.path()).collect();
        fs.sort();
        for f in fs {
            let v: serde_json::Value = serde_json::from_slice(&std::fs::read(&f).unwrap()).unwrap();
            fixed.push(serde_json::from_value(v["case"].clone()).unwrap_or_else(|e| harness(format!("{}: {e}", f.display()))));
        }
    }
    let (progs, batch, negs) = match run.tier {
        Tier::Quick => (40usize, 6usize, 32usize),
        Tier::Thorough => (400, 6, 400),
    };
    let scale: f64 = std::env::var("VERIF_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0);
    let progs = ((progs as f64 * scale) as usize).max(1);
    let negs = ((negs as f64 * scale) as usize).max(1);
    let mut r = Rng(run.seed.wrapping_mul(0x5851F42D4C957F2D) ^ 0xC14);
    let mut units: Vec<Vec<Module>> = fixed.into_iter().map(|m| vec![m]).collect();
    let nfixed = units.len();
    for _ in 0..progs {
        units.push((0..batch).map(|_| gen_module(&mut r)).collect());
    }
    let base: Vec<Module> = units[nfixed..].iter().flatten().filter(|m| m.dispatch).cloned().collect();
    for i in 0..negs {
        if let Some(n) = negate(i, &base[(i * 7) % base.len()]) {
            units.push(vec![n]);
        }
    }
    let next = AtomicUsize::new(0);
    type Res = Vec<Result<BTreeSet<String>, String>>;
    let res: Mutex<BTreeMap<usize, Res>> = Mutex::new(BTreeMap::new());
    std::thread::scope(|s| {
        for _ in 0..8 {
            s.spawn(|| loop {
                let i = next.fetch_add(1, Ordering::Relaxed);
                if i >= units.len() {
                    return;
                }
                let u: Vec<&Module> = units[i].iter().collect();
                let o = if u[0].neg.is_some() {
                    vec![env.eval_neg(&format!("n{i}"), u[0]).map(|_| BTreeSet::from(["must be rejected".to_string()]))]
                } else {
                    env.eval(&format!("u{i}"), &u)
                };
                let bad = o.iter().any(|x| x.is_err());
                res.lock().unwrap().insert(i, o);
                if bad {
                    next.store(units.len(), Ordering::Relaxed);
                }
            });
        }
    });
    let res = res.into_inner().unwrap();
    let mut labels: BTreeMap<&'static str, u64> = BTreeMap::new();
    let mut nt = 0;
    let mut fail: Option<(Module, String)> = None;
    let mut samples = vec![];
    for (i, o) in &res {
        for (m, x) in units[*i].iter().zip(o) {
            evals += 1;
            match x {
                Err(e) => {
                    if fail.is_none() {
                        fail = Some((m.clone(), e.clone()));
                    }
                }
                Ok(l) => {
                    let n = |b: bool, l: &'static str, labels: &mut BTreeMap<&'static str, u64>| {
                        if b {
                            *labels.entry(l).or_insert(0) += 1
                        }
                    };
                    for x in l {
                        n(true, Box::leak(x.clone().into_boxed_str()), &mut labels);
                    }
                    n(m.cfgcol.iter().any(|c| *c), "cfg column", &mut labels);
                    n(m.omit.iter().any(|c| *c == Some(true)), "omit_std", &mut labels);
                    n(m.eps.iter().any(|e| is_lt(&m.types, &e.req) || is_lt(&m.types, &e.resp)), "lifetimes", &mut labels);
                    n(m.eps.iter().any(|e| e.ghost) || m.tin.iter().chain(&m.tout).any(|e| e.ghost), "alternative rows", &mut labels);
                    n(!m.singles.is_empty(), "single macros", &mut labels);
                    let live = m.eps.iter().any(|e| e.cfg != Cfg::Off) || m.tin.iter().chain(&m.tout).any(|e| e.cfg != Cfg::Off);
                    if live && m.dispatch {
                        nt += 1;
                        if samples.len() < 2 {
                            let t = text(m, "m");
                            let cut: String = t.chars().take(1800).collect();
                            samples.push(json!({"sub": "programs", "program": cut}));
                        }
                    }
                }
            }
        }
    }
    if let Some((m, e)) = fail {
        let (m, e) = env.shrink(&m, e);
        println!("minimal program:\n{}", text(&m, "m"));
        run.external_violation("programs", &e, &m);
    }
    run.external("programs", RULE, evals, nt, labels, samples, t0);
}
