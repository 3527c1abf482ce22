//! Runs seeded simulations, minimises and replays failures, writes evidence.
//!
//! One integer (VERIF_SEED) decides everything: run `i` of property `P` uses
//! seed `mix(VERIF_SEED, fnv(P), i)`; the plan of a run is a pure function of
//! that seed and the outcome of a run is a pure function of its plan and the
//! code under test.
use std::{
    collections::{BTreeMap, BTreeSet, HashSet},
    path::{Path, PathBuf},
    sync::{
        atomic::{AtomicBool, AtomicU64, Ordering},
        Arc, Mutex,
    },
    time::{Duration, Instant},
};

use serde::{de::DeserializeOwned, Deserialize, Serialize};
use serde_json::{json, Value};

use crate::{fnv, mix, panics};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

/// A broken property, as seen by an oracle.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq)]
pub struct Violation {
    pub property: String,
    /// Stable kind of the failure: minimisation keeps it, known findings name it.
    pub class: String,
    /// What happened in this run.
    pub detail: String,
}

impl Violation {
    pub fn new(property: &str, class: impl Into<String>, detail: impl Into<String>) -> Self {
        Self { property: property.into(), class: class.into(), detail: detail.into() }
    }
}

/// Everything a run reports.
#[derive(Clone, Debug, Default)]
pub struct Outcome {
    pub violations: Vec<Violation>,
    /// Digest of the complete event history.
    pub trace_hash: u64,
    pub sim_ms: u64,
    pub steps: u64,
    /// Fault kinds that actually fired.
    pub faults: BTreeMap<String, u64>,
    /// Rare conditions that were reached.
    pub probes: BTreeMap<String, u64>,
    /// Hashes of the distinct abstract states / interleavings reached.
    pub states: Vec<u64>,
    pub nontrivial: bool,
    /// Human-readable history, only kept for samples and replays.
    pub log: Vec<String>,
}

impl Outcome {
    pub fn fault(&mut self, kind: &str) {
        *self.faults.entry(kind.to_string()).or_default() += 1;
    }
    pub fn probe(&mut self, kind: &str) {
        *self.probes.entry(kind.to_string()).or_default() += 1;
    }
    pub fn violate(&mut self, property: &str, class: impl Into<String>, detail: impl Into<String>) {
        self.violations.push(Violation::new(property, class, detail));
    }
}

/// A simulated workload with its oracles.
pub trait Scenario: Send + Sync + 'static {
    type Plan: Clone + Serialize + DeserializeOwned + Send + Sync + 'static;
    /// The plan of run `index`; pure in its arguments.
    fn gen(&self, seed: u64, index: u64, tier: Tier) -> Self::Plan;
    /// Executes a plan; pure in the plan and the code under test.
    fn run(&self, plan: &Self::Plan) -> Outcome;
    /// Simpler variants to try when minimising, most aggressive first.
    fn shrink(&self, plan: &Self::Plan) -> Vec<Self::Plan>;
    /// The plan to shrink from (e.g. with the seeded faults written out).
    fn concretise(&self, plan: &Self::Plan) -> Self::Plan {
        plan.clone()
    }
    fn runs(&self, tier: Tier) -> u64;
    /// Wall-clock cap for the exploration.
    fn wall(&self, tier: Tier) -> Duration {
        match tier {
            Tier::Quick => Duration::from_secs(150),
            Tier::Thorough => Duration::from_secs(3000),
        }
    }
    /// A single run may not take longer than this (real time).
    fn run_limit(&self) -> Duration {
        Duration::from_secs(60)
    }
    fn stack(&self) -> usize {
        8 << 20
    }
    fn rule(&self) -> String;
    fn real_components(&self) -> Vec<String>;
    fn stub_components(&self) -> Vec<String>;
    fn assumptions(&self) -> Vec<String>;
    fn state_measure(&self) -> String {
        "distinct event-history digests".into()
    }
    /// Explicit plans that are always run first (edge cases, findings).
    fn directed(&self) -> Vec<Self::Plan> {
        vec![]
    }
}

#[derive(Serialize, Deserialize)]
struct Replay<P> {
    property: String,
    class: String,
    detail: String,
    verif_seed: u64,
    run_index: u64,
    trace_hash: String,
    plan: P,
    #[serde(default)]
    log: Vec<String>,
}

struct Finding {
    class: String,
    witness: Option<PathBuf>,
    what: String,
}

/// Known findings of a property: lines
/// `finding: property=<id> class=<class> witness=<path|-> :: <what fails>`.
fn load_findings(root: &Path, property: &str) -> Vec<Finding> {
    let mut out = vec![];
    let Ok(text) = std::fs::read_to_string(root.join("known-findings.txt")) else {
        return out;
    };
    for line in text.lines() {
        let Some(rest) = line.strip_prefix("finding: ") else { continue };
        let (head, what) = rest.split_once(" :: ").unwrap_or((rest, ""));
        let mut fields = BTreeMap::new();
        for part in head.split_whitespace() {
            if let Some((k, v)) = part.split_once('=') {
                fields.insert(k, v);
            }
        }
        if fields.get("property") == Some(&property) {
            out.push(Finding {
                class: fields.get("class").unwrap_or(&"").to_string(),
                witness: fields
                    .get("witness")
                    .filter(|w| **w != "-")
                    .map(|w| root.join(w)),
                what: what.to_string(),
            });
        }
    }
    out
}

/// Runs one plan in a fresh thread (fresh thread-local state).
fn run_once<S: Scenario>(s: &Arc<S>, plan: &S::Plan) -> Outcome {
    let (s2, plan) = (s.clone(), plan.clone());
    std::thread::Builder::new()
        .stack_size(s.stack())
        .spawn(move || match panics::guard(|| s2.run(&plan)) {
            Ok(o) => o,
            Err(e) => {
                let mut o = Outcome::default();
                o.violate("HARNESS", "harness-panic", e);
                o
            }
        })
        .expect("spawn")
        .join()
        .unwrap_or_else(|_| {
            let mut o = Outcome::default();
            o.violate("HARNESS", "harness-panic", "run thread died");
            o
        })
}

pub struct Env {
    pub root: PathBuf,
    pub seed: u64,
    pub tier: Tier,
}

impl Env {
    pub fn from_env() -> Env {
        let seed = std::env::var("VERIF_SEED")
            .ok()
            .and_then(|s| s.trim().parse::<u64>().ok())
            .unwrap_or(1);
        let tier = match std::env::var("VERIF_TIER").as_deref() {
            Ok("thorough") => Tier::Thorough,
            _ => Tier::Quick,
        };
        let root = std::env::var_os("VERIF_ROOT")
            .map(PathBuf::from)
            .unwrap_or_else(|| PathBuf::from("/verif"));
        Env { root, seed, tier }
    }
}

fn workers() -> usize {
    std::env::var("SIM_WORKERS")
        .ok()
        .and_then(|v| v.parse().ok())
        .unwrap_or_else(|| {
            std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(8)
        })
}

/// What to do, from the command line.
pub enum Cmd {
    Check { property: String },
    Replay { path: PathBuf },
    /// Runs N seeds twice each and compares histories.
    Determinism { property: String, n: u64 },
    /// Prints the log of one run.
    Show { property: String, index: u64 },
}

pub fn parse_args() -> Cmd {
    let a: Vec<String> = std::env::args().skip(1).collect();
    match a.first().map(|s| s.as_str()) {
        Some("check") if a.len() == 2 => Cmd::Check { property: a[1].clone() },
        Some("replay") if a.len() == 2 => Cmd::Replay { path: a[1].clone().into() },
        Some("determinism") if a.len() == 3 => {
            Cmd::Determinism { property: a[1].clone(), n: a[2].parse().unwrap_or(100) }
        }
        Some("show") if a.len() == 3 => {
            Cmd::Show { property: a[1].clone(), index: a[2].parse().unwrap_or(0) }
        }
        _ => {
            eprintln!("usage: check <property> | replay <file> | determinism <property> <n> | show <property> <index>");
            std::process::exit(2);
        }
    }
}

pub fn replay_property(path: &Path) -> String {
    let text = std::fs::read_to_string(path).unwrap_or_else(|e| {
        eprintln!("cannot read {path:?}: {e}");
        std::process::exit(2);
    });
    let v: Value = serde_json::from_str(&text).unwrap_or_else(|e| {
        eprintln!("cannot parse {path:?}: {e}");
        std::process::exit(2);
    });
    v["property"].as_str().unwrap_or("").to_string()
}

/// Entry point: `pick` runs the chosen property's scenario through `drive`.
pub fn main_with(pick: impl FnOnce(&str, &Cmd) -> Option<i32>) -> ! {
    panics::install();
    let cmd = parse_args();
    let property = match &cmd {
        Cmd::Check { property } | Cmd::Determinism { property, .. } | Cmd::Show { property, .. } => {
            property.clone()
        }
        Cmd::Replay { path } => replay_property(path),
    };
    match pick(&property, &cmd) {
        Some(code) => std::process::exit(code),
        None => {
            eprintln!("unknown property {property}");
            std::process::exit(2);
        }
    }
}

pub fn drive<S: Scenario>(scenario: S, property: &str, cmd: &Cmd) -> i32 {
    let s = Arc::new(scenario);
    let env = Env::from_env();
    match cmd {
        Cmd::Check { .. } => match std::env::var_os(INNER) {
            Some(f) => check(s, property, env, Some(PathBuf::from(f))),
            None => supervise(s, property, env),
        },
        Cmd::Replay { path } => {
            let name = property.to_string();
            let property = name.clone();
            std::thread::spawn(move || loop {
                if resident() > MEMORY {
                    println!("violation {property} memory: a run holds more than {MEMORY} bytes");
                    std::process::exit(1);
                }
                std::thread::sleep(Duration::from_millis(50));
            });
            replay(s, &name, path)
        }
        Cmd::Determinism { n, .. } => determinism(s, property, env, *n),
        Cmd::Show { index, .. } => {
            let seed = run_seed(&env, property, *index);
            let plan = plan_of(&s, &env, property, *index);
            println!("seed {seed:#x}\nplan {}", serde_json::to_string(&plan).unwrap());
            let o = run_once(&s, &plan);
            for l in &o.log {
                println!("{l}");
            }
            println!(
                "trace {:016x} sim_ms {} steps {} faults {:?} probes {:?}",
                o.trace_hash, o.sim_ms, o.steps, o.faults, o.probes
            );
            for v in &o.violations {
                println!("{} {} {}", v.property, v.class, v.detail);
            }
            0
        }
    }
}

/// Names the file in which the process that explores says what it runs.
const INNER: &str = "SIM_INFLIGHT";

/// What all runs together may hold. They hold a small part of this.
const MEMORY: u64 = 10 << 30;

fn resident() -> u64 {
    std::fs::read_to_string("/proc/self/statm")
        .ok()
        .and_then(|s| s.split_whitespace().nth(1)?.parse::<u64>().ok())
        .unwrap_or(0)
        * 4096
}

/// Explores in a process of its own: if the code under test brings that down
/// (stack overflow, abort), the run that did it is a finding.
fn supervise<S: Scenario>(s: Arc<S>, property: &str, env: Env) -> i32 {
    let file = replay_dir(&env).join(format!(".inflight-{property}-{}", std::process::id()));
    let _ = std::fs::write(&file, []);
    let t0 = Instant::now();
    let ended = std::env::current_exe().and_then(|exe| {
        std::process::Command::new(exe).arg("check").arg(property).env(INNER, &file).status()
    });
    let inflight: Vec<u64> = std::fs::read(&file)
        .unwrap_or_default()
        .chunks_exact(8)
        .map(|c| u64::from_le_bytes(c.try_into().unwrap()))
        .filter(|i| *i != 0)
        .map(|i| i - 1)
        .collect();
    let _ = std::fs::remove_file(&file);
    let status = match ended {
        Ok(s) => s,
        Err(e) => {
            eprintln!("cannot explore in a process of its own: {e}");
            return check(s, property, env, None);
        }
    };
    if let Some(code) = status.code() {
        return code;
    }
    println!("the exploring process ended with {status}; in flight: {inflight:?}");
    for i in inflight {
        let plan = plan_of(&s, &env, property, i);
        let v = Violation::new(property, "process-ended", format!("run {i} ends the process: {status}"));
        let path = write_replay(&env, property, &v, i, &plan, &Outcome::default());
        let again = std::env::current_exe()
            .and_then(|exe| std::process::Command::new(exe).arg("replay").arg(&path).output());
        if again.is_ok_and(|o| o.status.code().is_none()) {
            println!("{} {}", v.class, v.detail);
            println!("VIOLATION property={property} replay={}", path.display());
            let mut a = Agg::default();
            a.evaluations = i.max(1);
            write_evidence(&s, property, &env, &a, t0, 1, &[]);
            return 1;
        }
        let _ = std::fs::remove_file(&path);
    }
    2
}

pub fn run_seed(env: &Env, property: &str, index: u64) -> u64 {
    mix(mix(env.seed, fnv(property.as_bytes())), index)
}

fn plan_of<S: Scenario>(s: &Arc<S>, env: &Env, property: &str, index: u64) -> S::Plan {
    let directed = s.directed();
    if (index as usize) < directed.len() {
        return directed[index as usize].clone();
    }
    s.gen(run_seed(env, property, index), index, env.tier)
}

fn replay<S: Scenario>(s: Arc<S>, property: &str, path: &Path) -> i32 {
    let text = std::fs::read_to_string(path).expect("readable");
    let r: Replay<S::Plan> = match serde_json::from_str(&text) {
        Ok(r) => r,
        Err(e) => {
            eprintln!("bad replay file: {e}");
            return 2;
        }
    };
    let o = run_once(&s, &r.plan);
    for l in &o.log {
        println!("{l}");
    }
    println!("trace {:016x}", o.trace_hash);
    let hit = o.violations.iter().find(|v| v.property == property && v.class == r.class);
    match hit {
        Some(v) => {
            let same = format!("{:016x}", o.trace_hash) == r.trace_hash;
            println!("reproduced class={} same-history={} {}", v.class, same, v.detail);
            println!("VIOLATION property={} replay={}", property, path.display());
            1
        }
        None => {
            for v in &o.violations {
                println!("other: {} {} {}", v.property, v.class, v.detail);
            }
            println!("not reproduced");
            0
        }
    }
}

fn determinism<S: Scenario>(s: Arc<S>, property: &str, env: Env, n: u64) -> i32 {
    let next = AtomicU64::new(0);
    let bad = Mutex::new(vec![]);
    let digest = Mutex::new(BTreeMap::new());
    std::thread::scope(|sc| {
        for _ in 0..workers() {
            sc.spawn(|| loop {
                let i = next.fetch_add(1, Ordering::SeqCst);
                if i >= n {
                    break;
                }
                let plan = plan_of(&s, &env, property, i);
                let a = run_once(&s, &plan);
                let b = run_once(&s, &plan);
                digest.lock().unwrap().insert(i, a.trace_hash);
                if a.trace_hash != b.trace_hash {
                    bad.lock().unwrap().push(i);
                    if std::env::var_os("SIM_DUMP").is_some() {
                        match a.log.iter().zip(&b.log).position(|(x, y)| x != y) {
                            Some(n) => println!("{i}: {:#?} against {}", &a.log[n.saturating_sub(4)..=n], b.log[n]),
                            None => println!("{i}: {} against {} log lines", a.log.len(), b.log.len()),
                        }
                    }
                }
            });
        }
    });
    let d = digest.into_inner().unwrap();
    let all = d.values().fold(0u64, |h, v| mix(h, *v));
    let bad = bad.into_inner().unwrap();
    println!("runs {n} diverging {bad:?} digest {all:016x}");
    if std::env::var_os("SIM_DUMP").is_some() {
        for (i, h) in &d {
            println!("{i} {h:016x}");
        }
    }
    if bad.is_empty() {
        0
    } else {
        2
    }
}

#[derive(Default)]
struct Agg {
    evaluations: u64,
    nontrivial: HashSet<u64>,
    faults: BTreeMap<String, u64>,
    probes: BTreeMap<String, u64>,
    states: HashSet<u64>,
    histories: HashSet<u64>,
    sim_ms: u128,
    steps: u128,
    samples: BTreeMap<u64, Value>,
    violations: BTreeMap<(String, String), (u64, Violation)>,
    counts: BTreeMap<String, u64>,
    harness: Vec<String>,
    foreign: BTreeMap<String, u64>,
    divergent: Vec<u64>,
    rechecked: u64,
}

fn check<S: Scenario>(s: Arc<S>, property: &str, env: Env, inflight_file: Option<PathBuf>) -> i32 {
    let t0 = Instant::now();
    let inflight_file = inflight_file.and_then(|f| std::fs::OpenOptions::new().write(true).open(f).ok());
    let mark = |w: usize, i: u64| {
        use std::os::unix::fs::FileExt;
        if let Some(f) = &inflight_file {
            let _ = f.write_all_at(&i.to_le_bytes(), w as u64 * 8);
        }
    };
    println!("seed {} property {} tier {:?}", env.seed, property, env.tier);
    let findings = load_findings(&env.root, property);
    let known: BTreeSet<String> = findings.iter().map(|f| f.class.clone()).collect();
    let directed = s.directed().len() as u64;
    let total = s.runs(env.tier).max(directed);
    let wall = s.wall(env.tier);
    let limit = s.run_limit();
    let next = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    let agg = Mutex::new(Agg::default());
    let nworkers = workers();
    // Start times of the runs in flight, for the watchdog.
    let inflight: Vec<Mutex<Option<(u64, Instant)>>> =
        (0..nworkers).map(|_| Mutex::new(None)).collect();
    let done = AtomicBool::new(false);
    std::thread::scope(|sc| {
        let handles: Vec<_> = (0..nworkers)
            .map(|w| {
                let (s, env, agg, next, stop, known, inflight, mark) =
                    (&s, &env, &agg, &next, &stop, &known, &inflight, &mark);
                sc.spawn(move || loop {
                    if stop.load(Ordering::SeqCst) || t0.elapsed() > wall {
                        break;
                    }
                    let i = next.fetch_add(1, Ordering::SeqCst);
                    if i >= total {
                        break;
                    }
                    mark(w, i + 1);
                    *inflight[w].lock().unwrap() = Some((i, Instant::now()));
                    let plan = plan_of(s, env, property, i);
                    let o = run_once(s, &plan);
                    // Every 16th run is executed a second time: the history
                    // must be identical.
                    let again = if i % 16 == 0 {
                        *inflight[w].lock().unwrap() = Some((i, Instant::now()));
                        Some(run_once(s, &plan).trace_hash)
                    } else {
                        None
                    };
                    *inflight[w].lock().unwrap() = None;
                    mark(w, 0);
                    let mut a = agg.lock().unwrap();
                    a.evaluations += 1;
                    if let Some(h) = again {
                        a.rechecked += 1;
                        if h != o.trace_hash {
                            a.divergent.push(i);
                        }
                    }
                    a.histories.insert(o.trace_hash);
                    if o.nontrivial {
                        a.nontrivial.insert(o.trace_hash);
                    }
                    for (k, v) in &o.faults {
                        *a.faults.entry(k.clone()).or_default() += v;
                    }
                    for (k, v) in &o.probes {
                        *a.probes.entry(k.clone()).or_default() += v;
                    }
                    if a.states.len() < 20_000_000 {
                        a.states.extend(o.states.iter().copied());
                    }
                    a.sim_ms += o.sim_ms as u128;
                    a.steps += o.steps as u128;
                    if o.nontrivial && (a.samples.len() < 3 || i < *a.samples.keys().last().unwrap())
                    {
                        let mut log = o.log.clone();
                        log.truncate(12);
                        a.samples.insert(
                            i,
                            json!({
                                "run": i,
                                "plan": truncate(serde_json::to_value(&plan).unwrap(), 0),
                                "history_head": log.iter().map(|l| l.chars().take(160).collect::<String>()).collect::<Vec<_>>(),
                                "history_digest": format!("{:016x}", o.trace_hash),
                            }),
                        );
                        while a.samples.len() > 3 {
                            let last = *a.samples.keys().last().unwrap();
                            a.samples.remove(&last);
                        }
                    }
                    for v in o.violations {
                        if v.property == "HARNESS" {
                            a.harness.push(format!("run {i}: {} {}", v.class, v.detail));
                            continue;
                        }
                        if v.property != property {
                            *a.foreign.entry(format!("{}/{}", v.property, v.class)).or_default() += 1;
                            continue;
                        }
                        *a.counts.entry(v.class.clone()).or_default() += 1;
                        if !known.contains(&v.class) {
                            // Runs after this one need not start.
                            stop.store(true, Ordering::SeqCst);
                        }
                        let key = (v.property.clone(), v.class.clone());
                        match a.violations.get(&key) {
                            Some((j, _)) if *j <= i => {}
                            _ => {
                                a.violations.insert(key, (i, v));
                            }
                        }
                    }
                    if a.harness.len() > 20 {
                        stop.store(true, Ordering::SeqCst);
                    }
                })
            })
            .collect();
        // Watchdog: a run that never ends is itself a finding.
        {
            let (inflight, done, s, env) = (&inflight, &done, &s, &env);
            sc.spawn(move || {
                while !done.load(Ordering::SeqCst) {
                    std::thread::sleep(Duration::from_millis(50));
                    let held = resident();
                    // The run that takes longest is the one that grows.
                    let oldest = inflight.iter().filter_map(|f| *f.lock().unwrap()).map(|(_, t)| t).min();
                    for f in inflight {
                        let g = *f.lock().unwrap();
                        if let Some((i, t)) = g {
                            if held > MEMORY && Some(t) == oldest {
                                let plan = plan_of(s, env, property, i);
                                let v = Violation::new(
                                    property,
                                    "memory",
                                    format!("run {i} holds {} MB", held >> 20),
                                );
                                let path = write_replay(env, property, &v, i, &plan, &Outcome::default());
                                println!("{} {}", v.class, v.detail);
                                println!("VIOLATION property={property} replay={}", path.display());
                                let mut a = Agg::default();
                                a.evaluations = i.max(1);
                                write_evidence(s, property, env, &a, t0, 1, &[]);
                                std::process::exit(1);
                            }
                            if t.elapsed() > limit {
                                let plan = plan_of(s, env, property, i);
                                let v = Violation::new(
                                    property,
                                    "hang",
                                    format!("run {i} did not finish within {limit:?} of real time"),
                                );
                                let o = Outcome::default();
                                let path = write_replay(env, property, &v, i, &plan, &o);
                                println!("{} {}", v.class, v.detail);
                                println!("VIOLATION property={property} replay={}", path.display());
                                let mut a = Agg::default();
                                a.evaluations = i.max(1);
                                write_evidence(s, property, env, &a, t0, 1, &[]);
                                std::process::exit(1);
                            }
                        }
                    }
                }
            });
        }
        for h in handles {
            let _ = h.join();
        }
        done.store(true, Ordering::SeqCst);
    });
    let mut agg = agg.into_inner().unwrap();

    // Known findings: re-run each witness and say that it still fails.
    let mut known_lines = vec![];
    for f in &findings {
        let mut hit = agg.counts.contains_key(&f.class);
        if let Some(w) = &f.witness {
            match std::fs::read_to_string(w)
                .map_err(|e| e.to_string())
                .and_then(|t| serde_json::from_str::<Replay<S::Plan>>(&t).map_err(|e| e.to_string()))
            {
                Ok(r) => {
                    let o = run_once(&s, &r.plan);
                    agg.evaluations += 1;
                    for v in &o.violations {
                        if v.property == property && v.class == f.class {
                            hit = true;
                        } else if v.property == property && !known.contains(&v.class) {
                            // A different violation of the same property.
                            let key = (v.property.clone(), v.class.clone());
                            agg.violations.entry(key).or_insert((u64::MAX, v.clone()));
                        }
                    }
                }
                Err(e) => {
                    eprintln!("witness {w:?} unreadable: {e}");
                    return 2;
                }
            }
        }
        if hit {
            known_lines.push(format!("KNOWN-FINDING: property={property} {}", f.what));
        } else {
            println!("note: listed finding class {} did not show up in this run", f.class);
        }
    }
    for l in &known_lines {
        println!("{l}");
    }

    let new: Vec<(u64, Violation)> = agg
        .violations
        .iter()
        .filter(|((_, c), _)| !known.contains(c))
        .map(|(_, v)| v.clone())
        .collect();
    let mut reported = 0;
    for (i, v) in new.iter().filter(|(i, _)| *i != u64::MAX).take(3) {
        let plan = plan_of(&s, &env, property, *i);
        println!("violation in run {i}: {} {}", v.class, v.detail);
        let (plan, o, v) = minimise(&s, property, v, &s.concretise(&plan), &plan);
        let path = write_replay(&env, property, &v, *i, &plan, &o);
        println!("minimised: {} {}", v.class, v.detail);
        // Replay in a fresh process: must fail the same way.
        if let Ok(exe) = std::env::current_exe() {
            match std::process::Command::new(exe).arg("replay").arg(&path).output() {
                Ok(out) => {
                    let txt = String::from_utf8_lossy(&out.stdout);
                    println!(
                        "replay in a fresh process: exit {:?}, same history: {}",
                        out.status.code(),
                        txt.contains("same-history=true")
                    );
                }
                Err(e) => println!("replay not run: {e}"),
            }
        }
        println!("VIOLATION property={property} replay={}", path.display());
        reported += 1;
    }
    if reported == 0 {
        for (_, v) in new.iter() {
            let path = write_replay_text(&env, property, v);
            println!("{} {}", v.class, v.detail);
            println!("VIOLATION property={property} replay={}", path.display());
            reported += 1;
        }
    }
    let violations = agg.counts.iter().filter(|(c, _)| !known.contains(*c)).map(|(_, n)| n).sum();
    write_evidence(&s, property, &env, &agg, t0, violations, &known_lines);
    println!(
        "runs {} distinct histories {} states {} sim {:.0}s wall {:.1}s faults {:?} probes {:?}",
        agg.evaluations,
        agg.histories.len(),
        agg.states.len(),
        agg.sim_ms as f64 / 1000.0,
        t0.elapsed().as_secs_f64(),
        agg.faults,
        agg.probes,
    );
    if !agg.foreign.is_empty() {
        println!("violations of other properties seen (their own checks report them): {:?}", agg.foreign);
    }
    if reported > 0 {
        return 1;
    }
    if !agg.harness.is_empty() {
        for h in &agg.harness {
            eprintln!("harness error: {h}");
        }
        return 2;
    }
    if !agg.divergent.is_empty() {
        eprintln!("harness error: runs {:?} were not repeatable", agg.divergent);
        return 2;
    }
    println!("OK property={property}");
    0
}

fn minimise<S: Scenario>(
    s: &Arc<S>,
    property: &str,
    v: &Violation,
    concrete: &S::Plan,
    original: &S::Plan,
) -> (S::Plan, Outcome, Violation) {
    let t0 = Instant::now();
    let fails = |p: &S::Plan| -> Option<(Outcome, Violation)> {
        let o = run_once(s, p);
        let hit = o
            .violations
            .iter()
            .find(|x| x.property == property && x.class == v.class)
            .cloned();
        hit.map(|h| (o, h))
    };
    let (mut best, mut out, mut viol) = match fails(concrete) {
        Some((o, h)) => (concrete.clone(), o, h),
        None => match fails(original) {
            Some((o, h)) => (original.clone(), o, h),
            None => return (original.clone(), run_once(s, original), v.clone()),
        },
    };
    let mut runs = 0;
    'outer: loop {
        for cand in s.shrink(&best) {
            if runs > 600 || t0.elapsed() > Duration::from_secs(45) {
                break 'outer;
            }
            runs += 1;
            if let Some((o, h)) = fails(&cand) {
                best = cand;
                out = o;
                viol = h;
                continue 'outer;
            }
        }
        break;
    }
    println!("minimised with {runs} runs");
    (best, out, viol)
}

fn replay_dir(env: &Env) -> PathBuf {
    let d = env.root.join("replays");
    let _ = std::fs::create_dir_all(&d);
    d
}

fn clean(class: &str) -> String {
    class
        .chars()
        .map(|c| if c.is_ascii_alphanumeric() { c } else { '-' })
        .take(60)
        .collect()
}

fn write_replay<P: Serialize + Clone>(
    env: &Env,
    property: &str,
    v: &Violation,
    index: u64,
    plan: &P,
    o: &Outcome,
) -> PathBuf {
    let path = replay_dir(env).join(format!("{property}-{}-seed{}.json", clean(&v.class), env.seed));
    let r = Replay {
        property: property.into(),
        class: v.class.clone(),
        detail: v.detail.clone(),
        verif_seed: env.seed,
        run_index: index,
        trace_hash: format!("{:016x}", o.trace_hash),
        plan: plan.clone(),
        log: o.log.clone(),
    };
    let _ = std::fs::write(&path, serde_json::to_string_pretty(&r).unwrap());
    path
}

fn write_replay_text(env: &Env, property: &str, v: &Violation) -> PathBuf {
    let path = replay_dir(env).join(format!("{property}-{}-seed{}.txt", clean(&v.class), env.seed));
    let _ = std::fs::write(&path, format!("{} {}\n", v.class, v.detail));
    path
}

/// Keeps samples readable.
fn truncate(v: Value, depth: usize) -> Value {
    match v {
        Value::String(s) if s.len() > 200 => {
            Value::String(format!("{}… ({} bytes)", s.chars().take(200).collect::<String>(), s.len()))
        }
        Value::Array(a) => {
            let n = a.len();
            let mut out: Vec<Value> =
                a.into_iter().take(24).map(|x| truncate(x, depth + 1)).collect();
            if n > 24 {
                out.push(json!(format!("… {} more", n - 24)));
            }
            Value::Array(out)
        }
        Value::Object(m) => {
            Value::Object(m.into_iter().map(|(k, x)| (k, truncate(x, depth + 1))).collect())
        }
        x => x,
    }
}

fn write_evidence<S: Scenario>(
    s: &Arc<S>,
    property: &str,
    env: &Env,
    a: &Agg,
    t0: Instant,
    violations: u64,
    known: &[String],
) {
    let wall = t0.elapsed().as_secs_f64();
    let mut samples: Vec<Value> = a.samples.values().cloned().collect();
    if samples.is_empty() {
        samples.push(json!("no non-trivial run completed"));
    }
    let ev = json!({
        "property": property,
        "tier": if env.tier == Tier::Quick { "quick" } else { "thorough" },
        "seed": env.seed,
        "level": "exploration",
        "coverage": {
            "evaluations": a.evaluations,
            "distinct_nontrivial": a.nontrivial.len(),
            "rule": s.rule(),
            "samples": samples,
            "simulated_runs_per_hour": (a.evaluations as f64 / wall.max(0.001) * 3600.0) as u64,
            "simulated_seconds": (a.sim_ms / 1000) as u64,
            "scheduler_steps": a.steps as u64,
            "faults_injected": a.faults,
            "rare_conditions_reached": a.probes,
            "distinct_histories": a.histories.len(),
            "distinct_states": a.states.len(),
            "state_measure": s.state_measure(),
            "runs_repeated_for_determinism": a.rechecked,
            "runs_not_repeatable": a.divergent.len(),
            "real_code": s.real_components(),
            "stubs": s.stub_components(),
            "violations_of_other_properties_seen": a.foreign,
            "known_finding_hits": a.counts,
            "known_findings": known,
        },
        "assumptions": s.assumptions(),
        "wall_s": wall,
        "violations": violations,
    });
    let dir = env.root.join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    let _ = std::fs::write(
        dir.join(format!("{property}.json")),
        serde_json::to_string_pretty(&ev).unwrap(),
    );
}
