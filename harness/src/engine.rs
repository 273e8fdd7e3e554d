//! Drives generated cases through checks, shrinks failures, writes replay and evidence files.

use crate::cli::Env;
use proptest::strategy::{BoxedStrategy, Strategy, ValueTree};
use proptest::test_runner::{Config, RngAlgorithm, TestRng, TestRunner};
use serde::{de::DeserializeOwned, Serialize};
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::Instant;

pub const THREADS: usize = 8;

#[derive(Default, Debug)]
pub struct Obs {
    pub labels: Vec<String>,
    pub trivial: bool,
    /// known findings this case ran into: (id, input)
    pub known: Vec<(String, String)>,
}
impl Obs {
    pub fn label(&mut self, l: impl Into<String>) {
        self.labels.push(l.into());
    }
    pub fn label_if(&mut self, c: bool, l: &str) {
        if c {
            self.labels.push(l.to_string());
        }
    }
}

pub type Check = Result<Obs, String>;

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !$c { return Err(format!($($a)*)); } };
}

pub struct Tier {
    pub thorough: bool,
    pub seed: u64,
    pub scale: f64,
    /// only every n-th case of the finite lists (trials; 1 otherwise)
    pub every: usize,
}

#[derive(Default)]
pub struct Stats {
    pub evaluations: u64,
    pub distinct: HashSet<u64>,
    pub labels: BTreeMap<String, u64>,
    pub samples: Vec<Value>,
    pub known: BTreeMap<String, (u64, String)>,
}

pub struct Failure {
    pub sub: String,
    pub case: Value,
    pub message: String,
    pub shrinks: usize,
}

pub struct Outcome {
    pub stats: Stats,
    pub failure: Option<Failure>,
    pub exhaustive: bool,
}

type Runner = Box<dyn Fn(&Env, &Tier) -> Outcome>;
type Replayer = Box<dyn Fn(&Env, &Value) -> Check>;

pub struct Sub {
    pub name: &'static str,
    pub rule: &'static str,
    pub run: Runner,
    pub replay: Replayer,
}

fn hash_of(v: &str) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    v.hash(&mut h);
    h.finish()
}

fn seed_bytes(seed: u64, name: &str, thread: usize) -> [u8; 32] {
    let mut out = [0u8; 32];
    for (i, c) in out.chunks_mut(8).enumerate() {
        c.copy_from_slice(&hash_of(&format!("{seed}/{name}/{thread}/{i}")).to_le_bytes());
    }
    out
}

fn call<C>(check: &(dyn Fn(&Env, &C) -> Check + Send + Sync), env: &Env, case: &C) -> Check {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| check(env, case))) {
        Ok(r) => r,
        Err(p) => {
            let m = p
                .downcast_ref::<String>()
                .cloned()
                .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or_default();
            eprintln!("ERROR: the harness itself failed: {m}");
            crate::cleanup_and_exit(2)
        }
    }
}

fn record(stats: &Mutex<Stats>, name: &str, case: &impl Serialize, obs: &Obs) {
    let text = serde_json::to_string(case).unwrap();
    let mut s = stats.lock().unwrap();
    s.evaluations += 1;
    let fresh = !obs.trivial && s.distinct.insert(hash_of(&text));
    for l in &obs.labels {
        *s.labels.entry(format!("{name}: {l}")).or_default() += 1;
    }
    if obs.trivial {
        *s.labels.entry(format!("{name}: (trivial)")).or_default() += 1;
    }
    for (id, input) in &obs.known {
        let e = s.known.entry(id.clone()).or_insert((0, input.clone()));
        e.0 += 1;
        if input.len() < e.1.len() {
            e.1 = input.clone();
        }
    }
    let n = s.distinct.len();
    if fresh && (n == 1 || n == 40 || n == 200) && text.len() < 6000 {
        s.samples.push(json!({ "sub_check": name, "case": serde_json::from_str::<Value>(&text).unwrap(), "labels": obs.labels }));
    }
}

/// A sub-check over generated cases. `quick` is the number of cases of the quick tier.
pub fn generated<C, S, F>(name: &'static str, rule: &'static str, quick: u64, thorough: u64, strategy: S, check: F) -> Sub
where
    C: Clone + std::fmt::Debug + Serialize + DeserializeOwned + Send + 'static,
    S: Fn() -> BoxedStrategy<C> + Send + Sync + 'static,
    F: Fn(&Env, &C) -> Check + Send + Sync + 'static,
{
    let check: Arc<dyn Fn(&Env, &C) -> Check + Send + Sync> = Arc::new(check);
    let check2 = check.clone();
    let run: Runner = Box::new(move |env, tier| {
        let n = ((if tier.thorough { thorough } else { quick }) as f64 * tier.scale).ceil() as u64;
        let stats = Mutex::new(Stats::default());
        let failure: Mutex<Option<(usize, Failure)>> = Mutex::new(None);
        let stop = AtomicBool::new(false);
        std::thread::scope(|sc| {
            for t in 0..THREADS {
                let (stats, failure, stop, strategy, check) = (&stats, &failure, &stop, &strategy, &check);
                sc.spawn(move || {
                    let rng = TestRng::from_seed(RngAlgorithm::ChaCha, &seed_bytes(tier.seed, name, t));
                    let mut runner = TestRunner::new_with_rng(Config { failure_persistence: None, ..Config::default() }, rng);
                    let strat = strategy();
                    let share = n / THREADS as u64 + u64::from((t as u64) < n % THREADS as u64);
                    for _ in 0..share {
                        if stop.load(Ordering::Relaxed) {
                            return;
                        }
                        let mut tree = strat.new_tree(&mut runner).unwrap_or_else(|e| {
                            eprintln!("ERROR: generator of {name}: {e}");
                            crate::cleanup_and_exit(2)
                        });
                        let case = tree.current();
                        match call(&**check, env, &case) {
                            Ok(obs) => record(stats, name, &case, &obs),
                            Err(first) => {
                                stop.store(true, Ordering::Relaxed);
                                let (mut best, mut message) = (case, first);
                                let mut shrinks = 0;
                                let started = Instant::now();
                                if !message.contains("CPU limit") {
                                    let mut more = tree.simplify();
                                    for _ in 0..3000 {
                                        if !more || started.elapsed().as_secs() > 60 {
                                            break;
                                        }
                                        let c = tree.current();
                                        match call(&**check, env, &c) {
                                            Err(m) => {
                                                best = c;
                                                message = m;
                                                shrinks += 1;
                                                more = tree.simplify();
                                            }
                                            Ok(_) => more = tree.complicate(),
                                        }
                                    }
                                }
                                let f = Failure {
                                    sub: name.to_string(),
                                    case: serde_json::to_value(&best).unwrap(),
                                    message,
                                    shrinks,
                                };
                                let mut slot = failure.lock().unwrap();
                                let size = f.case.to_string().len();
                                if slot.as_ref().map_or(true, |(s, _)| size < *s) {
                                    *slot = Some((size, f));
                                }
                                return;
                            }
                        }
                    }
                });
            }
        });
        Outcome { stats: stats.into_inner().unwrap(), failure: failure.into_inner().unwrap().map(|f| f.1), exhaustive: false }
    });
    let replay: Replayer = Box::new(move |env, v| {
        let case: C = serde_json::from_value(v.clone()).map_err(|e| format!("not a case of {name}: {e}"))?;
        call(&*check2, env, &case)
    });
    Sub { name, rule, run, replay }
}

/// A sub-check over every element of a finite list of cases.
pub fn exhaustive<C, L, F>(name: &'static str, rule: &'static str, cases: L, check: F) -> Sub
where
    C: Clone + std::fmt::Debug + Serialize + DeserializeOwned + Send + Sync + 'static,
    L: Fn(&Tier) -> Vec<C> + 'static,
    F: Fn(&Env, &C) -> Check + Send + Sync + 'static,
{
    let check: Arc<dyn Fn(&Env, &C) -> Check + Send + Sync> = Arc::new(check);
    let check2 = check.clone();
    let run: Runner = Box::new(move |env, tier| {
        let mut list = cases(tier);
        if tier.every > 1 {
            // for trials only
            list = list.into_iter().enumerate().filter(|(i, _)| (i + tier.seed as usize) % tier.every == 0).map(|(_, c)| c).collect();
        }
        let whole = tier.every <= 1;
        let stats = Mutex::new(Stats::default());
        let failure: Mutex<Option<(usize, Failure)>> = Mutex::new(None);
        let next = AtomicUsize::new(0);
        let stop = AtomicBool::new(false);
        std::thread::scope(|sc| {
            for _ in 0..THREADS {
                sc.spawn(|| loop {
                    let i = next.fetch_add(1, Ordering::Relaxed);
                    if i >= list.len() || stop.load(Ordering::Relaxed) {
                        return;
                    }
                    match call(&*check, env, &list[i]) {
                        Ok(obs) => record(&stats, name, &list[i], &obs),
                        Err(message) => {
                            let f = Failure { sub: name.to_string(), case: serde_json::to_value(&list[i]).unwrap(), message, shrinks: 0 };
                            let mut slot = failure.lock().unwrap();
                            if slot.as_ref().map_or(true, |(s, _)| i < *s) {
                                *slot = Some((i, f));
                            }
                            stop.store(true, Ordering::Relaxed);
                            return;
                        }
                    }
                });
            }
        });
        Outcome { stats: stats.into_inner().unwrap(), failure: failure.into_inner().unwrap().map(|f| f.1), exhaustive: whole }
    });
    let replay: Replayer = Box::new(move |env, v| {
        let case: C = serde_json::from_value(v.clone()).map_err(|e| format!("not a case of {name}: {e}"))?;
        call(&*check2, env, &case)
    });
    Sub { name, rule, run, replay }
}

pub struct Property {
    pub id: &'static str,
    pub level: &'static str,
    pub subs: Vec<Sub>,
    pub assumptions: Vec<&'static str>,
}

fn known_findings(verif: &Path) -> Vec<(String, String, String)> {
    // lines: "finding: property=<id> id=<key> <what fails>"
    let text = std::fs::read_to_string(verif.join("known-findings.txt")).unwrap_or_default();
    text.lines()
        .filter_map(|l| l.strip_prefix("finding: property="))
        .filter_map(|l| {
            let mut p = l.splitn(3, ' ');
            Some((p.next()?.to_string(), p.next()?.strip_prefix("id=")?.to_string(), p.next()?.to_string()))
        })
        .collect()
}

/// Runs a property; returns the exit status.
pub fn run_property(p: &Property, env: &Env, tier: &Tier, verif: &Path, only: Option<&str>) -> i32 {
    let start = Instant::now();
    let listed = known_findings(verif);
    let mut total = Stats::default();
    let mut rules = Vec::new();
    let mut failures: Vec<Failure> = Vec::new();
    let mut per_sub = BTreeMap::new();
    for sub in &p.subs {
        if only.map_or(false, |o| o != sub.name) {
            continue;
        }
        let t0 = Instant::now();
        let runs0 = crate::cli::RUNS.load(Ordering::Relaxed);
        let o = (sub.run)(env, tier);
        let n = o.stats.evaluations;
        per_sub.insert(
            sub.name,
            json!({
                "evaluations": n,
                "distinct_nontrivial": o.stats.distinct.len(),
                "finite_list_completed": o.exhaustive && o.failure.is_none(),
                "processes": crate::cli::RUNS.load(Ordering::Relaxed) - runs0,
                "wall_s": t0.elapsed().as_secs_f64(),
            }),
        );
        rules.push(format!("{}: {}", sub.name, sub.rule));
        total.evaluations += n;
        for h in o.stats.distinct {
            total.distinct.insert(h ^ hash_of(sub.name));
        }
        for (k, v) in o.stats.labels {
            *total.labels.entry(k).or_default() += v;
        }
        total.samples.extend(o.stats.samples);
        for (k, v) in o.stats.known {
            if !listed.iter().any(|(prop, id, _)| prop == p.id && *id == k) {
                failures.push(Failure {
                    sub: sub.name.to_string(),
                    case: Value::Null,
                    message: format!("deviation {k} is not in known-findings.txt, e.g. {}", v.1),
                    shrinks: 0,
                });
            }
            let e = total.known.entry(k).or_insert((0, v.1.clone()));
            e.0 += v.0;
            if v.1.len() < e.1.len() {
                e.1 = v.1;
            }
        }
        if let Some(f) = o.failure {
            failures.push(f);
            break;
        }
    }
    for (prop, id, what) in &listed {
        if prop == p.id {
            if let Some((n, input)) = total.known.get(id) {
                println!("KNOWN-FINDING: property={} {} ({} cases, e.g. {})", p.id, what, n, input);
            }
        }
    }
    let mut status = 0;
    let out = verif.join("replays");
    for f in &failures {
        let _ = std::fs::create_dir_all(&out);
        let path = out.join(format!("{}-{}.json", p.id, f.sub));
        let v = json!({ "property": p.id, "sub_check": f.sub, "case": f.case, "message": f.message, "shrink_steps": f.shrinks, "seed": tier.seed });
        std::fs::write(&path, serde_json::to_string_pretty(&v).unwrap()).unwrap();
        println!("{}: {}: {}", p.id, f.sub, f.message.chars().take(3000).collect::<String>());
        println!("VIOLATION property={} replay={}", p.id, path.display());
        status = 1;
    }
    let samples: Vec<Value> = total.samples.into_iter().take(12).collect();
    let all_finite = per_sub.values().all(|v| v["finite_list_completed"] == json!(true));
    let evidence = json!({
        "property": p.id,
        "tier": if tier.thorough { "thorough" } else { "quick" },
        "seed": tier.seed,
        "level": p.level,
        "coverage": {
            "evaluations": total.evaluations,
            "distinct_nontrivial": total.distinct.len(),
            "rule": rules.join(" || "),
            "samples": samples,
            "exhaustive": all_finite,
            "sub_checks": per_sub,
            "labels": total.labels,
            "known_findings_hit": total.known.iter().map(|(k, v)| json!({"id": k, "cases": v.0, "smallest_input": v.1})).collect::<Vec<_>>(),
            "processes_run": crate::cli::RUNS.load(Ordering::Relaxed),
        },
        "assumptions": p.assumptions,
        "wall_s": start.elapsed().as_secs_f64(),
        "violations": failures.len(),
    });
    let dir = verif.join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    std::fs::write(dir.join(format!("{}.json", p.id)), serde_json::to_string_pretty(&evidence).unwrap()).unwrap();
    println!(
        "{}: {} cases, {} distinct non-trivial, {} processes, {:.1} s: {}",
        p.id,
        total.evaluations,
        total.distinct.len(),
        crate::cli::RUNS.load(Ordering::Relaxed),
        start.elapsed().as_secs_f64(),
        if status == 0 { "held on everything explored" } else { "BROKEN" }
    );
    status
}

pub fn replay_dir(verif: &Path) -> PathBuf {
    verif.join("replays")
}

static UNIQUE: AtomicU64 = AtomicU64::new(0);
pub fn unique() -> u64 {
    UNIQUE.fetch_add(1, Ordering::SeqCst)
}
