//! Generates, checks, shrinks and reports: one process per shard.

use crate::sut;
use proptest::strategy::BoxedStrategy;
use proptest::test_runner::{
    Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner,
};
use serde::de::DeserializeOwned;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::io::Write;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Verdict {
    /// The property applied and held in a way which exercises it.
    Pass,
    /// It held, but the case does not exercise much.
    Trivial,
    /// The case does not decide the property (why).
    Skip(&'static str),
}

pub type CheckResult = Result<Verdict, String>;

/// Labels which a check attaches to its case.
#[derive(Default)]
pub struct Ctx {
    pub labels: Vec<String>,
    pub metrics: Vec<(&'static str, f64)>,
    /// Set when replaying by hand.
    pub verbose: bool,
}
impl Ctx {
    pub fn label(&mut self, s: impl Into<String>) {
        self.labels.push(s.into());
    }
    /// Records the maximum of a quantity over all cases.
    pub fn metric(&mut self, s: &'static str, v: f64) {
        self.metrics.push((s, v));
    }
}

#[derive(Serialize, Deserialize, Default)]
pub struct SubStats {
    pub cases: u64,
    pub pass: u64,
    pub trivial: u64,
    pub skip: BTreeMap<String, u64>,
    pub labels: BTreeMap<String, u64>,
    pub metrics: BTreeMap<String, f64>,
    pub hashes: Vec<u64>,
    pub samples: Vec<Value>,
}

#[derive(Serialize, Deserialize, Default)]
pub struct ShardResult {
    pub subs: BTreeMap<String, SubStats>,
    pub failure: Option<Failure>,
    pub sim_runs: u64,
    pub sim_steps: u64,
}

#[derive(Serialize, Deserialize, Clone)]
pub struct Failure {
    pub sub: String,
    pub case: Value,
    pub message: String,
}

/// Why the plotting tool cannot be judged.
pub const BEYOND: &str = "beyond the stand-ins for pandas and pyvista";

pub struct Sub {
    pub name: &'static str,
    /// How cases are made and what makes one non-trivial.
    pub rule: &'static str,
    pub quick: u32,
    pub thorough: u32,
    /// Runs this many cases with this seed.
    pub drive: Box<dyn Fn(u32, [u8; 32], Option<&Path>, Tier) -> (SubStats, Option<Failure>)>,
    pub replay: Box<dyn Fn(&Value, &mut Ctx) -> CheckResult>,
}

fn hash_of(v: &str) -> u64 {
    let mut h = DefaultHasher::new();
    v.hash(&mut h);
    h.finish()
}

pub fn part<C>(
    name: &'static str,
    rule: &'static str,
    quick: u32,
    thorough: u32,
    strat: impl Fn(Tier) -> BoxedStrategy<C> + 'static,
    check: impl Fn(&C, &mut Ctx) -> CheckResult + Clone + 'static,
) -> Sub
where
    C: Serialize + DeserializeOwned + Debug + Clone + 'static,
{
    let check2 = check.clone();
    Sub {
        name,
        rule,
        quick,
        thorough,
        drive: Box::new(move |cases, seed, trace, tier| {
            let stats = RefCell::new(SubStats::default());
            let seen = RefCell::new(HashSet::new());
            let failed = RefCell::new(false);
            let message = RefCell::new(String::new());
            let config = Config {
                cases,
                failure_persistence: None,
                max_shrink_iters: 4000,
                max_shrink_time: 40_000,
                max_global_rejects: cases.saturating_mul(20).max(1000),
                ..Config::default()
            };
            let rng = TestRng::from_seed(RngAlgorithm::ChaCha, &seed);
            let mut runner = TestRunner::new_with_rng(config, rng);
            let r = runner.run(&strat(tier), |case: C| {
                if let Some(path) = trace {
                    let v = json!({"sub": name, "case": &case});
                    let _ = std::fs::write(path, v.to_string());
                }
                let mut ctx = Ctx::default();
                let verdict = guarded(|| check(&case, &mut ctx));
                if *failed.borrow() {
                    // shrinking: nothing is counted
                    return match verdict {
                        Ok(_) => Ok(()),
                        Err(m) => {
                            *message.borrow_mut() = m.clone();
                            Err(TestCaseError::fail("x"))
                        }
                    };
                }
                let mut st = stats.borrow_mut();
                st.cases += 1;
                for l in ctx.labels {
                    *st.labels.entry(l).or_default() += 1;
                }
                for (k, v) in ctx.metrics {
                    let e = st.metrics.entry(k.into()).or_insert(f64::MIN);
                    if v > *e {
                        *e = v;
                    }
                }
                match verdict {
                    Ok(Verdict::Pass) => {
                        st.pass += 1;
                        let txt = serde_json::to_string(&case).unwrap();
                        if seen.borrow_mut().insert(hash_of(&txt)) {
                            let n = seen.borrow().len();
                            if n == 1 || n == 17 {
                                st.samples.push(json!({"sub": name, "case": &case}));
                            }
                        }
                        Ok(())
                    }
                    Ok(Verdict::Trivial) => {
                        st.trivial += 1;
                        Ok(())
                    }
                    Ok(Verdict::Skip(why)) => {
                        *st.skip.entry(why.to_string()).or_default() += 1;
                        Ok(())
                    }
                    Err(m) => {
                        *failed.borrow_mut() = true;
                        *message.borrow_mut() = m;
                        Err(TestCaseError::fail("x"))
                    }
                }
            });
            let mut st = stats.into_inner();
            st.hashes = seen.into_inner().into_iter().collect();
            let failure = match r {
                Ok(()) => None,
                Err(TestError::Fail(_, case)) => {
                    // the message belonging to the minimal case
                    let mut ctx = Ctx::default();
                    let m = match guarded(|| check(&case, &mut ctx)) {
                        Err(m) => m,
                        Ok(_) => message.into_inner(),
                    };
                    Some(Failure {
                        sub: name.into(),
                        case: serde_json::to_value(&case).unwrap(),
                        message: m,
                    })
                }
                Err(TestError::Abort(why)) => {
                    eprintln!("{name}: generation aborted: {why}");
                    std::process::exit(3);
                }
            };
            (st, failure)
        }),
        replay: Box::new(move |v, ctx| {
            let case: C =
                serde_json::from_value(v.clone()).map_err(|e| format!("bad replay: {e}"))?;
            guarded(|| check2(&case, ctx))
        }),
    }
}

/// A panic of the check itself is a mistake of the harness, not a violation.
fn guarded(f: impl FnOnce() -> CheckResult) -> CheckResult {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(r) => r,
        Err(_) => {
            eprintln!("harness error: {}", sut::last_panic());
            std::process::exit(4);
        }
    }
}

pub struct Property {
    pub id: &'static str,
    pub subs: Vec<Sub>,
    pub assumptions: Vec<&'static str>,
}

pub const SHARDS: u32 = 8;

fn seed_for(seed: u64, prop: &str, sub: &str, shard: u32) -> [u8; 32] {
    let mut out = [0u8; 32];
    for i in 0..4u64 {
        let mut h = DefaultHasher::new();
        (seed, prop, sub, shard, i).hash(&mut h);
        out[i as usize * 8..][..8].copy_from_slice(&h.finish().to_le_bytes());
    }
    out
}

/// The work of one shard process.
pub fn shard(p: &Property, tier: Tier, seed: u64, k: u32, result: &Path, trace: Option<&Path>) {
    sut::init();
    let mut r = ShardResult::default();
    for s in &p.subs {
        let total = if tier == Tier::Quick { s.quick } else { s.thorough };
        let total = match std::env::var("PV_SCALE").ok().and_then(|x| x.parse::<f64>().ok()) {
            Some(f) => ((total as f64) * f).ceil() as u32,
            None => total,
        };
        let n = total / SHARDS + u32::from(k < total % SHARDS);
        if n == 0 {
            continue;
        }
        let (stats, failure) = (s.drive)(n, seed_for(seed, p.id, s.name, k), trace, tier);
        r.subs.insert(s.name.into(), stats);
        if failure.is_some() {
            r.failure = failure;
            break;
        }
    }
    r.sim_runs = sut::SIM_RUNS.with(|c| c.get());
    r.sim_steps = sut::SIM_STEPS.with(|c| c.get());
    std::fs::write(result, serde_json::to_vec(&r).unwrap()).unwrap();
}

pub fn verif_dir() -> PathBuf {
    std::env::var("PV_DIR")
        .map(PathBuf::from)
        .unwrap_or_else(|_| PathBuf::from("/verif"))
}

fn write_replay(p: &Property, f: &Failure) -> PathBuf {
    let dir = verif_dir().join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let path = dir.join(format!("{}-{}.json", p.id, f.sub));
    let v = json!({"property": p.id, "sub": f.sub, "message": f.message, "case": f.case});
    std::fs::write(&path, serde_json::to_string_pretty(&v).unwrap()).unwrap();
    path
}

fn report(p: &Property, f: &Failure) {
    let path = write_replay(p, f);
    println!("{} ({}): {}", p.id, f.sub, f.message);
    println!("VIOLATION property={} replay={}", p.id, path.display());
}

/// Replays one saved case; returns the message of a violation.
pub fn replay_value(p: &Property, v: &Value, verbose: bool) -> Result<CheckResult, String> {
    let name = v["sub"].as_str().ok_or("replay without sub")?;
    let s = p
        .subs
        .iter()
        .find(|s| s.name == name)
        .ok_or_else(|| format!("no sub-check {name}"))?;
    let mut ctx = Ctx {
        verbose,
        ..Default::default()
    };
    let r = (s.replay)(&v["case"], &mut ctx);
    if verbose {
        eprintln!("labels: {:?} metrics: {:?}", ctx.labels, ctx.metrics);
    }
    Ok(r)
}

fn corpus(p: &Property) -> Vec<(PathBuf, Value)> {
    let dir = verif_dir().join("corpus").join(p.id);
    let mut files: Vec<_> = std::fs::read_dir(dir)
        .map(|d| d.filter_map(|e| e.ok().map(|e| e.path())).collect())
        .unwrap_or_default();
    files.sort();
    files
        .into_iter()
        .filter(|f| f.extension().is_some_and(|e| e == "json"))
        .map(|f| {
            let v = serde_json::from_slice(&std::fs::read(&f).unwrap()).unwrap();
            (f, v)
        })
        .collect()
}

/// Replays the saved regression cases of a property in this process.
pub fn run_corpus(p: &Property, result: &Path) {
    sut::init();
    let mut n = 0u64;
    let mut failure = None;
    for (path, v) in corpus(p) {
        match replay_value(p, &v, false) {
            Ok(Ok(_)) => n += 1,
            Ok(Err(m)) => {
                failure = Some(Failure {
                    sub: v["sub"].as_str().unwrap().into(),
                    case: v["case"].clone(),
                    message: format!("regression case {}: {m}", path.display()),
                });
                break;
            }
            Err(m) => {
                eprintln!("{}: {m}", path.display());
                std::process::exit(4);
            }
        }
    }
    std::fs::write(result, json!({"n": n, "failure": failure}).to_string()).unwrap();
}

struct Scratch(PathBuf);
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

/// Runs all shards of a property and reports. Returns the exit code.
pub fn check(p: &Property, tier: Tier, seed: u64) -> i32 {
    let start = Instant::now();
    let limit = Duration::from_secs(match tier {
        Tier::Quick => 780,
        Tier::Thorough => 6 * 3600,
    });
    let exe = std::env::current_exe().unwrap();
    let scratch = Scratch(std::env::temp_dir().join(format!("pv-{}-{}", p.id, std::process::id())));
    std::fs::create_dir_all(&scratch.0).unwrap();
    let tier_name = if tier == Tier::Quick { "quick" } else { "thorough" };
    let spawn = |args: &[String]| {
        Command::new(&exe)
            .args(args)
            .env("PV_SCRATCH", &scratch.0)
            .stdin(Stdio::null())
            .stdout(Stdio::null())
            .spawn()
            .expect("spawn shard")
    };
    let res = |k: u32| scratch.0.join(format!("shard{k}.json"));
    let args = |k: u32, trace: bool| -> Vec<String> {
        let mut a = vec![
            "shard".to_string(),
            p.id.to_string(),
            tier_name.to_string(),
            seed.to_string(),
            k.to_string(),
            res(k).display().to_string(),
        ];
        if trace {
            a.push(scratch.0.join(format!("trace{k}.json")).display().to_string());
        }
        a
    };
    let wait = |child: &mut std::process::Child, limit: Duration| loop {
        match child.try_wait().unwrap() {
            Some(s) => break Some(s),
            None if start.elapsed() > limit => {
                let _ = child.kill();
                let _ = child.wait();
                break None;
            }
            None => std::thread::sleep(Duration::from_millis(5)),
        }
    };

    // saved regression cases
    let cres = scratch.0.join("corpus.json");
    let mut c = spawn(&[
        "corpus".into(),
        p.id.into(),
        cres.display().to_string(),
    ]);
    let st = wait(&mut c, limit);
    let corpus_n;
    let mut failures: Vec<Failure> = vec![];
    match st {
        Some(s) if s.success() => {
            let v: Value = serde_json::from_slice(&std::fs::read(&cres).unwrap()).unwrap();
            corpus_n = v["n"].as_u64().unwrap();
            if !v["failure"].is_null() {
                failures.push(serde_json::from_value(v["failure"].clone()).unwrap());
            }
        }
        other => {
            eprintln!("{}: replaying the corpus failed: {other:?}", p.id);
            return 2;
        }
    }

    let mut total = ShardResult::default();
    let mut error = None;
    if failures.is_empty() {
        let mut kids: Vec<_> = (0..SHARDS).map(|k| Some(spawn(&args(k, false)))).collect();
        let mut left = SHARDS;
        while left > 0 {
            std::thread::sleep(Duration::from_millis(5));
            for k in 0..SHARDS {
                let Some(child) = kids[k as usize].as_mut() else {
                    continue;
                };
                let done = match child.try_wait().unwrap() {
                    Some(s) => Some(s),
                    None if start.elapsed() > limit => {
                        let _ = child.kill();
                        let _ = child.wait();
                        error = Some(format!("shard {k} ran out of time"));
                        kids[k as usize] = None;
                        left -= 1;
                        continue;
                    }
                    None => None,
                };
                let Some(status) = done else { continue };
                kids[k as usize] = None;
                left -= 1;
                if status.success() {
                    let r: ShardResult =
                        serde_json::from_slice(&std::fs::read(res(k)).unwrap()).unwrap();
                    merge(&mut total, r);
                    if let Some(f) = total.failure.take() {
                        failures.push(f);
                        // one is enough
                        for c in kids.iter_mut().flatten() {
                            let _ = c.kill();
                            let _ = c.wait();
                        }
                        left = 0;
                        break;
                    }
                } else if status.code().is_none() {
                    // killed by a signal: find the case which did it
                    let mut c = spawn(&args(k, true));
                    let again = wait(&mut c, limit);
                    let tr = scratch.0.join(format!("trace{k}.json"));
                    match (again, std::fs::read(&tr)) {
                        (Some(s), Ok(b)) if s.code().is_none() => {
                            let v: Value = serde_json::from_slice(&b).unwrap();
                            failures.push(Failure {
                                sub: v["sub"].as_str().unwrap().into(),
                                case: v["case"].clone(),
                                message: format!("the process died: {s}"),
                            });
                        }
                        _ => error = Some(format!("shard {k} died: {status}")),
                    }
                } else {
                    error = Some(format!("shard {k} failed: {status}"));
                }
            }
        }
    }
    let violations = failures.len();
    write_evidence(p, tier, seed, &total, corpus_n, start.elapsed().as_secs_f64(), violations);
    if let Some(f) = failures.first() {
        report(p, f);
        return 1;
    }
    if let Some(e) = error {
        eprintln!("{}: {e}", p.id);
        return 2;
    }
    let n: u64 = total.subs.values().map(|s| s.cases).sum();
    let pass: u64 = total.subs.values().map(|s| s.pass).sum();
    println!(
        "{} held on {n} cases ({pass} non-trivial, {} simulations), {:.1} s",
        p.id,
        total.sim_runs,
        start.elapsed().as_secs_f64()
    );
    for (name, s) in &total.subs {
        println!(
            "  {name}: {} cases, {} non-trivial, {} trivial, skipped {:?}, labels {:?}, max {:?}",
            s.cases, s.pass, s.trivial, s.skip, s.labels, s.metrics
        );
    }
    let _ = std::io::stdout().flush();
    // a check which decides nothing must not look like success
    for s in &p.subs {
        if let Some(st) = total.subs.get(s.name) {
            // (nothing can be said about a plotting tool which uses libraries in another way)
            let beyond = st.skip.get(BEYOND).copied().unwrap_or(0);
            if beyond > 0 {
                println!("NOTE: {} {}: {beyond} cases are not judged: {BEYOND}", p.id, s.name);
            }
            if st.pass * 10 + beyond * 10 < st.cases && st.cases >= 100 {
                eprintln!("{}: {} is nearly vacuous", p.id, s.name);
                return 2;
            }
        }
    }
    0
}

fn merge(t: &mut ShardResult, r: ShardResult) {
    t.sim_runs += r.sim_runs;
    t.sim_steps += r.sim_steps;
    t.failure = r.failure;
    for (k, s) in r.subs {
        let e = t.subs.entry(k).or_default();
        e.cases += s.cases;
        e.pass += s.pass;
        e.trivial += s.trivial;
        for (k, v) in s.skip {
            *e.skip.entry(k).or_default() += v;
        }
        for (k, v) in s.labels {
            *e.labels.entry(k).or_default() += v;
        }
        for (k, v) in s.metrics {
            let m = e.metrics.entry(k).or_insert(f64::MIN);
            *m = m.max(v);
        }
        e.hashes.extend(s.hashes);
        if e.samples.len() < 2 {
            e.samples.extend(s.samples);
            e.samples.truncate(2);
        }
    }
}

fn write_evidence(
    p: &Property,
    tier: Tier,
    seed: u64,
    t: &ShardResult,
    corpus_n: u64,
    wall: f64,
    violations: usize,
) {
    let mut distinct = 0usize;
    let mut subs = serde_json::Map::new();
    let mut samples = vec![];
    for (name, s) in &t.subs {
        let d = s.hashes.iter().collect::<HashSet<_>>().len();
        distinct += d;
        samples.extend(s.samples.iter().cloned());
        subs.insert(
            name.clone(),
            json!({"cases": s.cases, "nontrivial": s.pass, "distinct_nontrivial": d,
                "trivial": s.trivial, "skipped": s.skip, "classes": s.labels,
                "largest": s.metrics}),
        );
    }
    let rule: Vec<String> = p
        .subs
        .iter()
        .map(|s| format!("{}: {}", s.name, s.rule))
        .collect();
    let v = json!({
        "property": p.id,
        "tier": if tier == Tier::Quick { "quick" } else { "thorough" },
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": t.subs.values().map(|s| s.cases).sum::<u64>() + corpus_n,
            "distinct_nontrivial": distinct,
            "rule": rule.join(" | "),
            "samples": samples,
            "simulations_run": t.sim_runs,
            "time_steps_simulated_about": t.sim_steps,
            "regression_cases_replayed": corpus_n,
            "per_subcheck": subs,
        },
        "assumptions": p.assumptions,
        "wall_s": wall,
        "violations": violations,
    });
    let dir = verif_dir().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    std::fs::write(
        dir.join(format!("{}.json", p.id)),
        serde_json::to_string_pretty(&v).unwrap(),
    )
    .unwrap();
}
