//! Runs the parts of a property: proptest generation on several workers, shrinking, replay files, evidence.
use proptest::prelude::*;
use proptest::test_runner::{Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner};
use serde::{de::DeserializeOwned, Serialize};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::PathBuf;
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::Instant;

/// A generated case. It can be written to a replay file and offers smaller variants of itself.
pub trait Case: Clone + std::fmt::Debug + Serialize + DeserializeOwned + Send + 'static {
    fn smaller(&self) -> Vec<Self> {
        Vec::new()
    }
}

/// What a check function notes about the case it looked at.
#[derive(Default)]
pub struct Obs {
    pub nontrivial: bool,
    pub classes: Vec<String>,
    /// Signatures of known findings that explain a failure of this case.
    pub known: Vec<&'static str>,
    /// A number of sub-evaluations (prefixes tried, queries made, ...) in this case.
    pub sub: u64,
}
/// the numbers of cases given per part are multiplied by this
const SCALE: f64 = 5.0;
impl Obs {
    pub fn class(&mut self, c: impl Into<String>) {
        self.classes.push(c.into());
    }
}
pub type Res = Result<(), String>;

#[derive(Clone)]
pub struct Ctx {
    pub prop: String,
    pub tier_thorough: bool,
    pub seed: u64,
    pub root: PathBuf,
    pub workers: usize,
    /// signatures listed in known_findings.txt for this property
    pub listed: Vec<String>,
}

#[derive(Default)]
pub struct Report {
    pub evaluations: u64,
    pub sub: u64,
    pub hashes: HashSet<u64>,
    pub classes: BTreeMap<String, u64>,
    pub samples: Vec<Value>,
    pub known: BTreeMap<String, u64>,
    pub failure: Option<Failure>,
}
pub struct Failure {
    pub part: String,
    pub message: String,
    pub case: Value,
}

pub struct Part {
    pub name: &'static str,
    pub rule: &'static str,
    pub run: Box<dyn Fn(&Ctx) -> Report>,
    pub replay: Box<dyn Fn(&Value) -> (Res, Obs)>,
}

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}
pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{msg} at {loc}"));
    }));
}
/// Runs code under test, turning a panic into Err with its message.
pub fn guarded<T>(what: &str, f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| {
        let m = LAST_PANIC.with(|p| p.borrow().clone());
        format!("{what} panicked: {}", m.chars().take(300).collect::<String>())
    })
}

fn hash_of(v: &impl Serialize) -> u64 {
    // serialisation is a faithful description of the case
    let mut h = std::collections::hash_map::DefaultHasher::new();
    serde_json::to_vec(v).unwrap_or_default().hash(&mut h);
    h.finish()
}
fn seed_bytes(ctx: &Ctx, part: &str, worker: usize) -> [u8; 32] {
    let mut out = [0u8; 32];
    for (i, chunk) in out.chunks_mut(8).enumerate() {
        let mut h = Fnv(0xcbf29ce484222325);
        h.add(&ctx.seed.to_le_bytes());
        h.add(ctx.prop.as_bytes());
        h.add(part.as_bytes());
        h.add(&[worker as u8, i as u8]);
        chunk.copy_from_slice(&crate::gen::mix(h.0).to_le_bytes());
    }
    out
}
struct Fnv(u64);
impl Fnv {
    fn add(&mut self, b: &[u8]) {
        for x in b {
            self.0 = (self.0 ^ *x as u64).wrapping_mul(0x100000001b3);
        }
    }
}
fn brief(v: &impl std::fmt::Debug) -> Value {
    let s = format!("{v:?}");
    let n = s.chars().count();
    if n > 360 {
        let head: String = s.chars().take(300).collect();
        let tail: String = s.chars().skip(n - 40).collect();
        json!(format!("{head} ...({n} chars)... {tail}"))
    } else {
        json!(s)
    }
}

/// `cases` is the total number of cases for (quick, thorough).
pub fn part<S, T, G, F>(
    name: &'static str,
    rule: &'static str,
    cases: (u32, u32),
    strategy: G,
    check: F,
) -> Part
where
    T: Case,
    S: Strategy<Value = T>,
    G: Fn() -> S + Send + Sync + 'static,
    F: Fn(&T, &mut Obs) -> Res + Send + Sync + Clone + 'static,
{
    let check2 = check.clone();
    Part {
        name,
        rule,
        run: Box::new(move |ctx| run_part(ctx, name, cases, &strategy, &check)),
        replay: Box::new(move |v| {
            let mut obs = Obs::default();
            let case: T = match serde_json::from_value(v.clone()) {
                Ok(c) => c,
                Err(e) => return (Err(format!("replay file does not parse: {e}")), obs),
            };
            let r = guarded("check", || check2(&case, &mut obs)).and_then(|r| r);
            (r, obs)
        }),
    }
}

fn run_part<S, T, G, F>(ctx: &Ctx, name: &'static str, cases: (u32, u32), strategy: &G, check: &F) -> Report
where
    T: Case,
    S: Strategy<Value = T>,
    G: Fn() -> S + Sync,
    F: Fn(&T, &mut Obs) -> Res + Sync,
{
    let total = if ctx.tier_thorough { cases.1 } else { cases.0 };
    let scale: f64 = std::env::var("VERIF_CASES_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0) * SCALE;
    let total = ((total as f64 * scale) as u32).max(1);
    let workers = ctx.workers.min(total as usize).max(1);
    let merged = Mutex::new(Report::default());
    let failures: Mutex<BTreeMap<usize, (T, String)>> = Mutex::new(BTreeMap::new());
    // workers after the first failing one may stop early, those before it go on: the outcome is deterministic
    let failed_worker = AtomicUsize::new(usize::MAX);
    let evals = AtomicU64::new(0);
    let slots: Vec<Slot<T>> = (0..workers).map(|_| Mutex::new(None)).collect();
    let journal = std::env::var("VERIF_JOURNAL").ok().map(PathBuf::from);
    let running = AtomicUsize::new(workers);
    std::thread::scope(|sc| {
        let (slots, running, journal) = (&slots, &running, &journal);
        sc.spawn(move || watch(ctx, name, slots, running));
        for w in 0..workers {
            let (merged, failures, failed_worker, evals) = (&merged, &failures, &failed_worker, &evals);
            std::thread::Builder::new()
                .stack_size(256 << 20)
                .spawn_scoped(sc, move || {
                    let _done = Countdown(running);
                    let n = total / workers as u32 + u32::from((w as u32) < total % workers as u32);
                    let config = Config {
                        cases: n,
                        failure_persistence: None,
                        max_shrink_iters: 3000,
                        max_shrink_time: 40_000,
                        max_global_rejects: 1 << 30,
                        ..Config::default()
                    };
                    let rng = TestRng::from_seed(RngAlgorithm::ChaCha, &seed_bytes(ctx, name, w));
                    let mut runner = TestRunner::new_with_rng(config, rng);
                    let local = RefCell::new(Report::default());
                    let failing = RefCell::new(false);
                    let result = runner.run(&strategy(), |case| {
                        if failed_worker.load(Ordering::Relaxed) < w {
                            return Ok(());
                        }
                        if let Some(d) = journal {
                            let j = json!({"property": ctx.prop, "part": name, "seed": ctx.seed, "message": "the process ends abnormally", "case": case});
                            let _ = std::fs::write(d.join(format!("{w}.json")), j.to_string());
                        }
                        *slots[w].lock().unwrap() = Some((Instant::now(), case.clone()));
                        let mut obs = Obs::default();
                        let r = guarded("check", || check(&case, &mut obs)).and_then(|r| r);
                        *slots[w].lock().unwrap() = None;
                        evals.fetch_add(1, Ordering::Relaxed);
                        let r = accept_known(ctx, r, &obs, &local);
                        if !*failing.borrow() {
                            let mut l = local.borrow_mut();
                            l.evaluations += 1;
                            l.sub += obs.sub;
                            for c in &obs.classes {
                                *l.classes.entry(c.clone()).or_default() += 1;
                            }
                            if obs.nontrivial {
                                let fresh = l.hashes.insert(hash_of(&case));
                                if fresh && l.samples.len() < 2 {
                                    let b = brief(&case);
                                    l.samples.push(json!({ "part": name, "case": b }));
                                }
                            }
                        }
                        match r {
                            Ok(()) => Ok(()),
                            Err(m) => {
                                if !failing.replace(true) {
                                    // should making it smaller end the process
                                    if let Some(d) = std::env::var_os("VERIF_PENDING") {
                                        let j = json!({"property": ctx.prop, "part": name, "seed": ctx.seed, "message": m, "case": case});
                                        let _ = std::fs::write(PathBuf::from(d).join(format!("{w}.json")), j.to_string());
                                    }
                                }
                                failed_worker.fetch_min(w, Ordering::Relaxed);
                                Err(TestCaseError::fail(m))
                            }
                        }
                    });
                    match result {
                        Ok(()) => {}
                        Err(TestError::Fail(reason, case)) => {
                            failures.lock().unwrap().insert(w, (case, reason.message().to_string()));
                        }
                        Err(TestError::Abort(reason)) => {
                            eprintln!("ERROR generator aborted in {name}: {reason}");
                            std::process::exit(4);
                        }
                    }
                    let l = local.into_inner();
                    let mut m = merged.lock().unwrap();
                    m.evaluations += l.evaluations;
                    m.sub += l.sub;
                    m.hashes.extend(l.hashes);
                    for (k, v) in l.classes {
                        *m.classes.entry(k).or_default() += v;
                    }
                    for (k, v) in l.known {
                        *m.known.entry(k).or_default() += v;
                    }
                    if m.samples.len() < 3 {
                        m.samples.extend(l.samples);
                    }
                })
                .unwrap();
        }
    });
    let mut report = merged.into_inner().unwrap();
    report.samples.truncate(3);
    if let Some((_, (case, message))) = failures.into_inner().unwrap().into_iter().next() {
        let pending = Failure { part: name.to_string(), message: message.clone(), case: serde_json::to_value(&case).unwrap_or(Value::Null) };
        let done = std::sync::Arc::new(AtomicUsize::new(0));
        let (done2, ctx2) = (done.clone(), ctx.clone());
        std::thread::spawn(move || {
            // a smaller case may not end: then the one at hand is reported
            for _ in 0..1200 {
                std::thread::sleep(std::time::Duration::from_millis(100));
                if done2.load(Ordering::SeqCst) != 0 {
                    return;
                }
            }
            write_evidence(&ctx2, json!({"evaluations": 1, "distinct_nontrivial": 0, "samples": [], "rule": "stopped while making the failing case smaller"}), &[], 0.0, 1);
            report_failure(&ctx2, &pending);
            std::process::exit(1);
        });
        let (case, message) = minimise(ctx, case, message, check);
        done.store(1, Ordering::SeqCst);
        report.failure = Some(Failure {
            part: name.to_string(),
            message,
            case: serde_json::to_value(&case).unwrap_or(Value::Null),
        });
    }
    report
}

/// the case a worker is at, and since when
type Slot<T> = Mutex<Option<(Instant, T)>>;
struct Countdown<'a>(&'a AtomicUsize);
impl Drop for Countdown<'_> {
    fn drop(&mut self) {
        self.0.fetch_sub(1, Ordering::SeqCst);
    }
}
/// Cases take milliseconds, the largest a few seconds: one that takes this many seconds does not end.
pub fn hang_limit() -> u64 {
    std::env::var("VERIF_HANG").ok().and_then(|s| s.parse().ok()).unwrap_or(150)
}
/// Reports a case that does not end; there is no way to stop it but to end the process.
fn watch<T: Case>(ctx: &Ctx, name: &str, slots: &[Slot<T>], running: &AtomicUsize) {
    let limit = hang_limit() * if ctx.tier_thorough { 4 } else { 1 };
    while running.load(Ordering::SeqCst) > 0 {
        std::thread::sleep(std::time::Duration::from_millis(50));
        for s in slots {
            let Ok(g) = s.try_lock() else { continue };
            if let Some((since, case)) = &*g {
                if since.elapsed().as_secs() >= limit {
                    let f = Failure { part: name.into(), message: format!("does not end within {limit} s"), case: serde_json::to_value(case).unwrap_or(Value::Null) };
                    write_evidence(ctx, json!({"evaluations": 1, "distinct_nontrivial": 0, "samples": [], "rule": "stopped at a case that does not end"}), &[], 0.0, 1);
                    report_failure(ctx, &f);
                    std::process::exit(1);
                }
            }
        }
    }
}
pub fn report_failure(ctx: &Ctx, f: &Failure) {
    let dir = ctx.root.join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let path = dir.join(format!("{}-{}.json", ctx.prop, f.part));
    let replay = json!({"property": ctx.prop, "part": f.part, "seed": ctx.seed, "message": f.message, "case": f.case});
    let _ = std::fs::write(&path, serde_json::to_string_pretty(&replay).unwrap());
    println!("{}/{}: {}", ctx.prop, f.part, f.message.chars().take(1500).collect::<String>());
    println!("VIOLATION property={} replay={}", ctx.prop, path.display());
}
pub fn write_evidence(ctx: &Ctx, coverage: Value, assumptions: &[&str], wall: f64, violations: usize) -> bool {
    let ev = json!({
        "property": ctx.prop, "tier": if ctx.tier_thorough {"thorough"} else {"quick"}, "seed": ctx.seed,
        "level": "exploration", "coverage": coverage, "assumptions": assumptions,
        "wall_s": (wall*100.0).round()/100.0, "violations": violations,
    });
    let evdir = ctx.root.join("evidence");
    let _ = std::fs::create_dir_all(&evdir);
    let evfile = evdir.join(format!("{}.json", ctx.prop));
    if let Err(e) = std::fs::write(&evfile, serde_json::to_string_pretty(&ev).unwrap()) {
        eprintln!("ERROR cannot write {}: {e}", evfile.display());
        return false;
    }
    true
}
/// Runs this program again as a child. When the child dies (stack overflow, no memory) instead of giving a verdict,
/// it is run once more writing every case down before it is tried, and the cases it died at are then tried alone.
pub fn supervise(ctx: &Ctx, args: &[String]) -> i32 {
    use std::os::unix::process::ExitStatusExt;
    use std::process::Command;
    let me = std::env::current_exe().expect("own path");
    let pending = crate::scratch::Scratch::new();
    let run = |args: &[String], journal: Option<&std::path::Path>| {
        let mut c = Command::new(&me);
        c.args(args).env("VERIF_SUPERVISED", "1").env("VERIF_PENDING", pending.dir()).stdin(std::process::Stdio::null());
        if let Some(j) = journal {
            c.env("VERIF_JOURNAL", j).stdout(std::process::Stdio::null()).stderr(std::process::Stdio::null());
        }
        c.status()
    };
    let s = match run(args, None) {
        Ok(s) => s,
        Err(e) => {
            eprintln!("ERROR cannot run {}: {e}", me.display());
            return 5;
        }
    };
    let Some(signal) = s.signal() else { return s.code().unwrap_or(5) };
    let died = |signal: i32| format!("the process is ended by signal {signal}");
    if args.len() > 1 {
        println!("VIOLATION property={} replay={}", ctx.prop, args.get(2).map(|s| s.as_str()).unwrap_or(""));
        return 1;
    }
    eprintln!("{}; looking for the case", died(signal));
    let mut found: Vec<_> = std::fs::read_dir(pending.dir()).into_iter().flatten().flatten().map(|e| e.path()).collect();
    found.sort();
    for f in found {
        let a = [ctx.prop.clone(), "--replay".into(), f.to_string_lossy().into_owned()];
        let Ok(r) = run(&a, Some(pending.dir())) else { continue };
        if r.signal().is_some() || r.code() == Some(1) {
            let v: Value = std::fs::read_to_string(&f).ok().and_then(|t| serde_json::from_str(&t).ok()).unwrap_or(Value::Null);
            let f = Failure { part: v["part"].as_str().unwrap_or("").to_string(), message: v["message"].as_str().unwrap_or("").to_string(), case: v["case"].clone() };
            write_evidence(ctx, json!({"evaluations": 1, "distinct_nontrivial": 0, "samples": [], "rule": "stopped while making the failing case smaller"}), &[], 0.0, 1);
            report_failure(ctx, &f);
            return 1;
        }
    }
    let dir = crate::scratch::Scratch::new();
    let _ = run(args, Some(dir.dir()));
    let mut files: Vec<_> = std::fs::read_dir(dir.dir()).into_iter().flatten().flatten().map(|e| e.path()).collect();
    files.sort();
    for f in files {
        let a = [ctx.prop.clone(), "--replay".into(), f.to_string_lossy().into_owned()];
        let Ok(r) = Command::new("timeout").args(["-k", "1", "60"]).arg(&me).args(&a).env("VERIF_SUPERVISED", "1").stdout(std::process::Stdio::null()).stderr(std::process::Stdio::null()).status() else { continue };
        // timeout passes the signal on by dying of it, or gives 128 + signal
        let sig = r.signal().or(r.code().filter(|c| *c > 128).map(|c| c - 128)).filter(|s| *s != 9);
        if let Some(sig) = sig {
            let v: Value = std::fs::read_to_string(&f).ok().and_then(|t| serde_json::from_str(&t).ok()).unwrap_or(Value::Null);
            let f = Failure { part: v["part"].as_str().unwrap_or("").to_string(), message: died(sig), case: v["case"].clone() };
            write_evidence(ctx, json!({"evaluations": 1, "distinct_nontrivial": 0, "samples": [], "rule": "stopped at a case that ends the process"}), &[], 0.0, 1);
            report_failure(ctx, &f);
            return 1;
        }
    }
    eprintln!("ERROR {}, no single case does that", died(signal));
    3
}

fn accept_known(ctx: &Ctx, r: Res, obs: &Obs, local: &RefCell<Report>) -> Res {
    for k in &obs.known {
        if ctx.listed.iter().any(|l| l == k) {
            *local.borrow_mut().known.entry(k.to_string()).or_default() += 1;
        } else {
            return Err(format!("unlisted finding {k}"));
        }
    }
    r
}

/// Delta debugging on the concrete case, after proptest's own shrinking.
fn minimise<T: Case, F: Fn(&T, &mut Obs) -> Res>(ctx: &Ctx, mut case: T, mut message: String, check: &F) -> (T, String) {
    let start = Instant::now();
    let mut tries = 0;
    'outer: loop {
        for cand in case.smaller() {
            tries += 1;
            if tries > 4000 || start.elapsed().as_secs() > 40 {
                break 'outer;
            }
            let mut obs = Obs::default();
            let r = guarded("check", || check(&cand, &mut obs)).and_then(|r| r);
            let r = if obs.known.iter().all(|k| ctx.listed.iter().any(|l| l == k)) { r } else { Err("unlisted finding".into()) };
            if let Err(m) = r {
                case = cand;
                message = m;
                continue 'outer;
            }
        }
        break;
    }
    (case, message)
}

pub fn run_property(ctx: &Ctx, parts: Vec<Part>, assumptions: Vec<&str>) -> i32 {
    let start = Instant::now();
    let only = std::env::var("VERIF_PART").ok();
    let mut evaluations = 0;
    let mut sub = 0;
    let mut distinct = 0;
    let mut samples = Vec::new();
    let mut rules = Vec::new();
    let mut per_part = serde_json::Map::new();
    let mut known: BTreeMap<String, u64> = BTreeMap::new();
    let mut failures = Vec::new();
    for p in &parts {
        if only.as_deref().is_some_and(|o| o != p.name) {
            continue;
        }
        let t = Instant::now();
        let r = (p.run)(ctx);
        evaluations += r.evaluations;
        sub += r.sub;
        distinct += r.hashes.len() as u64;
        samples.extend(r.samples);
        rules.push(format!("{}: {}", p.name, p.rule));
        per_part.insert(
            p.name.to_string(),
            json!({"evaluations": r.evaluations, "distinct_nontrivial": r.hashes.len(), "inner_checks": r.sub,
                   "classes": r.classes, "wall_s": (t.elapsed().as_secs_f64()*100.0).round()/100.0}),
        );
        for (k, v) in r.known {
            *known.entry(k).or_default() += v;
        }
        if let Some(f) = r.failure {
            failures.push(f);
            break; // the first failing part decides; the rest would only repeat it
        }
    }
    let coverage = json!({
        "evaluations": evaluations, "distinct_nontrivial": distinct, "inner_checks": sub,
        "rule": rules.join(" | "), "samples": samples, "parts": per_part,
        "known_findings_excluded": known,
    });
    if !write_evidence(ctx, coverage, &assumptions, start.elapsed().as_secs_f64(), failures.len()) {
        return 5;
    }
    for k in known.keys() {
        println!("KNOWN-FINDING: property={} {}", ctx.prop, crate::known_text(ctx, k));
    }
    println!(
        "{}: {} cases, {} distinct non-trivial, {} inner checks, {:.1}s",
        ctx.prop, evaluations, distinct, sub, start.elapsed().as_secs_f64()
    );
    if failures.is_empty() {
        return 0;
    }
    for f in &failures {
        report_failure(ctx, f);
    }
    1
}
