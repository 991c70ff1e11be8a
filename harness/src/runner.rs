//! The generic property runner: seeded generation (proptest), parallel search,
//! shrinking to a minimal case, replay files, known findings, evidence.

use std::any::Any;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::hash::{DefaultHasher, Hash, Hasher};
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

use proptest::strategy::{BoxedStrategy, Strategy, ValueTree};
use proptest::test_runner::{Config, RngAlgorithm, TestRng, TestRunner};
use serde::Serialize;
use serde::de::DeserializeOwned;
use serde_json::{Value, json};

pub const VERIF_DIR: &str = "/verif";

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

impl Tier {
    pub fn name(self) -> &'static str {
        match self {
            Tier::Quick => "quick",
            Tier::Thorough => "thorough",
        }
    }
}

/// What one case reported.
#[derive(Default, Debug, Clone)]
pub struct Outcome {
    /// Non-trivial by the rule of the property.
    pub nontrivial: bool,
    /// Classification labels of the case (for the distribution in the evidence).
    pub tags: Vec<&'static str>,
}

impl Outcome {
    pub fn tag(&mut self, t: &'static str) {
        if !self.tags.contains(&t) {
            self.tags.push(t);
        }
    }
    pub fn tag_if(&mut self, c: bool, t: &'static str) {
        if c {
            self.tag(t);
        }
    }
}

/// A failed case: `sig` identifies the kind of failure (for known findings), `msg` explains it.
#[derive(Debug, Clone)]
pub struct Failure {
    pub sig: String,
    pub msg: String,
}

pub type CaseResult = Result<Outcome, Failure>;

pub fn fail<T>(sig: &str, msg: impl Into<String>) -> Result<T, Failure> {
    Err(Failure {
        sig: sig.to_owned(),
        msg: msg.into(),
    })
}

#[macro_export]
macro_rules! ensure {
    ($cond:expr, $sig:expr, $($arg:tt)*) => {
        if !$cond {
            return Err($crate::runner::Failure { sig: $sig.to_string(), msg: format!($($arg)*) });
        }
    };
}

// ---------------------------------------------------------------- panics

thread_local! {
    static PANICS: RefCell<Vec<String>> = const { RefCell::new(Vec::new()) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_owned()
        };
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        if std::env::var_os("VERIF_BACKTRACE").is_some() {
            eprintln!("panic: {msg} at {loc}\n{}", std::backtrace::Backtrace::force_capture());
        }
        PANICS.with(|p| p.borrow_mut().push(format!("{msg} at {loc}")));
    }));
}

pub fn take_panics() -> Vec<String> {
    PANICS.with(|p| std::mem::take(&mut *p.borrow_mut()))
}

/// Run one case: a panic anywhere on this thread (in the code under test, in a task
/// it spawned) is a failure.
fn guarded<C>(check: &dyn Fn(&C) -> CaseResult, case: &C) -> CaseResult {
    take_panics();
    let res = catch_unwind(AssertUnwindSafe(|| check(case)));
    let panics = take_panics();
    match res {
        Ok(r) => {
            // a panic of the code under test explains more than a later failure
            if let Some(p) = panics.first() {
                return fail("panic", format!("panic: {p}"));
            }
            r
        }
        Err(_) => fail(
            "panic",
            format!("panic: {}", panics.first().cloned().unwrap_or_default()),
        ),
    }
}

// ---------------------------------------------------------------- parts

pub struct PartReport {
    pub name: &'static str,
    pub evaluations: u64,
    pub nontrivial: u64,
    pub distinct: u64,
    pub tags: BTreeMap<&'static str, u64>,
    pub samples: Vec<Value>,
    pub known: BTreeMap<String, u64>,
    pub violation: Option<Violation>,
}

pub struct Violation {
    pub part: &'static str,
    pub case: Value,
    pub msg: String,
    pub sig: String,
    pub original: Value,
    pub hang: bool,
}

pub struct RunCtx<'a> {
    pub prop: &'a str,
    pub tier: Tier,
    pub seed: u64,
    pub threads: usize,
    pub known: &'a [Known],
    pub scale: f64,
}

type RunFn = Box<dyn Fn(&RunCtx) -> PartReport + Send + Sync>;
type ReplayFn = Box<dyn Fn(&Value) -> Result<CaseResult, String> + Send + Sync>;

pub struct Part {
    pub name: &'static str,
    pub run: RunFn,
    pub replay: ReplayFn,
}

pub struct Property {
    pub id: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub parts: Vec<Part>,
}

#[derive(Clone, Debug, serde::Deserialize)]
pub struct Known {
    pub property: String,
    pub part: String,
    /// signature of the failure
    pub sig: String,
    pub what: String,
    /// replay input which shows it
    pub case: Value,
}

fn hash_of(v: &impl Debug) -> u64 {
    let mut h = DefaultHasher::new();
    format!("{v:?}").hash(&mut h);
    h.finish()
}

fn seed_bytes(prop: &str, part: &str, seed: u64, thread: u64) -> [u8; 32] {
    let mut out = [0u8; 32];
    for i in 0..4u64 {
        // FNV-1a over the identity of the stream: independent of std's hasher
        let mut h: u64 = 0xcbf29ce484222325;
        let mut eat = |b: &[u8]| {
            for x in b {
                h ^= *x as u64;
                h = h.wrapping_mul(0x100000001b3);
            }
        };
        eat(prop.as_bytes());
        eat(b"/");
        eat(part.as_bytes());
        eat(&seed.to_le_bytes());
        eat(&thread.to_le_bytes());
        eat(&i.to_le_bytes());
        h ^= h >> 29;
        h = h.wrapping_mul(0xbf58476d1ce4e5b9);
        h ^= h >> 32;
        out[(i * 8) as usize..(i * 8 + 8) as usize].copy_from_slice(&h.to_le_bytes());
    }
    out
}

/// A case which runs for this long is a hang (ordinary cases take milliseconds).
const HANG: Duration = Duration::from_secs(60);

struct Slot {
    started: AtomicU64, // ms since run start + 1, 0 = idle
    case: Mutex<Option<Box<dyn Any + Send>>>,
}

/// Build a part: `strategy` generates the cases, `check` decides one, `quick`/`thorough`
/// are the numbers of cases.
pub fn part<C, S, F>(
    name: &'static str,
    quick: u64,
    thorough: u64,
    strategy: S,
    check: F,
) -> Part
where
    C: Debug + Clone + Serialize + DeserializeOwned + Send + 'static,
    S: Fn(Tier) -> BoxedStrategy<C> + Send + Sync + 'static,
    F: Fn(&C) -> CaseResult + Send + Sync + Clone + 'static,
{
    let check2 = check.clone();
    Part {
        name,
        run: Box::new(move |ctx| run_part(name, quick, thorough, &strategy, &check, ctx)),
        replay: Box::new(move |v| {
            let case: C = serde_json::from_value(v.clone()).map_err(|e| e.to_string())?;
            Ok(guarded(&check2, &case))
        }),
    }
}

fn run_part<C>(
    name: &'static str,
    quick: u64,
    thorough: u64,
    strategy: &(dyn Fn(Tier) -> BoxedStrategy<C> + Send + Sync),
    check: &(dyn Fn(&C) -> CaseResult + Send + Sync),
    ctx: &RunCtx,
) -> PartReport
where
    C: Debug + Clone + Serialize + DeserializeOwned + Send + 'static,
{
    let total = match ctx.tier {
        Tier::Quick => quick,
        Tier::Thorough => thorough,
    };
    let total = ((total as f64) * ctx.scale).ceil() as u64;
    let threads = ctx.threads.min(total.max(1) as usize).max(1);
    let stop = AtomicBool::new(false);
    let done = AtomicU64::new(0);
    let t0 = Instant::now();
    let slots: Vec<Arc<Slot>> = (0..threads)
        .map(|_| {
            Arc::new(Slot {
                started: AtomicU64::new(0),
                case: Mutex::new(None),
            })
        })
        .collect();

    struct Acc {
        evals: u64,
        nontrivial: u64,
        distinct: HashSet<u64>,
        tags: BTreeMap<&'static str, u64>,
        samples: Vec<Value>,
        known: BTreeMap<String, u64>,
        violation: Option<Violation>,
    }
    let acc = Mutex::new(Acc {
        evals: 0,
        nontrivial: 0,
        distinct: HashSet::new(),
        tags: BTreeMap::new(),
        samples: Vec::new(),
        known: BTreeMap::new(),
        violation: None,
    });

    std::thread::scope(|scope| {
        for t in 0..threads {
            let slot = Arc::clone(&slots[t]);
            let (stop, done, acc) = (&stop, &done, &acc);
            let my_cases = total / threads as u64 + u64::from((t as u64) < total % threads as u64);
            std::thread::Builder::new()
                .stack_size(16 << 20)
                .spawn_scoped(scope, move || {
                    // a mistake of the harness itself (a generator): no answer
                    struct NoAnswer;
                    impl Drop for NoAnswer {
                        fn drop(&mut self) {
                            if std::thread::panicking() {
                                eprintln!("harness panic: {:?}", take_panics());
                                std::process::exit(2);
                            }
                        }
                    }
                    let _no_answer = NoAnswer;
                    let cfg = Config {
                        failure_persistence: None,
                        max_shrink_iters: 0,
                        ..Config::default()
                    };
                    let rng = TestRng::from_seed(
                        RngAlgorithm::ChaCha,
                        &seed_bytes(ctx.prop, name, ctx.seed, t as u64),
                    );
                    let mut runner = TestRunner::new_with_rng(cfg, rng);
                    let strat = strategy(ctx.tier);
                    let run = |case: &C| -> CaseResult {
                        *slot.case.lock().unwrap() = Some(Box::new(case.clone()));
                        slot.started
                            .store(t0.elapsed().as_millis() as u64 + 1, Ordering::SeqCst);
                        let r = guarded(&|c: &C| check(c), case);
                        slot.started.store(0, Ordering::SeqCst);
                        r
                    };
                    let is_known = |f: &Failure| {
                        ctx.known
                            .iter()
                            .any(|k| k.property == ctx.prop && k.part == name && k.sig == f.sig)
                    };
                    let mut evals = 0u64;
                    let mut nontrivial = 0u64;
                    let mut distinct = HashSet::new();
                    let mut tags: BTreeMap<&'static str, u64> = BTreeMap::new();
                    let mut samples = Vec::new();
                    let mut known: BTreeMap<String, u64> = BTreeMap::new();
                    for _ in 0..my_cases {
                        if stop.load(Ordering::Relaxed) {
                            break;
                        }
                        let mut tree = match strat.new_tree(&mut runner) {
                            Ok(t) => t,
                            Err(e) => panic!("generator of {name} rejected: {e}"),
                        };
                        let case = tree.current();
                        evals += 1;
                        match run(&case) {
                            Ok(o) => {
                                for tag in &o.tags {
                                    *tags.entry(tag).or_default() += 1;
                                }
                                if o.nontrivial {
                                    nontrivial += 1;
                                    distinct.insert(hash_of(&case));
                                    if samples.len() < 2 {
                                        samples.push(json!({"part": name, "tags": o.tags, "case": serde_json::to_value(&case).unwrap_or(Value::Null)}));
                                    }
                                }
                            }
                            Err(f) if is_known(&f) => {
                                *known.entry(f.sig.clone()).or_default() += 1;
                            }
                            Err(f) => {
                                if stop.swap(true, Ordering::SeqCst) {
                                    break;
                                }
                                let original = serde_json::to_value(&case).unwrap_or(Value::Null);
                                let (mut best, mut why) = (case, f);
                                let limit = Instant::now() + if SWEEP.load(Ordering::Relaxed) { Duration::ZERO } else { Duration::from_secs(45) };
                                let mut iters = 0;
                                if tree.simplify() {
                                    loop {
                                        iters += 1;
                                        if iters > 20_000 || Instant::now() > limit {
                                            break;
                                        }
                                        let cur = tree.current();
                                        match run(&cur) {
                                            Err(f) if !is_known(&f) => {
                                                best = cur;
                                                why = f;
                                                if !tree.simplify() {
                                                    break;
                                                }
                                            }
                                            _ => {
                                                if !tree.complicate() {
                                                    break;
                                                }
                                            }
                                        }
                                    }
                                }
                                acc.lock().unwrap().violation = Some(Violation {
                                    part: name,
                                    case: serde_json::to_value(&best).unwrap_or(Value::Null),
                                    msg: why.msg,
                                    sig: why.sig,
                                    original,
                                    hang: false,
                                });
                                break;
                            }
                        }
                    }
                    let mut a = acc.lock().unwrap();
                    a.evals += evals;
                    a.nontrivial += nontrivial;
                    a.distinct.extend(distinct);
                    for (k, v) in tags {
                        *a.tags.entry(k).or_default() += v;
                    }
                    for (k, v) in known {
                        *a.known.entry(k).or_default() += v;
                    }
                    if a.samples.len() < 3 {
                        a.samples.extend(samples);
                    }
                    done.fetch_add(1, Ordering::SeqCst);
                })
                .expect("spawn");
        }
        // Watchdog: a case that does not end.
        while done.load(Ordering::SeqCst) < threads as u64 {
            std::thread::sleep(Duration::from_millis(2));
            let now = t0.elapsed().as_millis() as u64;
            for slot in &slots {
                let s = slot.started.load(Ordering::SeqCst);
                let hang = if SWEEP.load(Ordering::Relaxed) { HANG / 4 } else { HANG };
                if s != 0 && now.saturating_sub(s) > hang.as_millis() as u64 {
                    let guard = slot.case.lock().unwrap();
                    let case = guard
                        .as_ref()
                        .and_then(|b| b.downcast_ref::<C>())
                        .map(|c| serde_json::to_value(c).unwrap())
                        .unwrap_or(Value::Null);
                    hang_exit(ctx, name, case);
                }
            }
        }
    });

    let mut a = acc.into_inner().unwrap();
    a.samples.truncate(3);
    PartReport {
        name,
        evaluations: a.evals,
        nontrivial: a.nontrivial,
        distinct: a.distinct.len() as u64,
        tags: a.tags,
        samples: a.samples,
        known: a.known,
        violation: a.violation,
    }
}

/// A case ran into the watchdog.  The stuck threads cannot be ended, so the process has to
/// exit here.  It is a violation only when a fresh process, running nothing but this case,
/// gets stuck as well; otherwise the check gives no answer.
fn hang_exit(ctx: &RunCtx, part: &str, case: Value) -> ! {
    if SWEEP.load(Ordering::Relaxed) {
        println!("KILLED {} {part} hang", ctx.prop);
        std::process::exit(1);
    }
    let path = write_replay(
        ctx.prop,
        ctx.seed,
        part,
        "hang",
        &format!("the case did not end within {} s", HANG.as_secs()),
        &case,
        &Value::Null,
    );
    let exe = std::env::current_exe().unwrap();
    let mut child = std::process::Command::new(exe)
        .arg("replay")
        .arg(&path)
        .stdout(std::process::Stdio::null())
        .stderr(std::process::Stdio::null())
        .spawn()
        .unwrap();
    let t = Instant::now();
    let confirmed = loop {
        match child.try_wait() {
            Ok(Some(_)) => break false,
            _ if t.elapsed() > HANG => {
                let _ = child.kill();
                let _ = child.wait();
                break true;
            }
            _ => std::thread::sleep(Duration::from_millis(50)),
        }
    };
    if confirmed {
        write_evidence_raw(
            ctx,
            json!({"evaluations": 1, "distinct_nontrivial": 1, "rule": "stopped by a case that does not terminate", "samples": [case]}),
            0.0,
            1,
            &[],
        );
        println!("a case of {part} does not terminate (confirmed in a fresh process)");
        println!("VIOLATION property={} replay={}", ctx.prop, path.display());
        std::process::exit(1);
    }
    eprintln!("watchdog: a case of {part} ran for over {} s, and did not when replayed alone: no answer", HANG.as_secs());
    std::process::exit(3);
}

pub fn write_replay(
    prop: &str,
    seed: u64,
    part: &str,
    sig: &str,
    msg: &str,
    case: &Value,
    original: &Value,
) -> PathBuf {
    let dir = Path::new(VERIF_DIR).join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let path = dir.join(format!("{prop}-{part}.json"));
    let v = json!({
        "property": prop, "part": part, "seed": seed, "sig": sig, "message": msg,
        "case": case, "unshrunk": original,
    });
    std::fs::write(&path, serde_json::to_string_pretty(&v).unwrap()).expect("write replay");
    path
}

fn write_evidence_raw(
    ctx: &RunCtx,
    coverage: Value,
    wall: f64,
    violations: u64,
    assumptions: &[&str],
) {
    let dir = Path::new(VERIF_DIR).join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    let v = json!({
        "property": ctx.prop,
        "tier": ctx.tier.name(),
        "seed": ctx.seed,
        "level": "exploration",
        "coverage": coverage,
        "assumptions": assumptions,
        "wall_s": wall,
        "violations": violations,
    });
    std::fs::write(
        dir.join(format!("{}.json", ctx.prop)),
        serde_json::to_string_pretty(&v).unwrap(),
    )
    .expect("write evidence");
}

pub fn load_known() -> Vec<Known> {
    let path = Path::new(VERIF_DIR).join("known-findings.json");
    let Ok(text) = std::fs::read_to_string(path) else {
        return Vec::new();
    };
    let v: Value = serde_json::from_str(&text).expect("known-findings.json");
    serde_json::from_value(v["known"].clone()).expect("known-findings.json: known")
}

/// Saved regression inputs: /verif/corpus/<property>/*.json (same format as a replay file).
fn corpus(prop: &str) -> Vec<(PathBuf, Value)> {
    let mut out = Vec::new();
    if let Ok(rd) = std::fs::read_dir(Path::new(VERIF_DIR).join("corpus").join(prop)) {
        let mut paths: Vec<_> = rd.flatten().map(|e| e.path()).collect();
        paths.sort();
        for p in paths {
            if p.extension().is_some_and(|e| e == "json") {
                let text = std::fs::read_to_string(&p).expect("corpus file");
                out.push((p, serde_json::from_str(&text).expect("corpus json")));
            }
        }
    }
    out
}

/// Only tells whether anything fails (for tools/mutate): no shrinking, no files.
static SWEEP: AtomicBool = AtomicBool::new(false);

pub fn sweep(props: &[Property], seed: u64, threads: usize, scales: &[f64], only: &[String]) -> i32 {
    SWEEP.store(true, Ordering::SeqCst);
    let known = load_known();
    for &scale in scales {
        for p in props.iter().filter(|p| only.is_empty() || only.iter().any(|o| o == p.id)) {
            for q in &p.parts {
                let ctx = RunCtx { prop: p.id, tier: Tier::Quick, seed, threads, known: &known, scale };
                if let Some(v) = (q.run)(&ctx).violation {
                    println!("KILLED {} {} {}", p.id, q.name, v.sig);
                    return 1;
                }
            }
        }
    }
    println!("SURVIVED");
    0
}

pub fn run_property(prop: &Property, tier: Tier, seed: u64, threads: usize, scale: f64, only: Option<&str>) -> i32 {
    let t0 = Instant::now();
    let known = load_known();
    let ctx = RunCtx {
        prop: prop.id,
        tier,
        seed,
        threads,
        known: &known,
        scale,
    };
    let mut violation: Option<Violation> = None;
    let mut replayed = 0u64;
    for (path, v) in corpus(prop.id) {
        let part = v["part"].as_str().unwrap_or_default();
        let Some(p) = prop.parts.iter().find(|p| p.name == part) else {
            eprintln!("{}: no part {part}", path.display());
            return 2;
        };
        replayed += 1;
        match (p.replay)(&v["case"]) {
            Err(e) => {
                eprintln!("{}: {e}", path.display());
                return 2;
            }
            Ok(Ok(_)) => {}
            Ok(Err(f)) => {
                if !known
                    .iter()
                    .any(|k| k.property == prop.id && k.part == part && k.sig == f.sig)
                {
                    violation = Some(Violation {
                        part: p.name,
                        case: v["case"].clone(),
                        msg: f.msg,
                        sig: f.sig,
                        original: Value::Null,
                        hang: false,
                    });
                    break;
                }
            }
        }
    }
    for k in known.iter().filter(|k| k.property == prop.id) {
        println!("KNOWN-FINDING: property={} {}", k.property, k.what);
    }
    let mut reports: Vec<PartReport> = Vec::new();
    if violation.is_none() {
        for p in &prop.parts {
            if only.is_some_and(|o| o != p.name) {
                continue;
            }
            let tp = Instant::now();
            let mut r = (p.run)(&ctx);
            eprintln!(
                "{}/{}: {} cases, {} non-trivial ({} distinct), {:.1} s",
                prop.id,
                r.name,
                r.evaluations,
                r.nontrivial,
                r.distinct,
                tp.elapsed().as_secs_f64()
            );
            let v = r.violation.take();
            reports.push(r);
            if v.is_some() {
                violation = v;
                break;
            }
        }
    }
    let evaluations: u64 = reports.iter().map(|r| r.evaluations).sum::<u64>() + replayed;
    let distinct: u64 = reports.iter().map(|r| r.distinct).sum();
    let mut samples: Vec<Value> = reports.iter().flat_map(|r| r.samples.clone()).collect();
    if samples.is_empty() {
        if let Some(v) = &violation {
            samples.push(v.case.clone());
        }
    }
    let parts: Value = reports
        .iter()
        .map(|r| {
            (
                r.name.to_owned(),
                json!({
                    "evaluations": r.evaluations, "nontrivial": r.nontrivial, "distinct_nontrivial": r.distinct,
                    "classes": r.tags, "excluded_as_known_finding": r.known,
                }),
            )
        })
        .collect::<serde_json::Map<_, _>>()
        .into();
    write_evidence_raw(
        &ctx,
        json!({
            "evaluations": evaluations,
            "distinct_nontrivial": distinct,
            "rule": prop.rule,
            "samples": samples,
            "parts": parts,
            "corpus_replayed": replayed,
        }),
        t0.elapsed().as_secs_f64(),
        violation.is_some() as u64,
        prop.assumptions,
    );
    match violation {
        Some(v) => {
            let path = write_replay(prop.id, seed, v.part, &v.sig, &v.msg, &v.case, &v.original);
            println!("{}/{} [{}]: {}", prop.id, v.part, v.sig, brief(&v.msg));
            println!("minimal case: {}", brief(&v.case.to_string()));
            println!("VIOLATION property={} replay={}", prop.id, path.display());
            1
        }
        None => {
            println!(
                "property {} held on {} cases ({} distinct non-trivial), seed {}, {:.1} s",
                prop.id,
                evaluations,
                distinct,
                seed,
                t0.elapsed().as_secs_f64()
            );
            0
        }
    }
}

/// The replay file has it all.
fn brief(s: &str) -> String {
    if s.len() <= 2500 {
        return s.to_string();
    }
    format!("{}… ({} characters)", s.chars().take(2400).collect::<String>(), s.chars().count())
}
