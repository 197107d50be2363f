//! Shared machinery of the generated-input checks: seeded proptest generation, sharding over
//! threads, shrinking, replay files, evidence files.
pub use async_trait::async_trait;
pub use proptest;

use proptest::strategy::{BoxedStrategy, Strategy, ValueTree};
use proptest::test_runner::{Config, RngAlgorithm, TestRng, TestRunner};
use serde::de::DeserializeOwned;
use serde::Serialize;
use serde_json::{json, Value};
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::future::Future;
use std::hash::{Hash, Hasher};
use std::panic::AssertUnwindSafe;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub mod cluster;
pub mod model;
pub mod rt;
pub mod storage;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

/// What one executed case tells the evidence file.
#[derive(Default, Debug)]
pub struct CaseOut {
    pub nontrivial: bool,
    pub labels: Vec<&'static str>,
}

impl CaseOut {
    pub fn new(nontrivial: bool) -> Self {
        CaseOut {
            nontrivial,
            labels: vec![],
        }
    }
    pub fn label(mut self, on: bool, l: &'static str) -> Self {
        if on {
            self.labels.push(l);
        }
        self
    }
}

#[derive(Debug, Clone)]
pub enum Fail {
    /// the observed history itself contradicts the property
    Safety(String),
    /// something that must happen did not happen within a real-time deadline: only believed when
    /// it happens again on re-execution of the same case
    Deadline(String),
}

impl Fail {
    pub fn msg(&self) -> &str {
        match self {
            Fail::Safety(s) | Fail::Deadline(s) => s,
        }
    }
}

pub type CaseResult = Result<CaseOut, Fail>;

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($arg:tt)*) => {
        if !$c {
            return Err($crate::Fail::Safety(format!($($arg)*)));
        }
    };
}

pub trait Part: Sync {
    type Case: Debug + Clone + Serialize + DeserializeOwned + Send + 'static;
    fn name(&self) -> &'static str;
    /// how cases are made and what makes one non-trivial
    fn rule(&self) -> &'static str;
    fn strategy(&self, tier: Tier) -> BoxedStrategy<Self::Case>;
    fn check(&self, case: &Self::Case) -> CaseResult;
    fn cases(&self, tier: Tier) -> u32;
    fn shards(&self) -> u32 {
        8
    }
    fn shrink_budget(&self) -> (u32, Duration) {
        (400, Duration::from_secs(60))
    }
    /// how often a deadline failure has to repeat before it is believed
    fn confirmations(&self) -> u32 {
        2
    }
    /// how many cases are run in one process
    fn per_process(&self) -> u32 {
        u32::MAX
    }
    /// how long one execution of a case may take before it is taken to hang
    fn watchdog(&self) -> Duration {
        Duration::from_secs(200)
    }
}

#[derive(Default, Serialize, serde::Deserialize)]
struct Stats {
    evaluations: u64,
    nontrivial: u64,
    distinct: HashSet<u64>,
    distinct_nontrivial: HashSet<u64>,
    labels: BTreeMap<String, u64>,
    samples: Vec<Value>,
    inconclusive: u64,
    inconclusive_notes: Vec<String>,
}

#[derive(Serialize, serde::Deserialize)]
struct Found {
    part: String,
    case: Value,
    reason: String,
    shrunk_from: String,
    shrink_steps: u32,
}

pub struct Runner {
    property: String,
    tier: Tier,
    seed: u64,
    start: Instant,
    replay: Option<(String, Value)>,
    parts: Vec<Value>,
    rules: Vec<String>,
    samples: Vec<Value>,
    evaluations: u64,
    distinct_nontrivial: u64,
    found: Option<Found>,
    replayed: bool,
    pub assumptions: Vec<String>,
    only: Option<String>,
}

static SHRINKING: AtomicBool = AtomicBool::new(false);
pub fn shrinking() -> bool {
    SHRINKING.load(Ordering::SeqCst)
}

/// a running case: limit, part, case as JSON
struct Watched {
    id: u64,
    since: Instant,
    limit: Duration,
    part: &'static str,
    case: Value,
}
static WATCH: Mutex<Vec<Watched>> = Mutex::new(Vec::new());
static WATCH_ID: AtomicU64 = AtomicU64::new(1);

struct WatchGuard(u64);
impl Drop for WatchGuard {
    fn drop(&mut self) {
        WATCH.lock().unwrap().retain(|w| w.id != self.0);
    }
}
fn watch(limit: Duration, part: &'static str, case: Value) -> WatchGuard {
    let id = WATCH_ID.fetch_add(1, Ordering::Relaxed);
    WATCH.lock().unwrap().push(Watched { id, since: Instant::now(), limit, part, case });
    WatchGuard(id)
}

/// A case that blocks a thread for good (a busy loop, a deadlock of a lock) cannot report anything
/// itself. It is executed again in a process of its own: when that process hangs too, the case is a
/// violation, otherwise the run has no verdict.
fn start_watchdog(property: String, seed: u64) {
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_millis(500));
        let (part, case, limit) = {
            let g = WATCH.lock().unwrap();
            match g.iter().find(|w| w.since.elapsed() > w.limit) {
                None => continue,
                Some(w) => (w.part, w.case.clone(), w.limit),
            }
        };
        eprintln!("WATCHDOG: a case of {part} ran for over {limit:?}: {case}");
        if std::env::var("VF_NESTED").is_ok() {
            std::process::exit(4);
        }
        let reason = format!("the case does not end (stopped after {limit:?})");
        let path = write_replay(&property, part, seed, &reason, &case, 0, "");
        let child = std::process::Command::new(std::env::current_exe().unwrap())
            .args([property.as_str(), "replay", path.as_str()])
            .env("VF_NESTED", "1")
            .stdout(std::process::Stdio::null())
            .status();
        match child.ok().and_then(|s| s.code()) {
            Some(4) | Some(1) => {
                println!("{part}: {reason}, again in a process of its own");
                println!("case: {case}");
                println!("VIOLATION property={property} replay={path}");
                std::process::exit(1);
            }
            c => {
                eprintln!("it ended in a process of its own ({c:?}): no verdict");
                std::process::exit(3);
            }
        }
    });
}

fn write_replay(property: &str, part: &str, seed: u64, reason: &str, case: &Value, steps: u32, from: &str) -> String {
    let root = std::env::var("VF_ROOT").unwrap_or_else(|_| "/verif".into());
    let dir = format!("{}/replays", root);
    let _ = std::fs::create_dir_all(&dir);
    let path = format!("{}/{}-{}-{}.json", dir, property, part, seed);
    std::fs::write(
        &path,
        serde_json::to_string_pretty(&json!({
            "property": property,
            "part": part,
            "seed": seed,
            "reason": reason,
            "case": case,
            "shrink_steps": steps,
            "shrunk_from": from,
            "replay": format!("./check.sh {} replay {}", property, path),
        }))
        .unwrap(),
    )
    .expect("write replay");
    path
}

thread_local! {
    static LAST_PANIC: std::cell::RefCell<Option<String>> = std::cell::RefCell::new(None);
}

fn quiet_panics() {
    let verbose = std::env::var("VF_PANICS").is_ok();
    std::panic::set_hook(Box::new(move |info| {
        let s = format!("{}", info);
        if verbose {
            eprintln!("[panic] {}", s);
        }
        LAST_PANIC.with(|p| *p.borrow_mut() = Some(s));
    }));
}

fn hash_of(s: &str) -> u64 {
    let mut h = DefaultHasher::new();
    s.hash(&mut h);
    h.finish()
}

/// What is under test keeps every system it has seen alive in a global table, together with its
/// sockets: a process can only run so many cases.
fn in_processes(property: &str, part: &str, tier: Tier, total: u32, per: u32) -> (Stats, Option<Found>) {
    let mut all = Stats::default();
    let file = std::env::temp_dir().join(format!("vf-stats-{}.json", std::process::id()));
    for k in 0..(total + per - 1) / per {
        let out = std::process::Command::new(std::env::current_exe().unwrap())
            .args([property, if tier == Tier::Thorough { "thorough" } else { "quick" }])
            .env("VF_CHUNK", k.to_string())
            .env("VF_PART", part)
            .env("VF_CASES", per.min(total - k * per).to_string())
            .env("VF_STATS", &file)
            .output()
            .expect("chunk");
        let read = std::fs::read_to_string(&file).ok().and_then(|t| serde_json::from_str::<(Stats, Option<Found>)>(&t).ok());
        let _ = std::fs::remove_file(&file);
        let (Some((st, found)), true) = (read, out.status.success()) else {
            print!("{}", String::from_utf8_lossy(&out.stdout));
            eprint!("{}", String::from_utf8_lossy(&out.stderr));
            std::process::exit(if out.status.code() == Some(1) { 1 } else { 3 });
        };
        all.evaluations += st.evaluations;
        all.nontrivial += st.nontrivial;
        all.distinct.extend(st.distinct);
        all.distinct_nontrivial.extend(st.distinct_nontrivial);
        for (l, n) in st.labels {
            *all.labels.entry(l).or_default() += n;
        }
        all.inconclusive += st.inconclusive;
        all.inconclusive_notes.extend(st.inconclusive_notes);
        all.inconclusive_notes.truncate(5);
        all.samples.extend(st.samples);
        all.samples.truncate(3);
        if found.is_some() {
            return (all, found);
        }
    }
    (all, None)
}

fn run_case<P: Part>(p: &P, case: &P::Case) -> CaseResult {
    let _w = watch(p.watchdog(), p.name(), serde_json::to_value(case).unwrap());
    match std::panic::catch_unwind(AssertUnwindSafe(|| p.check(case))) {
        Ok(r) => r,
        Err(_) => {
            let m = LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
            Err(Fail::Safety(format!(
                "the calling side panicked while running the case: {}",
                m
            )))
        }
    }
}

/// Runs a case; a deadline failure has to repeat to be believed.
fn run_confirmed<P: Part>(p: &P, case: &P::Case, inconclusive: &mut Vec<String>) -> CaseResult {
    run_confirmed_n(p, case, p.confirmations(), inconclusive)
}
fn run_confirmed_n<P: Part>(p: &P, case: &P::Case, n: u32, inconclusive: &mut Vec<String>) -> CaseResult {
    match run_case(p, case) {
        Err(Fail::Deadline(m)) => {
            let mut last = m;
            for _ in 0..n {
                match run_case(p, case) {
                    Err(Fail::Deadline(m)) => last = m,
                    Err(Fail::Safety(m)) => return Err(Fail::Safety(m)),
                    Ok(o) => {
                        if std::env::var("VF_MISSES").is_ok() {
                            eprintln!("MISS {last}\n{}", serde_json::to_string(case).unwrap_or_default());
                        }
                        inconclusive.push(last);
                        return Ok(o);
                    }
                }
            }
            Err(Fail::Safety(format!(
                "{} (repeated on {} re-executions)",
                last, n
            )))
        }
        r => r,
    }
}

impl Runner {
    /// args: PROPERTY quick|thorough   or   PROPERTY replay FILE
    pub fn from_args(property: &str) -> Runner {
        quiet_panics();
        let args: Vec<String> = std::env::args().collect();
        let mode = args.get(2).cloned().unwrap_or_else(|| "quick".into());
        let mut replay = None;
        let mut tier = if mode == "thorough" { Tier::Thorough } else { Tier::Quick };
        if mode == "replay" {
            let f = args.get(3).expect("replay FILE");
            let v: Value =
                serde_json::from_str(&std::fs::read_to_string(f).expect("replay file")).expect("json");
            replay = Some((
                v["part"].as_str().unwrap_or("").to_string(),
                v["case"].clone(),
            ));
            tier = Tier::Quick;
        }
        let seed = std::env::var("VERIF_SEED")
            .ok()
            .and_then(|s| s.trim().parse::<u64>().ok())
            .unwrap_or(1);
        start_watchdog(property.to_string(), seed);
        Runner {
            property: property.to_string(),
            tier,
            seed,
            start: Instant::now(),
            replay,
            parts: vec![],
            rules: vec![],
            samples: vec![],
            evaluations: 0,
            distinct_nontrivial: 0,
            found: None,
            replayed: false,
            assumptions: vec![],
            only: std::env::var("VF_PART").ok(),
        }
    }

    pub fn tier(&self) -> Tier {
        self.tier
    }

    pub fn assume(&mut self, s: &str) -> &mut Self {
        self.assumptions.push(s.to_string());
        self
    }

    pub fn part<P: Part>(&mut self, p: P) -> &mut Self {
        if self.found.is_some() {
            return self;
        }
        if let Some(o) = &self.only {
            if o != p.name() {
                return self;
            }
        }
        if let Some((part, case)) = &self.replay {
            if part == p.name() {
                self.replayed = true;
                let case: P::Case = serde_json::from_value(case.clone()).expect("case");
                let mut notes = vec![];
                let n = std::env::var("VF_REPEAT").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
                for _ in 0..n {
                    match run_confirmed(&p, &case, &mut notes) {
                        Ok(o) => println!("replay {}: property held ({:?})", part, o),
                        Err(e) => {
                            println!("replay {}: {}", part, e.msg());
                            self.found = Some(Found {
                                part: part.clone(),
                                case: serde_json::to_value(&case).unwrap(),
                                reason: e.msg().to_string(),
                                shrunk_from: String::new(),
                                shrink_steps: 0,
                            });
                            break;
                        }
                    }
                }
            }
            return self;
        }

        let t0 = Instant::now();
        let mut total = p.cases(self.tier);
        if let Some(f) = std::env::var("VF_CASES").ok().and_then(|s| s.parse().ok()) {
            total = f;
        }
        let chunk: Option<u32> = std::env::var("VF_CHUNK").ok().and_then(|s| s.parse().ok());
        if chunk.is_none() && total > p.per_process() {
            let (st, found) = in_processes(&self.property, p.name(), self.tier, total, p.per_process());
            return self.record(&p, st, found, t0);
        }
        let shards = p.shards().min(total.max(1));
        let stop = AtomicBool::new(false);
        let stats = Mutex::new(Stats::default());
        let found: Mutex<Option<Found>> = Mutex::new(None);
        let tier = self.tier;
        let seed = self.seed;
        let property = self.property.clone();
        std::thread::scope(|s| {
            for shard in 0..shards {
                let (p, stop, stats, found, property) = (&p, &stop, &stats, &found, &property);
                let n = total / shards + if shard < total % shards { 1 } else { 0 };
                s.spawn(move || {
                    let mut bytes = [0u8; 32];
                    bytes[..8].copy_from_slice(&seed.to_le_bytes());
                    bytes[8..16].copy_from_slice(
                        &hash_of(&format!("{}/{}", property, p.name())).to_le_bytes(),
                    );
                    bytes[16..20].copy_from_slice(&shard.to_le_bytes());
                    bytes[20..24].copy_from_slice(&chunk.unwrap_or(0).to_le_bytes());
                    let config = Config {
                        failure_persistence: None,
                        ..Config::default()
                    };
                    let rng = TestRng::from_seed(RngAlgorithm::ChaCha, &bytes);
                    let mut runner = TestRunner::new_with_rng(config, rng);
                    let strategy = p.strategy(tier);
                    for i in 0..n {
                        if stop.load(Ordering::Relaxed) {
                            return;
                        }
                        let mut tree = strategy.new_tree(&mut runner).expect("generator");
                        let case = tree.current();
                        let mut notes = vec![];
                        let res = run_confirmed(p, &case, &mut notes);
                        match res {
                            Ok(out) => {
                                let h = hash_of(&format!("{:?}", case));
                                let mut st = stats.lock().unwrap();
                                st.evaluations += 1;
                                st.distinct.insert(h);
                                if out.nontrivial {
                                    st.nontrivial += 1;
                                    let fresh = st.distinct_nontrivial.insert(h);
                                    if fresh && (shard < 2 && (i % 17 == 5 || n < 20)) && st.samples.len() < 3 {
                                        let v = serde_json::to_value(&case).unwrap();
                                        st.samples.push(v);
                                    }
                                }
                                for l in out.labels {
                                    *st.labels.entry(l.to_string()).or_default() += 1;
                                }
                                st.inconclusive += notes.len() as u64;
                                for n in notes {
                                    if st.inconclusive_notes.len() < 5 {
                                        st.inconclusive_notes.push(n);
                                    }
                                }
                            }
                            Err(e) => {
                                if stop.swap(true, Ordering::SeqCst) {
                                    return;
                                }
                                stats.lock().unwrap().evaluations += 1;
                                let original = format!("{:?}", case);
                                let mut best = case;
                                let mut reason = e.msg().to_string();
                                let (budget, dur) = p.shrink_budget();
                                let t = Instant::now();
                                let mut steps = 0;
                                // while shrinking, deadlines are shorter; the result is confirmed below
                                let first = (best.clone(), reason.clone());
                                SHRINKING.store(true, Ordering::SeqCst);
                                let mut more = tree.simplify();
                                while more && steps < budget && t.elapsed() < dur {
                                    steps += 1;
                                    let cur = tree.current();
                                    match run_confirmed_n(p, &cur, 1, &mut notes) {
                                        Err(e) => {
                                            best = cur;
                                            reason = e.msg().to_string();
                                            more = tree.simplify();
                                        }
                                        Ok(_) => more = tree.complicate(),
                                    }
                                }
                                SHRINKING.store(false, Ordering::SeqCst);
                                if steps > 0 {
                                    match run_confirmed(p, &best, &mut notes) {
                                        Err(e) => reason = e.msg().to_string(),
                                        Ok(_) => (best, reason) = first,
                                    }
                                }
                                *found.lock().unwrap() = Some(Found {
                                    part: p.name().to_string(),
                                    case: serde_json::to_value(&best).unwrap(),
                                    reason,
                                    shrunk_from: original.chars().take(4000).collect(),
                                    shrink_steps: steps,
                                });
                                return;
                            }
                        }
                    }
                });
            }
        });
        let (st, found) = (stats.into_inner().unwrap(), found.into_inner().unwrap());
        if chunk.is_some() {
            let out = serde_json::to_string(&(&st, &found)).unwrap();
            std::fs::write(std::env::var("VF_STATS").expect("VF_STATS"), out).expect("stats");
            std::process::exit(0);
        }
        self.record(&p, st, found, t0)
    }

    fn record<P: Part>(&mut self, p: &P, st: Stats, found: Option<Found>, t0: Instant) -> &mut Self {
        self.evaluations += st.evaluations;
        self.distinct_nontrivial += st.distinct_nontrivial.len() as u64;
        self.rules.push(format!("[{}] {}", p.name(), p.rule()));
        for s in &st.samples {
            self.samples.push(json!({"part": p.name(), "case": s}));
        }
        self.parts.push(json!({
            "part": p.name(),
            "evaluations": st.evaluations,
            "distinct": st.distinct.len(),
            "nontrivial": st.nontrivial,
            "distinct_nontrivial": st.distinct_nontrivial.len(),
            "classes": st.labels,
            "deadline_misses_not_repeated": st.inconclusive,
            "deadline_miss_notes": st.inconclusive_notes,
            "wall_s": t0.elapsed().as_secs_f64(),
        }));
        eprintln!(
            "{}/{}: {} cases, {} distinct non-trivial, {:.1}s {:?}{}",
            self.property,
            p.name(),
            st.evaluations,
            st.distinct_nontrivial.len(),
            t0.elapsed().as_secs_f64(),
            st.labels,
            if st.inconclusive > 0 {
                format!(" [{} unrepeated deadline misses: {:?}]", st.inconclusive, st.inconclusive_notes)
            } else {
                String::new()
            }
        );
        self.found = found;
        self
    }

    pub fn finish(&mut self) -> ! {
        let root = std::env::var("VF_ROOT").unwrap_or_else(|_| "/verif".into());
        let is_replay = self.replay.is_some();
        if is_replay && !self.replayed {
            eprintln!("replay file names no part of {}", self.property);
            std::process::exit(2);
        }
        if !is_replay {
            let _ = std::fs::create_dir_all(format!("{}/evidence", root));
            let ev = json!({
                "property": self.property,
                "tier": if self.tier == Tier::Quick {"quick"} else {"thorough"},
                "seed": self.seed,
                "level": "exploration",
                "coverage": {
                    "evaluations": self.evaluations,
                    "distinct_nontrivial": self.distinct_nontrivial,
                    "rule": self.rules.join(" "),
                    "samples": self.samples,
                    "parts": self.parts,
                },
                "assumptions": self.assumptions,
                "wall_s": self.start.elapsed().as_secs_f64(),
                "violations": if self.found.is_some() {1} else {0},
            });
            std::fs::write(
                format!("{}/evidence/{}.json", root, self.property),
                serde_json::to_string_pretty(&ev).unwrap(),
            )
            .expect("write evidence");
        }
        if let Some(f) = self.found.take() {
            let path = if is_replay {
                std::env::args().nth(3).unwrap()
            } else {
                write_replay(&self.property, &f.part, self.seed, &f.reason, &f.case, f.shrink_steps, &f.shrunk_from)
            };
            println!("{}: {}", f.part, f.reason);
            println!("case: {}", f.case);
            println!("VIOLATION property={} replay={}", self.property, path);
            std::process::exit(1);
        }
        println!(
            "OK property={} cases={} distinct_nontrivial={} wall={:.1}s",
            self.property,
            self.evaluations,
            self.distinct_nontrivial,
            self.start.elapsed().as_secs_f64()
        );
        std::process::exit(0);
    }
}

pub fn block_on_paused<F: Future>(f: F) -> F::Output {
    rt::paused().block_on(f)
}
