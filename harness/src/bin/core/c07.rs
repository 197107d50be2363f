//! C07: worker pools.
use coerce::actor::context::ActorContext;
use coerce::actor::message::{Handler, Message};
use coerce::actor::system::ActorSystem;
use coerce::actor::worker::{IntoWorker, WorkerRefExt};
use coerce::actor::{Actor, ActorRefErr};
use parking_lot::Mutex;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::sync::Arc;
use std::time::Duration;
use tokio::time::Instant;
use vf::rt::{self, perturb, within};
use vf::*;

#[derive(Debug, Clone, Copy, Serialize, Deserialize, PartialEq)]
pub enum End {
    Normal,
    Panic,
    StopWorker,
}
#[derive(Debug, Clone, Copy, Serialize, Deserialize)]
pub struct Task {
    at: u16,
    work: u16,
    other_type: bool,
    end: End,
    /// the dispatching task is abandoned after this long
    abandon: Option<u16>,
}
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Case {
    workers: u8,
    tasks: Vec<Task>,
}

#[derive(Debug, Clone)]
struct Rec {
    task: usize,
    worker: u64,
    begin: u64,
    end: Option<u64>,
}
struct Shared {
    next: Mutex<u64>,
    recs: Mutex<Vec<Rec>>,
    t0: Instant,
}
impl Shared {
    fn now(&self) -> u64 {
        self.t0.elapsed().as_millis() as u64
    }
}
#[derive(Clone)]
struct W {
    me: u64,
    sh: Arc<Shared>,
}
#[async_trait]
impl Actor for W {
    async fn started(&mut self, _: &mut ActorContext) {
        let mut n = self.sh.next.lock();
        *n += 1;
        self.me = *n;
    }
}
impl W {
    async fn run(&mut self, task: usize, work: u64, end: End, ctx: &ActorContext) {
        let i = {
            let mut r = self.sh.recs.lock();
            r.push(Rec { task, worker: self.me, begin: self.sh.now(), end: None });
            r.len() - 1
        };
        if work > 0 {
            tokio::time::sleep(Duration::from_millis(work)).await;
        }
        match end {
            End::Panic => panic!("generated"),
            End::StopWorker => ctx.stop_it(),
            End::Normal => {}
        }
        let now = self.sh.now();
        self.sh.recs.lock()[i].end = Some(now);
    }
}
trait StopIt {
    fn stop_it(&self);
}
impl StopIt for ActorContext {
    fn stop_it(&self) {
        let _ = self.actor_ref::<W>().notify_stop();
    }
}
struct Num(usize, u64, End);
impl Message for Num {
    type Result = u64;
}
struct Text(usize, u64, End);
impl Message for Text {
    type Result = String;
}
#[async_trait]
impl Handler<Num> for W {
    async fn handle(&mut self, m: Num, ctx: &mut ActorContext) -> u64 {
        self.run(m.0, m.1, m.2, ctx).await;
        m.0 as u64 * 7 + 1
    }
}
#[async_trait]
impl Handler<Text> for W {
    async fn handle(&mut self, m: Text, ctx: &mut ActorContext) -> String {
        self.run(m.0, m.1, m.2, ctx).await;
        format!("t{}", m.0)
    }
}

type Outs = Arc<Mutex<BTreeMap<usize, (Result<String, String>, u64)>>>;

async fn dispatch(pool: &mut coerce::actor::worker::WorkerRef<W>, i: usize, t: Task, unit: u64) -> Result<String, ActorRefErr> {
    if t.other_type {
        pool.dispatch(Text(i, t.work as u64 * unit, t.end)).await
    } else {
        pool.dispatch(Num(i, t.work as u64 * unit, t.end)).await.map(|n| format!("n{n}"))
    }
}
fn expected(i: usize, t: Task) -> String {
    if t.other_type { format!("t{i}") } else { format!("n{}", i as u64 * 7 + 1) }
}

/// one arrival per instant: arrivals have their own residue modulo U, work is a multiple of U
const U: u64 = 64;

async fn execute(case: &Case) -> CaseResult {
    let mut sys = ActorSystem::new();
    let sh = Arc::new(Shared { next: Mutex::new(0), recs: Default::default(), t0: Instant::now() });
    let k = case.workers as usize;
    let pool = W { me: 0, sh: sh.clone() }
        .into_worker(k, "w", &mut sys)
        .await
        .map_err(|e| Fail::Safety(format!("pool of {k} not created: {e:?}")))?;
    ensure!(*sh.next.lock() as usize == k, "a pool of {k} started {} workers", *sh.next.lock());
    let t0 = sh.t0;
    let outs: Outs = Default::default();
    let arrive = |i: usize, t: &Task| t.at as u64 * U + 1 + i as u64;
    let mut hs = vec![];
    for (i, t) in case.tasks.iter().enumerate() {
        let (mut pool, t, outs, sh) = (pool.clone(), *t, outs.clone(), sh.clone());
        let at = arrive(i, &t);
        let h = tokio::spawn(async move {
            tokio::time::sleep_until(t0 + Duration::from_millis(at)).await;
            let r = dispatch(&mut pool, i, t, U).await;
            outs.lock().insert(i, (r.map_err(|e| format!("{e:?}")), sh.now()));
        });
        if let Some(a) = t.abandon {
            let ab = h.abort_handle();
            tokio::spawn(async move {
                tokio::time::sleep_until(t0 + Duration::from_millis(at + 1 + a as u64 * U)).await;
                ab.abort();
            });
        }
        hs.push(h);
    }
    for (i, h) in hs.into_iter().enumerate() {
        let _ = within(&format!("dispatch of task {i}"), h).await?;
    }
    // abandoned dispatches leave their task running
    rt::settle(3_000_000).await;
    let recs = sh.recs.lock().clone();
    let outs = outs.lock().clone();
    let n = case.tasks.len();
    let mut of: Vec<Vec<&Rec>> = vec![vec![]; n];
    for r in &recs {
        of[r.task].push(r);
    }
    let mut order: Vec<usize> = (0..n).collect();
    order.sort_by_key(|&i| arrive(i, &case.tasks[i]));
    for i in 0..n {
        ensure!(of[i].len() <= 1, "task {i} was handled {} times", of[i].len());
        if let Some((r, _)) = outs.get(&i) {
            let done = of[i].first().map_or(false, |r| r.end.is_some());
            match r {
                Ok(v) => {
                    ensure!(done, "task {i} reported {v} but was not handled to its end");
                    ensure!(v == &expected(i, case.tasks[i]), "task {i} got the result {v}, its own is {}", expected(i, case.tasks[i]));
                }
                Err(e) => ensure!(!done, "task {i} was handled by its worker but its dispatcher got {e}"),
            }
        } else {
            ensure!(case.tasks[i].abandon.is_some(), "dispatch {i} never returned");
        }
    }
    let mut overlap = 0usize;
    let mut after = 0;
    let death = recs
        .iter()
        .filter(|r| case.tasks[r.task].end != End::Normal)
        .map(|r| r.begin + case.tasks[r.task].work as u64 * U)
        .min();
    if k > 0 {
        // dealt in turn, each worker strictly first come first served; exact for all workers that do not end, until one ends
        let mut free = vec![0u64; k];
        let mut ended = vec![false; k];
        let mut lane: Vec<Option<u64>> = vec![None; k];
        for (pos, &i) in order.iter().enumerate() {
            let at = arrive(i, &case.tasks[i]);
            let l = pos % k;
            let begin = at.max(free[l]);
            let end = begin + case.tasks[i].work as u64 * U;
            free[l] = end;
            ended[l] |= case.tasks[i].end != End::Normal;
            // what happens to the tasks of a worker that ends is looked at above; tasks dealt after that, below
            if ended[l] || death.map_or(false, |d| at >= d) {
                continue;
            }
            ensure!(of[i].len() == 1, "task {i} (number {pos} dispatched) was never handled");
            let r = of[i][0];
            match lane[l] {
                None => {
                    ensure!(!lane.contains(&Some(r.worker)), "the first {k} tasks did not go to {k} different workers");
                    lane[l] = Some(r.worker);
                }
                Some(w) => ensure!(w == r.worker, "task number {pos} went to worker {} instead of worker {w}, whose turn it was", r.worker),
            }
            let re = r.end.unwrap_or(u64::MAX);
            ensure!(
                r.begin >= begin && r.begin <= begin + 2 && re >= end && re <= end + 3,
                "task number {pos} (task {i}) ran at {}..{re} ms, it was due at {begin}..{end} ms: arrived at {at}", r.begin
            );
            if let Some((_, t)) = outs.get(&i) {
                ensure!(*t <= end + 4, "task {i} was finished at {end} ms, its dispatcher heard at {t} ms");
            }
            overlap = overlap.max(recs.iter().filter(|o| o.begin <= r.begin && o.end.map_or(false, |e| e > r.begin)).count());
        }
        // workers that ended no longer take part; the others are still dealt tasks in turn
        let dead: std::collections::BTreeSet<u64> = recs.iter().filter(|r| case.tasks[r.task].end != End::Normal).map(|r| r.worker).collect();
        if !dead.is_empty() && dead.len() < k {
            let over = recs.iter().filter(|r| dead.contains(&r.worker)).map(|r| r.end.unwrap_or(r.begin + case.tasks[r.task].work as u64 * U)).max().unwrap_or(0);
            let mut failed = 0;
            let mut turn: Vec<u64> = vec![];
            for &i in order.iter().filter(|i| arrive(**i, &case.tasks[**i]) > over + 2) {
                match of[i].first() {
                    None => {
                        failed += 1;
                        ensure!(failed <= dead.len(), "{failed} tasks in a row were not handled, only {} of {k} workers had ended", dead.len());
                    }
                    Some(r) => {
                        after += 1;
                        failed = 0;
                        ensure!(!dead.contains(&r.worker), "worker {} handled task {i} after it had ended", r.worker);
                        ensure!(turn.iter().rev().take(k - dead.len() - 1).all(|w| *w != r.worker), "after {} of {k} workers had ended, worker {} got a task before it was its turn: {turn:?}", dead.len(), r.worker);
                        turn.push(r.worker);
                    }
                }
            }
        }
    } else {
        ensure!(recs.is_empty() && outs.values().all(|o| o.0.is_err()), "an empty pool handled a task");
    }
    Ok(CaseOut::new(k >= 2 && overlap >= 2)
        .label(death.is_some(), "worker ended")
        .label(after > 0, "tasks handled after a worker ended")
        .label(n > 3 * k.max(1), "over 3 rounds")
        .label(outs.len() < n, "abandoned dispatch")
        .label(overlap >= 3, "3 or more in parallel"))
}

fn task(deaths: bool) -> impl Strategy<Value = Task> {
    let end = if deaths {
        prop_oneof![12 => Just(End::Normal), 1 => Just(End::Panic), 1 => Just(End::StopWorker)].boxed()
    } else {
        Just(End::Normal).boxed()
    };
    (0u16..20, prop_oneof![Just(0u16), 0u16..30, 0u16..6], any::<bool>(), end, prop::option::weighted(0.1, 0u16..20))
        .prop_map(|(at, work, other_type, end, abandon)| Task { at, work, other_type, end, abandon })
}

struct Pools;
impl Part for Pools {
    type Case = Case;
    fn name(&self) -> &'static str {
        "pools"
    }
    fn rule(&self) -> &'static str {
        "pools of 0-6 (sometimes up to 69) workers, 0-40 (200) tasks dispatched at generated virtual instants with generated handling times, two message types, some abandoned, some ending their worker; compared with a round-robin first-come-first-served model to the millisecond; non-trivial: at least two workers and two tasks in progress at once."
    }
    fn strategy(&self, _: Tier) -> BoxedStrategy<Case> {
        (prop_oneof![14 => 0u8..7, 1 => 7u8..70], prop_oneof![2 => Just(false), 1 => Just(true)])
            .prop_flat_map(|(workers, deaths)| (Just(workers), prop::collection::vec(task(deaths), 0..(if workers < 7 { 40 } else { 200 }))))
            .prop_map(|(workers, tasks)| Case { workers, tasks })
            .boxed()
    }
    fn cases(&self, t: Tier) -> u32 {
        if t == Tier::Quick { 8_000 } else { 200_000 }
    }
    fn check(&self, c: &Case) -> CaseResult {
        block_on_paused(async { within("whole case", execute(c)).await })?
    }
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct TCase {
    workers: u8,
    dispatchers: Vec<Vec<(u8, bool)>>,
}
struct Threads;
impl Part for Threads {
    type Case = TCase;
    fn name(&self) -> &'static str {
        "pools-threads"
    }
    fn rule(&self) -> &'static str {
        "1-6 dispatchers on 3 OS threads share a pool of 1-5 workers; each task handled once, own result returned, loads of the workers differ by at most one; non-trivial: two or more dispatchers and workers."
    }
    fn strategy(&self, _: Tier) -> BoxedStrategy<TCase> {
        (1u8..6, prop::collection::vec(prop::collection::vec((0u8..4, any::<bool>()), 0..20), 1..7))
            .prop_map(|(workers, dispatchers)| TCase { workers, dispatchers })
            .boxed()
    }
    fn cases(&self, t: Tier) -> u32 {
        if t == Tier::Quick { 600 } else { 20_000 }
    }
    fn check(&self, c: &TCase) -> CaseResult {
        let r = rt::threads(3);
        let out = r.block_on(async {
            let mut sys = ActorSystem::new();
            let sh = Arc::new(Shared { next: Mutex::new(0), recs: Default::default(), t0: Instant::now() });
            let pool = W { me: 0, sh: sh.clone() }.into_worker(c.workers as usize, "w", &mut sys).await.unwrap();
            let mut hs = vec![];
            let mut base = 0;
            for d in &c.dispatchers {
                let (mut pool, d, b) = (pool.clone(), d.clone(), base);
                base += d.len();
                hs.push(tokio::spawn(async move {
                    for (j, (p, other_type)) in d.iter().enumerate() {
                        perturb(*p).await;
                        let t = Task { at: 0, work: 0, other_type: *other_type, end: End::Normal, abandon: None };
                        let i = b + j;
                        match dispatch(&mut pool, i, t, 1).await {
                            Ok(v) if v == expected(i, t) => {}
                            o => return Err(Fail::Safety(format!("task {i} got {o:?}, its own result is {}", expected(i, t)))),
                        }
                    }
                    Ok(())
                }));
            }
            for h in hs {
                match tokio::time::timeout(Duration::from_secs(30), h).await {
                    Ok(r) => r.expect("dispatcher")?,
                    Err(_) => return Err(Fail::Deadline("a dispatch did not resolve in 30 s".into())),
                }
            }
            let recs = sh.recs.lock().clone();
            let mut load = vec![0usize; c.workers as usize];
            let mut seen = vec![0; base];
            for r in &recs {
                seen[r.task] += 1;
                load[r.worker as usize - 1] += 1;
            }
            ensure!(seen.iter().all(|s| *s == 1), "tasks handled {seen:?} times");
            ensure!(load.iter().max().unwrap() - load.iter().min().unwrap() <= 1, "{base} tasks were dealt {load:?}");
            Ok(CaseOut::new(c.workers >= 2 && c.dispatchers.iter().filter(|d| !d.is_empty()).count() >= 2))
        });
        r.shutdown_background();
        out
    }
}

pub fn run() {
    Runner::from_args("C07").part(Pools).part(Threads).finish()
}
