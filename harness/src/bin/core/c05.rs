//! C05: watching.
use coerce::actor::context::ActorContext;
use coerce::actor::message::{Handler, Message};
use coerce::actor::scheduler::ActorType;
use coerce::actor::system::ActorSystem;
use coerce::actor::watch::{ActorTerminated, ActorWatch};
use coerce::actor::{Actor, ActorRefErr, LocalActorRef, ToActorId};
use parking_lot::Mutex;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;
use vf::rt::{self, perturb, within};
use vf::*;

#[derive(Debug, Clone, Copy, Serialize, Deserialize, PartialEq)]
pub enum By {
    StopWait,
    NotifyStop,
    SelfStop,
    Panic,
    PanicInStopped,
    /// the parent of a nested subject is stopped
    Parent,
    /// the subjects' system is shut down (only with watchers of another system)
    Shutdown,
}
#[derive(Debug, Clone, Copy, Serialize, Deserialize, PartialEq)]
pub enum Op {
    Watch(u8, u8),
    Unwatch(u8, u8),
    EndSubject(u8, By),
    EndWatcher(u8),
    Busy(u8, u8),
    BusyWatcher(u8, u8),
}
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Case {
    watchers: u8,
    /// watchers live under different parents but share one id
    same_ids: bool,
    /// watchers live in another actor system of the same process
    other_system: bool,
    /// subjects are children of actors of their own
    nested: bool,
    subjects: u8,
    ops: Vec<(u8, Op)>,
}

/// watcher -> list of (subject id named, reference of the notice valid type)
type Notices = Arc<Mutex<Vec<(usize, String)>>>;

struct Watcher {
    n: usize,
    notices: Notices,
}
impl Actor for Watcher {}
#[async_trait]
impl Handler<ActorTerminated> for Watcher {
    async fn handle(&mut self, m: ActorTerminated, _: &mut ActorContext) {
        let id = m.actor_ref().actor_id().to_string();
        let id = if m.actor_ref().as_actor::<Subject>().is_some() { id } else { format!("wrong type: {id}") };
        self.notices.lock().push((self.n, id));
    }
}
struct DoWatch(LocalActorRef<Subject>, bool);
impl Message for DoWatch {
    type Result = ();
}
#[async_trait]
impl Handler<DoWatch> for Watcher {
    async fn handle(&mut self, m: DoWatch, ctx: &mut ActorContext) {
        if m.1 {
            self.watch(&m.0, ctx);
        } else {
            self.unwatch(&m.0, ctx);
        }
    }
}
struct Work(u8);
impl Message for Work {
    type Result = ();
}
#[async_trait]
impl Handler<Work> for Watcher {
    async fn handle(&mut self, m: Work, _: &mut ActorContext) {
        perturb(m.0).await;
    }
}

struct Holder;
impl Actor for Holder {}
struct SpawnIn(Watcher, String);
impl Message for SpawnIn {
    type Result = Result<LocalActorRef<Watcher>, ActorRefErr>;
}
#[async_trait]
impl Handler<SpawnIn> for Holder {
    async fn handle(&mut self, m: SpawnIn, ctx: &mut ActorContext) -> Result<LocalActorRef<Watcher>, ActorRefErr> {
        ctx.spawn(m.1.to_actor_id(), m.0).await
    }
}

struct SHolder;
impl Actor for SHolder {}
struct SpawnSubject(Subject, String);
impl Message for SpawnSubject {
    type Result = Result<LocalActorRef<Subject>, ActorRefErr>;
}
#[async_trait]
impl Handler<SpawnSubject> for SHolder {
    async fn handle(&mut self, m: SpawnSubject, ctx: &mut ActorContext) -> Result<LocalActorRef<Subject>, ActorRefErr> {
        ctx.spawn(m.1.to_actor_id(), m.0).await
    }
}

struct Subject {
    stop_work: u8,
    panic_in_stopped: bool,
}
#[async_trait]
impl Actor for Subject {
    async fn stopped(&mut self, _: &mut ActorContext) {
        perturb(self.stop_work).await;
        if self.panic_in_stopped {
            panic!("generated: stopped");
        }
    }
}
#[async_trait]
impl Handler<Work> for Subject {
    async fn handle(&mut self, m: Work, _: &mut ActorContext) {
        perturb(m.0).await;
    }
}
struct EndNow(By);
impl Message for EndNow {
    type Result = ();
}
#[async_trait]
impl Handler<EndNow> for Subject {
    async fn handle(&mut self, m: EndNow, ctx: &mut ActorContext) {
        match m.0 {
            By::Panic => panic!("generated: handler"),
            By::PanicInStopped => self.panic_in_stopped = true,
            _ => {}
        }
        ctx.stop(None);
    }
}

fn op() -> impl Strategy<Value = Op> {
    let by = prop_oneof![Just(By::StopWait), Just(By::NotifyStop), Just(By::SelfStop), Just(By::Panic), Just(By::PanicInStopped), Just(By::Parent), Just(By::Shutdown)];
    prop_oneof![
        8 => (any::<u8>(), any::<u8>()).prop_map(|(a, b)| Op::Watch(a, b)),
        3 => (any::<u8>(), any::<u8>()).prop_map(|(a, b)| Op::Unwatch(a, b)),
        2 => (any::<u8>(), by).prop_map(|(a, b)| Op::EndSubject(a, b)),
        1 => any::<u8>().prop_map(Op::EndWatcher),
        2 => (any::<u8>(), rt::wait()).prop_map(|(a, b)| Op::Busy(a, b)),
        1 => (any::<u8>(), rt::wait()).prop_map(|(a, b)| Op::BusyWatcher(a, b)),
    ]
}

async fn execute(case: &Case) -> CaseResult {
    let sys = ActorSystem::new();
    let wsys = if case.other_system { ActorSystem::new() } else { sys.clone() };
    let notices: Notices = Default::default();
    let mut ws = vec![];
    for n in 0..case.watchers as usize {
        let h = wsys.new_actor(format!("holder-{n}"), Holder, ActorType::Tracked).await.map_err(|e| Fail::Safety(format!("{e:?}")))?;
        let id = if case.same_ids { "watcher".to_string() } else { format!("watcher-{n}") };
        let w = h.send(SpawnIn(Watcher { n, notices: notices.clone() }, id)).await.unwrap().map_err(|e| Fail::Safety(format!("{e:?}")))?;
        ws.push(w);
    }
    let mut ss = vec![];
    let mut holders = vec![];
    let mut shut = false;
    for n in 0..case.subjects as usize {
        let ty = if n % 2 == 0 { ActorType::Tracked } else { ActorType::Anonymous };
        let subject = Subject { stop_work: (n as u8 * 3) % 7, panic_in_stopped: false };
        if case.nested {
            let h = sys.new_actor(format!("above-{n}"), SHolder, ActorType::Tracked).await.map_err(|e| Fail::Safety(format!("{e:?}")))?;
            ss.push(h.send(SpawnSubject(subject, format!("subject-{n}"))).await.unwrap().map_err(|e| Fail::Safety(format!("{e:?}")))?);
            holders.push(h);
        } else {
            ss.push(sys.new_actor(format!("subject-{n}"), subject, ty).await.map_err(|e| Fail::Safety(format!("{e:?}")))?);
        }
    }
    // model
    let mut set: Vec<BTreeSet<usize>> = vec![BTreeSet::new(); ss.len()];
    let mut ended: Vec<Option<BTreeSet<usize>>> = vec![None; ss.len()];
    let mut dead_watchers: BTreeSet<usize> = BTreeSet::new();
    let mut unwatched = false;
    let mut panicked = false;
    for (pre, op) in &case.ops {
        perturb(*pre).await;
        match op {
            Op::Watch(w, s) | Op::Unwatch(w, s) => {
                let (w, s) = (*w as usize % ws.len(), *s as usize % ss.len());
                if dead_watchers.contains(&w) {
                    continue;
                }
                let on = matches!(op, Op::Watch(..));
                let r = within("watch", ws[w].send(DoWatch(ss[s].clone(), on))).await?;
                ensure!(r.is_ok(), "watcher {w} does not answer: {r:?}");
                if on {
                    set[s].insert(w);
                } else {
                    unwatched |= set[s].remove(&w);
                }
            }
            Op::EndSubject(s, by) => {
                let s = *s as usize % ss.len();
                if ended[s].is_some() {
                    continue;
                }
                if *by == By::Shutdown && case.other_system {
                    // stops the tracked actors and their descendants
                    for s in 0..ss.len() {
                        if ended[s].is_none() && (case.nested || s % 2 == 0) {
                            ended[s] = Some(set[s].clone());
                        }
                    }
                    within("shutdown", sys.shutdown()).await?;
                    shut = true;
                    continue;
                }
                ended[s] = Some(set[s].clone());
                match by {
                    By::Parent if case.nested => {
                        let _ = holders[s].notify_stop();
                        rt::settle(rt::QUIET).await;
                    }
                    By::Parent | By::Shutdown => {
                        let _ = ss[s].notify_stop();
                    }
                    By::StopWait => {
                        let _ = within("stop", ss[s].stop()).await?;
                    }
                    By::NotifyStop => {
                        let _ = ss[s].notify_stop();
                    }
                    by => {
                        panicked |= matches!(by, By::Panic | By::PanicInStopped);
                        let _ = ss[s].notify(EndNow(*by));
                    }
                }
            }
            Op::EndWatcher(w) => {
                let w = *w as usize % ws.len();
                let _ = within("stop watcher", ws[w].stop()).await?;
                dead_watchers.insert(w);
            }
            Op::Busy(s, k) => {
                let _ = ss[*s as usize % ss.len()].notify(Work(*k));
            }
            Op::BusyWatcher(w, k) => {
                let _ = ws[*w as usize % ws.len()].notify(Work(*k));
            }
        }
    }
    rt::settle(rt::QUIET).await;
    let mut got: BTreeMap<(usize, String), usize> = BTreeMap::new();
    for n in notices.lock().iter() {
        *got.entry(n.clone()).or_default() += 1;
    }
    let mut expected = 0;
    let mut multi = false;
    for (s, e) in ended.iter().enumerate() {
        let id = format!("subject-{s}");
        multi |= e.as_ref().map_or(false, |e| e.len() > 1);
        for w in 0..ws.len() {
            let n = got.remove(&(w, id.clone())).unwrap_or(0);
            let due = e.as_ref().map_or(false, |e| e.contains(&w));
            if due && !dead_watchers.contains(&w) {
                expected += 1;
                ensure!(n == 1, "watcher {w} was watching {id} when it ended and got {n} notices");
            } else if due {
                ensure!(n <= 1, "watcher {w} got {n} notices for {id}");
            } else {
                ensure!(n == 0, "watcher {w} got {n} notices for {id}, which it was not watching or which has not ended");
            }
        }
    }
    ensure!(got.is_empty(), "unexpected notices: {got:?}");
    Ok(CaseOut::new(expected > 0 && case.ops.len() > 3)
        .label(multi, "several watchers of one subject")
        .label(shut, "system shut down")
        .label(case.nested, "subjects are children")
        .label(unwatched, "effective unwatch")
        .label(panicked, "subject panicked")
        .label(case.same_ids && case.watchers > 1, "watchers sharing an id"))
}

struct Det;
impl Part for Det {
    type Case = Case;
    fn name(&self) -> &'static str {
        "watching"
    }
    fn rule(&self) -> &'static str {
        "1-4 (sometimes up to 40) watchers (optionally with equal ids under different parents, optionally in another system), 1-3 subjects (optionally children), generated watch/unwatch/end/busy histories with ends by stop, notification, self-stop panic (in a handler or in the stopped hook), end of the parent and system shutdown, on a virtual clock; the watcher set at the end is the model; non-trivial: at least one notice due and more than 3 operations."
    }
    fn strategy(&self, t: Tier) -> BoxedStrategy<Case> {
        let max = if t == Tier::Quick { 20 } else { 50 };
        (prop_oneof![20 => 1u8..5, 1 => 5u8..40], any::<bool>(), any::<bool>(), any::<bool>(), 1u8..4, prop::collection::vec((prop_oneof![2 => Just(0u8), 1 => rt::wait()], op()), 1..max))
            .prop_map(|(watchers, same_ids, other_system, nested, subjects, ops)| Case { watchers, same_ids, other_system, nested, subjects, ops })
            .boxed()
    }
    fn cases(&self, t: Tier) -> u32 {
        if t == Tier::Quick { 16_000 } else { 200_000 }
    }
    fn check(&self, c: &Case) -> CaseResult {
        block_on_paused(async { within("whole case", execute(c)).await })?
    }
}

pub fn run() {
    Runner::from_args("C05").part(Det).finish()
}
