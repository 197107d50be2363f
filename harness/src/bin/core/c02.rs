//! C02: lifecycle and stop semantics.
use coerce::actor::context::{ActorContext, ActorStatus};
use coerce::actor::lifecycle::Stop;
use coerce::actor::message::{Handler, Message};
use coerce::actor::scheduler::ActorType;
use coerce::actor::system::ActorSystem;
use coerce::actor::{Actor, ActorRefErr, BoxedActorRef, CoreActorRef, IntoActor, LocalActorRef};
use parking_lot::Mutex;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::HashMap;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Arc;
use std::time::Duration;
use vf::rt::{self, perturb, within};
use vf::*;

#[derive(Debug, Clone, Copy, Serialize, Deserialize, PartialEq)]
pub enum StartMode {
    Fine,
    StopsItself,
    Panics,
}

#[derive(Debug, Clone, Copy, Serialize, Deserialize, PartialEq)]
pub enum Spawn {
    Tracked,
    Anonymous,
    Deferred,
    DeferredTracked,
    IntoActor,
    IntoAnon,
    Supervised,
}

#[derive(Debug, Clone, Copy, Serialize, Deserialize, PartialEq)]
pub enum What {
    Plain,
    StopsItself,
    Panics,
}

#[derive(Debug, Clone, Copy, Serialize, Deserialize, PartialEq)]
pub enum Op {
    Send(What, u8),
    Overlap(What, u8),
    Notify(What, u8),
    Status,
    StopWait,
    StopOverlap,
    BoxedStop,
    NotifyStop,
    RawStop,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Case {
    spawn: Spawn,
    start: StartMode,
    start_work: u8,
    stop_work: u8,
    senders: Vec<Vec<(u8, Op)>>,
}

#[derive(Debug, Clone, PartialEq)]
enum Ev {
    StartedBegin,
    StartedEnd,
    Begin(u64),
    End(u64),
    StoppedBegin,
    StoppedEnd,
    /// put into the mailbox (or the attempt to)
    Post(u64),
    /// resolved on the caller's side
    Resolved(u64, Res),
}

#[derive(Debug, Clone, PartialEq)]
enum Res {
    Reply(u64),
    Status(ActorStatus),
    Stopped,
    Accepted,
    Err(ActorRefErr),
}

type Log = Arc<Mutex<Vec<Ev>>>;

struct Subject {
    log: Log,
    start: StartMode,
    start_work: u8,
    stop_work: u8,
}

#[async_trait]
impl Actor for Subject {
    async fn started(&mut self, ctx: &mut ActorContext) {
        self.log.lock().push(Ev::StartedBegin);
        perturb(self.start_work).await;
        match self.start {
            StartMode::Fine => {}
            StartMode::StopsItself => ctx.stop(None),
            StartMode::Panics => panic!("generated: started"),
        }
        self.log.lock().push(Ev::StartedEnd);
    }
    async fn stopped(&mut self, _: &mut ActorContext) {
        self.log.lock().push(Ev::StoppedBegin);
        perturb(self.stop_work).await;
        self.log.lock().push(Ev::StoppedEnd);
    }
}

struct Work(u64, What, u8);
impl Message for Work {
    type Result = u64;
}
#[async_trait]
impl Handler<Work> for Subject {
    async fn handle(&mut self, m: Work, ctx: &mut ActorContext) -> u64 {
        self.log.lock().push(Ev::Begin(m.0));
        perturb(m.2).await;
        match m.1 {
            What::Plain => {}
            What::StopsItself => ctx.stop(None),
            What::Panics => panic!("generated: handler"),
        }
        self.log.lock().push(Ev::End(m.0));
        m.0 * 7 + 1
    }
}

struct Parent;
impl Actor for Parent {}

fn op() -> impl Strategy<Value = Op> {
    let what = || prop_oneof![12 => Just(What::Plain), 1 => Just(What::StopsItself), 1 => Just(What::Panics)];
    let work = || rt::wait();
    prop_oneof![
        6 => (what(), work()).prop_map(|(a, b)| Op::Send(a, b)),
        6 => (what(), work()).prop_map(|(a, b)| Op::Overlap(a, b)),
        5 => (what(), work()).prop_map(|(a, b)| Op::Notify(a, b)),
        1 => Just(Op::Status),
        1 => Just(Op::StopWait),
        1 => Just(Op::StopOverlap),
        1 => Just(Op::BoxedStop),
        1 => Just(Op::NotifyStop),
        1 => Just(Op::RawStop),
    ]
}

fn strategy(max: usize) -> BoxedStrategy<Case> {
    (
        prop_oneof![
            Just(Spawn::Tracked),
            Just(Spawn::Anonymous),
            Just(Spawn::Deferred),
            Just(Spawn::DeferredTracked),
            Just(Spawn::IntoActor),
            Just(Spawn::IntoAnon),
            Just(Spawn::Supervised)
        ],
        prop_oneof![8 => Just(StartMode::Fine), 1 => Just(StartMode::StopsItself), 1 => Just(StartMode::Panics)],
        rt::wait(),
        rt::wait(),
        prop::collection::vec(prop::collection::vec((rt::wait(), op()), 0..max), 1..4),
    )
        .prop_map(|(spawn, start, start_work, stop_work, senders)| Case { spawn, start, start_work, stop_work, senders })
        .boxed()
}

async fn drive(a: LocalActorRef<Subject>, ops: Vec<(u8, Op)>, log: Log, ids: Arc<AtomicU64>, kinds: Arc<Mutex<HashMap<u64, Op>>>) {
    let mut flying = vec![];
    for (pre, op) in ops {
        perturb(pre).await;
        let id = ids.fetch_add(1, Ordering::SeqCst);
        kinds.lock().insert(id, op);
        // no suspension point between this entry and the hand-over to the mailbox
        log.lock().push(Ev::Post(id));
        match op {
            Op::Send(w, k) => {
                let r = a.send(Work(id, w, k)).await;
                log.lock().push(Ev::Resolved(id, r.map_or_else(Res::Err, Res::Reply)));
            }
            Op::Overlap(w, k) => {
                let (tx, rx) = tokio::sync::oneshot::channel();
                let r = a.deliver(Work(id, w, k), tx);
                let log = log.clone();
                match r {
                    Err(e) => log.lock().push(Ev::Resolved(id, Res::Err(e))),
                    Ok(()) => flying.push(tokio::spawn(async move {
                        let r = rx.await;
                        log.lock().push(Ev::Resolved(id, r.map_or(Res::Err(ActorRefErr::ResultChannelClosed), Res::Reply)));
                    })),
                }
            }
            Op::Notify(w, k) => {
                let r = a.notify(Work(id, w, k));
                log.lock().push(Ev::Resolved(id, r.map_or_else(Res::Err, |_| Res::Accepted)));
            }
            Op::Status => {
                let r = a.status().await;
                log.lock().push(Ev::Resolved(id, r.map_or_else(Res::Err, Res::Status)));
            }
            Op::StopWait => {
                let r = a.stop().await;
                log.lock().push(Ev::Resolved(id, r.map_or_else(Res::Err, |_| Res::Stopped)));
            }
            Op::BoxedStop => {
                let b: BoxedActorRef = a.clone().into();
                let r = CoreActorRef::stop(&b).await;
                log.lock().push(Ev::Resolved(id, r.map_or_else(Res::Err, |_| Res::Stopped)));
            }
            Op::NotifyStop => {
                let r = a.notify_stop();
                log.lock().push(Ev::Resolved(id, r.map_or_else(Res::Err, |_| Res::Accepted)));
            }
            Op::RawStop | Op::StopOverlap => {
                let (tx, rx) = tokio::sync::oneshot::channel();
                let r = a.notify(Stop(Some(tx)));
                let log = log.clone();
                match r {
                    Err(e) => log.lock().push(Ev::Resolved(id, Res::Err(e))),
                    Ok(()) => flying.push(tokio::spawn(async move {
                        let r = rx.await;
                        log.lock().push(Ev::Resolved(id, r.map_or(Res::Err(ActorRefErr::InvalidRef), |_| Res::Stopped)));
                    })),
                }
            }
        }
    }
    for f in flying {
        let _ = f.await;
    }
}

fn is_err(r: &Res) -> bool {
    matches!(r, Res::Err(_))
}

async fn execute(case: &Case) -> CaseResult {
    let log: Log = Default::default();
    let sys = ActorSystem::new();
    let subject = Subject { log: log.clone(), start: case.start, start_work: case.start_work, stop_work: case.stop_work };
    let parent = Parent.into_anon_actor(Some("p"), &sys).await.map_err(|e| Fail::Safety(format!("{e:?}")))?;
    let r = match case.spawn {
        Spawn::Tracked => sys.new_actor("x", subject, ActorType::Tracked).await,
        Spawn::Anonymous => sys.new_actor("x", subject, ActorType::Anonymous).await,
        Spawn::Deferred => Ok(sys.new_actor_deferred("x", subject, ActorType::Anonymous).await),
        Spawn::DeferredTracked => Ok(sys.new_actor_deferred("x", subject, ActorType::Tracked).await),
        Spawn::IntoActor => subject.into_actor(Some("x"), &sys).await,
        Spawn::IntoAnon => subject.into_anon_actor(Some("x"), &sys).await,
        Spawn::Supervised => sys.new_supervised_actor("x", subject, parent.clone().into()).await,
    };
    let deferred = matches!(case.spawn, Spawn::Deferred | Spawn::DeferredTracked);
    let a = match r {
        Ok(a) => {
            ensure!(deferred || case.start == StartMode::Fine, "spawn of an actor that {:?} in its started hook reported success", case.start);
            ensure!(deferred || log.lock().contains(&Ev::StartedEnd), "spawn returned before the started hook was done");
            a
        }
        Err(e) => {
            ensure!(case.start != StartMode::Fine, "spawn failed although the actor started: {:?}", e);
            ensure!(e == ActorRefErr::ActorStartFailed, "spawn failed with {:?}", e);
            rt::settle(rt::QUIET).await;
            let l = log.lock().clone();
            let stops = l.iter().filter(|e| **e == Ev::StoppedEnd).count();
            ensure!(stops == if case.start == StartMode::StopsItself { 1 } else { 0 }, "stopped hook ran {} times after a failed start", stops);
            return Ok(CaseOut::new(true).label(true, "failed start"));
        }
    };
    let ids = Arc::new(AtomicU64::new(0));
    let kinds: Arc<Mutex<HashMap<u64, Op>>> = Default::default();
    let mut tasks = vec![];
    for ops in &case.senders {
        tasks.push(tokio::spawn(drive(a.clone(), ops.clone(), log.clone(), ids.clone(), kinds.clone())));
    }
    for t in tasks {
        let _ = t.await;
    }
    rt::settle(rt::QUIET).await;
    // epilogue: is the actor still there?
    let l = log.lock().clone();
    let kinds = kinds.lock().clone();

    // ---- the reference model: a queue, cut at the first thing that ends the actor
    let mailbox: Vec<u64> = l.iter().filter_map(|e| if let Ev::Post(i) = e { Some(*i) } else { None }).collect();
    let ends = |op: &Op| match op {
        Op::Send(w, _) | Op::Overlap(w, _) | Op::Notify(w, _) => *w != What::Plain,
        Op::Status => false,
        _ => true,
    };
    let dead_on_arrival = case.start != StartMode::Fine;
    let cut = if dead_on_arrival { None } else { mailbox.iter().position(|i| ends(&kinds[i])) };
    let live = if dead_on_arrival { &mailbox[..0] } else { &mailbox[..cut.map_or(mailbox.len(), |c| c + 1)] };
    let rest = &mailbox[live.len()..];
    let pos = |e: &Ev| l.iter().position(|x| x == e);
    let nth = |e: &Ev| l.iter().filter(|x| *x == e).count();
    let resolved: HashMap<u64, (usize, Res)> =
        l.iter().enumerate().filter_map(|(n, e)| if let Ev::Resolved(i, r) = e { Some((*i, (n, r.clone()))) } else { None }).collect();

    ensure!(nth(&Ev::StartedBegin) == 1, "started hook ran {} times", nth(&Ev::StartedBegin));
    let handled: Vec<u64> = l.iter().filter_map(|e| if let Ev::Begin(i) = e { Some(*i) } else { None }).collect();
    let expect: Vec<u64> = live
        .iter()
        .copied()
        .filter(|i| matches!(kinds[i], Op::Send(..) | Op::Overlap(..) | Op::Notify(..)))
        .collect();
    ensure!(handled == expect, "handled {:?}, but the mailbox before the end of the actor held {:?} (mailbox {:?})", handled, expect, mailbox);
    if let Some(first) = l.iter().position(|e| matches!(e, Ev::Begin(_))) {
        ensure!(pos(&Ev::StartedEnd).map_or(false, |s| s < first), "a message was handled before the started hook was done");
    }
    let panicked = cut.map_or(false, |c| matches!(kinds[&mailbox[c]], Op::Send(What::Panics, _) | Op::Overlap(What::Panics, _) | Op::Notify(What::Panics, _)))
        || case.start == StartMode::Panics;
    let ended = cut.is_some() || dead_on_arrival;
    let orderly = ended && !panicked;
    ensure!(
        nth(&Ev::StoppedBegin) == orderly as usize && nth(&Ev::StoppedEnd) == orderly as usize,
        "stopped hook ran {} times (ended: {}, panicked: {})", nth(&Ev::StoppedBegin), ended, panicked
    );
    if orderly {
        let sb = pos(&Ev::StoppedBegin).unwrap();
        ensure!(!l[sb..].iter().any(|e| matches!(e, Ev::Begin(_) | Ev::End(_) | Ev::StartedEnd)), "activity after the stopped hook began");
    }
    for i in live {
        let (at, r) = match resolved.get(i) {
            Some(x) => x,
            None => return Err(Fail::Safety(format!("operation {} ({:?}) never resolved", i, kinds[i]))),
        };
        match kinds[i] {
            Op::Send(What::Panics, _) | Op::Overlap(What::Panics, _) => ensure!(is_err(r), "request whose handler panicked resolved with {:?}", r),
            Op::Send(..) | Op::Overlap(..) => {
                ensure!(*r == Res::Reply(i * 7 + 1), "request {} resolved with {:?}", i, r);
                ensure!(pos(&Ev::End(*i)).map_or(false, |e| e < *at), "request {} resolved before it was handled", i);
            }
            Op::Notify(..) | Op::NotifyStop => ensure!(*r == Res::Accepted, "notification to a live actor: {:?}", r),
            Op::Status => ensure!(*r == Res::Status(ActorStatus::Started), "status of a running actor: {:?}", r),
            Op::StopWait | Op::BoxedStop | Op::RawStop | Op::StopOverlap => {
                ensure!(*r == Res::Stopped, "the stop request that stopped the actor resolved with {:?}", r);
                ensure!(pos(&Ev::StoppedEnd).map_or(false, |e| e < *at), "stop resolved before the stopped hook was done");
            }
        }
    }
    for i in rest {
        let (_, r) = match resolved.get(i) {
            Some(x) => x,
            None => return Err(Fail::Safety(format!("late operation {} ({:?}) never resolved", i, kinds[i]))),
        };
        match kinds[i] {
            Op::Notify(..) | Op::NotifyStop => ensure!(*r == Res::Accepted || is_err(r), "late notification: {:?}", r),
            // a second stop may also be told that the actor is stopped; anything else must fail
            Op::StopWait | Op::BoxedStop | Op::RawStop | Op::StopOverlap => {
                ensure!(is_err(r) || (*r == Res::Stopped && orderly), "late stop: {:?}", r)
            }
            _ => ensure!(is_err(r), "late request {:?} to an ended actor resolved with {:?}", kinds[i], r),
        }
    }
    // after the end every use of the reference fails; otherwise everything still works
    let after = within("request after the end", a.send(Work(999_999, What::Plain, 0))).await?;
    if ended {
        ensure!(after.is_err(), "request to an ended actor: {:?}", after);
        ensure!(!a.is_valid(), "reference of an ended actor still claims to be valid");
        ensure!(a.notify(Work(999_998, What::Plain, 0)).is_err(), "notification to an ended actor was accepted");
        let s = within("stop after the end", a.stop()).await?;
        ensure!(s.is_err(), "stop of an ended actor: {:?}", s);
        let s = within("status after the end", a.status()).await?;
        ensure!(s.is_err(), "status of an ended actor: {:?}", s);
    } else {
        ensure!(after == Ok(999_999 * 7 + 1), "request to a running actor: {:?}", after);
        ensure!(a.is_valid(), "reference of a running actor claims to be invalid");
        let s = within("final stop", a.stop()).await?;
        ensure!(s == Ok(()), "stop of a running actor: {:?}", s);
        let n = log.lock().iter().filter(|e| **e == Ev::StoppedEnd).count();
        ensure!(n == 1, "stopped hook ran {} times", n);
    }
    Ok(CaseOut::new(ended && live.len() >= 2 && !rest.is_empty())
        .label(panicked, "panic")
        .label(orderly, "orderly end")
        .label(!rest.is_empty(), "operations after the end")
        .label(dead_on_arrival, "deferred spawn of failing actor"))
}

struct Det;
impl Part for Det {
    type Case = Case;
    fn name(&self) -> &'static str {
        "lifecycle"
    }
    fn rule(&self) -> &'static str {
        "one actor spawned in one of 7 ways, started/stopped hooks and handlers that suspend, stop the actor or panic, 1-3 concurrent senders of requests, notifications, status and stop calls on a virtual clock; the mailbox order is recorded and cut at the first ending operation as reference model; non-trivial: the actor ended with at least 2 operations before and 1 after the end."
    }
    fn strategy(&self, t: Tier) -> BoxedStrategy<Case> {
        strategy(if t == Tier::Quick { 12 } else { 30 })
    }
    fn cases(&self, t: Tier) -> u32 {
        if t == Tier::Quick { 24_000 } else { 300_000 }
    }
    fn check(&self, c: &Case) -> CaseResult {
        block_on_paused(async { within("whole case", execute(c)).await })?
    }
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct RaceCase {
    senders: Vec<Vec<(u8, Op)>>,
    tracked: bool,
    stop_work: u8,
}
/// real threads: everything resolves, nothing is answered twice or handled after the stop
struct Race;
impl Part for Race {
    type Case = RaceCase;
    fn name(&self) -> &'static str {
        "lifecycle-threads"
    }
    fn rule(&self) -> &'static str {
        "concurrent requests and stops on a 4-thread runtime; every operation resolves, answered = handled, stopped hook once; non-trivial: some operations answered and some refused."
    }
    fn strategy(&self, _: Tier) -> BoxedStrategy<RaceCase> {
        (prop::collection::vec(prop::collection::vec((0u8..4, op()), 0..25), 2..6), any::<bool>(), 0u8..4)
            .prop_map(|(senders, tracked, stop_work)| RaceCase { senders, tracked, stop_work })
            .boxed()
    }
    fn cases(&self, t: Tier) -> u32 {
        if t == Tier::Quick { 1200 } else { 20_000 }
    }
    fn shards(&self) -> u32 {
        4
    }
    fn check(&self, c: &RaceCase) -> CaseResult {
        let r = rt::threads(4);
        let res = r.block_on(async {
            let log: Log = Default::default();
            let sys = ActorSystem::new();
            let a = sys
                .new_actor("x", Subject { log: log.clone(), start: StartMode::Fine, start_work: 0, stop_work: c.stop_work.min(3) }, if c.tracked { ActorType::Tracked } else { ActorType::Anonymous })
                .await
                .map_err(|e| Fail::Safety(format!("spawn: {e:?}")))?;
            let ids = Arc::new(AtomicU64::new(0));
            let kinds: Arc<Mutex<HashMap<u64, Op>>> = Default::default();
            let tasks: Vec<_> = c
                .senders
                .iter()
                .map(|o| {
                    let o = o
                        .iter()
                        .map(|(p, op)| {
                            (
                                *p % 4,
                                match op {
                                    Op::Send(w, k) => Op::Send(*w, k % 4),
                                    Op::Overlap(w, k) => Op::Overlap(*w, k % 4),
                                    Op::Notify(w, k) => Op::Notify(*w, k % 4),
                                    o => *o,
                                },
                            )
                        })
                        .collect();
                    tokio::spawn(drive(a.clone(), o, log.clone(), ids.clone(), kinds.clone()))
                })
                .collect();
            for t in tasks {
                if tokio::time::timeout(Duration::from_secs(30), t).await.is_err() {
                    return Err(Fail::Deadline("an operation on an actor stayed unresolved for 30 s".into()));
                }
            }
            if tokio::time::timeout(Duration::from_secs(30), a.stop()).await.is_err() {
                return Err(Fail::Deadline("final stop unresolved for 30 s".into()));
            }
            let l = log.lock().clone();
            let kinds = kinds.lock().clone();
            let mut answered = 0;
            let mut refused = 0;
            for (id, k) in &kinds {
                let handled = l.iter().filter(|e| **e == Ev::Begin(*id)).count();
                ensure!(handled <= 1, "message {} handled {} times", id, handled);
                let res: Vec<&Res> = l.iter().filter_map(|e| if let Ev::Resolved(i, r) = e { (i == id).then_some(r) } else { None }).collect();
                ensure!(res.len() == 1, "operation {} ({:?}) resolved {} times", id, k, res.len());
                match k {
                    Op::Send(w, _) | Op::Overlap(w, _) => {
                        if *w == What::Panics {
                            ensure!(is_err(res[0]), "panicking handler answered");
                        } else {
                            ensure!(is_err(res[0]) == (handled == 0), "request {} handled {} times but resolved with {:?}", id, handled, res[0]);
                        }
                        if is_err(res[0]) { refused += 1 } else { answered += 1 }
                    }
                    _ => {}
                }
            }
            let panicked = kinds.iter().any(|(id, k)| matches!(k, Op::Send(What::Panics, _) | Op::Overlap(What::Panics, _) | Op::Notify(What::Panics, _)) && l.contains(&Ev::Begin(*id)));
            let n = l.iter().filter(|e| **e == Ev::StoppedEnd).count();
            ensure!(n == !panicked as usize, "stopped hook ran {} times (panicked: {})", n, panicked);
            if let Some(sb) = l.iter().position(|e| *e == Ev::StoppedBegin) {
                ensure!(!l[sb..].iter().any(|e| matches!(e, Ev::Begin(_) | Ev::End(_))), "activity after the stopped hook began");
            }
            Ok(CaseOut::new(answered > 0 && refused > 0).label(panicked, "panic"))
        });
        r.shutdown_background();
        res
    }
}


// ------------------------------------------------------------------ the very moment an actor ends
#[derive(Debug, Clone, Copy, Serialize, Deserialize, PartialEq)]
pub enum Ending {
    Stop,
    NotifyStop,
    SelfStop,
    Panic,
}
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct EndCase {
    ending: Ending,
    senders: u8,
    spin: u8,
    stoppers: u8,
    rounds: u16,
}
struct Ender;
impl Actor for Ender {}
struct Poke(bool, bool);
impl Message for Poke {
    type Result = u32;
}
#[async_trait]
impl Handler<Poke> for Ender {
    async fn handle(&mut self, m: Poke, ctx: &mut ActorContext) -> u32 {
        if m.0 {
            ctx.stop(None);
        }
        if m.1 {
            panic!("generated");
        }
        7
    }
}
struct EndRace;
impl Part for EndRace {
    type Case = EndCase;
    fn name(&self) -> &'static str {
        "end-race"
    }
    fn rule(&self) -> &'static str {
        "1-4 tasks on 4 OS threads send requests without pause to an actor that is stopped, stops itself or panics; every request has to resolve (each case repeats the race on many actors); non-trivial: at least one sender was refused."
    }
    fn strategy(&self, _: Tier) -> BoxedStrategy<EndCase> {
        (prop_oneof![Just(Ending::Stop), Just(Ending::NotifyStop), Just(Ending::SelfStop), Just(Ending::Panic)], 1u8..5, 0u8..30, 0u8..3)
            .prop_map(|(ending, senders, spin, stoppers)| EndCase { ending, senders, spin, stoppers, rounds: 2500 })
            .boxed()
    }
    fn cases(&self, t: Tier) -> u32 {
        if t == Tier::Quick { 120 } else { 5000 }
    }
    fn shards(&self) -> u32 {
        4
    }
    fn confirmations(&self) -> u32 {
        1
    }
    fn shrink_budget(&self) -> (u32, Duration) {
        (3, Duration::from_secs(30))
    }
    fn check(&self, c: &EndCase) -> CaseResult {
        let r = rt::threads(4);
        let c = c.clone();
        let out = r.block_on(async move {
            let sys = ActorSystem::new();
            let mut waiting = vec![];
            for round in 0..c.rounds {
                let a = sys.new_actor(format!("e{round}"), Ender, ActorType::Anonymous).await.map_err(|e| Fail::Safety(format!("{e:?}")))?;
                let mut ts = vec![];
                for _ in 0..c.senders {
                    let a = a.clone();
                    ts.push(tokio::spawn(async move {
                        // ends at the first request that is refused
                        while a.send(Poke(false, false)).await.is_ok() {}
                    }));
                }
                for _ in 0..c.stoppers {
                    let a = a.clone();
                    ts.push(tokio::spawn(async move {
                        let _ = a.stop().await;
                    }));
                }
                for _ in 0..c.spin {
                    tokio::task::yield_now().await;
                }
                match c.ending {
                    Ending::Stop => {
                        let a = a.clone();
                        ts.push(tokio::spawn(async move {
                            let _ = a.stop().await;
                        }));
                    }
                    Ending::NotifyStop => {
                        let _ = a.notify_stop();
                    }
                    Ending::SelfStop => {
                        let _ = a.notify(Poke(true, false));
                    }
                    Ending::Panic => {
                        let _ = a.notify(Poke(false, true));
                    }
                }
                // the reference lives on, as references do
                waiting.push((a, ts));
                if waiting.len() > 3 {
                    let (_a, ts) = waiting.remove(0);
                    for t in ts {
                        if tokio::time::timeout(Duration::from_secs(25), t).await.is_err() {
                            return Err(Fail::Deadline("a request to an actor that has ended stayed unresolved for 25 s".into()));
                        }
                    }
                }
            }
            for (_a, ts) in waiting {
                for t in ts {
                    if tokio::time::timeout(Duration::from_secs(25), t).await.is_err() {
                        return Err(Fail::Deadline("a request to an actor that has ended stayed unresolved for 25 s".into()));
                    }
                }
            }
            Ok(CaseOut::new(true))
        });
        r.shutdown_background();
        out
    }
}

pub fn run() {
    Runner::from_args("C02").part(Det).part(Race).part(EndRace).finish()
}
