//! C01: local mailbox semantics.
use coerce::actor::context::ActorContext;
use coerce::actor::message::{Handler, Message};
use coerce::actor::scheduler::ActorType;
use coerce::actor::system::ActorSystem;
use coerce::actor::{Actor, ActorRef, ActorRefErr, LocalActorRef, PipeTo, Receiver};
use parking_lot::Mutex;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::HashMap;
use std::future::Future;
use std::sync::Arc;
use std::time::Duration;
use vf::rt::{self, perturb, within};
use vf::*;

#[derive(Debug, Clone, Copy, Serialize, Deserialize, PartialEq)]
pub enum Via {
    Send,
    Notify,
    Deliver,
    Exec,
    NotifyExec,
    ReceiverSend,
    ReceiverNotify,
    RefSend,
    RefNotify,
    /// request whose caller goes away after it was put in the mailbox
    Abandon,
    /// request left in flight while the sender goes on
    Overlap,
    Pipe,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Op {
    target: u8,
    via: Via,
    pre: u8,
    work: u8,
    payload: Vec<u8>,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Case {
    actors: u8,
    tracked: bool,
    senders: Vec<Vec<Op>>,
}

fn via() -> impl Strategy<Value = Via> {
    prop_oneof![
        3 => Just(Via::Send),
        3 => Just(Via::Notify),
        2 => Just(Via::Deliver),
        1 => Just(Via::Exec),
        1 => Just(Via::NotifyExec),
        1 => Just(Via::ReceiverSend),
        1 => Just(Via::ReceiverNotify),
        1 => Just(Via::RefSend),
        1 => Just(Via::RefNotify),
        1 => Just(Via::Abandon),
        3 => Just(Via::Overlap),
        1 => Just(Via::Pipe),
    ]
}

fn no_long(mut c: Case) -> Case {
    for o in c.senders.iter_mut().flatten() {
        o.pre %= 8;
        o.work %= 8;
    }
    c
}

fn strategy(max_senders: usize, max_ops: usize) -> BoxedStrategy<Case> {
    let op = (0u8..3, via(), prop_oneof![2 => Just(0u8), 1 => rt::wait()], rt::wait(), prop::collection::vec(any::<u8>(), 0..6))
        .prop_map(|(target, via, pre, work, payload)| Op { target, via, pre, work, payload });
    (
        1u8..=3,
        any::<bool>(),
        prop::collection::vec(prop::collection::vec(op, 0..max_ops), 1..=max_senders),
    )
        .prop_map(|(actors, tracked, senders)| Case { actors, tracked, senders })
        .boxed()
}

#[derive(Debug, Clone, PartialEq)]
enum Ev {
    Begin { actor: u8, sender: usize, seq: usize },
    End { actor: u8, sender: usize, seq: usize, reply: u64 },
}

type Log = Arc<Mutex<Vec<Ev>>>;

struct Subject {
    idx: u8,
    log: Log,
    handled: u64,
    real: bool,
}
impl Actor for Subject {}

struct Work {
    sender: usize,
    seq: usize,
    work: u8,
    payload: Vec<u8>,
}
impl Message for Work {
    type Result = (usize, usize, u64, Vec<u8>);
}

#[async_trait]
impl Handler<Work> for Subject {
    async fn handle(&mut self, m: Work, _ctx: &mut ActorContext) -> (usize, usize, u64, Vec<u8>) {
        self.log.lock().push(Ev::Begin { actor: self.idx, sender: m.sender, seq: m.seq });
        self.handled += 1;
        let reply = self.handled;
        if self.real {
            match m.work {
                w @ 0..=7 => {
                    for _ in 0..w {
                        tokio::task::yield_now().await;
                    }
                }
                w => tokio::time::sleep(Duration::from_millis(w as u64 * 100)).await,
            }
        } else {
            perturb(m.work).await;
        }
        self.log.lock().push(Ev::End { actor: self.idx, sender: m.sender, seq: m.seq, reply });
        (m.sender, m.seq, reply, m.payload)
    }
}

impl Subject {
    fn exec(&mut self, sender: usize, seq: usize) -> (usize, usize, u64, Vec<u8>) {
        self.log.lock().push(Ev::Begin { actor: self.idx, sender, seq });
        self.handled += 1;
        self.log.lock().push(Ev::End { actor: self.idx, sender, seq, reply: self.handled });
        (sender, seq, self.handled, vec![])
    }
}

type Reply = Result<(usize, usize, u64, Vec<u8>), ActorRefErr>;

/// what the sender side saw: (sender, seq) -> reply (None: no reply expected)
type Seen = Arc<Mutex<HashMap<(usize, usize), Option<Reply>>>>;

async fn sender_task(
    s: usize,
    ops: Vec<Op>,
    actors: Vec<LocalActorRef<Subject>>,
    seen: Seen,
    real: bool,
) {
    let mut in_flight = vec![];
    for (seq, op) in ops.into_iter().enumerate() {
        if real {
            for _ in 0..op.pre {
                tokio::task::yield_now().await;
            }
        } else {
            perturb(op.pre).await;
        }
        let a = actors[op.target as usize % actors.len()].clone();
        let msg = Work { sender: s, seq, work: op.work, payload: op.payload.clone() };
        let strip = matches!(op.via, Via::Exec);
        let mut reply: Option<Reply> = None;
        match op.via {
            Via::Send => reply = Some(a.send(msg).await),
            Via::Notify => {
                if let Err(e) = a.notify(msg) {
                    reply = Some(Err(e));
                }
            }
            Via::Deliver => {
                let (tx, rx) = tokio::sync::oneshot::channel();
                match a.deliver(msg, tx) {
                    Ok(()) => in_flight.push((seq, tokio::spawn(async move { rx.await.map_err(|_| ActorRefErr::ResultChannelClosed) }))),
                    Err(e) => reply = Some(Err(e)),
                }
            }
            Via::Exec => reply = Some(a.exec(move |x| x.exec(s, seq)).await),
            Via::NotifyExec => {
                if let Err(e) = a.notify_exec(move |x| {
                    x.exec(s, seq);
                }) {
                    reply = Some(Err(e));
                }
            }
            Via::ReceiverSend => reply = Some(Receiver::<Work>::from(a).send(msg).await),
            Via::ReceiverNotify => {
                if let Err(e) = Receiver::<Work>::from(a).clone().notify(msg) {
                    reply = Some(Err(e));
                }
            }
            Via::RefSend => reply = Some(ActorRef::from(a).send(msg).await),
            Via::RefNotify => {
                if let Err(e) = ActorRef::from(a).notify(msg).await {
                    reply = Some(Err(e));
                }
            }
            Via::Abandon => {
                let mut f = Box::pin(async move { a.send(msg).await });
                // one poll puts the message into the mailbox, then the caller gives up
                futures::future::poll_fn(|cx| {
                    let _ = f.as_mut().poll(cx);
                    std::task::Poll::Ready(())
                })
                .await;
                drop(f);
            }
            Via::Overlap => {
                let mut f = Box::pin(async move { a.send(msg).await });
                let first = futures::future::poll_fn(|cx| {
                    std::task::Poll::Ready(match f.as_mut().poll(cx) {
                        std::task::Poll::Ready(r) => Some(r),
                        std::task::Poll::Pending => None,
                    })
                })
                .await;
                match first {
                    Some(r) => reply = Some(r),
                    None => in_flight.push((seq, tokio::spawn(f))),
                }
            }
            Via::Pipe => {
                let pre = op.pre;
                async move {
                    if real {
                        for _ in 0..pre {
                            tokio::task::yield_now().await;
                        }
                    } else {
                        perturb(pre).await;
                    }
                    msg
                }
                .pipe_to(ActorRef::from(a));
            }
        }
        if strip {
            if let Some(Ok(r)) = &mut reply {
                r.3 = op.payload.clone();
            }
        }
        seen.lock().insert((s, seq), reply);
    }
    for (seq, h) in in_flight {
        let r = h.await.unwrap_or(Err(ActorRefErr::ActorUnavailable));
        seen.lock().insert((s, seq), Some(r));
    }
}

fn judge(case: &Case, log: &[Ev], seen: &HashMap<(usize, usize), Option<Reply>>) -> CaseResult {
    let n = case.actors as usize;
    // serial execution + exactly once
    let mut open: HashMap<u8, (usize, usize)> = HashMap::new();
    let mut count: HashMap<(usize, usize), u32> = HashMap::new();
    let mut replies: HashMap<(usize, usize), u64> = HashMap::new();
    let mut order: HashMap<u8, Vec<(usize, usize)>> = HashMap::new();
    for e in log {
        match e {
            Ev::Begin { actor, sender, seq } => {
                ensure!(
                    open.insert(*actor, (*sender, *seq)).is_none(),
                    "actor {} began handling ({},{}) while another message was being handled",
                    actor, sender, seq
                );
                ensure!(
                    case.senders[*sender][*seq].target as usize % n == *actor as usize,
                    "message ({},{}) reached the wrong actor", sender, seq
                );
                *count.entry((*sender, *seq)).or_default() += 1;
                order.entry(*actor).or_default().push((*sender, *seq));
            }
            Ev::End { actor, sender, seq, reply } => {
                ensure!(open.remove(actor) == Some((*sender, *seq)), "interleaved handlers on actor {}", actor);
                replies.insert((*sender, *seq), *reply);
            }
        }
    }
    ensure!(open.is_empty(), "a handler never completed");
    let mut overlapping = false;
    for (s, ops) in case.senders.iter().enumerate() {
        for (q, op) in ops.iter().enumerate() {
            let c = count.get(&(s, q)).copied().unwrap_or(0);
            ensure!(c == 1, "message ({},{}) via {:?} handled {} times", s, q, op.via, c);
            match seen.get(&(s, q)) {
                None => ensure!(false, "sender {} never got past op {}", s, q),
                Some(None) => {}
                Some(Some(Ok(r))) => {
                    ensure!(r.0 == s && r.1 == q, "request ({},{}) got the reply of ({},{})", s, q, r.0, r.1);
                    ensure!(Some(&r.2) == replies.get(&(s, q)), "request ({},{}) got reply {} but the handler returned {:?}", s, q, r.2, replies.get(&(s, q)));
                    ensure!(r.3 == op.payload, "payload of ({},{}) changed", s, q);
                }
                Some(Some(Err(e))) => ensure!(false, "request ({},{}) via {:?} to a running actor failed: {:?}", s, q, op.via, e),
            }
            overlapping |= matches!(op.via, Via::Overlap | Via::Deliver | Via::Notify);
        }
    }
    // per-sender order at each actor (piped futures are ordered by their own completion)
    for (a, o) in &order {
        let mut last: HashMap<usize, usize> = HashMap::new();
        for (s, q) in o {
            if case.senders[*s][*q].via == Via::Pipe {
                continue;
            }
            if let Some(l) = last.get(s) {
                ensure!(l < q, "actor {} handled message {} of sender {} after message {}", a, q, s, l);
            }
            last.insert(*s, *q);
        }
    }
    let total: usize = case.senders.iter().map(|s| s.len()).sum();
    let multi = case.senders.iter().filter(|s| !s.is_empty()).count() > 1;
    let slow = case.senders.iter().flatten().any(|o| o.work > 0);
    Ok(CaseOut::new(total >= 3 && multi && overlapping)
        .label(multi, "several senders")
        .label(slow, "handler suspends")
        .label(total > 20, "over 20 messages")
        .label(case.senders.iter().flatten().any(|o| o.via == Via::Abandon), "abandoned request"))
}

async fn execute(case: &Case, real: bool) -> Result<(Vec<Ev>, HashMap<(usize, usize), Option<Reply>>), Fail> {
    let sys = ActorSystem::new();
    let log: Log = Default::default();
    let mut actors = vec![];
    for i in 0..case.actors {
        let ty = if case.tracked { ActorType::Tracked } else { ActorType::Anonymous };
        let a = sys
            .new_actor(format!("a{}", i), Subject { idx: i, log: log.clone(), handled: 0, real }, ty)
            .await
            .map_err(|e| Fail::Safety(format!("actor did not start: {:?}", e)))?;
        actors.push(a);
    }
    let seen: Seen = Default::default();
    let mut tasks = vec![];
    for (s, ops) in case.senders.iter().enumerate() {
        tasks.push(tokio::spawn(sender_task(s, ops.clone(), actors.clone(), seen.clone(), real)));
    }
    for t in tasks {
        let _ = t.await;
    }
    let total: usize = case.senders.iter().map(|s| s.len()).sum();
    // give fire-and-forget messages the chance to be handled, and late duplicates the chance to show
    if real {
        for _ in 0..10_000 {
            if log.lock().len() >= total * 2 {
                break;
            }
            tokio::time::sleep(Duration::from_millis(2)).await;
        }
        for a in &actors {
            let _ = a.status().await;
        }
    } else {
        rt::settle(2 * rt::QUIET).await;
    }
    let l = log.lock().clone();
    let s = seen.lock().clone();
    Ok((l, s))
}

pub struct Deterministic;
impl Part for Deterministic {
    type Case = Case;
    fn name(&self) -> &'static str {
        "mailbox"
    }
    fn rule(&self) -> &'static str {
        "1-3 actors, 1-5 concurrent sender tasks, each a generated sequence of send/notify/deliver/exec/receiver/actor-ref/abandoned/overlapping/piped messages with generated suspensions on both sides, on a virtual clock; non-trivial: at least 3 messages from at least 2 senders with at least one that does not wait."
    }
    fn strategy(&self, t: Tier) -> BoxedStrategy<Case> {
        strategy(5, if t == Tier::Quick { 14 } else { 40 })
    }
    fn cases(&self, t: Tier) -> u32 {
        if t == Tier::Quick { 6000 } else { 150_000 }
    }
    fn check(&self, case: &Case) -> CaseResult {
        let (log, seen) = block_on_paused(async { within("senders", execute(case, false)).await })??;
        judge(case, &log, &seen)
    }
}

pub struct Threaded;
impl Part for Threaded {
    type Case = Case;
    fn name(&self) -> &'static str {
        "mailbox-threads"
    }
    fn rule(&self) -> &'static str {
        "the same cases on a 4-thread runtime (real races); same non-triviality rule."
    }
    fn strategy(&self, t: Tier) -> BoxedStrategy<Case> {
        strategy(6, if t == Tier::Quick { 30 } else { 60 }).prop_map(no_long).boxed()
    }
    fn cases(&self, t: Tier) -> u32 {
        if t == Tier::Quick { 800 } else { 20_000 }
    }
    fn shards(&self) -> u32 {
        4
    }
    fn check(&self, case: &Case) -> CaseResult {
        let r = rt::threads(4);
        let out = r.block_on(async {
            tokio::time::timeout(Duration::from_secs(if vf::shrinking() { 8 } else { 30 }), execute(case, true))
                .await
                .map_err(|_| Fail::Deadline("requests to running actors did not resolve".into()))
        });
        r.shutdown_background();
        let (log, seen) = out??;
        judge(case, &log, &seen)
    }
}

/// messages that wait for real time in the mailbox, or in the handler
pub struct Slow;
impl Part for Slow {
    type Case = Case;
    fn name(&self) -> &'static str {
        "mailbox-slow"
    }
    fn rule(&self) -> &'static str {
        "the same cases on a 2-thread runtime with a handler that takes 0.8 to 2.5 s of real time while other messages wait; same non-triviality rule."
    }
    fn strategy(&self, _: Tier) -> BoxedStrategy<Case> {
        (strategy(4, 8), any::<prop::sample::Index>(), 8u8..26)
            .prop_map(|(c, at, w)| {
                let mut c = no_long(c);
                let n: usize = c.senders.iter().map(|s| s.len()).sum();
                if n > 0 {
                    let k = at.index((n + 1) / 2);
                    c.senders.iter_mut().flatten().nth(k).unwrap().work = w;
                }
                c
            })
            .boxed()
    }
    fn cases(&self, t: Tier) -> u32 {
        if t == Tier::Quick { 64 } else { 640 }
    }
    fn shards(&self) -> u32 {
        32
    }
    fn shrink_budget(&self) -> (u32, Duration) {
        (24, Duration::from_secs(60))
    }
    fn check(&self, case: &Case) -> CaseResult {
        let r = rt::threads(2);
        let out = r.block_on(async {
            tokio::time::timeout(Duration::from_secs(if vf::shrinking() { 8 } else { 30 }), execute(case, true))
                .await
                .map_err(|_| Fail::Deadline("requests to running actors did not resolve".into()))
        });
        r.shutdown_background();
        let (log, seen) = out??;
        judge(case, &log, &seen)
    }
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct BCase {
    senders: Vec<Vec<(u8, u8)>>,
}

/// plain threads using the blocking API
pub struct Blocking;
impl Part for Blocking {
    type Case = BCase;
    fn name(&self) -> &'static str {
        "mailbox-blocking"
    }
    fn rule(&self) -> &'static str {
        "1-4 operating-system threads driving one actor through the blocking calls (send, exec, notify); non-trivial: at least two threads with messages."
    }
    fn strategy(&self, _: Tier) -> BoxedStrategy<BCase> {
        prop::collection::vec(prop::collection::vec((0u8..3, 0u8..3), 0..20), 1..5)
            .prop_map(|senders| BCase { senders })
            .boxed()
    }
    fn cases(&self, t: Tier) -> u32 {
        if t == Tier::Quick { 150 } else { 3000 }
    }
    fn shards(&self) -> u32 {
        4
    }
    fn check(&self, case: &BCase) -> CaseResult {
        let r = rt::threads(2);
        let log: Log = Default::default();
        let c = Case {
            actors: 1,
            tracked: true,
            senders: case
                .senders
                .iter()
                .map(|s| {
                    s.iter()
                        .map(|(v, w)| Op {
                            target: 0,
                            via: match v {
                                0 => Via::Send,
                                1 => Via::Notify,
                                _ => Via::Exec,
                            },
                            pre: 0,
                            work: *w,
                            payload: vec![*v, *w],
                        })
                        .collect()
                })
                .collect(),
        };
        let _g = r.enter();
        let sys = ActorSystem::new();
        let actor = sys
            .new_actor_blocking("b0", Subject { idx: 0, log: log.clone(), handled: 0, real: true }, ActorType::Tracked)
            .map_err(|e| Fail::Safety(format!("blocking spawn failed {:?}", e)))?;
        drop(_g);
        let seen: Seen = Default::default();
        std::thread::scope(|sc| {
            for (s, ops) in c.senders.iter().enumerate() {
                let (a, seen) = (actor.clone(), seen.clone());
                sc.spawn(move || {
                    for (seq, op) in ops.iter().enumerate() {
                        let m = Work { sender: s, seq, work: op.work, payload: op.payload.clone() };
                        let r = match op.via {
                            Via::Send => Some(a.send_blocking(m)),
                            Via::Notify => a.notify(m).err().map(Err),
                            _ => Some(a.exec_blocking(move |x| x.exec(s, seq)).map(|mut r| {
                                r.3 = op.payload.clone();
                                r
                            })),
                        };
                        seen.lock().insert((s, seq), r);
                    }
                });
            }
        });
        let st = actor.stop_blocking();
        ensure!(st.is_ok(), "blocking stop of a running actor failed: {:?}", st);
        let (l, s) = (log.lock().clone(), seen.lock().clone());
        r.shutdown_background();
        let mut o = judge(&c, &l, &s)?;
        o.nontrivial = case.senders.iter().filter(|s| !s.is_empty()).count() > 1;
        Ok(o)
    }
}

pub fn run() {
    Runner::from_args("C01")
        .part(Deterministic)
        .part(Threaded)
        .part(Slow)
        .part(Blocking)
        .finish()
}
