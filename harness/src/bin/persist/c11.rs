//! C11: failure policies of persistent actors under generated storage faults.
use crate::store::{Call, Fault, Provider, Store};
use coerce::actor::context::ActorContext;
use coerce::actor::message::{Handler, Message, MessageUnwrapErr, MessageWrapErr};
use coerce::actor::scheduler::ActorType;
use coerce::actor::system::ActorSystem;
use coerce::actor::ActorRefErr;
use coerce::persistent::failure::{PersistFailurePolicy, RecoveryFailurePolicy, Retry};
use coerce::persistent::journal::types::JournalTypes;
use coerce::persistent::journal::{PersistErr, RecoveryErr};
use coerce::persistent::{Persistence, PersistentActor, Recover, RecoverSnapshot};
use coerce_macros::JsonSnapshot;
use parking_lot::Mutex;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::sync::Arc;
use std::time::Duration;
use tokio::time::Instant;
use vf::rt::within;
use vf::*;

#[derive(Debug, Clone, Copy, Serialize, Deserialize, PartialEq)]
pub enum Re {
    Until(Option<u16>),
    Max(u8, Option<u16>),
}
#[derive(Debug, Clone, Copy, Serialize, Deserialize, PartialEq)]
pub enum RPol {
    Retry(Re),
    Stop,
    Panic,
    Default,
}
#[derive(Debug, Clone, Copy, Serialize, Deserialize, PartialEq)]
pub enum PPol {
    Retry(Re),
    ReturnErr,
    Stop,
    Panic,
    Default,
}
#[derive(Debug, Clone, Copy, Serialize, Deserialize, PartialEq)]
pub enum Act {
    Persist,
    Batch(u8),
    Snapshot,
    Unserialisable,
    Plain,
}
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Case {
    /// effects in the journal beforehand
    before: u8,
    snapshot_before: bool,
    corrupt: bool,
    recovery: RPol,
    persist: PPol,
    /// outcome of the storage calls in order, fine after that
    faults: Vec<Fault>,
    acts: Vec<Act>,
    /// all requests at once rather than one after the other
    pipelined: bool,
}

fn retry(r: Re) -> Retry {
    match r {
        Re::Until(d) => Retry::UntilSuccess { delay: d.map(|d| Duration::from_millis(d as u64)) },
        Re::Max(m, d) => Retry::MaxAttempts { max_attempts: m as usize, delay: d.map(|d| Duration::from_millis(d as u64)) },
    }
}

struct Ev(u32, bool);
impl Message for Ev {
    type Result = ();
    fn as_bytes(&self) -> Result<Vec<u8>, MessageWrapErr> {
        if self.1 { Ok(serde_json::to_vec(&self.0).unwrap()) } else { Err(MessageWrapErr::SerializationErr) }
    }
    fn from_bytes(b: Vec<u8>) -> Result<Self, MessageUnwrapErr> {
        serde_json::from_slice(&b).map(|n| Ev(n, true)).map_err(|_| MessageUnwrapErr::DeserializationErr)
    }
}
#[derive(JsonSnapshot, Serialize, Deserialize)]
struct Snap {
    state: Vec<u32>,
}
#[derive(Default)]
struct Seen {
    recovery_errs: usize,
    recovery_failed: usize,
    post_recovery: usize,
    handled: Vec<(u32, bool)>,
}
struct P {
    state: Vec<u32>,
    r: RPol,
    p: PPol,
    seen: Arc<Mutex<Seen>>,
    ready: bool,
}
#[async_trait]
impl PersistentActor for P {
    fn configure(t: &mut JournalTypes<Self>) {
        t.message::<Ev>("ev").snapshot::<Snap>("snap");
    }
    fn recovery_failure_policy(&self) -> RecoveryFailurePolicy {
        match self.r {
            RPol::Retry(r) => RecoveryFailurePolicy::Retry(retry(r)),
            RPol::Stop => RecoveryFailurePolicy::StopActor,
            RPol::Panic => RecoveryFailurePolicy::Panic,
            RPol::Default => Default::default(),
        }
    }
    fn persist_failure_policy(&self) -> PersistFailurePolicy {
        match self.p {
            PPol::Retry(r) => PersistFailurePolicy::Retry(retry(r)),
            PPol::Stop => PersistFailurePolicy::StopActor,
            PPol::ReturnErr => PersistFailurePolicy::ReturnErr,
            PPol::Panic => PersistFailurePolicy::Panic,
            PPol::Default => Default::default(),
        }
    }
    async fn on_recovery_err(&mut self, _: RecoveryErr, _: &mut ActorContext) {
        self.seen.lock().recovery_errs += 1;
    }
    async fn on_recovery_failed(&mut self, _: &mut ActorContext) {
        self.seen.lock().recovery_failed += 1;
    }
    async fn post_recovery(&mut self, _: &mut ActorContext) {
        self.ready = true;
        self.seen.lock().post_recovery += 1;
    }
}
#[async_trait]
impl Recover<Ev> for P {
    async fn recover(&mut self, m: Ev, _: &mut ActorContext) {
        self.state.push(m.0);
    }
}
#[async_trait]
impl RecoverSnapshot<Snap> for P {
    async fn recover(&mut self, s: Snap, _: &mut ActorContext) {
        self.state = s.state;
    }
}
#[derive(Debug, Clone, PartialEq)]
enum Res {
    Ok,
    Storage,
    Serialisation,
    Stopping,
    Other(String),
    /// the caller's request was not answered
    Dead,
}
struct Cmd(Act, u32);
impl Message for Cmd {
    type Result = Res;
}
fn res(r: Result<(), PersistErr>) -> Res {
    match r {
        Ok(()) => Res::Ok,
        Err(PersistErr::Storage(e)) if e.to_string() == "injected" => Res::Storage,
        Err(PersistErr::Serialisation(_)) => Res::Serialisation,
        Err(PersistErr::ActorStopping(e)) if matches!(*e, PersistErr::Storage(_)) => Res::Stopping,
        Err(e) => Res::Other(format!("{e:?}")),
    }
}
fn numbers(i: u32, a: Act) -> Vec<u32> {
    match a {
        Act::Persist => vec![i * 10],
        Act::Batch(n) => (0..n as u32).map(|k| i * 10 + k).collect(),
        _ => vec![],
    }
}
#[async_trait]
impl Handler<Cmd> for P {
    async fn handle(&mut self, c: Cmd, ctx: &mut ActorContext) -> Res {
        self.seen.lock().handled.push((c.1, self.ready));
        let eff = numbers(c.1, c.0);
        let r = match c.0 {
            Act::Persist => res(self.persist(&Ev(c.1 * 10, true), ctx).await),
            Act::Batch(_) => {
                let mut b = self.event_batch(ctx);
                for e in &eff {
                    b.message(Ev(*e, true));
                }
                res(self.persist_batch(b, ctx).await)
            }
            Act::Snapshot => res(self.snapshot(Snap { state: self.state.clone() }, ctx).await),
            Act::Unserialisable => res(self.persist(&Ev(0, false), ctx).await),
            Act::Plain => Res::Ok,
        };
        if r == Res::Ok {
            self.state.extend(eff);
        }
        r
    }
}
struct Get;
impl Message for Get {
    type Result = Vec<u32>;
}
#[async_trait]
impl Handler<Get> for P {
    async fn handle(&mut self, _: Get, _: &mut ActorContext) -> Vec<u32> {
        self.state.clone()
    }
}

// ---------------------------------------------------------------- model
struct Model<'a> {
    faults: std::slice::Iter<'a, Fault>,
    calls: Vec<Call>,
    time: u64,
}
enum Go {
    Done,
    GiveUp,
}
impl<'a> Model<'a> {
    fn call(&mut self, c: Call) -> bool {
        self.calls.push(c);
        match self.faults.next() {
            Some(Fault::Err) => false,
            Some(Fault::Delay(d)) => {
                self.time += *d as u64;
                true
            }
            _ => true,
        }
    }
    /// after failed attempt number `attempt`: try again?
    fn again(&mut self, r: Re, attempt: u32) -> bool {
        let d = match r {
            Re::Until(d) => d,
            Re::Max(m, d) => {
                if attempt >= m as u32 {
                    return false;
                }
                d
            }
        };
        self.time += d.unwrap_or(0) as u64;
        true
    }
    fn attempts(&mut self, r: Option<Re>, mut f: impl FnMut(&mut Self) -> bool) -> (Go, u32) {
        let mut n = 1;
        loop {
            if f(self) {
                return (Go::Done, n);
            }
            match r {
                Some(r) if self.again(r, n) => n += 1,
                _ => return (Go::GiveUp, n),
            }
        }
    }
}

async fn execute(case: &Case) -> CaseResult {
    let store = Store::new(false, false);
    let mk = || ActorSystem::new().to_persistent(Persistence::from(Provider(store.clone())));
    let seen: Arc<Mutex<Seen>> = Default::default();
    let new = |r, p| P { state: vec![], r, p, seen: seen.clone(), ready: false };
    let mut acked: Vec<u32> = vec![];
    {
        let a = mk().new_actor("p", new(RPol::Default, PPol::Default), ActorType::Tracked).await.map_err(|e| Fail::Safety(format!("{e:?}")))?;
        for i in 0..case.before as u32 {
            ensure!(a.send(Cmd(Act::Persist, 1000 + i)).await == Ok(Res::Ok), "persist on a healthy storage");
            acked.push((1000 + i) * 10);
            if case.snapshot_before && i == case.before as u32 / 2 {
                ensure!(a.send(Cmd(Act::Snapshot, 0)).await == Ok(Res::Ok), "snapshot on a healthy storage");
            }
        }
        let _ = a.stop().await;
    }
    *seen.lock() = Seen::default();
    store.calls.lock().clear();
    *store.script.lock() = case.faults.iter().copied().collect();
    *store.corrupt.lock() = case.corrupt;

    // ------------------------------------------------ recovery
    let mut m = Model { faults: case.faults.iter(), calls: vec![], time: 0 };
    let rr = match case.recovery {
        RPol::Retry(r) => Some(r),
        RPol::Default => Some(Re::Until(Some(500))),
        _ => None,
    };
    let (go, n) = m.attempts(rr, |m| m.call(Call::ReadSnapshot) && m.call(Call::ReadMessages));
    let has_messages_after = case.before > 0 && (!case.snapshot_before || case.before as u32 / 2 + 1 < case.before as u32);
    let corrupted = case.corrupt && has_messages_after;
    let (mut errs, mut failed) = (n as usize - 1, 0);
    let comes_up = match go {
        Go::Done if corrupted => {
            errs += 1;
            false
        }
        Go::Done => true,
        Go::GiveUp => {
            errs += 1;
            if case.recovery != RPol::Panic {
                failed = 1;
            }
            false
        }
    };
    let t0 = Instant::now();
    let started = within("start of the actor", mk().new_actor("p", new(case.recovery, case.persist), ActorType::Tracked)).await?;
    let took = t0.elapsed().as_millis() as u64;
    let calls: Vec<Call> = store.calls.lock().iter().map(|c| c.0).collect();
    ensure!(calls == m.calls, "recovery made the storage calls {calls:?}, the policy calls for {:?}", m.calls);
    ensure!(took >= m.time && took <= m.time + 20 + 2 * m.calls.len() as u64, "recovery took {took} ms, the policy's delays make {} ms", m.time);
    {
        let s = seen.lock();
        ensure!(s.recovery_errs == errs, "{} recovery errors were reported to the actor, {errs} occurred", s.recovery_errs);
        ensure!(s.recovery_failed == failed, "on_recovery_failed was called {} times, expected {failed}", s.recovery_failed);
        ensure!(s.post_recovery == comes_up as usize, "post_recovery was called {} times, expected {}", s.post_recovery, comes_up as usize);
    }
    let retried = n > 1;
    let a = match started {
        Err(e) => {
            ensure!(!comes_up, "the recovery should have succeeded, the start failed with {e:?}");
            ensure!(e == ActorRefErr::ActorStartFailed, "failed recovery surfaced as {e:?}");
            ensure!(seen.lock().handled.is_empty(), "handled a message without having recovered");
            None
        }
        Ok(a) => {
            ensure!(comes_up, "the actor started although its recovery did not succeed");
            Some(a)
        }
    };
    let mut stopped_in = false;
    let mut persist_retries = false;
    if let Some(a) = a {
        let got = within("query", a.send(Get)).await?;
        ensure!(got.as_ref() == Ok(&acked), "recovered {got:?}, journaled {acked:?}");
        // ------------------------------------------------ requests
        let pr = match case.persist {
            PPol::Retry(r) => Some(r),
            PPol::Default => Some(Re::Until(Some(500))),
            _ => None,
        };
        m.calls.clear();
        m.time = 0;
        let mut want = vec![];
        let mut up = true;
        for (i, act) in case.acts.iter().enumerate() {
            if !up {
                want.push(Res::Dead);
                continue;
            }
            let call = match act {
                Act::Persist => Some(Call::Write),
                Act::Batch(0) => None,
                Act::Batch(_) => Some(Call::WriteBatch),
                Act::Snapshot => Some(Call::WriteSnapshot),
                _ => None,
            };
            let r = match (act, call) {
                (Act::Unserialisable, _) => Res::Serialisation,
                (_, None) => Res::Ok,
                (_, Some(c)) => {
                    let (go, n) = m.attempts(pr, |m| m.call(c));
                    persist_retries |= n > 1;
                    match go {
                        Go::Done => Res::Ok,
                        Go::GiveUp => match case.persist {
                            PPol::ReturnErr => Res::Storage,
                            PPol::Stop => {
                                up = false;
                                Res::Stopping
                            }
                            PPol::Panic => {
                                up = false;
                                Res::Dead
                            }
                            _ => {
                                up = false;
                                Res::Storage
                            }
                        },
                    }
                }
            };
            if r == Res::Ok {
                acked.extend(numbers(i as u32, *act));
            }
            want.push(r);
        }
        stopped_in = !up;
        store.calls.lock().clear();
        let t0 = Instant::now();
        let mut got = vec![];
        if case.pipelined {
            let hs: Vec<_> = case
                .acts
                .iter()
                .enumerate()
                .map(|(i, act)| {
                    let (tx, rx) = tokio::sync::oneshot::channel();
                    let _ = a.deliver(Cmd(*act, i as u32), tx);
                    rx
                })
                .collect();
            for h in hs {
                got.push(within("a request", h).await?.unwrap_or(Res::Dead));
            }
        } else {
            for (i, act) in case.acts.iter().enumerate() {
                got.push(within("a request", a.send(Cmd(*act, i as u32))).await?.unwrap_or(Res::Dead));
            }
        }
        let took = t0.elapsed().as_millis() as u64;
        ensure!(got == want, "the callers got {got:?}, the policies call for {want:?}");
        let calls: Vec<Call> = store.calls.lock().iter().map(|c| c.0).collect();
        ensure!(calls == m.calls, "the requests made the storage calls {calls:?}, the policy calls for {:?}", m.calls);
        ensure!(took >= m.time && took <= m.time + 20 + 2 * m.calls.len() as u64, "the requests took {took} ms, the policy's delays make {} ms", m.time);
        if !up {
            let r = within("a request after the end", a.send(Get)).await?;
            ensure!(r.is_err(), "the policy stops the actor, it still answers {r:?}");
        } else {
            let r = within("query", a.send(Get)).await?;
            ensure!(r.as_ref() == Ok(&acked), "state {r:?}, acknowledged {acked:?}");
        }
        ensure!(seen.lock().handled.iter().all(|h| h.1), "a message was handled before recovery completed");
    }
    // ---------------------------------------------------- afterwards, on a healthy storage
    store.script.lock().clear();
    *store.corrupt.lock() = false;
    let a = within("restart", mk().new_actor("p", new(RPol::Stop, PPol::ReturnErr), ActorType::Tracked)).await?.map_err(|e| Fail::Safety(format!("restart: {e:?}")))?;
    let got = within("query", a.send(Get)).await?;
    ensure!(got.as_ref() == Ok(&acked), "recovered {got:?} in the end, acknowledged {acked:?}");
    let failing = case.faults.iter().filter(|f| **f == Fault::Err).count();
    Ok(CaseOut::new(failing > 0 && (retried || persist_retries || stopped_in || !comes_up || case.persist == PPol::ReturnErr))
        .label(retried, "recovery retried")
        .label(persist_retries, "persist retried")
        .label(!comes_up, "recovery failed")
        .label(stopped_in, "persist failure ended the actor"))
}

fn re() -> impl Strategy<Value = Re> {
    let d = || prop::option::of(1u16..2000);
    prop_oneof![d().prop_map(Re::Until), (0u8..5, d()).prop_map(|(m, d)| Re::Max(m, d))]
}
struct Policies;
impl Part for Policies {
    type Case = Case;
    fn name(&self) -> &'static str {
        "policies"
    }
    fn rule(&self) -> &'static str {
        "one persistent actor with generated recovery and persist policies, a journal of 0-4 effects, 0-14 scripted storage outcomes (fine, failing, slow, undecodable), 0-8 requests one by one or all at once; results, number and kind of storage calls, virtual time, hooks, and the state recovered afterwards compared with a model; non-trivial: a failure met a policy decision."
    }
    fn strategy(&self, _: Tier) -> BoxedStrategy<Case> {
        let fault = prop_oneof![3 => Just(Fault::None), 4 => Just(Fault::Err), 1 => (0u8..200).prop_map(Fault::Delay)];
        let act = prop_oneof![4 => Just(Act::Persist), 2 => (0u8..4).prop_map(Act::Batch), 2 => Just(Act::Snapshot), 1 => Just(Act::Unserialisable), 1 => Just(Act::Plain)];
        let rpol = prop_oneof![4 => re().prop_map(RPol::Retry), 1 => Just(RPol::Stop), 1 => Just(RPol::Panic), 1 => Just(RPol::Default)];
        let ppol = prop_oneof![4 => re().prop_map(PPol::Retry), 2 => Just(PPol::ReturnErr), 1 => Just(PPol::Stop), 1 => Just(PPol::Panic), 1 => Just(PPol::Default)];
        // leading successes let the recovery through so that the requests meet the faults
        (0u8..5, any::<bool>(), prop::bool::weighted(0.07), rpol, ppol, any::<bool>(), prop::collection::vec(fault, 0..14), prop::collection::vec(act, 0..8), any::<bool>())
            .prop_map(|(before, snapshot_before, corrupt, recovery, persist, through, mut faults, acts, pipelined)| {
                if through {
                    faults.insert(0, Fault::None);
                    faults.insert(0, Fault::None);
                }
                Case { before, snapshot_before, corrupt, recovery, persist, faults, acts, pipelined }
            })
            .boxed()
    }
    fn cases(&self, t: Tier) -> u32 {
        if t == Tier::Quick { 12_000 } else { 250_000 }
    }
    fn check(&self, c: &Case) -> CaseResult {
        block_on_paused(async { within("whole case", execute(c)).await })?
    }
}
pub fn run() {
    Runner::from_args("C11").part(Policies).finish()
}
