//! C03: the registry of tracked actors.
use coerce::actor::context::ActorContext;
use coerce::actor::message::{Handler, Message};
use coerce::actor::scheduler::{ActorCount, ActorType};
use coerce::actor::system::ActorSystem;
use coerce::actor::{Actor, IntoActor, LocalActorRef, ToActorId};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::HashMap;
use std::time::Duration;
use vf::rt::{self, perturb, within};
use vf::*;

#[derive(Debug, Clone, Copy, Serialize, Deserialize, PartialEq)]
pub enum Start {
    Fine,
    StopsItself,
    Panics,
}

#[derive(Debug, Clone, Copy, Serialize, Deserialize, PartialEq)]
pub enum How {
    Tracked,
    Deferred,
    IntoActor,
    Anonymous,
    AnonDeferred,
}

#[derive(Debug, Clone, Copy, Serialize, Deserialize, PartialEq)]
pub enum EndBy {
    StopWait,
    NotifyStop,
    SelfStop,
    Panic,
}

#[derive(Debug, Clone, Copy, Serialize, Deserialize, PartialEq)]
pub enum Op {
    Spawn { id: u8, ty: bool, how: How, start: Start, start_work: u8, stop_work: u8, children: u8 },
    End { slot: u8, by: EndBy },
    Settle,
}

struct Sub<const N: usize> {
    inc: u32,
    start: Start,
    start_work: u8,
    stop_work: u8,
    children: u8,
}

#[async_trait]
impl<const N: usize> Actor for Sub<N> {
    async fn started(&mut self, ctx: &mut ActorContext) {
        perturb(self.start_work).await;
        for c in 0..self.children {
            // named like tracked actors elsewhere, without being tracked themselves
            let _ = ctx.spawn_deferred(format!("id-{c}").to_actor_id(), Sub::<N> { inc: 9999, start: Start::Fine, start_work: c, stop_work: self.stop_work, children: 0 });
        }
        match self.start {
            Start::Fine => {}
            Start::StopsItself => ctx.stop(None),
            Start::Panics => panic!("generated: started"),
        }
    }
    async fn stopped(&mut self, _: &mut ActorContext) {
        perturb(self.stop_work).await;
    }
}
struct Who;
impl Message for Who {
    type Result = u32;
}
#[async_trait]
impl<const N: usize> Handler<Who> for Sub<N> {
    async fn handle(&mut self, _: Who, _: &mut ActorContext) -> u32 {
        self.inc
    }
}
struct EndNow(bool);
impl Message for EndNow {
    type Result = ();
}
#[async_trait]
impl<const N: usize> Handler<EndNow> for Sub<N> {
    async fn handle(&mut self, m: EndNow, ctx: &mut ActorContext) {
        if m.0 {
            panic!("generated: handler");
        }
        ctx.stop(None);
    }
}

enum AnyRef {
    A(LocalActorRef<Sub<0>>),
    B(LocalActorRef<Sub<1>>),
}

#[derive(Debug, Clone, Copy, PartialEq)]
enum State {
    /// deferred spawn whose start has not completed for sure yet
    Unsure,
    Live,
    Ending,
    Ended,
}

struct Inc {
    id: u8,
    ty: bool,
    tracked: bool,
    state: State,
    /// the state an unsettled incarnation settles to
    final_state: State,
    r: Option<AnyRef>,
}

async fn spawn<const N: usize>(sys: &ActorSystem, id: u8, how: How, s: Sub<N>) -> Option<LocalActorRef<Sub<N>>> {
    let id = format!("id-{}", id);
    match how {
        How::Tracked => sys.new_actor(id, s, ActorType::Tracked).await.ok(),
        How::Deferred => Some(sys.new_actor_deferred(id, s, ActorType::Tracked).await),
        How::IntoActor => s.into_actor(Some(id), sys).await.ok(),
        How::Anonymous => sys.new_actor(id, s, ActorType::Anonymous).await.ok(),
        How::AnonDeferred => Some(sys.new_actor_deferred(id, s, ActorType::Anonymous).await),
    }
}

async fn end<const N: usize>(r: &LocalActorRef<Sub<N>>, by: EndBy) -> Result<(), Fail> {
    match by {
        EndBy::StopWait => {
            let _ = within("stop", r.stop()).await?;
        }
        EndBy::NotifyStop => {
            let _ = r.notify_stop();
        }
        EndBy::SelfStop => {
            let _ = r.notify(EndNow(false));
        }
        EndBy::Panic => {
            let _ = r.notify(EndNow(true));
        }
    }
    Ok(())
}

async fn look<const N: usize>(sys: &ActorSystem, id: u8) -> Result<Option<Option<u32>>, Fail> {
    let r = within("lookup", sys.get_tracked_actor::<Sub<N>>(format!("id-{}", id).to_actor_id())).await?;
    Ok(match r {
        None => None,
        Some(r) => {
            ensure!(r.actor_id().as_ref() == format!("id-{}", id), "lookup of id-{} gave an actor called {}", id, r.actor_id());
            Some(within("who", r.send(Who)).await?.ok())
        }
    })
}

/// Compares every id and both types with the model.
async fn compare(sys: &ActorSystem, incs: &[Inc], ids: u8, when: &str) -> Result<(), Fail> {
    // count first: the lookups take time during which things may settle
    let count = within("count", sys.scheduler().send(ActorCount)).await?.unwrap_or(usize::MAX);
    let mut lo = 0;
    let mut hi = 0;
    for id in 0..ids {
        let all: Vec<(usize, &Inc)> = incs.iter().enumerate().filter(|(_, i)| i.id == id && i.tracked).collect();
        match all.last() {
            None => {}
            Some((_, i)) => match i.state {
                State::Live => {
                    lo += 1;
                    hi += 1;
                }
                State::Unsure | State::Ending => hi += 1,
                // an older incarnation is allowed, but not required, to be found again
                State::Ended => hi += all.iter().any(|(_, i)| i.state != State::Ended) as usize,
            },
        }
    }
    ensure!(count >= lo && count <= hi, "{}: {} tracked actors reported, expected {}..={}", when, count, lo, hi);
    for id in 0..ids {
        for ty in [false, true] {
            let got = if ty { look::<1>(sys, id).await? } else { look::<0>(sys, id).await? };
            let all: Vec<(usize, &Inc)> = incs.iter().enumerate().filter(|(_, i)| i.id == id && i.tracked).collect();
            let latest = all.last();
            match latest {
                None => ensure!(got.is_none(), "{}: id-{} found although no tracked actor has it", when, id),
                Some((n, i)) => match i.state {
                    State::Live if i.ty == ty => {
                        ensure!(got == Some(Some(*n as u32)), "{}: lookup of id-{} gave {:?}, but incarnation {} is running", when, id, got, n)
                    }
                    State::Live => ensure!(got.is_none(), "{}: lookup of id-{} with the wrong type gave {:?}", when, id, got),
                    // on its way out, or never properly up: itself, an older live one, or nothing
                    State::Ending | State::Unsure => {
                        if let Some(g) = got {
                            let ok = g.map_or(all.iter().any(|(_, o)| o.ty == ty && matches!(o.state, State::Ending | State::Unsure)), |g| all.iter().any(|(m, o)| *m as u32 == g && o.ty == ty && o.state != State::Ended));
                            ensure!(ok, "{}: lookup of id-{} gave {:?}, latest is {}", when, id, g, n);
                        }
                    }
                    State::Ended => {
                        if let Some(g) = got {
                            let ok = g.map_or(all.iter().any(|(_, o)| o.ty == ty && matches!(o.state, State::Ending | State::Unsure)), |g| all.iter().any(|(m, o)| *m as u32 == g && o.ty == ty && o.state != State::Ended));
                            ensure!(ok, "{}: lookup of id-{} gave {:?} although its latest actor {} has ended", when, id, g, n);
                        }
                    }
                },
            }
        }
    }
    Ok(())
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Case {
    ids: u8,
    ops: Vec<(u8, Op, bool)>,
}

fn op(ids: u8) -> impl Strategy<Value = Op> {
    let how = prop_oneof![4 => Just(How::Tracked), 2 => Just(How::Deferred), 2 => Just(How::IntoActor), 1 => Just(How::Anonymous), 1 => Just(How::AnonDeferred)];
    let start = prop_oneof![8 => Just(Start::Fine), 1 => Just(Start::StopsItself), 1 => Just(Start::Panics)];
    let by = prop_oneof![1 => Just(EndBy::StopWait), 2 => Just(EndBy::NotifyStop), 1 => Just(EndBy::SelfStop), 1 => Just(EndBy::Panic)];
    prop_oneof![
        4 => (0..ids, any::<bool>(), how, start, rt::wait(), rt::wait(), prop_oneof![3 => Just(0u8), 1 => 1u8..4]).prop_map(|(id, ty, how, start, start_work, stop_work, children)| Op::Spawn { id, ty, how, start, start_work, stop_work, children }),
        4 => (any::<u8>(), by).prop_map(|(slot, by)| Op::End { slot, by }),
        1 => Just(Op::Settle),
    ]
}

async fn execute(case: &Case) -> CaseResult {
    let sys = ActorSystem::new();
    let mut incs: Vec<Inc> = vec![];
    let mut replaced = false;
    let mut ends = 0;
    for (pre, op, check) in &case.ops {
        perturb(*pre).await;
        match op {
            Op::Spawn { id, ty, how, start, start_work, stop_work, children } => {
                let inc = incs.len() as u32;
                let (start, start_work, stop_work, children) = (*start, *start_work, *stop_work, *children);
                let r = if *ty {
                    within("spawn", spawn::<1>(&sys, *id, *how, Sub { inc, start, start_work, stop_work, children })).await?.map(AnyRef::B)
                } else {
                    within("spawn", spawn::<0>(&sys, *id, *how, Sub { inc, start, start_work, stop_work, children })).await?.map(AnyRef::A)
                };
                let deferred = matches!(how, How::Deferred | How::AnonDeferred);
                let tracked = !matches!(how, How::Anonymous | How::AnonDeferred);
                ensure!(deferred || r.is_some() == (start == Start::Fine), "spawn result of an actor whose start is {:?}: {}", start, r.is_some());
                replaced |= tracked && incs.iter().any(|i| i.id == *id && i.tracked && i.state != State::Ended);
                let (state, final_state) = match (start, deferred) {
                    // the id is taken from the moment the spawn call returns
                    (Start::Fine, _) => (State::Live, State::Live),
                    (_, true) => (State::Unsure, State::Ended),
                    // a failed start may still be in the middle of its stopped hook
                    (_, false) => (State::Ending, State::Ended),
                };
                incs.push(Inc { id: *id, ty: *ty, tracked, state, final_state, r });
            }
            Op::End { slot, by } => {
                if incs.is_empty() {
                    continue;
                }
                let n = *slot as usize % incs.len();
                if let Some(r) = &incs[n].r {
                    if incs[n].state == State::Live {
                        ends += 1;
                    }
                    match r {
                        AnyRef::A(r) => end(r, *by).await?,
                        AnyRef::B(r) => end(r, *by).await?,
                    }
                    let i = &mut incs[n];
                    i.final_state = State::Ended;
                    i.state = if *by == EndBy::StopWait && i.state == State::Live { State::Ended } else if i.state == State::Live { State::Ending } else { i.state };
                }
            }
            Op::Settle => {
                rt::settle(rt::QUIET).await;
                for i in incs.iter_mut() {
                    i.state = i.final_state;
                }
            }
        }
        if *check {
            compare(&sys, &incs, case.ids, &format!("after {:?}", op)).await?;
        }
    }
    rt::settle(rt::QUIET).await;
    for i in incs.iter_mut() {
        i.state = i.final_state;
    }
    compare(&sys, &incs, case.ids, "at the end").await?;
    Ok(CaseOut::new(ends >= 1 && incs.len() >= 3)
        .label(replaced, "id taken over while its old actor was alive or stopping")
        .label(incs.iter().any(|i| i.state == State::Live), "live at the end")
        .label(ends > 0, "ended"))
}

struct Det;
impl Part for Det {
    type Case = Case;
    fn name(&self) -> &'static str {
        "registry"
    }
    fn rule(&self) -> &'static str {
        "generated histories of spawns (5 ways, 2 types, fine/self-stopping/panicking starts) over 2-4 (sometimes up to 99) colliding ids, with and without children of the same names, ends (stop, notify, self-stop, panic) and pauses on a virtual clock, every id looked up with both types against a model of incarnations after generated steps; non-trivial: at least 3 spawns and 1 end."
    }
    fn strategy(&self, t: Tier) -> BoxedStrategy<Case> {
        let max = if t == Tier::Quick { 14 } else { 40 };
        prop_oneof![20 => 2u8..5, 1 => 20u8..100]
            .prop_flat_map(move |ids| (Just(ids), prop::collection::vec((prop_oneof![2 => Just(0u8), 1 => rt::wait()], op(ids), any::<bool>()), 1..(if ids < 5 { max } else { 60 }))))
            .prop_map(|(ids, ops)| Case { ids, ops })
            .boxed()
    }
    fn cases(&self, t: Tier) -> u32 {
        if t == Tier::Quick { 16_000 } else { 200_000 }
    }
    fn check(&self, c: &Case) -> CaseResult {
        block_on_paused(async { within("whole case", execute(c)).await })?
    }
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct RaceCase {
    /// start, stopped afterwards, work while starting, deferred
    spawns: Vec<(u8, bool, u8, bool)>,
    /// number of different ids; None: every actor has its own
    ids: Option<u8>,
}
/// start failures and stops racing the registration on real threads
struct Race;
impl Part for Race {
    type Case = RaceCase;
    fn name(&self) -> &'static str {
        "registry-threads"
    }
    fn rule(&self) -> &'static str {
        "concurrent tracked spawns (waiting or deferred) of unique or colliding ids on a 4-thread runtime, starting fine, stopping in the started hook or panicking in it; afterwards exactly the live ones are found and counted (of those sharing an id: a live one or, if another ended, nothing); non-trivial: at least one of each outcome."
    }
    fn strategy(&self, _: Tier) -> BoxedStrategy<RaceCase> {
        (prop::collection::vec((0u8..4, any::<bool>(), 0u8..3, prop::bool::weighted(0.35)), 4..24), prop_oneof![2 => Just(None), 1 => (1u8..5).prop_map(Some)])
            .prop_map(|(spawns, ids)| RaceCase { spawns, ids })
            .boxed()
    }
    fn cases(&self, t: Tier) -> u32 {
        if t == Tier::Quick { 2500 } else { 30_000 }
    }
    fn shards(&self) -> u32 {
        4
    }
    fn check(&self, c: &RaceCase) -> CaseResult {
        let r = rt::threads(4);
        let res = r.block_on(async {
            let sys = ActorSystem::new();
            let mut tasks = vec![];
            let ids = c.ids.map_or(c.spawns.len(), |i| i as usize);
            let unique = c.ids.is_none();
            for (n, (mode, stop, w, deferred)) in c.spawns.iter().cloned().enumerate() {
                let sys = sys.clone();
                let id = format!("id-{}", n % ids);
                tasks.push(tokio::spawn(async move {
                    let start = match mode {
                        0 => Start::StopsItself,
                        1 => Start::Panics,
                        _ => Start::Fine,
                    };
                    let sub = Sub::<0> { inc: n as u32, start, start_work: w, stop_work: 0, children: 0 };
                    let r = if deferred { Ok(sys.new_actor_deferred(id.clone(), sub, ActorType::Tracked).await) } else { sys.new_actor(id.clone(), sub, ActorType::Tracked).await };
                    match r {
                        Ok(r) if stop => {
                            let _ = r.stop().await;
                            let gone = sys.get_tracked_actor::<Sub<0>>(id.to_actor_id()).await.is_none();
                            // a deferred actor whose start fails may not have ended yet
                            (n, false, gone || !unique || (deferred && start != Start::Fine))
                        }
                        Ok(_) if start == Start::Fine => {
                            let there = sys.get_tracked_actor::<Sub<0>>(id.to_actor_id()).await.is_some();
                            (n, true, there || !unique)
                        }
                        _ => (n, false, true),
                    }
                }));
            }
            let mut live: HashMap<usize, bool> = HashMap::new();
            for t in tasks {
                match tokio::time::timeout(Duration::from_secs(30), t).await {
                    Ok(Ok((n, alive, ok))) => {
                        ensure!(ok, "id-{}: lookup right after {} disagreed", n, if alive { "spawn" } else { "stop" });
                        live.insert(n, alive);
                    }
                    _ => return Err(Fail::Deadline("spawn or stop did not finish".into())),
                }
            }
            let t0 = std::time::Instant::now();
            loop {
                let mut bad = None;
                let (mut lo, mut hi) = (0, 0);
                for i in 0..ids {
                    let alive: Vec<bool> = live.iter().filter(|(n, _)| **n % ids == i).map(|(_, a)| *a).collect();
                    let (all, any) = (!alive.is_empty() && alive.iter().all(|a| *a), alive.iter().any(|a| *a));
                    lo += all as usize;
                    hi += any as usize;
                    match sys.get_tracked_actor::<Sub<0>>(format!("id-{i}").to_actor_id()).await {
                        None if all => bad = Some(format!("id-{i} is not found, its actor is alive")),
                        None => {}
                        Some(_) if !any => bad = Some(format!("id-{i} is found, no such actor is alive")),
                        Some(r) => match tokio::time::timeout(Duration::from_secs(10), r.send(Who)).await {
                            Ok(Ok(n)) if live.get(&(n as usize)) == Some(&true) && n as usize % ids == i => {}
                            x => bad = Some(format!("lookup of id-{i} gave an actor that answers {x:?}")),
                        },
                    }
                }
                let cnt = sys.scheduler().send(ActorCount).await.unwrap_or(9999);
                if cnt < lo || cnt > hi {
                    bad = Some(format!("{cnt} tracked actors reported, {lo}..={hi} alive"));
                }
                match bad {
                    None => break,
                    Some(b) if t0.elapsed() > Duration::from_secs(10) => return Err(Fail::Safety(b)),
                    _ => tokio::time::sleep(Duration::from_millis(5)).await,
                }
            }
            let f = live.values().filter(|a| !**a).count();
            Ok(CaseOut::new(f > 0 && f < live.len()).label(!unique, "ids collide").label(c.spawns.iter().any(|s| s.3), "deferred"))
        });
        r.shutdown_background();
        res
    }
}

pub fn run() {
    Runner::from_args("C03").part(Det).part(Race).finish()
}
