//! C04: supervision trees.
use coerce::actor::context::ActorContext;
use coerce::actor::message::{Handler, Message};
use coerce::actor::scheduler::ActorType;
use coerce::actor::system::ActorSystem;
use coerce::actor::{Actor, ActorId, ActorRefErr, BoxedActorRef, LocalActorRef, ToActorId};
use parking_lot::Mutex;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::HashMap;
use std::sync::Arc;
use vf::rt::{self, perturb, within};
use vf::*;

#[derive(Debug, Clone, Copy, Serialize, Deserialize, PartialEq)]
pub enum Start {
    Fine,
    StopsItself,
    Panics,
}
#[derive(Debug, Clone, Copy, Serialize, Deserialize, PartialEq)]
pub enum By {
    StopWait,
    NotifyStop,
    SelfStop,
    Panic,
    FromParent,
}
#[derive(Debug, Clone, Copy, Serialize, Deserialize, PartialEq)]
pub enum How {
    Wait,
    Deferred,
    Adopted,
    Attached,
}
#[derive(Debug, Clone, Copy, Serialize, Deserialize, PartialEq)]
pub enum Op {
    Spawn { parent: u8, name: u8, how: How, start: Start, start_work: u8, stop_work: u8 },
    End { node: u8, by: By },
    /// a node gets many children at once
    Burst { parent: u8, count: u8, wait: bool },
    /// keeps a node busy
    Work { node: u8, work: u8 },
}
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Case {
    ops: Vec<(u8, Op, bool)>,
}

#[derive(Debug, Clone, PartialEq)]
enum Ev {
    Started(usize),
    Stopped(usize),
    ChildStopped(usize, String),
    WorkDone(usize, u32),
}
type Log = Arc<Mutex<Vec<Ev>>>;

#[derive(Clone)]
struct Node {
    uid: usize,
    log: Log,
    start: Start,
    start_work: u8,
    stop_work: u8,
}

#[async_trait]
impl Actor for Node {
    async fn started(&mut self, ctx: &mut ActorContext) {
        perturb(self.start_work).await;
        match self.start {
            Start::Fine => {}
            Start::StopsItself => ctx.stop(None),
            Start::Panics => panic!("generated: started"),
        }
        self.log.lock().push(Ev::Started(self.uid));
    }
    async fn stopped(&mut self, _: &mut ActorContext) {
        perturb(self.stop_work).await;
        self.log.lock().push(Ev::Stopped(self.uid));
    }
    async fn on_child_stopped(&mut self, id: &ActorId, _: &mut ActorContext) {
        self.log.lock().push(Ev::ChildStopped(self.uid, id.to_string()));
    }
}

struct SpawnChild(String, Node, bool);
impl Message for SpawnChild {
    type Result = Result<LocalActorRef<Node>, ActorRefErr>;
}
#[async_trait]
impl Handler<SpawnChild> for Node {
    async fn handle(&mut self, m: SpawnChild, ctx: &mut ActorContext) -> Result<LocalActorRef<Node>, ActorRefErr> {
        if m.2 {
            ctx.spawn_deferred(m.0.to_actor_id(), m.1)
        } else {
            ctx.spawn(m.0.to_actor_id(), m.1).await
        }
    }
}
struct Adopt(BoxedActorRef, bool);
impl Message for Adopt {
    type Result = ();
}
#[async_trait]
impl Handler<Adopt> for Node {
    async fn handle(&mut self, m: Adopt, ctx: &mut ActorContext) {
        if m.1 {
            ctx.attach_child_ref(m.0);
        } else {
            ctx.add_child_ref(m.0);
        }
    }
}
struct Who;
impl Message for Who {
    type Result = usize;
}
#[async_trait]
impl Handler<Who> for Node {
    async fn handle(&mut self, _: Who, _: &mut ActorContext) -> usize {
        self.uid
    }
}
struct Children(Vec<String>);
impl Message for Children {
    type Result = (usize, Vec<Option<LocalActorRef<Node>>>);
}
#[async_trait]
impl Handler<Children> for Node {
    async fn handle(&mut self, m: Children, ctx: &mut ActorContext) -> (usize, Vec<Option<LocalActorRef<Node>>>) {
        let r = m.0.iter().map(|n| ctx.child_ref::<Node>(&n.to_actor_id())).collect::<Vec<_>>();
        for (n, r) in m.0.iter().zip(&r) {
            assert_eq!(ctx.boxed_child_ref(&n.to_actor_id()).is_some(), r.is_some());
        }
        (ctx.supervised_count(), r)
    }
}
struct StopChild(String);
impl Message for StopChild {
    type Result = ();
}
#[async_trait]
impl Handler<StopChild> for Node {
    async fn handle(&mut self, m: StopChild, ctx: &mut ActorContext) {
        if let Some(c) = ctx.child_ref::<Node>(&m.0.to_actor_id()) {
            let _ = c.stop().await;
        }
    }
}
struct EndNow(bool);
impl Message for EndNow {
    type Result = ();
}
#[async_trait]
impl Handler<EndNow> for Node {
    async fn handle(&mut self, m: EndNow, ctx: &mut ActorContext) {
        if m.0 {
            panic!("generated: handler");
        }
        ctx.stop(None);
    }
}
struct Work(u8, u32);
impl Message for Work {
    type Result = ();
}
#[async_trait]
impl Handler<Work> for Node {
    async fn handle(&mut self, m: Work, _: &mut ActorContext) {
        perturb(m.0).await;
        self.log.lock().push(Ev::WorkDone(self.uid, m.1));
    }
}

#[derive(Debug)]
struct M {
    parent: Option<usize>,
    name: String,
    r: Option<LocalActorRef<Node>>,
    /// something that ends it was sent (or its start fails)
    doomed: bool,
    panic_possible: bool,
    settled_dead: bool,
    deferred_fail: bool,
    works: Vec<u32>,
}

fn doomed(ms: &[M], mut u: usize) -> bool {
    loop {
        if ms[u].doomed {
            return true;
        }
        match ms[u].parent {
            Some(p) => u = p,
            None => return false,
        }
    }
}

async fn settle_and_compare(ms: &mut [M], log: &Log, when: &str) -> Result<(), Fail> {
    rt::settle(rt::QUIET).await;
    let l = log.lock().clone();
    let dead: Vec<bool> = (0..ms.len()).map(|u| doomed(ms, u)).collect();
    for u in 0..ms.len() {
        let stops = l.iter().filter(|e| **e == Ev::Stopped(u)).count();
        let starts = l.iter().filter(|e| **e == Ev::Started(u)).count();
        ensure!(starts <= 1, "{when}: node {u} started {starts} times");
        if dead[u] {
            if ms[u].panic_possible {
                ensure!(stops <= 1, "{when}: node {u} ran its stopped hook {stops} times");
            } else {
                ensure!(stops == 1, "{when}: node {u} ({:?}) or an ancestor ended, but its stopped hook ran {stops} times", ms[u].name);
            }
            if let Some(r) = &ms[u].r {
                ensure!(!r.is_valid(), "{when}: node {u} is still running although it or an ancestor ended");
            }
        } else {
            ensure!(stops == 0, "{when}: node {u} stopped although neither it nor an ancestor was ended");
            let r = ms[u].r.as_ref().unwrap();
            let w = within("who", r.send(Who)).await?;
            ensure!(w == Ok(u), "{when}: node {u} should be running but answered {w:?}");
            for n in &ms[u].works {
                let c = l.iter().filter(|e| **e == Ev::WorkDone(u, *n)).count();
                ensure!(c == 1, "{when}: work {n} of the untouched node {u} done {c} times");
            }
        }
        ms[u].settled_dead = dead[u];
    }
    // what parents see
    for u in 0..ms.len() {
        let kids: Vec<usize> = (0..ms.len()).filter(|k| ms[*k].parent == Some(u)).collect();
        let mut by_name: HashMap<&str, (usize, Option<usize>)> = HashMap::new();
        for k in &kids {
            let e = by_name.entry(&ms[*k].name).or_default();
            if dead[*k] {
                e.0 += 1;
            } else {
                ensure!(e.1.is_none(), "{when}: two live children of node {u} share the name {}", ms[*k].name);
                e.1 = Some(*k);
            }
        }
        for (name, (ended, _)) in &by_name {
            let told = l.iter().filter(|e| **e == Ev::ChildStopped(u, name.to_string())).count();
            if dead[u] {
                ensure!(told <= *ended, "{when}: node {u} was told {told} times that {name} stopped, {ended} ended");
            } else {
                ensure!(told == *ended, "{when}: node {u} was told {told} times that {name} stopped, but {ended} children of that name ended");
            }
        }
        for e in &l {
            if let Ev::ChildStopped(p, n) = e {
                ensure!(*p != u || by_name.contains_key(n.as_str()), "{when}: node {u} was told about {n}, which is not its child");
            }
        }
        if !dead[u] {
            let names: Vec<String> = by_name.keys().map(|s| s.to_string()).collect();
            let (count, refs) = match within("children", ms[u].r.as_ref().unwrap().send(Children(names.clone()))).await? {
                Ok(x) => x,
                Err(e) => return Err(Fail::Safety(format!("{when}: node {u} does not answer: {e:?}"))),
            };
            let live = by_name.values().filter(|v| v.1.is_some()).count();
            ensure!(count == live, "{when}: node {u} has {live} live children but sees {count}");
            for (n, r) in names.iter().zip(refs) {
                match (by_name[n.as_str()].1, r) {
                    (None, None) => {}
                    (Some(k), Some(r)) => {
                        let w = within("child who", r.send(Who)).await?;
                        ensure!(w == Ok(k), "{when}: child {n} of node {u} is {w:?}, expected {k}");
                    }
                    (m, r) => ensure!(false, "{when}: child {n} of node {u}: live {m:?}, reference {}", r.is_some()),
                }
            }
        }
        // told only after its own children have stopped
        if let (Some(p), true) = (ms[u].parent, dead[u]) {
            let same_name = (0..ms.len()).filter(|k| ms[*k].parent == Some(p) && ms[*k].name == ms[u].name).count();
            if same_name == 1 {
                if let Some(t) = l.iter().position(|e| *e == Ev::ChildStopped(p, ms[u].name.clone())) {
                    for k in &kids {
                        if let Some(s) = l.iter().position(|e| *e == Ev::Stopped(*k)) {
                            ensure!(s < t, "{when}: node {p} was told that {u} stopped before {u}'s child {k} had stopped");
                        }
                    }
                    if let Some(s) = l.iter().position(|e| *e == Ev::Stopped(u)) {
                        ensure!(s < t, "{when}: node {p} was told that {u} stopped before it had");
                    }
                }
            }
        }
    }
    Ok(())
}

async fn execute(case: &Case) -> CaseResult {
    let sys = ActorSystem::new();
    let log: Log = Default::default();
    let mut ms: Vec<M> = vec![];
    for (u, ty) in [ActorType::Tracked, ActorType::Anonymous].into_iter().enumerate() {
        let n = Node { uid: u, log: log.clone(), start: Start::Fine, start_work: 0, stop_work: 1 };
        let r = sys.new_actor(format!("root{u}"), n, ty).await.map_err(|e| Fail::Safety(format!("{e:?}")))?;
        ms.push(M { parent: None, name: format!("root{u}"), r: Some(r), doomed: false, panic_possible: false, settled_dead: false, deferred_fail: false, works: vec![] });
    }
    let mut ends_with_kids = 0;
    let mut refused = 0;
    let mut reused = 0;
    let mut bursts = 0;
    for (n, (pre, op, check)) in case.ops.iter().enumerate() {
        perturb(*pre).await;
        match op {
            Op::Spawn { parent, name, how, start, start_work, stop_work } => {
                let cands: Vec<usize> = (0..ms.len()).filter(|u| ms[*u].r.is_some() && !ms[*u].settled_dead).collect();
                if cands.is_empty() {
                    continue;
                }
                let p = cands[*parent as usize % cands.len()];
                let uid = ms.len();
                let node = Node { uid, log: log.clone(), start: *start, start_work: *start_work, stop_work: *stop_work };
                let pref = ms[p].r.clone().unwrap();
                match how {
                    How::Wait | How::Deferred => {
                        let name = format!("n{}", name % 3);
                        let same: Vec<usize> = (0..ms.len()).filter(|k| ms[*k].parent == Some(p) && ms[*k].name == name).collect();
                        let r = within("spawn", pref.send(SpawnChild(name.clone(), node, *how == How::Deferred))).await?;
                        match r {
                            Err(_) => ensure!(doomed(&ms, p), "node {p} is running but does not answer a spawn request"),
                            Ok(Err(ActorRefErr::AlreadyExists(id))) => {
                                refused += 1;
                                ensure!(id.as_ref() == name, "refusal names {id}");
                                ensure!(same.iter().any(|k| !ms[*k].settled_dead), "spawn of {name} under node {p} refused although no such child is alive");
                            }
                            Ok(Err(e)) => {
                                ensure!(*how == How::Wait && *start != Start::Fine, "spawn of {name} under node {p} failed: {e:?}");
                                ensure!(e == ActorRefErr::ActorStartFailed, "failed start reported as {e:?}");
                                ensure!(!same.iter().any(|k| !doomed(&ms, *k)), "spawn of {name} was not refused although node {p} has a live child of that name");
                                ms.push(M { parent: Some(p), name, r: None, doomed: true, panic_possible: *start == Start::Panics, settled_dead: false, deferred_fail: false, works: vec![] });
                            }
                            Ok(Ok(r)) => {
                                ensure!(!same.iter().any(|k| !doomed(&ms, *k)), "spawn of {name} was not refused although node {p} has a live child of that name");
                                ensure!(*how == How::Deferred || *start == Start::Fine, "spawn of a child that {start:?} while starting succeeded");
                                ensure!(*how == How::Deferred || log.lock().contains(&Ev::Started(uid)), "waiting spawn returned before the child was started");
                                reused += !same.is_empty() as u32;
                                ms.push(M { parent: Some(p), name, r: Some(r), doomed: *start != Start::Fine, panic_possible: *start == Start::Panics, settled_dead: false, deferred_fail: *start != Start::Fine, works: vec![] });
                            }
                        }
                    }
                    How::Adopted | How::Attached => {
                        // only under a parent that is certainly running
                        if doomed(&ms, p) {
                            continue;
                        }
                        let name = format!("att{uid}");
                        let mut node = node;
                        node.start = Start::Fine;
                        let r = within("supervised spawn", sys.new_supervised_actor(name.clone(), node, pref.clone().into())).await?.map_err(|e| Fail::Safety(format!("supervised spawn: {e:?}")))?;
                        let a = within("adopt", pref.send(Adopt(r.clone().into(), *how == How::Attached))).await?;
                        ensure!(a.is_ok(), "node {p} does not answer: {a:?}");
                        ms.push(M { parent: Some(p), name, r: Some(r), doomed: false, panic_possible: false, settled_dead: false, deferred_fail: false, works: vec![] });
                    }
                }
            }
            Op::Burst { parent, count, wait } => {
                let cands: Vec<usize> = (0..ms.len()).filter(|u| ms[*u].r.is_some() && !ms[*u].settled_dead).collect();
                if cands.is_empty() {
                    continue;
                }
                let p = cands[*parent as usize % cands.len()];
                let pref = ms[p].r.clone().unwrap();
                for i in 0..*count {
                    let uid = ms.len();
                    let node = Node { uid, log: log.clone(), start: Start::Fine, start_work: i % 3, stop_work: i % 4 };
                    let name = format!("burst{n}-{i}");
                    match within("spawn", pref.send(SpawnChild(name.clone(), node, !*wait))).await? {
                        Ok(Ok(r)) => ms.push(M { parent: Some(p), name, r: Some(r), doomed: false, panic_possible: false, settled_dead: false, deferred_fail: false, works: vec![] }),
                        Ok(Err(e)) => return Err(Fail::Safety(format!("spawn of {name} under node {p} failed: {e:?}"))),
                        Err(_) => {
                            ensure!(doomed(&ms, p), "node {p} is running but does not answer a spawn request");
                            break;
                        }
                    }
                }
                bursts += 1;
            }
            Op::End { node, by } => {
                // roots end rarely
                let cands: Vec<usize> = (0..ms.len()).filter(|u| ms[*u].r.is_some() && !ms[*u].settled_dead && (*u > 1 || *node > 200)).collect();
                if cands.is_empty() {
                    continue;
                }
                let u = cands[*node as usize % cands.len()];
                let r = ms[u].r.clone().unwrap();
                if ms.iter().any(|m| m.parent == Some(u) && !m.settled_dead) {
                    ends_with_kids += 1;
                }
                match by {
                    By::StopWait => {
                        let x = within("stop", r.stop()).await?;
                        ensure!(x.is_ok() || doomed(&ms, u), "stop of running node {u}: {x:?}");
                    }
                    By::NotifyStop => {
                        let _ = r.notify_stop();
                    }
                    By::SelfStop => {
                        let _ = r.notify(EndNow(false));
                    }
                    By::Panic => {
                        let _ = r.notify(EndNow(true));
                        ms[u].panic_possible = true;
                    }
                    By::FromParent => {
                        match ms[u].parent {
                            None => continue,
                            Some(p) => {
                                if doomed(&ms, p) || doomed(&ms, u) {
                                    continue;
                                }
                                let x = within("stop by parent", ms[p].r.as_ref().unwrap().send(StopChild(ms[u].name.clone()))).await?;
                                ensure!(x.is_ok(), "node {p} does not answer: {x:?}");
                            }
                        }
                    }
                }
                ms[u].doomed = true;
            }
            Op::Work { node, work } => {
                let u = *node as usize % ms.len();
                if let Some(r) = &ms[u].r {
                    if r.notify(Work(*work, n as u32)).is_ok() {
                        ms[u].works.push(n as u32);
                    }
                }
            }
        }
        if *check {
            settle_and_compare(&mut ms, &log, &format!("after step {n} {op:?}")).await?;
        }
    }
    settle_and_compare(&mut ms, &log, "at the end").await?;
    let depth = |mut u: usize| {
        let mut d = 0;
        while let Some(p) = ms[u].parent {
            d += 1;
            u = p;
        }
        d
    };
    let maxd = (0..ms.len()).map(depth).max().unwrap_or(0);
    Ok(CaseOut::new(ends_with_kids > 0 && maxd >= 2)
        .label(ends_with_kids > 0, "a node with children ended")
        .label(maxd >= 3, "depth 3 or more")
        .label(bursts > 0, "over 5 children at once")
        .label(refused > 0, "taken id refused")
        .label(reused > 0, "id reused after its child ended")
        .label(ms.iter().any(|m| m.panic_possible), "panic"))
}

pub fn op_strategy() -> impl Strategy<Value = Op> {
    let start = prop_oneof![8 => Just(Start::Fine), 1 => Just(Start::StopsItself), 1 => Just(Start::Panics)];
    let how = prop_oneof![4 => Just(How::Wait), 3 => Just(How::Deferred), 1 => Just(How::Adopted), 1 => Just(How::Attached)];
    let by = prop_oneof![Just(By::StopWait), Just(By::NotifyStop), Just(By::SelfStop), Just(By::Panic), Just(By::FromParent)];
    prop_oneof![
        8 => (any::<u8>(), 0u8..3, how, start, rt::wait(), rt::wait()).prop_map(|(parent, name, how, start, start_work, stop_work)| Op::Spawn { parent, name, how, start, start_work, stop_work }),
        1 => (any::<u8>(), prop_oneof![3 => 6u8..20, 1 => 20u8..80], any::<bool>(), prop::bool::weighted(0.15)).prop_map(|(parent, count, wait, many)| if many { Op::Burst { parent, count, wait } } else { Op::Work { node: parent, work: 1 } }),
        3 => (any::<u8>(), by).prop_map(|(node, by)| Op::End { node, by }),
        1 => (any::<u8>(), rt::wait()).prop_map(|(node, work)| Op::Work { node, work }),
    ]
}

struct Det;
impl Part for Det {
    type Case = Case;
    fn name(&self) -> &'static str {
        "supervision"
    }
    fn rule(&self) -> &'static str {
        "histories over two roots: children spawned waiting/deferred/adopted/attached at any node under 3 colliding names with starts that succeed, stop or panic, nodes kept busy, and nodes ended by stop, notification, self-stop, panic or from the parent's handler, with or without settling in between; compared with a model tree on a virtual clock; non-trivial: a node with children ended and the tree reached depth 2."
    }
    fn strategy(&self, t: Tier) -> BoxedStrategy<Case> {
        let max = if t == Tier::Quick { 24 } else { 50 };
        prop::collection::vec((prop_oneof![2 => Just(0u8), 1 => rt::wait()], op_strategy(), prop::bool::weighted(0.25)), 2..max).prop_map(|ops| Case { ops }).boxed()
    }
    fn cases(&self, t: Tier) -> u32 {
        if t == Tier::Quick { 12_000 } else { 150_000 }
    }
    fn check(&self, c: &Case) -> CaseResult {
        block_on_paused(async { within("whole case", execute(c)).await })?
    }
}

pub fn run() {
    Runner::from_args("C04").part(Det).finish()
}
