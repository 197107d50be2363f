//! C08: system shutdown.
use coerce::actor::context::ActorContext;
use coerce::actor::message::{Handler, Message};
use coerce::actor::scheduler::ActorType;
use coerce::actor::system::ActorSystem;
use coerce::actor::{Actor, LocalActorRef, ToActorId};
use parking_lot::Mutex;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::sync::Arc;
use std::time::Duration;
use vf::rt::{self, perturb, within};
use vf::*;

/// What a handler, a started hook or a stopped hook does.
#[derive(Debug, Clone, Copy, Serialize, Deserialize, PartialEq)]
pub enum Deed {
    Nothing,
    Work(u8),
    Lookup(u8),
    SpawnTracked { with_child: bool, deferred: bool, busy: u8 },
    SpawnUntracked,
    SpawnChild(u8),
    Ask(u8),
    StopSelf,
    Panic,
}
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Spec {
    /// extra deed of the stopped hook
    on_stop: Deed,
    children: Vec<Deed>,
}
#[derive(Debug, Clone, Copy, Serialize, Deserialize, PartialEq)]
pub enum Op {
    Tell(u8, Deed),
    NotifyStop(u8),
    StopWait(u8),
}
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Case {
    actors: Vec<Spec>,
    ops: Vec<(u8, Op)>,
    wait: u8,
    /// perturbation and operation racing with the shutdown
    racing: Vec<(u8, Op)>,
    racing_spawns: Vec<u8>,
    again: Option<u8>,
}

#[derive(Debug, Clone, Default)]
struct Life {
    started: u32,
    stopped: u32,
    panicked: bool,
    handled: Vec<u32>,
}
#[derive(Default)]
struct Shared {
    lives: Mutex<BTreeMap<String, Life>>,
    counter: Mutex<u32>,
}
impl Shared {
    fn fresh(&self, p: &str) -> String {
        let mut c = self.counter.lock();
        *c += 1;
        format!("{p}{}", *c)
    }
    fn with<R>(&self, id: &str, f: impl FnOnce(&mut Life) -> R) -> R {
        f(self.lives.lock().entry(id.to_string()).or_default())
    }
}

#[derive(Clone)]
struct Sub {
    id: String,
    n: usize,
    top: Arc<Mutex<Vec<LocalActorRef<Sub>>>>,
    sh: Arc<Shared>,
    on_stop: Deed,
    children: Vec<Deed>,
    busy_start: u8,
}
impl Sub {
    fn new_like(&self, prefix: &str) -> Sub {
        Sub { id: self.sh.fresh(prefix), n: usize::MAX, on_stop: Deed::Nothing, children: vec![], busy_start: 0, ..self.clone() }
    }
    fn deed<'a>(&'a mut self, d: Deed, ctx: &'a mut ActorContext) -> std::pin::Pin<Box<dyn std::future::Future<Output = ()> + Send + 'a>> {
        Box::pin(async move {
            match d {
                Deed::Nothing => {}
                Deed::Work(w) => perturb(w).await,
                Deed::Lookup(i) => {
                    let _ = ctx.system().get_tracked_actor::<Sub>(format!("t{}", i % 6).to_actor_id()).await;
                }
                Deed::SpawnTracked { with_child, deferred, busy } => {
                    let mut a = self.new_like("late");
                    a.busy_start = busy;
                    if busy % 2 == 1 {
                        a.on_stop = Deed::Lookup(busy);
                    }
                    if with_child {
                        a.children = vec![Deed::Nothing];
                    }
                    let sys = ctx.system().clone();
                    let id = a.id.clone();
                    if deferred {
                        sys.new_actor_deferred(id, a, ActorType::Tracked).await;
                    } else {
                        let _ = sys.new_actor(id, a, ActorType::Tracked).await;
                    }
                }
                Deed::SpawnUntracked => {
                    let a = self.new_like("anon");
                    let sys = ctx.system().clone();
                    let _ = sys.new_actor(a.id.clone(), a, ActorType::Anonymous).await;
                }
                Deed::SpawnChild(p) => {
                    let mut a = self.new_like("child");
                    a.on_stop = Deed::Work(p);
                    let _ = ctx.spawn(a.id.clone().to_actor_id(), a).await;
                }
                Deed::Ask(i) => {
                    let other = {
                        let top = self.top.lock();
                        if top.is_empty() { None } else { Some((i as usize % top.len(), top[i as usize % top.len()].clone())) }
                    };
                    // only upwards, so the generated actors never wait for each other in a circle
                    if let Some((j, o)) = other {
                        if self.n < j {
                            let _ = o.send(Tell(0, Deed::Nothing)).await;
                        }
                    }
                }
                Deed::StopSelf => ctx.stop(None),
                Deed::Panic => {
                    self.sh.with(&self.id, |l| l.panicked = true);
                    panic!("generated")
                }
            }
        })
    }
}
#[async_trait]
impl Actor for Sub {
    async fn started(&mut self, ctx: &mut ActorContext) {
        self.sh.with(&self.id, |l| l.started += 1);
        perturb(self.busy_start).await;
        for d in self.children.clone() {
            let mut a = self.new_like("child");
            a.on_stop = d;
            let _ = ctx.spawn(a.id.clone().to_actor_id(), a).await;
        }
    }
    async fn stopped(&mut self, ctx: &mut ActorContext) {
        self.sh.with(&self.id, |l| l.stopped += 1);
        self.deed(self.on_stop, ctx).await;
    }
}
#[derive(Clone, Copy)]
struct Tell(u32, Deed);
impl Message for Tell {
    type Result = ();
}
#[async_trait]
impl Handler<Tell> for Sub {
    async fn handle(&mut self, m: Tell, ctx: &mut ActorContext) {
        self.deed(m.1, ctx).await;
        if m.0 > 0 {
            self.sh.with(&self.id, |l| l.handled.push(m.0));
        }
    }
}

async fn execute(case: &Case, rest: bool) -> CaseResult {
    let sys = ActorSystem::new();
    let sh: Arc<Shared> = Default::default();
    let top: Arc<Mutex<Vec<LocalActorRef<Sub>>>> = Default::default();
    for (i, s) in case.actors.iter().enumerate() {
        let a = Sub { id: format!("t{i}"), n: i, top: top.clone(), sh: sh.clone(), on_stop: s.on_stop, children: s.children.clone(), busy_start: 0 };
        let r = sys.new_actor(format!("t{i}"), a, ActorType::Tracked).await.map_err(|e| Fail::Safety(format!("{e:?}")))?;
        top.lock().push(r);
    }
    let n = case.actors.len();
    // accepted[i]: numbered work accepted by actor i before the shutdown began, in order
    let mut accepted: Vec<Vec<u32>> = vec![vec![]; n];
    let mut cut_short = vec![false; n];
    let mut serial = 0;
    let apply = |op: Op, serial: u32| -> Option<(usize, bool, bool)> {
        let refs = top.lock().clone();
        if refs.is_empty() {
            return None;
        }
        match op {
            Op::Tell(i, d) => {
                let i = i as usize % refs.len();
                let ok = refs[i].notify(Tell(serial, d)).is_ok();
                Some((i, ok, matches!(d, Deed::StopSelf | Deed::Panic)))
            }
            Op::NotifyStop(i) => {
                let i = i as usize % refs.len();
                let _ = refs[i].notify_stop();
                Some((i, false, true))
            }
            Op::StopWait(i) => {
                let i = i as usize % refs.len();
                let r = refs[i].clone();
                tokio::spawn(async move { r.stop().await });
                Some((i, false, true))
            }
        }
    };
    let mut any_deed_needs_scheduler = case
        .actors
        .iter()
        .any(|s| matches!(s.on_stop, Deed::Lookup(_) | Deed::SpawnTracked { .. }));
    for (p, op) in &case.ops {
        perturb(*p).await;
        serial += 1;
        if let Some((i, ok, cut)) = apply(*op, serial) {
            if ok {
                accepted[i].push(serial);
            }
            cut_short[i] |= cut;
        }
        if let Op::Tell(_, Deed::Lookup(_) | Deed::SpawnTracked { .. }) = op {
            any_deed_needs_scheduler = true;
        }
    }
    perturb(case.wait).await;
    let sd = {
        let sys = sys.clone();
        let sh = sh.clone();
        tokio::spawn(async move {
            sys.shutdown().await;
            let lives = sh.lives.lock().clone();
            lives
        })
    };
    let second = case.again.map(|p| {
        let (sys, sh) = (sys.clone(), sh.clone());
        tokio::spawn(async move {
            perturb(p).await;
            sys.shutdown().await;
            let lives = sh.lives.lock().clone();
            lives
        })
    });
    for (p, op) in &case.racing {
        perturb(*p).await;
        serial += 1;
        if let Some((i, _, cut)) = apply(*op, serial) {
            cut_short[i] |= cut;
        }
    }
    for p in &case.racing_spawns {
        perturb(*p).await;
        let a = Sub { id: sh.fresh("race"), n: usize::MAX, top: top.clone(), sh: sh.clone(), on_stop: Deed::Nothing, children: vec![], busy_start: 0 };
        let sys = sys.clone();
        tokio::spawn(async move { sys.new_actor(a.id.clone(), a, ActorType::Tracked).await });
    }
    let judge = |which: &str, lives: &BTreeMap<String, Life>| -> Result<(), Fail> {
        for (id, l) in lives {
            ensure!(l.stopped <= 1, "{which}: {id} ran its stopped hook {} times", l.stopped);
            if l.panicked || l.started == 0 {
                continue;
            }
            // "late" actors were created as tracked actors by an actor the shutdown had to stop
            if id.starts_with('t') || id.starts_with("late") {
                ensure!(l.stopped == 1, "{which} completed but tracked actor {id} has not stopped");
            }
        }
        for i in 0..n {
            let l = &lives[&format!("t{i}")];
            if l.panicked || cut_short[i] {
                continue;
            }
            let got: Vec<u32> = l.handled.iter().copied().filter(|s| accepted[i].contains(s)).collect();
            ensure!(got == accepted[i], "{which} completed; t{i} had accepted {:?} before and handled {:?}", accepted[i], got);
        }
        Ok(())
    };
    let lives = match within("ActorSystem::shutdown", sd).await? {
        Ok(l) => l,
        Err(e) => return Err(Fail::Safety(format!("shutdown panicked: {e}"))),
    };
    ensure!(sys.is_terminated(), "after shutdown the system does not report itself terminated");
    judge("shutdown", &lives)?;
    for i in 0..6 {
        let l = within("lookup after shutdown", sys.get_tracked_actor::<Sub>(format!("t{i}").to_actor_id())).await?;
        ensure!(l.is_none(), "t{i} is found after shutdown");
    }
    if let Some(s) = second {
        match within("second shutdown", s).await? {
            Ok(l) => judge("second shutdown", &l)?,
            Err(e) => return Err(Fail::Safety(format!("second shutdown panicked: {e}"))),
        }
    }
    within("repeated shutdown", sys.shutdown()).await?;
    let refs = top.lock().clone();
    for (i, r) in refs.iter().enumerate() {
        let s = within("send after shutdown", r.send(Tell(0, Deed::Nothing))).await?;
        ensure!(s.is_err(), "t{i} still handles messages after shutdown");
    }
    if rest {
        // children of actors that panicked are C04's business
        rt::settle(3_000_000).await;
        let lives = sh.lives.lock().clone();
        if lives.values().all(|l| !l.panicked) {
            for (id, l) in &lives {
                ensure!(
                    !id.starts_with("child") || l.started == 0 || l.stopped == 1,
                    "{id}, a child of a tracked actor, ran its stopped hook {} times", l.stopped
                );
            }
        }
    }
    Ok(CaseOut::new(n > 0 && (serial > 0 || any_deed_needs_scheduler))
        .label(any_deed_needs_scheduler, "an actor uses the scheduler")
        .label(cut_short.iter().any(|c| *c), "an actor stops or panics by itself")
        .label(lives.keys().any(|k| k.starts_with("late")), "tracked actor created by an actor")
        .label(lives.keys().any(|k| k.starts_with("child")), "children"))
}

fn deed(terminal: bool) -> BoxedStrategy<Deed> {
    let base = prop_oneof![
        2 => Just(Deed::Nothing),
        3 => rt::wait().prop_map(Deed::Work),
        3 => (0u8..6).prop_map(Deed::Lookup),
        2 => (any::<bool>(), any::<bool>(), 0u8..5).prop_map(|(with_child, deferred, busy)| Deed::SpawnTracked { with_child, deferred, busy }),
        1 => Just(Deed::SpawnUntracked),
        2 => (0u8..6).prop_map(Deed::SpawnChild),
        2 => (0u8..6).prop_map(Deed::Ask),
    ];
    if terminal {
        prop_oneof![10 => base, 1 => Just(Deed::StopSelf), 1 => Just(Deed::Panic)].boxed()
    } else {
        base.boxed()
    }
}
fn op() -> impl Strategy<Value = Op> {
    prop_oneof![
        6 => (0u8..6, deed(true)).prop_map(|(i, d)| Op::Tell(i, d)),
        1 => (0u8..6).prop_map(Op::NotifyStop),
        1 => (0u8..6).prop_map(Op::StopWait),
    ]
}
fn stop_deed() -> impl Strategy<Value = Deed> {
    prop_oneof![
        4 => Just(Deed::Nothing),
        2 => rt::wait().prop_map(Deed::Work),
        2 => (0u8..6).prop_map(Deed::Lookup),
        1 => (any::<bool>(), any::<bool>(), 0u8..5).prop_map(|(with_child, deferred, busy)| Deed::SpawnTracked { with_child, deferred, busy }),
        1 => Just(Deed::Panic),
    ]
}
fn case() -> BoxedStrategy<Case> {
    let spec = (stop_deed(), prop_oneof![8 => prop::collection::vec(rt::wait().prop_map(Deed::Work), 0..3), 1 => prop::collection::vec(rt::wait().prop_map(Deed::Work), 3..24)]).prop_map(|(on_stop, children)| Spec { on_stop, children }).boxed();
    (
        prop_oneof![12 => prop::collection::vec(spec.clone(), 0..6), 1 => prop::collection::vec(spec, 6..40)],
        prop::collection::vec((0u8..6, op()), 0..14),
        0u8..8,
        prop::collection::vec((0u8..6, op()), 0..5),
        prop::collection::vec(0u8..6, 0..3),
        prop::option::of(0u8..8),
    )
        .prop_map(|(actors, ops, wait, racing, racing_spawns, again)| Case { actors, ops, wait, racing, racing_spawns, again })
        .boxed()
}

fn no_long(mut c: Case) -> Case {
    let short = |d: &mut Deed| {
        if let Deed::Work(w) = d {
            *w %= 8;
        }
    };
    for s in &mut c.actors {
        short(&mut s.on_stop);
        s.children.iter_mut().for_each(short);
    }
    for (_, o) in c.ops.iter_mut().chain(&mut c.racing) {
        if let Op::Tell(_, d) = o {
            short(d);
        }
    }
    c
}

struct Det;
impl Part for Det {
    type Case = Case;
    fn name(&self) -> &'static str {
        "shutdown"
    }
    fn rule(&self) -> &'static str {
        "0-5 tracked actors with children, 0-13 operations before and 0-4 racing with the shutdown; handlers and stop hooks work, look actors up, create tracked, untracked and child actors, ask each other, stop, panic; virtual clock, so 'never completes' is decided; non-trivial: at least one actor and one operation or hook that uses the scheduler."
    }
    fn strategy(&self, _: Tier) -> BoxedStrategy<Case> {
        case()
    }
    fn cases(&self, t: Tier) -> u32 {
        if t == Tier::Quick { 12_000 } else { 300_000 }
    }
    fn check(&self, c: &Case) -> CaseResult {
        block_on_paused(async { within("whole case", execute(c, true)).await })?
    }
}
struct Threads;
impl Part for Threads {
    type Case = Case;
    fn name(&self) -> &'static str {
        "shutdown-threads"
    }
    fn rule(&self) -> &'static str {
        "the same cases on 3 OS threads in real time."
    }
    fn strategy(&self, _: Tier) -> BoxedStrategy<Case> {
        case().prop_map(no_long).boxed()
    }
    fn cases(&self, t: Tier) -> u32 {
        if t == Tier::Quick { 1_500 } else { 40_000 }
    }
    fn check(&self, c: &Case) -> CaseResult {
        let r = rt::threads(3);
        let c2 = c.clone();
        let out = r.block_on(async move {
            match tokio::time::timeout(Duration::from_secs(20), tokio::spawn(async move { execute(&c2, false).await })).await {
                Ok(Ok(r)) => r,
                Ok(Err(e)) => Err(Fail::Safety(format!("{e}"))),
                Err(_) => {
                    if std::env::var("VF_DUMP").is_ok() {
                        eprintln!("HANG {:?}", c);
                    }
                    Err(Fail::Deadline("the shutdown did not complete in 20 s".into()))
                }
            }
        });
        r.shutdown_background();
        out
    }
}

pub fn run() {
    Runner::from_args("C08").part(Det).part(Threads).finish()
}
