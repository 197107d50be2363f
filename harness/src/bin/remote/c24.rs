//! C24: the health report against what the probed actors are really doing.
use coerce::actor::context::ActorContext;
use coerce::actor::message::{Handler, Message};
use coerce::actor::scheduler::ActorType;
use coerce::actor::{Actor, BoxedActorRef, IntoActorId, LocalActorRef};
use coerce::remote::heartbeat::health::{HealthStatus, SystemHealth};
use coerce::remote::heartbeat::Heartbeat;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};
use std::time::{Duration, Instant};
use vf::cluster::{self, patience, soon};
use vf::*;

/// what a report calls slow
const SLOW: Duration = Duration::from_secs(1);

#[derive(Debug, Clone, Copy, Serialize, Deserialize, PartialEq)]
enum Op {
    /// register actor
    Register(u8),
    Unregister(u8),
    Stop(u8),
    /// the actor's handler panics
    Panic(u8),
    /// keep it busy for a moment (true: for longer than what counts as slow)
    Busy(u8, bool),
    /// keep it busy and ask it to stop
    BusyThenStop(u8, bool),
    /// another one with the id of one that has ended
    Again(u8),
    /// this many reports at once
    Report(u8),
}
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Case {
    /// child of another actor
    children: Vec<bool>,
    starts_slowly: Option<u8>,
    /// pairs of them have the same id, under different parents
    same_ids: bool,
    ops: Vec<Op>,
}

struct A {
    start: Duration,
}
#[vf::async_trait]
impl Actor for A {
    async fn started(&mut self, _: &mut ActorContext) {
        tokio::time::sleep(self.start).await;
    }
}
struct Work(Duration);
impl Message for Work {
    type Result = ();
}
#[vf::async_trait]
impl Handler<Work> for A {
    async fn handle(&mut self, m: Work, _: &mut ActorContext) {
        tokio::time::sleep(m.0).await
    }
}
struct Fault;
impl Message for Fault {
    type Result = ();
}
#[vf::async_trait]
impl Handler<Fault> for A {
    async fn handle(&mut self, _: Fault, _: &mut ActorContext) {
        panic!("a generated fault")
    }
}
struct Parent;
impl Actor for Parent {}
struct Spawn(String, Duration);
impl Message for Spawn {
    type Result = LocalActorRef<A>;
}
#[vf::async_trait]
impl Handler<Spawn> for Parent {
    async fn handle(&mut self, m: Spawn, ctx: &mut ActorContext) -> LocalActorRef<A> {
        ctx.spawn_deferred(m.0.into_actor_id(), A { start: m.1 }).expect("child")
    }
}

struct Health;
impl Part for Health {
    type Case = Case;
    fn name(&self) -> &'static str {
        "health"
    }
    fn rule(&self) -> &'static str {
        "up to 4 actors (some children of other actors, one possibly still starting, pairs possibly of equal id at different places, replacements possibly under the id of the one that ended) are registered, unregistered, kept busy, stopped, made to panic and replaced in generated order, with health reports in between, several at once; each report is compared with what the registered actors were made to do; non-trivial: some report had to be other than healthy"
    }
    fn cases(&self, tier: Tier) -> u32 {
        match tier {
            Tier::Quick => 1500,
            Tier::Thorough => 40_000,
        }
    }
    fn shards(&self) -> u32 {
        48
    }
    fn per_process(&self) -> u32 {
        3000
    }
    fn strategy(&self, _t: Tier) -> BoxedStrategy<Case> {
        let a = || 0u8..4;
        let op = prop_oneof![
            6 => a().prop_map(Op::Register),
            2 => a().prop_map(Op::Unregister),
            2 => a().prop_map(Op::Stop),
            1 => a().prop_map(Op::Panic),
            3 => (a(), prop::bool::weighted(0.35)).prop_map(|(a, s)| Op::Busy(a, s)),
            1 => (a(), any::<bool>()).prop_map(|(a, s)| Op::BusyThenStop(a, s)),
            1 => a().prop_map(Op::Again),
            5 => (1u8..4).prop_map(Op::Report),
        ];
        (prop::collection::vec(any::<bool>(), 4), prop::option::weighted(0.15, a()), any::<bool>(), prop::collection::vec(a().prop_map(Op::Register), 0..4), prop::collection::vec(op, 1..10))
            .prop_map(|(children, starts_slowly, same_ids, mut ops, rest)| {
                ops.extend(rest);
                ops.push(Op::Report(1));
                Case { children, starts_slowly, same_ids, ops }
            })
            .boxed()
    }
    fn check(&self, c: &Case) -> CaseResult {
        cluster::run(1, health(c))
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Is {
    Fine,
    /// answers, but not before
    BusyUntil(Instant),
    Dead,
}

async fn health(c: &Case) -> CaseResult {
    let sys = cluster::system(7, "the tag", |b| b.heartbeat(cluster::heartbeat(500))).await;
    let parent = sys.actor_system().new_actor("parent".into_actor_id(), Parent, ActorType::Tracked).await.expect("parent");
    let other = sys.actor_system().new_actor("other-parent".into_actor_id(), Parent, ActorType::Tracked).await.expect("parent");
    let mut actors: Vec<LocalActorRef<A>> = vec![];
    let mut is: Vec<Is> = vec![];
    let begun = Instant::now();
    for i in 0..4usize {
        let start = if c.starts_slowly == Some(i as u8) { Duration::from_millis(1700) } else { Duration::ZERO };
        let at = match (c.children[i], c.same_ids && i % 2 == 1) {
            (_, true) => Some(&other),
            (true, false) => Some(&parent),
            _ => None,
        };
        actors.push(make(&sys, at, format!("a{}", if c.same_ids { i / 2 } else { i }), start).await?);
        is.push(if start.is_zero() { Is::Fine } else { Is::BusyUntil(begun + start) });
    }
    let base = soon(|| "the first report".into(), Heartbeat::get_system_health(&sys)).await?;
    let base_names: BTreeSet<String> = base.actor_response_times.keys().map(|k| k.to_string()).collect();
    for must in ["heartbeat", "remote-registry", "remote-client-registry", "node-discovery", "pubsub-mediator"] {
        ensure!(base_names.iter().filter(|n| n.ends_with(&format!("/{must}"))).count() == 1, "the system actor {must} is not in the report: {base_names:?}");
    }
    // registered: name -> the actors under that name, each with what it is doing
    let mut reg: Vec<(String, usize, LocalActorRef<A>, u32)> = vec![];
    let mut gone: Vec<LocalActorRef<A>> = vec![];
    let mut gens = vec![0u32; 4];
    let mut reused = false;
    let (mut not_healthy, mut degraded, mut unhealthy) = (0, 0, 0);
    for op in &c.ops {
        match op {
            Op::Register(a) => {
                let a = *a as usize;
                Heartbeat::register(BoxedActorRef::from(actors[a].clone()), &sys);
                reg.push((name(&actors[a]), a, actors[a].clone(), gens[a]));
            }
            Op::Unregister(a) => {
                let id = actors[*a as usize].actor_id();
                Heartbeat::remove(id, &sys);
                reg.retain(|(_, _, r, _)| r.actor_id() != id);
            }
            Op::Stop(a) => {
                let _ = soon(|| "stopping".into(), actors[*a as usize].stop()).await?;
                is[*a as usize] = Is::Dead;
            }
            Op::Panic(a) => {
                if is[*a as usize] != Is::Dead {
                    let r = soon(|| "a failing handler".into(), actors[*a as usize].send(Fault)).await?;
                    // whether it survives is another property: ask it
                    let alive = soon(|| "after a failure".into(), actors[*a as usize].send(Work(Duration::ZERO))).await?.is_ok();
                    ensure!(r.is_err(), "a failed request has a result");
                    if !alive {
                        is[*a as usize] = Is::Dead;
                    } else {
                        is[*a as usize] = Is::Fine;
                    }
                }
            }
            Op::Busy(a, slow) => {
                let a = *a as usize;
                let d = Duration::from_millis(if *slow { 1700 } else { 30 });
                if is[a] != Is::Dead {
                    let _ = actors[a].notify(Work(d));
                    let from = match is[a] {
                        Is::BusyUntil(t) if t > Instant::now() => t,
                        _ => Instant::now(),
                    };
                    is[a] = Is::BusyUntil(from + d);
                }
            }
            Op::BusyThenStop(a, slow) => {
                let a = *a as usize;
                if is[a] != Is::Dead {
                    let _ = actors[a].notify(Work(Duration::from_millis(if *slow { 1300 } else { 30 })));
                    let _ = actors[a].notify_stop();
                    is[a] = Is::Dead;
                }
            }
            Op::Again(a) => {
                let i = *a as usize;
                if is[i] == Is::Dead {
                    let _ = soon(|| "stopping".into(), actors[i].stop()).await?;
                    // its id is free once the parent or the scheduler has been told
                    let t = Instant::now();
                    let old = actors[i].clone();
                    while old.is_valid() && t.elapsed() < patience() {
                        tokio::time::sleep(Duration::from_millis(2)).await;
                    }
                    gone.push(old);
                    // under the same id where that is not probed any more
                    let id = actors[i].actor_id().to_string();
                    let top = !c.children[i] && !(c.same_ids && i % 2 == 1);
                    let same = top && reg.iter().all(|(_, a, r, _)| *a != i || r.actor_id().to_string() != id);
                    reused |= same;
                    actors[i] = make(&sys, None, if same { id } else { format!("b{}", gone.len()) }, Duration::ZERO).await?;
                    gens[i] += 1;
                    is[i] = Is::Fine;
                }
            }
            Op::Report(n) => {
                let asked = Instant::now();
                let what = || "a health report".to_string();
                let all = soon(what, futures::future::join_all((0..*n).map(|_| Heartbeat::get_system_health(&sys)))).await?;
                for h in &all {
                    let (deg, bad) = judge(h, &reg, &gens, &is, asked, &base_names, &sys)?;
                    degraded += deg as u32;
                    unhealthy += bad as u32;
                    not_healthy += (deg || bad) as u32;
                }
            }
        }
    }
    Ok(CaseOut::new(not_healthy > 0).label(degraded > 0, "degraded").label(unhealthy > 0, "unhealthy").label(c.same_ids, "equal ids at different places").label(reused, "id used again"))
}

async fn make(sys: &coerce::remote::system::RemoteActorSystem, parent: Option<&LocalActorRef<Parent>>, id: String, start: Duration) -> Result<LocalActorRef<A>, Fail> {
    Ok(if let Some(parent) = parent {
        soon(|| "a child".into(), parent.send(Spawn(id, start))).await?.expect("child")
    } else {
        sys.actor_system().new_actor_deferred(id.into_actor_id(), A { start }, ActorType::Tracked).await
    })
}
fn name(r: &LocalActorRef<A>) -> String {
    format!("{}/{}", r.actor_path(), r.actor_id())
}

fn judge(
    h: &SystemHealth,
    reg: &[(String, usize, LocalActorRef<A>, u32)],
    gens: &[u32],
    is: &[Is],
    asked: Instant,
    base: &BTreeSet<String>,
    sys: &coerce::remote::system::RemoteActorSystem,
) -> Result<(bool, bool), Fail> {
    let answered = Instant::now();
    let mut want: BTreeMap<String, Is> = base.iter().map(|n| (n.clone(), Is::Fine)).collect();
    for (n, a, _, g) in reg {
        // replaced since: that one has ended
        let now = if *g == gens[*a] { is[*a] } else { Is::Dead };
        want.insert(n.clone(), now);
    }
    let got: BTreeMap<String, Option<Duration>> = h.actor_response_times.iter().map(|(k, v)| (k.to_string(), *v)).collect();
    ensure!(got.keys().eq(want.keys()), "the report names {:?}, registered are {:?}", got.keys(), want.keys());
    let (mut slow, mut dead, mut unsure) = (false, false, false);
    for (n, w) in &want {
        let g = got[n];
        match w {
            Is::Dead => {
                dead = true;
                ensure!(g.is_none(), "{n} has ended, but is reported to have answered in {g:?}");
            }
            Is::Fine => {
                ensure!(g.is_some(), "{n} is running and idle, but is reported not to have answered");
                unsure |= g.unwrap() > SLOW;
            }
            Is::BusyUntil(t) => {
                ensure!(g.is_some(), "{n} is running, but is reported not to have answered");
                let g = g.unwrap();
                // it was busy for that long after it was asked
                let at_least = t.saturating_duration_since(asked);
                if at_least > SLOW + Duration::from_millis(400) {
                    slow = true;
                    if g <= SLOW {
                        return Err(Fail::Deadline(format!("{n} was busy for another {at_least:?}, but is reported to have answered in {g:?}")));
                    }
                } else {
                    unsure |= g > SLOW || at_least > SLOW - Duration::from_millis(400);
                }
                ensure!(answered.saturating_duration_since(asked) + Duration::from_millis(1) >= g, "{n} is reported to have taken {g:?}, the report only took {:?}", answered - asked);
            }
        }
    }
    let by_times = if got.values().any(|v| v.is_none()) {
        HealthStatus::Unhealthy
    } else if got.values().any(|v| v.unwrap() > SLOW) {
        HealthStatus::Degraded
    } else {
        HealthStatus::Healthy
    };
    ensure!(h.status == by_times, "the verdict is {:?}, the answers {got:?}", h.status);
    let expect = if dead {
        HealthStatus::Unhealthy
    } else if slow {
        HealthStatus::Degraded
    } else {
        HealthStatus::Healthy
    };
    if h.status != expect {
        if dead || !unsure {
            return Err(Fail::Safety(format!("the verdict is {:?}, it should be {expect:?}: {got:?}", h.status)));
        }
        return Err(Fail::Deadline(format!("the verdict is {:?}, it should be {expect:?}: {got:?}", h.status)));
    }
    ensure!(h.node_id == 7 && h.node_tag == "the tag" && h.node_started_at == *sys.started_at(), "the report is about another node: {} {}", h.node_id, h.node_tag);
    Ok((slow, dead))
}

pub fn run() {
    let mut r = Runner::from_args("C24");
    r.part(Health).finish()
}
