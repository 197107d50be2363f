//! C15: connections that break and come back while requests and notifications are under way.
use coerce::actor::context::ActorContext;
use coerce::actor::message::{Handler, Message, MessageUnwrapErr, MessageWrapErr};
use coerce::actor::scheduler::ActorType;
use coerce::actor::{Actor, ToActorId};
use coerce::remote::heartbeat::HeartbeatConfig;
use coerce::remote::system::builder::RemoteSystemConfigBuilder;
use coerce::remote::RemoteActorRef;
use parking_lot::Mutex;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::HashMap;
use std::sync::Arc;
use std::time::{Duration, Instant};
use vf::cluster::{self, soon, Relay};
use vf::*;

#[derive(Debug, Clone, Copy, Serialize, Deserialize)]
enum Act {
    /// requests, each handled for that many milliseconds
    Ask { n: u8, work: u8 },
    Tell { n: u8 },
    Wait(u8),
}
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Case {
    /// while the connection is up
    before: Vec<Act>,
    /// wait for everything sent before to be handled
    settle: bool,
    /// cut the caller's connection to the node, the node's to the caller, or both
    cut: u8,
    /// the node cannot be reached for so long (in 100 ms) after that
    refuse: u8,
    /// while it is down
    during: Vec<Act>,
}

#[derive(Clone)]
struct M {
    op: u32,
    work: u8,
}
impl Message for M {
    type Result = u32;
    fn as_bytes(&self) -> Result<Vec<u8>, MessageWrapErr> {
        let mut v = self.op.to_le_bytes().to_vec();
        v.push(self.work);
        Ok(v)
    }
    fn from_bytes(b: Vec<u8>) -> Result<Self, MessageUnwrapErr> {
        if b.len() != 5 {
            return Err(MessageUnwrapErr::DeserializationErr);
        }
        Ok(M { op: u32::from_le_bytes(b[..4].try_into().unwrap()), work: b[4] })
    }
    fn read_remote_result(b: Vec<u8>) -> Result<u32, MessageUnwrapErr> {
        Ok(u32::from_le_bytes(b.as_slice().try_into().map_err(|_| MessageUnwrapErr::DeserializationErr)?))
    }
    fn write_remote_result(r: u32) -> Result<Vec<u8>, MessageWrapErr> {
        Ok(r.to_le_bytes().to_vec())
    }
}
#[derive(Default)]
struct Log(Mutex<HashMap<u32, u32>>);
struct W(Arc<Log>);
impl Actor for W {}
#[vf::async_trait]
impl Handler<M> for W {
    async fn handle(&mut self, m: M, _: &mut ActorContext) -> u32 {
        *self.0 .0.lock().entry(m.op).or_default() += 1;
        if m.work > 0 {
            tokio::time::sleep(Duration::from_millis(m.work as u64)).await;
        }
        m.op.wrapping_mul(31)
    }
}

pub struct Cuts;
impl Part for Cuts {
    type Case = Case;
    fn name(&self) -> &'static str {
        "cuts"
    }
    fn rule(&self) -> &'static str {
        "two nodes connected through relays; requests and notifications are sent, the connections in one or both directions are cut while some are under way, the node may stay unreachable for a while, more are sent while it is down, and the connection comes back; non-trivial: messages sent both before the cut and while it is down"
    }
    fn cases(&self, tier: Tier) -> u32 {
        match tier {
            Tier::Quick => 160,
            Tier::Thorough => 1200,
        }
    }
    fn shards(&self) -> u32 {
        64
    }
    fn shrink_budget(&self) -> (u32, Duration) {
        (12, Duration::from_secs(120))
    }
    fn per_process(&self) -> u32 {
        400
    }
    fn strategy(&self, _t: Tier) -> BoxedStrategy<Case> {
        let act = || {
            prop_oneof![
                3 => (1u8..12, prop_oneof![2 => Just(0u8), 1 => 1u8..60]).prop_map(|(n, work)| Act::Ask { n, work }),
                3 => (1u8..30).prop_map(|n| Act::Tell { n }),
                1 => (0u8..40).prop_map(Act::Wait),
            ]
        };
        (
            prop::collection::vec(act(), 0..5),
            any::<bool>(),
            prop_oneof![3 => Just(1u8), 1 => Just(2u8), 2 => Just(3u8)],
            prop_oneof![3 => Just(0u8), 1 => 0u8..70],
            prop::collection::vec(act(), 0..5),
        )
            .prop_map(|(before, settle, cut, refuse, during)| Case { before, settle, cut, refuse, during })
            .boxed()
    }
    fn check(&self, c: &Case) -> CaseResult {
        cluster::run(2, async { cuts(c).await })
    }
}

async fn cuts(c: &Case) -> CaseResult {
    let cfg = |b: &'_ mut RemoteSystemConfigBuilder| {
        b.heartbeat(HeartbeatConfig {
            interval: Duration::from_millis(200),
            ping_timeout: Duration::from_secs(60),
            unhealthy_node_heartbeat_timeout: Duration::from_secs(120),
            terminated_node_heartbeat_timeout: Duration::from_secs(240),
            minimum_cluster_size: None,
        });
        b.with_handler::<W, M>("W.M");
    };
    let relays = [Relay::new().await, Relay::new().await];
    let mut nodes = vec![];
    for (i, r) in relays.iter().enumerate() {
        let id = 1000 + i as u64;
        let sys = cluster::system(id, &format!("node-{id}"), move |b| { cfg(b); b }).await;
        let mut w = sys.clone().cluster_worker().listen_addr(r.target()).external_addr(&r.addr);
        if i > 0 {
            w = w.with_seed_addr(&relays[0].addr);
        }
        let server = Some(w.start().await);
        nodes.push(cluster::Node { sys, server, addr: r.addr.clone() });
    }
    cluster::converged(&nodes.iter().collect::<Vec<_>>()).await?;
    let log = Arc::new(Log::default());
    let _actor = nodes[0].sys.actor_system().new_actor("w", W(log.clone()), ActorType::Tracked).await.map_err(|e| Fail::Safety(format!("actor not started: {e}")))?;
    let r = RemoteActorRef::<W>::new("w".to_actor_id(), 1000, nodes[1].sys.clone());
    let r = coerce::actor::ActorRef::from(r);

    let mut op = 0u32;
    let mut asks: Vec<(u32, tokio::task::JoinHandle<_>)> = vec![];
    // notifications that have to arrive
    let mut must = vec![];
    let mut counts = [0usize; 2];
    for (phase, acts) in [&c.before, &c.during].into_iter().enumerate() {
        if phase == 1 {
            if c.settle {
                // what is handled after all notifications sent before it shows that they have arrived
                let t = Instant::now();
                loop {
                    let seen = log.0.lock();
                    if must.iter().all(|o| seen.contains_key(o)) {
                        break;
                    }
                    drop(seen);
                    if t.elapsed() > cluster::patience() {
                        return Err(Fail::Deadline("notifications sent over a working connection were not handled".into()));
                    }
                    tokio::time::sleep(Duration::from_millis(5)).await;
                }
            } else {
                must.clear();
            }
            if c.refuse > 0 {
                relays.iter().for_each(|r| r.refuse(true));
                let (rs, d) = (relays.clone(), Duration::from_millis(100 * c.refuse as u64));
                tokio::spawn(async move {
                    tokio::time::sleep(d).await;
                    rs.iter().for_each(|r| r.refuse(false));
                });
            }
            for i in 0..2 {
                if c.cut & (1 << i) != 0 {
                    relays[i].cut().await;
                }
            }
            tokio::time::sleep(Duration::from_millis(400)).await;
        }
        for a in acts {
            match *a {
                Act::Ask { n, work } => {
                    counts[phase] += 1;
                    for _ in 0..n {
                        op += 1;
                        let (r, m) = (r.clone(), M { op, work });
                        asks.push((op, tokio::spawn(async move { r.send(m).await })));
                    }
                }
                Act::Tell { n } => {
                    counts[phase] += 1;
                    for _ in 0..n {
                        op += 1;
                        let got = soon(|| "notification".into(), r.notify(M { op, work: 0 })).await?;
                        ensure!(got.is_ok(), "notification {op} refused although the node is a member: {got:?}");
                        must.push(op);
                    }
                }
                Act::Wait(ms) => tokio::time::sleep(Duration::from_millis(ms as u64)).await,
            }
        }
    }
    // the connection comes back
    let t = Instant::now();
    loop {
        op += 1;
        match tokio::time::timeout(Duration::from_secs(8), r.send(M { op, work: 0 })).await {
            Ok(Ok(v)) => {
                ensure!(v == op.wrapping_mul(31), "request {op} got the result of another one: {v}");
                break;
            }
            _ if t.elapsed() > 2 * cluster::patience() => {
                return Err(Fail::Deadline("the node is reachable again, but no request gets through".into()))
            }
            _ => tokio::time::sleep(Duration::from_millis(100)).await,
        }
    }
    let mut errs = 0;
    for (o, a) in asks {
        let got = soon(|| format!("request {o}, the connection was cut and is up again"), a).await?.map_err(|_| Fail::Safety("request panicked".into()))?;
        match got {
            Ok(v) => {
                ensure!(v == o.wrapping_mul(31), "request {o} got the result of another one: {v}");
                ensure!(log.0.lock().contains_key(&o), "request {o} was answered but never handled");
            }
            Err(_) => errs += 1,
        }
    }
    for _ in 0..5 {
        op += 1;
        let got = soon(|| format!("request {op} after the connection came back"), r.send(M { op, work: 0 })).await?;
        ensure!(got == Ok(op.wrapping_mul(31)), "request {op} after the connection came back got {got:?}");
    }
    let t = Instant::now();
    loop {
        let missing: Vec<u32> = { let seen = log.0.lock(); must.iter().copied().filter(|o| !seen.contains_key(o)).collect() };
        if missing.is_empty() {
            break;
        }
        if t.elapsed() > cluster::patience() {
            return Err(Fail::Deadline(format!("notifications sent while the connection was known to be down never arrived: {missing:?}")));
        }
        tokio::time::sleep(Duration::from_millis(20)).await;
    }
    tokio::time::sleep(Duration::from_millis(30)).await;
    for (o, n) in log.0.lock().iter() {
        ensure!(*n == 1, "message {o} was handled {n} times");
    }
    cluster::teardown(nodes).await;
    Ok(CaseOut::new(counts[0] > 0 && counts[1] > 0)
        .label(errs > 0, "requests lost with the connection")
        .label(c.refuse > 50, "reconnecting failed at first")
        .label(c.cut & 1 != 0 && counts[1] > 0, "sent while down"))
}
