//! C17: membership and leaders. Three parts: the member table and the leader as a function of the
//! contact with every node (model), formation over generated seed graphs with real nodes, and
//! departures of real nodes.
use chrono::{DateTime, Duration as Span, Utc};
use coerce::actor::context::ActorContext;
use coerce::actor::message::Handler;
use coerce::actor::scheduler::ActorType;
use coerce::actor::{Actor, IntoActorId};
use coerce::remote::actor::message::NodeTerminated;
use coerce::remote::cluster::discovery::{Discover, Seed};
use coerce::remote::cluster::node::{NodeAttributes, NodeStatus, RemoteNode, RemoteNodeState};
use coerce::remote::heartbeat::{HeartbeatConfig, NodePing, PingResult};
use coerce::remote::net::proto::network::PongEvent;
use coerce::remote::net::server::RemoteServer;
use coerce::remote::stream::pubsub::{PubSub, Receive, Subscription};
use coerce::remote::stream::system::{ClusterEvent, SystemEvent, SystemTopic};
use coerce::remote::system::{NodeId, RemoteActorSystem};
use parking_lot::Mutex;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;
use std::time::{Duration, Instant};
use vf::cluster::{self, patience};
use vf::*;

fn node_id() -> impl Strategy<Value = u64> {
    prop_oneof![6 => 0u64..20, 1 => any::<u64>(), 1 => (u64::MAX - 4)..=u64::MAX, 1 => (1u64 << 63)..((1u64 << 63) + 3)]
}

// ---------------------------------------------------------------------------------------------
// (a) contact -> status, leader, member-up

#[derive(Debug, Clone, Copy, Serialize, Deserialize, PartialEq)]
enum Contact {
    /// answered so many ms ago (negative: the clock was set back since)
    Fresh(i32),
    /// answered long enough ago to be unhealthy / dead
    Old(u32),
    Dead(u32),
    /// answered just now, but took very long
    Slow(u32),
    Timeout,
    Disconnected,
    Err,
    /// said goodbye
    Goodbye,
}
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Fake {
    id: u64,
    started: u8,
}
#[derive(Debug, Clone, Serialize, Deserialize)]
struct ModelCase {
    nodes: Vec<Fake>,
    min: Option<u8>,
    /// order of registration on the second system
    rot: u8,
    rev: bool,
    rounds: Vec<Vec<(u8, Contact)>>,
    /// nodes from this index on are only registered in this round
    late: (u8, u8),
}

#[derive(Default)]
struct Heard {
    leaders: Vec<NodeId>,
    ups: Vec<(NodeId, BTreeSet<NodeId>)>,
}
struct Ear(Arc<Mutex<Heard>>, Option<Subscription>);
#[vf::async_trait]
impl Actor for Ear {
    async fn started(&mut self, ctx: &mut ActorContext) {
        self.1 = Some(PubSub::subscribe::<Self, SystemTopic>(SystemTopic, ctx).await.expect("subscribe"));
    }
}
#[vf::async_trait]
impl Handler<Receive<SystemTopic>> for Ear {
    async fn handle(&mut self, m: Receive<SystemTopic>, _: &mut ActorContext) {
        let SystemEvent::Cluster(e) = m.0.as_ref();
        match e {
            ClusterEvent::LeaderChanged(n) => self.0.lock().leaders.push(*n),
            ClusterEvent::MemberUp(up) => self.0.lock().ups.push((up.leader_id, up.nodes.iter().map(|n| n.id).collect())),
            _ => {}
        }
    }
}

const UNHEALTHY: u64 = 10;
const TERMINATED: u64 = 30;

#[derive(Clone, Copy, PartialEq, Debug)]
enum Expect {
    Healthy,
    Unhealthy,
    Dead,
    NotHealthy,
}
impl Expect {
    fn allows(self, s: NodeStatus) -> bool {
        match self {
            Expect::Healthy => s == NodeStatus::Healthy,
            Expect::Unhealthy => s == NodeStatus::Unhealthy,
            Expect::Dead => s == NodeStatus::Terminated,
            Expect::NotHealthy => s != NodeStatus::Healthy,
        }
    }
}

struct HeartbeatModel;
impl Part for HeartbeatModel {
    type Case = ModelCase;
    fn name(&self) -> &'static str {
        "contact-model"
    }
    fn rule(&self) -> &'static str {
        "two systems without a network, told about the same 2-6 nodes (ids over the whole range, equal start times included) in different orders, and fed the same generated contact results (answers of any age and latency, timeouts, disconnections, errors, goodbyes) over several rounds; after each round statuses, leader, leader announcements and the member-up announcement are compared with a model; non-trivial: some other node was not healthy in some round and was healthy in some round"
    }
    fn cases(&self, tier: Tier) -> u32 {
        match tier {
            Tier::Quick => 1600,
            Tier::Thorough => 40000,
        }
    }
    fn shards(&self) -> u32 {
        24
    }
    fn shrink_budget(&self) -> (u32, Duration) {
        (150, Duration::from_secs(60))
    }
    fn strategy(&self, _t: Tier) -> BoxedStrategy<ModelCase> {
        let contact = prop_oneof![
            6 => (0i32..4000).prop_map(Contact::Fresh),
            1 => (-8000i32..0).prop_map(Contact::Fresh),
            2 => (12_000u32..24_000).prop_map(Contact::Old),
            2 => (31_000u32..200_000_000).prop_map(Contact::Dead),
            1 => (12_000u32..100_000).prop_map(Contact::Slow),
            3 => Just(Contact::Timeout),
            2 => Just(Contact::Disconnected),
            1 => Just(Contact::Err),
            1 => Just(Contact::Goodbye),
        ];
        (
            prop::collection::vec((node_id(), 0u8..6).prop_map(|(id, started)| Fake { id, started }), 2..7),
            prop::option::weighted(0.6, 1u8..6),
            any::<u8>(),
            any::<bool>(),
            prop::collection::vec(prop::collection::vec((0u8..6, contact), 0..7), 1..5),
            (0u8..7, 0u8..3),
        )
            .prop_map(|(mut nodes, min, rot, rev, rounds, late)| {
                let mut seen = BTreeSet::new();
                nodes.retain(|n| seen.insert(n.id));
                let mut k = 1;
                while nodes.len() < 2 {
                    if seen.insert(k) {
                        nodes.push(Fake { id: k, started: 2 });
                    }
                    k += 1;
                }
                ModelCase { nodes, min, rot, rev, rounds, late }
            })
            .boxed()
    }
    fn per_process(&self) -> u32 {
        1500
    }
    fn check(&self, c: &ModelCase) -> CaseResult {
        cluster::run(2, model(c))
    }
}

struct Member {
    last_ok: Option<DateTime<Utc>>,
    contact: Option<Contact>,
    /// may have been found dead since it last answered
    dead: bool,
    answered: bool,
    /// what the previous look said, for errors
    expect: Expect,
}

async fn ticks(sys: &RemoteActorSystem, n: usize) -> Result<(), Fail> {
    let me = sys.node_id();
    let t = Instant::now();
    let mut seen = 0;
    let mut last = None;
    loop {
        let now = sys.get_nodes().await.into_iter().find(|n| n.id == me).and_then(|n| n.last_heartbeat);
        if now != last {
            last = now;
            seen += 1;
            // the first value seen may be of a tick before the call
            if seen > n {
                return Ok(());
            }
        }
        if t.elapsed() > patience() {
            return Err(Fail::Deadline(format!("node {me} does not refresh its own entry")));
        }
        tokio::time::sleep(Duration::from_millis(1)).await;
    }
}

async fn model(c: &ModelCase) -> CaseResult {
    let config = HeartbeatConfig {
        interval: Duration::from_millis(6),
        ping_timeout: Duration::from_secs(5),
        unhealthy_node_heartbeat_timeout: Duration::from_secs(UNHEALTHY),
        terminated_node_heartbeat_timeout: Duration::from_secs(TERMINATED),
        minimum_cluster_size: c.min.map(|m| m as usize),
    };
    let base = Utc::now() - Span::seconds(1000);
    let start = |n: &Fake| base + Span::milliseconds(n.started as i64);
    let mut syss = vec![];
    let mut heard = vec![];
    for i in 0..2 {
        let cfg = config.clone();
        let sys = cluster::system(c.nodes[i].id, &format!("n{i}"), move |b| b.heartbeat(cfg)).await;
        let h = Arc::new(Mutex::new(Heard::default()));
        sys.actor_system().new_actor("ear".into_actor_id(), Ear(h.clone(), None), ActorType::Anonymous).await.expect("ear");
        heard.push(h);
        syss.push(sys);
    }
    let n = c.nodes.len();
    let late_from = (c.late.0 as usize).max(2);
    let remote = |k: usize| {
        RemoteNode::new(c.nodes[k].id, format!("10.0.0.{k}:1"), format!("tag-{k}"), Some(start(&c.nodes[k])), Arc::new(NodeAttributes::new()))
    };
    // the second system learns of the nodes in another order
    let mut order: Vec<usize> = (0..n).collect();
    order.rotate_left(c.rot as usize % n);
    if c.rev {
        order.reverse();
    }
    for k in (0..n).filter(|k| *k < late_from) {
        syss[0].register_node(remote(k)).await;
    }
    for k in order.iter().copied().filter(|k| *k < late_from) {
        syss[1].register_node(remote(k)).await;
    }
    let mut known = n.min(late_from);
    let mut members: Vec<Member> = (0..n).map(|_| Member { last_ok: None, contact: None, dead: false, answered: false, expect: Expect::NotHealthy }).collect();
    let begun = Instant::now();
    let (mut some_up, mut some_down) = (false, false);
    let mut leaders_seen = [BTreeSet::new(), BTreeSet::new()];
    let mut up_allowed = [false, false];
    let (mut tie, mut handover) = (false, false);
    for (r, round) in c.rounds.iter().enumerate() {
        if r >= c.late.1 as usize && known < n {
            for k in known..n {
                syss[0].register_node(remote(k)).await;
            }
            for k in (known..n).rev() {
                syss[1].register_node(remote(k)).await;
            }
            known = n;
        }
        for (k, contact) in round {
            let k = *k as usize % n;
            if k >= known {
                continue;
            }
            let id = c.nodes[k].id;
            let now = Utc::now();
            let ok = |age: i64| PingResult::Ok(PongEvent::default(), Duration::from_millis(3), now - Span::milliseconds(age));
            let m = &mut members[k];
            m.contact = Some(*contact);
            match contact {
                Contact::Fresh(_) | Contact::Old(_) | Contact::Slow(_) => {
                    m.dead = false;
                    m.answered = true;
                }
                Contact::Timeout => {}
                _ => m.dead = true,
            }
            let ping = match contact {
                Contact::Fresh(a) => {
                    m.last_ok = Some(now - Span::milliseconds(*a as i64));
                    ok(*a as i64)
                }
                Contact::Old(a) | Contact::Dead(a) => {
                    m.last_ok = Some(now - Span::milliseconds(*a as i64));
                    ok(*a as i64)
                }
                Contact::Slow(l) => {
                    m.last_ok = Some(now);
                    PingResult::Ok(PongEvent::default(), Duration::from_millis(*l as u64), now)
                }
                Contact::Timeout => PingResult::Timeout,
                Contact::Disconnected => PingResult::Disconnected,
                Contact::Err => PingResult::Err,
                Contact::Goodbye => {
                    for s in &syss {
                        if s.node_id() != id {
                            let _ = s.heartbeat().notify(NodeTerminated(id));
                        }
                    }
                    continue;
                }
            };
            for s in &syss {
                if s.node_id() != id {
                    let _ = s.heartbeat().notify(NodePing(id, ping.clone()));
                }
            }
            // let the answer be seen before it is replaced
            if matches!(contact, Contact::Fresh(_) | Contact::Old(_) | Contact::Dead(_) | Contact::Slow(_)) {
                for s in &syss {
                    ticks(s, 2).await?;
                }
            }
        }
        for s in &syss {
            ticks(s, 3).await?;
        }
        if begun.elapsed() > Duration::from_secs(5) {
            // ages no longer mean what they meant
            return Ok(CaseOut::default());
        }
        for (k, m) in members.iter_mut().enumerate().take(known) {
            let _ = k;
            let was_dead = m.expect == Expect::Dead && !std::mem::take(&mut m.answered);
            m.answered = false;
            m.expect = match m.contact {
                // only an answer brings it back
                Some(Contact::Err) | Some(Contact::Timeout) if was_dead => Expect::Dead,
                Some(Contact::Timeout) if m.dead => Expect::NotHealthy,
                None => Expect::NotHealthy,
                Some(Contact::Fresh(_)) => Expect::Healthy,
                Some(Contact::Old(_)) | Some(Contact::Slow(_)) => Expect::Unhealthy,
                Some(Contact::Dead(_)) | Some(Contact::Disconnected) | Some(Contact::Goodbye) => Expect::Dead,
                Some(Contact::Err) => Expect::NotHealthy,
                Some(Contact::Timeout) => match m.last_ok {
                    None => Expect::NotHealthy,
                    // no generated age lies within 5 s of the limit
                    Some(t) if Utc::now() - t >= Span::seconds(TERMINATED as i64 - 1) => Expect::Dead,
                    Some(_) => Expect::Unhealthy,
                },
            };
        }
        let mut named = vec![];
        for (i, s) in syss.iter().enumerate() {
            let table: BTreeMap<NodeId, RemoteNodeState> = s.get_nodes().await.into_iter().map(|n| (n.id, n)).collect();
            ensure!(table.len() == known, "node {} knows {} members, was told of {known}", s.node_id(), table.len());
            let mut healthy = vec![];
            for k in 0..known {
                let id = c.nodes[k].id;
                let e = if k == i { Expect::Healthy } else { members[k].expect };
                let Some(t) = table.get(&id) else {
                    return Err(Fail::Safety(format!("node {} lost member {id}", s.node_id())));
                };
                ensure!(
                    e.allows(t.status),
                    "round {r}: node {} counts member {id} as {:?}; its contact so far ({:?}, last answer {:?}) makes it {e:?}",
                    s.node_id(), t.status, members[k].contact, members[k].last_ok
                );
                ensure!(
                    t.addr == format!("10.0.0.{k}:1") && t.tag == format!("tag-{k}") && t.node_started_at == Some(start(&c.nodes[k])),
                    "node {} holds wrong facts on member {id}: {t:?}", s.node_id()
                );
                if e == Expect::Healthy {
                    healthy.push(k);
                    some_up |= k != i;
                } else {
                    some_down = true;
                }
            }
            let oldest = healthy.iter().map(|k| c.nodes[*k].started).min().unwrap();
            let candidates: BTreeSet<NodeId> = healthy.iter().filter(|k| c.nodes[**k].started == oldest).map(|k| c.nodes[*k].id).collect();
            tie |= candidates.len() > 1;
            let leader = s.current_leader();
            ensure!(
                leader.map_or(false, |l| candidates.contains(&l)),
                "round {r}: node {} names {leader:?} as the leader; the oldest healthy members are {candidates:?}", s.node_id()
            );
            leaders_seen[i].insert(leader.unwrap());
            handover |= leaders_seen[i].len() > 1;
            named.push((healthy.clone(), leader));
            up_allowed[i] |= c.min.map_or(true, |m| healthy.len() >= m as usize);
            let h = heard[i].clone();
            cluster::eventually(
                || format!("node {}: the last announced leader is the current one, {leader:?}, announced {:?}", s.node_id(), h.lock().leaders),
                || Ok(h.lock().leaders.last().copied() == leader),
            )
            .await?;
            if up_allowed[i] {
                cluster::eventually(|| format!("node {}: the cluster is announced as up with {} healthy members", s.node_id(), healthy.len()), || {
                    Ok(!h.lock().ups.is_empty())
                })
                .await?;
            }
        }
        // Intermediate states within a round may already have reached the minimum: every contact
        // within the round is a state of its own.
        if named[0].0 == named[1].0 {
            ensure!(named[0].1 == named[1].1, "round {r}: the same members are healthy, but the nodes name {:?} and {:?} as the leader", named[0].1, named[1].1);
        }
    }
    for i in 0..2 {
        let h = heard[i].lock();
        ensure!(h.ups.len() <= 1, "node {}: the cluster was announced as up {} times", syss[i].node_id(), h.ups.len());
        for (_, nodes) in &h.ups {
            ensure!(
                c.min.map_or(true, |m| nodes.len() >= m as usize),
                "node {}: the cluster was announced as up with {} nodes, configured minimum {:?}", syss[i].node_id(), nodes.len(), c.min
            );
        }
        // the most that can have been healthy at any time
        let most = 1 + (0..n).filter(|k| *k != i && c.rounds.iter().flatten().any(|(x, ct)| *x as usize % n == *k && matches!(ct, Contact::Fresh(_)))).count();
        if let Some(m) = c.min {
            ensure!(
                m as usize <= most || h.ups.is_empty(),
                "node {}: the cluster was announced as up although at most {most} members were ever healthy, configured minimum {m}", syss[i].node_id()
            );
        }
    }
    for s in &syss {
        let _ = tokio::time::timeout(Duration::from_secs(2), s.actor_system().shutdown()).await;
    }
    Ok(CaseOut::new(some_up && some_down).label(tie, "equal-start-times").label(handover, "leader-changed").label(c.nodes.iter().any(|n| n.id >= 1 << 63), "huge-id"))
}

// ---------------------------------------------------------------------------------------------
// real nodes, each on a runtime of its own so that it can be killed or frozen

struct Live {
    rt: Option<tokio::runtime::Runtime>,
    sys: RemoteActorSystem,
    server: Option<RemoteServer>,
    addr: String,
    tag: String,
    attrs: BTreeMap<String, String>,
    thaw: Option<std::sync::mpsc::Sender<()>>,
}
impl Drop for Live {
    fn drop(&mut self) {
        self.thaw.take();
        if let Some(rt) = self.rt.take() {
            rt.shutdown_background();
        }
    }
}
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Plan {
    id: u64,
    tag: String,
    attrs: Vec<(String, String)>,
    /// listens on all addresses and is known under another one
    external: bool,
}
fn launch(p: &Plan, hb: HeartbeatConfig) -> Live {
    let rt = vf::rt::threads(1);
    let plan = p.clone();
    let sys = std::thread::scope(|t| {
        t.spawn(|| {
            rt.block_on(async move {
                cluster::system_with(
                    plan.id,
                    &plan.tag,
                    |mut b| {
                        for (k, v) in &plan.attrs {
                            b = b.attribute(k, v);
                        }
                        b
                    },
                    move |b| b.heartbeat(hb),
                )
                .await
            })
        })
        .join()
        .expect("system")
    });
    Live {
        rt: Some(rt),
        sys,
        server: None,
        addr: cluster::fresh_addr(),
        tag: p.tag.clone(),
        attrs: p.attrs.iter().cloned().collect(),
        thaw: None,
    }
}
/// starts listening and joins
fn open(l: &Live, external: bool, seed: Option<String>) -> tokio::task::JoinHandle<RemoteServer> {
    let sys = l.sys.clone();
    let addr = l.addr.clone();
    l.rt.as_ref().unwrap().spawn(async move {
        let mut w = sys.cluster_worker();
        if external {
            // reachable as addr, but told to listen on all addresses of that port
            let port = addr.rsplit(':').next().unwrap().to_string();
            w = w.listen_addr(format!("{}:{port}", addr.rsplit(':').nth(1).unwrap())).external_addr(addr);
        } else {
            w = w.listen_addr(addr);
        }
        if let Some(s) = seed {
            w = w.with_seed_addr(s);
        }
        w.start().await
    })
}

type Facts = (u64, String, String, BTreeMap<String, String>, Option<DateTime<Utc>>);
fn facts(n: &RemoteNodeState) -> Facts {
    (n.id, n.addr.clone(), n.tag.clone(), n.attributes.iter().map(|(k, v)| (k.to_string(), v.to_string())).collect(), n.node_started_at)
}
fn truth(l: &Live) -> Facts {
    (l.sys.node_id(), l.addr.clone(), l.tag.clone(), l.attrs.clone(), Some(*l.sys.started_at()))
}

async fn nodes_of(l: &Live) -> Vec<RemoteNodeState> {
    // a frozen or dying node may not answer
    match tokio::time::timeout(Duration::from_secs(5), l.sys.get_nodes()).await {
        Ok(n) => n,
        Err(_) => vec![],
    }
}

/// every node of `live` holds exactly the true facts on all of them, healthy, and `gone` not healthy
async fn settled(live: &[&Live], gone: &[u64], limit: Duration) -> Result<(), Fail> {
    let mut want: Vec<Facts> = live.iter().map(|l| truth(l)).collect();
    want.sort();
    let leader = live.iter().min_by_key(|l| *l.sys.started_at()).map(|l| l.sys.node_id());
    let t = Instant::now();
    loop {
        let mut wrong = None;
        for l in live {
            let all = nodes_of(l).await;
            let mut up: Vec<Facts> = all.iter().filter(|n| n.status == NodeStatus::Healthy).map(facts).collect();
            up.sort();
            if up != want {
                wrong = Some(format!("node {} counts as healthy {up:?}, the live members are {want:?}", l.sys.node_id()));
                break;
            }
            let extra: Vec<u64> = all.iter().map(|n| n.id).filter(|i| !want.iter().any(|w| w.0 == *i) && !gone.contains(i)).collect();
            if !extra.is_empty() {
                return Err(Fail::Safety(format!("node {} lists members {extra:?} which never existed", l.sys.node_id())));
            }
            if let Some(n) = all.iter().find(|n| gone.contains(&n.id) && n.status != NodeStatus::Terminated) {
                wrong = Some(format!("node {} counts {}, which has left, as {:?}", l.sys.node_id(), n.id, n.status));
                break;
            }
            if l.sys.current_leader() != leader {
                wrong = Some(format!("node {} names {:?} as the leader, the oldest live member is {leader:?}", l.sys.node_id(), l.sys.current_leader()));
                break;
            }
        }
        match wrong {
            None => return Ok(()),
            Some(w) if t.elapsed() > limit => return Err(Fail::Deadline(format!("after {limit:?}: {w}"))),
            _ => tokio::time::sleep(Duration::from_millis(20)).await,
        }
    }
}

fn plan() -> impl Strategy<Value = Plan> {
    (node_id(), "[a-zA-Z0-9 _/.-]{1,12}|\\PC{1,6}", prop::collection::vec(("[a-z]{1,4}", "\\PC{0,6}"), 0..3), prop::bool::weighted(0.2))
        .prop_map(|(id, tag, attrs, external)| Plan { id, tag, attrs, external })
}
fn plans(n: std::ops::Range<usize>) -> impl Strategy<Value = Vec<Plan>> {
    prop::collection::vec(plan(), n).prop_map(|mut v| {
        let mut seen = BTreeSet::new();
        for (i, p) in v.iter_mut().enumerate() {
            while !seen.insert(p.id) {
                p.id = p.id.wrapping_add(97 + i as u64);
            }
        }
        v
    })
}

// (b)
#[derive(Debug, Clone, Serialize, Deserialize)]
struct FormCase {
    nodes: Vec<Plan>,
    /// node i+1 joins through a node up to i
    seeds: Vec<u8>,
    /// which nodes are started together with the one before (when their seed is already up)
    together: Vec<bool>,
    pauses: Vec<u8>,
    /// nodes that start on their own and are introduced to the others afterwards; the flag is the
    /// direction of the introduction
    alone: Vec<Option<bool>>,
    /// further introductions once everything runs
    intro: Vec<(u8, u8)>,
}
struct Formation;
impl Part for Formation {
    type Case = FormCase;
    fn name(&self) -> &'static str {
        "formation"
    }
    fn rule(&self) -> &'static str {
        "2-6 real nodes with generated ids, tags and attributes over loopback TCP, joining through a generated tree of seeds, one after the other or several at once, with further introductions in between; all nodes have to end up with the same, true member table and the oldest node as the leader; non-trivial: at least 3 nodes"
    }
    fn cases(&self, tier: Tier) -> u32 {
        match tier {
            Tier::Quick => 1200,
            Tier::Thorough => 20000,
        }
    }
    fn shards(&self) -> u32 {
        16
    }
    fn shrink_budget(&self) -> (u32, Duration) {
        (25, Duration::from_secs(120))
    }
    fn confirmations(&self) -> u32 {
        1
    }
    fn strategy(&self, _t: Tier) -> BoxedStrategy<FormCase> {
        (
            plans(2..7),
            prop::collection::vec(any::<u8>(), 6),
            prop::collection::vec(any::<bool>(), 6),
            prop::collection::vec(prop_oneof![3 => Just(0u8), 1 => 0u8..60], 6),
            prop::collection::vec(prop::option::weighted(0.25, any::<bool>()), 6),
            prop::collection::vec((any::<u8>(), any::<u8>()), 0..3),
        )
            .prop_map(|(nodes, seeds, together, pauses, alone, intro)| FormCase { nodes, seeds, together, pauses, alone, intro })
            .boxed()
    }
    fn per_process(&self) -> u32 {
        1500
    }
    fn check(&self, c: &FormCase) -> CaseResult {
        cluster::run(1, form(c))
    }
}

fn quick_heartbeat() -> HeartbeatConfig {
    HeartbeatConfig {
        interval: Duration::from_millis(60),
        ping_timeout: Duration::from_secs(8),
        unhealthy_node_heartbeat_timeout: Duration::from_secs(8),
        terminated_node_heartbeat_timeout: Duration::from_secs(30),
        minimum_cluster_size: None,
    }
}

async fn form(c: &FormCase) -> CaseResult {
    let mut live: Vec<Live> = vec![];
    for p in &c.nodes {
        live.push(launch(p, quick_heartbeat()));
    }
    let n = live.len();
    let mut ready = 0; // nodes below are up
    let mut concurrent = false;
    let mut i = 0;
    while i < n {
        // a batch: nodes whose seed is up
        let mut batch = vec![];
        while i < n {
            let seed = if i == 0 { None } else { Some(c.seeds[i - 1] as usize % i) };
            if !batch.is_empty() && (!c.together[i - 1] || seed.map_or(true, |s| s >= ready)) {
                break;
            }
            let seed = if i > 0 && c.alone[i - 1].is_some() { None } else { seed.map(|s| live[s].addr.clone()) };
            batch.push((i, open(&live[i], c.nodes[i].external, seed)));
            i += 1;
            if i == 1 {
                break;
            }
        }
        concurrent |= batch.len() > 1;
        for (k, b) in batch {
            match tokio::time::timeout(patience(), b).await {
                Ok(s) => live[k].server = Some(s.map_err(|e| Fail::Safety(format!("starting node {k} panicked: {e}")))?),
                Err(_) => return Err(Fail::Deadline(format!("node {} does not come up", live[k].sys.node_id()))),
            }
        }
        ready = i;
        tokio::time::sleep(Duration::from_millis(c.pauses[(i - 1) % 6] as u64)).await;
    }
    let mut intro: Vec<(u8, u8)> = c.intro.clone();
    for i in 1..n {
        if let Some(d) = c.alone[i - 1] {
            let s = c.seeds[i - 1] % i as u8;
            intro.push(if d { (s, i as u8) } else { (i as u8, s) });
        }
    }
    for (j, (a, b)) in intro.iter().enumerate() {
        tokio::time::sleep(Duration::from_millis(c.pauses[j % 6] as u64)).await;
        let (a, b) = (*a as usize % n, *b as usize % n);
        let addr = live[b].addr.clone();
        if a != b {
            let _ = live[a].sys.node_discovery().notify(Discover { seed: Seed::Addr(addr), on_discovery_complete: None });
        }
    }
    let all: Vec<&Live> = live.iter().collect();
    settled(&all, &[], patience()).await?;
    stop_all(live).await;
    Ok(CaseOut::new(n > 2).label(concurrent, "concurrent-joins").label(n > 4, "large").label(!c.intro.is_empty(), "introductions").label(c.alone[..n - 1].iter().any(|a| a.is_some()), "merged"))
}

async fn stop_all(live: Vec<Live>) {
    for l in &live {
        if let Some(s) = &l.server {
            s.stop();
        }
    }
    // dropping the runtimes ends the rest
}

// (c)
#[derive(Debug, Clone, Copy, Serialize, Deserialize, PartialEq)]
enum Leave {
    Shutdown,
    Crash,
    /// the process stops answering, its connections stay open
    Freeze,
    /// stops answering for so many ms, less than makes it unhealthy
    Hiccup(u16),
}
#[derive(Debug, Clone, Serialize, Deserialize)]
struct LeaveCase {
    nodes: Vec<Plan>,
    seeds: Vec<u8>,
    leave: Vec<(u8, Leave)>,
    pause: u8,
    /// a new node joins afterwards through a survivor
    newcomer: Option<Plan>,
    /// the newcomer is a departed node started again: same id, another address
    again: bool,
    /// it does not wait until the others have noticed who left
    #[serde(default)]
    early: bool,
}
struct Departures;
impl Part for Departures {
    type Case = LeaveCase;
    fn name(&self) -> &'static str {
        "departures"
    }
    fn rule(&self) -> &'static str {
        "3-5 real nodes, each on a runtime of its own; one or two of them are shut down, killed, frozen with their connections open, or frozen for a moment, in a generated order, possibly followed by a newcomer; the survivors have to keep each other, drop exactly the departed ones - a frozen one not before the configured time - and agree on the oldest survivor; non-trivial: somebody left for good"
    }
    fn cases(&self, tier: Tier) -> u32 {
        match tier {
            Tier::Quick => 160,
            Tier::Thorough => 3000,
        }
    }
    fn shards(&self) -> u32 {
        16
    }
    fn shrink_budget(&self) -> (u32, Duration) {
        (15, Duration::from_secs(120))
    }
    fn confirmations(&self) -> u32 {
        1
    }
    fn strategy(&self, _t: Tier) -> BoxedStrategy<LeaveCase> {
        let leave = prop_oneof![
            2 => Just(Leave::Shutdown),
            2 => Just(Leave::Crash),
            2 => Just(Leave::Freeze),
            1 => (0u16..600).prop_map(Leave::Hiccup),
        ];
        (
            plans(4..6),
            prop::collection::vec(any::<u8>(), 6),
            prop::collection::vec((any::<u8>(), leave), 1..3),
            0u8..50,
            any::<bool>(),
            any::<bool>(),
            any::<bool>(),
            3usize..5,
        )
            .prop_map(|(mut nodes, seeds, leave, pause, fresh, again, early, n)| {
                let newcomer = if fresh { nodes.pop() } else { None };
                nodes.truncate(n);
                LeaveCase { nodes, seeds, leave, pause, newcomer, again, early }
            })
            .boxed()
    }
    fn per_process(&self) -> u32 {
        1500
    }
    fn check(&self, c: &LeaveCase) -> CaseResult {
        cluster::run(1, depart(c))
    }
}

const SILENT_DEAD: Duration = Duration::from_secs(4);

async fn depart(c: &LeaveCase) -> CaseResult {
    let hb = HeartbeatConfig {
        interval: Duration::from_millis(80),
        ping_timeout: Duration::from_millis(700),
        unhealthy_node_heartbeat_timeout: Duration::from_secs(2),
        terminated_node_heartbeat_timeout: SILENT_DEAD,
        minimum_cluster_size: None,
    };
    let mut live: Vec<Live> = vec![];
    for (i, p) in c.nodes.iter().enumerate() {
        let l = launch(p, hb.clone());
        let seed = if i == 0 { None } else { Some(live[c.seeds[i - 1] as usize % i].addr.clone()) };
        let s = open(&l, p.external, seed);
        live.push(l);
        match tokio::time::timeout(patience(), s).await {
            Ok(s) => live[i].server = Some(s.map_err(|e| Fail::Safety(format!("starting node {i} panicked: {e}")))?),
            Err(_) => return Err(Fail::Deadline(format!("node {i} does not come up"))),
        }
    }
    settled(&live.iter().collect::<Vec<_>>(), &[], patience()).await?;
    let mut gone: Vec<u64> = vec![];
    let mut frozen: Vec<(u64, Instant)> = vec![];
    let mut graves = vec![];
    let mut hiccups = false;
    for (k, how) in &c.leave {
        if live.len() < 2 {
            break;
        }
        let k = *k as usize % live.len();
        match how {
            Leave::Shutdown => {
                let mut l = live.remove(k);
                gone.push(l.sys.node_id());
                let sys = l.sys.actor_system().clone();
                l.server.take().map(|s| s.stop());
                let j = l.rt.as_ref().unwrap().spawn(async move { sys.shutdown().await });
                if tokio::time::timeout(patience(), j).await.is_err() {
                    return Err(Fail::Deadline(format!("node {} does not shut down", l.sys.node_id())));
                }
                graves.push(l);
            }
            Leave::Crash => {
                let mut l = live.remove(k);
                gone.push(l.sys.node_id());
                l.rt.take().unwrap().shutdown_background();
                graves.push(l);
            }
            Leave::Freeze => {
                let mut l = live.remove(k);
                gone.push(l.sys.node_id());
                let (tx, rx) = std::sync::mpsc::channel::<()>();
                let (ftx, frx) = tokio::sync::oneshot::channel();
                l.rt.as_ref().unwrap().spawn(async move {
                    let _ = ftx.send(Instant::now());
                    let _ = rx.recv();
                });
                let at = frx.await.map_err(|_| Fail::Safety("runtime gone".into()))?;
                frozen.push((l.sys.node_id(), at));
                l.thaw = Some(tx);
                graves.push(l);
            }
            Leave::Hiccup(ms) => {
                hiccups = true;
                let ms = *ms as u64;
                live[k].rt.as_ref().unwrap().spawn(async move { std::thread::sleep(Duration::from_millis(ms)) });
            }
        }
        tokio::time::sleep(Duration::from_millis(c.pause as u64)).await;
    }
    // watch until everyone agrees
    let watched = Instant::now();
    let ids: BTreeSet<u64> = live.iter().map(|l| l.sys.node_id()).collect();
    let mut dead: BTreeSet<(u64, u64)> = BTreeSet::new();
    let limit = SILENT_DEAD + patience();
    let early = c.early && c.newcomer.is_some() && frozen.is_empty();
    while !early {
        let mut done = true;
        for l in &live {
            for s in nodes_of(l).await {
                if ids.contains(&s.id) {
                    if s.status == NodeStatus::Terminated {
                        return Err(Fail::Deadline(format!("node {} declares member {} dead although it answers", l.sys.node_id(), s.id)));
                    }
                } else if s.status == NodeStatus::Terminated {
                    if let Some((_, at)) = frozen.iter().find(|f| f.0 == s.id) {
                        let since = at.elapsed();
                        // one answer may have been under way when it froze
                        ensure!(
                            since + Duration::from_millis(300) >= SILENT_DEAD,
                            "node {} declares the silent member {} dead after {since:?}, configured are {SILENT_DEAD:?}", l.sys.node_id(), s.id
                        );
                    }
                    dead.insert((l.sys.node_id(), s.id));
                }
            }
            done &= gone.iter().all(|g| dead.contains(&(l.sys.node_id(), *g)));
        }
        if done {
            break;
        }
        if watched.elapsed() > limit {
            return Err(Fail::Deadline(format!("after {limit:?} not every survivor counts the departed members {gone:?} as dead: {dead:?} (survivor, dead)")));
        }
        tokio::time::sleep(Duration::from_millis(20)).await;
    }
    if !early {
        settled(&live.iter().collect::<Vec<_>>(), &gone, patience()).await?;
    }
    let mut joined = false;
    let mut again = false;
    if let Some(p) = &c.newcomer {
        let mut p = p.clone();
        if c.again && !early && !frozen.iter().any(|f| Some(&f.0) == gone.first()) {
            if let Some(id) = gone.first().copied() {
                gone.retain(|g| *g != id);
                p.id = id;
                again = true;
            }
        }
        let p = &p;
        if !ids.contains(&p.id) && !gone.contains(&p.id) {
            joined = true;
            let seed = live[c.seeds[5] as usize % live.len()].addr.clone();
            let mut l = launch(p, hb.clone());
            let s = open(&l, p.external, Some(seed));
            match tokio::time::timeout(patience(), s).await {
                Ok(s) => l.server = Some(s.map_err(|e| Fail::Safety(format!("starting the newcomer panicked: {e}")))?),
                Err(_) => return Err(Fail::Deadline("the newcomer does not come up".to_string())),
            }
            live.push(l);
            settled(&live.iter().collect::<Vec<_>>(), &gone, patience()).await?;
        }
    }
    stop_all(live).await;
    Ok(CaseOut::new(!gone.is_empty() || again)
        .label(!frozen.is_empty(), "frozen")
        .label(hiccups, "hiccup")
        .label(joined, "newcomer")
        .label(joined && early, "at once")
        .label(again, "same-id-again")
        .label(gone.len() > 1, "two-left"))
}

pub fn run() {
    let mut r = Runner::from_args("C17");
    r.assume("the clock of the machine is not set while the check runs; nodes share this process and communicate over loopback TCP");
    r.part(HeartbeatModel).part(Formation).part(Departures).part(crate::heal::Heal).finish()
}
