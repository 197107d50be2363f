//! Actors, health, statistics and members of a small cluster.
use crate::http::get;
use coerce::actor::context::ActorContext;
use coerce::actor::message::{Handler, Message, MessageUnwrapErr, MessageWrapErr};
use coerce::actor::scheduler::ActorType;
use coerce::actor::{Actor, ActorTags, BoxedActorRef, CoreActorRef, LocalActorRef, ToActorId};
use coerce::remote::api::builder::HttpApiBuilder;
use coerce::remote::api::cluster::ClusterApi;
use coerce::remote::api::system::SystemApi;
use coerce::remote::cluster::node::{NodeStatus, RemoteNodeState};
use coerce::remote::heartbeat::Heartbeat;
use coerce::remote::system::RemoteActorSystem;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;
use std::time::{Duration, Instant};
use tokio::sync::Semaphore;
use vf::cluster::{self, patience, soon, Node};
use vf::*;

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Spec {
    /// suffix of the id
    id: String,
    tags: Option<Vec<String>>,
    attached: bool,
    kids: Vec<Spec>,
}
#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum Op {
    Create(Spec),
    Untracked(Spec),
    /// stop one of the created ones
    Stop(u8),
    /// stop a child of one of them
    StopKid(u8),
    Probe(u8),
    Unprobe(u8),
    Actors(Option<u8>, Option<u8>, bool),
    Stats,
    Health,
    Nodes,
    /// what there is no route for
    Nowhere(String),
    /// requests kept open to an actor of the other node
    Hold(u8),
    Release,
    /// several requests at once
    Burst(u8),
    Leave,
}
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Case {
    nodes: usize,
    attributes: Vec<(String, String)>,
    ops: Vec<Op>,
}

struct A {
    tags: Option<Vec<String>>,
    kids: Vec<(String, Spec)>,
}
fn name(n: usize, s: &Spec) -> String {
    format!("r{n}{}", s.id)
}
fn kid_name(n: usize, s: &Spec) -> String {
    format!("k{n}{}", s.id)
}
fn actor(s: &Spec) -> A {
    A { tags: s.tags.clone(), kids: s.kids.iter().enumerate().map(|(i, k)| (kid_name(i, k), k.clone())).collect() }
}
#[vf::async_trait]
impl Actor for A {
    async fn started(&mut self, ctx: &mut ActorContext) {
        match &self.tags {
            None => {}
            Some(t) if t.len() == 1 => ctx.set_tags(ActorTags::from(t[0].clone())),
            Some(t) => ctx.set_tags(ActorTags::from(t.clone())),
        }
        for (id, k) in std::mem::take(&mut self.kids) {
            if k.attached {
                let sys = ctx.system().clone();
                let r = sys.new_actor(id.to_actor_id(), actor(&k), ActorType::Anonymous).await.expect("spawn");
                ctx.attach_child_ref(r.into());
            } else {
                ctx.spawn(id.to_actor_id(), actor(&k)).await.expect("spawn");
            }
        }
    }
}
struct StopKid(usize);
impl Message for StopKid {
    type Result = Option<String>;
}
#[vf::async_trait]
impl Handler<StopKid> for A {
    async fn handle(&mut self, m: StopKid, ctx: &mut ActorContext) -> Option<String> {
        let mut kids: Vec<(String, BoxedActorRef)> = ctx.supervised()?.children.iter().filter(|k| !k.1.is_attached()).map(|k| (k.0.to_string(), k.1.actor_ref().clone())).collect();
        if kids.is_empty() {
            return None;
        }
        kids.sort_by(|a, b| a.0.cmp(&b.0));
        let (id, r) = kids.remove(m.0 % kids.len());
        r.stop().await.ok()?;
        Some(id)
    }
}

struct Holder {
    gate: Arc<Semaphore>,
}
impl Actor for Holder {}
#[derive(Serialize, Deserialize)]
struct Wait;
impl Message for Wait {
    type Result = ();
    fn as_bytes(&self) -> Result<Vec<u8>, MessageWrapErr> {
        Ok(vec![])
    }
    fn from_bytes(_: Vec<u8>) -> Result<Self, MessageUnwrapErr> {
        Ok(Wait)
    }
    fn read_remote_result(_: Vec<u8>) -> Result<(), MessageUnwrapErr> {
        Ok(())
    }
    fn write_remote_result(_: ()) -> Result<Vec<u8>, MessageWrapErr> {
        Ok(vec![])
    }
}
#[vf::async_trait]
impl Handler<Wait> for Holder {
    async fn handle(&mut self, _: Wait, _: &mut ActorContext) {
        let _ = self.gate.acquire().await.map(|p| p.forget());
    }
}

/// how far from the requests made here the number of requests under way may be (heartbeats)
const SLACK: i64 = 8;

struct Api {
    sys: RemoteActorSystem,
    addr: String,
    me: Node,
    others: Vec<Node>,
    attributes: BTreeMap<String, String>,
    /// tracked actors that were there before
    base: BTreeSet<String>,
    probes: BTreeSet<String>,
    made: Vec<Made>,
    held: Vec<tokio::task::JoinHandle<Result<(), coerce::actor::ActorRefErr>>>,
    gate: Arc<Semaphore>,
}
struct Made {
    id: String,
    spec: Spec,
    r: LocalActorRef<A>,
    tracked: bool,
    alive: bool,
    probed: bool,
    gone: BTreeSet<String>,
}

fn tags(t: &Option<Vec<String>>) -> Value {
    match t {
        None => json!("None"),
        Some(t) if t.len() == 1 => json!({ "Tag": t[0] }),
        Some(t) => json!({ "Tags": t }),
    }
}

fn tree(at: &str, got: &Value, id: &str, path: &str, s: &Spec, system: &str, gone: &BTreeSet<String>, level: usize, depth: Option<u8>, children: Option<u8>, attached: bool) -> Result<usize, Fail> {
    ensure!(got["actor_id"] == json!(id) && got["path"] == json!(path), "{at}: actor {path} ({id}) is described as {} ({})", got["path"], got["actor_id"]);
    ensure!(got["status"] == json!("Ok"), "{at}: {path}, which is running, is described with the status {}", got["status"]);
    ensure!(got["actor_type_name"] == json!(A::type_name()), "{at}: {path} is described as a {}", got["actor_type_name"]);
    ensure!(got["actor_context_id"].is_u64(), "{at}: {path} is described with the context {}", got["actor_context_id"]);
    let mut own = got["tags"].clone();
    let mut want = tags(&s.tags);
    // several tags are a set
    for t in [&mut own, &mut want] {
        if let Some(t) = t.get_mut("Tags").and_then(|t| t.as_array_mut()) {
            t.sort_by_key(|v| v.to_string());
            t.dedup();
        }
    }
    ensure!(own == want, "{at}: {path} is described with the tags {own}, it has {want}");
    let mut want: BTreeMap<String, &Spec> = BTreeMap::new();
    if depth.map_or(true, |d| level + 1 <= d as usize) {
        for (i, k) in s.kids.iter().enumerate() {
            if (attached || !k.attached) && !(level == 1 && gone.contains(&kid_name(i, k))) {
                want.insert(kid_name(i, k), k);
            }
        }
    }
    let none = vec![];
    let got = got["supervised"]["actors"].as_array().unwrap_or(&none);
    let n = children.map_or(usize::MAX, |c| c as usize).min(want.len());
    ensure!(got.len() == n, "{at}: {path} has the children {:?}, {} are described (limit {children:?})", want.keys().collect::<Vec<_>>(), got.len());
    let mut seen = 1;
    for g in got {
        let id = g["actor_id"].as_str().unwrap_or("").to_string();
        let k = want.remove(&id);
        ensure!(k.is_some(), "{at}: {path} is described with the child {id:?} (once too often)");
        let k = k.unwrap();
        let base = if k.attached { system } else { path };
        seen += tree(at, g, &id, &format!("{base}/{id}"), k, system, gone, level + 1, depth, children, attached)?;
    }
    Ok(seen)
}

fn status(s: &NodeStatus) -> &'static str {
    match s {
        NodeStatus::Joining => "Joining",
        NodeStatus::Healthy => "Healthy",
        NodeStatus::Unhealthy => "Unhealthy",
        NodeStatus::Terminated => "Terminated",
    }
}
/// what does not change with every heartbeat
fn members(n: &[RemoteNodeState]) -> BTreeMap<u64, Value> {
    n.iter()
        .map(|n| {
            let a: BTreeMap<String, String> = n.attributes.iter().map(|(k, v)| (k.to_string(), v.to_string())).collect();
            (n.id, json!({"id": n.id, "addr": n.addr, "tag": n.tag, "status": status(&n.status), "attributes": a, "node_started_at": serde_json::to_value(n.node_started_at).unwrap()}))
        })
        .collect()
}
fn api_members(at: &str, v: &Value) -> Result<BTreeMap<u64, Value>, Fail> {
    let mut m = BTreeMap::new();
    for n in v.as_array().ok_or_else(|| Fail::Safety(format!("{at}: no nodes in {v}")))? {
        let mut n = n.clone();
        n.as_object_mut().unwrap().remove("ping_latency");
        n.as_object_mut().unwrap().remove("last_heartbeat");
        let id = n["id"].as_u64().unwrap_or(u64::MAX);
        ensure!(m.insert(id, n).is_none(), "{at}: node {id} is listed twice");
    }
    Ok(m)
}

impl Api {
    async fn json(&self, path: &str) -> Result<Value, Fail> {
        get(&self.addr, path).await?.json(path)
    }
    fn tracked(&self) -> BTreeMap<String, &Made> {
        self.made.iter().filter(|m| m.tracked && m.alive).map(|m| (m.id.clone(), m)).collect()
    }
    async fn actors(&self, depth: Option<u8>, children: Option<u8>, attached: bool) -> Result<usize, Fail> {
        let mut q = vec![];
        if let Some(d) = depth {
            q.push(format!("max_depth={d}"));
        }
        if let Some(c) = children {
            q.push(format!("max_children={c}"));
        }
        if !attached {
            q.push("child_describe_attached=false".into());
        }
        let path = format!("/actors/all{}{}", if q.is_empty() { "" } else { "?" }, q.join("&"));
        let v = self.json(&path).await?;
        let mut want = self.tracked();
        let mut base = self.base.clone();
        let system = self.sys.actor_system().system_name().to_string();
        let mut seen = 0;
        for a in v["actors"].as_array().ok_or_else(|| Fail::Safety(format!("{path}: {v}")))? {
            let id = a["actor_id"].as_str().unwrap_or("");
            if let Some(m) = want.remove(id) {
                seen += tree(&path, a, id, &format!("{system}/{id}"), &m.spec, &system, &m.gone, 1, depth, children, attached)?;
            } else {
                ensure!(base.remove(id) || a["actor_type_name"].as_str().unwrap_or("").contains("ActorScheduler"), "{path}: actor {id:?} is listed (once too often), which is not running: {a}");
            }
        }
        ensure!(want.is_empty(), "{path}: the running actors {:?} are not listed", want.keys().collect::<Vec<_>>());
        Ok(seen)
    }
    async fn stats(&self) -> Result<(), Fail> {
        let held = self.held.len() as i64;
        let t = Instant::now();
        loop {
            let v = self.json("/system/stats").await?;
            let n = self.base.len() + self.tracked().len();
            ensure!(v["total_tracked_actors"] == json!(n), "/system/stats counts {} tracked actors, there are {n}", v["total_tracked_actors"]);
            let f = v["inflight_remote_requests"].as_i64().ok_or_else(|| Fail::Safety(format!("/system/stats: {v}")))?;
            if f >= held && f <= held + SLACK {
                return Ok(());
            }
            if t.elapsed() > patience() {
                return Err(Fail::Deadline(format!("/system/stats counts {f} requests under way, {held} are waiting for their reply")));
            }
            tokio::time::sleep(Duration::from_millis(20)).await;
        }
    }
    /// state that the cluster may change on its own: compared when it is the same before and after
    async fn nodes(&self, path: &str) -> Result<(), Fail> {
        let t = Instant::now();
        let mut stable = 0;
        loop {
            let (n1, l1) = (members(&self.sys.get_nodes().await), self.sys.current_leader());
            let v = self.json(path).await?;
            let (n2, l2) = (members(&self.sys.get_nodes().await), self.sys.current_leader());
            if n1 == n2 && l1 == l2 {
                let got = api_members(path, &v["nodes"])?;
                let leader = if path == "/health" { "current_leader" } else { "leader_node" };
                let same = got == n1 && v[leader] == json!(l1);
                stable += 1;
                if same {
                    ensure!(v["node_id"] == json!(self.sys.node_id()), "{path}: node {} calls itself {}", self.sys.node_id(), v["node_id"]);
                    if path == "/cluster/nodes" {
                        let ids: Vec<u64> = v["nodes"].as_array().unwrap().iter().map(|n| n["id"].as_u64().unwrap_or(0)).collect();
                        ensure!(ids.windows(2).all(|w| w[0] < w[1]), "{path}: the nodes are not in order: {ids:?}");
                        let tag = l1.map(|l| if l == self.me.sys.node_id() { self.me.sys.node_tag().to_string() } else { n1.get(&l).map_or(String::new(), |n| n["tag"].as_str().unwrap_or("").to_string()) });
                        ensure!(v["leader_node_tag"] == json!(tag), "{path}: the tag of the leader {l1:?} is given as {}, it is {tag:?}", v["leader_node_tag"]);
                    }
                    if let Some(me) = got.get(&self.me.sys.node_id()) {
                        let a: BTreeMap<String, String> = serde_json::from_value(me["attributes"].clone()).unwrap_or_default();
                        for (k, x) in &self.attributes {
                            ensure!(a.get(k) == Some(x), "{path}: this node's attribute {k:?} is {:?}, not {x:?}", a.get(k));
                        }
                    }
                    return Ok(());
                }
                // the answer is put together from several reads: only believed when it stays
                if stable > 5 {
                    return Err(Fail::Deadline(format!("{path} says leader {} and nodes {got:?}; the leader is {l1:?}, the nodes {n1:?}", v[leader])));
                }
            }
            if t.elapsed() > patience() {
                return Err(Fail::Deadline(format!("the members of the cluster keep changing: {n1:?} {n2:?}")));
            }
            tokio::time::sleep(Duration::from_millis(10)).await;
        }
    }
    async fn health(&self) -> Result<(), Fail> {
        let path = "/health";
        let t = Instant::now();
        loop {
            let v = self.json(path).await?;
            let times = v["actor_response_times"].as_object().ok_or_else(|| Fail::Safety(format!("{path}: {v}")))?;
            let mut want: BTreeMap<String, bool> = self.probes.iter().map(|p| (p.clone(), true)).collect();
            let system = self.sys.actor_system().system_name().to_string();
            for m in self.made.iter().filter(|m| m.probed) {
                // an actor that is gone is reported under the path it is given there
                want.insert(format!("{system}/{}", m.id), m.alive);
            }
            let got: BTreeSet<&String> = times.keys().collect();
            ensure!(got == want.keys().collect(), "{path} reports on {got:?}, the probed actors are {:?}", want.keys().collect::<Vec<_>>());
            for (k, up) in &want {
                ensure!(times[k].is_null() != *up, "{path} reports {k} as {}, it {}", times[k], if *up { "is running" } else { "has ended" });
            }
            let down = want.values().any(|u| !*u);
            ensure!(v["node_id"] == json!(self.sys.node_id()) && v["node_tag"] == json!(self.sys.node_tag()) && v["node_version"] == json!(self.sys.node_version()), "{path}: node {} is reported as {v}", self.sys.node_id());
            ensure!(v["node_started_at"] == serde_json::to_value(self.sys.started_at()).unwrap(), "{path}: the node is said to have started at {}", v["node_started_at"]);
            match (down, v["status"].as_str()) {
                (true, Some("Unhealthy")) | (false, Some("Healthy")) => break,
                // a slow machine
                (false, Some("Degraded")) if t.elapsed() < patience() => continue,
                (_, s) => return Err(Fail::Safety(format!("{path} is {s:?}, an actor that is probed {} ended", if down { "has" } else { "has not" }))),
            }
        }
        self.nodes(path).await
    }
}

async fn case(c: &Case) -> CaseResult {
    let gate = Arc::new(Semaphore::new(0));
    let attributes: BTreeMap<String, String> = c.attributes.iter().cloned().collect();
    let a = attributes.clone();
    let sys = cluster::system_with(
        1,
        "node-1",
        move |b| a.into_iter().fold(b, |b, (k, v)| b.attribute(k, v)),
        |b| b.heartbeat(cluster::heartbeat(60)).with_handler::<Holder, Wait>("Wait"),
    )
    .await;
    let addr = cluster::fresh_addr();
    let server = Some(cluster::serve(&sys, &addr, None).await);
    let me = Node { sys: sys.clone(), server, addr };
    let mut others = vec![];
    for i in 1..c.nodes {
        others.push(cluster::node(1 + i as u64, Some(&me.addr), |b| b.heartbeat(cluster::heartbeat(60)).with_handler::<Holder, Wait>("Wait")).await);
    }
    let mut all = vec![&me];
    all.extend(others.iter());
    cluster::converged(&all).await?;
    let far = match others.first() {
        Some(o) => Some(o.sys.actor_system().new_actor("holder", Holder { gate: gate.clone() }, ActorType::Tracked).await.map_err(|e| Fail::Safety(format!("{e:?}")))?),
        None => None,
    };
    drop(far);
    let http = cluster::fresh_addr();
    HttpApiBuilder::new().listen_addr(http.parse().unwrap()).routes(SystemApi::new(sys.clone())).routes(ClusterApi::new(sys.clone())).start(sys.actor_system()).await;
    let mut api = Api { sys: sys.clone(), addr: http, me, others, attributes, base: Default::default(), probes: Default::default(), made: vec![], held: vec![], gate };
    let v = api.json("/actors/all?max_depth=1").await?;
    for a in v["actors"].as_array().ok_or_else(|| Fail::Safety(format!("/actors/all: {v}")))? {
        if !a["actor_type_name"].as_str().unwrap_or("").contains("ActorScheduler") {
            api.base.insert(a["actor_id"].as_str().unwrap_or("").to_string());
        }
    }
    let v = api.json("/health").await?;
    api.probes = v["actor_response_times"].as_object().ok_or_else(|| Fail::Safety(format!("/health: {v}")))?.keys().cloned().collect();
    let (mut described, mut asked, mut left, mut most) = (0, 0, false, 0);
    for (n, op) in c.ops.iter().enumerate() {
        match op {
            Op::Create(s) | Op::Untracked(s) => {
                let tracked = matches!(op, Op::Create(_));
                let id = name(n, s);
                let ty = if tracked { ActorType::Tracked } else { ActorType::Anonymous };
                let r = soon(|| format!("creating {id}"), sys.actor_system().new_actor(id.to_actor_id(), actor(s), ty)).await?;
                let r = r.map_err(|e| Fail::Safety(format!("creating {id}: {e:?}")))?;
                api.made.push(Made { id, spec: s.clone(), r, tracked, alive: true, probed: false, gone: Default::default() });
            }
            Op::Stop(i) if !api.made.is_empty() => {
                let i = *i as usize % api.made.len();
                if api.made[i].alive {
                    let _ = soon(|| "stopping an actor".into(), api.made[i].r.stop()).await?;
                    api.made[i].alive = false;
                    if api.made[i].tracked {
                        // its removal from the index is asynchronous
                        let t = Instant::now();
                        while sys.actor_system().get_tracked_actor::<A>(api.made[i].id.to_actor_id()).await.is_some() && t.elapsed() < patience() {
                            tokio::time::sleep(Duration::from_millis(1)).await;
                        }
                    }
                }
            }
            Op::StopKid(i) if !api.made.is_empty() => {
                let i = *i as usize % api.made.len();
                if api.made[i].alive {
                    let r = soon(|| "stopping a child".into(), api.made[i].r.send(StopKid(n))).await?;
                    if let Ok(Some(k)) = r {
                        // the parent is told by a message of its own
                        let t = Instant::now();
                        loop {
                            let there = soon(|| "asking the parent".into(), api.made[i].r.send(HasKid(k.clone()))).await?;
                            if there == Ok(false) {
                                break;
                            }
                            if t.elapsed() > patience() {
                                return Err(Fail::Deadline(format!("{} is not told that its child {k} ended", api.made[i].id)));
                            }
                            tokio::time::sleep(Duration::from_millis(1)).await;
                        }
                        api.made[i].gone.insert(k);
                    }
                }
            }
            Op::Probe(i) if !api.made.is_empty() => {
                let i = *i as usize % api.made.len();
                if !api.made[i].probed {
                    Heartbeat::register(BoxedActorRef::from(api.made[i].r.clone()), &sys);
                    api.made[i].probed = true;
                }
            }
            Op::Unprobe(i) if !api.made.is_empty() => {
                let i = *i as usize % api.made.len();
                if api.made[i].probed {
                    Heartbeat::remove(&api.made[i].id.to_actor_id(), &sys);
                    api.made[i].probed = false;
                }
            }
            Op::Actors(d, k, a) => {
                described += api.actors(*d, *k, *a).await?;
                asked += 1;
            }
            Op::Stats => {
                api.stats().await?;
                asked += 1;
            }
            Op::Health => {
                api.health().await?;
                asked += 1;
            }
            Op::Nodes => {
                api.nodes("/cluster/nodes").await?;
                asked += 1;
            }
            Op::Nowhere(s) => {
                let p = format!("/{s}");
                let r = get(&api.addr, &p).await?;
                ensure!(r.status == 404, "GET {p} is answered with {}", r.status);
            }
            Op::Hold(k) if !api.others.is_empty() => {
                let far = coerce::remote::RemoteActorRef::<Holder>::new("holder".to_actor_id(), api.others[0].sys.node_id(), sys.clone());
                for _ in 0..*k {
                    let far = far.clone();
                    api.held.push(tokio::spawn(async move { coerce::actor::ActorRef::from(far).send(Wait).await }));
                }
                most = most.max(api.held.len());
            }
            Op::Release => {
                api.gate.add_permits(api.held.len());
                for h in api.held.drain(..) {
                    let r = soon(|| "a request to another node".into(), h).await?;
                    ensure!(matches!(r, Ok(Ok(()))), "a request to a running remote actor gives {r:?}");
                }
            }
            Op::Burst(k) => {
                let rs = futures::future::join_all((0..*k).map(|i| {
                    let api = &api;
                    async move {
                        match i % 4 {
                            0 => api.actors(None, None, true).await.map(|_| ()),
                            1 => api.stats().await,
                            2 => api.health().await,
                            _ => api.nodes("/cluster/nodes").await,
                        }
                    }
                }))
                .await;
                for r in rs {
                    r?;
                }
                asked += *k as usize;
            }
            Op::Leave if api.others.len() > 1 || (api.others.len() == 1 && api.held.is_empty()) => {
                let o = api.others.pop().unwrap();
                cluster::teardown(vec![o]).await;
                left = true;
                // whatever the members are by now, the API has to say the same
                api.nodes("/cluster/nodes").await?;
            }
            _ => {}
        }
    }
    // everything once more at the end
    described += api.actors(None, None, true).await?;
    api.stats().await?;
    api.health().await?;
    api.nodes("/cluster/nodes").await?;
    api.gate.add_permits(100_000);
    let Api { me, others, .. } = api;
    let mut all = others;
    all.push(me);
    cluster::teardown(all).await;
    Ok(CaseOut::new(described > 1 && asked > 0).label(left, "node left").label(most > 0, "requests under way").label(c.nodes > 1, "several nodes"))
}
struct HasKid(String);
impl Message for HasKid {
    type Result = bool;
}
#[vf::async_trait]
impl Handler<HasKid> for A {
    async fn handle(&mut self, m: HasKid, ctx: &mut ActorContext) -> bool {
        ctx.supervised().map_or(false, |s| s.children.keys().any(|k| k.to_string() == m.0))
    }
}

fn text() -> impl Strategy<Value = String> {
    prop_oneof![4 => "[a-z]{0,4}", 1 => "[\"\\\\{}, é\u{1}\u{7f}\n]{0,4}", 1 => "\\PC{0,4}"]
}
fn spec() -> BoxedStrategy<Spec> {
    let leaf = (text(), prop::option::of(prop::collection::vec(text(), 0..4)), any::<bool>()).prop_map(|(id, tags, attached)| Spec { id, tags, attached, kids: vec![] });
    leaf.prop_recursive(3, 8, 3, |inner| {
        (text(), prop::option::of(prop::collection::vec(text(), 0..4)), prop::bool::weighted(0.2), prop::collection::vec(inner, 0..4)).prop_map(|(id, tags, attached, kids)| Spec { id, tags, attached, kids })
    })
    .boxed()
}

pub struct System;
impl Part for System {
    type Case = Case;
    fn name(&self) -> &'static str {
        "system"
    }
    fn rule(&self) -> &'static str {
        "1-3 real nodes, the first with the HTTP API; trees of tracked and untracked actors with arbitrary ids and tags are created, stopped and probed, requests kept under way to another node, nodes leave; /actors/all (with limits), /system/stats, /health and /cluster/nodes, alone and concurrently, are compared with a model of the actors and the node's own view of the members; other paths get 404; non-trivial: an actor made here was described and something asked in between"
    }
    fn cases(&self, tier: Tier) -> u32 {
        match tier {
            Tier::Quick => 3000,
            Tier::Thorough => 60000,
        }
    }
    fn shards(&self) -> u32 {
        16
    }
    fn per_process(&self) -> u32 {
        1000
    }
    fn shrink_budget(&self) -> (u32, Duration) {
        (60, Duration::from_secs(120))
    }
    fn strategy(&self, _t: Tier) -> BoxedStrategy<Case> {
        let limit = || prop::option::of(prop_oneof![0u8..4, any::<u8>()]);
        let op = prop_oneof![
            8 => spec().prop_map(Op::Create),
            2 => spec().prop_map(Op::Untracked),
            3 => any::<u8>().prop_map(Op::Stop),
            2 => any::<u8>().prop_map(Op::StopKid),
            2 => any::<u8>().prop_map(Op::Probe),
            1 => any::<u8>().prop_map(Op::Unprobe),
            4 => (limit(), limit(), any::<bool>()).prop_map(|(a, b, c)| Op::Actors(a, b, c)),
            2 => Just(Op::Stats),
            2 => Just(Op::Health),
            2 => Just(Op::Nodes),
            1 => "x[a-z/]{0,6}".prop_map(Op::Nowhere),
            2 => (1u8..40).prop_map(Op::Hold),
            1 => Just(Op::Release),
            1 => (2u8..9).prop_map(Op::Burst),
            1 => Just(Op::Leave),
        ];
        (prop_oneof![3 => Just(1usize), 2 => Just(2usize), 1 => Just(3usize)], prop::collection::vec((text(), text()), 0..3), prop::collection::vec(op, 1..14)).prop_map(|(nodes, attributes, ops)| Case { nodes, attributes, ops }).boxed()
    }
    fn check(&self, c: &Case) -> CaseResult {
        cluster::run(2, case(c))
    }
}
