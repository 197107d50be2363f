//! What the API says about sharding, on every node of a cluster, while nodes come and go.
use crate::http::get;
use crate::world::{name, owners, Ent, Kind, Live, Op, Req, World};
use coerce::remote::api::builder::HttpApiBuilder;
use coerce::remote::api::cluster::ClusterApi;
use coerce::remote::api::sharding::ShardingApi;
use coerce::remote::api::system::SystemApi;
use coerce::sharding::coordinator::stats::ShardingStats;
use coerce::sharding::coordinator::ShardHostStatus;
use coerce::sharding::host::stats::HostStats;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::time::{Duration, Instant};
use vf::cluster::{self, patience};
use vf::*;

#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum Step {
    Requests(Vec<Req>),
    Allocate(u8, u8, u8),
    /// ask the API of a node for everything about a type
    Ask(u8, u8),
    Types(u8),
    Stranger(u8, String),
    /// a node (not the first) ends; the others are asked at once
    Crash(u8),
    Join,
}
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Case {
    nodes: usize,
    types: usize,
    max_shards: u32,
    steps: Vec<Step>,
}

const TYPES: [&str; 2] = ["left", "right"];

struct Node {
    live: Live,
    api: String,
}

fn shard_map(at: &str, v: &Value) -> Result<BTreeMap<u32, (u64, BTreeSet<String>)>, Fail> {
    let mut m = BTreeMap::new();
    let o = v.as_object().ok_or_else(|| Fail::Safety(format!("{at}: no shards in {v}")))?;
    for (k, s) in o {
        ensure!(s["shard_id"].to_string() == *k, "{at}: shard {} is listed as {k}", s["shard_id"]);
        let es: Vec<String> = serde_json::from_value(s["entities"].clone()).map_err(|e| Fail::Safety(format!("{at}: {e} in {s}")))?;
        let n = es.len();
        let set: BTreeSet<String> = es.into_iter().collect();
        ensure!(set.len() == n, "{at}: an entity is listed twice: {s}");
        m.insert(k.parse().unwrap_or(u32::MAX), (s["node_id"].as_u64().unwrap_or(0), set));
    }
    Ok(m)
}
fn host_shards(h: &HostStats) -> BTreeMap<u32, (u64, BTreeSet<String>)> {
    h.hosted_shards.iter().map(|(k, s)| (*k, (s.node_id, s.entities.iter().cloned().collect()))).collect()
}
fn host_remote(h: &HostStats) -> BTreeMap<u32, u64> {
    h.remote_shards.iter().map(|r| (r.shard_id, r.node_id)).collect()
}
type HostView = (usize, usize, usize, BTreeMap<u32, (u64, BTreeSet<String>)>, BTreeMap<u32, u64>);
fn host_view(h: &HostStats) -> HostView {
    (h.requests_pending_shard_allocation_count, h.hosted_shard_count, h.remote_shard_count, host_shards(h), host_remote(h))
}
fn status(s: &ShardHostStatus) -> &'static str {
    match s {
        ShardHostStatus::Unknown => "Unknown",
        ShardHostStatus::Starting => "Starting",
        ShardHostStatus::Ready => "Ready",
        ShardHostStatus::Unavailable => "Unavailable",
    }
}
type CoordView = (String, BTreeMap<u32, u64>, BTreeMap<u64, (u64, &'static str)>);
fn coord_view(s: &ShardingStats) -> Result<CoordView, Fail> {
    Ok((s.entity_type.clone(), owners(s)?, s.nodes.iter().map(|n| (n.node_id, (n.shard_count, status(&n.status)))).collect()))
}

impl Node {
    async fn json(&self, path: &str) -> Result<Value, Fail> {
        get(&self.api, path).await?.json(path)
    }
    async fn start_api(&mut self) -> Result<(), Fail> {
        let (sys, h, addr) = (self.live.sys.clone(), self.live.handles.clone().unwrap(), self.api.clone());
        self.live
            .on("starting the API", async move {
                let mut s = ShardingApi::default().attach(&h.a);
                if let Some(b) = &h.b {
                    s = s.attach(b);
                }
                let s = s.start(sys.actor_system()).await;
                HttpApiBuilder::new().listen_addr(addr.parse().unwrap()).routes(SystemApi::new(sys.clone())).routes(ClusterApi::new(sys.clone())).routes(s).start(sys.actor_system()).await;
            })
            .await
    }

    /// every route about a type is answered with what the host of this node says
    async fn host_agrees(&self, ty: usize) -> Result<(), Fail> {
        let t = Instant::now();
        let mut tries = 0;
        loop {
            let before = host_view(&self.live.host(ty).await?);
            let p1 = format!("/sharding/host/stats/{}", TYPES[ty]);
            let p2 = format!("/sharding/stats/node/{}", TYPES[ty]);
            let p3 = "/sharding/node/stats/all";
            let a = self.json(&p1).await?;
            let b = self.json(&p2).await?;
            let all = self.json(p3).await?;
            let after = host_view(&self.live.host(ty).await?);
            if before == after {
                let h: HostStats = serde_json::from_value(a.clone()).map_err(|e| Fail::Safety(format!("GET {p1}: {e} in {a}")))?;
                let mut wrong = None;
                if host_view(&h) != before {
                    wrong = Some(format!("GET {p1} of node {} says {a}, the host says {before:?}", self.live.id()));
                }
                let keys: BTreeSet<&String> = all.as_object().ok_or_else(|| Fail::Safety(format!("GET {p3}: {all}")))?.keys().collect();
                ensure!(keys.contains(&TYPES[ty].to_string()), "GET {p3}: type {} is missing in {all}", TYPES[ty]);
                for (p, v) in [(p2.as_str(), &b), (p3, &all[TYPES[ty]])] {
                    ensure!(v["entity"] == json!(TYPES[ty]), "GET {p}: type {} is called {}", TYPES[ty], v["entity"]);
                    let rs: BTreeMap<String, u64> = serde_json::from_value(v["remote_shards"].clone()).map_err(|e| Fail::Safety(format!("GET {p}: {e} in {v}")))?;
                    let rs: BTreeMap<u32, u64> = rs.into_iter().map(|(k, v)| (k.parse().unwrap_or(u32::MAX), v)).collect();
                    if v["total_shards"] != json!(before.1 + before.2) || shard_map(p, &v["hosted_shards"])? != before.3 || rs != before.4 {
                        wrong = Some(format!("GET {p} of node {} says {v}, the host says {before:?}", self.live.id()));
                    }
                }
                match wrong {
                    None => return Ok(()),
                    Some(w) => {
                        tries += 1;
                        if tries > 4 {
                            return Err(Fail::Deadline(w));
                        }
                    }
                }
            }
            if t.elapsed() > patience() {
                return Err(Fail::Deadline(format!("the host of type {ty} on node {} does not come to rest: {before:?} {after:?}", self.live.id())));
            }
            tokio::time::sleep(Duration::from_millis(20)).await;
        }
    }

    /// the cluster's view: what the coordinator says, and the entities of every shard
    async fn cluster_agrees(&self, ty: usize, known: &BTreeMap<u32, BTreeSet<String>>) -> Result<(), Fail> {
        let p = format!("/sharding/stats/cluster/{}", TYPES[ty]);
        let t = Instant::now();
        loop {
            let before = coord_view(&self.live.coordinator(ty).await?)?;
            let v = self.json(&p).await?;
            let after = coord_view(&self.live.coordinator(ty).await?)?;
            let mut wrong = None;
            if before == after && !v.is_null() {
                let (name, shards, nodes) = &before;
                let got: BTreeMap<u64, (u64, String)> = v["nodes"].as_array().ok_or_else(|| Fail::Safety(format!("GET {p}: {v}")))?.iter().map(|n| (n["node_id"].as_u64().unwrap_or(0), (n["shard_count"].as_u64().unwrap_or(u64::MAX), n["status"].as_str().unwrap_or("").to_string()))).collect();
                let want: BTreeMap<u64, (u64, String)> = nodes.iter().map(|(k, (n, s))| (*k, (*n, s.to_string()))).collect();
                if v["entity_type"] != json!(name) || v["total_shards"] != json!(shards.len()) || got != want {
                    wrong = Some(format!("GET {p} of node {} says {v}, the coordinator says {before:?}", self.live.id()));
                }
                let ready = got.values().filter(|s| s.1 == "Ready").count();
                ensure!(v["available_nodes"] == json!(ready) && v["total_nodes"] == json!(got.len()), "GET {p}: the number of nodes does not agree with the nodes listed: {v}");
                let mut listed = BTreeMap::new();
                let mut total = 0;
                for s in v["shards"].as_array().ok_or_else(|| Fail::Safety(format!("GET {p}: {v}")))? {
                    let es: Vec<String> = s["entities"].as_array().ok_or_else(|| Fail::Safety(format!("GET {p}: {v}")))?.iter().map(|e| e["actor_id"].as_str().unwrap_or("").to_string()).collect();
                    ensure!(s["entity_count"] == json!(es.len()), "GET {p}: the number of entities of shard {} does not agree with those listed: {v}", s["shard_id"]);
                    total += es.len();
                    let n = es.len();
                    let es: BTreeSet<String> = es.into_iter().collect();
                    ensure!(es.len() == n, "GET {p}: an entity is listed twice in {s}");
                    ensure!(listed.insert(s["shard_id"].as_u64().unwrap_or(u64::MAX) as u32, (s["node_id"].as_u64().unwrap_or(0), es)).is_none(), "GET {p}: shard {} is listed twice: {v}", s["shard_id"]);
                }
                ensure!(v["total_entities"] == json!(total), "GET {p}: the number of entities does not agree with those listed: {v}");
                let want: BTreeMap<u32, (u64, BTreeSet<String>)> = shards.iter().map(|(s, n)| (*s, (*n, known.get(s).cloned().unwrap_or_default()))).collect();
                // shards may still be starting on their node
                if listed != want && wrong.is_none() {
                    wrong = Some(format!("GET {p} of node {} lists {listed:?}, there are {want:?}", self.live.id()));
                }
                if wrong.is_none() {
                    return Ok(());
                }
            }
            if t.elapsed() > patience() {
                return Err(Fail::Deadline(wrong.unwrap_or_else(|| format!("GET {p} of node {}: {v}, the coordinator says {before:?}, then {after:?}", self.live.id()))));
            }
            tokio::time::sleep(Duration::from_millis(30)).await;
        }
    }
    /// whatever it says: every route is answered
    async fn answers(&self, types: usize) -> Result<(), Fail> {
        let mut ps = vec!["/sharding/types".to_string(), "/sharding/node/stats/all".into(), "/cluster/nodes".into(), "/health".into(), "/actors/all?max_depth=2".into(), "/system/stats".into()];
        for ty in 0..types {
            for p in ["/sharding/stats/cluster/", "/sharding/host/stats/", "/sharding/stats/node/"] {
                ps.push(format!("{p}{}", TYPES[ty]));
            }
        }
        for r in futures::future::join_all(ps.iter().map(|p| self.json(p))).await {
            r?;
        }
        Ok(())
    }
}

pub struct Sharded;
impl Part for Sharded {
    type Case = Case;
    fn name(&self) -> &'static str {
        "sharded"
    }
    fn rule(&self) -> &'static str {
        "1-3 real nodes with 1-2 sharded types, each node with the HTTP API; requests create entities, shards are allocated, nodes crash or join; at any time every route is answered; the sharding routes of every node agree with the coordinator, the hosts and the entities that were created; a type that is not sharded gives null; non-trivial: entities or shards existed when the API was asked"
    }
    fn cases(&self, tier: Tier) -> u32 {
        match tier {
            Tier::Quick => 400,
            Tier::Thorough => 4000,
        }
    }
    fn shards(&self) -> u32 {
        24
    }
    fn shrink_budget(&self) -> (u32, Duration) {
        (25, Duration::from_secs(150))
    }
    fn per_process(&self) -> u32 {
        1000
    }
    fn strategy(&self, _t: Tier) -> BoxedStrategy<Case> {
        let q = (any::<u8>(), 0u8..2, 0u8..8, any::<bool>()).prop_map(|(node, ty, ent, slow)| Req { node, ty, ent, op: Op::Echo(0), recipe: Some(if slow { Kind::Slow(5) } else { Kind::Good }), delay: 0, pad: 0 });
        let step = prop_oneof![
            5 => prop::collection::vec(q, 1..10).prop_map(Step::Requests),
            2 => (any::<u8>(), any::<u8>(), any::<u8>()).prop_map(|(a, b, c)| Step::Allocate(a, b, c)),
            4 => (any::<u8>(), any::<u8>()).prop_map(|(a, b)| Step::Ask(a, b)),
            1 => any::<u8>().prop_map(Step::Types),
            1 => (any::<u8>(), "[a-z]{1,8}").prop_map(|(a, s)| Step::Stranger(a, s)),
            1 => any::<u8>().prop_map(Step::Crash),
            1 => Just(Step::Join),
        ];
        (1usize..4, 1usize..3, 1u32..7, prop::collection::vec(step, 1..8)).prop_map(|(nodes, types, max_shards, steps)| Case { nodes, types, max_shards, steps }).boxed()
    }
    fn check(&self, c: &Case) -> CaseResult {
        cluster::run(1, case(c))
    }
}

async fn case(c: &Case) -> CaseResult {
    let w = World::new(c.types, c.max_shards);
    let mut ids = 0u64;
    let mut next = 0u64;
    let mut nodes: Vec<Node> = vec![];
    for _ in 0..c.nodes {
        next += 1;
        nodes.push(Node { live: w.launch(next, c.nodes), api: cluster::fresh_addr() });
    }
    let first = nodes[0].live.addr.clone();
    for i in 0..c.nodes {
        nodes[i].live.build(&w).await?;
        nodes[i].live.serve((i > 0).then(|| first.clone())).await?;
        nodes[i].start_api().await?;
    }
    async fn formed(w: &World, nodes: &[Node]) -> Result<(), Fail> {
        let want: BTreeSet<u64> = nodes.iter().map(|n| n.live.id()).collect();
        for ty in 0..w.types {
            let t = Instant::now();
            loop {
                let s = nodes[0].live.coordinator(ty).await?;
                let ready: BTreeSet<u64> = s.nodes.iter().filter(|n| n.status == ShardHostStatus::Ready).map(|n| n.node_id).collect();
                if ready == want {
                    break;
                }
                if t.elapsed() > patience() {
                    return Err(Fail::Deadline(format!("the coordinator counts nodes {ready:?} as ready, the members are {want:?}")));
                }
                tokio::time::sleep(Duration::from_millis(20)).await;
            }
        }
        Ok(())
    }
    formed(&w, &nodes).await?;
    if c.nodes > 1 {
        tokio::time::sleep(Duration::from_millis(700)).await;
    }
    // entities that exist
    let mut known: BTreeSet<Ent> = Default::default();
    let by_shard = |known: &BTreeSet<Ent>, ty: usize| -> BTreeMap<u32, BTreeSet<String>> {
        let mut m: BTreeMap<u32, BTreeSet<String>> = Default::default();
        for e in known.iter().filter(|e| e.0 == ty) {
            m.entry(w.shard(*e)).or_default().insert(name(*e));
        }
        m
    };
    let (mut asked, mut crashed, mut joined) = (false, false, false);
    for step in &c.steps {
        match step {
            Step::Requests(qs) => {
                for q in qs {
                    let l = &nodes[q.node as usize % nodes.len()].live;
                    let e = (q.ty as usize % c.types, q.ent);
                    w.revive(std::slice::from_ref(l), e, 0, &mut ids, q.recipe).await?;
                    known.insert(e);
                }
            }
            Step::Allocate(n, ty, s) => {
                let l = &nodes[*n as usize % nodes.len()].live;
                let _ = cluster::soon(|| "allocating a shard".into(), l.allocate(*ty as usize % c.types, *s as u32 % c.max_shards)).await?;
            }
            Step::Ask(n, ty) => {
                let n = &nodes[*n as usize % nodes.len()];
                let ty = *ty as usize % c.types;
                n.cluster_agrees(ty, &by_shard(&known, ty)).await?;
                n.host_agrees(ty).await?;
                asked |= !known.is_empty();
            }
            Step::Types(n) => {
                let n = &nodes[*n as usize % nodes.len()];
                let v = n.json("/sharding/types").await?;
                let mut got: Vec<String> = serde_json::from_value(v["entities"].clone()).map_err(|e| Fail::Safety(format!("/sharding/types: {e} in {v}")))?;
                got.sort();
                ensure!(got == TYPES[..c.types], "/sharding/types says {v}");
            }
            Step::Stranger(n, s) => {
                let n = &nodes[*n as usize % nodes.len()];
                if !TYPES[..c.types].contains(&s.as_str()) {
                    for p in ["/sharding/stats/cluster/", "/sharding/host/stats/", "/sharding/stats/node/"] {
                        let p = format!("{p}{s}");
                        let v = n.json(&p).await?;
                        ensure!(v.is_null(), "GET {p}: type {s:?} is not sharded, the answer is {v}");
                    }
                }
            }
            Step::Crash(n) => {
                if nodes.len() > 1 {
                    let i = 1 + *n as usize % (nodes.len() - 1);
                    let gone = nodes.remove(i);
                    w.book.lock().departed.insert(gone.live.id());
                    drop(gone);
                    let t = Instant::now();
                    // the others answer all along
                    while t.elapsed() < Duration::from_millis(150) {
                        for r in futures::future::join_all(nodes.iter().map(|n| n.answers(c.types))).await {
                            r?;
                        }
                    }
                    formed(&w, &nodes).await?;
                    for e in known.iter() {
                        w.revive(std::slice::from_ref(&nodes[0].live), *e, 0, &mut ids, Some(Kind::Good)).await?;
                    }
                    crashed = true;
                }
            }
            Step::Join => {
                if nodes.len() < 3 {
                    next += 1;
                    let mut n = Node { live: w.launch(next, nodes.len() + 1), api: cluster::fresh_addr() };
                    n.live.build(&w).await?;
                    n.live.serve(Some(first.clone())).await?;
                    n.start_api().await?;
                    nodes.push(n);
                    for n in &nodes {
                        n.answers(c.types).await?;
                    }
                    formed(&w, &nodes).await?;
                    joined = true;
                }
            }
        }
    }
    for e in known.iter() {
        w.revive(std::slice::from_ref(&nodes[0].live), *e, 0, &mut ids, Some(Kind::Good)).await?;
    }
    for n in &nodes {
        for ty in 0..c.types {
            n.cluster_agrees(ty, &by_shard(&known, ty)).await?;
            n.host_agrees(ty).await?;
        }
    }
    Ok(CaseOut::new(!known.is_empty()).label(asked, "asked in between").label(crashed, "crashed").label(joined, "joined").label(c.nodes > 1, "several nodes"))
}
