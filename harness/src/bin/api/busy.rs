//! The actors' description while some of them cannot answer.
use crate::http::get;
use coerce::actor::context::ActorContext;
use coerce::actor::message::{Handler, Message};
use coerce::actor::scheduler::ActorType;
use coerce::actor::{Actor, CoreActorRef, LocalActorRef, ToActorId};
use coerce::remote::api::builder::HttpApiBuilder;
use coerce::remote::api::cluster::ClusterApi;
use coerce::remote::api::system::SystemApi;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::sync::Arc;
use std::time::{Duration, Instant};
use tokio::sync::Semaphore;
use vf::cluster::{self, soon, Node};
use vf::*;

#[derive(Debug, Clone, Copy, Serialize, Deserialize, PartialEq)]
pub enum State {
    Idle,
    /// for longer than descriptions wait
    Blocked,
    /// for a moment
    Busy,
    /// for a moment, then panics
    Dies,
}
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Case {
    roots: Vec<(State, Vec<State>)>,
    depth: Option<u8>,
}

#[derive(Clone)]
struct B {
    kids: Vec<(String, State)>,
    gate: Arc<Semaphore>,
}
#[vf::async_trait]
impl Actor for B {
    async fn started(&mut self, ctx: &mut ActorContext) {
        for (id, s) in std::mem::take(&mut self.kids) {
            let r = ctx.spawn(id.to_actor_id(), B { kids: vec![], gate: self.gate.clone() }).await.expect("spawn");
            let _ = r.notify(Now(s));
        }
    }
}
struct Now(State);
impl Message for Now {
    type Result = ();
}
#[vf::async_trait]
impl Handler<Now> for B {
    async fn handle(&mut self, m: Now, _: &mut ActorContext) {
        match m.0 {
            State::Idle => {}
            State::Blocked => {
                let _ = self.gate.acquire().await.map(|p| p.forget());
            }
            State::Busy => tokio::time::sleep(Duration::from_millis(700)).await,
            State::Dies => {
                tokio::time::sleep(Duration::from_millis(700)).await;
                panic!("generated");
            }
        }
    }
}

fn one(at: &str, v: &Value, id: &str, path: &str, s: State) -> Result<(), Fail> {
    ensure!(v["actor_id"] == json!(id) && v["path"] == json!(path) && v["actor_type_name"] == json!(B::type_name()), "{at}: actor {path} is described as {v}");
    let ok = match s {
        State::Idle | State::Busy => v["status"] == json!("Ok"),
        State::Blocked => v["status"] == json!("Timeout"),
        State::Dies => v["status"].get("Err").is_some(),
    };
    ensure!(ok, "{at}: {path} ({s:?}) is described with the status {}", v["status"]);
    Ok(())
}

async fn case(c: &Case) -> CaseResult {
    let sys = cluster::system_with(1, "node-1", |b| b, |b| b.heartbeat(cluster::heartbeat(60))).await;
    let addr = cluster::fresh_addr();
    let server = Some(cluster::serve(&sys, &addr, None).await);
    let _me = Node { sys: sys.clone(), server, addr };
    let http = cluster::fresh_addr();
    HttpApiBuilder::new().listen_addr(http.parse().unwrap()).routes(SystemApi::new(sys.clone())).routes(ClusterApi::new(sys.clone())).start(sys.actor_system()).await;
    let _ = get(&http, "/system/stats").await?;
    let gate = Arc::new(Semaphore::new(0));
    let mut refs: Vec<LocalActorRef<B>> = vec![];
    for (i, (_, kids)) in c.roots.iter().enumerate() {
        let b = B { kids: kids.iter().enumerate().map(|(k, s)| (format!("k{k}"), *s)).collect(), gate: gate.clone() };
        let r = soon(|| "creating".into(), sys.actor_system().new_actor(format!("r{i}").to_actor_id(), b, ActorType::Tracked)).await?;
        refs.push(r.map_err(|e| Fail::Safety(format!("creating an actor: {e:?}")))?);
    }
    for (r, (s, _)) in refs.iter().zip(&c.roots) {
        let _ = r.notify(Now(*s));
    }
    let t0 = Instant::now();
    let path = match c.depth {
        None => "/actors/all".to_string(),
        Some(d) => format!("/actors/all?max_depth={d}"),
    };
    let (v, nodes, stats) = tokio::join!(get(&http, &path), get(&http, "/cluster/nodes"), get(&http, "/system/stats"));
    let took = t0.elapsed();
    let v = v?.json(&path)?;
    nodes?.json("/cluster/nodes")?;
    stats?.json("/system/stats")?;
    gate.add_permits(1000);
    // a machine that stood still: nothing can be said about who answered in time
    if took > Duration::from_millis(12_500) {
        return Err(Fail::Deadline(format!("{path} took {took:?}")));
    }
    let system = sys.actor_system().system_name().to_string();
    let mut listed: BTreeMap<String, Vec<Value>> = BTreeMap::new();
    for a in v["actors"].as_array().ok_or_else(|| Fail::Safety(format!("{path}: {v}")))? {
        listed.entry(a["actor_id"].as_str().unwrap_or("").to_string()).or_default().push(a.clone());
    }
    for (i, (s, kids)) in c.roots.iter().enumerate() {
        let id = format!("r{i}");
        let l = listed.remove(&id).unwrap_or_default();
        if l.is_empty() && *s == State::Dies {
            // the request may have been delayed until it was gone
            return Err(Fail::Deadline(format!("{path}: {id} is not listed")));
        }
        ensure!(l.len() == 1, "{path}: {id} is listed {} times", l.len());
        one(&path, &l[0], &id, &format!("{system}/{id}"), *s)?;
        let mut under: BTreeMap<String, Vec<Value>> = BTreeMap::new();
        for a in l[0]["supervised"]["actors"].as_array().cloned().unwrap_or_default() {
            under.entry(a["actor_id"].as_str().unwrap_or("").to_string()).or_default().push(a);
        }
        if c.depth.map_or(true, |d| d >= 2) && matches!(s, State::Idle | State::Busy) {
            for (k, ks) in kids.iter().enumerate() {
                let kid = format!("k{k}");
                match under.remove(&kid).unwrap_or_default() {
                    l if l.len() == 1 => one(&path, &l[0], &kid, &format!("{system}/{id}/{kid}"), *ks)?,
                    // it ended before its parent was described
                    l if l.is_empty() && *ks == State::Dies => {}
                    l => return Err(Fail::Safety(format!("{path}: {id}/{kid} is listed {} times", l.len()))),
                }
            }
        }
        ensure!(under.is_empty(), "{path}: {id} is described with the children {:?}", under.keys().collect::<Vec<_>>());
    }
    let stuck = c.roots.iter().any(|r| r.0 == State::Blocked || r.1.contains(&State::Blocked));
    let dies = c.roots.iter().any(|r| r.0 == State::Dies || r.1.contains(&State::Dies));
    Ok(CaseOut::new(stuck || dies).label(stuck, "an actor does not answer in time").label(dies, "an actor ends while it is described"))
}

pub struct Busy;
impl Part for Busy {
    type Case = Case;
    fn name(&self) -> &'static str {
        "busy"
    }
    fn rule(&self) -> &'static str {
        "one node with the HTTP API and 1-5 actors with 0-4 children each, which are idle, busy for a moment, blocked for longer than a description waits, or panic while they are being described; /actors/all names each once with its path, type and status, other requests are answered meanwhile; non-trivial: an actor is blocked or panics"
    }
    fn cases(&self, tier: Tier) -> u32 {
        match tier {
            Tier::Quick => 32,
            Tier::Thorough => 600,
        }
    }
    fn shards(&self) -> u32 {
        16
    }
    fn shrink_budget(&self) -> (u32, Duration) {
        (6, Duration::from_secs(90))
    }
    fn strategy(&self, _t: Tier) -> BoxedStrategy<Case> {
        let state = || prop_oneof![3 => Just(State::Idle), 1 => Just(State::Blocked), 1 => Just(State::Busy), 1 => Just(State::Dies)];
        (prop::collection::vec((state(), prop::collection::vec(state(), 0..5)), 1..6), prop_oneof![4 => Just(None), 1 => (0u8..5).prop_map(Some)]).prop_map(|(roots, depth)| Case { roots, depth }).boxed()
    }
    fn check(&self, c: &Case) -> CaseResult {
        cluster::run(2, case(c))
    }
}
