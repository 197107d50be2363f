//! C16: locating and deploying actors across the cluster.
use coerce::actor::context::ActorContext;
use coerce::actor::message::Handler;
use coerce::actor::scheduler::ActorType;
use coerce::actor::{Actor, ActorCreationErr, ActorFactory, ActorRecipe, ActorRef, IntoActorId, ToActorId};
use coerce::remote::system::builder::RemoteSystemConfigBuilder;
use coerce::remote::system::RemoteActorSystem;
use coerce_macros::JsonMessage;
use parking_lot::Mutex;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::HashMap;
use std::sync::Arc;
use std::time::{Duration, Instant};
use vf::cluster::{self, patience, soon, Node};
use vf::*;

#[derive(Debug, Clone, Copy, Serialize, Deserialize, PartialEq)]
enum Recipe {
    Good,
    Unwritable,
    Unreadable,
    FactoryFails,
    StartStops,
    StartPanics,
}
#[derive(Debug, Clone, Serialize, Deserialize)]
enum Op {
    /// start an actor on a node, with a new id in the given style or that of one that has ended
    Spawn(u8, u8, Option<u8>),
    /// from, to (None: no node given), take a used id, style of a new id, recipe
    Deploy(u8, Option<u8>, Option<u8>, u8, Recipe, String),
    /// a type that is only registered on the even nodes
    DeployPartial(u8, u8),
    DeployNoId(u8, u8),
    DeployNowhere(u8),
    /// from, id
    Find(u8, u8),
    FindNothing(u8),
    Stop(u8),
}
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Case {
    nodes: u8,
    /// what ids of nodes begin with
    base: u64,
    ops: Vec<Op>,
}

#[derive(JsonMessage, Serialize, Deserialize, Clone)]
#[result("Who")]
struct Ask;
/// node, instance, text of the recipe
type Who = (u8, u32, String);

struct It {
    who: Who,
    how: Recipe,
    world: Arc<World>,
}
#[derive(Default)]
struct World {
    /// node of every instance that was started
    started: Mutex<Vec<(u8, String)>>,
    asked: Mutex<Vec<u32>>,
}
#[vf::async_trait]
impl Actor for It {
    async fn started(&mut self, ctx: &mut ActorContext) {
        let mut s = self.world.started.lock();
        match self.how {
            Recipe::StartStops => {
                ctx.stop(None);
            }
            Recipe::StartPanics => panic!("told to"),
            _ => {
                self.who.1 = s.len() as u32;
                s.push((self.who.0, ctx.id().to_string()));
            }
        }
    }
}
#[vf::async_trait]
impl Handler<Ask> for It {
    async fn handle(&mut self, _: Ask, _: &mut ActorContext) -> Who {
        self.world.asked.lock().push(self.who.1);
        self.who.clone()
    }
}
/// same actor behind a type that not all nodes know
struct Rare(It);
#[vf::async_trait]
impl Actor for Rare {
    async fn started(&mut self, ctx: &mut ActorContext) {
        self.0.started(ctx).await
    }
}
#[vf::async_trait]
impl Handler<Ask> for Rare {
    async fn handle(&mut self, m: Ask, ctx: &mut ActorContext) -> Who {
        Handler::<Ask>::handle(&mut self.0, m, ctx).await
    }
}

#[derive(Serialize, Deserialize, Clone)]
struct Rec {
    how: Recipe,
    text: String,
}
impl ActorRecipe for Rec {
    fn read_from_bytes(b: &Vec<u8>) -> Option<Self> {
        if b.is_empty() {
            return Some(Rec { how: Recipe::Good, text: "made of nothing".into() });
        }
        let r: Rec = serde_json::from_slice(b).ok()?;
        if r.how == Recipe::Unreadable {
            return None;
        }
        Some(r)
    }
    fn write_to_bytes(&self) -> Option<Vec<u8>> {
        if self.how == Recipe::Unwritable {
            return None;
        }
        serde_json::to_vec(self).ok()
    }
}
#[derive(Clone)]
struct Make {
    node: u8,
    world: Arc<World>,
}
#[vf::async_trait]
impl ActorFactory for Make {
    type Actor = It;
    type Recipe = Rec;
    async fn create(&self, r: Rec) -> Result<It, ActorCreationErr> {
        if r.how == Recipe::FactoryFails {
            return Err(ActorCreationErr::InvalidRecipe("told to".into()));
        }
        Ok(It { who: (self.node, 0, r.text), how: r.how, world: self.world.clone() })
    }
}
#[derive(Clone)]
struct MakeRare(Make);
#[vf::async_trait]
impl ActorFactory for MakeRare {
    type Actor = Rare;
    type Recipe = Rec;
    async fn create(&self, r: Rec) -> Result<Rare, ActorCreationErr> {
        self.0.create(r).await.map(Rare)
    }
}

fn config(b: &mut RemoteSystemConfigBuilder, node: u8, world: Arc<World>) -> &mut RemoteSystemConfigBuilder {
    b.heartbeat(cluster::heartbeat(100));
    b.with_actor(Make { node, world: world.clone() }).with_handler::<It, Ask>("Ask").with_handler::<Rare, Ask>("RareAsk");
    if node % 2 == 0 {
        b.with_actor(MakeRare(Make { node, world }));
    }
    b
}

fn style() -> impl Strategy<Value = u8> {
    prop_oneof![4 => Just(0u8), 1 => 1u8..7]
}
/// ids may be anything
fn styled(id: String, style: u8) -> String {
    match style {
        1 => format!("{id}{}", "-long".repeat(30)),
        2 => format!(" {id} "),
        3 => format!("{id}/with/slashes"),
        4 => format!("{id}-ÄΩ漢"),
        5 => format!("\t{id}\n\0"),
        6 => id.to_uppercase(),
        _ => id,
    }
}

fn recipe() -> impl Strategy<Value = Recipe> {
    prop_oneof![
        5 => Just(Recipe::Good),
        1 => Just(Recipe::Unwritable),
        1 => Just(Recipe::Unreadable),
        1 => Just(Recipe::FactoryFails),
        1 => Just(Recipe::StartStops),
        1 => Just(Recipe::StartPanics),
    ]
}
fn op() -> impl Strategy<Value = Op> {
    prop_oneof![
        3 => (0u8..4, style(), prop::option::weighted(0.4, any::<u8>())).prop_map(|(a, b, c)| Op::Spawn(a, b, c)),
        4 => (0u8..4, prop::option::weighted(0.8, 0u8..4), prop::option::weighted(0.3, any::<u8>()), style(), recipe(), ".{0,12}").prop_map(|(a, b, c, s, d, e)| Op::Deploy(a, b, c, s, d, e)),
        1 => (0u8..4, 0u8..4).prop_map(|(a, b)| Op::DeployPartial(a, b)),
        1 => (0u8..4, 0u8..4).prop_map(|(a, b)| Op::DeployNoId(a, b)),
        1 => (0u8..4).prop_map(Op::DeployNowhere),
        5 => (0u8..4, any::<u8>()).prop_map(|(a, b)| Op::Find(a, b)),
        1 => (0u8..4).prop_map(Op::FindNothing),
        2 => any::<u8>().prop_map(Op::Stop),
    ]
}

struct Locate;
impl Part for Locate {
    type Case = Case;
    fn name(&self) -> &'static str {
        "locate-and-deploy"
    }
    fn rule(&self) -> &'static str {
        "2-4 real nodes and one separate system in the same process; sequences of starting, deploying (to any node, with good, unreadable and failing recipes, unknown types, unknown nodes, taken ids), stopping, starting again elsewhere under the same id and looking up actors (ids in all styles) from any node, every found reference being asked who it is; non-trivial: at least one look-up from another node than the actor's"
    }
    fn cases(&self, tier: Tier) -> u32 {
        match tier {
            Tier::Quick => 1200,
            Tier::Thorough => 10000,
        }
    }
    fn shards(&self) -> u32 {
        16
    }
    fn shrink_budget(&self) -> (u32, Duration) {
        (60, Duration::from_secs(120))
    }
    fn strategy(&self, _t: Tier) -> BoxedStrategy<Case> {
        (2u8..5, prop_oneof![2 => Just(2000u64), 1 => Just(1), 1 => Just(5_000_000_000), 1 => Just(u64::MAX - 10)], prop::collection::vec(op(), 1..16)).prop_map(|(nodes, base, ops)| Case { nodes, base, ops }).boxed()
    }
    fn per_process(&self) -> u32 {
        1500
    }
    fn check(&self, c: &Case) -> CaseResult {
        cluster::run(3, check(c))
    }
}

#[derive(Clone)]
struct Known {
    id: String,
    node: usize,
    instance: Option<u32>,
    text: String,
    alive: bool,
    rare: bool,
    /// started under the id of one that had ended
    again: bool,
}

async fn who<A: Actor + Handler<Ask>>(r: &ActorRef<A>, what: &str) -> Result<Result<Who, String>, Fail> {
    Ok(soon(|| format!("asking the actor {what}"), r.send(Ask)).await?.map_err(|e| e.to_string()))
}

/// Looks an actor up until it is found (its registration may still be spreading).
async fn find<A: Actor>(sys: &RemoteActorSystem, id: &str) -> Result<ActorRef<A>, Fail> {
    let t = Instant::now();
    loop {
        if let Some(r) = soon(|| format!("looking {id} up"), sys.actor_ref::<A>(id.to_actor_id())).await? {
            return Ok(r);
        }
        if t.elapsed() > patience() {
            return Err(Fail::Deadline(format!("actor {id} is not found from node {}", sys.node_id())));
        }
        tokio::time::sleep(Duration::from_millis(5)).await;
    }
}

/// The actor that was started under the id of an ended one is found once that has spread
async fn check_known(sys: &RemoteActorSystem, k: &Known, base: u64) -> Result<u32, Fail> {
    if k.again {
        let t = Instant::now();
        loop {
            let r = find::<It>(sys, &k.id).await?;
            match who(&r, &k.id).await? {
                Ok(_) => break,
                Err(e) if t.elapsed() > patience() => return Err(Fail::Deadline(format!("actor {}, started again on node {}, was found from {} but asking it failed: {e}", k.id, k.node, sys.node_id()))),
                Err(_) => tokio::time::sleep(Duration::from_millis(10)).await,
            }
        }
    }
    let (got, at, local) = if k.rare {
        let r = find::<Rare>(sys, &k.id).await?;
        (who(&r, &k.id).await?, r.node_id(), r.is_local())
    } else {
        let r = find::<It>(sys, &k.id).await?;
        (who(&r, &k.id).await?, r.node_id(), r.is_local())
    };
    let got = got.map_err(|e| Fail::Safety(format!("actor {} on node {} was found from {} but asking it failed: {e}", k.id, k.node, sys.node_id())))?;
    ensure!(got.0 as usize == k.node && got.2 == k.text, "actor {} on node {} with recipe {:?} was found as {got:?}", k.id, k.node, k.text);
    ensure!(k.instance.is_none() || k.instance == Some(got.1), "actor {} is instance {:?}, found {got:?}", k.id, k.instance);
    let here = sys.node_id() == base + k.node as u64;
    ensure!(local == here && (at.is_none() || at == Some(base + k.node as u64)), "a reference to {} on node {} says local={local}, node={at:?} on {}", k.id, k.node, sys.node_id());
    Ok(got.1)
}

async fn check(c: &Case) -> CaseResult {
    let n = c.nodes as usize;
    let world = Arc::new(World::default());
    let mut nodes: Vec<Node> = vec![];
    for i in 0..n {
        let seed = nodes.first().map(|x| x.addr.clone());
        let w = world.clone();
        nodes.push(cluster::node(c.base + i as u64, seed.as_deref(), move |b| config(b, i as u8, w)).await);
    }
    let w = Arc::new(World::default());
    let other = cluster::system(9000, "other", move |b| config(b, 100, w)).await;
    cluster::converged(&nodes.iter().collect::<Vec<_>>()).await?;

    let mut known: Vec<Known> = vec![];
    let mut remote_finds = 0;
    let (mut refused, mut deployed) = (0, 0);
    let (mut fresh, mut restarted) = (0, 0);
    for op in &c.ops {
        let started = world.started.lock().len();
        match op {
            Op::Spawn(at, style, again) => {
                let at = *at as usize % n;
                let ended: Vec<usize> = (0..known.len()).filter(|i| !known[*i].alive && !known[*i].rare).collect();
                let again = again.filter(|_| !ended.is_empty()).map(|a| ended[a as usize % ended.len()]);
                let id = match again {
                    Some(i) => known.remove(i).id,
                    None => styled(format!("spawned-{fresh}"), *style),
                };
                fresh += 1;
                restarted += again.is_some() as u32;
                let a = It { who: (at as u8, 0, id.clone()), how: Recipe::Good, world: world.clone() };
                nodes[at].sys.actor_system().new_actor(id.clone(), a, ActorType::Tracked).await.map_err(|e| Fail::Safety(format!("not started: {e}")))?;
                known.push(Known { id: id.clone(), node: at, instance: Some(started as u32), text: id.clone(), alive: true, rare: false, again: again.is_some() });
                find::<It>(&nodes[0].sys, &id).await?;
            }
            Op::Deploy(from, to, taken, style, how, text) => {
                let from = *from as usize % n;
                let to = to.map(|t| t as usize % n);
                let target = to.unwrap_or(from);
                let live: Vec<&Known> = known.iter().filter(|k| k.alive).collect();
                let taken = taken.filter(|_| !live.is_empty()).map(|t| live[t as usize % live.len()].clone());
                let id = match &taken {
                    Some(k) => k.id.clone(),
                    None => {
                        fresh += 1;
                        styled(format!("deployed-{fresh}"), *style)
                    }
                };
                let res = soon(
                    || format!("deploying {id} ({how:?}) from node {from} to node {target}"),
                    nodes[from].sys.deploy_actor::<Make>(Some(id.clone().into_actor_id()), Rec { how: *how, text: text.clone() }, to.map(|t| c.base + t as u64)),
                )
                .await?;
                let s = world.started.lock()[started..].to_vec();
                if taken.is_some() || *how != Recipe::Good {
                    refused += 1;
                    ensure!(res.is_err(), "deploying {id} ({how:?}, taken: {}) from {from} to {target} succeeded", taken.is_some());
                    ensure!(s.is_empty(), "deploying {id} ({how:?}, taken: {}) was refused but started {s:?}", taken.is_some());
                } else {
                    let r = match res {
                        Ok(r) => r,
                        Err(e) => return Err(Fail::Safety(format!("deploying {id} from {from} to {target} failed: {e:?}"))),
                    };
                    deployed += 1;
                    ensure!(s == vec![(target as u8, id.clone())], "deploying {id} from {from} to {target} started {s:?}");
                    let got = who(&r, &id).await?;
                    ensure!(got == Ok((target as u8, started as u32, text.clone())), "the actor deployed as {id} from {from} to {target} answers {got:?}");
                    known.push(Known { id: id.clone(), node: target, instance: Some(started as u32), text: text.clone(), alive: true, rare: false, again: false });
                    find::<It>(&nodes[0].sys, &id).await?;
                }
            }
            Op::DeployPartial(from, to) => {
                let (from, to) = (*from as usize % n, *to as usize % n);
                fresh += 1;
                let id = format!("rare-{fresh}");
                let res = soon(
                    || format!("deploying {id} of a type known to even nodes from {from} to {to}"),
                    nodes[from].sys.deploy_actor::<MakeRare>(Some(id.clone().into_actor_id()), Rec { how: Recipe::Good, text: id.clone() }, Some(c.base + to as u64)),
                )
                .await?;
                let s = world.started.lock()[started..].to_vec();
                if to % 2 == 0 {
                    let r = res.map_err(|e| Fail::Safety(format!("deploying {id} from {from} to {to} failed: {e:?}")))?;
                    let got = who(&r, &id).await?;
                    ensure!(got == Ok((to as u8, started as u32, id.clone())) && s.len() == 1, "the actor deployed as {id} answers {got:?}, started {s:?}");
                    known.push(Known { id: id.clone(), node: to, instance: Some(started as u32), text: id.clone(), alive: true, rare: true, again: false });
                    find::<Rare>(&nodes[0].sys, &id).await?;
                } else {
                    refused += 1;
                    ensure!(res.is_err() && s.is_empty(), "deploying an unknown type to {to} succeeded or started {s:?}");
                }
            }
            Op::DeployNoId(from, to) => {
                let (from, to) = (*from as usize % n, *to as usize % n);
                let res = soon(
                    || format!("deploying without an id from {from} to {to}"),
                    nodes[from].sys.deploy_actor::<Make>(None, Rec { how: Recipe::Good, text: "x".into() }, Some(c.base + to as u64)),
                )
                .await?;
                let r = res.map_err(|e| Fail::Safety(format!("deploying without an id failed: {e:?}")))?;
                let s = world.started.lock()[started..].to_vec();
                ensure!(s.len() == 1 && s[0].0 as usize == to && r.actor_id().to_string() == s[0].1, "deployed as {} on {to}, started {s:?}", r.actor_id());
                let got = who(&r, "deployed without an id").await?;
                ensure!(got == Ok((to as u8, started as u32, "x".to_string())), "the actor deployed without an id answers {got:?}");
            }
            Op::DeployNowhere(from) => {
                let from = *from as usize % n;
                fresh += 1;
                let res = soon(
                    || "deploying to an unknown node".to_string(),
                    nodes[from].sys.deploy_actor::<Make>(Some(format!("nowhere-{fresh}").into_actor_id()), Rec { how: Recipe::Good, text: "x".into() }, Some(555)),
                )
                .await?;
                refused += 1;
                ensure!(res.is_err() && world.started.lock().len() == started, "deploying to an unknown node succeeded");
            }
            Op::Find(from, i) => {
                if known.is_empty() {
                    continue;
                }
                let from = *from as usize % n;
                let k = known[*i as usize % known.len()].clone();
                if k.alive {
                    check_known(&nodes[from].sys, &k, c.base).await?;
                    remote_finds += (from != k.node) as u32;
                } else if let Some(r) = soon(|| format!("looking up the stopped {}", k.id), nodes[from].sys.actor_ref::<It>(k.id.to_actor_id())).await? {
                    let got = who(&r, &k.id).await?;
                    ensure!(got.is_err(), "the stopped {} answers {got:?}", k.id);
                }
                let o = soon(|| format!("looking {} up in a separate system", k.id), other.actor_ref::<It>(k.id.to_actor_id())).await?;
                ensure!(o.is_none(), "{} is visible in a separate system", k.id);
            }
            Op::FindNothing(from) => {
                let from = *from as usize % n;
                fresh += 1;
                let id = format!("nobody-{fresh}");
                if let Some(r) = soon(|| "looking nobody up".to_string(), nodes[from].sys.actor_ref::<It>(id.to_actor_id())).await? {
                    let got = who(&r, &id).await?;
                    ensure!(got.is_err(), "an unknown actor answers {got:?}");
                }
            }
            Op::Stop(i) => {
                if known.is_empty() {
                    continue;
                }
                let i = *i as usize % known.len();
                let k = &mut known[i];
                if k.alive && !k.rare {
                    let a = nodes[k.node].sys.actor_system().get_tracked_actor::<It>(k.id.to_actor_id()).await;
                    ensure!(a.is_some(), "{} is not found locally", k.id);
                    let _ = a.unwrap().stop().await;
                    k.alive = false;
                }
            }
        }
    }
    // in the end everything alive is found from everywhere, as the same instance
    let mut by_instance = HashMap::new();
    for k in known.iter().filter(|k| k.alive) {
        for (i, node) in nodes.iter().enumerate() {
            let inst = check_known(&node.sys, k, c.base).await?;
            ensure!(by_instance.insert((i, inst), k.id.clone()).is_none(), "instance {inst} answers for two ids");
            remote_finds += (i != k.node) as u32;
        }
    }
    cluster::teardown(nodes).await;
    Ok(CaseOut::new(remote_finds > 0).label(refused > 0, "refused deployments").label(deployed > 0, "deployments").label(restarted > 0, "started again under the id of an ended one").label(known.iter().any(|k| !k.alive), "stopped actors"))
}

pub fn run() {
    Runner::from_args("C16")
        .assume("actors are started after the cluster has formed and no node joins or leaves afterwards")
        .part(Locate)
        .finish()
}
