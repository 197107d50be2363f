//! Sharded entities on clusters of real nodes, and the record of what really happened to them.
use coerce::actor::context::ActorContext;
use coerce::actor::message::{Handler, Message, MessageUnwrapErr, MessageWrapErr};
use coerce::actor::system::ActorSystem;
use coerce::actor::{Actor, ActorCreationErr, ActorFactory, ActorRecipe, ActorRefErr};
use coerce::persistent::journal::provider::inmemory::InMemoryStorageProvider;
use coerce::persistent::Persistence;
use coerce::remote::heartbeat::HeartbeatConfig;
use coerce::remote::net::server::RemoteServer;
use coerce::remote::system::RemoteActorSystem;
use coerce::sharding::coordinator::allocation::{AllocateShard, AllocateShardResult, DefaultAllocator};
use coerce::sharding::coordinator::stats::{GetShardingStats, ShardingStats};
use coerce::sharding::coordinator::ShardHostStatus;
use coerce::sharding::host::stats::{GetStats, HostStats};
use coerce::sharding::host::{GetCoordinator, ShardAllocator};
use coerce::sharding::{sharding, Sharding};
use parking_lot::Mutex;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::sync::Arc;
use std::time::{Duration, Instant};
use vf::cluster::{self, patience};
use vf::*;

/// entity: (type, number)
pub type Ent = (usize, u8);

pub fn name(e: Ent) -> String {
    format!("{}-{}", ["left", "right"][e.0], e.1)
}

#[derive(Default)]
pub struct Book {
    next: u64,
    /// entity -> running (instance, node)
    pub live: HashMap<String, Vec<(u64, u64)>>,
    pub handled: HashMap<u64, Vec<u64>>,
    /// instance -> (entity, node, tag of its recipe)
    pub insts: HashMap<u64, (String, u64, u64)>,
    pub starts: u64,
    /// nodes that are leaving or have left: what runs there is not part of the cluster
    pub departed: BTreeSet<u64>,
    wrong: Option<String>,
    /// instances may overlap
    pub overlap: bool,
    /// recipes (tags) whose instance has stopped itself
    brief: BTreeSet<u64>,
}
pub type Shared = Arc<Mutex<Book>>;

#[derive(Debug, Clone, Copy, Serialize, Deserialize, PartialEq, Eq)]
pub enum Kind {
    Good,
    /// creation takes this long (ms), then the actor's start as long again, and its end as long or longer
    Slow(u8),
    /// as Slow, and the first instance of this recipe stops itself as soon as it has started
    Brief(u8),
    /// the factory refuses, after so many ms
    Refused(u8),
    /// the factory panics
    Panics,
    /// the recipe cannot be read
    Unreadable,
}
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Recipe {
    pub tag: u64,
    pub kind: Kind,
}
impl ActorRecipe for Recipe {
    fn read_from_bytes(b: &Vec<u8>) -> Option<Self> {
        if b.is_empty() {
            // can be read from nothing; but nobody offers this one
            return Some(Recipe { tag: 0, kind: Kind::Good });
        }
        serde_json::from_slice::<Recipe>(b).ok().filter(|r| r.kind != Kind::Unreadable)
    }
    fn write_to_bytes(&self) -> Option<Vec<u8>> {
        serde_json::to_vec(self).ok()
    }
}

pub struct E<const T: usize> {
    book: Shared,
    node: u64,
    tag: u64,
    me: u64,
    id: String,
    slow: Duration,
    brief: bool,
    ended: bool,
}
impl<const T: usize> E<T> {
    fn end(&mut self) {
        if self.me != 0 && !self.ended {
            self.ended = true;
            let mut b = self.book.lock();
            if let Some(l) = b.live.get_mut(&self.id) {
                l.retain(|l| l.0 != self.me)
            }
        }
    }
}
impl<const T: usize> Drop for E<T> {
    fn drop(&mut self) {
        self.end()
    }
}
#[vf::async_trait]
impl<const T: usize> Actor for E<T> {
    async fn started(&mut self, ctx: &mut ActorContext) {
        self.id = ctx.id().to_string();
        {
            let mut b = self.book.lock();
            b.next += 1;
            b.starts += 1;
            self.me = b.next;
            let other = b.live.get(&self.id).and_then(|l| l.first().copied());
            let member = !b.departed.contains(&self.node);
            if let (Some((i, n)), true) = (other, member) {
                if b.wrong.is_none() && !b.overlap {
                    b.wrong = Some(format!("entity {} starts on node {} while instance {i} of it is running on node {n}", self.id, self.node));
                }
            }
            let (me, node, tag) = (self.me, self.node, self.tag);
            if member {
                b.live.entry(self.id.clone()).or_default().push((me, node));
            }
            b.insts.insert(me, (self.id.clone(), node, tag));
        }
        tokio::time::sleep(self.slow).await;
        if self.brief && self.book.lock().brief.insert(self.tag) {
            let _ = self.actor_ref(ctx).notify_stop();
        }
    }
    async fn stopped(&mut self, _: &mut ActorContext) {
        if !self.brief && !self.slow.is_zero() {
            tokio::time::sleep(self.slow * if self.slow < Duration::from_millis(80) { 1 } else { 4 }).await;
        }
        self.end();
    }
}

#[derive(Clone)]
pub struct Fac<const T: usize> {
    pub book: Shared,
    pub node: u64,
}
#[vf::async_trait]
impl<const T: usize> ActorFactory for Fac<T> {
    type Actor = E<T>;
    type Recipe = Recipe;
    async fn create(&self, r: Recipe) -> Result<E<T>, ActorCreationErr> {
        let mut slow = Duration::ZERO;
        match r.kind {
            Kind::Good => {}
            Kind::Slow(ms) | Kind::Brief(ms) => {
                slow = Duration::from_millis(ms as u64);
                tokio::time::sleep(slow).await
            }
            Kind::Refused(ms) => {
                tokio::time::sleep(Duration::from_millis(ms as u64)).await;
                return Err(ActorCreationErr::InvalidRecipe("refused".into()));
            }
            Kind::Panics => panic!("[vf] the factory panics"),
            Kind::Unreadable => panic!("[vf] a recipe that cannot be read was used"),
        }
        Ok(E { book: self.book.clone(), node: self.node, tag: r.tag, me: 0, id: String::new(), slow, brief: matches!(r.kind, Kind::Brief(_)), ended: false })
    }
}

#[derive(Debug, Clone, Copy, Serialize, Deserialize, PartialEq, Eq)]
pub enum Op {
    Echo(u8),
    Stop,
    Panic,
    /// a message no handler is registered for
    Unknown,
}
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Ask {
    id: u64,
    op: Op,
    pad: Vec<u8>,
}
#[derive(Debug, Clone, Serialize, Deserialize, PartialEq)]
pub struct Reply {
    pub id: u64,
    pub inst: u64,
    pub entity: String,
    pub tag: u64,
    pub pad: Vec<u8>,
}
macro_rules! wire {
    ($t:ty, $r:ty) => {
        impl Message for $t {
            type Result = $r;
            fn as_bytes(&self) -> Result<Vec<u8>, MessageWrapErr> {
                Ok(serde_json::to_vec(self).unwrap())
            }
            fn from_bytes(b: Vec<u8>) -> Result<Self, MessageUnwrapErr> {
                serde_json::from_slice(&b).map_err(|_| MessageUnwrapErr::DeserializationErr)
            }
            fn read_remote_result(b: Vec<u8>) -> Result<Self::Result, MessageUnwrapErr> {
                serde_json::from_slice(&b).map_err(|_| MessageUnwrapErr::DeserializationErr)
            }
            fn write_remote_result(r: Self::Result) -> Result<Vec<u8>, MessageWrapErr> {
                Ok(serde_json::to_vec(&r).unwrap())
            }
        }
    };
}
wire!(Ask, Reply);
#[derive(Serialize, Deserialize)]
pub struct Stranger;
wire!(Stranger, ());

#[vf::async_trait]
impl<const T: usize> Handler<Ask> for E<T> {
    async fn handle(&mut self, m: Ask, ctx: &mut ActorContext) -> Reply {
        self.book.lock().handled.entry(m.id).or_default().push(self.me);
        match m.op {
            Op::Echo(0) => {}
            Op::Echo(ms) => tokio::time::sleep(Duration::from_millis(ms as u64)).await,
            Op::Stop => ctx.stop(None),
            Op::Panic => panic!("[vf] the entity panics"),
            Op::Unknown => {}
        }
        Reply { id: m.id, inst: self.me, entity: self.id.clone(), tag: self.tag, pad: m.pad }
    }
}
#[vf::async_trait]
impl<const T: usize> Handler<Stranger> for E<T> {
    async fn handle(&mut self, _: Stranger, _: &mut ActorContext) {}
}

#[derive(Clone)]
pub struct Handles {
    pub a: Sharding<Fac<0>>,
    pub b: Option<Sharding<Fac<1>>>,
}

pub struct Live {
    pub rt: Option<tokio::runtime::Runtime>,
    pub sys: RemoteActorSystem,
    pub server: Option<RemoteServer>,
    pub handles: Option<Handles>,
    pub addr: String,
}
impl Drop for Live {
    fn drop(&mut self) {
        if let Some(s) = &self.server {
            s.stop();
        }
        if let Some(rt) = self.rt.take() {
            rt.shutdown_background();
        }
    }
}

#[derive(Clone)]
pub struct World {
    pub book: Shared,
    pub storage: Persistence,
    pub types: usize,
    pub max_shards: u32,
}

impl World {
    pub fn new(types: usize, max_shards: u32) -> World {
        World { book: Default::default(), storage: Persistence::from(InMemoryStorageProvider::new()), types, max_shards }
    }

    pub fn launch(&self, id: u64, min: usize) -> Live {
        let rt = vf::rt::threads(1);
        let w = self.clone();
        let sys = std::thread::scope(|t| {
            t.spawn(|| {
                rt.block_on(async move {
                    let book = w.book.clone();
                    RemoteActorSystem::builder()
                        .with_actor_system(ActorSystem::builder().system_name(format!("n{id}")).build().to_persistent(w.storage.clone()))
                        .with_id(id)
                        .with_tag(format!("n{id}"))
                        .configure(move |b| {
                            sharding(b)
                                .with_actor(Fac::<0> { book: book.clone(), node: id })
                                .with_actor(Fac::<1> { book: book.clone(), node: id })
                                .with_handler::<E<0>, Ask>("Left.Ask")
                                .with_handler::<E<1>, Ask>("Right.Ask")
                                .heartbeat(HeartbeatConfig {
                                    interval: Duration::from_millis(60),
                                    ping_timeout: Duration::from_secs(2),
                                    unhealthy_node_heartbeat_timeout: Duration::from_secs(4),
                                    terminated_node_heartbeat_timeout: Duration::from_secs(8),
                                    minimum_cluster_size: if min > 1 { Some(min) } else { None },
                                })
                        })
                        .build()
                        .await
                })
            })
            .join()
            .expect("system")
        });
        Live { rt: Some(rt), sys, server: None, handles: None, addr: cluster::fresh_addr() }
    }

    /// the shard an entity belongs to
    pub fn shard(&self, e: Ent) -> u32 {
        use coerce::actor::IntoActorId;
        DefaultAllocator { max_shards: self.max_shards }.allocate(&name(e).into_actor_id())
    }
}

impl Live {
    pub fn id(&self) -> u64 {
        self.sys.node_id()
    }
    pub async fn on<T: Send + 'static>(&self, what: &str, f: impl std::future::Future<Output = T> + Send + 'static) -> Result<T, Fail> {
        match tokio::time::timeout(patience(), self.rt.as_ref().unwrap().spawn(f)).await {
            Ok(Ok(v)) => Ok(v),
            Ok(Err(e)) => Err(Fail::Safety(format!("{what} on node {} panicked: {e}", self.id()))),
            Err(_) => Err(Fail::Deadline(format!("{what} on node {} does not end", self.id()))),
        }
    }
    pub async fn build(&mut self, w: &World) -> Result<(), Fail> {
        let sys = self.sys.clone();
        let (max_shards, types) = (w.max_shards, w.types);
        self.handles = Some(
            self.on("starting sharding", async move {
                let a = Sharding::<Fac<0>>::builder(sys.clone()).with_entity_type("left").with_allocator(DefaultAllocator { max_shards }).build().await;
                let b = match types {
                    1 => None,
                    _ => Some(Sharding::<Fac<1>>::builder(sys).with_entity_type("right").with_allocator(DefaultAllocator { max_shards }).build().await),
                };
                Handles { a, b }
            })
            .await?,
        );
        Ok(())
    }
    pub async fn serve(&mut self, seed: Option<String>) -> Result<(), Fail> {
        let (sys, addr) = (self.sys.clone(), self.addr.clone());
        self.server = Some(self.on("starting", async move { cluster::serve(&sys, &addr, seed.as_deref()).await }).await?);
        Ok(())
    }
    /// what the coordinator of a type says
    pub async fn coordinator(&self, ty: usize) -> Result<ShardingStats, Fail> {
        let h = self.handles.clone().unwrap();
        let t = Instant::now();
        loop {
            let h = h.clone();
            let r = self
                .on("asking the coordinator", async move {
                    let host = if ty == 0 { h.a.shard_host().clone() } else { h.b.unwrap().shard_host().clone() };
                    match host.send(GetCoordinator).await {
                        Ok(c) => c.send(GetShardingStats).await,
                        Err(e) => Err(e),
                    }
                })
                .await?;
            match r {
                Ok(s) => return Ok(s),
                Err(e) if t.elapsed() > patience() => return Err(Fail::Deadline(format!("the coordinator of type {ty} cannot be asked from node {}: {e:?}", self.id()))),
                Err(_) => tokio::time::sleep(Duration::from_millis(20)).await,
            }
        }
    }
    /// what the host of a type on this node says
    pub async fn host(&self, ty: usize) -> Result<HostStats, Fail> {
        let h = self.handles.clone().unwrap();
        let r = self
            .on("asking the shard host", async move {
                let host = if ty == 0 { h.a.shard_host().clone() } else { h.b.unwrap().shard_host().clone() };
                match host.send(GetStats).await {
                    Ok(rx) => rx.await.map_err(|_| ActorRefErr::ResultChannelClosed),
                    Err(e) => Err(e),
                }
            })
            .await?;
        r.map_err(|e| Fail::Safety(format!("the shard host of type {ty} on node {} cannot be asked: {e:?}", self.id())))
    }
    pub fn allocate(&self, ty: usize, shard: u32) -> tokio::task::JoinHandle<Result<AllocateShardResult, ActorRefErr>> {
        let h = self.handles.clone().unwrap();
        self.rt.as_ref().unwrap().spawn(async move {
            let host = if ty == 0 { h.a.shard_host().clone() } else { h.b.unwrap().shard_host().clone() };
            let c = host.send(GetCoordinator).await?;
            c.send(AllocateShard { shard_id: shard, rebalancing: false }).await
        })
    }
}

#[derive(Debug, Clone, Copy, Serialize, Deserialize)]
pub struct Req {
    pub node: u8,
    pub ty: u8,
    pub ent: u8,
    pub op: Op,
    pub recipe: Option<Kind>,
    /// ms before it is sent
    pub delay: u8,
    /// size of the payload
    pub pad: u16,
}

pub struct Sent {
    pub id: u64,
    pub node: u64,
    pub ent: Ent,
    pub op: Op,
    pub recipe: Option<Kind>,
    pub pad: usize,
    pub reply: tokio::task::JoinHandle<Result<Reply, ActorRefErr>>,
}

impl World {
    pub fn send(&self, live: &[Live], reqs: &[Req], ids: &mut u64) -> Vec<Sent> {
        let mut out = vec![];
        let with: Vec<&Live> = live.iter().filter(|l| l.handles.is_some()).collect();
        if with.is_empty() {
            return out;
        }
        for q in reqs {
            let l = with[q.node as usize % with.len()];
            let ent = (q.ty as usize % self.types, q.ent);
            *ids += 1;
            let ask = Ask { id: *ids, op: q.op, pad: vec![q.ent; q.pad as usize] };
            let h = l.handles.clone().unwrap();
            let (delay, op) = (q.delay, q.op);
            let recipe = q.recipe.map(|kind| Recipe { tag: *ids, kind });
            let reply = l.rt.as_ref().unwrap().spawn(async move {
                if delay > 0 {
                    tokio::time::sleep(Duration::from_millis(delay as u64)).await;
                }
                macro_rules! go {
                    ($s:expr) => {{
                        let e = $s.get(name(ent), recipe);
                        if op == Op::Unknown {
                            e.send(Stranger).await.map(|_| unreachable!())
                        } else {
                            e.send(ask).await
                        }
                    }};
                }
                match ent.0 {
                    0 => go!(h.a),
                    _ => go!(h.b.unwrap()),
                }
            });
            out.push(Sent { id: *ids, node: l.id(), ent, op: q.op, recipe: q.recipe, pad: q.pad as usize, reply });
        }
        out
    }

    pub fn judge(&self) -> Result<(), Fail> {
        let b = self.book.lock();
        if let Some(w) = &b.wrong {
            return Err(Fail::Safety(w.clone()));
        }
        for (id, h) in &b.handled {
            ensure!(h.len() <= 1, "request {id} was handled {} times, by instances {h:?}", h.len());
        }
        Ok(())
    }

    /// Waits for the replies; what a reply says must be true.
    pub async fn collect(&self, sent: Vec<Sent>, gone: &[u64]) -> Result<Vec<(Ent, Op, Option<Kind>, u64, Result<Reply, ActorRefErr>)>, Fail> {
        let mut out = vec![];
        for s in sent {
            let r = tokio::time::timeout(patience(), s.reply).await;
            self.judge()?;
            if gone.contains(&s.node) {
                continue;
            }
            let what = format!("request {} ({:?}, recipe {:?}) for entity {} from node {}", s.id, s.op, s.recipe, name(s.ent), s.node);
            match r {
                Err(_) => return Err(Fail::Deadline(format!("{what} is never answered"))),
                Ok(Err(e)) => return Err(Fail::Safety(format!("{what} panicked: {e}"))),
                Ok(Ok(r)) => {
                    if let Ok(r) = &r {
                        ensure!(r.id == s.id && r.entity == name(s.ent) && r.pad == vec![s.ent.1; s.pad], "{what} got the reply {r:?}");
                        ensure!(r.tag != 0, "{what} was answered by an instance nobody offered a recipe for");
                        let b = self.book.lock();
                        ensure!(b.handled.get(&s.id) == Some(&vec![r.inst]), "{what} was answered by instance {}, but handled by {:?}", r.inst, b.handled.get(&s.id));
                        ensure!(b.insts.get(&r.inst).map(|i| (&i.0, i.2)) == Some((&r.entity, r.tag)), "{what} was answered by {r:?}, the instance is {:?}", b.insts.get(&r.inst));
                    }
                    out.push((s.ent, s.op, s.recipe, s.id, r));
                }
            }
        }
        Ok(out)
    }

    /// Asks until the entity answers. Returns the instance.
    pub async fn revive(&self, live: &[Live], ent: Ent, node: u8, ids: &mut u64, recipe: Option<Kind>) -> Result<u64, Fail> {
        let t = Instant::now();
        loop {
            let q = Req { node, ty: ent.0 as u8, ent: ent.1, op: Op::Echo(0), recipe, delay: 0, pad: 0 };
            let sent = self.send(live, &[q], ids);
            let r = self.collect(sent, &[]).await?;
            match &r[0].4 {
                Ok(r) => return Ok(r.inst),
                Err(e) if t.elapsed() > patience() => return Err(Fail::Deadline(format!("entity {} cannot be started (again), requests from node {} fail with {e:?}", name(ent), live[node as usize % live.len()].id()))),
                Err(_) => tokio::time::sleep(Duration::from_millis(10)).await,
            }
        }
    }

    /// Waits until the coordinators count exactly `live` as ready.
    pub async fn formed(&self, live: &[Live]) -> Result<(), Fail> {
        let want: BTreeSet<u64> = live.iter().map(|l| l.id()).collect();
        let t = Instant::now();
        for ty in 0..self.types {
            loop {
                let s = live[0].coordinator(ty).await?;
                let ready: BTreeSet<u64> = s.nodes.iter().filter(|n| n.status == ShardHostStatus::Ready).map(|n| n.node_id).collect();
                if ready == want {
                    break;
                }
                if t.elapsed() > patience() {
                    let mut views = vec![];
                    for l in live {
                        let sys = l.sys.clone();
                        let mut v: Vec<(u64, String)> = l.on("listing nodes", async move { sys.get_nodes().await }).await?.iter().map(|n| (n.id, format!("{:?}", n.status))).collect();
                        v.sort();
                        views.push(format!("node {} (leader {:?}) knows {v:?}", l.id(), l.sys.current_leader()));
                    }
                    return Err(Fail::Deadline(format!("the coordinator of type {ty} counts nodes {ready:?} as ready, the members are {want:?}; {}", views.join("; "))));
                }
                tokio::time::sleep(Duration::from_millis(20)).await;
            }
        }
        Ok(())
    }
}

/// shard -> owner, as the coordinator says
pub fn owners(s: &ShardingStats) -> Result<BTreeMap<u32, u64>, Fail> {
    let mut m = BTreeMap::new();
    for x in &s.shards {
        ensure!(m.insert(x.shard_id, x.node_id).is_none(), "the coordinator lists shard {} twice", x.shard_id);
    }
    ensure!(s.total_shards as usize == m.len(), "the coordinator counts {} shards and lists {}", s.total_shards, m.len());
    for n in &s.nodes {
        let k = m.values().filter(|o| **o == n.node_id).count();
        ensure!(n.shard_count as usize == k, "the coordinator counts {} shards on node {}, and lists {k}", n.shard_count, n.node_id);
    }
    Ok(m)
}
