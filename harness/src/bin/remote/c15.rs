//! C15: requests and notifications through remote references.
use coerce::actor::context::ActorContext;
use coerce::actor::message::{Handler, Message, MessageUnwrapErr, MessageWrapErr};
use coerce::actor::scheduler::ActorType;
use coerce::actor::{Actor, ActorRef, ActorRefErr, ToActorId};
use coerce::remote::system::builder::RemoteSystemConfigBuilder;
use coerce::remote::system::RemoteActorSystem;
use coerce::remote::RemoteActorRef;
use parking_lot::Mutex;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::HashMap;
use std::sync::Arc;
use std::time::Duration;
use vf::cluster::{self, eventually, soon, Node};
use vf::*;

#[derive(Debug, Clone, Copy, Serialize, Deserialize, PartialEq)]
enum Kind {
    Send,
    Notify,
    /// the caller goes away while the request is under way
    Abandon(u8),
    /// actor that does not exist
    Ghost,
    /// message whose result cannot be encoded
    NoResult,
    /// message that the receiving side cannot decode
    Unreadable,
    /// result that the calling side cannot decode
    BadResult,
    /// message without an encoding
    Local,
    /// message registered only on even nodes
    Partial,
    /// node nobody has heard of
    NoNode,
    /// the actor asks another one (of a higher number), that another one, ... (which ones: the bits)
    Relay(u8),
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Op {
    actor: u8,
    kind: Kind,
    work: u8,
    len: u32,
    fill: u8,
}
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Caller {
    node: u8,
    overlap: bool,
    /// ask through `ActorRef` instead of the remote reference
    generic: bool,
    ops: Vec<Op>,
}
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Case {
    nodes: u8,
    /// what ids of nodes begin with
    base: u64,
    /// node of each actor
    actors: Vec<u8>,
    /// ids are only unique within a node
    same_ids: bool,
    /// one more system that connects to node 0 without being a member
    outsider: bool,
    callers: Vec<Caller>,
    /// requests to an actor that panics on the one with this index
    boom: Option<(u8, u8, u8)>,
}

fn enc(op: u32, work: u8, p: &[u8]) -> Vec<u8> {
    let mut v = op.to_le_bytes().to_vec();
    v.push(work);
    v.extend_from_slice(p);
    v
}
fn dec(b: &[u8]) -> Option<(u32, u8, Vec<u8>)> {
    if b.len() < 5 {
        return None;
    }
    Some((u32::from_le_bytes(b[..4].try_into().unwrap()), b[4], b[5..].to_vec()))
}
fn sum(p: &[u8]) -> u64 {
    p.iter().fold(p.len() as u64 + 1, |a, b| a.wrapping_mul(1099511628211).wrapping_add(*b as u64))
}

/// (op, node, actor, digest of the content)
type Reply = (u32, u8, u8, u64);

macro_rules! msg {
    ($t:ident, $as:expr, $from:expr, $read:expr, $write:expr) => {
        #[derive(Clone)]
        struct $t {
            op: u32,
            work: u8,
            p: Vec<u8>,
        }
        impl Message for $t {
            type Result = Reply;
            fn as_bytes(&self) -> Result<Vec<u8>, MessageWrapErr> {
                $as(self.op, self.work, &self.p)
            }
            fn from_bytes(b: Vec<u8>) -> Result<Self, MessageUnwrapErr> {
                $from(&b).map(|(op, work, p)| $t { op, work, p })
            }
            fn read_remote_result(b: Vec<u8>) -> Result<Reply, MessageUnwrapErr> {
                $read(&b)
            }
            fn write_remote_result(r: Reply) -> Result<Vec<u8>, MessageWrapErr> {
                $write(&r)
            }
        }
        #[vf::async_trait]
        impl Handler<$t> for Rem {
            async fn handle(&mut self, m: $t, _ctx: &mut ActorContext) -> Reply {
                self.work(m.op, m.work, &m.p).await
            }
        }
    };
}
type Dec = Result<(u32, u8, Vec<u8>), MessageUnwrapErr>;
fn e_ok(op: u32, w: u8, p: &[u8]) -> Result<Vec<u8>, MessageWrapErr> {
    Ok(enc(op, w, p))
}
fn e_no(_: u32, _: u8, _: &[u8]) -> Result<Vec<u8>, MessageWrapErr> {
    Err(MessageWrapErr::NotTransmittable)
}
fn d_ok(b: &[u8]) -> Dec {
    dec(b).ok_or(MessageUnwrapErr::DeserializationErr)
}
fn d_no(_: &[u8]) -> Dec {
    Err(MessageUnwrapErr::DeserializationErr)
}
fn r_ok(b: &[u8]) -> Result<Reply, MessageUnwrapErr> {
    serde_json::from_slice(b).map_err(|_| MessageUnwrapErr::DeserializationErr)
}
fn r_no(_: &[u8]) -> Result<Reply, MessageUnwrapErr> {
    Err(MessageUnwrapErr::DeserializationErr)
}
/// makes something of everything
fn r_any(b: &[u8]) -> Result<Reply, MessageUnwrapErr> {
    Ok(serde_json::from_slice(b).unwrap_or_default())
}
fn w_ok(r: &Reply) -> Result<Vec<u8>, MessageWrapErr> {
    serde_json::to_vec(r).map_err(|_| MessageWrapErr::SerializationErr)
}
fn w_no(_: &Reply) -> Result<Vec<u8>, MessageWrapErr> {
    Err(MessageWrapErr::SerializationErr)
}
msg!(Echo, e_ok, d_ok, r_ok, w_ok);
msg!(NoResult, e_ok, d_ok, r_any, w_no);
msg!(Unreadable, e_ok, d_no, r_any, w_ok);
msg!(BadResult, e_ok, d_ok, r_no, w_ok);
msg!(LocalOnly, e_no, d_ok, r_ok, w_ok);
msg!(Partial, e_ok, d_ok, r_any, w_ok);

/// to be answered by the last of the actors named in the content
#[derive(Clone)]
struct Relay {
    op: u32,
    path: Vec<u8>,
}
impl Message for Relay {
    type Result = Reply;
    fn as_bytes(&self) -> Result<Vec<u8>, MessageWrapErr> {
        e_ok(self.op, 0, &self.path)
    }
    fn from_bytes(b: Vec<u8>) -> Result<Self, MessageUnwrapErr> {
        d_ok(&b).map(|(op, _, path)| Relay { op, path })
    }
    fn read_remote_result(b: Vec<u8>) -> Result<Reply, MessageUnwrapErr> {
        r_ok(&b)
    }
    fn write_remote_result(r: Reply) -> Result<Vec<u8>, MessageWrapErr> {
        w_ok(&r)
    }
}
#[vf::async_trait]
impl Handler<Relay> for Rem {
    async fn handle(&mut self, m: Relay, ctx: &mut ActorContext) -> Reply {
        let me = self.work(m.op, 1, &[]).await;
        let Some(next) = m.path.first().copied() else { return me };
        let ids = self.ids.lock().clone();
        let (id, at) = ids[next as usize].clone();
        let m = Relay { op: m.op, path: m.path[1..].to_vec() };
        let r = if at == self.node as usize {
            match ctx.system().get_tracked_actor::<Rem>(id.to_actor_id()).await {
                Some(r) => r.send(m).await,
                None => Err(ActorRefErr::ActorUnavailable),
            }
        } else {
            ActorRef::from(RemoteActorRef::<Rem>::new(id.to_actor_id(), self.base + at as u64, ctx.system().remote().clone())).send(m).await
        };
        // an impossible answer where there was none
        r.unwrap_or((m_failed(), self.node, self.idx, 0))
    }
}
fn m_failed() -> u32 {
    u32::MAX
}

#[derive(Default)]
struct Log {
    handled: Vec<Reply>,
    busy: HashMap<(u8, u8), u32>,
    overlapped: bool,
}
struct Rem {
    node: u8,
    idx: u8,
    boom: Option<u32>,
    base: u64,
    /// the actors that can be asked, and their nodes
    ids: Arc<Mutex<Vec<(String, usize)>>>,
    log: Arc<Mutex<Log>>,
}
impl Actor for Rem {}
impl Rem {
    async fn work(&mut self, op: u32, work: u8, p: &[u8]) -> Reply {
        let r = (op, self.node, self.idx, sum(p));
        {
            let mut l = self.log.lock();
            l.handled.push(r);
            let b = l.busy.entry((self.node, self.idx)).or_default();
            *b += 1;
            if *b > 1 {
                l.overlapped = true;
            }
        }
        if self.boom == Some(op) {
            panic!("told to");
        }
        match work {
            0 => {}
            1 | 2 => tokio::task::yield_now().await,
            255 => tokio::time::sleep(Duration::from_millis(1500)).await,
            n => tokio::time::sleep(Duration::from_millis(n as u64 - 2)).await,
        }
        *self.log.lock().busy.get_mut(&(self.node, self.idx)).unwrap() -= 1;
        r
    }
}

fn config(b: &mut RemoteSystemConfigBuilder, partial: bool) -> &mut RemoteSystemConfigBuilder {
    b.heartbeat(cluster::heartbeat(100));
    // names that are easily confused
    b.with_handler::<Rem, Echo>("Echo")
        .with_handler::<Rem, NoResult>("Echo2")
        .with_handler::<Rem, Unreadable>("echo")
        .with_handler::<Rem, BadResult>("Echo ")
        .with_handler::<Rem, Relay>("Echo.Echo")
        .with_handler::<Rem, LocalOnly>("LocalOnly");
    if partial {
        b.with_handler::<Rem, Partial>("Echo1");
    }
    b
}

fn op() -> impl Strategy<Value = Op> {
    let kind = prop_oneof![
        8 => Just(Kind::Send),
        4 => Just(Kind::Notify),
        1 => (0u8..4).prop_map(Kind::Abandon),
        1 => Just(Kind::Ghost),
        1 => Just(Kind::NoResult),
        1 => Just(Kind::Unreadable),
        1 => Just(Kind::BadResult),
        1 => Just(Kind::Local),
        1 => Just(Kind::Partial),
        1 => Just(Kind::NoNode),
        2 => any::<u8>().prop_map(Kind::Relay),
    ];
    let len = prop_oneof![6 => 0u32..64, 3 => 64u32..9000, 1 => 9000u32..300000];
    (any::<u8>(), kind, prop_oneof![200 => 0u8..8, 1 => Just(255u8)], len, any::<u8>()).prop_map(|(actor, kind, work, len, fill)| Op { actor, kind, work, len, fill })
}

enum Outcome {
    Reply(Result<Reply, ActorRefErr>),
    Sent(Result<(), ActorRefErr>),
    Gone,
}

async fn ask<M: Message<Result = Reply>>(r: &RemoteActorRef<Rem>, generic: bool, m: M) -> Result<Reply, ActorRefErr>
where
    Rem: Handler<M>,
{
    // `RemoteActorRef` itself takes envelopes; `ActorRef` is the public way to send through it
    let _ = generic;
    ActorRef::from(r.clone()).send(m).await
}

/// the actors asked in turn: none waits for one before it
fn path(from: usize, bits: u8, actors: usize) -> Vec<u8> {
    (from + 1..actors).filter(|j| bits >> (j % 8) & 1 == 1).map(|j| j as u8).collect()
}

struct Messaging;
impl Part for Messaging {
    type Case = Case;
    fn name(&self) -> &'static str {
        "messaging"
    }
    fn rule(&self) -> &'static str {
        "2-3 real nodes over loopback (plus possibly a system that is not a member), actors whose ids may repeat on other nodes, callers on every node with requests in flight one by one or all at once, content of 0-300000 bytes, handlers that take up to 1.5 s and handlers that ask on across nodes before they answer, unknown actors and nodes, unregistered messages, unencodable and undecodable messages and results, panicking handlers; non-trivial: at least two callers and eight operations"
    }
    fn cases(&self, tier: Tier) -> u32 {
        match tier {
            Tier::Quick => 700,
            Tier::Thorough => 12000,
        }
    }
    fn shards(&self) -> u32 {
        16
    }
    fn shrink_budget(&self) -> (u32, Duration) {
        (60, Duration::from_secs(120))
    }
    fn strategy(&self, _t: Tier) -> BoxedStrategy<Case> {
        let caller = (0u8..4, any::<bool>(), any::<bool>(), prop::collection::vec(op(), 1..20))
            .prop_map(|(node, overlap, generic, ops)| Caller { node, overlap, generic, ops });
        (2u8..4, prop_oneof![2 => Just(1000u64), 1 => Just(1), 1 => Just(7_000_000_000)], prop::collection::vec(0u8..3, 1..7), any::<bool>(), prop::bool::weighted(0.3), prop::collection::vec(caller, 1..5), prop::option::of((0u8..3, 0u8..6, 1u8..8)))
            .prop_map(|(nodes, base, actors, same_ids, outsider, callers, boom)| Case { nodes, base, actors, same_ids, outsider, callers, boom })
            .boxed()
    }
    fn per_process(&self) -> u32 {
        1500
    }
    fn check(&self, c: &Case) -> CaseResult {
        cluster::run(3, async { check(c).await })
    }
}

async fn check(c: &Case) -> CaseResult {
    let n = c.nodes as usize;
    let mut nodes: Vec<Node> = vec![];
    for i in 0..n {
        let seed = nodes.first().map(|x| x.addr.clone());
        nodes.push(cluster::node(c.base + i as u64, seed.as_deref(), move |b| config(b, i % 2 == 0)).await);
    }
    cluster::converged(&nodes.iter().collect::<Vec<_>>()).await?;
    let mut systems: Vec<RemoteActorSystem> = nodes.iter().map(|n| n.sys.clone()).collect();
    if c.outsider {
        let sys = cluster::system(50_000, "outsider", move |b| config(b, true)).await;
        let client = sys.get_remote_client(nodes[0].addr.clone()).await;
        ensure!(client.is_some(), "no client for a listening node");
        let _ = soon(|| "identifying the node".into(), client.unwrap().identify()).await?;
        systems.push(sys);
    }
    let log = Arc::new(Mutex::new(Log::default()));
    let mut ids = vec![];
    let known: Arc<Mutex<Vec<(String, usize)>>> = Default::default();
    let base = c.base;
    let mut per_node = HashMap::<usize, usize>::new();
    for (i, at) in c.actors.iter().enumerate() {
        let at = *at as usize % n;
        let k = per_node.entry(at).or_default();
        let id = if c.same_ids { format!("actor-{k}") } else { format!("actor-{at}-{k}") };
        *k += 1;
        let a = Rem { node: at as u8, idx: i as u8, boom: None, base, ids: known.clone(), log: log.clone() };
        nodes[at]
            .sys
            .actor_system()
            .new_actor(id.clone(), a, ActorType::Tracked)
            .await
            .map_err(|e| Fail::Safety(format!("actor not started: {e}")))?;
        ids.push((id, at));
    }
    *known.lock() = ids.clone();
    // the outsider only knows node 0
    let reach = |caller: usize, at: usize| caller < n || at == 0;

    let mut tasks = vec![];
    let mut next = 0u32;
    let mut plan: Vec<(u32, usize, Op)> = vec![];
    for call in &c.callers {
        let from = call.node as usize % systems.len();
        let sys = systems[from].clone();
        let mut ops = vec![];
        for o in &call.ops {
            let mut ai = o.actor as usize % ids.len();
            // a reference to an actor on the caller's own node is a local one: pick another
            for k in 0..ids.len() {
                let j = (o.actor as usize + k) % ids.len();
                if ids[j].1 != from && reach(from, ids[j].1) {
                    ai = j;
                    break;
                }
            }
            if ids[ai].1 == from || !reach(from, ids[ai].1) {
                continue;
            }
            ops.push((next, ai, o.clone()));
            plan.push((next, ai, o.clone()));
            next += 1;
        }
        let (ids, overlap, generic, count) = (ids.clone(), call.overlap, call.generic, ids.len());
        tasks.push((from, tokio::spawn(async move {
            let one = |(op, ai, o): (u32, usize, Op)| {
                let sys = sys.clone();
                let (id, at) = ids[ai].clone();
                async move {
                    let node = base + at as u64;
                    let p: Vec<u8> = (0..o.len).map(|i| (i as u8).wrapping_mul(o.fill | 1)).collect();
                    let r = RemoteActorRef::<Rem>::new(id.to_actor_id(), node, sys.clone());
                    let work = o.work;
                    let out = match o.kind {
                        Kind::Send => Outcome::Reply(ask(&r, generic, Echo { op, work, p }).await),
                        Kind::Notify => Outcome::Sent(ActorRef::from(r).notify(Echo { op, work, p }).await),
                        Kind::Abandon(ms) => {
                            let t = tokio::spawn(async move { ask(&r, generic, Echo { op, work, p }).await });
                            tokio::time::sleep(Duration::from_millis(ms as u64)).await;
                            t.abort();
                            Outcome::Gone
                        }
                        Kind::Ghost => {
                            let r = RemoteActorRef::<Rem>::new("nobody".to_actor_id(), node, sys.clone());
                            Outcome::Reply(ask(&r, generic, Echo { op, work, p }).await)
                        }
                        Kind::NoNode => {
                            let r = RemoteActorRef::<Rem>::new(id.to_actor_id(), 777_777, sys.clone());
                            Outcome::Reply(ask(&r, generic, Echo { op, work, p }).await)
                        }
                        Kind::NoResult => Outcome::Reply(ask(&r, generic, NoResult { op, work, p }).await),
                        Kind::Unreadable => Outcome::Reply(ask(&r, generic, Unreadable { op, work, p }).await),
                        Kind::BadResult => Outcome::Reply(ask(&r, generic, BadResult { op, work, p }).await),
                        Kind::Local => Outcome::Reply(ask(&r, generic, LocalOnly { op, work, p }).await),
                        Kind::Partial => Outcome::Reply(ask(&r, generic, Partial { op, work, p }).await),
                        Kind::Relay(bits) => Outcome::Reply(ask(&r, generic, Relay { op, path: path(ai, bits, count) }).await),
                    };
                    (op, out)
                }
            };
            let mut res = vec![];
            if overlap {
                res = futures::future::join_all(ops.into_iter().map(one)).await;
            } else {
                for o in ops {
                    res.push(one(o).await);
                }
            }
            res
        })));
    }
    let mut outs: HashMap<u32, (usize, Outcome)> = HashMap::new();
    for (from, t) in tasks {
        let r = soon(|| format!("all operations of a caller on node {from}"), t).await?;
        let r = r.map_err(|e| Fail::Safety(format!("a caller panicked: {e}")))?;
        for (op, o) in r {
            outs.insert(op, (from, o));
        }
    }
    // one more actor, which dies while it is asked
    let mut booms = 0;
    if let Some((at, from, count)) = c.boom {
        let at = at as usize % n;
        let from = (from as usize) % systems.len();
        if from != at && reach(from, at) {
            booms = count;
            let boom = next + count as u32 / 2;
            let a = Rem { node: at as u8, idx: 200, boom: Some(boom), base, ids: known.clone(), log: log.clone() };
            nodes[at].sys.actor_system().new_actor("doomed", a, ActorType::Tracked).await.map_err(|e| Fail::Safety(format!("actor not started: {e}")))?;
            for k in 0..count as u32 {
                let r = RemoteActorRef::<Rem>::new("doomed".to_actor_id(), base + at as u64, systems[from].clone());
                let got = soon(|| format!("request {k} of {count} to an actor that panics on request {}", boom - next), ask(&r, false, Echo { op: next + k, work: 0, p: vec![] })).await?;
                if next + k < boom {
                    ensure!(got == Ok((next + k, at as u8, 200, sum(&[]))), "request {k} before the panic got {got:?}");
                } else {
                    ensure!(got.is_err(), "request {k} at or after the panic got {got:?}");
                }
            }
        }
    }
    // all notifications arrive
    let handled = |op: u32| log.lock().handled.iter().filter(|r| r.0 == op).count();
    for (op, ai, o) in &plan {
        if o.kind == Kind::Notify {
            eventually(|| format!("notification {op} to actor {ai} handled"), || Ok(handled(*op) >= 1)).await?;
        }
    }
    tokio::time::sleep(Duration::from_millis(30)).await;
    let l = log.lock();
    ensure!(!l.overlapped, "an actor handled two messages at once");
    let mut by_op: HashMap<u32, Vec<Reply>> = HashMap::new();
    for r in &l.handled {
        by_op.entry(r.0).or_default().push(*r);
    }
    let (mut errors, mut big, mut relays) = (0, false, 0);
    for (op, ai, o) in &plan {
        let p: Vec<u8> = (0..o.len).map(|i| (i as u8).wrapping_mul(o.fill | 1)).collect();
        big |= o.len > 9000;
        let want: Reply = (*op, ids[*ai].1 as u8, *ai as u8, sum(&p));
        let got = by_op.get(op).cloned().unwrap_or_default();
        let (from, out) = &outs[op];
        let registered = *from % 2 == 0 || *from >= n;
        match (&o.kind, out) {
            (Kind::Send, Outcome::Reply(r)) => {
                ensure!(r == &Ok(want), "request {op} from system {from} to actor {:?} got {r:?}, expected {want:?}", ids[*ai]);
                ensure!(got == vec![want], "request {op} to {want:?} was handled as {got:?}");
            }
            (Kind::Notify, Outcome::Sent(r)) => {
                ensure!(r.is_ok(), "notification {op} failed: {r:?}");
                ensure!(got == vec![want], "notification {op} to {want:?} was handled as {got:?}");
            }
            (Kind::Abandon(_), _) => ensure!(got.is_empty() || got == vec![want], "abandoned request {op} to {want:?} was handled as {got:?}"),
            (Kind::Partial, Outcome::Reply(r)) => {
                if registered && ids[*ai].1 % 2 == 0 {
                    ensure!(r == &Ok(want) && got == vec![want], "request {op} from {from} got {r:?}, handled as {got:?}, expected {want:?}");
                } else {
                    errors += 1;
                    ensure!(r.is_err() && got.is_empty(), "request {op} of a message that one side does not know got {r:?}, handled as {got:?}");
                }
            }
            (Kind::Relay(bits), Outcome::Reply(r)) => {
                let hops: Vec<Reply> = std::iter::once(*ai as u8).chain(path(*ai, *bits, ids.len())).map(|i| (*op, ids[i as usize].1 as u8, i, sum(&[]))).collect();
                relays = relays.max(hops.len());
                ensure!(r.as_ref().ok() == hops.last() && got == hops, "request {op} over {hops:?} got {r:?}, handled as {got:?}");
            }
            (Kind::NoResult | Kind::BadResult, Outcome::Reply(r)) => {
                errors += 1;
                ensure!(r.is_err() && got == vec![want], "request {op} with an unusable result got {r:?}, handled as {got:?}");
            }
            (k, Outcome::Reply(r)) => {
                errors += 1;
                ensure!(r.is_err() && got.is_empty(), "request {op} ({k:?}) got {r:?}, handled as {got:?}");
            }
            _ => unreachable!(),
        }
    }
    drop(l);
    cluster::teardown(nodes).await;
    Ok(CaseOut::new(plan.len() >= 8 && c.callers.len() >= 2)
        .label(errors > 0, "unservable requests")
        .label(big, "large content")
        .label(booms > 0, "panicking handler")
        .label(c.outsider, "outsider")
        .label(relays > 2, "requests over three or more actors")
        .label(plan.iter().any(|p| p.2.work == 255), "slow handler")
        .label(c.same_ids, "ids repeat across nodes"))
}

/// Actors come and go under a few ids, of two types; every request names an id and a type.
#[derive(Debug, Clone, Copy, Serialize, Deserialize, PartialEq)]
enum Deed {
    Spawn { id: u8, ty: u8 },
    /// the given one of the actors spawned so far
    Stop(u8),
    Panic(u8),
    Ask { id: u8, ty: u8, len: u32, reply: u32 },
    Tell { id: u8, ty: u8, len: u32 },
    /// the actor starts its successor under its id and ends before it answers, or after
    Hand { id: u8, ty: u8, dies: bool },
}
#[derive(Debug, Clone, Serialize, Deserialize)]
struct LifeCase {
    /// the calling system is not a member of the cluster
    outsider: bool,
    deeds: Vec<Deed>,
}

#[derive(Clone)]
struct Get {
    op: u32,
    reply: u32,
    p: Vec<u8>,
}
fn blob(len: u32, salt: u32) -> Vec<u8> {
    (0..len).map(|i| (i ^ (i >> 8)).wrapping_add(salt) as u8).collect()
}
impl Message for Get {
    /// incarnation, digest of the content, content of the reply
    type Result = (u32, u64, Vec<u8>);
    fn as_bytes(&self) -> Result<Vec<u8>, MessageWrapErr> {
        let mut v = self.op.to_le_bytes().to_vec();
        v.extend_from_slice(&self.reply.to_le_bytes());
        v.extend_from_slice(&self.p);
        Ok(v)
    }
    fn from_bytes(b: Vec<u8>) -> Result<Self, MessageUnwrapErr> {
        if b.len() < 8 {
            return Err(MessageUnwrapErr::DeserializationErr);
        }
        let n = |r: std::ops::Range<usize>| u32::from_le_bytes(b[r].try_into().unwrap());
        Ok(Get { op: n(0..4), reply: n(4..8), p: b[8..].to_vec() })
    }
    fn read_remote_result(b: Vec<u8>) -> Result<Self::Result, MessageUnwrapErr> {
        if b.len() < 12 {
            return Err(MessageUnwrapErr::DeserializationErr);
        }
        Ok((u32::from_le_bytes(b[..4].try_into().unwrap()), u64::from_le_bytes(b[4..12].try_into().unwrap()), b[12..].to_vec()))
    }
    fn write_remote_result(r: Self::Result) -> Result<Vec<u8>, MessageWrapErr> {
        let mut v = r.0.to_le_bytes().to_vec();
        v.extend_from_slice(&r.1.to_le_bytes());
        v.extend_from_slice(&r.2);
        Ok(v)
    }
}
#[derive(Clone)]
struct HandOver {
    op: u32,
    next: u32,
    dies: bool,
}
impl Message for HandOver {
    type Result = u32;
    fn as_bytes(&self) -> Result<Vec<u8>, MessageWrapErr> {
        Ok(enc(self.op, self.dies as u8, &self.next.to_le_bytes()))
    }
    fn from_bytes(b: Vec<u8>) -> Result<Self, MessageUnwrapErr> {
        d_ok(&b).map(|(op, d, p)| HandOver { op, dies: d == 1, next: u32::from_le_bytes(p[..4].try_into().unwrap()) })
    }
    fn read_remote_result(b: Vec<u8>) -> Result<u32, MessageUnwrapErr> {
        Ok(u32::from_le_bytes(b[..4].try_into().map_err(|_| MessageUnwrapErr::DeserializationErr)?))
    }
    fn write_remote_result(r: u32) -> Result<Vec<u8>, MessageWrapErr> {
        Ok(r.to_le_bytes().to_vec())
    }
}
#[vf::async_trait]
impl<const T: u8> Handler<HandOver> for Inc<T> {
    async fn handle(&mut self, m: HandOver, ctx: &mut ActorContext) -> u32 {
        self.told.lock().push((m.op, self.inc, 0));
        let next = Inc::<T> { inc: m.next, told: self.told.clone(), born: self.born.clone() };
        match ctx.system().new_actor(ctx.id().clone(), next, ActorType::Tracked).await {
            Ok(r) => self.born.lock().push(r.into()),
            Err(_) => return u32::MAX,
        }
        if m.dies {
            panic!("told to");
        }
        ctx.stop(None);
        self.inc
    }
}
struct Boom;
impl Message for Boom {
    type Result = ();
}
type Told = Arc<Mutex<Vec<(u32, u32, u64)>>>;
struct Inc<const T: u8> {
    inc: u32,
    told: Told,
    born: Arc<Mutex<Vec<coerce::actor::BoxedActorRef>>>,
}
impl<const T: u8> Actor for Inc<T> {}
#[vf::async_trait]
impl<const T: u8> Handler<Get> for Inc<T> {
    async fn handle(&mut self, m: Get, _ctx: &mut ActorContext) -> (u32, u64, Vec<u8>) {
        self.told.lock().push((m.op, self.inc, sum(&m.p)));
        (self.inc, sum(&m.p), blob(m.reply, m.op))
    }
}
#[vf::async_trait]
impl<const T: u8> Handler<Boom> for Inc<T> {
    async fn handle(&mut self, _: Boom, _ctx: &mut ActorContext) {
        panic!("told to");
    }
}
enum AnyInc {
    A(coerce::actor::LocalActorRef<Inc<0>>),
    B(coerce::actor::LocalActorRef<Inc<1>>),
}

/// what the default frame limit lets through, less some room for the rest of the frame
const FITS: u32 = 8 * 1024 * 1024 - 4096;
const TOO_BIG: u32 = 8 * 1024 * 1024;

struct Lives;
impl Part for Lives {
    type Case = LifeCase;
    fn name(&self) -> &'static str {
        "lives"
    }
    fn rule(&self) -> &'static str {
        "actors of two types are started, stopped, killed and started again under three ids on one node, also while the earlier actor with that id is alive; some start their successor themselves and die; between that a system elsewhere asks and notifies ids as either type, with requests and results of 0 bytes to beyond the frame limit; reference model: the id denotes the latest actor started under it while that lives; non-trivial: two actors under one id and three requests"
    }
    fn cases(&self, tier: Tier) -> u32 {
        match tier {
            Tier::Quick => 300,
            Tier::Thorough => 6000,
        }
    }
    fn shards(&self) -> u32 {
        16
    }
    fn shrink_budget(&self) -> (u32, Duration) {
        (60, Duration::from_secs(120))
    }
    fn per_process(&self) -> u32 {
        1500
    }
    fn strategy(&self, _t: Tier) -> BoxedStrategy<LifeCase> {
        let len = || prop_oneof![60 => 0u32..64, 20 => 64u32..20000, 4 => 20000u32..2_000_000, 1 => FITS - 100..FITS, 1 => TOO_BIG..TOO_BIG + 100_000];
        let deed = prop_oneof![
            4 => (0u8..3, 0u8..2).prop_map(|(id, ty)| Deed::Spawn { id, ty }),
            2 => any::<u8>().prop_map(Deed::Stop),
            1 => any::<u8>().prop_map(Deed::Panic),
            8 => (0u8..3, prop_oneof![3 => Just(0u8), 1 => Just(1u8)], len(), len()).prop_map(|(id, ty, len, reply)| Deed::Ask { id, ty, len, reply }),
            3 => (0u8..3, prop_oneof![3 => Just(0u8), 1 => Just(1u8)], len()).prop_map(|(id, ty, len)| Deed::Tell { id, ty, len }),
        ];
        let deed = prop_oneof![
            18 => deed,
            1 => (0u8..3, prop_oneof![3 => Just(0u8), 1 => Just(1u8)], any::<bool>()).prop_map(|(id, ty, dies)| Deed::Hand { id, ty, dies }),
        ];
        (prop::bool::weighted(0.3), prop::collection::vec(deed, 2..20)).prop_map(|(outsider, deeds)| LifeCase { outsider, deeds }).boxed()
    }
    fn check(&self, c: &LifeCase) -> CaseResult {
        cluster::run(3, async { lives(c).await })
    }
}

async fn lives(c: &LifeCase) -> CaseResult {
    let cfg = |b: &'_ mut RemoteSystemConfigBuilder| {
        b.heartbeat(cluster::heartbeat(100));
        b.with_handler::<Inc<0>, Get>("A.Get").with_handler::<Inc<1>, Get>("B.Get").with_handler::<Inc<0>, HandOver>("A.HandOver").with_handler::<Inc<1>, HandOver>("B.HandOver");
    };
    let mut nodes = vec![];
    nodes.push(cluster::node(1000, None, move |b| { cfg(b); b }).await);
    let caller = if c.outsider {
        let sys = cluster::system(5000, "outsider", move |b| { cfg(b); b }).await;
        let client = sys.get_remote_client(nodes[0].addr.clone()).await;
        ensure!(client.is_some(), "no client for a listening node");
        let _ = soon(|| "identifying the node".into(), client.unwrap().identify()).await?;
        sys
    } else {
        let a = nodes[0].addr.clone();
        nodes.push(cluster::node(1001, Some(&a), move |b| { cfg(b); b }).await);
        cluster::converged(&nodes.iter().collect::<Vec<_>>()).await?;
        nodes[1].sys.clone()
    };
    let told: Told = Default::default();
    let born: Arc<Mutex<Vec<coerce::actor::BoxedActorRef>>> = Default::default();
    let mut handed = false;
    let host = nodes[0].sys.actor_system().clone();
    let mut incs: Vec<(u8, u8, Option<AnyInc>)> = vec![];
    let mut cur: [Option<usize>; 3] = [None; 3];
    let mut expect: Vec<(u32, u32, u64)> = vec![];
    let mut must: Vec<(u32, u32, u64)> = vec![];
    let (mut asks, mut taken, mut big) = (0, false, false);
    for (n, d) in c.deeds.iter().enumerate() {
        let op = n as u32;
        match *d {
            Deed::Spawn { id, ty } => {
                let inc = incs.len() as u32;
                taken |= cur[id as usize].is_some();
                let name = format!("id-{id}");
                let r = if ty == 0 {
                    host.new_actor(name, Inc::<0> { inc, told: told.clone(), born: born.clone() }, ActorType::Tracked).await.map(AnyInc::A)
                } else {
                    host.new_actor(name, Inc::<1> { inc, told: told.clone(), born: born.clone() }, ActorType::Tracked).await.map(AnyInc::B)
                };
                let r = r.map_err(|e| Fail::Safety(format!("actor not started: {e}")))?;
                cur[id as usize] = Some(incs.len());
                incs.push((id, ty, Some(r)));
            }
            Deed::Stop(k) | Deed::Panic(k) => {
                let alive: Vec<usize> = (0..incs.len()).filter(|i| incs[*i].2.is_some()).collect();
                if alive.is_empty() {
                    continue;
                }
                let i = alive[k as usize % alive.len()];
                let stop = matches!(d, Deed::Stop(_));
                // the reference is kept until the actor is gone
                let r = incs[i].2.take().unwrap();
                let valid = match &r {
                    AnyInc::A(r) => {
                        let _ = if stop { soon(|| "stop".into(), r.stop()).await?.is_ok() } else { soon(|| "boom".into(), r.send(Boom)).await?.is_ok() };
                        eventually(|| "the actor ended".into(), || Ok(!r.is_valid())).await
                    }
                    AnyInc::B(r) => {
                        let _ = if stop { soon(|| "stop".into(), r.stop()).await?.is_ok() } else { soon(|| "boom".into(), r.send(Boom)).await?.is_ok() };
                        eventually(|| "the actor ended".into(), || Ok(!r.is_valid())).await
                    }
                };
                valid?;
                if cur[incs[i].0 as usize] == Some(i) {
                    cur[incs[i].0 as usize] = None;
                }
            }
            Deed::Ask { id, ty, len, reply } => {
                asks += 1;
                big |= len > 20000 || reply > 20000;
                let p = blob(len, 7 * op);
                let digest = sum(&p);
                let m = Get { op, reply, p };
                let aid = format!("id-{id}").to_actor_id();
                let what = || format!("step {n}: request ({len} bytes, reply of {reply} bytes) to id-{id} as type {ty}");
                let got = if ty == 0 {
                    soon(what, ActorRef::from(RemoteActorRef::<Inc<0>>::new(aid, 1000, caller.clone())).send(m)).await?
                } else {
                    soon(what, ActorRef::from(RemoteActorRef::<Inc<1>>::new(aid, 1000, caller.clone())).send(m)).await?
                };
                let target = cur[id as usize].filter(|i| incs[*i].1 == ty);
                match target {
                    Some(i) => {
                        let fits = len < TOO_BIG;
                        if fits {
                            expect.push((op, i as u32, digest));
                            must.push((op, i as u32, digest));
                        }
                        if fits && reply < TOO_BIG {
                            let ok = matches!(&got, Ok((inc, d, b)) if *inc == i as u32 && *d == digest && *b == blob(reply, op));
                            ensure!(ok, "step {n} {d:?}: the id denotes actor {i}, the request got {:?}", got.map(|g| (g.0, g.1 == digest, g.2.len())));
                        } else if let Ok(g) = got {
                            // beyond the frame limit: an error, unless it does get through
                            ensure!(g.0 == i as u32 && g.1 == digest && g.2 == blob(reply, op), "step {n} {d:?}: wrong result from actor {}", g.0);
                            if !fits {
                                expect.push((op, i as u32, digest));
                                must.push((op, i as u32, digest));
                            }
                        }
                    }
                    None => ensure!(got.is_err(), "step {n} {d:?}: the id denotes no such actor, the request got {:?}", got.map(|g| (g.0, g.1, g.2.len()))),
                }
            }
            Deed::Hand { id, ty, dies } => {
                let m = HandOver { op, next: incs.len() as u32, dies };
                let aid = format!("id-{id}").to_actor_id();
                let what = || format!("step {n}: asking id-{id} as type {ty} to hand over");
                let got = if ty == 0 {
                    soon(what, ActorRef::from(RemoteActorRef::<Inc<0>>::new(aid, 1000, caller.clone())).send(m)).await?
                } else {
                    soon(what, ActorRef::from(RemoteActorRef::<Inc<1>>::new(aid, 1000, caller.clone())).send(m)).await?
                };
                match cur[id as usize].filter(|i| incs[*i].1 == ty) {
                    Some(i) => {
                        handed = true;
                        expect.push((op, i as u32, 0));
                        must.push((op, i as u32, 0));
                        if dies {
                            ensure!(got.is_err(), "step {n} {d:?}: actor {i} died, the request got {got:?}");
                        } else {
                            ensure!(got == Ok(i as u32), "step {n} {d:?}: the id denotes actor {i}, the request got {got:?}");
                        }
                        let gone = match incs[i].2.take().unwrap() {
                            AnyInc::A(r) => eventually(|| "the actor ended".into(), || Ok(!r.is_valid())).await,
                            AnyInc::B(r) => eventually(|| "the actor ended".into(), || Ok(!r.is_valid())).await,
                        };
                        gone?;
                        let all: Vec<_> = born.lock().drain(..).collect();
                        ensure!(all.len() == 1, "step {n} {d:?}: {} successors were started", all.len());
                        cur[id as usize] = Some(incs.len());
                        let r = if ty == 0 { all[0].as_actor().map(AnyInc::A) } else { all[0].as_actor().map(AnyInc::B) };
                        ensure!(r.is_some(), "step {n}: not a reference to the successor");
                        incs.push((id, ty, r));
                    }
                    None => ensure!(got.is_err(), "step {n} {d:?}: the id denotes no such actor, the request got {got:?}"),
                }
            }
            Deed::Tell { id, ty, len } => {
                let p = blob(len, 7 * op);
                let digest = sum(&p);
                let m = Get { op, reply: 0, p };
                let aid = format!("id-{id}").to_actor_id();
                let what = || format!("step {n}: notification to id-{id}");
                let got = if ty == 0 {
                    soon(what, ActorRef::from(RemoteActorRef::<Inc<0>>::new(aid, 1000, caller.clone())).notify(m)).await?
                } else {
                    soon(what, ActorRef::from(RemoteActorRef::<Inc<1>>::new(aid, 1000, caller.clone())).notify(m)).await?
                };
                if let Some(i) = cur[id as usize].filter(|i| incs[*i].1 == ty) {
                    if len < TOO_BIG {
                        ensure!(got.is_ok(), "step {n} {d:?}: the notification got {got:?}");
                        must.push((op, i as u32, digest));
                        // it names the id: it has to arrive before the id changes hands
                        eventually(|| format!("step {n}: notification handled"), || Ok(told.lock().iter().any(|t| t.0 == op))).await?;
                    }
                    expect.push((op, i as u32, digest));
                } else {
                    // given up on after a while
                    tokio::time::sleep(Duration::from_millis(150)).await;
                }
            }
        }
    }
    tokio::time::sleep(Duration::from_millis(30)).await;
    let mut seen = told.lock().clone();
    seen.sort();
    for w in seen.windows(2) {
        ensure!(w[0] != w[1], "message of step {} was handled twice", w[0].0);
    }
    for m in &must {
        ensure!(seen.contains(m), "message of step {} was not handled by actor {}: {:?}", m.0, m.1, seen.iter().filter(|s| s.0 == m.0).collect::<Vec<_>>());
    }
    for s in &seen {
        ensure!(expect.contains(s), "step {} {:?}: handled by actor {} (content {})", s.0, c.deeds[s.0 as usize], s.1, s.2);
    }
    if c.outsider {
        let _ = tokio::time::timeout(Duration::from_secs(3), caller.actor_system().shutdown()).await;
    }
    cluster::teardown(nodes).await;
    let reused = (0..3u8).any(|id| incs.iter().filter(|i| i.0 == id).count() > 1);
    Ok(CaseOut::new(reused && asks >= 3)
        .label(taken, "id taken over from a running actor")
        .label(handed, "handed over")
        .label(big, "large content")
        .label(c.outsider, "outsider"))
}

pub fn run() {
    Runner::from_args("C15")
        .assume("parts other than cuts: connections stay up for the duration of a case")
        .part(Messaging)
        .part(Lives)
        .part(crate::cuts::Cuts)
        .finish()
}
