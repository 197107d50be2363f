//! C27: the exported metrics against what really happened.
use crate::http::get;
use coerce::actor::context::ActorContext;
use coerce::actor::message::{Handler, Message};
use coerce::actor::scheduler::ActorType;
use coerce::actor::system::ActorSystem;
use coerce::actor::{Actor, LocalActorRef, ToActorId};
use coerce::remote::api::builder::HttpApiBuilder;
use coerce::remote::api::metrics::MetricsApi;
use coerce::remote::system::RemoteActorSystem;
use parking_lot::Mutex;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::sync::OnceLock;
use std::time::{Duration, Instant};
use vf::cluster::{self, patience, soon};
use vf::*;

#[derive(Debug, Clone, Copy, Serialize, Deserialize)]
pub enum Op {
    /// kind, tracked, number of children
    Create(bool, bool, u8),
    Stop(u8),
    /// the handler panics
    Panic(u8),
    /// which actor, which message, how: 0 send, 1 notify, 2 deliver, 3 scheduled, 4 through a boxed receiver
    Msg(u8, bool, u8, u8),
    /// many at once from several tasks
    Burst(u8, bool, u8),
    Look,
}
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Case {
    ops: Vec<Op>,
}

struct A<const N: usize, const K: bool> {
    kids: u8,
}
#[vf::async_trait]
impl<const N: usize, const K: bool> Actor for A<N, K> {
    async fn started(&mut self, ctx: &mut ActorContext) {
        for i in 0..self.kids {
            ctx.spawn(format!("kid{i}").to_actor_id(), A::<N, K> { kids: 0 }).await.expect("spawn");
        }
    }
}
struct Plain;
struct Panics(bool);
impl Message for Plain {
    type Result = u8;
}
impl Message for Panics {
    type Result = ();
}
#[vf::async_trait]
impl<const N: usize, const K: bool> Handler<Plain> for A<N, K> {
    async fn handle(&mut self, _: Plain, _: &mut ActorContext) -> u8 {
        tokio::task::yield_now().await;
        7
    }
}
#[vf::async_trait]
impl<const N: usize, const K: bool> Handler<Panics> for A<N, K> {
    async fn handle(&mut self, m: Panics, _: &mut ActorContext) {
        if m.0 {
            panic!("[vf] the handler panics")
        }
    }
}

struct Server {
    addr: String,
    _rt: tokio::runtime::Runtime,
}
const CLUSTER: &str = "the \"cluster\"";
fn server() -> &'static Server {
    static S: OnceLock<Server> = OnceLock::new();
    S.get_or_init(|| {
        let addr = cluster::fresh_addr();
        let a = addr.clone();
        let rt = vf::rt::threads(3);
        std::thread::scope(|t| {
            t.spawn(|| {
                rt.block_on(async move {
                    let sys = RemoteActorSystem::builder().with_actor_system(ActorSystem::new()).with_id(42).with_tag("metrics-node").attribute("cluster", CLUSTER).build().await;
                    let m = MetricsApi::new(sys.clone()).expect("recorder");
                    HttpApiBuilder::new().listen_addr(a.parse().unwrap()).routes(m).start(sys.actor_system()).await;
                    std::mem::forget(sys);
                })
            })
            .join()
            .expect("metrics server")
        });
        Server { addr, _rt: rt }
    })
}

/// (metric, actor type, message type) -> value
type Page = BTreeMap<(String, String, String), f64>;

/// One line per sample: name{label="value",..} value
fn parse(page: &str, only: &str) -> Result<Page, Fail> {
    let mut m = Page::new();
    for line in page.lines().filter(|l| !l.starts_with('#') && !l.trim().is_empty()) {
        let bad = || Fail::Safety(format!("/metrics: the line {line:?} is not a sample"));
        let open = line.find('{').ok_or_else(bad)?;
        let name = line[..open].to_string();
        let mut labels = BTreeMap::new();
        let b: Vec<char> = line[open + 1..].chars().collect();
        let mut i = 0;
        while i < b.len() && b[i] != '}' {
            let mut k = String::new();
            while i < b.len() && b[i] != '=' {
                k.push(b[i]);
                i += 1;
            }
            i += 2;
            let mut v = String::new();
            while i < b.len() && b[i] != '"' {
                if b[i] == '\\' {
                    i += 1;
                }
                if i < b.len() {
                    v.push(b[i]);
                }
                i += 1;
            }
            i += 1;
            if i < b.len() && b[i] == ',' {
                i += 1;
            }
            labels.insert(k, v);
        }
        let value: String = b.get(i + 1..).ok_or_else(bad)?.iter().collect();
        let value: f64 = value.trim().parse().map_err(|_| bad())?;
        let ty = labels.get("actor_type").cloned().unwrap_or_default();
        if !ty.contains(only) {
            continue;
        }
        for (k, v) in [("node_id", "42"), ("node_tag", "metrics-node"), ("cluster", CLUSTER)] {
            ensure!(labels.get(k).map(|s| s.as_str()) == Some(v), "/metrics: a sample of node 42 has the label {k}={:?}: {line}", labels.get(k));
        }
        if labels.contains_key("quantile") || labels.contains_key("le") {
            continue;
        }
        let key = (name, ty, labels.get("msg_type").cloned().unwrap_or_default());
        ensure!(m.insert(key.clone(), value).is_none(), "/metrics lists {key:?} twice");
    }
    Ok(m)
}

async fn page(only: &str) -> Result<Page, Fail> {
    let a = get(&server().addr, "/metrics").await?;
    ensure!(a.status == 200, "GET /metrics is answered with {}", a.status);
    parse(&String::from_utf8_lossy(&a.body), only)
}

#[derive(Default, Clone, Debug)]
struct Count {
    created: u64,
    stopped: u64,
    /// per message type
    sent: [u64; 2],
    processed: [u64; 2],
}

const CREATED: &str = "coerce_actor_created";
const STOPPED: &str = "coerce_actor_stopped";
const SENT: &str = "coerce_actor_msg_sent_total";
const WAIT: &str = "coerce_actor_msg_wait_time";
const TIME: &str = "coerce_actor_msg_processing_time";
const PROCESSED: &str = "coerce_actor_msg_processed_total";

async fn agree(what: &str, only: &str, types: [&'static str; 2], base: &Page, want: &[Count; 2]) -> Result<(), Fail> {
    let t = Instant::now();
    loop {
        let now = page(only).await?;
        let delta = |m: &str, a: &str, msg: &str| {
            let k = (m.to_string(), a.to_string(), msg.to_string());
            now.get(&k).copied().unwrap_or(0.0) - base.get(&k).copied().unwrap_or(0.0)
        };
        let mut wrong = vec![];
        for (a, w) in types.iter().zip(want) {
            let mut check = |m: &str, msg: &str, n: u64| {
                let d = delta(m, a, msg);
                if d != n as f64 {
                    wrong.push((d > n as f64, format!("{m} of {a}{}{msg} grew by {d}, it happened {n} times", if msg.is_empty() { "" } else { ", " })));
                }
            };
            check(CREATED, "", w.created);
            check(STOPPED, "", w.stopped);
            for (i, m) in [Plain::type_name(), Panics::type_name()].into_iter().enumerate() {
                check(SENT, m, w.sent[i]);
                check(PROCESSED, m, w.processed[i]);
                check(&format!("{WAIT}_count"), m, w.processed[i]);
                check(&format!("{TIME}_count"), m, w.processed[i]);
            }
        }
        if wrong.is_empty() {
            return Ok(());
        }
        // counters never fall: what is too high stays wrong
        if let Some((_, m)) = wrong.iter().find(|w| w.0) {
            return Err(Fail::Safety(format!("{what}: {m}")));
        }
        if t.elapsed() > patience() {
            return Err(Fail::Deadline(format!("{what}: {}", wrong[0].1)));
        }
        tokio::time::sleep(Duration::from_millis(15)).await;
    }
}

enum Any<const N: usize> {
    X(LocalActorRef<A<N, false>>),
    Y(LocalActorRef<A<N, true>>),
}
macro_rules! with {
    ($a:expr, $r:ident => $e:expr) => {
        match $a {
            Any::X($r) => $e,
            Any::Y($r) => $e,
        }
    };
}

async fn case<const N: usize>(c: &Case) -> CaseResult {
    let only = format!("::metrics::A<{N}, ");
    let types = [A::<N, false>::type_name(), A::<N, true>::type_name()];
    let base = page(&only).await?;
    let sys = ActorSystem::new();
    let mut want: [Count; 2] = Default::default();
    // (kind, ref, number of children, alive)
    let mut live: Vec<(usize, Any<N>, u64)> = vec![];
    let (mut msgs, mut ended) = (0, false);
    for (n, op) in c.ops.iter().enumerate() {
        let at = format!("after step {n} ({op:?})");
        match *op {
            Op::Create(k, tracked, kids) => {
                let ty = if tracked { ActorType::Tracked } else { ActorType::Anonymous };
                let id = format!("a{n}").to_actor_id();
                let r = if k {
                    sys.new_actor(id, A::<N, true> { kids }, ty).await.map(Any::Y)
                } else {
                    sys.new_actor(id, A::<N, false> { kids }, ty).await.map(Any::X)
                };
                live.push((k as usize, r.map_err(|e| Fail::Safety(format!("{e:?}")))?, kids as u64));
                want[k as usize].created += 1 + kids as u64;
            }
            Op::Stop(i) if !live.is_empty() => {
                let (k, r, kids) = live.remove(i as usize % live.len());
                let _ = soon(|| "stop".into(), async { with!(&r, r => r.stop().await.is_ok()) }).await?;
                want[k].stopped += 1 + kids;
                ended = true;
            }
            Op::Panic(i) if !live.is_empty() => {
                let (k, r, kids) = live.remove(i as usize % live.len());
                let e = soon(|| "a request whose handler panics".into(), async { with!(&r, r => r.send(Panics(true)).await.is_err()) }).await?;
                ensure!(e, "{at}: a request whose handler panics succeeds");
                want[k].sent[1] += 1;
                want[k].stopped += 1 + kids;
                ended = true;
            }
            Op::Msg(i, which, how, times) if !live.is_empty() => {
                let i = i as usize % live.len();
                let (k, r, _) = &live[i];
                for _ in 0..times {
                    msgs += 1;
                    want[*k].sent[which as usize] += 1;
                    want[*k].processed[which as usize] += 1;
                    macro_rules! go {
                        ($r:expr, $m:expr) => {
                            match how % 3 {
                                0 => soon(|| "a request".into(), $r.send($m)).await?.is_ok(),
                                1 => $r.notify($m).is_ok(),
                                _ => {
                                    let (tx, rx) = tokio::sync::oneshot::channel();
                                    $r.deliver($m, tx).is_ok() && soon(|| "a delivered request".into(), rx).await?.is_ok()
                                }
                            }
                        };
                    }
                    let ok = with!(r, r => if which { go!(r, Panics(false)) } else { go!(r, Plain) });
                    ensure!(ok, "{at}: a message to a running actor fails");
                }
            }
            Op::Burst(i, which, tasks) if !live.is_empty() => {
                let i = i as usize % live.len();
                let (k, r, _) = &live[i];
                let mut js = vec![];
                for t in 0..tasks {
                    msgs += 3;
                    want[*k].sent[which as usize] += 3;
                    want[*k].processed[which as usize] += 3;
                    js.push(with!(r, r => {
                        let r = r.clone();
                        tokio::spawn(async move {
                            let mut ok = true;
                            for j in 0..3u8 {
                                ok &= match (which, (t + j) % 2) {
                                    (false, 0) => r.send(Plain).await.is_ok(),
                                    (false, _) => r.notify(Plain).is_ok(),
                                    (true, 0) => r.send(Panics(false)).await.is_ok(),
                                    (true, _) => r.notify(Panics(false)).is_ok(),
                                };
                            }
                            ok
                        })
                    }));
                }
                for j in js {
                    let ok = soon(|| "a burst".into(), j).await?;
                    ensure!(matches!(ok, Ok(true)), "{at}: a message to a running actor fails");
                }
            }
            Op::Look => agree(&at, &only, types, &base, &want).await?,
            _ => {}
        }
    }
    agree("at the end", &only, types, &base, &want).await?;
    for (k, _, kids) in &live {
        want[*k].stopped += 1 + kids;
    }
    let _ = soon(|| "shutdown".into(), sys.shutdown()).await?;
    // actors that nothing tracks end with their last reference
    for (_, r, _) in live {
        let _ = soon(|| "stop".into(), async { with!(&r, r => r.stop().await.is_ok()) }).await?;
    }
    agree("after the shutdown", &only, types, &base, &want).await?;
    Ok(CaseOut::new(msgs > 0).label(ended, "ended actors"))
}

pub struct Metrics;
impl Part for Metrics {
    type Case = Case;
    fn name(&self) -> &'static str {
        "metrics"
    }
    fn rule(&self) -> &'static str {
        "actors of two types (tracked or not, with children) are created, stopped or made to panic, and sent messages of two types with send, notify and deliver, alone and from several tasks; at generated moments GET /metrics must have grown by exactly what happened, per actor and message type, with the node's labels; non-trivial: messages were sent"
    }
    fn cases(&self, tier: Tier) -> u32 {
        match tier {
            Tier::Quick => 500,
            Tier::Thorough => 10000,
        }
    }
    fn strategy(&self, _t: Tier) -> BoxedStrategy<Case> {
        let op = prop_oneof![
            4 => (any::<bool>(), any::<bool>(), prop_oneof![2 => Just(0u8), 1 => 0u8..3]).prop_map(|(a, b, c)| Op::Create(a, b, c)),
            1 => any::<u8>().prop_map(Op::Stop),
            1 => any::<u8>().prop_map(Op::Panic),
            5 => (any::<u8>(), any::<bool>(), any::<u8>(), 1u8..5).prop_map(|(a, b, c, d)| Op::Msg(a, b, c, d)),
            2 => (any::<u8>(), any::<bool>(), 1u8..6).prop_map(|(a, b, c)| Op::Burst(a, b, c)),
            2 => Just(Op::Look),
        ];
        prop::collection::vec(op, 1..16).prop_map(|ops| Case { ops }).boxed()
    }
    fn check(&self, c: &Case) -> CaseResult {
        static FREE: Mutex<Vec<usize>> = Mutex::new(vec![]);
        static INIT: std::sync::Once = std::sync::Once::new();
        INIT.call_once(|| *FREE.lock() = (0..8).collect());
        let slot = loop {
            // one slot is used by one case at a time: counters are per actor type
            if let Some(s) = FREE.lock().pop() {
                break s;
            }
            std::thread::sleep(Duration::from_millis(1));
        };
        macro_rules! pick {
            ($($n:literal)*) => { match slot { $($n => cluster::run(2, case::<$n>(c)),)* _ => unreachable!() } };
        }
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| pick!(0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15)));
        if matches!(r, Ok(Ok(_))) {
            FREE.lock().insert(0, slot);
        } else {
            // what the failed case left running may still count: take other types first
            std::thread::sleep(Duration::from_millis(300));
            FREE.lock().insert(0, slot);
        }
        match r {
            Ok(r) => r,
            Err(p) => std::panic::resume_unwind(p),
        }
    }
}
