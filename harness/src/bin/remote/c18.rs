//! C18: publish / subscribe, on one node against a sequential model in virtual time, and on real
//! clusters with concurrent publishers and changing subscribers.
use coerce::actor::context::ActorContext;
use coerce::actor::message::{Handler, Message};
use coerce::actor::scheduler::ActorType;
use coerce::actor::{Actor, IntoActorId, LocalActorRef};
use coerce::remote::net::StreamData;
use coerce::remote::stream::pubsub::{PubSub, Receive, Subscription, Topic};
use coerce::remote::system::RemoteActorSystem;
use parking_lot::Mutex;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::sync::Arc;
use std::time::{Duration, Instant};
use vf::cluster::{self, patience};
use vf::rt::{perturb, settle};
use vf::*;

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
struct Note {
    publisher: u32,
    seq: u32,
    text: String,
}
impl StreamData for Note {
    fn read_from_bytes(b: Vec<u8>) -> Option<Self> {
        serde_json::from_slice(&b).ok()
    }
    fn write_to_bytes(&self) -> Option<Vec<u8>> {
        serde_json::to_vec(self).ok()
    }
}
/// two topic types, each with keys
struct News(String);
impl Topic for News {
    type Message = Note;
    fn topic_name() -> &'static str {
        "news"
    }
    fn key(&self) -> String {
        self.0.clone()
    }
}
struct Weather(String);
impl Topic for Weather {
    type Message = Note;
    fn topic_name() -> &'static str {
        "weather"
    }
    fn key(&self) -> String {
        self.0.clone()
    }
}
/// topic number -> (type, key); keys overlap between the types
fn topic(n: u8) -> (bool, String) {
    (n % 2 == 0, ["", "a", "b"][(n / 2) as usize % 3].to_string())
}
const TOPICS: u8 = 6;

async fn publish(n: u8, m: Note, cluster: bool, sys: &RemoteActorSystem) {
    let (news, key) = topic(n);
    match (news, cluster) {
        (true, true) => PubSub::publish(News(key), m, sys).await,
        (true, false) => PubSub::publish_locally(News(key), m, sys).await,
        (false, true) => PubSub::publish(Weather(key), m, sys).await,
        (false, false) => PubSub::publish_locally(Weather(key), m, sys).await,
    }
}

type Log = Arc<Mutex<Vec<(bool, Note)>>>;
struct Reader {
    log: Log,
    slow: u8,
    /// fails on every n-th message
    panics: Option<u8>,
    got: u32,
    subs: HashMap<u8, Subscription>,
}
impl Actor for Reader {}
impl Reader {
    async fn take(&mut self, news: bool, m: &Note) {
        self.log.lock().push((news, m.clone()));
        self.got += 1;
        if self.slow > 0 {
            tokio::time::sleep(Duration::from_millis(self.slow as u64)).await;
        }
        if let Some(p) = self.panics {
            if self.got % p as u32 == 0 {
                panic!("told to");
            }
        }
    }
}
#[vf::async_trait]
impl Handler<Receive<News>> for Reader {
    async fn handle(&mut self, m: Receive<News>, _: &mut ActorContext) {
        self.take(true, &m.0).await
    }
}
#[vf::async_trait]
impl Handler<Receive<Weather>> for Reader {
    async fn handle(&mut self, m: Receive<Weather>, _: &mut ActorContext) {
        self.take(false, &m.0).await
    }
}
struct Sub(u8);
impl Message for Sub {
    type Result = bool;
}
#[vf::async_trait]
impl Handler<Sub> for Reader {
    async fn handle(&mut self, m: Sub, ctx: &mut ActorContext) -> bool {
        let (news, key) = topic(m.0);
        let s = if news { PubSub::subscribe::<Self, News>(News(key), ctx).await } else { PubSub::subscribe::<Self, Weather>(Weather(key), ctx).await };
        match s {
            Ok(s) => {
                self.subs.insert(m.0, s);
                true
            }
            Err(_) => false,
        }
    }
}
struct Unsub(u8, bool);
impl Message for Unsub {
    type Result = ();
}
#[vf::async_trait]
impl Handler<Unsub> for Reader {
    async fn handle(&mut self, m: Unsub, _: &mut ActorContext) {
        if let Some(mut s) = self.subs.remove(&m.0) {
            if m.1 {
                s.unsubscribe();
            }
        }
    }
}

// ---------------------------------------------------------------------------------------------
#[derive(Debug, Clone, Serialize, Deserialize)]
enum Op {
    Subscribe(u8, u8),
    Unsubscribe(u8, u8, bool),
    Stop(u8),
    /// topic, cluster-wide, how many
    Publish(u8, bool, u8),
    Settle,
    Perturb(u8),
}
#[derive(Debug, Clone, Serialize, Deserialize)]
struct LocalCase {
    readers: Vec<(u8, Option<u8>)>,
    ops: Vec<Op>,
}
struct Local;
impl Part for Local {
    type Case = LocalCase;
    fn name(&self) -> &'static str {
        "local-model"
    }
    fn rule(&self) -> &'static str {
        "one system in virtual time: sequences of subscribing, unsubscribing (explicitly or by dropping), stopping and publishing bursts over 6 topics (2 types x 3 keys) and up to 5 subscribers, some slow, some failing; each subscriber's log is compared with the subscriptions in force when each message was published; non-trivial: two subscribers of one topic and a message that not everyone may see"
    }
    fn cases(&self, tier: Tier) -> u32 {
        match tier {
            Tier::Quick => 4000,
            Tier::Thorough => 200000,
        }
    }
    fn strategy(&self, _t: Tier) -> BoxedStrategy<LocalCase> {
        let topics = || prop_oneof![5 => 0u8..2, 1 => 0u8..TOPICS];
        let op = prop_oneof![
            5 => (0u8..5, topics()).prop_map(|(a, t)| Op::Subscribe(a, t)),
            2 => (0u8..5, topics(), any::<bool>()).prop_map(|(a, t, d)| Op::Unsubscribe(a, t, d)),
            1 => (0u8..5).prop_map(Op::Stop),
            6 => (topics(), any::<bool>(), prop_oneof![20 => 1u8..4, 1 => 100u8..220]).prop_map(|(t, c, n)| Op::Publish(t, c, n)),
            3 => Just(Op::Settle),
            2 => (0u8..4).prop_map(Op::Perturb),
        ];
        (
            prop::collection::vec((prop_oneof![3 => Just(0u8), 1 => 1u8..100], prop::option::weighted(0.1, 1u8..6)), 1..6),
            prop::collection::vec(op, 6..40),
        )
            .prop_map(|(readers, ops)| LocalCase { readers, ops })
            .boxed()
    }
    fn check(&self, c: &LocalCase) -> CaseResult {
        block_on_paused(local(c))
    }
}

#[derive(Clone, Copy, PartialEq)]
enum Must {
    Yes,
    No,
    May,
}

async fn local(c: &LocalCase) -> CaseResult {
    let sys = cluster::system(1, "one", |b| b).await;
    let n = c.readers.len();
    let mut refs: Vec<LocalActorRef<Reader>> = vec![];
    let mut logs: Vec<Log> = vec![];
    for (i, (slow, panics)) in c.readers.iter().enumerate() {
        let log = Log::default();
        logs.push(log.clone());
        refs.push(
            sys.actor_system()
                .new_actor(format!("r{i}").into_actor_id(), Reader { log, slow: *slow, panics: *panics, got: 0, subs: HashMap::new() }, ActorType::Anonymous)
                .await
                .expect("reader"),
        );
    }
    let mut subscribed: Vec<BTreeSet<u8>> = vec![BTreeSet::new(); n];
    let mut alive = vec![true; n];
    let mut seq = 0u32;
    // per message: topic, and what each reader must see
    let mut sent: Vec<(u8, Vec<Must>)> = vec![];
    // readers that may still lose messages when they unsubscribe now
    let mut open: Vec<usize> = vec![];
    let (mut shared, mut excluded) = (false, false);
    for op in &c.ops {
        match op {
            Op::Subscribe(a, t) => {
                let a = *a as usize % n;
                if alive[a] && !subscribed[a].contains(t) {
                    // (a reader whose handler fails is stopped by that, at a moment of its own)
                    if rt::within("subscribing", refs[a].send(Sub(*t))).await?.unwrap_or(false) {
                        subscribed[a].insert(*t);
                    } else {
                        ensure!(c.readers[a].1.is_some(), "reader {a} could not subscribe to topic {t}");
                    }
                }
            }
            Op::Unsubscribe(a, t, explicit) => {
                let a = *a as usize % n;
                if alive[a] && subscribed[a].remove(t) {
                    let done = rt::within("unsubscribing", refs[a].send(Unsub(*t, *explicit))).await?.is_ok();
                    ensure!(done || c.readers[a].1.is_some(), "reader {a} could not unsubscribe");
                    for m in &open {
                        if sent[*m].0 == *t && sent[*m].1[a] == Must::Yes {
                            sent[*m].1[a] = Must::May;
                        }
                    }
                }
            }
            Op::Stop(a) => {
                let a = *a as usize % n;
                if alive[a] {
                    alive[a] = false;
                    let _ = rt::within("stopping", refs[a].stop()).await?;
                    subscribed[a].clear();
                    for m in &open {
                        if sent[*m].1[a] == Must::Yes {
                            sent[*m].1[a] = Must::May;
                        }
                    }
                }
            }
            Op::Publish(t, cluster, k) => {
                for _ in 0..*k {
                    let must: Vec<Must> = subscribed
                        .iter()
                        .enumerate()
                        .map(|(a, s)| match (s.contains(t), c.readers[a].1) {
                            (true, None) => Must::Yes,
                            (true, Some(_)) => Must::May,
                            (false, _) => Must::No,
                        })
                        .collect();
                    shared |= must.iter().filter(|m| **m == Must::Yes).count() > 1;
                    excluded |= must.iter().any(|m| *m == Must::No);
                    open.push(sent.len());
                    sent.push((*t, must));
                    rt::within("publishing", publish(*t, Note { publisher: 0, seq, text: format!("{t}/{seq}") }, *cluster, &sys)).await?;
                    seq += 1;
                }
            }
            Op::Settle => {
                // well below any slow reader's total, so that slow ones cannot be what others wait for
                settle(1).await;
                for (a, log) in logs.iter().enumerate() {
                    if c.readers[a].0 == 0 && alive[a] {
                        let got: BTreeSet<u32> = log.lock().iter().map(|(_, m)| m.seq).collect();
                        for (s, (t, must)) in sent.iter().enumerate() {
                            ensure!(must[a] != Must::Yes || got.contains(&(s as u32)), "reader {a} (not slow) has not received message {s} of topic {t}, everything else being at rest");
                        }
                    }
                }
                settle(40_000).await;
                open.clear();
            }
            Op::Perturb(p) => perturb(*p).await,
        }
    }
    settle(200_000).await;
    for (a, log) in logs.iter().enumerate() {
        let log = log.lock();
        let mut last: BTreeMap<u8, u32> = BTreeMap::new();
        let mut seen = BTreeSet::new();
        for (news, m) in log.iter() {
            let Some((t, must)) = sent.get(m.seq as usize) else {
                return Err(Fail::Safety(format!("reader {a} received {m:?}, which nobody published")));
            };
            ensure!(m.text == format!("{t}/{}", m.seq) && topic(*t).0 == *news, "reader {a} received a changed message {m:?}");
            ensure!(must[a] != Must::No, "reader {a} received message {} of topic {t} without being subscribed when it was published", m.seq);
            ensure!(seen.insert(m.seq), "reader {a} received message {} twice", m.seq);
            if let Some(l) = last.insert(*t, m.seq) {
                ensure!(l < m.seq, "reader {a} received message {} of topic {t} after message {l}", m.seq);
            }
        }
        for (s, (t, must)) in sent.iter().enumerate() {
            ensure!(must[a] != Must::Yes || seen.contains(&(s as u32)), "reader {a} never received message {s} of topic {t} although it was subscribed");
        }
    }
    Ok(CaseOut::new(shared && excluded)
        .label(alive.iter().any(|a| !a), "subscriber-stopped")
        .label(c.readers.iter().any(|r| r.1.is_some()), "failing-subscriber")
        .label(c.readers.iter().any(|r| r.0 > 0), "slow-subscriber")
        .label(sent.len() > 100, "burst"))
}

// ---------------------------------------------------------------------------------------------
#[derive(Debug, Clone, Serialize, Deserialize)]
struct ClusterCase {
    nodes: u8,
    /// node, topics, slow
    readers: Vec<(u8, Vec<u8>, u8)>,
    /// node, topic: subscribes and unsubscribes while messages are published
    churners: Vec<(u8, u8, Vec<u8>)>,
    /// node, messages: topic, cluster-wide, padding, perturbation
    publishers: Vec<(u8, Vec<(u8, bool, u16, u8)>)>,
    kill_reader: Option<u8>,
}
struct Cluster;
impl Part for Cluster {
    type Case = ClusterCase;
    fn name(&self) -> &'static str {
        "cluster"
    }
    fn rule(&self) -> &'static str {
        "2-3 real nodes over loopback TCP; concurrent publishers on any node with bursts of messages to 6 topics, cluster-wide or local, of many sizes; standing subscribers must see all of every publisher's messages that reach their node exactly once, unchanged and in order per publisher and topic; subscribers that come and go must see gap-free runs; non-trivial: a publisher and a subscriber of its topic on different nodes with at least 2 messages"
    }
    fn cases(&self, tier: Tier) -> u32 {
        match tier {
            Tier::Quick => 500,
            Tier::Thorough => 10000,
        }
    }
    fn shards(&self) -> u32 {
        12
    }
    fn shrink_budget(&self) -> (u32, Duration) {
        (60, Duration::from_secs(90))
    }
    fn strategy(&self, _t: Tier) -> BoxedStrategy<ClusterCase> {
        let msg = (0u8..TOPICS, prop::bool::weighted(0.8), prop_oneof![6 => 0u16..60, 1 => 0u16..20000, 1 => 60000u16..65535], prop_oneof![6 => Just(0u8), 1 => 0u8..7]);
        (
            2u8..4,
            prop::collection::vec((0u8..3, prop::collection::btree_set(0u8..TOPICS, 1..4).prop_map(|s| s.into_iter().collect::<Vec<_>>()), prop_oneof![4 => Just(0u8), 1 => 1u8..3]), 1..5),
            prop::collection::vec((0u8..3, 0u8..TOPICS, prop::collection::vec(0u8..12, 1..5)), 0..3),
            prop::collection::vec((0u8..3, prop::collection::vec(msg, 2..60)), 1..4),
            prop::option::weighted(0.25, any::<u8>()),
        )
            .prop_map(|(nodes, readers, churners, publishers, kill_reader)| ClusterCase { nodes, readers, churners, publishers, kill_reader })
            .boxed()
    }
    fn per_process(&self) -> u32 {
        1500
    }
    fn check(&self, c: &ClusterCase) -> CaseResult {
        cluster::run(4, clustered(c))
    }
}

fn padding(p: u32, s: u32, n: u16) -> String {
    let mut t = format!("{p}/{s}/\u{1F980}\"\\\u{0}");
    t.extend(std::iter::repeat(char::from(b'a' + (s % 26) as u8)).take(n as usize));
    t
}

struct Probe;
impl Topic for Probe {
    type Message = Note;
    fn topic_name() -> &'static str {
        "probe"
    }
}
struct ProbeReader(Arc<Mutex<BTreeSet<u32>>>, Option<Subscription>);
#[vf::async_trait]
impl Actor for ProbeReader {
    async fn started(&mut self, ctx: &mut ActorContext) {
        self.1 = PubSub::subscribe::<Self, Probe>(Probe, ctx).await.ok();
    }
}
#[vf::async_trait]
impl Handler<Receive<Probe>> for ProbeReader {
    async fn handle(&mut self, m: Receive<Probe>, _: &mut ActorContext) {
        self.0.lock().insert(m.0.publisher);
    }
}

async fn clustered(c: &ClusterCase) -> CaseResult {
    let n = c.nodes as usize;
    let mut nodes = vec![];
    let mut seed: Option<String> = None;
    for i in 0..n {
        let node = cluster::node(i as u64 + 1, seed.as_deref(), |b| b.heartbeat(cluster::heartbeat(100))).await;
        seed.get_or_insert(node.addr.clone());
        nodes.push(node);
    }
    // every node reaches every other one
    let mut probes = vec![];
    for (i, node) in nodes.iter().enumerate() {
        let p = Arc::new(Mutex::new(BTreeSet::new()));
        node.sys.actor_system().new_actor(format!("probe{i}").into_actor_id(), ProbeReader(p.clone(), None), ActorType::Anonymous).await.expect("probe");
        probes.push(p);
    }
    let t = Instant::now();
    loop {
        for (i, node) in nodes.iter().enumerate() {
            PubSub::publish(Probe, Note { publisher: i as u32, seq: 0, text: String::new() }, &node.sys).await;
        }
        tokio::time::sleep(Duration::from_millis(5)).await;
        if probes.iter().all(|p| p.lock().len() == n) {
            break;
        }
        if t.elapsed() > patience() {
            return Err(Fail::Deadline(format!("not every node's publications reach every node: {:?}", probes.iter().map(|p| p.lock().clone()).collect::<Vec<_>>())));
        }
    }
    let mut readers = vec![];
    for (i, (at, topics, slow)) in c.readers.iter().enumerate() {
        let at = *at as usize % n;
        let log = Log::default();
        let r = nodes[at]
            .sys
            .actor_system()
            .new_actor(format!("r{i}").into_actor_id(), Reader { log: log.clone(), slow: *slow, panics: None, got: 0, subs: HashMap::new() }, ActorType::Anonymous)
            .await
            .expect("reader");
        for t in topics {
            ensure!(r.send(Sub(*t)).await.unwrap_or(false), "reader {i} could not subscribe");
        }
        readers.push((at, r, log));
    }
    let killed = c.kill_reader.map(|k| k as usize % readers.len()).filter(|_| readers.len() > 1);
    let mut churn = vec![];
    for (i, (at, t, pauses)) in c.churners.iter().enumerate() {
        let at = *at as usize % n;
        let log = Log::default();
        let r = nodes[at]
            .sys
            .actor_system()
            .new_actor(format!("c{i}").into_actor_id(), Reader { log: log.clone(), slow: 0, panics: None, got: 0, subs: HashMap::new() }, ActorType::Anonymous)
            .await
            .expect("churner");
        let (t, pauses) = (*t, pauses.clone());
        churn.push((
            at,
            t,
            log.clone(),
            tokio::spawn(async move {
                // the log length at which each subscription ended
                let mut marks = vec![];
                for p in pauses {
                    let _ = r.send(Sub(t)).await;
                    perturb(p).await;
                    let _ = r.send(Unsub(t, p % 2 == 0)).await;
                    // one more round trip: everything forwarded before is handled
                    let _ = r.send(Unsub(t, true)).await;
                    marks.push(log.lock().len());
                    perturb(p / 2).await;
                }
                marks
            }),
        ));
    }
    let mut tasks = vec![];
    for (p, (at, msgs)) in c.publishers.iter().enumerate() {
        let sys = nodes[*at as usize % n].sys.clone();
        let msgs = msgs.clone();
        tasks.push(tokio::spawn(async move {
            for (s, (t, cl, pad, pert)) in msgs.iter().enumerate() {
                publish(*t, Note { publisher: p as u32, seq: s as u32, text: padding(p as u32, s as u32, *pad) }, *cl, &sys).await;
                perturb(*pert).await;
            }
        }));
    }
    if let Some(k) = killed {
        let _ = cluster::soon(|| "stopping a subscriber".into(), readers[k].1.stop()).await?;
    }
    for t in tasks {
        cluster::soon(|| "publishing".into(), t).await?.map_err(|e| Fail::Safety(format!("publishing panicked: {e}")))?;
    }
    // what reader i has to see
    let wanted = |at: usize, topics: &[u8]| -> Vec<(u32, u32)> {
        let mut v = vec![];
        for (p, (from, msgs)) in c.publishers.iter().enumerate() {
            for (s, (t, cl, _, _)) in msgs.iter().enumerate() {
                if topics.contains(t) && (*cl || *from as usize % n == at) {
                    v.push((p as u32, s as u32));
                }
            }
        }
        v
    };
    let mut far = false;
    for (i, (at, _, log)) in readers.iter().enumerate() {
        let want = wanted(*at, &c.readers[i].1);
        far |= want.iter().filter(|(p, _)| c.publishers[*p as usize].0 as usize % n != *at).count() > 1;
        if Some(i) == killed {
            continue;
        }
        let t = Instant::now();
        while log.lock().len() < want.len() {
            if t.elapsed() > patience() {
                let got: BTreeSet<(u32, u32)> = log.lock().iter().map(|(_, m)| (m.publisher, m.seq)).collect();
                let missing: Vec<_> = want.iter().filter(|w| !got.contains(w)).take(10).collect();
                return Err(Fail::Deadline(format!("subscriber {i} on node {at} has not received (publisher, message) {missing:?}")));
            }
            tokio::time::sleep(Duration::from_millis(2)).await;
        }
    }
    let mut marks = vec![];
    for (_, _, _, j) in &mut churn {
        marks.push(cluster::soon(|| "a subscriber that comes and goes".into(), j).await?.map_err(|e| Fail::Safety(format!("churning panicked: {e}")))?);
    }
    tokio::time::sleep(Duration::from_millis(20)).await;
    let order = |i: &str, at: usize, topics: &[u8], log: &[(bool, Note)]| -> Result<(), Fail> {
        let want: BTreeSet<(u32, u32)> = wanted(at, topics).into_iter().collect();
        let mut last: BTreeMap<(u32, u8), u32> = BTreeMap::new();
        for (news, m) in log {
            ensure!(want.contains(&(m.publisher, m.seq)), "{i} on node {at} received message {} of publisher {}, which does not reach it", m.seq, m.publisher);
            let (t, _, pad, _) = &c.publishers[m.publisher as usize].1[m.seq as usize];
            ensure!(m.text == padding(m.publisher, m.seq, *pad) && *news == topic(*t).0, "{i} received a changed message {} of publisher {}", m.seq, m.publisher);
            if let Some(l) = last.insert((m.publisher, *t), m.seq) {
                ensure!(l != m.seq, "{i} received message {} of publisher {} twice", m.seq, m.publisher);
                ensure!(l < m.seq, "{i} on node {at} received message {} of publisher {} (topic {t}) after message {l}", m.seq, m.publisher);
            }
        }
        Ok(())
    };
    for (i, (at, _, log)) in readers.iter().enumerate() {
        let log = log.lock();
        order(&format!("subscriber {i}"), *at, &c.readers[i].1, &log)?;
        if Some(i) != killed {
            let want = wanted(*at, &c.readers[i].1).len();
            ensure!(log.len() == want, "subscriber {i} received {} messages, {want} were published to it", log.len());
        }
    }
    let mut ran = 0;
    for (k, (at, t, log, _)) in churn.iter().enumerate() {
        let log = log.lock();
        order(&format!("changing subscriber {k}"), *at, &[*t], &log)?;
        let mut from = 0;
        for to in marks[k].iter().chain([&log.len()]) {
            // within one subscription there are no gaps
            let mut runs: BTreeMap<u32, Vec<u32>> = BTreeMap::new();
            for (_, m) in &log[from..*to] {
                runs.entry(m.publisher).or_default().push(m.seq);
            }
            for (p, got) in runs {
                ran = ran.max(got.len());
                let all: Vec<u32> = wanted(*at, &[*t]).into_iter().filter(|w| w.0 == p).map(|w| w.1).collect();
                let a = all.iter().position(|s| *s == got[0]).unwrap();
                ensure!(
                    all[a..].starts_with(&got),
                    "changing subscriber {k} missed messages of publisher {p} within one subscription: received {got:?} out of {all:?}"
                );
            }
            from = *to;
        }
        ensure!(from == log.len() && marks[k].last().map_or(true, |m| *m == log.len()), "changing subscriber {k} received messages after unsubscribing");
    }
    cluster::teardown(nodes).await;
    Ok(CaseOut::new(far)
        .label(killed.is_some(), "subscriber-stopped")
        .label(ran > 1, "run-in-changing-subscription")
        .label(c.publishers.iter().any(|p| p.1.iter().any(|m| m.2 > 50000)), "large-messages"))
}

pub fn run() {
    let mut r = Runner::from_args("C18");
    r.assume("messages stay below the frame limit of the connection (8 MB)");
    r.part(Local).part(Cluster).finish()
}
