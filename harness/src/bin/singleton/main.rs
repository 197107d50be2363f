//! C21: cluster singletons on clusters of real nodes.
use coerce::actor::context::ActorContext;
use coerce::actor::message::{Handler, Message, MessageUnwrapErr, MessageWrapErr};
use coerce::actor::system::ActorSystem;
use coerce::actor::{Actor, ActorRefErr};
use coerce::remote::heartbeat::HeartbeatConfig;
use coerce::remote::net::server::RemoteServer;
use coerce::remote::system::RemoteActorSystem;
use coerce::singleton::factory::SingletonFactory;
use coerce::singleton::{singleton, Singleton, SingletonBuilder};
use parking_lot::Mutex;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::HashMap;
use std::sync::Arc;
use std::time::{Duration, Instant};
use vf::cluster::{self, patience};
use vf::*;

/// what really happened, written by the instances themselves
#[derive(Default)]
struct Book {
    next: u64,
    /// (instance, node)
    live: Vec<(u64, u64)>,
    starts: u64,
    /// starts, stops and departures so far
    moves: u64,
    handled: HashMap<u64, Vec<u64>>,
    wrong: Option<String>,
}
type Shared = Arc<Mutex<Book>>;

struct One {
    book: Shared,
    node: u64,
    me: u64,
    ended: bool,
    slow: Duration,
}
impl One {
    fn end(&mut self) {
        if self.me != 0 && !self.ended {
            self.ended = true;
            let mut b = self.book.lock();
            b.live.retain(|l| l.0 != self.me);
            b.moves += 1;
        }
    }
}
impl Drop for One {
    fn drop(&mut self) {
        self.end()
    }
}
#[vf::async_trait]
impl Actor for One {
    async fn started(&mut self, _: &mut ActorContext) {
        {
            let mut b = self.book.lock();
            b.next += 1;
            b.starts += 1;
            b.moves += 1;
            self.me = b.next;
            if let Some((i, n)) = b.live.first().copied() {
                if b.wrong.is_none() {
                    b.wrong = Some(format!("an instance starts on node {} while instance {i} is running on node {n}", self.node));
                }
            }
            let e = (self.me, self.node);
            b.live.push(e);
        }
        tokio::time::sleep(self.slow).await;
    }
    async fn stopped(&mut self, _: &mut ActorContext) {
        tokio::time::sleep(self.slow).await;
        self.end();
    }
}

struct Fac {
    book: Shared,
    node: u64,
    slow: Duration,
}
impl SingletonFactory for Fac {
    type Actor = One;
    fn create(&self) -> One {
        One { book: self.book.clone(), node: self.node, me: 0, ended: false, slow: self.slow }
    }
}

#[derive(Clone)]
struct Ask {
    id: u64,
    work: u8,
}
impl Message for Ask {
    type Result = (u64, u64);
    fn as_bytes(&self) -> Result<Vec<u8>, MessageWrapErr> {
        Ok(serde_json::to_vec(&(self.id, self.work)).unwrap())
    }
    fn from_bytes(b: Vec<u8>) -> Result<Self, MessageUnwrapErr> {
        serde_json::from_slice(&b).map(|(id, work)| Ask { id, work }).map_err(|_| MessageUnwrapErr::DeserializationErr)
    }
    fn read_remote_result(b: Vec<u8>) -> Result<Self::Result, MessageUnwrapErr> {
        serde_json::from_slice(&b).map_err(|_| MessageUnwrapErr::DeserializationErr)
    }
    fn write_remote_result(r: Self::Result) -> Result<Vec<u8>, MessageWrapErr> {
        Ok(serde_json::to_vec(&r).unwrap())
    }
}
#[vf::async_trait]
impl Handler<Ask> for One {
    async fn handle(&mut self, m: Ask, _: &mut ActorContext) -> (u64, u64) {
        self.book.lock().handled.entry(m.id).or_default().push(self.me);
        if m.work > 0 {
            tokio::time::sleep(Duration::from_millis(m.work as u64)).await;
        }
        (m.id, self.me)
    }
}

#[derive(Debug, Clone, Copy, Serialize, Deserialize)]
struct Msg {
    node: u8,
    notify: bool,
    work: u8,
}
#[derive(Debug, Clone, Copy, Serialize, Deserialize)]
struct Up {
    /// the handle is built before the node starts serving
    before: bool,
    /// ms between the two
    gap: u16,
    /// ms until the next node
    pause: u8,
    seed: u8,
}
#[derive(Debug, Clone, Serialize, Deserialize)]
enum Step {
    Burst(Vec<Msg>),
    /// what is under way while it happens
    Leave { who: u8, crash: bool, meanwhile: Vec<Msg> },
    /// the instance's own node
    LeaveHost { crash: bool, meanwhile: Vec<Msg> },
    /// a node that was created before or after all others
    Join { oldest: bool, up: Up, meanwhile: Vec<Msg> },
}
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Case {
    /// creation order: position of each node
    ages: Vec<u8>,
    ups: Vec<Up>,
    slow: u8,
    early: Vec<Msg>,
    steps: Vec<Step>,
}

struct Live {
    rt: Option<tokio::runtime::Runtime>,
    sys: RemoteActorSystem,
    server: Option<RemoteServer>,
    handle: Option<Singleton<One, Fac>>,
    addr: String,
}
impl Drop for Live {
    fn drop(&mut self) {
        if let Some(s) = &self.server {
            s.stop();
        }
        if let Some(rt) = self.rt.take() {
            rt.shutdown_background();
        }
    }
}

fn launch(id: u64, min: usize) -> Live {
    let rt = vf::rt::threads(1);
    let sys = std::thread::scope(|t| {
        t.spawn(|| {
            rt.block_on(async move {
                RemoteActorSystem::builder()
                    .with_actor_system(ActorSystem::builder().system_name(format!("n{id}")).build())
                    .with_id(id)
                    .with_tag(format!("n{id}"))
                    .configure(move |b| {
                        singleton::<Fac>(b).with_handler::<One, Ask>("One.Ask").heartbeat(HeartbeatConfig {
                            interval: Duration::from_millis(60),
                            ping_timeout: Duration::from_secs(2),
                            unhealthy_node_heartbeat_timeout: Duration::from_secs(4),
                            terminated_node_heartbeat_timeout: Duration::from_secs(8),
                            minimum_cluster_size: if min > 1 { Some(min) } else { None },
                        })
                    })
                    .build()
                    .await
            })
        })
        .join()
        .expect("system")
    });
    Live { rt: Some(rt), sys, server: None, handle: None, addr: cluster::fresh_addr() }
}

impl Live {
    async fn on<T: Send + 'static>(&self, what: &str, f: impl std::future::Future<Output = T> + Send + 'static) -> Result<T, Fail> {
        match tokio::time::timeout(patience(), self.rt.as_ref().unwrap().spawn(f)).await {
            Ok(Ok(v)) => Ok(v),
            Ok(Err(e)) => Err(Fail::Safety(format!("{what} on node {} panicked: {e}", self.sys.node_id()))),
            Err(_) => Err(Fail::Deadline(format!("{what} on node {} does not end", self.sys.node_id()))),
        }
    }
    async fn build(&mut self, book: &Shared, slow: Duration) -> Result<(), Fail> {
        let sys = self.sys.clone();
        let f = Fac { book: book.clone(), node: sys.node_id(), slow };
        self.handle = Some(self.on("building the singleton", async move { SingletonBuilder::new(sys).factory(f).build().await }).await?);
        Ok(())
    }
    async fn serve(&mut self, seed: Option<String>) -> Result<(), Fail> {
        let (sys, addr) = (self.sys.clone(), self.addr.clone());
        self.server = Some(self.on("starting", async move { cluster::serve(&sys, &addr, seed.as_deref()).await }).await?);
        Ok(())
    }
    async fn up(&mut self, u: &Up, seed: Option<String>, book: &Shared, slow: Duration) -> Result<(), Fail> {
        let gap = Duration::from_millis(u.gap as u64);
        if u.before {
            self.build(book, slow).await?;
            tokio::time::sleep(gap).await;
            self.serve(seed).await
        } else {
            self.serve(seed).await?;
            tokio::time::sleep(gap).await;
            self.build(book, slow).await
        }
    }
}

struct Sent {
    id: u64,
    node: u64,
    /// None: notification
    reply: Option<tokio::task::JoinHandle<Result<(u64, u64), ActorRefErr>>>,
}

fn send(live: &[Live], msgs: &[Msg], ids: &mut u64) -> Vec<Sent> {
    let mut out = vec![];
    for m in msgs {
        let with: Vec<&Live> = live.iter().filter(|l| l.handle.is_some()).collect();
        if with.is_empty() {
            return out;
        }
        let l = with[m.node as usize % with.len()];
        *ids += 1;
        let ask = Ask { id: *ids, work: m.work };
        let h = l.handle.clone().unwrap();
        let notify = m.notify;
        let j = l.rt.as_ref().unwrap().spawn(async move {
            if notify {
                h.notify(ask).await.map(|_| (0, 0))
            } else {
                h.send(ask).await
            }
        });
        out.push(Sent { id: *ids, node: l.sys.node_id(), reply: if notify { None } else { Some(j) } });
    }
    out
}

fn judge(book: &Shared) -> Result<(), Fail> {
    let b = book.lock();
    if let Some(w) = &b.wrong {
        return Err(Fail::Safety(w.clone()));
    }
    for (id, h) in &b.handled {
        ensure!(h.len() <= 1, "message {id} was handled {} times, by instances {h:?}", h.len());
    }
    Ok(())
}

/// `strict`: nothing moved before `moves`: everything has to be answered as long as that stays so
async fn collect(sent: Vec<Sent>, book: &Shared, stable_since: Option<u64>, gone: &[u64]) -> Result<(), Fail> {
    for s in sent {
        match s.reply {
            Some(j) => {
                let r = tokio::time::timeout(patience(), j).await;
                judge(book)?;
                if gone.contains(&s.node) {
                    continue;
                }
                match r {
                    Err(_) => return Err(Fail::Deadline(format!("request {} from node {} is never answered", s.id, s.node))),
                    Ok(Err(e)) => return Err(Fail::Safety(format!("request {} from node {} panicked: {e}", s.id, s.node))),
                    Ok(Ok(Ok((id, inst)))) => {
                        ensure!(id == s.id, "request {} from node {} got the reply to {id}", s.id, s.node);
                        let b = book.lock();
                        ensure!(b.handled.get(&s.id) == Some(&vec![inst]), "request {} was answered by instance {inst}, but handled by {:?}", s.id, b.handled.get(&s.id));
                    }
                    Ok(Ok(Err(e))) => {
                        let b = book.lock();
                        ensure!(stable_since != Some(b.moves), "request {} from node {} failed with {e:?} although the instance is running and did not move", s.id, s.node);
                    }
                }
            }
            None => {
                let t = Instant::now();
                loop {
                    judge(book)?;
                    {
                        let b = book.lock();
                        if b.handled.contains_key(&s.id) || gone.contains(&s.node) || stable_since != Some(b.moves) {
                            break;
                        }
                    }
                    if t.elapsed() > patience() {
                        return Err(Fail::Deadline(format!("notification {} from node {} never arrives", s.id, s.node)));
                    }
                    tokio::time::sleep(Duration::from_millis(5)).await;
                }
            }
        }
    }
    judge(book)
}

/// waits until every node reaches the one running instance
async fn settle(live: &[Live], book: &Shared, ids: &mut u64) -> Result<u64, Fail> {
    let t = Instant::now();
    let mut last;
    loop {
        let before = book.lock().moves;
        let n = live.len();
        let asks: Vec<Msg> = (0..n).map(|i| Msg { node: i as u8, notify: false, work: 0 }).collect();
        let mut insts = vec![];
        for s in send(live, &asks, ids) {
            match tokio::time::timeout(patience(), s.reply.unwrap()).await {
                Ok(Ok(Ok((_, i)))) => insts.push(Ok(i)),
                Ok(Ok(Err(e))) => insts.push(Err(format!("{e:?}"))),
                Ok(Err(e)) => return Err(Fail::Safety(format!("a request from node {} panicked: {e}", s.node))),
                Err(_) => return Err(Fail::Deadline(format!("a request from node {} is never answered", s.node))),
            }
        }
        judge(book)?;
        {
            let b = book.lock();
            if b.moves == before && b.live.len() == 1 && insts.len() == n && insts.iter().all(|i| *i == Ok(b.live[0].0)) {
                return Ok(before);
            }
            last = format!("running {:?}, answers {insts:?}", b.live);
        }
        if t.elapsed() > patience() {
            return Err(Fail::Deadline(format!("the nodes do not settle on one running instance: {last}")));
        }
        tokio::time::sleep(Duration::from_millis(15)).await;
    }
}

struct Cluster;
impl Part for Cluster {
    type Case = Case;
    fn name(&self) -> &'static str {
        "cluster"
    }
    fn rule(&self) -> &'static str {
        "1-4 real nodes, created and started in generated orders, the singleton handle built before or (up to 400 ms) after each node starts serving; requests and notifications through the handles before the instance runs, in bursts, and while nodes join (also one older than the leader) or leave (shut down or killed, also the one with the instance); instances log their start, end and every message; never two at once, no message handled twice, every request its own reply - or an error if the instance moved meanwhile - and the cluster settles on one instance reachable from everywhere; non-trivial: more than one node"
    }
    fn cases(&self, tier: Tier) -> u32 {
        match tier {
            Tier::Quick => 240,
            Tier::Thorough => 5000,
        }
    }
    fn shards(&self) -> u32 {
        24
    }
    fn shrink_budget(&self) -> (u32, Duration) {
        (15, Duration::from_secs(150))
    }
    fn confirmations(&self) -> u32 {
        2
    }
    fn per_process(&self) -> u32 {
        1500
    }
    fn strategy(&self, _t: Tier) -> BoxedStrategy<Case> {
        let msg = || (any::<u8>(), prop::bool::weighted(0.3), prop_oneof![4 => Just(0u8), 1 => 1u8..20]).prop_map(|(node, notify, work)| Msg { node, notify, work });
        let msgs = move |n| prop::collection::vec(msg(), 0..n);
        let up = || (any::<bool>(), prop_oneof![2 => Just(0u16), 1 => 0u16..50, 1 => 50u16..400], 0u8..80, any::<u8>()).prop_map(|(before, gap, pause, seed)| Up { before, gap, pause, seed });
        let step = prop_oneof![
            4 => msgs(8).prop_map(Step::Burst),
            2 => (any::<u8>(), any::<bool>(), msgs(6)).prop_map(|(who, crash, meanwhile)| Step::Leave { who, crash, meanwhile }),
            2 => (any::<bool>(), msgs(6)).prop_map(|(crash, meanwhile)| Step::LeaveHost { crash, meanwhile }),
            3 => (any::<bool>(), up(), msgs(6)).prop_map(|(oldest, up, meanwhile)| Step::Join { oldest, up, meanwhile }),
        ];
        (prop_oneof![1 => Just(1usize), 4 => Just(2usize), 4 => Just(3usize), 2 => Just(4usize)], prop_oneof![3 => Just(0u8), 1 => 1u8..60])
            .prop_flat_map(move |(n, slow)| {
                (prop::collection::vec(any::<u8>(), n), prop::collection::vec(up(), n), msgs(8), prop::collection::vec(step.clone(), 0..5)).prop_map(move |(ages, ups, early, steps)| Case { ages, ups, slow, early, steps })
            })
            .boxed()
    }
    fn check(&self, c: &Case) -> CaseResult {
        cluster::run(1, cluster_case(c))
    }
}

async fn cluster_case(c: &Case) -> CaseResult {
    let book: Shared = Default::default();
    let slow = Duration::from_millis(c.slow as u64);
    let n = c.ages.len();
    let min = n;
    let mut ids = 0u64;
    // the oldest joiners first, then the members in their order of age
    let joins = if n > 1 { c.steps.iter().filter(|s| matches!(s, Step::Join { .. })).count().min(2) } else { 0 };
    let mut older: Vec<Live> = vec![];
    // a joining node waits until it sees all members
    let mut sizes = vec![];
    let mut size = n;
    for s in &c.steps {
        match s {
            Step::Burst(_) => {}
            Step::Join { oldest, .. } => {
                if sizes.len() < joins {
                    size += 1;
                    if *oldest {
                        older.push(launch(100 + sizes.len() as u64, size));
                    }
                    sizes.push(size);
                }
            }
            _ => size = (size - 1).max(1),
        }
    }
    older.reverse();
    let mut order: Vec<usize> = (0..n).collect();
    order.sort_by_key(|i| (c.ages[*i], *i));
    let mut made: Vec<Option<Live>> = (0..n).map(|_| None).collect();
    for i in order {
        made[i] = Some(launch(1 + i as u64, min));
    }
    let mut live: Vec<Live> = vec![];
    let mut early = vec![];
    for (i, l) in made.into_iter().enumerate() {
        let mut l = l.unwrap();
        let u = &c.ups[i];
        let seed = if i == 0 { None } else { Some(live[u.seed as usize % i].addr.clone()) };
        l.up(u, seed, &book, slow).await?;
        live.push(l);
        // a part of the early messages from here on
        let k = c.early.len() * (i + 1) / n;
        let from = c.early.len() * i / n;
        early.extend(send(&live, &c.early[from..k], &mut ids));
        tokio::time::sleep(Duration::from_millis(u.pause as u64)).await;
    }
    let early_count = early.len();
    // answered although nothing was running when they were sent; the first instance does not move
    let first = {
        let r = collect(early, &book, None, &[]).await;
        r?;
        settle(&live, &book, &mut ids).await?
    };
    {
        let b = book.lock();
        ensure!(b.starts == 1, "{} instances were started one after the other while the cluster formed", b.starts);
        for id in 1..=early_count as u64 {
            // requests that failed would have been counted as answered
            if first == b.moves && !b.handled.contains_key(&id) {
                drop(b);
                let t = Instant::now();
                loop {
                    if book.lock().handled.contains_key(&id) || book.lock().moves != first {
                        break;
                    }
                    if t.elapsed() > patience() {
                        return Err(Fail::Deadline(format!("message {id}, sent before the instance was running, never reached it")));
                    }
                    tokio::time::sleep(Duration::from_millis(5)).await;
                }
                break;
            }
        }
    }
    let mut stable = first;
    let mut joined = 0usize;
    let mut left = 0;
    let mut host_left = false;
    let mut handover = false;
    let mut graves = vec![];
    let mut gone: Vec<u64> = vec![];
    for s in &c.steps {
        match s {
            Step::Burst(m) => {
                let sent = send(&live, m, &mut ids);
                collect(sent, &book, Some(stable), &gone).await?;
            }
            Step::Leave { meanwhile, crash, .. } | Step::LeaveHost { meanwhile, crash } => {
                if live.len() < 2 {
                    continue;
                }
                let host = book.lock().live.first().map(|l| l.1);
                let k = match s {
                    Step::Leave { who, .. } => *who as usize % live.len(),
                    _ => match live.iter().position(|l| Some(l.sys.node_id()) == host) {
                        Some(k) => k,
                        None => continue,
                    },
                };
                let was_host = host == Some(live[k].sys.node_id());
                host_left |= was_host;
                left += 1;
                let half = meanwhile.len() / 2;
                let mut sent = send(&live, &meanwhile[..half], &mut ids);
                let mut l = live.remove(k);
                gone.push(l.sys.node_id());
                if *crash {
                    // from here on nothing of it runs any more
                    let rt = l.rt.take().unwrap();
                    let j = std::thread::spawn(move || rt.shutdown_timeout(Duration::from_secs(5)));
                    while !j.is_finished() {
                        tokio::time::sleep(Duration::from_millis(2)).await;
                    }
                    let id = l.sys.node_id();
                    let mut b = book.lock();
                    b.live.retain(|i| i.1 != id);
                    b.moves += was_host as u64;
                } else {
                    // it is no member any more as soon as it begins to shut down
                    {
                        let id = l.sys.node_id();
                        let mut b = book.lock();
                        b.live.retain(|i| i.1 != id);
                        b.moves += was_host as u64;
                    }
                    if let Some(s) = l.server.take() {
                        s.stop()
                    }
                    let sys = l.sys.actor_system().clone();
                    l.on("shutting down", async move { sys.shutdown().await }).await?;
                }
                graves.push(l);
                sent.extend(send(&live, &meanwhile[half..], &mut ids));
                collect(sent, &book, if was_host { None } else { Some(stable) }, &gone).await?;
                stable = settle(&live, &book, &mut ids).await?;
            }
            Step::Join { oldest, up, meanwhile } => {
                if joined >= joins {
                    continue;
                }
                let mut l = if *oldest { older.pop().unwrap() } else { launch(200 + joined as u64, sizes[joined]) };
                joined += 1;
                let before = book.lock().starts;
                let half = meanwhile.len() / 2;
                let mut sent = send(&live, &meanwhile[..half], &mut ids);
                let seed = live[up.seed as usize % live.len()].addr.clone();
                l.up(up, Some(seed), &book, slow).await?;
                live.push(l);
                sent.extend(send(&live, &meanwhile[half..], &mut ids));
                collect(sent, &book, Some(stable), &gone).await?;
                // it is up when it has seen all the others
                let t = Instant::now();
                loop {
                    let nodes = live.last().unwrap().sys.get_nodes().await;
                    if nodes.iter().filter(|n| n.status.is_healthy()).count() >= live.len() {
                        break;
                    }
                    if t.elapsed() > patience() {
                        return Err(Fail::Deadline("a joined node does not see all members".into()));
                    }
                    tokio::time::sleep(Duration::from_millis(10)).await;
                }
                stable = settle(&live, &book, &mut ids).await?;
                handover |= book.lock().starts > before;
            }
        }
    }
    judge(&book)?;
    Ok(CaseOut::new(n > 1)
        .label(early_count > 0, "early")
        .label(joined > 0, "joined")
        .label(left > 0, "left")
        .label(host_left, "host-left")
        .label(handover, "handover"))
}

fn main() {
    let mut r = Runner::from_args("C21");
    r.assume("the minimum cluster size is configured to the number of nodes that form the cluster, for a joining node to the number of members including itself, so that no node counts itself a cluster of its own; nodes share this process and communicate over loopback TCP");
    r.part(Cluster).finish()
}
