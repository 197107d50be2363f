//! Clusters of real nodes over the loopback network, all inside this process. Every node gets an
//! address of its own (127.a.b.c), so cases never share a port.
use coerce::actor::system::ActorSystem;
use coerce::remote::cluster::node::NodeStatus;
use coerce::remote::heartbeat::HeartbeatConfig;
use coerce::remote::net::server::RemoteServer;
use coerce::remote::system::builder::{RemoteActorSystemBuilder, RemoteSystemConfigBuilder};
use coerce::remote::system::{NodeId, RemoteActorSystem};
use std::collections::BTreeSet;
use std::sync::atomic::{AtomicU32, Ordering};
use std::time::{Duration, Instant};

static NEXT: AtomicU32 = AtomicU32::new(0);

pub fn fresh_addr() -> String {
    let n = NEXT.fetch_add(1, Ordering::Relaxed);
    let p = std::process::id();
    let x = p.wrapping_mul(7919).wrapping_add(n);
    format!("127.{}.{}.{}:{}", 1 + (x >> 16) % 250, (x >> 8) & 255, x & 255, 21000 + p % 8000)
}

/// How long something that must happen may take before the case is repeated.
pub fn patience() -> Duration {
    Duration::from_secs(if crate::shrinking() { 6 } else { 20 })
}

pub struct Node {
    pub sys: RemoteActorSystem,
    pub server: Option<RemoteServer>,
    pub addr: String,
}

pub fn heartbeat(interval_ms: u64) -> HeartbeatConfig {
    HeartbeatConfig {
        interval: Duration::from_millis(interval_ms),
        ping_timeout: Duration::from_secs(10),
        unhealthy_node_heartbeat_timeout: Duration::from_secs(5),
        terminated_node_heartbeat_timeout: Duration::from_secs(15),
        minimum_cluster_size: None,
    }
}

pub async fn system_with<B, F>(id: NodeId, tag: &str, b: B, f: F) -> RemoteActorSystem
where
    B: FnOnce(RemoteActorSystemBuilder) -> RemoteActorSystemBuilder,
    F: 'static + FnOnce(&mut RemoteSystemConfigBuilder) -> &mut RemoteSystemConfigBuilder,
{
    b(RemoteActorSystem::builder()
        .with_actor_system(ActorSystem::builder().system_name(tag).build())
        .with_id(id)
        .with_tag(tag)
        .configure(f))
    .build()
    .await
}

pub async fn system<F>(id: NodeId, tag: &str, f: F) -> RemoteActorSystem
where
    F: 'static + FnOnce(&mut RemoteSystemConfigBuilder) -> &mut RemoteSystemConfigBuilder,
{
    system_with(id, tag, |b| b, f).await
}

/// Starts serving; joins through `seed` when given.
pub async fn serve(sys: &RemoteActorSystem, addr: &str, seed: Option<&str>) -> RemoteServer {
    let mut w = sys.clone().cluster_worker().listen_addr(addr);
    if let Some(s) = seed {
        w = w.with_seed_addr(s);
    }
    w.start().await
}

pub async fn node<F>(id: NodeId, seed: Option<&str>, f: F) -> Node
where
    F: 'static + FnOnce(&mut RemoteSystemConfigBuilder) -> &mut RemoteSystemConfigBuilder,
{
    let sys = system(id, &format!("node-{id}"), f).await;
    let addr = fresh_addr();
    let server = Some(serve(&sys, &addr, seed).await);
    Node { sys, server, addr }
}

/// Waits until every node counts exactly `nodes` as healthy members and names the same leader.
pub async fn converged(nodes: &[&Node]) -> Result<(), crate::Fail> {
    let want: BTreeSet<NodeId> = nodes.iter().map(|n| n.sys.node_id()).collect();
    let t = Instant::now();
    loop {
        let mut ok = true;
        let mut leaders = BTreeSet::new();
        let mut seen = vec![];
        for n in nodes {
            let up: BTreeSet<NodeId> =
                n.sys.get_nodes().await.into_iter().filter(|s| s.status == NodeStatus::Healthy).map(|s| s.id).collect();
            ok &= up == want;
            leaders.insert(n.sys.current_leader());
            seen.push((n.sys.node_id(), up, n.sys.current_leader()));
        }
        if ok && leaders.len() == 1 && !leaders.contains(&None) {
            return Ok(());
        }
        if t.elapsed() > patience() {
            return Err(crate::Fail::Deadline(format!("the cluster did not converge: (node, healthy, leader) = {seen:?}")));
        }
        tokio::time::sleep(Duration::from_millis(20)).await;
    }
}

pub async fn soon<F: std::future::Future>(what: impl Fn() -> String, f: F) -> Result<F::Output, crate::Fail> {
    match tokio::time::timeout(patience(), f).await {
        Ok(v) => Ok(v),
        Err(_) => Err(crate::Fail::Deadline(format!("not resolved after {:?}: {}", patience(), what()))),
    }
}

/// Waits for a condition on observable state.
pub async fn eventually<F: FnMut() -> Result<bool, crate::Fail>>(what: impl Fn() -> String, mut f: F) -> Result<(), crate::Fail> {
    let t = Instant::now();
    loop {
        if f()? {
            return Ok(());
        }
        if t.elapsed() > patience() {
            return Err(crate::Fail::Deadline(format!("did not happen within {:?}: {}", patience(), what())));
        }
        tokio::time::sleep(Duration::from_millis(5)).await;
    }
}

pub async fn teardown(nodes: Vec<Node>) {
    for n in &nodes {
        if let Some(s) = &n.server {
            s.stop();
        }
    }
    for n in nodes {
        let _ = tokio::time::timeout(Duration::from_secs(3), n.sys.actor_system().shutdown()).await;
    }
}

/// Runs a case on a runtime of its own, which is dropped with everything still running in it.
pub fn run<F, T>(threads: usize, f: F) -> T
where
    F: std::future::Future<Output = T>,
{
    let rt = crate::rt::threads(threads);
    let r = rt.block_on(f);
    rt.shutdown_background();
    r
}

/// A TCP relay in front of a node, whose connections can be cut.
#[derive(Clone)]
pub struct Relay {
    pub addr: String,
    target: String,
    conns: std::sync::Arc<parking_lot::Mutex<Vec<(tokio::task::JoinHandle<()>, std::sync::Weak<()>)>>>,
    refuse: std::sync::Arc<std::sync::atomic::AtomicBool>,
}

impl Relay {
    pub async fn new() -> Relay {
        let r = Relay { addr: fresh_addr(), target: fresh_addr(), conns: Default::default(), refuse: Default::default() };
        let l = tokio::net::TcpListener::bind(&r.addr).await.expect("relay");
        let me = r.clone();
        tokio::spawn(async move {
            while let Ok((mut a, _)) = l.accept().await {
                if me.refuse.load(Ordering::SeqCst) {
                    continue;
                }
                let target = me.target.clone();
                let alive = std::sync::Arc::new(());
                let weak = std::sync::Arc::downgrade(&alive);
                let h = tokio::spawn(async move {
                    let _alive = alive;
                    if let Ok(mut b) = tokio::net::TcpStream::connect(&target).await {
                        let _ = a.set_nodelay(true);
                        let _ = b.set_nodelay(true);
                        let _ = tokio::io::copy_bidirectional(&mut a, &mut b).await;
                    }
                });
                me.conns.lock().push((h, weak));
            }
        });
        r
    }
    /// The address the node itself listens on.
    pub fn target(&self) -> &str {
        &self.target
    }
    pub fn refuse(&self, on: bool) {
        self.refuse.store(on, Ordering::SeqCst);
    }
    /// Ends every connection; what is under way in it is lost.
    pub async fn cut(&self) -> usize {
        let conns = std::mem::take(&mut *self.conns.lock());
        let mut n = 0;
        for (h, alive) in conns {
            if alive.upgrade().is_some() {
                n += 1;
            }
            h.abort();
            let _ = h.await;
        }
        n
    }
}
