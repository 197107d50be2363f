//! C17: connections between live nodes break and come back.
use coerce::remote::heartbeat::HeartbeatConfig;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::time::{Duration, Instant};
use vf::cluster::{self, Relay};
use vf::*;

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Case {
    nodes: u8,
    seeds: Vec<u8>,
    /// which nodes' incoming connections are cut, how long they refuse new ones (100 ms), and the
    /// pause until the next (10 ms)
    cuts: Vec<(u8, u8, u8)>,
}

pub struct Heal;
impl Part for Heal {
    type Case = Case;
    fn name(&self) -> &'static str {
        "reconnect"
    }
    fn rule(&self) -> &'static str {
        "2-5 real nodes connected through relays; once they have converged, the connections into some of them are cut, up to three times, and those nodes may refuse connections for a while; afterwards all have to agree on the full member list and on the oldest as the leader again; non-trivial: three or more nodes or two cuts"
    }
    fn cases(&self, tier: Tier) -> u32 {
        match tier {
            Tier::Quick => 96,
            Tier::Thorough => 1600,
        }
    }
    fn shards(&self) -> u32 {
        48
    }
    fn shrink_budget(&self) -> (u32, Duration) {
        (10, Duration::from_secs(120))
    }
    fn per_process(&self) -> u32 {
        400
    }
    fn strategy(&self, _t: Tier) -> BoxedStrategy<Case> {
        (2u8..6, prop::collection::vec(any::<u8>(), 4), prop::collection::vec((1u8..32, prop_oneof![3 => Just(0u8), 1 => 0u8..70], any::<u8>()), 1..4))
            .prop_map(|(nodes, seeds, cuts)| Case { nodes, seeds, cuts })
            .boxed()
    }
    fn check(&self, c: &Case) -> CaseResult {
        cluster::run(2, heal(c))
    }
}

async fn agree(nodes: &[cluster::Node]) -> Result<(), Fail> {
    let t = Instant::now();
    while !agree_now(nodes).await {
        if t.elapsed() > cluster::patience() {
            cluster::converged(&nodes.iter().collect::<Vec<_>>()).await?;
            let l: Vec<_> = nodes.iter().map(|n| n.sys.current_leader()).collect();
            return Err(Fail::Deadline(format!("all nodes are members, the oldest is 1000, the nodes take for the leader: {l:?}")));
        }
        tokio::time::sleep(Duration::from_millis(50)).await;
    }
    Ok(())
}

async fn heal(c: &Case) -> CaseResult {
    let n = c.nodes as usize;
    let mut relays = vec![];
    let mut nodes: Vec<cluster::Node> = vec![];
    for i in 0..n {
        let r = Relay::new().await;
        let id = 1000 + i as u64;
        let sys = cluster::system(id, &format!("node-{id}"), move |b| {
            b.heartbeat(HeartbeatConfig {
                interval: Duration::from_millis(100),
                ping_timeout: Duration::from_secs(20),
                unhealthy_node_heartbeat_timeout: Duration::from_secs(60),
                terminated_node_heartbeat_timeout: Duration::from_secs(120),
                minimum_cluster_size: None,
            })
        })
        .await;
        let mut w = sys.clone().cluster_worker().listen_addr(r.target()).external_addr(&r.addr);
        if i > 0 {
            w = w.with_seed_addr(&nodes[c.seeds[i - 1] as usize % i].addr);
        }
        let server = Some(w.start().await);
        nodes.push(cluster::Node { sys, server, addr: r.addr.clone() });
        relays.push(r);
        // the age of a node is kept in milliseconds
        tokio::time::sleep(Duration::from_millis(3)).await;
    }
    agree(&nodes).await?;
    let mut cut = 0;
    for (mask, refuse, pause) in &c.cuts {
        for (i, r) in relays.iter().enumerate() {
            if mask & (1 << i) != 0 {
                if *refuse > 0 {
                    r.refuse(true);
                    let (r, d) = (r.clone(), Duration::from_millis(100 * *refuse as u64));
                    tokio::spawn(async move {
                        tokio::time::sleep(d).await;
                        r.refuse(false);
                    });
                }
                cut += r.cut().await;
            }
        }
        tokio::time::sleep(Duration::from_millis(10 * *pause as u64)).await;
    }
    // a connection is made again within 5 s, or within 5 s of a failed attempt
    agree(&nodes).await?;
    cluster::teardown(nodes).await;
    Ok(CaseOut::new(cut > 0 && (n > 2 || c.cuts.len() > 1))
        .label(c.cuts.iter().any(|c| c.1 > 50), "reconnecting failed at first")
        .label(c.cuts.iter().any(|c| c.0 & 1 != 0), "leader cut off"))
}

async fn agree_now(nodes: &[cluster::Node]) -> bool {
    use coerce::remote::cluster::node::NodeStatus;
    for n in nodes {
        let up = n.sys.get_nodes().await.into_iter().filter(|s| s.status == NodeStatus::Healthy).count();
        if up != nodes.len() || n.sys.current_leader() != Some(1000) {
            return false;
        }
    }
    true
}
