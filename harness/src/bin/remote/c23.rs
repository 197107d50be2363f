//! C23: the node chosen for a key. Metamorphic: a store that went through any history chooses like
//! one that was only ever told the final members.
use chrono::{DateTime, Utc};
use coerce::actor::IntoActorId;
use coerce::remote::cluster::node::{NodeAttributes, NodeStatus, RemoteNode, RemoteNodeState, RemoteNodeStore};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;
use vf::*;

#[derive(Debug, Clone, Copy, Serialize, Deserialize, PartialEq)]
struct N {
    id: u64,
    /// which address, tag and start time it has
    addr: u8,
    tag: u8,
    started: Option<u8>,
    attr: bool,
}
#[derive(Debug, Clone, Serialize, Deserialize)]
enum Op {
    Add(N),
    Remove(u64),
    /// new states of nodes, known or not
    Update(Vec<(N, u8)>),
    /// the states as they are, with other statuses
    Touch(u8),
    Terminated(u64),
}
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Case {
    first: Vec<N>,
    ops: Vec<Op>,
    keys: Vec<String>,
    /// the order in which the other store is told
    order: Vec<u16>,
}

fn node(n: &N) -> RemoteNode {
    let mut at = NodeAttributes::new();
    if n.attr {
        at.insert("a".into(), "b".into());
    }
    RemoteNode::new(n.id, addr(n.addr), format!("tag-{}", n.tag), n.started.map(when), Arc::new(at))
}
fn addr(a: u8) -> String {
    format!("host-{a}:310{a}")
}
fn when(s: u8) -> DateTime<Utc> {
    DateTime::from(std::time::UNIX_EPOCH + std::time::Duration::new(1_700_000_000 + s as u64 / 4, 1000 * (s as u32 % 4)))
}
fn state(n: &N, s: u8) -> RemoteNodeState {
    let mut st = RemoteNodeState::new(node(n));
    st.status = status(s);
    st
}
fn status(s: u8) -> NodeStatus {
    [NodeStatus::Joining, NodeStatus::Healthy, NodeStatus::Unhealthy, NodeStatus::Terminated][s as usize % 4]
}
fn same(a: &RemoteNode, n: &N) -> bool {
    a.id == n.id && a.addr == addr(n.addr) && a.tag == format!("tag-{}", n.tag) && a.node_started_at == n.started.map(when)
}
fn pick(s: &mut RemoteNodeStore, k: &str) -> Option<RemoteNode> {
    s.get_by_key(k.to_string().into_actor_id()).cloned()
}

struct Ring;
impl Part for Ring {
    type Case = Case;
    fn name(&self) -> &'static str {
        "ring"
    }
    fn rule(&self) -> &'static str {
        "histories of adding, re-adding under the same id with another address, tag or start time, removing, updating and terminating up to 12 nodes; after each step and for 8-40 keys the choice is a current member with its current address, equals that of a store told the same members once in another order, and has changed only to or from nodes that changed; non-trivial: at least two members at the end, some step of the history changed a choice"
    }
    fn cases(&self, tier: Tier) -> u32 {
        match tier {
            Tier::Quick => 12_000,
            Tier::Thorough => 400_000,
        }
    }
    fn strategy(&self, _t: Tier) -> BoxedStrategy<Case> {
        let id = || prop_oneof![4 => 1u64..8, 1 => any::<u64>(), 1 => Just(0u64), 1 => 100u64..104];
        let n = move || {
            (id(), 0u8..6, 0u8..3, prop::option::weighted(0.8, 0u8..12), any::<bool>()).prop_map(|(id, addr, tag, started, attr)| N { id, addr, tag, started, attr })
        };
        let op = prop_oneof![
            6 => n().prop_map(Op::Add),
            3 => id().prop_map(Op::Remove),
            2 => prop::collection::vec((n(), 0u8..4), 0..4).prop_map(Op::Update),
            2 => any::<u8>().prop_map(Op::Touch),
            1 => id().prop_map(Op::Terminated),
        ];
        (
            prop::collection::vec(n(), 0..6),
            prop::collection::vec(op, 0..16),
            prop::collection::vec(prop_oneof!["[a-z0-9]{0,10}", "(actor|entity)-[0-9]{1,4}"], 8..40),
            prop::collection::vec(any::<u16>(), 16),
        )
            .prop_map(|(first, ops, keys, order)| Case { first, ops, keys, order })
            .boxed()
    }
    fn check(&self, c: &Case) -> CaseResult {
        let mut s = RemoteNodeStore::new(c.first.iter().map(node).collect());
        let mut m: BTreeMap<u64, N> = c.first.iter().map(|n| (n.id, *n)).collect();
        let mut before: Option<Vec<Option<u64>>> = None;
        let mut moved = false;
        for i in 0..=c.ops.len() {
            let mut touched = BTreeSet::new();
            if i > 0 {
                match &c.ops[i - 1] {
                    Op::Add(n) => {
                        s.add(node(n));
                        if m.insert(n.id, *n).map_or(true, |o| node_key(&o) != node_key(n)) {
                            touched.insert(n.id);
                        }
                    }
                    Op::Remove(id) => {
                        let got = s.remove(id);
                        let had = m.remove(id);
                        ensure!(
                            match (&got, &had) {
                                (Some(g), Some(h)) => same(g, h),
                                (None, None) => true,
                                _ => false,
                            },
                            "removing node {id} gives {got:?}, member was {had:?}"
                        );
                        touched.insert(*id);
                    }
                    Op::Update(l) => {
                        s.update_nodes(l.iter().map(|(n, st)| state(n, *st)).collect());
                        for (n, _) in l {
                            m.insert(n.id, *n);
                            touched.insert(n.id);
                        }
                    }
                    Op::Touch(st) => {
                        let mut all = s.get_all();
                        for (k, n) in all.iter_mut().enumerate() {
                            n.status = status(st.wrapping_add(k as u8));
                        }
                        s.update_nodes(all);
                    }
                    Op::Terminated(id) => {
                        s.node_terminated(*id);
                        if m.contains_key(id) {
                            ensure!(s.get(id).map(|n| n.status) == Some(NodeStatus::Terminated), "node {id} is not marked as terminated");
                        }
                    }
                }
            }
            let all = s.get_all();
            ensure!(all.len() == m.len(), "{} members are listed, there are {}", all.len(), m.len());
            for n in &all {
                let ok = m.get(&n.id).map_or(false, |x| same(&n.clone().into(), x));
                ensure!(ok, "step {i}: the member {n:?} is listed, it should be {:?}", m.get(&n.id));
                ensure!(s.is_registered(n.id), "{} is not registered", n.id);
            }
            // told once, in another order
            let mut l: Vec<(u16, &N)> = m.values().enumerate().map(|(k, n)| (c.order[k % c.order.len()].wrapping_mul(k as u16 | 1), n)).collect();
            l.sort_by_key(|(k, n)| (*k, n.id));
            let mut other = if c.order[0] % 2 == 0 {
                RemoteNodeStore::new(l.iter().map(|(_, n)| node(n)).collect())
            } else {
                let mut o = RemoteNodeStore::new(vec![]);
                l.iter().for_each(|(_, n)| o.add(node(n)));
                o
            };
            let mut now = vec![];
            for k in &c.keys {
                let got = pick(&mut s, k);
                match &got {
                    Some(n) => ensure!(m.get(&n.id).map_or(false, |x| same(n, x)), "step {i}: {n:?} is chosen for key {k:?}, which is not a current member (members {:?})", m),
                    None => ensure!(m.is_empty(), "step {i}: no node is chosen for key {k:?}"),
                }
                let want = pick(&mut other, k).map(|n| n.id);
                let got = got.map(|n| n.id);
                ensure!(got == want, "step {i}: key {k:?} is mapped to {got:?}, but to {want:?} by a node that was told the same members ({m:?}) in another order");
                now.push(got);
            }
            if let Some(b) = &before {
                for (k, (x, y)) in b.iter().zip(&now).enumerate() {
                    if x != y {
                        moved = true;
                        let fine = [x, y].iter().any(|v| v.map_or(true, |v| touched.contains(&v)));
                        ensure!(fine, "step {i} ({:?}): key {:?} moved from {x:?} to {y:?}, neither of which changed", c.ops[i - 1], c.keys[k]);
                    }
                }
            }
            before = Some(now);
        }
        let used: BTreeSet<_> = before.unwrap_or_default().into_iter().flatten().collect();
        Ok(CaseOut::new(m.len() > 1 && moved).label(m.len() > 3 && used.len() == m.len(), "all-members-used"))
    }
}
fn node_key(n: &N) -> (u8, u8, Option<u8>) {
    (n.addr, n.tag, n.started)
}

pub fn run() {
    let mut r = Runner::from_args("C23");
    r.part(Ring).finish()
}
