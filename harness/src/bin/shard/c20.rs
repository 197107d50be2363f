//! C20: where shards are, while nodes join and leave.
use crate::c19::req;
use crate::world::*;
use coerce::actor::{ActorId, IntoActorId};
use coerce::sharding::coordinator::allocation::{AllocateShardResult, DefaultAllocator};
use coerce::sharding::host::ShardAllocator;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};
use std::time::{Duration, Instant};
use vf::cluster::patience;
use vf::*;

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Ids {
    max: u32,
    ids: Vec<String>,
    order: Vec<u16>,
}

pub struct Placement;
impl Part for Placement {
    type Case = Ids;
    fn name(&self) -> &'static str {
        "placement"
    }
    fn rule(&self) -> &'static str {
        "entity ids (arbitrary strings, near-equal ones) and a number of shards; allocators of different nodes, asked in different orders and repeatedly, put an id into the same shard, below the number of shards; many ids use every one of few shards; non-trivial: more than one shard and id"
    }
    fn cases(&self, tier: Tier) -> u32 {
        match tier {
            Tier::Quick => 20000,
            Tier::Thorough => 400000,
        }
    }
    fn strategy(&self, _t: Tier) -> BoxedStrategy<Ids> {
        let id = prop_oneof![any::<String>(), "[a-c]{0,4}", (0u64..1000).prop_map(|n| format!("user-{n}")), any::<u64>().prop_map(|n| n.to_string())];
        (prop_oneof![4 => 1u32..8, 2 => 8u32..200, 1 => any::<u32>().prop_map(|n| n.max(1))], prop::collection::vec(id, 1..40), prop::collection::vec(any::<u16>(), 0..60)).prop_map(|(max, ids, order)| Ids { max, ids, order }).boxed()
    }
    fn check(&self, c: &Ids) -> CaseResult {
        let mut a = DefaultAllocator { max_shards: c.max };
        let mut b = DefaultAllocator { max_shards: c.max };
        let of = |x: &mut DefaultAllocator, s: &String| x.allocate(&s.clone().into_actor_id());
        let first: Vec<u32> = c.ids.iter().map(|s| of(&mut a, s)).collect();
        for (s, x) in c.ids.iter().zip(&first) {
            ensure!(*x < c.max, "{s:?} is put into shard {x} of {}", c.max);
        }
        for o in &c.order {
            let i = *o as usize % c.ids.len();
            let x = of(&mut b, &c.ids[i]);
            ensure!(x == first[i], "{:?} is put into shard {} and shard {x} of {}", c.ids[i], first[i], c.max);
            // another way to write the same id
            let id: ActorId = c.ids[i].as_str().into();
            let x = a.allocate(&id);
            ensure!(x == first[i], "{:?} is put into shard {} and shard {x} of {}", c.ids[i], first[i], c.max);
        }
        if c.max <= 7 {
            let used: BTreeSet<u32> = (0..400).map(|n| of(&mut a, &format!("{}{n}", c.ids[0]))).collect();
            ensure!(used.len() == c.max as usize, "400 ids use only shards {used:?} of {}", c.max);
        }
        Ok(CaseOut::new(c.max > 1 && c.ids.len() > 1))
    }
}

#[derive(Debug, Clone, Serialize, Deserialize)]
enum Step {
    Burst(Vec<Req>),
    /// (node, type, shard)
    Allocate(Vec<(u8, u8, u8)>),
    /// and how many entities are asked for the first time, one after the other, while shards move
    Join(Vec<Req>, u8),
    Leave { who: u8, crash: bool, meanwhile: Vec<Req> },
}
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Case {
    nodes: usize,
    types: usize,
    max_shards: u32,
    first: Vec<Req>,
    steps: Vec<Step>,
}

pub struct Cluster;
impl Part for Cluster {
    type Case = Case;
    fn name(&self) -> &'static str {
        "cluster"
    }
    fn rule(&self) -> &'static str {
        "1-3 real nodes with shared storage, 1-2 sharded types, 1-8 shards; allocations asked for by several nodes at once, requests, and joining and leaving (shut down or killed) nodes with requests under way; after each step the coordinator's map, the shard hosts of all nodes and the running entities agree: every shard that was allocated still is, on exactly one live node, the node counts differ by at most one, every entity runs once, on the owner of its shard, and answers every node; only shards of departed nodes and of nodes above the fair share moved; never two instances of an entity, no request handled twice or left unanswered; non-trivial: shards moved to another node"
    }
    fn cases(&self, tier: Tier) -> u32 {
        match tier {
            Tier::Quick => 240,
            Tier::Thorough => 4000,
        }
    }
    fn shards(&self) -> u32 {
        24
    }
    fn shrink_budget(&self) -> (u32, Duration) {
        (15, Duration::from_secs(150))
    }
    fn per_process(&self) -> u32 {
        1000
    }
    fn strategy(&self, _t: Tier) -> BoxedStrategy<Case> {
        (1usize..4, 1usize..3, 1u32..9, 2u8..12)
            .prop_flat_map(|(nodes, types, max_shards, ents)| {
                let reqs = move |n| prop::collection::vec(req(ents, true, 1..120, 2), 0..n);
                let step = prop_oneof![
                    2 => reqs(10).prop_map(Step::Burst),
                    2 => prop::collection::vec((any::<u8>(), 0u8..2, 0u8..8), 1..8).prop_map(Step::Allocate),
                    4 => (reqs(8), prop_oneof![3 => Just(0u8), 2 => 1u8..24]).prop_map(|(q, n)| Step::Join(q, n)),
                    3 => (any::<u8>(), any::<bool>(), reqs(8)).prop_map(|(who, crash, meanwhile)| Step::Leave { who, crash, meanwhile }),
                ];
                (reqs(16), prop::collection::vec(step, 1..6)).prop_map(move |(first, steps)| Case { nodes, types, max_shards, first, steps })
            })
            .boxed()
    }
    fn check(&self, c: &Case) -> CaseResult {
        cluster::run(1, case(c))
    }
}

type Map = BTreeMap<u32, u64>;

/// Waits until coordinator, hosts and entities agree. `known`: shards that were allocated before.
async fn settle(w: &World, live: &[Live], ents: &BTreeSet<Ent>, known: &[Map], ids: &mut u64) -> Result<Vec<Map>, Fail> {
    let t = Instant::now();
    let mut n = 0u8;
    loop {
        n = n.wrapping_add(1);
        let e = match look(w, live, ents, known, ids, n).await? {
            Ok(m) => return Ok(m),
            Err(e) => e,
        };
        if t.elapsed() > patience() {
            return Err(Fail::Deadline(format!("{e} (still so after {:?})", t.elapsed())));
        }
        tokio::time::sleep(Duration::from_millis(25)).await;
    }
}

async fn look(w: &World, live: &[Live], ents: &BTreeSet<Ent>, known: &[Map], ids: &mut u64, n: u8) -> Result<Result<Vec<Map>, String>, Fail> {
    macro_rules! want {
        ($c:expr, $($arg:tt)*) => { if !$c { return Ok(Err(format!($($arg)*))); } };
    }
    let members: BTreeSet<u64> = live.iter().map(|l| l.id()).collect();
    let mut maps = vec![];
    for ty in 0..w.types {
        let m = owners(&live[n as usize % live.len()].coordinator(ty).await?)?;
        for s in known[ty].keys() {
            want!(m.contains_key(s), "shard {s} of type {ty} is not allocated any more");
        }
        for (s, o) in &m {
            want!(members.contains(o), "shard {s} of type {ty} is allocated to node {o}, which is no member ({members:?})");
        }
        let counts: Vec<usize> = members.iter().map(|i| m.values().filter(|o| *o == i).count()).collect();
        want!(counts.iter().max().unwrap() - counts.iter().min().unwrap() <= 1, "shards of type {ty} are not spread evenly: {m:?} on nodes {members:?}");
        for l in live {
            let h = l.host(ty).await?;
            let hosted: BTreeSet<u32> = h.hosted_shards.keys().copied().collect();
            let should: BTreeSet<u32> = m.iter().filter(|(_, o)| **o == l.id()).map(|(s, _)| *s).collect();
            want!(hosted == should && h.hosted_shard_count == should.len(), "node {} hosts shards {hosted:?} ({}) of type {ty}, allocated to it are {should:?}", l.id(), h.hosted_shard_count);
            want!(h.requests_pending_shard_allocation_count == 0, "requests for {} shards of type {ty} are still waiting on node {}", h.requests_pending_shard_allocation_count, l.id());
        }
        maps.push(m);
    }
    // every entity, from every node
    for e in ents {
        let mut reqs = vec![];
        for k in 0..live.len() {
            reqs.push(Req { node: k as u8, ty: e.0 as u8, ent: e.1, op: Op::Echo(0), recipe: None, delay: 0, pad: 0 });
        }
        let sent = w.send(live, &reqs, ids);
        let mut inst = BTreeSet::new();
        for (_, _, _, id, r) in w.collect(sent, &[]).await? {
            match r {
                Ok(r) => inst.insert(r.inst),
                Err(err) => return Ok(Err(format!("request {id} to entity {} fails with {err:?}", name(*e)))),
            };
        }
        let b = w.book.lock();
        want!(inst.len() == 1, "entity {} answers as instances {inst:?}", name(*e));
        let i = *inst.first().unwrap();
        let node = b.insts[&i].1;
        let s = w.shard(*e);
        want!(maps[e.0].get(&s) == Some(&node), "entity {} of shard {s} runs on node {node}, the shard is allocated to {:?}", name(*e), maps[e.0].get(&s));
        want!(b.live.get(&name(*e)).map(|l| l.as_slice()) == Some(&[(i, node)]), "entity {} answers as instance {i}, running are {:?}", name(*e), b.live.get(&name(*e)));
    }
    for ty in 0..w.types {
        let m = owners(&live[0].coordinator(ty).await?)?;
        want!(m == maps[ty], "the allocation of type {ty} is still changing: {:?}, then {m:?}", maps[ty]);
    }
    Ok(Ok(maps))
}

async fn case(c: &Case) -> CaseResult {
    let w = World::new(c.types, c.max_shards);
    let mut ids = 0u64;
    let mut live: Vec<Live> = (0..c.nodes).map(|i| w.launch(1 + i as u64, c.nodes)).collect();
    let first = live[0].addr.clone();
    for i in 0..c.nodes {
        live[i].build(&w).await?;
        live[i].serve((i > 0).then(|| first.clone())).await?;
    }
    w.formed(&live).await?;
    let mut ents: BTreeSet<Ent> = Default::default();
    let known = vec![Map::new(); c.types];
    let sent = w.send(&live, &c.first, &mut ids);
    for r in w.collect(sent, &[]).await? {
        ents.insert(r.0);
    }
    macro_rules! ensure_up {
        () => {
            for e in &ents {
                w.revive(&live, *e, e.1, &mut ids, Some(Kind::Good)).await?;
            }
        };
    }
    ensure_up!();
    let mut maps = settle(&w, &live, &ents, &known, &mut ids).await?;
    let mut gone = vec![];
    let mut graves = vec![];
    let (mut joined, mut left, mut moved, mut raced) = (0, 0, false, false);
    for (k, s) in c.steps.iter().enumerate() {
        let before = maps.clone();
        match s {
            Step::Burst(q) => {
                let sent = w.send(&live, q, &mut ids);
                for r in w.collect(sent, &[]).await? {
                    if let Err(e) = &r.4 {
                        return Err(Fail::Deadline(format!("step {k}: request {} to entity {} failed with {e:?} although no node came or went", r.3, name(r.0))));
                    }
                    ents.insert(r.0);
                }
                maps = settle(&w, &live, &ents, &maps, &mut ids).await?;
                for ty in 0..c.types {
                    for (s, o) in &before[ty] {
                        if maps[ty].get(s) != Some(o) {
                            return Err(Fail::Deadline(format!("step {k}: shard {s} of type {ty} moved from node {o} to {:?} although no node came or went", maps[ty].get(s))));
                        }
                    }
                }
            }
            Step::Allocate(a) => {
                let mut asked = vec![];
                for (node, ty, shard) in a {
                    let (l, ty, shard) = (&live[*node as usize % live.len()], *ty as usize % c.types, *shard as u32 % c.max_shards);
                    asked.push((l.id(), ty, shard, l.allocate(ty, shard)));
                }
                let mut answers: BTreeMap<(usize, u32), BTreeSet<u64>> = Default::default();
                let mut fresh: BTreeMap<(usize, u32), usize> = Default::default();
                for (node, ty, shard, j) in asked {
                    let r = cluster::soon(|| format!("step {k}: allocation of shard {shard} asked for by node {node}"), j).await?;
                    let r = r.map_err(|e| Fail::Safety(format!("step {k}: asking for shard {shard} from node {node} panicked: {e}")))?;
                    let n = match r {
                        Ok(AllocateShardResult::Allocated(s, n)) if s == shard => {
                            *fresh.entry((ty, shard)).or_default() += 1;
                            n
                        }
                        Ok(AllocateShardResult::AlreadyAllocated(s, n)) if s == shard => {
                            fresh.entry((ty, shard)).or_default();
                            n
                        }
                        r => return Err(Fail::Deadline(format!("step {k}: asking for shard {shard} of type {ty} from node {node} gives {r:?}"))),
                    };
                    answers.entry((ty, shard)).or_default().insert(n);
                }
                maps = settle(&w, &live, &ents, &maps, &mut ids).await?;
                for ((ty, s), n) in answers {
                    raced |= a.len() > 1;
                    if n.len() != 1 || maps[ty].get(&s) != n.first() {
                        return Err(Fail::Deadline(format!("step {k}: nodes were told that shard {s} of type {ty} is on {n:?}, it is on {:?}", maps[ty].get(&s))));
                    }
                    let want = if before[ty].contains_key(&s) { 0 } else { 1 };
                    if fresh[&(ty, s)] != want {
                        return Err(Fail::Deadline(format!("step {k}: shard {s} of type {ty}, allocated before: {:?}, was newly allocated {} times", before[ty].get(&s), fresh[&(ty, s)])));
                    }
                    if let Some(o) = before[ty].get(&s) {
                        if n.first() != Some(o) {
                            return Err(Fail::Deadline(format!("step {k}: shard {s} of type {ty} moved from {o} to {n:?} although no node came or went")));
                        }
                    }
                }
            }
            Step::Join(meanwhile, fresh) => {
                if joined == 2 {
                    continue;
                }
                joined += 1;
                let half = meanwhile.len() / 2;
                let mut sent = w.send(&live, &meanwhile[..half], &mut ids);
                let mut l = w.launch(100 + joined, live.len() + 1);
                l.build(&w).await?;
                l.serve(Some(live[k % live.len()].addr.clone())).await?;
                live.push(l);
                // what is sent through the new node, too, also while shards are moved to it
                sent.extend(w.send(&live, &meanwhile[half..], &mut ids));
                w.formed(&live).await?;
                let slow: Vec<Req> = (0..*fresh).map(|i| Req { node: i, ty: i / 2, ent: 100 * joined as u8 + i, op: Op::Echo(0), recipe: Some(Kind::Slow(30 + i % 5 * 30)), delay: i * 10, pad: 0 }).collect();
                tokio::time::sleep(Duration::from_millis(300)).await;
                sent.extend(w.send(&live, meanwhile, &mut ids));
                sent.extend(w.send(&live, &slow, &mut ids));
                tokio::time::sleep(Duration::from_millis(180)).await;
                sent.extend(w.send(&live, meanwhile, &mut ids));
                for r in w.collect(sent, &gone).await? {
                    ents.insert(r.0);
                }
                ensure_up!();
                tokio::time::sleep(Duration::from_millis(250)).await;
                maps = settle(&w, &live, &ents, &maps, &mut ids).await?;
                for ty in 0..c.types {
                    if before[ty].len() != maps[ty].len() {
                        continue;
                    }
                    let fair = maps[ty].len() / live.len();
                    for l in &live {
                        let had: Vec<u32> = before[ty].iter().filter(|(_, o)| **o == l.id()).map(|(s, _)| *s).collect();
                        let lost: Vec<u32> = had.iter().filter(|s| maps[ty].get(s) != Some(&l.id())).copied().collect();
                        if lost.len() > had.len().saturating_sub(fair) {
                            return Err(Fail::Deadline(format!("step {k}: node {} had shards {had:?} of type {ty} with a fair share of {fair}, and {lost:?} were moved away", l.id())));
                        }
                    }
                }
            }
            Step::Leave { who, crash, meanwhile } => {
                let leader = live[0].sys.current_leader();
                let k: Vec<usize> = (0..live.len()).filter(|i| Some(live[*i].id()) != leader).collect();
                if k.is_empty() {
                    continue;
                }
                left += 1;
                let half = meanwhile.len() / 2;
                let mut sent = w.send(&live, &meanwhile[..half], &mut ids);
                let mut l = live.remove(k[*who as usize % k.len()]);
                gone.push(l.id());
                let dead = |book: &Shared, id: u64| {
                    let mut b = book.lock();
                    b.departed.insert(id);
                    for l in b.live.values_mut() {
                        l.retain(|i| i.1 != id)
                    }
                };
                if *crash {
                    let rt = l.rt.take().unwrap();
                    let j = std::thread::spawn(move || rt.shutdown_timeout(Duration::from_secs(5)));
                    while !j.is_finished() {
                        tokio::time::sleep(Duration::from_millis(2)).await;
                    }
                    dead(&w.book, l.id());
                } else {
                    // it is no member any more as soon as it begins to shut down
                    dead(&w.book, l.id());
                    if let Some(s) = l.server.take() {
                        s.stop()
                    }
                    let sys = l.sys.actor_system().clone();
                    l.on("shutting down", async move { sys.shutdown().await }).await?;
                }
                graves.push(l);
                sent.extend(w.send(&live, &meanwhile[half..], &mut ids));
                for r in w.collect(sent, &gone).await? {
                    ents.insert(r.0);
                }
                w.formed(&live).await?;
                ensure_up!();
                maps = settle(&w, &live, &ents, &maps, &mut ids).await?;
                for ty in 0..c.types {
                    for (s, o) in &before[ty] {
                        if !gone.contains(o) && maps[ty].get(s) != Some(o) {
                            return Err(Fail::Deadline(format!("shard {s} of type {ty} moved from node {o} to {:?} although another node left", maps[ty].get(s))));
                        }
                    }
                }
            }
        }
        for ty in 0..c.types {
            moved |= before[ty].iter().any(|(s, o)| maps[ty].get(s) != Some(o));
        }
    }
    w.judge()?;
    Ok(CaseOut::new(moved).label(joined > 0, "joined").label(left > 0, "left").label(moved, "moved").label(raced, "allocations"))
}
