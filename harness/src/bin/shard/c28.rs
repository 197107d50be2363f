//! C28: what sharding remembers when the nodes that ran it have gone.
use crate::c19::req;
use crate::world::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};
use std::time::{Duration, Instant};
use vf::cluster::patience;
use vf::*;

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Life {
    /// how many nodes are started (added to those that stayed)
    nodes: usize,
    /// they have the ids of nodes that have gone
    same_ids: bool,
    bursts: Vec<Vec<Req>>,
    /// how many nodes besides the coordinator's stay at the end
    stay: usize,
    kill: bool,
    /// requests under way at the end
    last: Vec<Req>,
    wait: u8,
}
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Case {
    types: usize,
    max_shards: u32,
    lives: Vec<Life>,
}

pub struct Memory;
/// entities that stop themselves are not here
fn lasting(mut q: Req) -> Req {
    if let Some(Kind::Brief(ms)) = q.recipe {
        q.recipe = Some(Kind::Slow(ms));
    }
    q
}

impl Part for Memory {
    type Case = Case;
    fn name(&self) -> &'static str {
        "memory"
    }
    fn rule(&self) -> &'static str {
        "2-4 generations of 1-3 real nodes over one storage, 1-2 sharded types, 1-8 shards; requests create entities (also failing, stopping and panicking ones), then all nodes, or the coordinator's and some others, are shut down or killed, with requests under way, and others with the same or new ids start; with no request made, every shard that was allocated is allocated again, evenly, is hosted by its owner alone, and every entity that ever ran runs there, once, with the recipe it was started with; then it answers every node without a recipe; non-trivial: entities survived"
    }
    fn cases(&self, tier: Tier) -> u32 {
        match tier {
            Tier::Quick => 160,
            Tier::Thorough => 3000,
        }
    }
    fn shards(&self) -> u32 {
        24
    }
    fn shrink_budget(&self) -> (u32, Duration) {
        (15, Duration::from_secs(150))
    }
    fn per_process(&self) -> u32 {
        1000
    }
    fn strategy(&self, _t: Tier) -> BoxedStrategy<Case> {
        (1usize..3, 1u32..9, 2u8..14)
            .prop_flat_map(|(types, max_shards, ents)| {
                let reqs = move |n| prop::collection::vec(prop_oneof![req(ents, true, 1..40, 1), req(ents, false, 1..40, 1)].prop_map(lasting), 0..n);
                let life = (prop_oneof![2 => Just(1usize), 3 => Just(2), 2 => Just(3)], any::<bool>(), prop::collection::vec(reqs(16), 0..3), prop_oneof![2 => Just(0usize), 3 => 1usize..3], any::<bool>(), reqs(8), 0u8..30)
                    .prop_map(|(nodes, same_ids, bursts, stay, kill, last, wait)| Life { nodes, same_ids, bursts, stay, kill, last, wait });
                prop::collection::vec(life, 2..5).prop_map(move |lives| Case { types, max_shards, lives })
            })
            .boxed()
    }
    fn check(&self, c: &Case) -> CaseResult {
        cluster::run(1, case(c))
    }
}

/// What must be remembered: shards, and entities with the tags their recipe may have.
#[derive(Default)]
struct Known {
    shards: Vec<BTreeSet<u32>>,
    ents: BTreeMap<Ent, BTreeSet<u64>>,
    /// these may be idle: their shard may run on where it was
    ended: BTreeSet<Ent>,
}

async fn look(w: &World, live: &[Live], k: &Known, n: usize) -> Result<Result<(), String>, Fail> {
    macro_rules! want {
        ($c:expr, $($arg:tt)*) => { if !$c { return Ok(Err(format!($($arg)*))); } };
    }
    let members: BTreeSet<u64> = live.iter().map(|l| l.id()).collect();
    for ty in 0..w.types {
        let m = owners(&live[n % live.len()].coordinator(ty).await?)?;
        for s in &k.shards[ty] {
            want!(m.contains_key(s), "shard {s} of type {ty}, allocated before, is not allocated");
        }
        for (s, o) in &m {
            want!(members.contains(o), "shard {s} of type {ty} is allocated to node {o}, which is no member ({members:?})");
        }
        let counts: Vec<usize> = members.iter().map(|i| m.values().filter(|o| *o == i).count()).collect();
        want!(counts.iter().max().unwrap() - counts.iter().min().unwrap() <= 1, "shards of type {ty} are not spread evenly: {m:?} on nodes {members:?}");
        for l in live {
            let h = l.host(ty).await?;
            let hosted: BTreeSet<u32> = h.hosted_shards.keys().copied().collect();
            let should: BTreeSet<u32> = m.iter().filter(|(_, o)| **o == l.id()).map(|(s, _)| *s).collect();
            want!(hosted == should, "node {} hosts shards {hosted:?} of type {ty}, allocated to it are {should:?} (all: {m:?}, leader {:?})", l.id(), l.sys.current_leader());
        }
        let b = w.book.lock();
        for (e, tags) in k.ents.iter().filter(|(e, _)| e.0 == ty) {
            let s = w.shard(*e);
            let run: Vec<(u64, u64)> = b.live.get(&name(*e)).cloned().unwrap_or_default();
            if run.is_empty() && k.ended.contains(e) {
                continue;
            }
            want!(run.len() == 1, "of entity {} of shard {s}, on node {:?}, run {run:?}", name(*e), m.get(&s));
            want!(m.get(&s) == Some(&run[0].1), "entity {} runs on node {}, its shard {s} is on {:?}", name(*e), run[0].1, m.get(&s));
            let tag = b.insts[&run[0].0].2;
            ensure!(tags.contains(&tag), "entity {} was started again with recipe {tag} instead of {tags:?}", name(*e));
        }
    }
    Ok(Ok(()))
}

async fn settle(w: &World, live: &[Live], k: &Known, what: &str) -> Result<(), Fail> {
    let t = Instant::now();
    let mut n = 0;
    loop {
        n += 1;
        match look(w, live, k, n).await? {
            Ok(()) => return Ok(()),
            Err(e) if t.elapsed() > patience() => return Err(Fail::Deadline(format!("{what}: {e} (still so after {:?})", t.elapsed()))),
            Err(_) => tokio::time::sleep(Duration::from_millis(25)).await,
        }
    }
}

async fn case(c: &Case) -> CaseResult {
    let w = World::new(c.types, c.max_shards);
    w.book.lock().overlap = true;
    let mut ids = 0u64;
    let mut k = Known { shards: vec![Default::default(); c.types], ..Default::default() };
    let mut live: Vec<Live> = vec![];
    let mut free: Vec<u64> = vec![];
    let mut pending: Option<(Vec<Sent>, Vec<u64>)> = None;
    let (mut next, mut survived, mut kept, mut killed) = (0u64, false, false, false);
    for (g, life) in c.lives.iter().enumerate() {
        let fresh = life.nodes.min(4 - live.len());
        let old = live.len();
        for _ in 0..fresh {
            let id = match (life.same_ids && old == 0).then(|| free.pop()).flatten() {
                Some(i) => i,
                None => {
                    next += 1;
                    next
                }
            };
            w.book.lock().departed.remove(&id);
            let mut l = w.launch(id, old + fresh);
            l.build(&w).await?;
            let seed = live.first().map(|l: &Live| l.addr.clone());
            l.serve(seed).await?;
            live.push(l);
        }
        w.formed(&live).await?;
        // a node that is left alone may have to wait for others
        if let Some((sent, gone)) = pending.take() {
            w.collect(sent, &gone).await?;
        }
        let ids_now: Vec<u64> = live.iter().map(|l| l.id()).collect();
        let what = format!("generation {g} (nodes {ids_now:?}, {old} of them stayed)");
        settle(&w, &live, &k, &what).await?;
        survived |= g > 0 && !k.ents.is_empty();
        kept |= old > 0 && !k.ents.is_empty();
        // with no recipe, from every node
        for (e, tags) in &k.ents {
            for n in 0..live.len() {
                let i = w.revive(&live, *e, n as u8, &mut ids, None).await?;
                let tag = w.book.lock().insts[&i].2;
                ensure!(tags.contains(&tag), "{what}: entity {} has recipe {tag} instead of {tags:?}", name(*e));
            }
        }
        for q in life.bursts.iter().flatten().chain(&life.last) {
            if matches!(q.op, Op::Stop | Op::Panic) {
                k.ended.insert((q.ty as usize % c.types, q.ent));
            }
        }
        for b in &life.bursts {
            let sent = w.send(&live, b, &mut ids);
            w.collect(sent, &[]).await?;
        }
        // the end
        let leader = live[0].sys.current_leader();
        let mut stay: Vec<Live> = vec![];
        let mut go: Vec<Live> = vec![];
        let lead = live.iter().position(|l| Some(l.id()) == leader).unwrap_or(0);
        let first = live.remove(lead);
        go.push(first);
        for l in live.drain(..) {
            if stay.len() < life.stay {
                stay.push(l)
            } else {
                go.push(l)
            }
        }
        let last = g + 1 == c.lives.len();
        if last {
            break;
        }
        let n_go = go.len();
        let mut all = go;
        all.extend(stay);
        let mut open: BTreeMap<Ent, BTreeSet<u64>> = Default::default();
        let sent = w.send(&all, &life.last, &mut ids);
        for s in &sent {
            if s.recipe.is_some() {
                open.entry(s.ent).or_default().insert(s.id);
            }
        }
        tokio::time::sleep(Duration::from_millis(life.wait as u64)).await;
        let mut go = all;
        let stay = go.split_off(n_go);
        killed |= life.kill;
        {
            let mut b = w.book.lock();
            for l in &go {
                let id = l.id();
                b.departed.insert(id);
                for l in b.live.values_mut() {
                    l.retain(|i| i.1 != id)
                }
            }
        }
        let gone: Vec<u64> = go.iter().map(|l| l.id()).collect();
        if life.kill {
            let rts: Vec<_> = go.iter_mut().map(|l| l.rt.take().unwrap()).collect();
            let j: Vec<_> = rts.into_iter().map(|rt| std::thread::spawn(move || rt.shutdown_timeout(Duration::from_secs(5)))).collect();
            while j.iter().any(|j| !j.is_finished()) {
                tokio::time::sleep(Duration::from_millis(2)).await;
            }
        } else {
            for l in &mut go {
                if let Some(s) = l.server.take() {
                    s.stop()
                }
                let sys = l.sys.actor_system().clone();
                l.on("shutting down", async move { sys.shutdown().await }).await?;
            }
            for l in &mut go {
                let rt = l.rt.take().unwrap();
                let j = std::thread::spawn(move || rt.shutdown_timeout(Duration::from_secs(5)));
                while !j.is_finished() {
                    tokio::time::sleep(Duration::from_millis(2)).await;
                }
            }
        }
        drop(go);
        free.extend(&gone);
        pending = Some((sent, gone));
        live = stay;
        if live.is_empty() {
            k.ended.clear();
        }
        // what must be remembered
        {
            let b = w.book.lock();
            let mut newest: BTreeMap<&String, (u64, u64)> = Default::default();
            for (i, (e, _, tag)) in &b.insts {
                let n = newest.entry(e).or_default();
                *n = (*n).max((*i, *tag));
            }
            for ty in 0..c.types {
                for n in 0..14u8 {
                    if let Some((_, tag)) = newest.get(&name((ty, n))) {
                        let mut tags = open.get(&(ty, n)).cloned().unwrap_or_default();
                        tags.insert(*tag);
                        k.ents.insert((ty, n), tags);
                        k.shards[ty].insert(w.shard((ty, n)));
                    }
                }
            }
        }
    }
    w.judge()?;
    Ok(CaseOut::new(survived).label(kept, "survivors").label(killed, "killed").label(survived && !kept, "restarted"))
}
