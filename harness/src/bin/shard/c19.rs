//! C19: requests to sharded entities while the nodes of the cluster stay the same.
use crate::world::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};
use std::time::Duration;
use vf::*;

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Case {
    nodes: usize,
    types: usize,
    max_shards: u32,
    /// sent before the nodes have found each other
    early: Vec<Req>,
    bursts: Vec<Vec<Req>>,
}

pub struct Requests;

fn kind() -> impl Strategy<Value = Kind> {
    prop_oneof![
        8 => Just(Kind::Good),
        2 => (1u8..40).prop_map(Kind::Slow),
        2 => prop_oneof![Just(0u8), 1u8..30].prop_map(Kind::Brief),
        2 => prop_oneof![Just(0u8), 1u8..20].prop_map(Kind::Refused),
        1 => Just(Kind::Panics),
        1 => Just(Kind::Unreadable),
    ]
}
pub fn req(ents: u8, good: bool, slow: std::ops::Range<u8>, heavy: u32) -> impl Strategy<Value = Req> {
    let op = if good {
        prop_oneof![6 => Just(Op::Echo(0)), 2 => (1u8..15).prop_map(Op::Echo)].boxed()
    } else {
        prop_oneof![10 => Just(Op::Echo(0)), 3 => (1u8..15).prop_map(Op::Echo), 3 => Just(Op::Stop), 2 => Just(Op::Panic), 1 => Just(Op::Unknown)].boxed()
    };
    let recipe = if good {
        prop_oneof![5 => Just(Kind::Good), heavy => slow.prop_map(Kind::Slow)].prop_map(Some).boxed()
    } else {
        prop_oneof![1 => Just(None), 4 => kind().prop_map(Some)].boxed()
    };
    (any::<u8>(), 0u8..2, 0..ents, op, recipe, prop_oneof![3 => Just(0u8), 1 => 0u8..12], prop_oneof![8 => Just(0u16), 1 => any::<u16>()])
        .prop_map(|(node, ty, ent, op, recipe, delay, pad)| Req { node, ty, ent, op, recipe, delay, pad })
}

impl Part for Requests {
    type Case = Case;
    fn name(&self) -> &'static str {
        "requests"
    }
    fn rule(&self) -> &'static str {
        "1-3 real nodes with shared storage, 1-2 sharded types, 1-6 shards, bursts of concurrent requests from any node to few entities, with good, slow, failing, panicking, unreadable or no recipes, recipes of entities that stop themselves as soon as they have started, that echo, stop or panic the entity or that nothing is registered for; entities log their start, end and every request: never two instances of one entity, no request handled twice, every request resolves, with the entity's own reply or - only if the entity could not be created or ended in the burst - an error, and every entity can be started again afterwards; non-trivial: requests of one burst go to one entity from different nodes, or an entity fails or ends"
    }
    fn cases(&self, tier: Tier) -> u32 {
        match tier {
            Tier::Quick => 320,
            Tier::Thorough => 6000,
        }
    }
    fn shards(&self) -> u32 {
        24
    }
    fn shrink_budget(&self) -> (u32, Duration) {
        (25, Duration::from_secs(150))
    }
    fn per_process(&self) -> u32 {
        1500
    }
    fn strategy(&self, _t: Tier) -> BoxedStrategy<Case> {
        (prop_oneof![2 => Just(1usize), 3 => Just(2usize), 2 => Just(3usize)], 1usize..3, 1u32..7, 1u8..6)
            .prop_flat_map(|(nodes, types, max_shards, ents)| {
                let good = prop::collection::vec(req(ents, true, 1..40, 1), 1..12);
                let any = prop::collection::vec(req(ents, false, 1..40, 1), 1..14);
                // many requests for one entity while it starts
                let crowd = (prop::collection::vec(req(1, true, 10..60, 9), 17..60), 0u8..2, 0..ents).prop_map(|(mut v, ty, ent)| {
                    for (i, r) in v.iter_mut().enumerate() {
                        r.ty = ty;
                        r.ent = 50 + ent;
                        r.pad = 0;
                        if i == 0 {
                            r.delay = 0;
                        }
                    }
                    v
                });
                (prop::collection::vec(req(ents, true, 1..40, 1), 0..6), prop::collection::vec(prop_oneof![4 => good, 6 => any, 1 => crowd], 1..6)).prop_map(move |(early, bursts)| Case { nodes, types, max_shards, early, bursts })
            })
            .boxed()
    }
    fn check(&self, c: &Case) -> CaseResult {
        cluster::run(1, case(c))
    }
}

async fn case(c: &Case) -> CaseResult {
    let w = World::new(c.types, c.max_shards);
    let mut ids = 0u64;
    let mut live: Vec<Live> = (0..c.nodes).map(|i| w.launch(1 + i as u64, c.nodes)).collect();
    let first = live[0].addr.clone();
    let mut early = vec![];
    for i in 0..c.nodes {
        live[i].build(&w).await?;
        let (from, to) = (c.early.len() * i / c.nodes, c.early.len() * (i + 1) / c.nodes);
        early.extend(w.send(&live, &c.early[from..to], &mut ids));
        live[i].serve((i > 0).then(|| first.clone())).await?;
    }
    // offered recipes of entities
    let mut offered: BTreeMap<Ent, BTreeSet<u64>> = Default::default();
    for s in &early {
        offered.entry(s.ent).or_default().insert(s.id);
    }
    let touched: BTreeSet<Ent> = early.iter().map(|s| s.ent).collect();
    // shards may be moved while the cluster forms: these may fail, but not stay unanswered
    w.collect(early, &[]).await?;
    w.formed(&live).await?;
    if c.nodes > 1 {
        tokio::time::sleep(Duration::from_millis(700)).await;
    }
    // entities that are known to run
    let mut up: BTreeMap<Ent, u64> = Default::default();
    for e in touched {
        let i = w.revive(&live, e, e.1, &mut ids, Some(Kind::Good)).await?;
        offered.get_mut(&e).unwrap().extend(1..=ids);
        up.insert(e, i);
    }
    let mut crossed = false;
    let mut failed = false;
    let mut ended = false;
    for (k, burst) in c.bursts.iter().enumerate() {
        let starts = w.book.lock().starts;
        let sent = w.send(&live, burst, &mut ids);
        let mut from: BTreeMap<Ent, BTreeSet<u64>> = Default::default();
        for s in &sent {
            from.entry(s.ent).or_default().insert(s.node);
            if matches!(s.recipe, Some(Kind::Good | Kind::Slow(_) | Kind::Brief(_))) {
                offered.entry(s.ent).or_default().insert(s.id);
            }
        }
        crossed |= from.values().any(|n| n.len() > 1);
        let res = w.collect(sent, &[]).await?;
        let mut by: BTreeMap<Ent, Vec<_>> = Default::default();
        for (e, op, recipe, id, r) in res {
            if op == Op::Unknown {
                ensure!(r.is_err(), "a message nothing is registered for was answered");
                continue;
            }
            if let Ok(r) = &r {
                ensure!(offered.get(&e).map_or(false, |o| o.contains(&r.tag)), "burst {k}: entity {} was created from recipe {}, which was not offered for it", name(e), r.tag);
            }
            by.entry(e).or_default().push((op, recipe, id, r));
        }
        for (e, rs) in by {
            let ends = rs.iter().any(|r| matches!(r.0, Op::Stop | Op::Panic) || (!up.contains_key(&e) && matches!(r.1, Some(Kind::Brief(_)))));
            let oks: BTreeSet<u64> = rs.iter().filter_map(|r| r.3.as_ref().ok().map(|r| r.inst)).collect();
            let bad = |k: &Option<Kind>| !matches!(k, Some(Kind::Good | Kind::Slow(_) | Kind::Brief(_)));
            ended |= ends;
            failed |= rs.iter().any(|r| r.3.is_err());
            for (op, _, id, r) in &rs {
                if *op == Op::Panic {
                    ensure!(r.is_err(), "request {id} made the entity panic and was answered with {r:?}");
                }
            }
            let must = !ends && (up.contains_key(&e) || rs.iter().all(|r| !bad(&r.1)));
            if must {
                // only believed when it happens again: a shard may just be moving on a slow machine
                if let Some((op, recipe, id, Err(err))) = rs.iter().find(|r| r.3.is_err()) {
                    return Err(Fail::Deadline(format!("burst {k}: request {id} ({op:?}, recipe {recipe:?}) to entity {} failed with {err:?}, although the entity {}", name(e), if up.contains_key(&e) { "is running" } else { "can be created" })));
                }
                if oks.len() != 1 || up.get(&e).map_or(false, |i| !oks.contains(i)) {
                    return Err(Fail::Deadline(format!("burst {k}: nothing stopped entity {}, but its requests were answered by instances {oks:?} (before: {:?})", name(e), up.get(&e))));
                }
                up.insert(e, *oks.first().unwrap());
            } else if !up.contains_key(&e) && rs.iter().all(|r| bad(&r.1)) {
                ensure!(oks.is_empty(), "burst {k}: entity {} answers although no recipe for it can be used", name(e));
            } else {
                let i = w.revive(&live, e, k as u8, &mut ids, Some(Kind::Good)).await?;
                offered.entry(e).or_default().extend(1..=ids);
                up.insert(e, i);
            }
        }
        // revived ones may still be on their way out: everything that runs answers twice alike
        for (e, i) in up.iter_mut() {
            let l = w.book.lock().live.get(&name(*e)).cloned().unwrap_or_default();
            if l.len() != 1 || l[0].0 != *i {
                *i = w.revive(&live, *e, k as u8, &mut ids, None).await?;
            }
        }
        let _ = starts;
    }
    w.judge()?;
    Ok(CaseOut::new(crossed || failed || ended)
        .label(crossed, "several-nodes")
        .label(failed, "failed")
        .label(ended, "ended")
        .label(!c.early.is_empty(), "early"))
}
