//! C26: streams attached to actors.
use coerce::actor::context::{attach_stream, ActorContext, StreamAttachmentOptions};
use coerce::actor::message::{Handler, Message};
use coerce::actor::scheduler::ActorType;
use coerce::actor::system::ActorSystem;
use coerce::actor::Actor;
use futures::StreamExt;
use parking_lot::Mutex;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::sync::Arc;
use std::time::Duration;
use tokio::time::Instant;
use vf::rt::{self, within};
use vf::*;

#[derive(Debug, Clone, Copy, Serialize, Deserialize, PartialEq)]
pub enum Item {
    Keep,
    Skip,
    Error,
}
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Case {
    /// delay before each item, in units
    items: Vec<(u8, Item)>,
    /// other messages: instant and handling time, in units
    others: Vec<(u8, u8)>,
    /// the stream never ends by itself
    endless: bool,
    /// handling time of items
    work: u8,
}
#[derive(Debug, Clone, PartialEq)]
enum Ev {
    Item(usize),
    Other(usize),
    Stopped,
}
type Log = Arc<Mutex<Vec<(Ev, u64)>>>;
struct Sub {
    log: Log,
    t0: Instant,
}
#[async_trait]
impl Actor for Sub {
    async fn stopped(&mut self, _: &mut ActorContext) {
        self.log.lock().push((Ev::Stopped, self.t0.elapsed().as_millis() as u64));
    }
}
struct M(Ev, u64);
impl Message for M {
    type Result = ();
}
#[async_trait]
impl Handler<M> for Sub {
    async fn handle(&mut self, m: M, _: &mut ActorContext) {
        self.log.lock().push((m.0, self.t0.elapsed().as_millis() as u64));
        if m.1 > 0 {
            tokio::time::sleep(Duration::from_millis(m.1)).await;
        }
    }
}
const U: u64 = 64;

async fn execute(case: &Case) -> CaseResult {
    let sys = ActorSystem::new();
    let t0 = Instant::now();
    let log: Log = Default::default();
    let a = sys.new_actor("s", Sub { log: log.clone(), t0 }, ActorType::Tracked).await.map_err(|e| Fail::Safety(format!("{e:?}")))?;
    let items = case.items.clone();
    let endless = case.endless;
    let s = futures::stream::unfold((items, 0usize), move |(items, i)| async move {
        if i >= items.len() {
            if endless {
                std::future::pending::<()>().await;
            }
            return None;
        }
        let (d, it) = items[i];
        if d > 0 {
            tokio::time::sleep(Duration::from_millis(d as u64 * U)).await;
        }
        let r = match it {
            Item::Error => Err(i),
            k => Ok((i, k)),
        };
        Some((r, (items, i + 1)))
    });
    let work = case.work as u64 * U;
    attach_stream(a.clone(), Box::pin(s).boxed(), StreamAttachmentOptions::default(), move |(i, k): (usize, Item)| {
        (k == Item::Keep).then(|| M(Ev::Item(i), work))
    });
    for (i, (at, w)) in case.others.iter().enumerate() {
        let (a, at, w) = (a.clone(), *at as u64, *w as u64);
        tokio::spawn(async move {
            tokio::time::sleep_until(t0 + Duration::from_millis(at * U + 1 + i as u64)).await;
            let _ = a.notify(M(Ev::Other(i), w * U));
        });
    }
    rt::settle(2_000_000).await;
    // the model: posts in order of time, handled one after the other, ended by the end of the stream
    let mut posts: Vec<(u64, u8, usize, Option<Ev>, u64)> = vec![];
    let mut t = 0;
    let mut ended = false;
    for (i, (d, it)) in case.items.iter().enumerate() {
        t += *d as u64 * U;
        match it {
            Item::Keep => posts.push((t, 0, i, Some(Ev::Item(i)), work)),
            Item::Skip => {}
            Item::Error => {
                ended = true;
                break;
            }
        }
    }
    if ended || !case.endless {
        ended = true;
        posts.push((t, 0, usize::MAX, None, 0));
    }
    for (i, (at, w)) in case.others.iter().enumerate() {
        posts.push((*at as u64 * U + 1 + i as u64, 1, i, Some(Ev::Other(i)), *w as u64 * U));
    }
    posts.sort_by_key(|p| (p.0, p.1, p.2));
    let mut want = vec![];
    let mut free = 0;
    for (t, _, _, e, w) in posts {
        let b = free.max(t);
        match e {
            Some(e) => {
                want.push((e, b));
                free = b + w;
            }
            None => {
                want.push((Ev::Stopped, b));
                break;
            }
        }
    }
    let got = log.lock().clone();
    let gi: Vec<&Ev> = got.iter().map(|g| &g.0).collect();
    let wi: Vec<&Ev> = want.iter().map(|g| &g.0).collect();
    ensure!(gi == wi, "the actor saw {gi:?}, the stream and the other senders call for {wi:?}");
    for (g, w) in got.iter().zip(&want) {
        ensure!(g.1 >= w.1 && g.1 <= w.1 + 3, "{:?} happened at {} ms, due at {} ms", g.0, g.1, w.1);
    }
    let s = within("send", a.send(M(Ev::Other(9999), 0))).await?;
    ensure!(s.is_err() == ended, "after the stream {} the actor answers {s:?}", if ended { "ended" } else { "went quiet" });
    let kept = case.items.iter().filter(|i| i.1 == Item::Keep).count();
    Ok(CaseOut::new(kept >= 2)
        .label(case.items.iter().any(|i| i.1 == Item::Error), "stream error")
        .label(case.endless, "open stream")
        .label(!case.others.is_empty(), "other messages"))
}

struct Det;
impl Part for Det {
    type Case = Case;
    fn name(&self) -> &'static str {
        "streams"
    }
    fn rule(&self) -> &'static str {
        "a stream of 0-25 items (kept, skipped, error) with generated gaps attached to an actor that also gets 0-12 other messages; the actor's history is compared with the model, event by event and to the millisecond; non-trivial: two or more kept items."
    }
    fn strategy(&self, _: Tier) -> BoxedStrategy<Case> {
        let item = (prop_oneof![2 => Just(0u8), 1 => 0u8..6], prop_oneof![12 => Just(Item::Keep), 4 => Just(Item::Skip), 1 => Just(Item::Error)]);
        (prop::collection::vec(item, 0..25), prop::collection::vec((0u8..40, 0u8..4), 0..12), any::<bool>(), prop_oneof![Just(0u8), 0u8..4])
            .prop_map(|(items, others, endless, work)| Case { items, others, endless, work })
            .boxed()
    }
    fn cases(&self, t: Tier) -> u32 {
        if t == Tier::Quick { 12_000 } else { 300_000 }
    }
    fn check(&self, c: &Case) -> CaseResult {
        block_on_paused(async { within("whole case", execute(c)).await })?
    }
}
pub fn run() {
    Runner::from_args("C26").part(Det).finish()
}
