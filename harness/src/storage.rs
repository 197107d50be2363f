//! Generated operation sequences against a journal storage, compared with a model of it.
use crate::{ensure, CaseOut, CaseResult, Fail};
use coerce::persistent::journal::storage::{JournalEntry, JournalStorageRef};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::sync::Arc;

#[derive(Debug, Clone, Serialize, Deserialize, PartialEq)]
pub struct Body {
    pub kind: u8,
    pub bytes: Vec<u8>,
    /// the sequence is this far above the previous one of its key
    pub gap: u8,
    /// repeated this often (large payloads without large cases)
    pub times: u16,
}
#[derive(Debug, Clone, Serialize, Deserialize, PartialEq)]
pub enum Op {
    Snapshot(u8, Body),
    Message(u8, Body),
    Batch(u8, Vec<Body>),
    /// several writes to different keys at once
    Together(Vec<(u8, Vec<Body>)>),
    LatestSnapshot(u8),
    Latest(u8, u8),
    One(u8, u8),
    Range(u8, u8, u8),
    DeleteTo(u8, u8),
    DeleteAll(u8),
    /// jump to large sequence numbers
    Jump(u8, u32),
    Reconnect,
}
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Case {
    pub ops: Vec<Op>,
    pub variant: u8,
}

type E = (i64, String, Vec<u8>);
#[derive(Default, Clone, Debug)]
struct Key {
    messages: Vec<E>,
    snapshots: Vec<E>,
    last: i64,
}
// related names: prefixes of each other, separators, other scripts, the names the storage may use itself
pub const KEYS: [&str; 8] = ["k", "k1", "k:journal", "k:snapshot", "", "ключ {k} *?[a-z]", "k\n1", "snapshot"];
pub const TYPES: [&str; 4] = ["t", "type-two", "", "тип\0"];

fn entry(e: &E) -> JournalEntry {
    JournalEntry { sequence: e.0, payload_type: e.1.as_str().into(), bytes: Arc::new(e.2.clone()) }
}
fn plain(e: JournalEntry) -> E {
    (e.sequence, e.payload_type.to_string(), e.bytes.as_ref().clone())
}
fn show(v: &[E]) -> String {
    format!("{:?}", v.iter().map(|e| (e.0, e.1.clone(), e.2.len())).collect::<Vec<_>>())
}

pub struct Driver<'a> {
    pub key: Box<dyn Fn(usize) -> String + Send + 'a>,
    pub keys: usize,
}

/// The point `sel` selects in the sequence numbers of a key: below, on, between and above them.
fn pick(k: &Key, sel: u8) -> i64 {
    let mut pts: Vec<i64> = vec![0, 1, k.last, k.last + 1, k.last + 1000];
    for e in k.messages.iter().chain(&k.snapshots) {
        pts.extend([e.0 - 1, e.0, e.0 + 1]);
    }
    pts.retain(|p| *p >= 0);
    pts.sort();
    pts.dedup();
    pts[sel as usize % pts.len()]
}

/// `connect` returns the storage; called again for `Reconnect`.
pub async fn drive<F, Fut>(case: &Case, d: &Driver<'_>, mut connect: F) -> CaseResult
where
    F: FnMut() -> Fut,
    Fut: std::future::Future<Output = JournalStorageRef>,
{
    let mut s = connect().await;
    let mut model: BTreeMap<usize, Key> = BTreeMap::new();
    let (mut reads, mut deleted) = (0, false);
    // whether the storage counts the boundary as deleted; must be the same every time
    let mut delete_inclusive: Option<bool> = None;
    let mut latest_inclusive: Option<bool> = None;
    let add = |k: &mut Key, b: &Body| -> E {
        k.last += 1 + b.gap as i64;
        (k.last, TYPES[b.kind as usize % TYPES.len()].to_string(), b.bytes.repeat(b.times as usize))
    };
    let err = |what: &str, e: anyhow::Error| Fail::Safety(format!("{what} failed: {e:#}"));
    for op in &case.ops {
        match op {
            Op::Snapshot(k, b) => {
                let ki = *k as usize % d.keys;
                let m = model.entry(ki).or_default();
                let e = add(m, b);
                s.write_snapshot(&(d.key)(ki), entry(&e)).await.map_err(|x| err("write_snapshot", x))?;
                m.snapshots.push(e);
            }
            Op::Message(k, b) => {
                let ki = *k as usize % d.keys;
                let m = model.entry(ki).or_default();
                let e = add(m, b);
                s.write_message(&(d.key)(ki), entry(&e)).await.map_err(|x| err("write_message", x))?;
                m.messages.push(e);
            }
            Op::Batch(k, bs) => {
                let ki = *k as usize % d.keys;
                let m = model.entry(ki).or_default();
                let es: Vec<E> = bs.iter().map(|b| add(m, b)).collect();
                s.write_message_batch(&(d.key)(ki), es.iter().map(entry).collect())
                    .await
                    .map_err(|x| err(&format!("write_message_batch of {}", bs.len()), x))?;
                m.messages.extend(es);
            }
            Op::Together(v) => {
                let mut hs = vec![];
                let mut seen = vec![];
                for (k, bs) in v {
                    let ki = *k as usize % d.keys;
                    if seen.contains(&ki) || bs.is_empty() {
                        continue;
                    }
                    seen.push(ki);
                    let m = model.entry(ki).or_default();
                    let es: Vec<E> = bs.iter().map(|b| add(m, b)).collect();
                    m.messages.extend(es.clone());
                    let (s, key) = (s.clone(), (d.key)(ki));
                    hs.push(tokio::spawn(async move {
                        if es.len() == 1 {
                            s.write_message(&key, entry(&es[0])).await
                        } else {
                            s.write_message_batch(&key, es.iter().map(entry).collect()).await
                        }
                    }));
                }
                for h in hs {
                    h.await.expect("task").map_err(|x| err("a concurrent write", x))?;
                }
            }
            Op::LatestSnapshot(k) => {
                let ki = *k as usize % d.keys;
                let got = s.read_latest_snapshot(&(d.key)(ki)).await.map_err(|x| err("read_latest_snapshot", x))?.map(plain);
                let want = model.get(&ki).and_then(|m| m.snapshots.last().cloned());
                ensure!(got == want, "the latest snapshot of {:?} is {:?}, last written: {:?}", (d.key)(ki), got.map(|g| (g.0, g.1)), want.map(|g| (g.0, g.1)));
            }
            Op::Latest(k, sel) => {
                let ki = *k as usize % d.keys;
                let m = model.entry(ki).or_default();
                let from = pick(m, *sel);
                let got: Vec<E> = s
                    .read_latest_messages(&(d.key)(ki), from)
                    .await
                    .map_err(|x| err("read_latest_messages", x))?
                    .unwrap_or_default()
                    .into_iter()
                    .map(plain)
                    .collect();
                reads += got.len();
                let inc = got.iter().any(|e| e.0 == from);
                if from != 0 && m.messages.iter().any(|e| e.0 == from) {
                    ensure!(*latest_inclusive.get_or_insert(inc) == inc, "reading from sequence {from}: the boundary is sometimes included and sometimes not");
                }
                let want: Vec<E> = m.messages.iter().filter(|e| if inc { e.0 >= from } else { e.0 > from }).cloned().collect();
                ensure!(got == want, "the messages of {:?} from {from} are {}, expected {}", (d.key)(ki), show(&got), show(&want));
            }
            Op::One(k, sel) => {
                let ki = *k as usize % d.keys;
                let m = model.entry(ki).or_default();
                let q = pick(m, *sel);
                let got = s.read_message(&(d.key)(ki), q).await.map_err(|x| err("read_message", x))?.map(plain);
                let want = m.messages.iter().find(|e| e.0 == q).cloned();
                ensure!(got == want, "message {q} of {:?} is {:?}, expected {:?}", (d.key)(ki), got.map(|g| (g.0, g.1)), want.map(|g| (g.0, g.1)));
            }
            Op::Range(k, a, b) => {
                let ki = *k as usize % d.keys;
                let m = model.entry(ki).or_default();
                let (from, to) = (pick(m, *a), pick(m, *b));
                let got: Vec<E> = s
                    .read_messages(&(d.key)(ki), from, to)
                    .await
                    .map_err(|x| err("read_messages", x))?
                    .unwrap_or_default()
                    .into_iter()
                    .map(plain)
                    .collect();
                reads += got.len();
                let want: Vec<E> = m.messages.iter().filter(|e| e.0 >= from && e.0 <= to).cloned().collect();
                ensure!(got == want, "messages {from} to {to} of {:?} are {}, expected {}", (d.key)(ki), show(&got), show(&want));
            }
            Op::DeleteTo(k, sel) => {
                let ki = *k as usize % d.keys;
                let m = model.entry(ki).or_default();
                let to = pick(m, *sel);
                s.delete_messages_to(&(d.key)(ki), to).await.map_err(|x| err("delete_messages_to", x))?;
                let had = m.messages.iter().any(|e| e.0 == to);
                deleted |= m.messages.iter().any(|e| e.0 < to);
                let mut inc = false;
                if had {
                    inc = s.read_message(&(d.key)(ki), to).await.map_err(|x| err("read_message", x))?.is_none();
                    ensure!(*delete_inclusive.get_or_insert(inc) == inc, "deleting up to {to}: the boundary is sometimes included and sometimes not");
                }
                m.messages.retain(|e| if inc { e.0 > to } else { e.0 >= to });
            }
            Op::DeleteAll(k) => {
                let ki = *k as usize % d.keys;
                s.delete_all(&(d.key)(ki)).await.map_err(|x| err("delete_all", x))?;
                let m = model.entry(ki).or_default();
                m.messages.clear();
                m.snapshots.clear();
            }
            Op::Jump(k, n) => {
                let ki = *k as usize % d.keys;
                // large sequence numbers, up to 2^52
                model.entry(ki).or_default().last += (*n as i64) << 19;
            }
            Op::Reconnect => s = connect().await,
        }
    }
    // everything at the end, through a new connection
    let s = connect().await;
    for ki in 0..d.keys {
        let m = model.entry(ki).or_default();
        let key = (d.key)(ki);
        let got: Vec<E> = s.read_latest_messages(&key, 0).await.map_err(|x| err("read_latest_messages", x))?.unwrap_or_default().into_iter().map(plain).collect();
        ensure!(got == m.messages, "at the end {key:?} holds {}, expected {}", show(&got), show(&m.messages));
        let got = s.read_latest_snapshot(&key).await.map_err(|x| err("read_latest_snapshot", x))?.map(plain);
        ensure!(got == m.snapshots.last().cloned(), "at the end the snapshot of {key:?} is {:?}, expected {:?}", got.map(|g| g.0), m.snapshots.last().map(|g| g.0));
    }
    let used = model.values().filter(|m| m.last > 0).count();
    Ok(CaseOut::new(reads >= 3 && used >= 2)
        .label(deleted, "partial delete removed messages")
        .label(case.ops.iter().any(|o| matches!(o, Op::DeleteAll(_))), "delete all")
        .label(case.ops.iter().any(|o| matches!(o, Op::Together(_))), "concurrent writes")
        .label(case.ops.iter().any(|o| matches!(o, Op::Jump(..))), "large sequences"))
}

fn body() -> impl Strategy<Value = Body> {
    (0u8..4, prop::collection::vec(any::<u8>(), 0..12), prop_oneof![4 => Just(0u8), 1 => 1u8..5], prop_oneof![12 => Just(1u16), 1 => 1u16..3000])
        .prop_map(|(kind, bytes, gap, times)| Body { kind, bytes, gap, times })
}
pub fn ops(max: usize, allow_empty_batch: bool, reconnect: bool) -> BoxedStrategy<Vec<Op>> {
    let key = || prop_oneof![5 => Just(0u8), 2 => 1u8..3, 1 => 3u8..8];
    let lo = if allow_empty_batch { 0 } else { 1 };
    let op = prop_oneof![
        2 => (key(), body()).prop_map(|(k, b)| Op::Snapshot(k, b)),
        6 => (key(), body()).prop_map(|(k, b)| Op::Message(k, b)),
        3 => (key(), prop::collection::vec(body(), lo..6)).prop_map(|(k, b)| Op::Batch(k, b)),
        1 => prop::collection::vec((key(), prop::collection::vec(body(), 1..4)), 2..5).prop_map(Op::Together),
        2 => key().prop_map(Op::LatestSnapshot),
        3 => (key(), any::<u8>()).prop_map(|(k, a)| Op::Latest(k, a)),
        2 => (key(), any::<u8>()).prop_map(|(k, a)| Op::One(k, a)),
        4 => (key(), any::<u8>(), any::<u8>()).prop_map(|(k, a, b)| Op::Range(k, a, b)),
        2 => (key(), any::<u8>()).prop_map(|(k, a)| Op::DeleteTo(k, a)),
        1 => key().prop_map(Op::DeleteAll),
        1 => (key(), any::<u32>()).prop_map(|(k, n)| Op::Jump(k, n)),
        (if reconnect {1} else {0}) => Just(Op::Reconnect),
    ];
    prop::collection::vec(op, 1..max).boxed()
}
