//! Journal storage with generated faults around either the repository's in-memory storage or a
//! store with the semantics of a sorted set (as the Redis journal has them).
use coerce::persistent::journal::provider::inmemory::InMemoryStorageProvider;
use coerce::persistent::journal::provider::StorageProvider;
use coerce::persistent::journal::storage::{JournalEntry, JournalStorage, JournalStorageRef};
use parking_lot::Mutex;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet, VecDeque};
use std::sync::Arc;
use std::time::Duration;
use vf::async_trait;

#[derive(Debug, Clone, Copy, Serialize, Deserialize, PartialEq)]
pub enum Fault {
    None,
    Err,
    ErrAfter,
    Delay(u8),
    HangBefore,
    HangAfter,
}

#[derive(Default)]
struct Set {
    // (sequence, type, bytes): equal entries collapse, order is by sequence
    journal: BTreeMap<String, BTreeSet<(i64, String, Vec<u8>)>>,
    snapshots: BTreeMap<String, BTreeSet<(i64, String, Vec<u8>)>>,
}
fn key(e: &JournalEntry) -> (i64, String, Vec<u8>) {
    (e.sequence, e.payload_type.to_string(), e.bytes.as_ref().clone())
}
fn entry(e: &(i64, String, Vec<u8>)) -> JournalEntry {
    JournalEntry { sequence: e.0, payload_type: e.1.as_str().into(), bytes: Arc::new(e.2.clone()) }
}

#[derive(Default)]
pub struct SetStore(Mutex<Set>);
#[async_trait]
impl JournalStorage for SetStore {
    async fn write_snapshot(&self, p: &str, e: JournalEntry) -> anyhow::Result<()> {
        self.0.lock().snapshots.entry(p.into()).or_default().insert(key(&e));
        Ok(())
    }
    async fn write_message(&self, p: &str, e: JournalEntry) -> anyhow::Result<()> {
        self.0.lock().journal.entry(p.into()).or_default().insert(key(&e));
        Ok(())
    }
    async fn write_message_batch(&self, p: &str, es: Vec<JournalEntry>) -> anyhow::Result<()> {
        let mut s = self.0.lock();
        let j = s.journal.entry(p.into()).or_default();
        for e in es {
            j.insert(key(&e));
        }
        Ok(())
    }
    async fn read_latest_snapshot(&self, p: &str) -> anyhow::Result<Option<JournalEntry>> {
        Ok(self.0.lock().snapshots.get(p).and_then(|s| s.iter().next_back().map(entry)))
    }
    async fn read_latest_messages(&self, p: &str, from: i64) -> anyhow::Result<Option<Vec<JournalEntry>>> {
        Ok(self.0.lock().journal.get(p).map(|s| s.iter().filter(|e| e.0 >= from).map(entry).collect()))
    }
    async fn read_message(&self, p: &str, q: i64) -> anyhow::Result<Option<JournalEntry>> {
        Ok(self.0.lock().journal.get(p).and_then(|s| s.iter().find(|e| e.0 == q).map(entry)))
    }
    async fn read_messages(&self, p: &str, from: i64, to: i64) -> anyhow::Result<Option<Vec<JournalEntry>>> {
        Ok(self.0.lock().journal.get(p).map(|s| s.iter().filter(|e| e.0 >= from && e.0 <= to).map(entry).collect()))
    }
    async fn delete_messages_to(&self, p: &str, to: i64) -> anyhow::Result<()> {
        if let Some(s) = self.0.lock().journal.get_mut(p) {
            s.retain(|e| e.0 > to);
        }
        Ok(())
    }
    async fn delete_all(&self, p: &str) -> anyhow::Result<()> {
        let mut s = self.0.lock();
        s.journal.remove(p);
        s.snapshots.remove(p);
        Ok(())
    }
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Call {
    ReadSnapshot,
    ReadMessages,
    Write,
    WriteBatch,
    WriteSnapshot,
    Delete,
}
impl Call {
    pub fn is_read(self) -> bool {
        matches!(self, Call::ReadSnapshot | Call::ReadMessages)
    }
}

pub struct Store {
    inner: JournalStorageRef,
    /// faults of the next calls, in call order
    pub script: Mutex<VecDeque<Fault>>,
    /// only writes consume the script
    pub writes_only: bool,
    pub calls: Mutex<Vec<(Call, Fault)>>,
    /// the next reads return an entry that cannot be decoded
    pub corrupt: Mutex<bool>,
}
impl Store {
    pub fn new(set_like: bool, writes_only: bool) -> Arc<Store> {
        let inner: JournalStorageRef = if set_like { Arc::new(SetStore::default()) } else { InMemoryStorageProvider::new().journal_storage().unwrap() };
        Arc::new(Store { inner, script: Default::default(), writes_only, calls: Default::default(), corrupt: Mutex::new(false) })
    }
    fn next(&self, c: Call) -> Fault {
        let f = if self.writes_only && c.is_read() { Fault::None } else { self.script.lock().pop_front().unwrap_or(Fault::None) };
        self.calls.lock().push((c, f));
        f
    }
    async fn before(&self, f: Fault) -> anyhow::Result<()> {
        match f {
            Fault::Err => Err(anyhow::anyhow!("injected")),
            Fault::Delay(d) => {
                tokio::time::sleep(Duration::from_millis(d as u64)).await;
                Ok(())
            }
            Fault::HangBefore => std::future::pending().await,
            _ => Ok(()),
        }
    }
    async fn after(&self, f: Fault) -> anyhow::Result<()> {
        match f {
            Fault::ErrAfter => Err(anyhow::anyhow!("injected")),
            Fault::HangAfter => std::future::pending().await,
            _ => Ok(()),
        }
    }
}
macro_rules! call {
    ($s:ident, $c:expr, $e:expr) => {{
        let f = $s.next($c);
        $s.before(f).await?;
        let r = $e.await?;
        $s.after(f).await?;
        Ok(r)
    }};
}
#[async_trait]
impl JournalStorage for Store {
    async fn write_snapshot(&self, p: &str, e: JournalEntry) -> anyhow::Result<()> {
        call!(self, Call::WriteSnapshot, self.inner.write_snapshot(p, e))
    }
    async fn write_message(&self, p: &str, e: JournalEntry) -> anyhow::Result<()> {
        call!(self, Call::Write, self.inner.write_message(p, e))
    }
    async fn write_message_batch(&self, p: &str, es: Vec<JournalEntry>) -> anyhow::Result<()> {
        call!(self, Call::WriteBatch, self.inner.write_message_batch(p, es))
    }
    async fn read_latest_snapshot(&self, p: &str) -> anyhow::Result<Option<JournalEntry>> {
        call!(self, Call::ReadSnapshot, self.inner.read_latest_snapshot(p))
    }
    async fn read_latest_messages(&self, p: &str, from: i64) -> anyhow::Result<Option<Vec<JournalEntry>>> {
        let r: anyhow::Result<Option<Vec<JournalEntry>>> = call!(self, Call::ReadMessages, self.inner.read_latest_messages(p, from));
        let mut r = r?;
        if *self.corrupt.lock() {
            if let Some(l) = r.as_mut().and_then(|v| v.last_mut()) {
                l.bytes = Arc::new(b"\xff{not json".to_vec());
            }
        }
        Ok(r)
    }
    async fn read_message(&self, p: &str, q: i64) -> anyhow::Result<Option<JournalEntry>> {
        self.inner.read_message(p, q).await
    }
    async fn read_messages(&self, p: &str, from: i64, to: i64) -> anyhow::Result<Option<Vec<JournalEntry>>> {
        self.inner.read_messages(p, from, to).await
    }
    async fn delete_messages_to(&self, p: &str, to: i64) -> anyhow::Result<()> {
        call!(self, Call::Delete, self.inner.delete_messages_to(p, to))
    }
    async fn delete_all(&self, p: &str) -> anyhow::Result<()> {
        call!(self, Call::Delete, self.inner.delete_all(p))
    }
}
pub struct Provider(pub Arc<Store>);
impl StorageProvider for Provider {
    fn journal_storage(&self) -> Option<JournalStorageRef> {
        Some(self.0.clone())
    }
}
