id="c11-partial-recovery"; property="C11"
needs="the storage failing to read the messages, but not the snapshot, while an actor that has a snapshot recovers"
what="a failed read of the messages is ignored when there is a snapshot: the actor comes up with partial state"
edits=[("coerce/src/persistent/recovery.rs","""    let messages = journal
        .recover_messages()
        .await
        .map_err(RecoveryErr::Messages)?;
""","""    let messages = match journal.recover_messages().await {
        Ok(messages) => messages,
        // the snapshot is all there is to recover from
        Err(e) if snapshot.is_some() => {
            debug!("no messages after the snapshot, {}", e);
            None
        }
        Err(e) => return Err(RecoveryErr::Messages(e)),
    };
""")]
import runpy,os
PM=runpy.run_path('/verif/tools/seeds/s10.py')['PM']
main=PM+'''
use coerce::persistent::journal::provider::{StorageProvider};
use coerce::persistent::journal::storage::{JournalEntry, JournalStorage, JournalStorageRef};
use std::sync::{Arc, atomic::{AtomicBool, Ordering}};
struct Flaky { inner: JournalStorageRef, fail: Arc<AtomicBool> }
#[async_trait] impl JournalStorage for Flaky {
    async fn write_snapshot(&self, p: &str, e: JournalEntry) -> anyhow::Result<()> { self.inner.write_snapshot(p, e).await }
    async fn write_message(&self, p: &str, e: JournalEntry) -> anyhow::Result<()> { self.inner.write_message(p, e).await }
    async fn write_message_batch(&self, p: &str, e: Vec<JournalEntry>) -> anyhow::Result<()> { self.inner.write_message_batch(p, e).await }
    async fn read_latest_snapshot(&self, p: &str) -> anyhow::Result<Option<JournalEntry>> { self.inner.read_latest_snapshot(p).await }
    async fn read_latest_messages(&self, p: &str, f: i64) -> anyhow::Result<Option<Vec<JournalEntry>>> { if self.fail.swap(false, Ordering::SeqCst) { anyhow::bail!("read failed") } self.inner.read_latest_messages(p, f).await }
    async fn read_message(&self, p: &str, s: i64) -> anyhow::Result<Option<JournalEntry>> { self.inner.read_message(p, s).await }
    async fn read_messages(&self, p: &str, a: i64, b: i64) -> anyhow::Result<Option<Vec<JournalEntry>>> { self.inner.read_messages(p, a, b).await }
    async fn delete_messages_to(&self, p: &str, s: i64) -> anyhow::Result<()> { self.inner.delete_messages_to(p, s).await }
    async fn delete_all(&self, p: &str) -> anyhow::Result<()> { self.inner.delete_all(p).await }
}
struct Prov(JournalStorageRef);
impl StorageProvider for Prov { fn journal_storage(&self) -> Option<JournalStorageRef> { Some(self.0.clone()) } }
#[tokio::main]
async fn main() {
    let fail = Arc::new(AtomicBool::new(false));
    let inner = InMemoryStorageProvider::new().journal_storage().unwrap();
    let sys = ActorSystem::new().to_persistent(Persistence::from(Prov(Arc::new(Flaky { inner, fail: fail.clone() }))));
    let a = Acc(vec![]).into_actor(Some("a"), &sys).await.unwrap();
    a.send(Add(1)).await.unwrap();
    a.send(Snap).await.unwrap();
    a.send(Add(2)).await.unwrap();
    a.stop().await.unwrap();
    fail.store(true, Ordering::SeqCst);
    let a = Acc(vec![]).into_actor(Some("a"), &sys).await.unwrap();
    assert_eq!(a.send(Get).await.unwrap(), vec![1, 2], "the actor came up with partial state");
    let _ = Clear;
}
'''
