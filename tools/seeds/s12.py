id="c12-compaction"; property="C12"
needs="a snapshot written after messages, and reading those messages back"
what="writing a snapshot to the in-memory storage silently deletes the older messages of that key"
edits=[("coerce/src/persistent/journal/provider.rs","""                journal.snapshots.push(entry);""","""                journal.messages.retain(|m| m.sequence > entry.sequence);
                journal.snapshots.push(entry);""")]
main='''
use coerce::persistent::journal::provider::{inmemory::InMemoryStorageProvider, StorageProvider};
use coerce::persistent::journal::storage::JournalEntry;
use std::sync::Arc;
#[tokio::main]
async fn main() {
    let s = InMemoryStorageProvider::new().journal_storage().unwrap();
    for i in 1..=3 { s.write_message("k", JournalEntry { sequence: i, payload_type: "t".into(), bytes: Arc::new(vec![i as u8]) }).await.unwrap(); }
    s.write_snapshot("k", JournalEntry { sequence: 4, payload_type: "s".into(), bytes: Arc::new(vec![]) }).await.unwrap();
    let left: Vec<i64> = s.read_latest_messages("k", 0).await.unwrap().unwrap_or_default().into_iter().map(|e| e.sequence).collect();
    assert_eq!(left, vec![1, 2, 3]);
}
'''
