id="c10-clear-too-much"; property="C10"
needs="a snapshot, at least two messages after it, then clearing old messages, then a restart"
what="clearing old messages also deletes messages persisted after the last snapshot, so recovery loses them"
edits=[("coerce/src/persistent/journal/mod.rs","""        if let Some(snapshot_sequence_id) = self.last_snapshot_sequence_id {
            self.storage
                .delete_messages_to(&self.persistence_id, snapshot_sequence_id)""","""        if self.last_snapshot_sequence_id.is_some() {
            self.storage
                .delete_messages_to(&self.persistence_id, self.last_sequence_id)""")]
PM='''
use async_trait::async_trait;
use coerce::actor::{context::ActorContext, message::{Handler, Message, MessageUnwrapErr, MessageWrapErr, Envelope}, system::ActorSystem, IntoActor, CoreActorRef};
use coerce::persistent::{journal::{snapshot::Snapshot, types::JournalTypes, provider::inmemory::InMemoryStorageProvider}, Persistence, PersistentActor, Recover, RecoverSnapshot};
struct Acc(Vec<u8>);
struct Add(u8); struct Get; struct Snap; struct Clear;
struct State(Vec<u8>);
impl Message for Add { type Result = (); fn as_bytes(&self) -> Result<Vec<u8>, MessageWrapErr> { Ok(vec![self.0]) } fn from_bytes(b: Vec<u8>) -> Result<Self, MessageUnwrapErr> { Ok(Add(b[0])) } }
impl Message for Get { type Result = Vec<u8>; }
impl Message for Snap { type Result = (); }
impl Message for Clear { type Result = (); }
impl Snapshot for State { fn into_remote_envelope(self) -> Result<Envelope<Self>, MessageWrapErr> { Ok(Envelope::Remote(self.0)) } fn from_remote_envelope(b: Vec<u8>) -> Result<Self, MessageUnwrapErr> { Ok(State(b)) } }
#[async_trait] impl PersistentActor for Acc {
    fn persistence_key(&self, _: &ActorContext) -> String { "acc".into() }
    fn configure(t: &mut JournalTypes<Self>) { t.message::<Add>("add").snapshot::<State>("state"); }
}
#[async_trait] impl Handler<Add> for Acc { async fn handle(&mut self, m: Add, ctx: &mut ActorContext) { self.persist(&m, ctx).await.unwrap(); self.0.push(m.0); } }
#[async_trait] impl Handler<Get> for Acc { async fn handle(&mut self, _: Get, _: &mut ActorContext) -> Vec<u8> { self.0.clone() } }
#[async_trait] impl Handler<Snap> for Acc { async fn handle(&mut self, _: Snap, ctx: &mut ActorContext) { self.snapshot(State(self.0.clone()), ctx).await.unwrap(); } }
#[async_trait] impl Handler<Clear> for Acc { async fn handle(&mut self, _: Clear, ctx: &mut ActorContext) { self.clear_old_messages(ctx).await; } }
#[async_trait] impl Recover<Add> for Acc { async fn recover(&mut self, m: Add, _: &mut ActorContext) { self.0.push(m.0); } }
#[async_trait] impl RecoverSnapshot<State> for Acc { async fn recover(&mut self, s: State, _: &mut ActorContext) { self.0 = s.0; } }
'''
main=PM+'''
#[tokio::main]
async fn main() {
    let sys = ActorSystem::new().to_persistent(Persistence::from(InMemoryStorageProvider::new()));
    let a = Acc(vec![]).into_actor(Some("a"), &sys).await.unwrap();
    for i in 1..4 { a.send(Add(i)).await.unwrap(); }
    a.send(Snap).await.unwrap();
    for i in 4..7 { a.send(Add(i)).await.unwrap(); }
    a.send(Clear).await.unwrap();
    a.stop().await.unwrap();
    let a = Acc(vec![]).into_actor(Some("a"), &sys).await.unwrap();
    assert_eq!(a.send(Get).await.unwrap(), vec![1, 2, 3, 4, 5, 6], "recovered state differs");
}
'''
