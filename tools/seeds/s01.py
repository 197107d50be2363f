id="c01-abandoned"; property="C01"
needs="a request whose caller stops waiting (dropped future, timeout) while the actor is still busy with an earlier message"
what="a message whose caller gave up is silently skipped instead of being handled exactly once"
edits=[("coerce/src/actor/message/mod.rs","""        let msg = self.msg.take();
        let result = actor""","""        if self.sender.as_ref().map_or(false, |s| s.is_closed()) {
            trace!("result consumer is gone, nothing to do");
            return;
        }

        let msg = self.msg.take();
        let result = actor""")]
main='''
use async_trait::async_trait;
use coerce::actor::{context::ActorContext, message::{Handler, Message}, system::ActorSystem, Actor, IntoActor};
use std::time::Duration;
struct Counter(u64);
impl Actor for Counter {}
struct Busy; struct Add(u64); struct Get;
impl Message for Busy { type Result = (); }
impl Message for Add { type Result = u64; }
impl Message for Get { type Result = u64; }
#[async_trait] impl Handler<Busy> for Counter { async fn handle(&mut self, _: Busy, _: &mut ActorContext) { tokio::time::sleep(Duration::from_millis(300)).await } }
#[async_trait] impl Handler<Add> for Counter { async fn handle(&mut self, m: Add, _: &mut ActorContext) -> u64 { self.0 += m.0; self.0 } }
#[async_trait] impl Handler<Get> for Counter { async fn handle(&mut self, _: Get, _: &mut ActorContext) -> u64 { self.0 } }
#[tokio::main]
async fn main() {
    let sys = ActorSystem::new();
    let a = Counter(0).into_actor(Some("c"), &sys).await.unwrap();
    a.notify(Busy).unwrap();
    assert!(tokio::time::timeout(Duration::from_millis(50), a.send(Add(5))).await.is_err());
    assert_eq!(a.send(Get).await.unwrap(), 5, "the accepted message was not handled");
}
'''
