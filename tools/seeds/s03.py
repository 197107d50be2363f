id="c03-keep-first"; property="C03"
needs="two tracked actors spawned under one id while the first is still alive"
what="the id keeps denoting the older actor instead of the most recently spawned one"
edits=[("coerce/src/actor/scheduler/mod.rs","""        let previous_actor = self
            .actors
            .insert(actor_id.clone(), BoxedActorRef::from(message.actor_ref));
""","""        let previous_actor = self.actors.get(&actor_id).filter(|a| a.is_valid()).cloned();
        if previous_actor.is_none() {
            self.actors
                .insert(actor_id.clone(), BoxedActorRef::from(message.actor_ref));
        }
"""),("coerce/src/actor/refs/mod.rs","""    pub fn as_actor<A: Actor>(&self) -> Option<LocalActorRef<A>> {""","""    pub fn is_valid(&self) -> bool {
        self.0.is_valid()
    }

    pub fn as_actor<A: Actor>(&self) -> Option<LocalActorRef<A>> {""")]
main='''
use async_trait::async_trait;
use coerce::actor::{context::ActorContext, message::{Handler, Message}, system::ActorSystem, Actor, IntoActor, IntoActorId, CoreActorRef};
struct A(u64);
impl Actor for A {}
struct Get;
impl Message for Get { type Result = u64; }
#[async_trait] impl Handler<Get> for A { async fn handle(&mut self, _: Get, _: &mut ActorContext) -> u64 { self.0 } }
#[tokio::main]
async fn main() {
    let sys = ActorSystem::new();
    let first = A(1).into_actor(Some("a"), &sys).await.unwrap();
    let _second = A(2).into_actor(Some("a"), &sys).await.unwrap();
    let r = sys.get_tracked_actor::<A>("a".into_actor_id()).await.expect("found");
    assert_eq!(r.send(Get).await.unwrap(), 2, "the id does not denote the newest actor");
    let _ = first.stop().await;
    let r = sys.get_tracked_actor::<A>("a".into_actor_id()).await.expect("found after the first stopped");
    assert_eq!(r.send(Get).await.unwrap(), 2);
}
'''
