id="c04-early-notice"; property="C04"
needs="an actor that ends while one of its own children takes a while to stop"
what="the parent is told that a child has ended before the grandchildren have stopped"
edits=[("coerce/src/actor/context.rs","""            tokio::spawn(async move {
                supervised.stop_all().await;

                on_context_dropped(&boxed_ref, &parent_ref, &status, &system);
            });""","""            on_context_dropped(&boxed_ref, &parent_ref, &status, &system);

            tokio::spawn(async move {
                supervised.stop_all().await;
            });""")]
main='''
use async_trait::async_trait;
use coerce::actor::{context::ActorContext, message::{Handler, Message}, system::ActorSystem, Actor, ActorId, IntoActor, IntoActorId, CoreActorRef};
use std::sync::{Arc, Mutex};
use std::time::Duration;
type Log = Arc<Mutex<Vec<&'static str>>>;
struct Leaf(Log); struct Mid(Log); struct Top(Log);
#[async_trait] impl Actor for Leaf { async fn stopped(&mut self, _: &mut ActorContext) { tokio::time::sleep(Duration::from_millis(200)).await; self.0.lock().unwrap().push("leaf stopped"); } }
#[async_trait] impl Actor for Mid { async fn started(&mut self, ctx: &mut ActorContext) { ctx.spawn("leaf".into_actor_id(), Leaf(self.0.clone())).await.unwrap(); } }
#[async_trait] impl Actor for Top {
    async fn started(&mut self, ctx: &mut ActorContext) { ctx.spawn("mid".into_actor_id(), Mid(self.0.clone())).await.unwrap(); }
    async fn on_child_stopped(&mut self, _: &ActorId, _: &mut ActorContext) { self.0.lock().unwrap().push("mid reported"); }
}
struct StopMid; impl Message for StopMid { type Result = (); }
#[async_trait] impl Handler<StopMid> for Top { async fn handle(&mut self, _: StopMid, ctx: &mut ActorContext) { let m = ctx.child_ref::<Mid>(&"mid".into_actor_id()).unwrap(); m.stop().await.unwrap(); } }
#[tokio::main]
async fn main() {
    let sys = ActorSystem::new();
    let log: Log = Default::default();
    let top = Top(log.clone()).into_actor(Some("top"), &sys).await.unwrap();
    top.send(StopMid).await.unwrap();
    tokio::time::sleep(Duration::from_millis(800)).await;
    assert_eq!(*log.lock().unwrap(), vec!["leaf stopped", "mid reported"]);
}
'''
