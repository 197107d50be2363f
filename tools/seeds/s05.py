id="c05-quiet-shutdown"; property="C05"
needs="the watched actor ends because its system is shut down while its watcher, an actor of another system in the process, goes on"
what="actors that end with the shutdown of their system do not notify their watchers"
edits=[("coerce/src/actor/lifecycle.rs","""    if let Some(watchers) = ctx.take_watchers() {
        let actor_terminated""","""    let watchers = ctx.take_watchers();
    if let Some(watchers) = watchers.filter(|_| !ctx.system().is_terminated()) {
        let actor_terminated""")]
main='''
use async_trait::async_trait;
use coerce::actor::{context::ActorContext, message::{Handler, Message}, system::ActorSystem, watch::{ActorTerminated, ActorWatch}, Actor, IntoActor, LocalActorRef};
use std::sync::{Arc, atomic::{AtomicUsize, Ordering}};
use std::time::Duration;
struct W(Arc<AtomicUsize>);
impl Actor for W {}
struct S;
impl Actor for S {}
struct Look(LocalActorRef<S>);
impl Message for Look { type Result = (); }
#[async_trait] impl Handler<Look> for W { async fn handle(&mut self, m: Look, ctx: &mut ActorContext) { self.watch(&m.0, ctx); } }
#[async_trait] impl Handler<ActorTerminated> for W { async fn handle(&mut self, _: ActorTerminated, _: &mut ActorContext) { self.0.fetch_add(1, Ordering::SeqCst); } }
#[tokio::main]
async fn main() {
    let (one, two) = (ActorSystem::new(), ActorSystem::new());
    let n = Arc::new(AtomicUsize::new(0));
    let w = W(n.clone()).into_actor(Some("w"), &one).await.unwrap();
    let s = S.into_actor(Some("s"), &two).await.unwrap();
    w.send(Look(s.clone())).await.unwrap();
    two.shutdown().await;
    tokio::time::sleep(Duration::from_millis(500)).await;
    assert_eq!(n.load(Ordering::SeqCst), 1, "notices");
}
'''
