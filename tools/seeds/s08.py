id="c08-second-returns"; property="C08"
needs="a second shutdown is requested while the first one waits for a busy actor"
what="the second shutdown completes at once, while tracked actors are still running and have not run their stopped hooks"
edits=[("coerce/src/actor/system/mod.rs","""        self.core.is_terminated.store(true, Relaxed);
""","""        if self.core.is_terminated.swap(true, Relaxed) {
            return;
        }
""")]
main='''
use async_trait::async_trait;
use coerce::actor::{context::ActorContext, message::{Handler, Message}, system::ActorSystem, Actor, IntoActor};
use std::sync::{Arc, atomic::{AtomicUsize, Ordering}};
use std::time::Duration;
struct A(Arc<AtomicUsize>);
#[async_trait] impl Actor for A { async fn stopped(&mut self, _: &mut ActorContext) { self.0.fetch_add(1, Ordering::SeqCst); } }
struct Busy;
impl Message for Busy { type Result = (); }
#[async_trait] impl Handler<Busy> for A { async fn handle(&mut self, _: Busy, _: &mut ActorContext) { tokio::time::sleep(Duration::from_millis(1500)).await; } }
#[tokio::main]
async fn main() {
    let sys = ActorSystem::new();
    let n = Arc::new(AtomicUsize::new(0));
    let a = A(n.clone()).into_actor(Some("a"), &sys).await.unwrap();
    a.notify(Busy).unwrap();
    let s = sys.clone();
    let first = tokio::spawn(async move { s.shutdown().await });
    tokio::time::sleep(Duration::from_millis(300)).await;
    sys.shutdown().await;
    assert_eq!(n.load(Ordering::SeqCst), 1, "shutdown completed, stopped hooks run");
    first.await.unwrap();
    assert_eq!(n.load(Ordering::SeqCst), 1);
}
'''
