id="c02-drain"; property="C02"
needs="further messages queued behind a stop request at the moment the actor handles it"
what="messages accepted after a stop request are still handled before the actor stops"
edits=[("coerce/src/actor/lifecycle.rs","""            if ctx.get_status() == &Stopping {
                break;
            }
        }
""","""            if ctx.get_status() == &Stopping {
                // handle what has already been delivered
                match receiver.try_recv() {
                    Ok(mut msg) => msg.handle(&mut actor, &mut ctx).await,
                    Err(_) => {}
                }
                break;
            }
        }
""")]
main='''
use async_trait::async_trait;
use coerce::actor::{context::ActorContext, message::{Handler, Message}, system::ActorSystem, Actor, IntoActor, CoreActorRef};
use std::sync::{Arc, atomic::{AtomicU64, Ordering}};
use std::time::Duration;
struct A(Arc<AtomicU64>);
impl Actor for A {}
struct Busy; struct Add;
impl Message for Busy { type Result = (); }
impl Message for Add { type Result = (); }
#[async_trait] impl Handler<Busy> for A { async fn handle(&mut self, _: Busy, _: &mut ActorContext) { tokio::time::sleep(Duration::from_millis(200)).await } }
#[async_trait] impl Handler<Add> for A { async fn handle(&mut self, _: Add, _: &mut ActorContext) { self.0.fetch_add(1, Ordering::SeqCst); } }
#[tokio::main]
async fn main() {
    let sys = ActorSystem::new();
    let n = Arc::new(AtomicU64::new(0));
    let a = A(n.clone()).into_actor(Some("a"), &sys).await.unwrap();
    a.notify(Busy).unwrap();
    a.notify(Add).unwrap();
    a.notify_stop().unwrap();
    a.notify(Add).unwrap();
    let _ = a.stop().await;
    assert_eq!(n.load(Ordering::SeqCst), 1, "a message behind the stop request was handled");
}
'''
