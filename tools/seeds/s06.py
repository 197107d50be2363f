id="c06-no-reset"; property="C06"
needs="a timer whose tick takes longer to handle than the period"
what="after a slow tick the timer fires again at once instead of one period after the tick was handled"
edits=[("coerce/src/actor/scheduler/timer.rs","""                interval.reset();
            }""","""                if now.elapsed() < tick {
                    interval.reset();
                }
            }""")]
main='''
use async_trait::async_trait;
use coerce::actor::{context::ActorContext, message::{Handler, Message}, system::ActorSystem, Actor, IntoActor, scheduler::timer::{Timer, TimerTick}};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};
struct A(Arc<Mutex<Vec<(Instant, Instant)>>>);
impl Actor for A {}
#[derive(Clone)] struct Tick;
impl Message for Tick { type Result = (); }
impl TimerTick for Tick {}
#[async_trait] impl Handler<Tick> for A { async fn handle(&mut self, _: Tick, _: &mut ActorContext) {
    let s = Instant::now(); tokio::time::sleep(Duration::from_millis(350)).await; self.0.lock().unwrap().push((s, Instant::now())); } }
#[tokio::main]
async fn main() {
    let sys = ActorSystem::new();
    let log = Arc::new(Mutex::new(vec![]));
    let a = A(log.clone()).into_actor(Some("a"), &sys).await.unwrap();
    let _t = Timer::start(a, Duration::from_millis(200), Tick);
    tokio::time::sleep(Duration::from_millis(1800)).await;
    let l = log.lock().unwrap();
    assert!(l.len() >= 2);
    for w in l.windows(2) { assert!(w[1].0 - w[0].1 >= Duration::from_millis(150), "ticked {:?} after the previous tick was handled", w[1].0 - w[0].1); }
}
'''
