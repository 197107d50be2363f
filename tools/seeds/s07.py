id="c07-dead-first"; property="C07"
needs="a worker of the pool ends (panics or stops) and tasks are dispatched afterwards"
what="a worker that ended stays first in line, so every later task is dealt to it and fails although the other workers are idle"
edits=[("coerce/src/actor/worker.rs","""            self.workers.push_back(worker);
""","""            if worker.is_valid() {
                self.workers.push_back(worker);
            } else {
                self.workers.push_front(worker);
            }
""")]
main='''
use async_trait::async_trait;
use coerce::actor::{context::ActorContext, message::{Handler, Message}, system::ActorSystem, worker::{IntoWorker, WorkerRefExt}, Actor};
use std::time::Duration;
#[derive(Clone)] struct W;
impl Actor for W {}
struct Task(bool);
impl Message for Task { type Result = u32; }
#[async_trait] impl Handler<Task> for W { async fn handle(&mut self, m: Task, _: &mut ActorContext) -> u32 { if m.0 { panic!("generated") } 7 } }
#[tokio::main]
async fn main() {
    let mut sys = ActorSystem::new();
    let mut pool = W.into_worker(3, "w", &mut sys).await.unwrap();
    assert!(pool.dispatch(Task(true)).await.is_err());
    tokio::time::sleep(Duration::from_millis(300)).await;
    let mut ok = 0;
    for _ in 0..9 { if pool.dispatch(Task(false)).await == Ok(7) { ok += 1; } }
    assert!(ok >= 6, "only {ok} of 9 tasks were handled, 2 of 3 workers are idle");
}
'''
