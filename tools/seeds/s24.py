id="c24-id-known"; property="C24"
needs="two probed actors of different parents that share an id, or an actor registered for probing under the id of one that ended"
what="the second actor registered under an id is not probed, so the report does not name it"
edits=[("coerce/src/remote/heartbeat/health.rs","""        self.health_check_actors.push(actor);
""","""        let known = self.health_check_actors.iter().any(|a| a.actor_id() == actor.actor_id());
        if !known {
            self.health_check_actors.push(actor);
        }
""")]
main='''
use async_trait::async_trait;
use coerce::actor::{context::ActorContext, message::{Handler, Message}, system::ActorSystem, Actor, BoxedActorRef, IntoActor, IntoActorId};
use coerce::remote::{heartbeat::Heartbeat, system::RemoteActorSystem};
use std::time::Duration;
struct P;
impl Actor for P {}
struct C;
impl Actor for C {}
struct Child;
impl Message for Child { type Result = BoxedActorRef; }
#[async_trait] impl Handler<Child> for P { async fn handle(&mut self, _: Child, ctx: &mut ActorContext) -> BoxedActorRef { ctx.spawn("child".into_actor_id(), C).await.unwrap().into() } }
#[tokio::main]
async fn main() {
    let sys = ActorSystem::new();
    let remote = RemoteActorSystem::builder().with_id(1).with_tag("one").with_actor_system(sys).build().await;
    let sys = remote.actor_system().clone();
    for p in ["p1", "p2"] {
        let p = P.into_actor(Some(p), &sys).await.unwrap();
        let c = p.send(Child).await.unwrap();
        Heartbeat::register(c, &remote);
    }
    tokio::time::sleep(Duration::from_millis(300)).await;
    let h = Heartbeat::get_system_health(&remote).await;
    let named: Vec<String> = h.actor_response_times.keys().map(|k| k.to_string()).filter(|k| k.ends_with("/child")).collect();
    assert_eq!(named.len(), 2, "probed children named in the report: {named:?}");
}
'''
