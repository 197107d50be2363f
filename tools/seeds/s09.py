id="c09-depth"; property="C09"
needs="a description with a maximum depth of a tree deeper than it"
what="the depth limit cuts the description one level too early for actors below the top"
edits=[("coerce/src/actor/describe/mod.rs","if max_depth < next_depth {","if max_depth <= next_depth && message.current_depth > 1 {")]
main='''
use async_trait::async_trait;
use coerce::actor::{context::ActorContext, describe::{DescribeAll, DescribeOptions, DescribeResult}, system::ActorSystem, Actor, IntoActor, IntoActorId};
use std::sync::Arc;
struct T(u32);
#[async_trait] impl Actor for T { async fn started(&mut self, ctx: &mut ActorContext) { if self.0 > 0 { ctx.spawn(format!("c{}", self.0).into_actor_id(), T(self.0 - 1)).await.unwrap(); } } }
fn depth(r: &DescribeResult) -> usize { match r { DescribeResult::Ok(d) => 1 + d.supervised.as_ref().map_or(0, |s| s.actors.iter().map(depth).max().unwrap_or(0)), _ => panic!("no description") } }
#[tokio::main]
async fn main() {
    let sys = ActorSystem::new();
    let _a = T(5).into_actor(Some("root"), &sys).await.unwrap();
    for max in 1..5usize {
        let (tx, rx) = tokio::sync::oneshot::channel();
        sys.scheduler().notify(DescribeAll { options: Arc::new(DescribeOptions { max_depth: Some(max), max_children: None, child_describe_timeout: None, child_describe_attached: false }), sender: tx }).unwrap();
        let all = rx.await.unwrap();
        let d = all.iter().map(depth).max().unwrap();
        assert_eq!(d, max, "depth of the description with max_depth={max}");
    }
}
'''
