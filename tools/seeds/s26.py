id="c26-stop-at-skipped"; property="C26"
needs="a converter that drops an item that is not the last one of the stream"
what="the attachment ends at the first item the converter does not keep; later items are lost"
edits=[("coerce/src/actor/context.rs","""            if let Some(message) = message_converter(msg) {
                let _ = actor_ref.notify(message);
            }
""","""            match message_converter(msg).map(|message| actor_ref.notify(message)) {
                Some(Ok(_)) => {}
                // no-one left to deliver to
                _ => break,
            }
""")]
main='''
use async_trait::async_trait;
use coerce::actor::{context::{attach_stream, ActorContext, StreamAttachmentOptions}, message::{Handler, Message}, system::ActorSystem, Actor, IntoActor};
use std::time::Duration;
struct A(std::sync::Arc<std::sync::Mutex<Vec<u32>>>);
impl Actor for A {}
struct Item(u32);
impl Message for Item { type Result = (); }
#[async_trait] impl Handler<Item> for A { async fn handle(&mut self, m: Item, _: &mut ActorContext) { self.0.lock().unwrap().push(m.0) } }
#[tokio::main]
async fn main() {
    let log = std::sync::Arc::new(std::sync::Mutex::new(vec![]));
    let sys = ActorSystem::new();
    let a = A(log.clone()).into_actor(Some("a"), &sys).await.unwrap();
    let s = futures::stream::iter((0..6u32).map(Ok::<u32, ()>));
    attach_stream(a.clone(), s, StreamAttachmentOptions::default(), |i: u32| if i % 2 == 0 { Some(Item(i)) } else { None });
    tokio::time::sleep(Duration::from_millis(300)).await;
    assert_eq!(*log.lock().unwrap(), vec![0, 2, 4]);
}
'''
