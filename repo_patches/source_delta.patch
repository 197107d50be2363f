From 785a3a51c3b1d665192fa8dd999ecd901f7c05a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:23 +0000
Subject: [PATCH 01/57] fix: a stopping actor no longer de-registers a newer
 actor with the same id

---
 coerce/src/actor/lifecycle.rs     |  5 ++++-
 coerce/src/actor/scheduler/mod.rs | 36 +++++++++++++++++++++++++------
 2 files changed, 33 insertions(+), 8 deletions(-)

diff --git a/coerce/src/actor/lifecycle.rs b/coerce/src/actor/lifecycle.rs
index 6c1874c..8afbb4c 100644
--- a/coerce/src/actor/lifecycle.rs
+++ b/coerce/src/actor/lifecycle.rs
@@ -153,7 +153,10 @@ async fn actor_stopped<A: Actor>(
 
                 system
                     .scheduler()
-                    .send(DeregisterActor(actor_id.clone()))
+                    .send(DeregisterActor {
+                        id: actor_id.clone(),
+                        actor_ref: ctx.actor_ref::<A>(),
+                    })
                     .await
                     .expect("de-register actor");
             }
diff --git a/coerce/src/actor/scheduler/mod.rs b/coerce/src/actor/scheduler/mod.rs
index b2a2d0c..92c0971 100644
--- a/coerce/src/actor/scheduler/mod.rs
+++ b/coerce/src/actor/scheduler/mod.rs
@@ -142,9 +142,18 @@ where
     type Result = ();
 }
 
-pub struct DeregisterActor(pub ActorId);
+pub struct DeregisterActor<A: Actor>
+where
+    A: 'static + Sync + Send,
+{
+    pub id: ActorId,
+    pub actor_ref: LocalActorRef<A>,
+}
 
-impl Message for DeregisterActor {
+impl<A: Actor> Message for DeregisterActor<A>
+where
+    A: 'static + Sync + Send,
+{
     type Result = ();
 }
 
@@ -219,12 +228,25 @@ where
 }
 
 #[async_trait]
-impl Handler<DeregisterActor> for ActorScheduler {
-    async fn handle(&mut self, msg: DeregisterActor, _ctx: &mut ActorContext) -> () {
-        if let Some(_a) = self.actors.remove(&msg.0) {
-            debug!("de-registered actor {}", msg.0);
+impl<A: Actor> Handler<DeregisterActor<A>> for ActorScheduler
+where
+    A: 'static + Sync + Send,
+{
+    async fn handle(&mut self, msg: DeregisterActor<A>, _ctx: &mut ActorContext) -> () {
+        // the id may have been taken over by a newer actor, which must stay registered
+        let is_registered = self
+            .actors
+            .get(&msg.id)
+            .and_then(|actor| actor.as_actor::<A>())
+            .map_or(false, |actor| {
+                actor.sender().same_channel(msg.actor_ref.sender())
+            });
+
+        if is_registered {
+            self.actors.remove(&msg.id);
+            debug!("de-registered actor {}", msg.id);
         } else {
-            warn!("actor {} not found to de-register", msg.0);
+            warn!("actor {} not found to de-register", msg.id);
         }
     }
 }
-- 
2.43.0


From b6980c213f2e7e21448bd8993f9e1a9e65bfbbdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:59 +0000
Subject: [PATCH 02/57] fix: an actor that stops while starting is not left
 registered

---
 coerce/src/actor/lifecycle.rs     | 25 +++++++++++++++++++++++--
 coerce/src/actor/scheduler/mod.rs |  5 +++++
 2 files changed, 28 insertions(+), 2 deletions(-)

diff --git a/coerce/src/actor/lifecycle.rs b/coerce/src/actor/lifecycle.rs
index 8afbb4c..a6a98f8 100644
--- a/coerce/src/actor/lifecycle.rs
+++ b/coerce/src/actor/lifecycle.rs
@@ -67,7 +67,15 @@ impl ActorLoop {
         ActorMetrics::incr_actor_created(A::type_name());
 
         if ctx.get_status() == &Stopping {
-            return actor_stopped(&mut actor, actor_type, &mut system, &actor_id, &mut ctx).await;
+            return actor_stopped(
+                &mut actor,
+                actor_type,
+                &mut receiver,
+                &mut system,
+                &actor_id,
+                &mut ctx,
+            )
+            .await;
         }
 
         ctx.set_status(Started);
@@ -131,13 +139,22 @@ impl ActorLoop {
 
         ctx.set_status(Stopping);
 
-        actor_stopped(&mut actor, actor_type, &mut system, &actor_id, &mut ctx).await
+        actor_stopped(
+            &mut actor,
+            actor_type,
+            &mut receiver,
+            &mut system,
+            &actor_id,
+            &mut ctx,
+        )
+        .await
     }
 }
 
 async fn actor_stopped<A: Actor>(
     actor: &mut A,
     actor_type: ActorType,
+    receiver: &mut UnboundedReceiver<MessageHandler<A>>,
     system: &mut Option<ActorSystem>,
     actor_id: &ActorId,
     mut ctx: &mut ActorContext,
@@ -146,6 +163,10 @@ async fn actor_stopped<A: Actor>(
 
     ctx.set_status(Stopped);
 
+    // the registration may still be on its way to the scheduler (if the actor stopped while
+    // starting), which ignores the registration of actors whose mailbox is closed
+    receiver.close();
+
     if actor_type.is_tracked() {
         if let Some(system) = system.take() {
             if !system.is_terminated() {
diff --git a/coerce/src/actor/scheduler/mod.rs b/coerce/src/actor/scheduler/mod.rs
index 92c0971..84baf4a 100644
--- a/coerce/src/actor/scheduler/mod.rs
+++ b/coerce/src/actor/scheduler/mod.rs
@@ -200,6 +200,11 @@ where
 {
     async fn handle(&mut self, message: RegisterActor<A>, _ctx: &mut ActorContext) {
         let actor_id = message.id;
+        if !message.actor_ref.is_valid() {
+            debug!(actor_id = actor_id.as_ref(), "actor ended before registration");
+            return;
+        }
+
         let previous_actor = self
             .actors
             .insert(actor_id.clone(), BoxedActorRef::from(message.actor_ref));
-- 
2.43.0


From 24a638c26ee8927df6cc636e2186161f0a536404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:24 +0000
Subject: [PATCH 03/57] fix: an actor that panics is removed from the tracked
 actors

---
 coerce/src/actor/scheduler/mod.rs | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/coerce/src/actor/scheduler/mod.rs b/coerce/src/actor/scheduler/mod.rs
index 84baf4a..007079f 100644
--- a/coerce/src/actor/scheduler/mod.rs
+++ b/coerce/src/actor/scheduler/mod.rs
@@ -291,6 +291,23 @@ where
     }
 }
 
+/// Actors that panic never reach the end of their `ActorLoop`, where actors are de-registered
+struct DeregisterOnPanic<A: Actor> {
+    system: Option<ActorSystem>,
+    actor_ref: LocalActorRef<A>,
+}
+
+impl<A: Actor> Drop for DeregisterOnPanic<A> {
+    fn drop(&mut self) {
+        if let Some(system) = self.system.as_ref().filter(|_| std::thread::panicking()) {
+            let _ = system.scheduler().notify(DeregisterActor {
+                id: self.actor_ref.actor_id().clone(),
+                actor_ref: self.actor_ref.clone(),
+            });
+        }
+    }
+}
+
 pub fn start_actor<A: Actor>(
     actor: A,
     id: ActorId,
@@ -308,6 +325,11 @@ where
     let cloned_ref = actor_ref.clone();
 
     tokio::spawn(async move {
+        let _deregister_on_panic = DeregisterOnPanic {
+            system: system.clone().filter(|_| actor_type.is_tracked()),
+            actor_ref: cloned_ref.clone(),
+        };
+
         ActorLoop::run(
             actor, actor_type, rx, on_start, cloned_ref, parent_ref, system,
         )
-- 
2.43.0


From f55ffa4d211daec7c813f1633ef75a74632d164f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:09:39 +0000
Subject: [PATCH 04/57] fix: watchers are notified when the watched actor
 panics

---
 coerce/src/actor/context.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/coerce/src/actor/context.rs b/coerce/src/actor/context.rs
index cf2b3f5..c3d0fc6 100644
--- a/coerce/src/actor/context.rs
+++ b/coerce/src/actor/context.rs
@@ -16,6 +16,7 @@ use valuable::{Fields, NamedField, NamedValues, StructDef, Structable, Valuable,
 
 use crate::actor::supervised::{ChildRef, Supervised};
 use crate::actor::watch::watchers::Watchers;
+use crate::actor::watch::ActorTerminated;
 
 #[cfg(feature = "persistence")]
 use crate::persistent::context::ActorPersistence;
@@ -346,6 +347,14 @@ impl LogContext {
 
 impl Drop for ActorContext {
     fn drop(&mut self) {
+        // an actor that panicked has not notified its watchers
+        if let Some(watchers) = self.take_watchers() {
+            let actor_terminated = ActorTerminated::from(self.boxed_actor_ref());
+            for watcher in watchers.iter() {
+                let _ = watcher.notify(actor_terminated.clone());
+            }
+        }
+
         let parent_ref = self.boxed_parent_ref.take();
 
         if let Some(mut supervised) = self.supervised.take() {
-- 
2.43.0


From 7f46281d4614651b9cc63b1ce7ee62cf3ebfd6be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:12:07 +0000
Subject: [PATCH 05/57] fix: watchers that share an actor id under different
 parents are all notified

---
 coerce/src/actor/watch/mod.rs      | 28 ++++++++++++++++++++--------
 coerce/src/actor/watch/watchers.rs | 12 ++++++------
 2 files changed, 26 insertions(+), 14 deletions(-)

diff --git a/coerce/src/actor/watch/mod.rs b/coerce/src/actor/watch/mod.rs
index 6764efd..a9490b1 100644
--- a/coerce/src/actor/watch/mod.rs
+++ b/coerce/src/actor/watch/mod.rs
@@ -4,7 +4,7 @@
 
 use crate::actor::context::ActorContext;
 use crate::actor::message::{Handler, Message};
-use crate::actor::{Actor, ActorId, BoxedActorRef, LocalActorRef, Receiver};
+use crate::actor::{Actor, ActorId, ActorPath, BoxedActorRef, LocalActorRef, Receiver};
 
 pub mod watchers;
 
@@ -21,45 +21,57 @@ where
 {
     fn watch<W: Actor>(&self, actor: &LocalActorRef<W>, ctx: &ActorContext) {
         let terminated_receiver = Receiver::<ActorTerminated>::from(self.actor_ref(ctx));
-        let _ = actor.notify(Watch::from(terminated_receiver));
+        let _ = actor.notify(Watch {
+            receiver: terminated_receiver,
+            watcher_path: ctx.full_path().clone(),
+        });
     }
 
     fn unwatch<W: Actor>(&self, actor: &LocalActorRef<W>, ctx: &ActorContext) {
-        let _ = actor.notify(Unwatch::from(ctx.id().clone()));
+        let _ = actor.notify(Unwatch {
+            watcher_path: ctx.full_path().clone(),
+        });
     }
 }
 
 #[async_trait]
 impl<A: Actor> Handler<Watch> for A {
     async fn handle(&mut self, message: Watch, ctx: &mut ActorContext) {
-        ctx.watchers_mut().add_watcher(message.receiver);
+        ctx.watchers_mut()
+            .add_watcher(message.watcher_path, message.receiver);
     }
 }
 
 #[async_trait]
 impl<A: Actor> Handler<Unwatch> for A {
     async fn handle(&mut self, message: Unwatch, ctx: &mut ActorContext) {
-        ctx.watchers_mut().remove_watcher(message.watcher_id);
+        ctx.watchers_mut().remove_watcher(message.watcher_path);
     }
 }
 
 pub struct Watch {
     receiver: Receiver<ActorTerminated>,
+    watcher_path: ActorPath,
 }
 
 impl From<Receiver<ActorTerminated>> for Watch {
     fn from(value: Receiver<ActorTerminated>) -> Self {
-        Self { receiver: value }
+        Self {
+            watcher_path: value.actor_id().clone(),
+            receiver: value,
+        }
     }
 }
 
 pub struct Unwatch {
-    watcher_id: ActorId,
+    watcher_path: ActorPath,
 }
 
 impl From<ActorId> for Unwatch {
     fn from(value: ActorId) -> Self {
-        Self { watcher_id: value }
+        Self {
+            watcher_path: value,
+        }
     }
 }
 
diff --git a/coerce/src/actor/watch/watchers.rs b/coerce/src/actor/watch/watchers.rs
index d04154c..263032d 100644
--- a/coerce/src/actor/watch/watchers.rs
+++ b/coerce/src/actor/watch/watchers.rs
@@ -1,10 +1,10 @@
 use crate::actor::watch::ActorTerminated;
-use crate::actor::{ActorId, BoxedActorRef, Receiver};
+use crate::actor::{ActorPath, Receiver};
 use std::collections::HashMap;
 
 #[derive(Default)]
 pub struct Watchers {
-    watchers: HashMap<ActorId, Receiver<ActorTerminated>>,
+    watchers: HashMap<ActorPath, Receiver<ActorTerminated>>,
 }
 
 impl Watchers {
@@ -12,11 +12,11 @@ impl Watchers {
         self.watchers.values()
     }
 
-    pub fn add_watcher(&mut self, watcher: Receiver<ActorTerminated>) {
-        self.watchers.insert(watcher.actor_id().to_owned(), watcher);
+    pub fn add_watcher(&mut self, watcher_path: ActorPath, watcher: Receiver<ActorTerminated>) {
+        self.watchers.insert(watcher_path, watcher);
     }
 
-    pub fn remove_watcher(&mut self, actor_id: ActorId) {
-        self.watchers.remove(&actor_id);
+    pub fn remove_watcher(&mut self, watcher_path: ActorPath) {
+        self.watchers.remove(&watcher_path);
     }
 }
-- 
2.43.0


From cd0b7fc520828b5f82975608074ab87f1761f36e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:42 +0000
Subject: [PATCH 06/57] fix: a timer stops when its handle is dropped

---
 coerce/src/actor/scheduler/timer.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/coerce/src/actor/scheduler/timer.rs b/coerce/src/actor/scheduler/timer.rs
index fdeac15..70be77d 100644
--- a/coerce/src/actor/scheduler/timer.rs
+++ b/coerce/src/actor/scheduler/timer.rs
@@ -5,6 +5,7 @@ use tracing::trace;
 
 use std::time::Duration;
 use tokio::sync::oneshot;
+use tokio::sync::oneshot::error::TryRecvError;
 use tokio::time;
 use tokio::time::Instant;
 use uuid::Uuid;
@@ -90,7 +91,8 @@ async fn timer_loop<A: Actor, T: TimerTick>(
     trace!("{} - timer starting", &timer_id);
 
     loop {
-        if stop_rx.try_recv().is_ok() {
+        // the timer ends when it is stopped and when its handle is dropped
+        if !matches!(stop_rx.try_recv(), Err(TryRecvError::Empty)) {
             break;
         }
 
-- 
2.43.0


From f8c946a1d2e22b79cb9d70d48956eb79eaa4390c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:23:58 +0000
Subject: [PATCH 07/57] fix: shutdown completes when actors use the scheduler
 while stopping

---
 coerce/src/actor/lifecycle.rs     |  6 +++---
 coerce/src/actor/scheduler/mod.rs |  8 ++++++++
 coerce/src/actor/system/mod.rs    | 13 ++++++++++++-
 3 files changed, 23 insertions(+), 4 deletions(-)

diff --git a/coerce/src/actor/lifecycle.rs b/coerce/src/actor/lifecycle.rs
index a6a98f8..fb2262a 100644
--- a/coerce/src/actor/lifecycle.rs
+++ b/coerce/src/actor/lifecycle.rs
@@ -172,14 +172,14 @@ async fn actor_stopped<A: Actor>(
             if !system.is_terminated() {
                 trace!(actor_id = actor_id.as_ref(), "de-registering actor");
 
-                system
+                // fails when the system has been shut down in the meantime
+                let _ = system
                     .scheduler()
                     .send(DeregisterActor {
                         id: actor_id.clone(),
                         actor_ref: ctx.actor_ref::<A>(),
                     })
-                    .await
-                    .expect("de-register actor");
+                    .await;
             }
         }
     }
diff --git a/coerce/src/actor/scheduler/mod.rs b/coerce/src/actor/scheduler/mod.rs
index 007079f..c7ba528 100644
--- a/coerce/src/actor/scheduler/mod.rs
+++ b/coerce/src/actor/scheduler/mod.rs
@@ -46,6 +46,14 @@ impl ActorScheduler {
             system_name,
         )
     }
+
+    pub(crate) fn running_actors(&self) -> Vec<BoxedActorRef> {
+        self.actors
+            .values()
+            .filter(|actor| actor.is_valid())
+            .cloned()
+            .collect()
+    }
 }
 
 #[async_trait]
diff --git a/coerce/src/actor/system/mod.rs b/coerce/src/actor/system/mod.rs
index 949fa01..25296b4 100644
--- a/coerce/src/actor/system/mod.rs
+++ b/coerce/src/actor/system/mod.rs
@@ -2,7 +2,7 @@
 //!
 use crate::actor::scheduler::{start_actor, ActorScheduler, ActorType, GetActor, RegisterActor};
 use crate::actor::{
-    new_actor_id, Actor, ActorId, ActorPath, ActorRefErr, BoxedActorRef, IntoActorId,
+    new_actor_id, Actor, ActorId, ActorPath, ActorRefErr, BoxedActorRef, CoreActorRef, IntoActorId,
     LocalActorRef, ToActorId,
 };
 
@@ -217,6 +217,17 @@ impl ActorSystem {
         info!("shutting down");
 
         self.core.is_terminated.store(true, Relaxed);
+
+        // actors may look up, register and de-register actors until they have stopped, so the
+        // scheduler has to remain responsive until every tracked actor has stopped
+        while let Ok(actors) = self.core.scheduler.exec(|s| s.running_actors()).await {
+            if actors.is_empty() {
+                break;
+            }
+
+            futures::future::join_all(actors.iter().map(|actor| actor.stop())).await;
+        }
+
         let _ = self.core.scheduler.stop().await;
 
         #[cfg(feature = "remote")]
-- 
2.43.0


From 794179d88696ab251833e3e51b4bdd3c63764c44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:33:44 +0000
Subject: [PATCH 08/57] fix: a request sent while its actor ends is always
 answered

---
 coerce/src/actor/lifecycle.rs     |  6 +++---
 coerce/src/actor/scheduler/mod.rs | 20 ++++++++++++++++----
 2 files changed, 19 insertions(+), 7 deletions(-)

diff --git a/coerce/src/actor/lifecycle.rs b/coerce/src/actor/lifecycle.rs
index fb2262a..dc1661a 100644
--- a/coerce/src/actor/lifecycle.rs
+++ b/coerce/src/actor/lifecycle.rs
@@ -50,7 +50,7 @@ impl ActorLoop {
     pub async fn run<A: Actor>(
         mut actor: A,
         actor_type: ActorType,
-        mut receiver: UnboundedReceiver<MessageHandler<A>>,
+        receiver: &mut UnboundedReceiver<MessageHandler<A>>,
         mut on_start: Option<Sender<()>>,
         actor_ref: LocalActorRef<A>,
         parent_ref: Option<BoxedActorRef>,
@@ -70,7 +70,7 @@ impl ActorLoop {
             return actor_stopped(
                 &mut actor,
                 actor_type,
-                &mut receiver,
+                receiver,
                 &mut system,
                 &actor_id,
                 &mut ctx,
@@ -142,7 +142,7 @@ impl ActorLoop {
         actor_stopped(
             &mut actor,
             actor_type,
-            &mut receiver,
+            receiver,
             &mut system,
             &actor_id,
             &mut ctx,
diff --git a/coerce/src/actor/scheduler/mod.rs b/coerce/src/actor/scheduler/mod.rs
index c7ba528..7d0cf9c 100644
--- a/coerce/src/actor/scheduler/mod.rs
+++ b/coerce/src/actor/scheduler/mod.rs
@@ -13,8 +13,10 @@ use crate::remote::{actor::message::SetRemote, system::RemoteActorSystem};
 
 use std::collections::HashMap;
 use std::marker::PhantomData;
+use std::panic::{resume_unwind, AssertUnwindSafe};
 use std::sync::Arc;
 use std::time::Instant;
+use futures::FutureExt;
 use tokio::sync::mpsc;
 use uuid::Uuid;
 
@@ -328,7 +330,7 @@ pub fn start_actor<A: Actor>(
 where
     A: 'static + Send + Sync,
 {
-    let (tx, rx) = mpsc::unbounded_channel();
+    let (tx, mut rx) = mpsc::unbounded_channel();
     let actor_ref = LocalActorRef::new(id, tx, path);
     let cloned_ref = actor_ref.clone();
 
@@ -338,10 +340,20 @@ where
             actor_ref: cloned_ref.clone(),
         };
 
-        ActorLoop::run(
-            actor, actor_type, rx, on_start, cloned_ref, parent_ref, system,
-        )
+        let result = AssertUnwindSafe(ActorLoop::run(
+            actor, actor_type, &mut rx, on_start, cloned_ref, parent_ref, system,
+        ))
+        .catch_unwind()
         .await;
+
+        // dropping the receiver misses messages that are being sent at that very moment, whoever
+        // sent them would wait for a result until every reference to the actor is gone
+        rx.close();
+        while rx.recv().await.is_some() {}
+
+        if let Err(panic) = result {
+            resume_unwind(panic);
+        }
     });
 
     actor_ref
-- 
2.43.0


From fe69de9a6ef280875833780af87818734db0f693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:37:13 +0000
Subject: [PATCH 09/57] fix: children spawned after an attachment get the path
 below their parent

---
 coerce/src/actor/context.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/coerce/src/actor/context.rs b/coerce/src/actor/context.rs
index c3d0fc6..8ec1e7a 100644
--- a/coerce/src/actor/context.rs
+++ b/coerce/src/actor/context.rs
@@ -163,7 +163,8 @@ impl ActorContext {
     pub fn attach_child_ref(&mut self, actor_ref: BoxedActorRef) {
         let supervised = {
             if self.supervised.is_none() {
-                self.supervised = Some(Supervised::new(self.id().clone(), self.path().clone()));
+                self.supervised =
+                    Some(Supervised::new(self.id().clone(), self.full_path().clone()));
             }
 
             self.supervised.as_mut().unwrap()
-- 
2.43.0


From ad616aa4a4092a2a777a0587af81f324cf43cc41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:42:55 +0000
Subject: [PATCH 10/57] fix: actors use the storage provider configured for
 their type

---
 coerce/src/actor/context.rs    | 7 +++----
 coerce/src/persistent/actor.rs | 2 +-
 2 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/coerce/src/actor/context.rs b/coerce/src/actor/context.rs
index 8ec1e7a..e192ebd 100644
--- a/coerce/src/actor/context.rs
+++ b/coerce/src/actor/context.rs
@@ -8,7 +8,6 @@ use crate::actor::{
     LocalActorRef,
 };
 use futures::{Stream, StreamExt};
-use std::any::Any;
 use std::collections::HashMap;
 
 use tokio::sync::oneshot::Sender;
@@ -19,7 +18,7 @@ use crate::actor::watch::watchers::Watchers;
 use crate::actor::watch::ActorTerminated;
 
 #[cfg(feature = "persistence")]
-use crate::persistent::context::ActorPersistence;
+use crate::persistent::{context::ActorPersistence, PersistentActor};
 
 #[derive(Debug, Eq, PartialEq, Clone)]
 pub enum ActorStatus {
@@ -478,7 +477,7 @@ impl Default for StreamAttachmentOptions {
 
 impl ActorContext {
     #[cfg(feature = "persistence")]
-    pub fn with_persistence(self) -> Self {
+    pub fn with_persistence<A: PersistentActor>(self) -> Self {
         let mut ctx = self;
         let persistence = ctx
             .system()
@@ -486,7 +485,7 @@ impl ActorContext {
             .expect("persistence not configured");
 
         ctx.persistence = Some(ActorPersistence::new(
-            persistence.provider(ctx.boxed_ref.type_id()),
+            persistence.provider(std::any::TypeId::of::<A>()),
         ));
 
         ctx
diff --git a/coerce/src/persistent/actor.rs b/coerce/src/persistent/actor.rs
index aeee06b..f27d91b 100644
--- a/coerce/src/persistent/actor.rs
+++ b/coerce/src/persistent/actor.rs
@@ -224,7 +224,7 @@ where
         status: ActorStatus,
         boxed_ref: BoxedActorRef,
     ) -> ActorContext {
-        ActorContext::new(system, status, boxed_ref, Self::DEFAULT_TAGS).with_persistence()
+        ActorContext::new(system, status, boxed_ref, Self::DEFAULT_TAGS).with_persistence::<Self>()
     }
 
     async fn started(&mut self, ctx: &mut ActorContext) {
-- 
2.43.0


From 9bde671ee9234c92115569b6a1fe0841035819a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:44:46 +0000
Subject: [PATCH 11/57] fix: a message persisted right after a snapshot is
 recovered

---
 coerce/src/persistent/journal/mod.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/coerce/src/persistent/journal/mod.rs b/coerce/src/persistent/journal/mod.rs
index 9ebfea7..bfb90c8 100644
--- a/coerce/src/persistent/journal/mod.rs
+++ b/coerce/src/persistent/journal/mod.rs
@@ -266,11 +266,13 @@ impl<A: PersistentActor> Journal<A> {
             .message_type_mapping::<M>()
             .expect("message type not configured");
 
+        let sequence = self.last_sequence_id + 1;
+
         self.storage
             .write_message(
                 &self.persistence_id,
                 JournalEntry {
-                    sequence: self.last_sequence_id,
+                    sequence,
                     payload_type: payload_type.clone(),
                     bytes,
                 },
@@ -283,7 +285,7 @@ impl<A: PersistentActor> Journal<A> {
             M::type_name()
         );
 
-        self.last_sequence_id += 1;
+        self.last_sequence_id = sequence;
         Ok(())
     }
 
-- 
2.43.0


From a3c0f63bebc56d500b6452b91d3db7718788da69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:51:44 +0000
Subject: [PATCH 12/57] fix: the in-memory journal reads message ranges

---
 coerce/src/persistent/journal/provider.rs | 49 ++++-------------------
 1 file changed, 8 insertions(+), 41 deletions(-)

diff --git a/coerce/src/persistent/journal/provider.rs b/coerce/src/persistent/journal/provider.rs
index 8d2de5f..138dbc7 100644
--- a/coerce/src/persistent/journal/provider.rs
+++ b/coerce/src/persistent/journal/provider.rs
@@ -201,49 +201,16 @@ pub mod inmemory {
                     if journal.messages.is_empty() {
                         Ok(None)
                     } else {
-                        let first_seq = journal.messages.first().map(|m| m.sequence).unwrap();
-                        let final_seq = journal.messages.last().map(|m| m.sequence).unwrap();
-
-                        if to_sequence >= final_seq {
-                            if first_seq >= from_sequence {
-                                Ok(Some(journal.messages.clone()))
-                            } else {
-                                let starting_message = journal
-                                    .messages
-                                    .iter()
-                                    .enumerate()
-                                    .find(|(_index, j)| j.sequence > from_sequence)
-                                    .map(|(index, _j)| index);
-
-                                if let Some(starting_index) = starting_message {
-                                    Ok(Some(
-                                        journal.messages[starting_index..]
-                                            .iter()
-                                            .cloned()
-                                            .collect(),
-                                    ))
-                                } else {
-                                    Ok(Some(vec![]))
-                                }
-                            }
-                        } else if first_seq >= from_sequence {
-                            let end_message = journal
+                        Ok(Some(
+                            journal
                                 .messages
                                 .iter()
-                                .enumerate()
-                                .find(|(_index, j)| j.sequence > from_sequence)
-                                .map(|(index, _j)| index);
-
-                            if let Some(end_index) = end_message {
-                                Ok(Some(
-                                    journal.messages[..end_index].iter().cloned().collect(),
-                                ))
-                            } else {
-                                Ok(Some(vec![]))
-                            }
-                        } else {
-                            panic!("todo: this")
-                        }
+                                .filter(|m| {
+                                    m.sequence >= from_sequence && m.sequence <= to_sequence
+                                })
+                                .cloned()
+                                .collect(),
+                        ))
                     }
                 }
             }
-- 
2.43.0


From 4a52fb9569541fbbe606c3f1405feedf08599862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:40 +0000
Subject: [PATCH 13/57] fix: persisting an empty batch succeeds with the redis
 journal

---
 providers/persistence/coerce-redis/src/journal/mod.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/providers/persistence/coerce-redis/src/journal/mod.rs b/providers/persistence/coerce-redis/src/journal/mod.rs
index 3bd8cc7..0088af5 100644
--- a/providers/persistence/coerce-redis/src/journal/mod.rs
+++ b/providers/persistence/coerce-redis/src/journal/mod.rs
@@ -164,6 +164,11 @@ where
         persistence_id: &str,
         entries: Vec<JournalEntry>,
     ) -> anyhow::Result<()> {
+        if entries.is_empty() {
+            // ZADD requires at least one entry
+            return Ok(());
+        }
+
         let (result_channel, rx) = oneshot::channel();
         let key = (self.key_provider_fn)(persistence_id, "journal", self.config.as_ref());
 
-- 
2.43.0


From 819d5c7a0f32f1f13125e3125c081aeb19484e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:09 +0000
Subject: [PATCH 14/57] fix: malformed frames and messages are rejected instead
 of panicking

---
 coerce/src/remote/net/message.rs              | 43 ++++++++++---------
 coerce/src/remote/stream/system.rs            | 12 ++++--
 coerce/src/sharding/coordinator/allocation.rs | 18 ++++++--
 coerce/src/sharding/coordinator/stats.rs      |  2 +-
 coerce/src/sharding/host/mod.rs               | 24 +++++++----
 coerce/src/sharding/host/request.rs           |  3 +-
 coerce/src/sharding/shard/recovery.rs         |  2 +-
 coerce/src/singleton/manager/status.rs        |  2 +-
 8 files changed, 64 insertions(+), 42 deletions(-)

diff --git a/coerce/src/remote/net/message.rs b/coerce/src/remote/net/message.rs
index 64daf32..2907f77 100644
--- a/coerce/src/remote/net/message.rs
+++ b/coerce/src/remote/net/message.rs
@@ -56,22 +56,22 @@ impl StreamData for ClientEvent {
         match data.split_first() {
             Some((event, message)) => match Event::from_i32(*event as i32) {
                 Some(Event::Identity) => Some(ClientEvent::Identity(
-                    NodeIdentity::parse_from_bytes(message).unwrap(),
+                    NodeIdentity::parse_from_bytes(message).ok()?,
                 )),
                 Some(Event::Handshake) => Some(ClientEvent::Handshake(
-                    ClientHandshake::parse_from_bytes(message).unwrap(),
+                    ClientHandshake::parse_from_bytes(message).ok()?,
                 )),
                 Some(Event::Result) => Some(ClientEvent::Result(
-                    ClientResult::parse_from_bytes(message).unwrap(),
+                    ClientResult::parse_from_bytes(message).ok()?,
                 )),
                 Some(Event::Err) => Some(ClientEvent::Err(
-                    ClientErr::parse_from_bytes(message).unwrap(),
+                    ClientErr::parse_from_bytes(message).ok()?,
                 )),
                 Some(Event::Ping) => Some(ClientEvent::Ping(
-                    PingEvent::parse_from_bytes(message).unwrap(),
+                    PingEvent::parse_from_bytes(message).ok()?,
                 )),
                 Some(Event::Pong) => Some(ClientEvent::Pong(
-                    PongEvent::parse_from_bytes(message).unwrap(),
+                    PongEvent::parse_from_bytes(message).ok()?,
                 )),
                 _ => None,
             },
@@ -98,37 +98,37 @@ impl StreamData for SessionEvent {
         match data.split_first() {
             Some((event, message)) => match Event::from_i32(*event as i32) {
                 Some(Event::Identify) => Some(SessionEvent::Identify(
-                    IdentifyEvent::parse_from_bytes(message).unwrap(),
+                    IdentifyEvent::parse_from_bytes(message).ok()?,
                 )),
                 Some(Event::Handshake) => Some(SessionEvent::Handshake(
-                    SessionHandshake::parse_from_bytes(message).unwrap(),
+                    SessionHandshake::parse_from_bytes(message).ok()?,
                 )),
                 Some(Event::Ping) => Some(SessionEvent::Ping(
-                    PingEvent::parse_from_bytes(message).unwrap(),
+                    PingEvent::parse_from_bytes(message).ok()?,
                 )),
                 Some(Event::Pong) => Some(SessionEvent::Pong(
-                    PongEvent::parse_from_bytes(message).unwrap(),
+                    PongEvent::parse_from_bytes(message).ok()?,
                 )),
                 Some(Event::CreateActor) => Some(SessionEvent::CreateActor(
-                    CreateActorEvent::parse_from_bytes(message).unwrap(),
+                    CreateActorEvent::parse_from_bytes(message).ok()?,
                 )),
                 Some(Event::FindActor) => Some(SessionEvent::FindActor(
-                    FindActorEvent::parse_from_bytes(message).unwrap(),
+                    FindActorEvent::parse_from_bytes(message).ok()?,
                 )),
                 Some(Event::NotifyActor) => Some(SessionEvent::NotifyActor(
-                    MessageRequest::parse_from_bytes(message).unwrap(),
+                    MessageRequest::parse_from_bytes(message).ok()?,
                 )),
                 Some(Event::RegisterActor) => Some(SessionEvent::RegisterActor(
-                    ActorAddress::parse_from_bytes(message).unwrap(),
+                    ActorAddress::parse_from_bytes(message).ok()?,
                 )),
                 Some(Event::StreamPublish) => Some(SessionEvent::StreamPublish(Arc::new(
-                    StreamPublishEvent::parse_from_bytes(message).unwrap(),
+                    StreamPublishEvent::parse_from_bytes(message).ok()?,
                 ))),
                 Some(Event::Result) => Some(SessionEvent::Result(
-                    ClientResult::parse_from_bytes(message).unwrap(),
+                    ClientResult::parse_from_bytes(message).ok()?,
                 )),
                 Some(Event::Err) => Some(SessionEvent::Err(
-                    ClientErr::parse_from_bytes(message).unwrap(),
+                    ClientErr::parse_from_bytes(message).ok()?,
                 )),
                 _ => None,
             },
@@ -180,7 +180,8 @@ pub fn timestamp_to_datetime(
     timestamp: protobuf::well_known_types::timestamp::Timestamp,
 ) -> DateTime<Utc> {
     DateTime::<Utc>::from_utc(
-        NaiveDateTime::from_timestamp_opt(timestamp.seconds, timestamp.nanos as u32).unwrap(),
+        NaiveDateTime::from_timestamp_opt(timestamp.seconds, timestamp.nanos as u32)
+            .unwrap_or_default(),
         Utc,
     )
 }
@@ -254,19 +255,19 @@ impl From<proto::network::ActorRefErr> for ActorRefErr {
         use proto::network::MessageUnwrapErr as ProtoUnwrapErr;
         use proto::network::MessageWrapErr as ProtoWrapErr;
 
-        match err.type_.unwrap() {
+        match err.type_.enum_value_or_default() {
             ErrorType::ActorUnavailable => ActorRefErr::ActorUnavailable,
             ErrorType::NotFound => ActorRefErr::NotFound(err.actor_id.to_actor_id()),
             ErrorType::AlreadyExists => ActorRefErr::AlreadyExists(err.actor_id.to_actor_id()),
             ErrorType::Serialisation => {
-                ActorRefErr::Serialisation(match err.serialization_error.unwrap() {
+                ActorRefErr::Serialisation(match err.serialization_error.enum_value_or_default() {
                     ProtoWrapErr::WrapUnsupported => MessageWrapErr::NotTransmittable,
                     ProtoWrapErr::SerializationErr => MessageWrapErr::SerializationErr,
                     ProtoWrapErr::UnknownWrapErr => MessageWrapErr::Unknown,
                 })
             }
             ErrorType::Deserialisation => {
-                ActorRefErr::Deserialisation(match err.deserialization_error.unwrap() {
+                ActorRefErr::Deserialisation(match err.deserialization_error.enum_value_or_default() {
                     ProtoUnwrapErr::UnwrapUnsupported => MessageUnwrapErr::NotTransmittable,
                     ProtoUnwrapErr::DeserializationErr => MessageUnwrapErr::DeserializationErr,
                     ProtoUnwrapErr::UnknownUnwrapErr => MessageUnwrapErr::Unknown,
diff --git a/coerce/src/remote/stream/system.rs b/coerce/src/remote/stream/system.rs
index f301d83..8483eae 100644
--- a/coerce/src/remote/stream/system.rs
+++ b/coerce/src/remote/stream/system.rs
@@ -74,18 +74,22 @@ impl StreamData for SystemEvent {
         match data.split_first() {
             Some((event, message)) => match SysEvent::from_i32(*event as i32) {
                 Some(SysEvent::ClusterNodeRemoved) => {
-                    Some(NodeRemovedEvent::parse_from_bytes(message).unwrap().into())
+                    let event = NodeRemovedEvent::parse_from_bytes(message).ok()?;
+                    event.node.as_ref()?;
+                    Some(event.into())
                 }
                 Some(SysEvent::ClusterNewNode) => {
-                    Some(NewNodeEvent::parse_from_bytes(message).unwrap().into())
+                    let event = NewNodeEvent::parse_from_bytes(message).ok()?;
+                    event.node.as_ref()?;
+                    Some(event.into())
                 }
                 Some(SysEvent::ClusterLeaderChanged) => Some(
                     LeaderChangedEvent::parse_from_bytes(message)
-                        .unwrap()
+                        .ok()?
                         .into(),
                 ),
                 Some(SysEvent::ClusterMemberUp) => {
-                    Some(MemberUpEvent::parse_from_bytes(message).unwrap().into())
+                    Some(MemberUpEvent::parse_from_bytes(message).ok()?.into())
                 }
                 None => None,
             },
diff --git a/coerce/src/sharding/coordinator/allocation.rs b/coerce/src/sharding/coordinator/allocation.rs
index 7cbbfae..19eaf47 100644
--- a/coerce/src/sharding/coordinator/allocation.rs
+++ b/coerce/src/sharding/coordinator/allocation.rs
@@ -240,18 +240,28 @@ impl Message for AllocateShard {
     fn read_remote_result(buffer: Vec<u8>) -> Result<Self::Result, MessageUnwrapErr> {
         let result = proto::AllocateShardResult::parse_from_bytes(&buffer);
         let result = match result {
-            Ok(result) => match result.result_type.unwrap() {
+            Ok(result) => match result
+                .result_type
+                .enum_value()
+                .map_err(|_| MessageUnwrapErr::DeserializationErr)?
+            {
                 allocate_shard_result::Type::ALLOCATED => {
-                    let allocation = result.allocation.unwrap();
+                    let allocation = result
+                        .allocation
+                        .into_option()
+                        .ok_or(MessageUnwrapErr::DeserializationErr)?;
                     AllocateShardResult::Allocated(allocation.shard_id, allocation.node_id)
                 }
                 allocate_shard_result::Type::ALREADY_ALLOCATED => {
-                    let allocation = result.allocation.unwrap();
+                    let allocation = result
+                        .allocation
+                        .into_option()
+                        .ok_or(MessageUnwrapErr::DeserializationErr)?;
                     AllocateShardResult::AlreadyAllocated(allocation.shard_id, allocation.node_id)
                 }
                 allocate_shard_result::Type::NOT_ALLOCATED => AllocateShardResult::NotAllocated,
                 allocate_shard_result::Type::ERR => {
-                    AllocateShardResult::Err(match result.err.unwrap() {
+                    AllocateShardResult::Err(match result.err.enum_value_or_default() {
                         allocate_shard_result::AllocateShardErr::PERSISTENCE => {
                             AllocateShardErr::Persistence
                         }
diff --git a/coerce/src/sharding/coordinator/stats.rs b/coerce/src/sharding/coordinator/stats.rs
index 15d2b4b..55f03dc 100644
--- a/coerce/src/sharding/coordinator/stats.rs
+++ b/coerce/src/sharding/coordinator/stats.rs
@@ -86,7 +86,7 @@ impl Message for GetShardingStats {
                     .map(|n| NodeStats {
                         node_id: n.node_id,
                         shard_count: n.shard_count,
-                        status: n.status.unwrap().into(),
+                        status: n.status.enum_value_or_default().into(),
                     })
                     .collect(),
             })
diff --git a/coerce/src/sharding/host/mod.rs b/coerce/src/sharding/host/mod.rs
index f3f3002..58ea342 100644
--- a/coerce/src/sharding/host/mod.rs
+++ b/coerce/src/sharding/host/mod.rs
@@ -394,11 +394,14 @@ impl Message for ShardAllocated {
 
     fn from_bytes(b: Vec<u8>) -> Result<Self, MessageUnwrapErr> {
         proto::ShardAllocated::parse_from_bytes(&b)
-            .map(|r| {
-                let shard = r.shard.unwrap();
-                Self(shard.shard_id, shard.node_id)
-            })
             .map_err(|_e| MessageUnwrapErr::DeserializationErr)
+            .and_then(|r| {
+                let shard = r
+                    .shard
+                    .into_option()
+                    .ok_or(MessageUnwrapErr::DeserializationErr)?;
+                Ok(Self(shard.shard_id, shard.node_id))
+            })
     }
 
     fn read_remote_result(_: Vec<u8>) -> Result<Self::Result, MessageUnwrapErr> {
@@ -453,12 +456,15 @@ impl Message for StopShard {
 
     fn from_bytes(b: Vec<u8>) -> Result<Self, MessageUnwrapErr> {
         proto::StopShard::parse_from_bytes(&b)
-            .map(|r| Self {
-                shard_id: r.shard_id,
-                request_id: Uuid::parse_str(&r.request_id).unwrap(),
-                origin_node_id: r.origin_node_id,
-            })
             .map_err(|_e| MessageUnwrapErr::DeserializationErr)
+            .and_then(|r| {
+                Ok(Self {
+                    shard_id: r.shard_id,
+                    request_id: Uuid::parse_str(&r.request_id)
+                        .map_err(|_e| MessageUnwrapErr::DeserializationErr)?,
+                    origin_node_id: r.origin_node_id,
+                })
+            })
     }
 
     fn read_remote_result(_: Vec<u8>) -> Result<Self::Result, MessageUnwrapErr> {
diff --git a/coerce/src/sharding/host/request.rs b/coerce/src/sharding/host/request.rs
index 4466d32..4478ded 100644
--- a/coerce/src/sharding/host/request.rs
+++ b/coerce/src/sharding/host/request.rs
@@ -227,7 +227,8 @@ impl Message for RemoteEntityRequest {
             |_e| Err(MessageUnwrapErr::DeserializationErr),
             |proto| {
                 Ok(RemoteEntityRequest {
-                    request_id: Uuid::from_str(&proto.request_id).unwrap(),
+                    request_id: Uuid::from_str(&proto.request_id)
+                        .map_err(|_e| MessageUnwrapErr::DeserializationErr)?,
                     actor_id: proto.actor_id.into_actor_id(),
                     message_type: proto.message_type,
                     message: proto.message,
diff --git a/coerce/src/sharding/shard/recovery.rs b/coerce/src/sharding/shard/recovery.rs
index 335a28e..2dffd9f 100644
--- a/coerce/src/sharding/shard/recovery.rs
+++ b/coerce/src/sharding/shard/recovery.rs
@@ -137,7 +137,7 @@ impl Snapshot for ShardStateSnapshot {
                         .map(|e| Entity {
                             actor_id: e.actor_id.into_actor_id(),
                             recipe: Arc::new(e.recipe),
-                            state: match e.state.unwrap() {
+                            state: match e.state.enum_value_or_default() {
                                 proto::EntityState::IDLE | proto::EntityState::ACTIVE => {
                                     EntityState::Idle
                                 }
diff --git a/coerce/src/singleton/manager/status.rs b/coerce/src/singleton/manager/status.rs
index c48b353..9c6d4f5 100644
--- a/coerce/src/singleton/manager/status.rs
+++ b/coerce/src/singleton/manager/status.rs
@@ -57,7 +57,7 @@ impl Message for GetStatus {
 
     fn read_remote_result(buf: Vec<u8>) -> Result<Self::Result, MessageUnwrapErr> {
         proto::ManagerStatus::from_bytes(buf).map(|s| ManagerStatus {
-            singleton_state: s.singleton_state.unwrap().into(),
+            singleton_state: s.singleton_state.enum_value_or_default().into(),
         })
     }
 
-- 
2.43.0


From 63c7a223b614ffff6e4750c2ae76847a9e89ab5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:09 +0000
Subject: [PATCH 15/57] hooks: make private wire messages reachable under
 cfg(vf_hooks)

---
 coerce/src/sharding/shard/mod.rs    | 6 ++++++
 coerce/src/singleton/manager/mod.rs | 5 +++++
 2 files changed, 11 insertions(+)

diff --git a/coerce/src/sharding/shard/mod.rs b/coerce/src/sharding/shard/mod.rs
index 4940fdc..a85e6ee 100644
--- a/coerce/src/sharding/shard/mod.rs
+++ b/coerce/src/sharding/shard/mod.rs
@@ -31,6 +31,12 @@ pub(crate) mod passivation;
 pub(crate) mod recovery;
 pub(crate) mod stats;
 
+#[cfg(vf_hooks)]
+pub mod vf_hooks {
+    pub use super::recovery::ShardStateSnapshot;
+    pub use super::stats::{GetShardStats, ShardStats};
+}
+
 pub type RecipeRef = Arc<Vec<u8>>;
 
 pub struct Shard {
diff --git a/coerce/src/singleton/manager/mod.rs b/coerce/src/singleton/manager/mod.rs
index 9aad610..74ce520 100644
--- a/coerce/src/singleton/manager/mod.rs
+++ b/coerce/src/singleton/manager/mod.rs
@@ -2,6 +2,11 @@ pub(crate) mod lease;
 mod start;
 mod status;
 
+#[cfg(vf_hooks)]
+pub mod vf_hooks {
+    pub use super::lease::{LeaseAck, RequestLease};
+}
+
 use crate::actor::context::ActorContext;
 use crate::actor::message::{
     FromBytes, Handler, Message, MessageUnwrapErr, MessageWrapErr, ToBytes,
-- 
2.43.0


From 65c35523d467a392e07c6382c556d74be0734b23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:25:19 +0000
Subject: [PATCH 16/57] fix: remote messages reach the actor of the addressed
 system when ids repeat across systems

---
 coerce/src/remote/handler.rs | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/coerce/src/remote/handler.rs b/coerce/src/remote/handler.rs
index d145d1d..d8924e2 100644
--- a/coerce/src/remote/handler.rs
+++ b/coerce/src/remote/handler.rs
@@ -14,6 +14,7 @@ use std::marker::PhantomData;
 use std::time::Duration;
 
 use tokio::sync::oneshot::Sender;
+use uuid::Uuid;
 
 #[async_trait]
 pub trait ActorHandler: 'static + Any + Sync + Send {
@@ -184,7 +185,7 @@ where
 }
 
 struct ActorRefCache {
-    inner: parking_lot::Mutex<HashMap<ActorId, BoxedActorRef>>,
+    inner: parking_lot::Mutex<HashMap<(Uuid, ActorId), BoxedActorRef>>,
 }
 
 impl ActorRefCache {
@@ -194,12 +195,17 @@ impl ActorRefCache {
         }
     }
 
-    pub fn add(&self, actor_id: &ActorId, actor_ref: BoxedActorRef) {
-        self.inner.lock().insert(actor_id.clone(), actor_ref);
+    pub fn add(&self, system_id: &Uuid, actor_id: &ActorId, actor_ref: BoxedActorRef) {
+        self.inner
+            .lock()
+            .insert((*system_id, actor_id.clone()), actor_ref);
     }
 
-    pub fn get(&self, actor_id: &ActorId) -> Option<BoxedActorRef> {
-        self.inner.lock().get(actor_id).cloned()
+    pub fn get(&self, system_id: &Uuid, actor_id: &ActorId) -> Option<BoxedActorRef> {
+        self.inner
+            .lock()
+            .get(&(*system_id, actor_id.clone()))
+            .cloned()
     }
 
     pub fn len(&self) -> usize {
@@ -221,7 +227,7 @@ async fn get_actor_ref<A: Actor>(
     system: &ActorSystem,
     actor_id: &ActorId,
 ) -> Option<LocalActorRef<A>> {
-    if let Some(boxed_ref) = ACTOR_REF_CACHE.get(actor_id) {
+    if let Some(boxed_ref) = ACTOR_REF_CACHE.get(system.system_id(), actor_id) {
         let actor_ref = boxed_ref.as_actor();
         if let Some(actor_ref) = actor_ref {
             if actor_ref.is_valid() {
@@ -231,7 +237,11 @@ async fn get_actor_ref<A: Actor>(
     }
 
     if let Some(actor_ref) = system.get_tracked_actor::<A>(actor_id.clone()).await {
-        ACTOR_REF_CACHE.add(actor_id, BoxedActorRef::from(actor_ref.clone()));
+        ACTOR_REF_CACHE.add(
+            system.system_id(),
+            actor_id,
+            BoxedActorRef::from(actor_ref.clone()),
+        );
 
         Some(actor_ref)
     } else {
-- 
2.43.0


From dac1eb1ca1dc97566224751b84af1f15a291967b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:28:53 +0000
Subject: [PATCH 17/57] fix: a remote request that fails is answered over the
 connection it came from

---
 coerce/src/remote/net/server/session/mod.rs | 30 ++++++++++++++++-----
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/coerce/src/remote/net/server/session/mod.rs b/coerce/src/remote/net/server/session/mod.rs
index 04d247b..bca347a 100644
--- a/coerce/src/remote/net/server/session/mod.rs
+++ b/coerce/src/remote/net/server/session/mod.rs
@@ -1,6 +1,6 @@
 use crate::actor::context::{ActorContext, LogContext};
 use crate::actor::message::Handler;
-use crate::actor::{Actor, ActorId, IntoActorId, LocalActorRef};
+use crate::actor::{Actor, ActorId, ActorRefErr, IntoActorId, LocalActorRef};
 use crate::remote::actor::message::NodeTerminated;
 use crate::remote::actor::RemoteResponse;
 use crate::remote::cluster::discovery::{Discover, Seed};
@@ -9,8 +9,8 @@ use crate::remote::net::message::{
     datetime_to_timestamp, timestamp_to_datetime, ClientEvent, SessionEvent,
 };
 use crate::remote::net::proto::network::{
-    ActorAddress, ClientHandshake, ClientResult, CreateActorEvent, MessageRequest, NodeIdentity,
-    PongEvent, RemoteNode as RemoteNodeProto, SessionHandshake, StreamPublishEvent,
+    ActorAddress, ClientErr, ClientHandshake, ClientResult, CreateActorEvent, MessageRequest,
+    NodeIdentity, PongEvent, RemoteNode as RemoteNodeProto, SessionHandshake, StreamPublishEvent,
     SystemCapabilities,
 };
 use crate::remote::net::server::session::store::{RemoteSessionStore, SessionClosed, SessionWrite};
@@ -556,9 +556,10 @@ async fn session_handle_message(
         }
         Err(e) => {
             error!("[node={}] failed to handle message (handler_type={}, target_actor_id={}), error={:?}", ctx.node_id(), &msg.handler_type, &actor_id, e);
-            let _ = ctx
-                .notify_rpc_err(msg.message_id.parse().unwrap(), e, msg.origin_node_id)
-                .await;
+
+            if msg.requires_response {
+                send_err(msg.message_id, e, session_id, session).await;
+            }
         }
     }
 }
@@ -625,6 +626,23 @@ async fn session_stream_publish(msg: Arc<StreamPublishEvent>, sys: RemoteActorSy
     }
 }
 
+async fn send_err(
+    message_id: String,
+    error: ActorRefErr,
+    session_id: i64,
+    session: LocalActorRef<RemoteSession>,
+) {
+    let event = ClientEvent::Err(ClientErr {
+        message_id,
+        error: Some(error.into()).into(),
+        ..ClientErr::default()
+    });
+
+    if session.send(SessionWrite(session_id, event)).await.is_err() {
+        error!("failed to send error");
+    }
+}
+
 async fn send_result(
     msg_id: Uuid,
     res: Vec<u8>,
-- 
2.43.0


From 14fe814a527d4569f16e1e124dfc71a43377d903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:30:42 +0000
Subject: [PATCH 18/57] fix: a remote request to a node without a connection
 fails instead of never resolving

---
 coerce/src/remote/actor/clients.rs  |  6 ++++--
 coerce/src/remote/actor/message.rs  |  3 ++-
 coerce/src/remote/actor_ref.rs      | 18 ++++++++++++------
 coerce/src/remote/system/cluster.rs |  5 +++--
 coerce/src/remote/system/rpc.rs     | 17 ++++++++++-------
 5 files changed, 31 insertions(+), 18 deletions(-)

diff --git a/coerce/src/remote/actor/clients.rs b/coerce/src/remote/actor/clients.rs
index b494f3c..8800648 100644
--- a/coerce/src/remote/actor/clients.rs
+++ b/coerce/src/remote/actor/clients.rs
@@ -97,7 +97,7 @@ impl Handler<ClientConnected> for RemoteClientRegistry {
 
 #[async_trait]
 impl Handler<ClientWrite> for RemoteClientRegistry {
-    async fn handle(&mut self, message: ClientWrite, _ctx: &mut ActorContext) {
+    async fn handle(&mut self, message: ClientWrite, _ctx: &mut ActorContext) -> bool {
         let node_id = message.0;
         let message = message.1;
 
@@ -106,11 +106,13 @@ impl Handler<ClientWrite> for RemoteClientRegistry {
 
         if let Some(client) = self.node_id_registry.get(&node_id) {
             trace!("emitting message ({:?}) to node_id={}", &message, &node_id);
-            client.notify(Write(message)).expect("send client msg");
+            let written = client.notify(Write(message)).is_ok();
             trace!("written data to client");
+            written
         } else {
             // TODO: should we buffer the message incase the client will eventually exist
             warn!("attempted to write message to node_id={} but no client was registered (message={:?})", &node_id, &message);
+            false
         }
     }
 }
diff --git a/coerce/src/remote/actor/message.rs b/coerce/src/remote/actor/message.rs
index 4ce460f..f956e2a 100644
--- a/coerce/src/remote/actor/message.rs
+++ b/coerce/src/remote/actor/message.rs
@@ -90,7 +90,8 @@ impl Message for NodeTerminated {
 pub struct ClientWrite(pub NodeId, pub SessionEvent);
 
 impl Message for ClientWrite {
-    type Result = ();
+    /// whether there is a client that the message could be passed to
+    type Result = bool;
 }
 
 #[derive(Debug)]
diff --git a/coerce/src/remote/actor_ref.rs b/coerce/src/remote/actor_ref.rs
index 72ecc97..951c503 100644
--- a/coerce/src/remote/actor_ref.rs
+++ b/coerce/src/remote/actor_ref.rs
@@ -62,9 +62,11 @@ where
         let id = Uuid::new_v4();
 
         let request = self.create_request(msg, String::new(), id, false)?;
-        self.system.notify_node(self.node_id, request).await;
-
-        Ok(())
+        if self.system.notify_node(self.node_id, request).await {
+            Ok(())
+        } else {
+            Err(ActorRefErr::ActorUnavailable)
+        }
     }
 
     pub async fn send<Msg: Message>(&self, msg: Envelope<Msg>) -> Result<Msg::Result, ActorRefErr>
@@ -75,13 +77,17 @@ where
     {
         let id = Uuid::new_v4();
 
+        let event = self.create_request(msg, String::new(), id, true)?;
+
         let (res_tx, res_rx) = oneshot::channel();
         self.system.push_request(id, res_tx);
 
-        let event = self.create_request(msg, String::new(), id, true)?;
-
         // TODO: we could make this fail fast if the node is known to be terminated?
-        self.system.notify_node(self.node_id, event).await;
+        if !self.system.notify_node(self.node_id, event).await {
+            self.system.pop_request(id);
+            return Err(ActorRefErr::ActorUnavailable);
+        }
+
         match res_rx.await {
             Ok(RemoteResponse::Ok(res)) => match Msg::read_remote_result(res) {
                 Ok(res) => Ok(res),
diff --git a/coerce/src/remote/system/cluster.rs b/coerce/src/remote/system/cluster.rs
index e335a05..d802915 100644
--- a/coerce/src/remote/system/cluster.rs
+++ b/coerce/src/remote/system/cluster.rs
@@ -30,12 +30,13 @@ impl RemoteActorSystem {
             .unwrap()
     }
 
-    pub async fn notify_node(&self, node_id: NodeId, message: SessionEvent) {
+    /// Returns false when there is no connection to the node.
+    pub async fn notify_node(&self, node_id: NodeId, message: SessionEvent) -> bool {
         self.inner
             .clients_ref
             .send(ClientWrite(node_id, message))
             .await
-            .unwrap()
+            .unwrap_or(false)
     }
 
     pub fn current_leader(&self) -> Option<NodeId> {
diff --git a/coerce/src/remote/system/rpc.rs b/coerce/src/remote/system/rpc.rs
index 4e583c2..785f831 100644
--- a/coerce/src/remote/system/rpc.rs
+++ b/coerce/src/remote/system/rpc.rs
@@ -101,7 +101,10 @@ impl RemoteActorSystem {
             &message_id,
             &node_id
         );
-        self.notify_node(node_id, event).await;
+        if !self.notify_node(node_id, event).await {
+            self.pop_request(message_id);
+            return Err(NodeRpcErr::NodeUnreachable);
+        }
 
         trace!("message_id={}, waiting for result", &message_id);
         match res_rx.await {
@@ -128,10 +131,10 @@ impl RemoteActorSystem {
                 ..Default::default()
             });
 
-            if let Err(e) = self.node_rpc_raw(request_id, result, node_id).await {
+            if !self.notify_node(node_id, result).await {
                 error!(
-                    "error whilst sending result to target node (node_id={}, request_id={}) error: {}",
-                    &node_id, &request_id, &e
+                    "unable to send result to target node (node_id={}, request_id={})",
+                    &node_id, &request_id
                 );
             }
         }
@@ -156,10 +159,10 @@ impl RemoteActorSystem {
                 ..Default::default()
             });
 
-            if let Err(e) = self.node_rpc_raw(request_id, result, node_id).await {
+            if !self.notify_node(node_id, result).await {
                 error!(
-                    "error whilst sending result to target node (node_id={}, request_id={}) error: {}",
-                    &node_id, &request_id, &e
+                    "unable to send result to target node (node_id={}, request_id={})",
+                    &node_id, &request_id
                 );
             }
         }
-- 
2.43.0


From f2fbad1eb06f6bad0f5f4b30752efca6277025dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:33:40 +0000
Subject: [PATCH 19/57] fix: deploying an actor locally returns a usable
 reference

---
 coerce/src/remote/system/actor.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/coerce/src/remote/system/actor.rs b/coerce/src/remote/system/actor.rs
index cc360b3..e0ec3ff 100644
--- a/coerce/src/remote/system/actor.rs
+++ b/coerce/src/remote/system/actor.rs
@@ -167,6 +167,12 @@ impl RemoteActorSystem {
         }
 
         match actor_addr {
+            Some(actor_address) if node == self_id => self
+                .actor_system()
+                .get_tracked_actor::<F::Actor>(actor_address.actor_id.into_actor_id())
+                .await
+                .map(ActorRef::from)
+                .ok_or(RemoteActorErr::ActorUnavailable),
             Some(actor_address) => {
                 let actor_ref = RemoteActorRef::<F::Actor>::new(
                     actor_address.actor_id.into_actor_id(),
-- 
2.43.0


From c8653f4848be5ea376be3cbe8c65265056911b31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:38:22 +0000
Subject: [PATCH 20/57] fix: a refused remote deployment is reported to the
 deploying node

---
 coerce/src/remote/net/server/session/mod.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/coerce/src/remote/net/server/session/mod.rs b/coerce/src/remote/net/server/session/mod.rs
index bca347a..6db2e44 100644
--- a/coerce/src/remote/net/server/session/mod.rs
+++ b/coerce/src/remote/net/server/session/mod.rs
@@ -613,8 +613,9 @@ async fn session_create_actor(
         .await
     {
         Ok(buf) => send_result(msg_id.parse().unwrap(), buf.to_vec(), session_id, session).await,
-        Err(_) => {
-            error!("failed to handle message, todo: send err");
+        Err(e) => {
+            error!("failed to create actor, error={:?}", e);
+            send_err(msg_id, ActorRefErr::ActorUnavailable, session_id, session).await;
         }
     }
 }
-- 
2.43.0


From 7594cafc594c47ab7555097d675037147d13ac8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:17:57 +0000
Subject: [PATCH 21/57] fix: a ping timeout terminates a node only after the
 configured time without contact

The comparison was inverted: one late ping terminated a node that had just
answered, and a node that had been silent for too long was never terminated.
A clock that is set back no longer panics the heartbeat.
---
 coerce/src/remote/heartbeat/mod.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/coerce/src/remote/heartbeat/mod.rs b/coerce/src/remote/heartbeat/mod.rs
index a192a0b..16d3619 100644
--- a/coerce/src/remote/heartbeat/mod.rs
+++ b/coerce/src/remote/heartbeat/mod.rs
@@ -382,7 +382,8 @@ fn node_status(
 ) -> NodeStatus {
     match ping {
         Some(PingResult::Ok(_, ping_latency, pong_received_at)) => {
-            let time_since_ping = (Utc::now() - pong_received_at).to_std().unwrap();
+            // negative if the clock was set back in the meantime
+            let time_since_ping = (Utc::now() - pong_received_at).to_std().unwrap_or_default();
 
             if time_since_ping >= config.terminated_node_heartbeat_timeout {
                 error!(
@@ -435,7 +436,7 @@ fn node_status(
         Some(PingResult::Timeout) => {
             let terminated = last_heartbeat.map_or(true, |h| {
                 h.add(chrono::Duration::from_std(config.terminated_node_heartbeat_timeout).unwrap())
-                    >= Utc::now()
+                    <= Utc::now()
             });
 
             if terminated {
-- 
2.43.0


From b84c0b0204274b650609cbebd5bcda193a7872fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:18:22 +0000
Subject: [PATCH 22/57] fix: a member is announced up once the minimum cluster
 size is reached

The comparison was inverted and only evaluated when the leader changed.
---
 coerce/src/remote/heartbeat/mod.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/coerce/src/remote/heartbeat/mod.rs b/coerce/src/remote/heartbeat/mod.rs
index 16d3619..bc46530 100644
--- a/coerce/src/remote/heartbeat/mod.rs
+++ b/coerce/src/remote/heartbeat/mod.rs
@@ -222,6 +222,7 @@ impl Handler<HeartbeatTick> for Heartbeat {
                 .count()
         );
 
+        let mut leader_id = None;
         let mut new_leader_id = None;
         let mut updates = vec![];
 
@@ -267,6 +268,8 @@ impl Handler<HeartbeatTick> for Heartbeat {
             match oldest_healthy_node {
                 None => {}
                 Some(oldest_healthy_node) => {
+                    leader_id = Some(oldest_healthy_node.id);
+
                     let current_leader_id = system.current_leader();
                     if Some(oldest_healthy_node.id) != system.current_leader() {
                         info!(
@@ -283,21 +286,23 @@ impl Handler<HeartbeatTick> for Heartbeat {
 
         system.update_nodes(updates.clone()).await;
 
-        if let Some(new_leader_id) = new_leader_id {
+        if let Some(leader_id) = leader_id {
             if !self.cluster_member_up {
                 let min_cluster_size_reached = match self.config.minimum_cluster_size {
                     None => true,
-                    Some(n) => n >= self.node_pings.len(),
+                    Some(n) => updates.iter().filter(|n| n.status.is_healthy()).count() >= n,
                 };
 
                 if min_cluster_size_reached {
                     self.on_min_cluster_size_reached(
-                        new_leader_id,
+                        leader_id,
                         updates.into_iter().map(|n| Arc::new(n.into())).collect(),
                     );
                 }
             }
+        }
 
+        if let Some(new_leader_id) = new_leader_id {
             self.update_leader(new_leader_id);
         }
 
-- 
2.43.0


From e5cd11601cbf4a6465541650bb19d6fd44bde4f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:18:40 +0000
Subject: [PATCH 23/57] fix: leaders with large node ids are reported

Node ids are u64 (random by default), the leader was kept as an i64 in which
every id from 2^63 on meant that there is no leader.
---
 coerce/src/remote/system/builder.rs |  8 ++++----
 coerce/src/remote/system/cluster.rs | 18 ++----------------
 coerce/src/remote/system/mod.rs     |  4 +---
 3 files changed, 7 insertions(+), 23 deletions(-)

diff --git a/coerce/src/remote/system/builder.rs b/coerce/src/remote/system/builder.rs
index 56b0934..a499964 100644
--- a/coerce/src/remote/system/builder.rs
+++ b/coerce/src/remote/system/builder.rs
@@ -9,7 +9,7 @@ use crate::remote::actor::{
 use crate::remote::handler::{RemoteActorHandler, RemoteActorMessageHandler};
 use crate::remote::heartbeat::{Heartbeat, HeartbeatConfig};
 use crate::remote::stream::mediator::StreamMediator;
-use crate::remote::system::{AtomicNodeId, NodeId, RemoteActorSystem, RemoteSystemCore};
+use crate::remote::system::{NodeId, RemoteActorSystem, RemoteSystemCore};
 
 use rand::RngCore;
 
@@ -196,10 +196,10 @@ impl RemoteActorSystemBuilder {
             heartbeat_ref,
             started_at: Utc::now(),
             config,
-            current_leader: Arc::new(AtomicNodeId::new(if self.single_node_cluster {
-                node_id as i64
+            current_leader: Arc::new(parking_lot::Mutex::new(if self.single_node_cluster {
+                Some(node_id)
             } else {
-                -1
+                None
             })),
         };
 
diff --git a/coerce/src/remote/system/cluster.rs b/coerce/src/remote/system/cluster.rs
index d802915..b49c1c1 100644
--- a/coerce/src/remote/system/cluster.rs
+++ b/coerce/src/remote/system/cluster.rs
@@ -3,7 +3,6 @@ use crate::remote::cluster::node::{RemoteNode, RemoteNodeState};
 use crate::remote::net::client::{ClientType, RemoteClientRef};
 use crate::remote::net::message::SessionEvent;
 use crate::remote::system::{NodeId, RemoteActorSystem};
-use std::sync::atomic::Ordering;
 
 impl RemoteActorSystem {
     pub async fn register_node(&self, node: RemoteNode) {
@@ -40,24 +39,11 @@ impl RemoteActorSystem {
     }
 
     pub fn current_leader(&self) -> Option<NodeId> {
-        let n = self.inner.current_leader.load(Ordering::SeqCst);
-        if n >= 0 {
-            Some(n as NodeId)
-        } else {
-            None
-        }
+        *self.inner.current_leader.lock()
     }
 
     pub fn update_leader(&self, new_leader: NodeId) -> Option<NodeId> {
-        let n = self
-            .inner
-            .current_leader
-            .swap(new_leader as i64, Ordering::SeqCst);
-        if n >= 0 {
-            Some(n as NodeId)
-        } else {
-            None
-        }
+        self.inner.current_leader.lock().replace(new_leader)
     }
 
     pub async fn get_remote_client(&self, addr: String) -> Option<RemoteClientRef> {
diff --git a/coerce/src/remote/system/mod.rs b/coerce/src/remote/system/mod.rs
index 5c7d068..8951351 100644
--- a/coerce/src/remote/system/mod.rs
+++ b/coerce/src/remote/system/mod.rs
@@ -1,5 +1,4 @@
 use chrono::{DateTime, Utc};
-use std::sync::atomic::AtomicI64;
 use std::sync::Arc;
 
 use crate::actor::system::ActorSystem;
@@ -30,7 +29,6 @@ pub struct RemoteActorSystem {
 }
 
 pub type NodeId = u64;
-pub type AtomicNodeId = AtomicI64;
 
 #[derive(Clone)]
 pub struct RemoteSystemCore {
@@ -44,7 +42,7 @@ pub struct RemoteSystemCore {
     heartbeat_ref: LocalActorRef<Heartbeat>,
     mediator_ref: Option<LocalActorRef<StreamMediator>>,
     config: Arc<RemoteSystemConfig>,
-    current_leader: Arc<AtomicNodeId>,
+    current_leader: Arc<parking_lot::Mutex<Option<NodeId>>>,
 }
 
 impl RemoteActorSystem {
-- 
2.43.0


From 174cbd3524c91517f7ac0f3ff4134e88619ad1b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:34 +0000
Subject: [PATCH 24/57] fix: a token ttl beyond the calendar does not panic the
 validation

---
 coerce/src/remote/net/security/auth/jwt.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/coerce/src/remote/net/security/auth/jwt.rs b/coerce/src/remote/net/security/auth/jwt.rs
index c8652fc..9c9ae46 100644
--- a/coerce/src/remote/net/security/auth/jwt.rs
+++ b/coerce/src/remote/net/security/auth/jwt.rs
@@ -53,13 +53,13 @@ impl Jwt {
 }
 
 fn is_token_still_valid(payload: &Payload, token_ttl: &Duration) -> bool {
-    let token_ttl = chrono::Duration::from_std(*token_ttl).unwrap();
-    let token_expires_at = payload.timestamp + token_ttl;
-    let now = Utc::now();
+    let token_expires_at = chrono::Duration::from_std(*token_ttl)
+        .ok()
+        .and_then(|token_ttl| payload.timestamp.checked_add_signed(token_ttl));
 
-    if now <= token_expires_at {
-        true
-    } else {
-        false
+    match token_expires_at {
+        Some(token_expires_at) => Utc::now() <= token_expires_at,
+        // the expiry lies beyond any representable date
+        None => true,
     }
 }
-- 
2.43.0


From 046098ab141975e8753b2b14914d8b13611693b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:34 +0000
Subject: [PATCH 25/57] fix: published messages reach every node in the order
 of publishing

---
 coerce/src/remote/net/server/session/mod.rs |  8 ++--
 coerce/src/remote/stream/mediator/mod.rs    | 41 +++++++++------------
 2 files changed, 23 insertions(+), 26 deletions(-)

diff --git a/coerce/src/remote/net/server/session/mod.rs b/coerce/src/remote/net/server/session/mod.rs
index 6db2e44..64074d4 100644
--- a/coerce/src/remote/net/server/session/mod.rs
+++ b/coerce/src/remote/net/server/session/mod.rs
@@ -368,7 +368,7 @@ impl StreamReceiver for SessionMessageReceiver {
 
             SessionEvent::StreamPublish(msg) => {
                 trace!("stream publish {}, {:?}", self.session_id, &msg);
-                tokio::spawn(session_stream_publish(msg, sys.clone()));
+                session_stream_publish(msg, sys);
             }
 
             SessionEvent::Raft(_req) => {}
@@ -620,10 +620,12 @@ async fn session_create_actor(
     }
 }
 
-async fn session_stream_publish(msg: Arc<StreamPublishEvent>, sys: RemoteActorSystem) {
+fn session_stream_publish(msg: Arc<StreamPublishEvent>, sys: &RemoteActorSystem) {
     // TODO: node should acknowledge the message
     if let Some(mediator) = sys.stream_mediator() {
-        mediator.notify::<PublishRaw>(msg.into()).unwrap()
+        if let Err(e) = mediator.notify::<PublishRaw>(msg.into()) {
+            warn!("failed to notify the stream mediator, error={:?}", e);
+        }
     }
 }
 
diff --git a/coerce/src/remote/stream/mediator/mod.rs b/coerce/src/remote/stream/mediator/mod.rs
index 912016e..f32e210 100644
--- a/coerce/src/remote/stream/mediator/mod.rs
+++ b/coerce/src/remote/stream/mediator/mod.rs
@@ -1,7 +1,7 @@
 use crate::actor::context::ActorContext;
 use crate::actor::message::{Handler, Message};
 use crate::actor::{Actor, LocalActorRef};
-use crate::remote::actor::message::SetRemote;
+use crate::remote::actor::message::{ClientWrite, SetRemote};
 use crate::remote::heartbeat::Heartbeat;
 use crate::remote::net::message::SessionEvent;
 use crate::remote::net::proto::network::StreamPublishEvent;
@@ -190,29 +190,24 @@ impl<T: Topic> Handler<Publish<T>> for StreamMediator {
         if message.reach.remote_publish() && !self.nodes.is_empty() {
             match msg.write_to_bytes() {
                 Some(bytes) => {
-                    let remote = self.remote().clone();
-                    let topic = T::topic_name().to_string();
-                    let key = message.topic.key();
-                    let nodes: Vec<NodeId> = self.nodes.iter().copied().collect();
-
-                    tokio::spawn(async move {
-                        let message = bytes;
-                        let publish = Arc::new(StreamPublishEvent {
-                            topic,
-                            message,
-                            key,
-                            ..Default::default()
-                        });
-
-                        let node_count = nodes.len();
-                        for node in nodes {
-                            let _ = remote
-                                .notify_node(node, SessionEvent::StreamPublish(publish.clone()))
-                                .await;
-                        }
-
-                        debug!("notified {} nodes", node_count);
+                    let publish = Arc::new(StreamPublishEvent {
+                        topic: T::topic_name().to_string(),
+                        key: message.topic.key(),
+                        message: bytes,
+                        ..Default::default()
                     });
+
+                    // handed over in the order of publishing, so that every node receives
+                    // the messages in that order
+                    let client_registry = self.remote().client_registry();
+                    for node in &self.nodes {
+                        let _ = client_registry.notify(ClientWrite(
+                            *node,
+                            SessionEvent::StreamPublish(publish.clone()),
+                        ));
+                    }
+
+                    debug!("notified {} nodes", self.nodes.len());
                     Ok(())
                 }
                 None => Err(PublishErr::SerializationErr),
-- 
2.43.0


From ce022c333bb82243f0cc88f2b9ca692fb920c7b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:55 +0000
Subject: [PATCH 26/57] fix: a peer that does not identify itself blocks
 neither other sessions nor the shutdown

---
 coerce/src/remote/net/server/session/mod.rs | 78 ++++++++++++++-------
 1 file changed, 53 insertions(+), 25 deletions(-)

diff --git a/coerce/src/remote/net/server/session/mod.rs b/coerce/src/remote/net/server/session/mod.rs
index 64074d4..7bee7bd 100644
--- a/coerce/src/remote/net/server/session/mod.rs
+++ b/coerce/src/remote/net/server/session/mod.rs
@@ -1,5 +1,5 @@
 use crate::actor::context::{ActorContext, LogContext};
-use crate::actor::message::Handler;
+use crate::actor::message::{Handler, Message};
 use crate::actor::{Actor, ActorId, ActorRefErr, IntoActorId, LocalActorRef};
 use crate::remote::actor::message::NodeTerminated;
 use crate::remote::actor::RemoteResponse;
@@ -43,7 +43,7 @@ pub struct RemoteSession {
     addr: SocketAddr,
     write: FramedWrite<WriteHalf<TcpStream>, LengthDelimitedCodec>,
     read: Option<FramedRead<ReadHalf<TcpStream>, LengthDelimitedCodec>>,
-    read_cancellation_token: Option<CancellationToken>,
+    cancellation_token: CancellationToken,
     remote_server_config: RemoteServerConfigRef,
 }
 
@@ -62,7 +62,7 @@ impl RemoteSession {
             addr,
             write,
             read,
-            read_cancellation_token: Some(CancellationToken::new()),
+            cancellation_token: CancellationToken::new(),
             remote_server_config,
         }
     }
@@ -79,12 +79,53 @@ impl Actor for RemoteSession {
             "session started (addr={}, session_id={}), validating token", &self.addr, &self.id
         );
 
-        if let Some(read) = &mut self.read {
-            if !validate_session_token(ctx, log, &system, read).await {
-                ctx.stop(None);
-                return;
-            }
+        // the peer decides when (and if) it identifies itself: neither the session store
+        // nor the stopping of this session may depend on that
+        if let Some(mut read) = self.read.take() {
+            let session = self.actor_ref(ctx);
+            let cancellation_token = self.cancellation_token.clone();
+
+            tokio::spawn(async move {
+                let token_valid = tokio::select! {
+                    token_valid = validate_session_token(&session, log, &system, &mut read) => token_valid,
+                    _ = cancellation_token.cancelled() => return,
+                };
+
+                if token_valid {
+                    let _ = session.notify(TokenValidated(read));
+                } else {
+                    let _ = session.notify_stop();
+                }
+            });
+        }
+    }
+
+    async fn stopped(&mut self, ctx: &mut ActorContext) {
+        debug!(
+            "session closed (addr={}, session_id={})",
+            &self.addr, &self.id
+        );
+
+        self.cancellation_token.cancel();
+        let _ = self.write.close().await;
+
+        if let Some(session_store) = ctx.parent::<RemoteSessionStore>() {
+            let _ = session_store.send(SessionClosed(self.id)).await;
         }
+    }
+}
+
+/// The peer has identified itself with a valid token
+struct TokenValidated(FramedRead<ReadHalf<TcpStream>, LengthDelimitedCodec>);
+
+impl Message for TokenValidated {
+    type Result = ();
+}
+
+#[async_trait]
+impl Handler<TokenValidated> for RemoteSession {
+    async fn handle(&mut self, message: TokenValidated, ctx: &mut ActorContext) {
+        let system = ctx.system().remote_owned();
 
         let peers = system
             .get_nodes()
@@ -120,7 +161,7 @@ impl Actor for RemoteSession {
 
         let _session = tokio::spawn(receive_loop(
             system.clone(),
-            self.read.take().unwrap(),
+            message.0,
             SessionMessageReceiver::new(
                 self.id,
                 self.actor_ref(ctx),
@@ -129,23 +170,10 @@ impl Actor for RemoteSession {
             ),
         ));
     }
-
-    async fn stopped(&mut self, ctx: &mut ActorContext) {
-        debug!(
-            "session closed (addr={}, session_id={})",
-            &self.addr, &self.id
-        );
-
-        let _ = self.write.close().await;
-
-        if let Some(session_store) = ctx.parent::<RemoteSessionStore>() {
-            let _ = session_store.send(SessionClosed(self.id)).await;
-        }
-    }
 }
 
 async fn validate_session_token(
-    ctx: &mut ActorContext,
+    session: &LocalActorRef<RemoteSession>,
     log: LogContext,
     system: &RemoteActorSystem,
     read: &mut FramedRead<ReadHalf<TcpStream>, LengthDelimitedCodec>,
@@ -165,7 +193,7 @@ async fn validate_session_token(
                     error!(
                         ctx = log.as_value(),
                         "invalid token received, disconnecting session({})",
-                        ctx.id(),
+                        session.actor_id(),
                     );
                 } else {
                     info!(
@@ -181,7 +209,7 @@ async fn validate_session_token(
                 error!(
                     ctx = log.as_value(),
                     "initial payload invalid, expected SessionEvent::Identify, disconnecting session({}), value={:?}",
-                    ctx.id(), value
+                    session.actor_id(), value
                 );
             }
         }
-- 
2.43.0


From e128864d75f6188d8f125fc07de3030ba5b3b093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:37 +0000
Subject: [PATCH 27/57] fix: malformed message ids and missing errors from a
 peer do not panic the receiving side

---
 coerce/src/remote/net/client/receive.rs     | 13 +++++-------
 coerce/src/remote/net/mod.rs                | 15 ++++++++++++++
 coerce/src/remote/net/server/session/mod.rs | 22 ++++++++++-----------
 3 files changed, 30 insertions(+), 20 deletions(-)

diff --git a/coerce/src/remote/net/client/receive.rs b/coerce/src/remote/net/client/receive.rs
index ae339d8..d22b556 100644
--- a/coerce/src/remote/net/client/receive.rs
+++ b/coerce/src/remote/net/client/receive.rs
@@ -8,16 +8,13 @@ use crate::remote::net::client::connect::Disconnected;
 use crate::remote::net::client::RemoteClient;
 use crate::remote::net::message::{timestamp_to_datetime, ClientEvent};
 use crate::remote::net::proto::network::PongEvent;
-use crate::remote::net::StreamReceiver;
+use crate::remote::net::{pop_request, StreamReceiver};
 use crate::remote::system::{NodeId, RemoteActorSystem};
 use chrono::{DateTime, Utc};
 use protobuf::Message as ProtoMessage;
 
-use std::str::FromStr;
-
 use crate::remote::config::SystemCapabilities;
 use tokio::sync::oneshot::Sender;
-use uuid::Uuid;
 
 pub struct ClientMessageReceiver {
     actor_ref: LocalActorRef<RemoteClient>,
@@ -107,7 +104,7 @@ impl StreamReceiver for ClientMessageReceiver {
                 }
             }
             ClientEvent::Result(res) => {
-                match sys.pop_request(Uuid::from_str(&res.message_id).unwrap()) {
+                match pop_request(sys, &res.message_id) {
                     Some(res_tx) => {
                         let _ = res_tx.send(RemoteResponse::Ok(res.result));
                     }
@@ -123,9 +120,9 @@ impl StreamReceiver for ClientMessageReceiver {
             }
             ClientEvent::Err(e) => {
                 info!("received client error!");
-                match sys.pop_request(Uuid::from_str(&e.message_id).unwrap()) {
+                match pop_request(sys, &e.message_id) {
                     Some(res_tx) => {
-                        let _ = res_tx.send(RemoteResponse::Err(e.error.unwrap().into()));
+                        let _ = res_tx.send(RemoteResponse::Err(e.error.unwrap_or_default().into()));
                     }
                     None => {
                         //                                          :P
@@ -135,7 +132,7 @@ impl StreamReceiver for ClientMessageReceiver {
             }
             ClientEvent::Ping(_ping) => {}
             ClientEvent::Pong(pong) => {
-                match sys.pop_request(Uuid::from_str(&pong.message_id).unwrap()) {
+                match pop_request(sys, &pong.message_id) {
                     Some(res_tx) => {
                         let _ = res_tx.send(RemoteResponse::Ok(
                             PongEvent {
diff --git a/coerce/src/remote/net/mod.rs b/coerce/src/remote/net/mod.rs
index cf3459e..7198e73 100644
--- a/coerce/src/remote/net/mod.rs
+++ b/coerce/src/remote/net/mod.rs
@@ -1,3 +1,4 @@
+use crate::remote::actor::RemoteResponse;
 use crate::remote::system::RemoteActorSystem;
 
 use std::future::Future;
@@ -5,10 +6,13 @@ use std::io::Error;
 
 use bytes::BytesMut;
 use std::pin::Pin;
+use std::str::FromStr;
 use std::task::{Context, Poll};
 
 use futures::StreamExt;
+use tokio::sync::oneshot;
 use tokio_util::codec::{FramedRead, LengthDelimitedCodec};
+use uuid::Uuid;
 
 pub mod client;
 pub mod message;
@@ -79,6 +83,17 @@ where
     }
 }
 
+/// Takes the request a peer responds to, if there is one with that id: the id is whatever the
+/// peer has sent, it may not even be well-formed.
+pub(crate) fn pop_request(
+    system: &RemoteActorSystem,
+    message_id: &str,
+) -> Option<oneshot::Sender<RemoteResponse>> {
+    Uuid::from_str(message_id)
+        .ok()
+        .and_then(|message_id| system.pop_request(message_id))
+}
+
 pub async fn receive_loop<R: StreamReceiver, S: tokio::io::AsyncRead + Unpin>(
     mut system: RemoteActorSystem,
     read: FramedRead<S, LengthDelimitedCodec>,
diff --git a/coerce/src/remote/net/server/session/mod.rs b/coerce/src/remote/net/server/session/mod.rs
index 7bee7bd..50633dc 100644
--- a/coerce/src/remote/net/server/session/mod.rs
+++ b/coerce/src/remote/net/server/session/mod.rs
@@ -15,7 +15,7 @@ use crate::remote::net::proto::network::{
 };
 use crate::remote::net::server::session::store::{RemoteSessionStore, SessionClosed, SessionWrite};
 use crate::remote::net::server::RemoteServerConfigRef;
-use crate::remote::net::{receive_loop, StreamData, StreamReceiver};
+use crate::remote::net::{pop_request, receive_loop, StreamData, StreamReceiver};
 use crate::remote::stream::mediator::PublishRaw;
 use crate::remote::system::{NodeId, RemoteActorSystem};
 use crate::CARGO_PKG_VERSION;
@@ -26,14 +26,12 @@ use protobuf::{Message as ProtoMessage, MessageField};
 use bytes::Bytes;
 use std::io::Error;
 use std::net::SocketAddr;
-use std::str::FromStr;
 use std::sync::Arc;
 use tokio::io::{ReadHalf, WriteHalf};
 use tokio::net::TcpStream;
 use tokio::sync::oneshot;
 use tokio_util::codec::{FramedRead, FramedWrite, LengthDelimitedCodec};
 use tokio_util::sync::CancellationToken;
-use uuid::Uuid;
 use valuable::Valuable;
 
 pub mod store;
@@ -325,7 +323,7 @@ impl StreamReceiver for SessionMessageReceiver {
                     &find_actor.actor_id
                 );
                 tokio::spawn(session_handle_lookup(
-                    Uuid::from_str(&find_actor.message_id).unwrap(),
+                    find_actor.message_id,
                     find_actor.actor_id.into_actor_id(),
                     self.session_id,
                     sys.clone(),
@@ -402,7 +400,7 @@ impl StreamReceiver for SessionMessageReceiver {
             SessionEvent::Raft(_req) => {}
 
             SessionEvent::Result(res) => {
-                match sys.pop_request(Uuid::from_str(&res.message_id).unwrap()) {
+                match pop_request(sys, &res.message_id) {
                     Some(res_tx) => {
                         let _ = res_tx.send(RemoteResponse::Ok(res.result));
                     }
@@ -417,8 +415,8 @@ impl StreamReceiver for SessionMessageReceiver {
                 }
             }
             SessionEvent::Err(err) => {
-                let e = err.error.unwrap().into();
-                match sys.pop_request(Uuid::from_str(&err.message_id).unwrap()) {
+                let e = err.error.unwrap_or_default().into();
+                match pop_request(sys, &err.message_id) {
                     Some(res_tx) => {
                         let _ = res_tx.send(RemoteResponse::Err(e));
                     }
@@ -579,7 +577,7 @@ async fn session_handle_message(
     {
         Ok(buf) => {
             if msg.requires_response {
-                send_result(msg.message_id.parse().unwrap(), buf, session_id, session).await;
+                send_result(msg.message_id, buf, session_id, session).await;
             }
         }
         Err(e) => {
@@ -593,7 +591,7 @@ async fn session_handle_message(
 }
 
 async fn session_handle_lookup(
-    msg_id: Uuid,
+    msg_id: String,
     id: ActorId,
     session_id: i64,
     ctx: RemoteActorSystem,
@@ -640,7 +638,7 @@ async fn session_create_actor(
         .handle_create_actor(actor_id, msg.actor_type, msg.recipe)
         .await
     {
-        Ok(buf) => send_result(msg_id.parse().unwrap(), buf.to_vec(), session_id, session).await,
+        Ok(buf) => send_result(msg_id, buf.to_vec(), session_id, session).await,
         Err(e) => {
             error!("failed to create actor, error={:?}", e);
             send_err(msg_id, ActorRefErr::ActorUnavailable, session_id, session).await;
@@ -675,7 +673,7 @@ async fn send_err(
 }
 
 async fn send_result(
-    msg_id: Uuid,
+    message_id: String,
     res: Vec<u8>,
     session_id: i64,
     session: LocalActorRef<RemoteSession>,
@@ -683,7 +681,7 @@ async fn send_result(
     trace!("sending result");
 
     let event = ClientEvent::Result(ClientResult {
-        message_id: msg_id.to_string(),
+        message_id,
         result: res,
         ..ClientResult::default()
     });
-- 
2.43.0


From b01dfd97bb2795587680fc8ff74e4068051a62ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:04:38 +0000
Subject: [PATCH 28/57] fix: nothing is passed on after unsubscribing has
 returned

---
 coerce/src/remote/stream/pubsub.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/coerce/src/remote/stream/pubsub.rs b/coerce/src/remote/stream/pubsub.rs
index 5f36219..6e2d98c 100644
--- a/coerce/src/remote/stream/pubsub.rs
+++ b/coerce/src/remote/stream/pubsub.rs
@@ -11,6 +11,7 @@ use std::collections::HashMap;
 use std::sync::Arc;
 
 use crate::remote::system::RemoteActorSystem;
+use parking_lot::Mutex;
 use tokio::sync::broadcast;
 use tokio::task::JoinHandle;
 
@@ -192,11 +193,15 @@ impl<T: Topic + 'static> TopicEmitter for TopicSubscriberStore<T> {
 
 pub struct Subscription {
     task_handle: Option<JoinHandle<()>>,
+    active: Arc<Mutex<bool>>,
 }
 
 impl Subscription {
     pub fn unsubscribe(&mut self) {
         if let Some(handle) = self.task_handle.take() {
+            // aborting does not interrupt a task that is being polled right now, which could
+            // still pass on messages
+            *self.active.lock() = false;
             handle.abort();
         }
     }
@@ -216,16 +221,26 @@ impl Subscription {
     where
         A: Handler<Receive<T>>,
     {
+        let active = Arc::new(Mutex::new(true));
+        let task_active = active.clone();
         let task_handle = Some(tokio::spawn(async move {
             let receiver_ref = receiver_ref;
             let mut stream_receiver = topic_receiver;
             while let Ok(message) = stream_receiver.recv().await {
+                let active = task_active.lock();
+                if !*active {
+                    break;
+                }
+
                 receiver_ref
                     .notify(message)
                     .expect("unable to notify receiver ref");
             }
         }));
 
-        Subscription { task_handle }
+        Subscription {
+            task_handle,
+            active,
+        }
     }
 }
-- 
2.43.0


From ff5bd2aaee5287c3d63ac896eed510d1beb63925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:05:39 +0000
Subject: [PATCH 29/57] fix: the node chosen for a key depends on the current
 members only

---
 coerce/src/remote/cluster/node.rs | 45 ++++++++++++++++---------------
 1 file changed, 24 insertions(+), 21 deletions(-)

diff --git a/coerce/src/remote/cluster/node.rs b/coerce/src/remote/cluster/node.rs
index d240cbc..be83f03 100644
--- a/coerce/src/remote/cluster/node.rs
+++ b/coerce/src/remote/cluster/node.rs
@@ -97,23 +97,26 @@ pub struct NodeIdentity {
 
 impl RemoteNodeStore {
     pub fn new(nodes: Vec<RemoteNode>) -> RemoteNodeStore {
-        let mut table = HashRing::new();
-
         let nodes = nodes
             .into_iter()
-            .map(|n| {
-                table.add(n.clone());
-                (n.id, RemoteNodeState::new(n))
-            })
+            .map(|n| (n.id, RemoteNodeState::new(n)))
             .collect();
 
-        RemoteNodeStore { table, nodes }
+        let mut store = RemoteNodeStore {
+            table: HashRing::new(),
+            nodes,
+        };
+
+        store.rebuild_table();
+        store
     }
 
     pub fn update_nodes(&mut self, nodes: Vec<RemoteNodeState>) {
         for node in nodes {
             self.nodes.insert(node.id, node);
         }
+
+        self.rebuild_table();
     }
 
     pub fn node_terminated(&mut self, node_id: NodeId) {
@@ -136,10 +139,9 @@ impl RemoteNodeStore {
     }
 
     pub fn remove(&mut self, node_id: &NodeId) -> Option<RemoteNode> {
-        self.nodes.remove(&node_id).and_then(|node| {
-            let node = node.into();
-            self.table.remove(&node)
-        })
+        let node = self.nodes.remove(&node_id)?;
+        self.rebuild_table();
+        Some(node.into())
     }
 
     pub fn get_by_key(&mut self, key: impl Hash) -> Option<&RemoteNode> {
@@ -147,19 +149,20 @@ impl RemoteNodeStore {
     }
 
     pub fn add(&mut self, node: RemoteNode) {
+        self.nodes.insert(node.id, RemoteNodeState::new(node));
+        self.rebuild_table();
+    }
+
+    /// The table holds the current members and nothing else: no earlier addresses of nodes which
+    /// have been added again or updated
+    fn rebuild_table(&mut self) {
         let mut nodes = self.get_all();
-        nodes.push(RemoteNodeState::new(node));
-        nodes.sort_by(|a, b| a.id.partial_cmp(&b.id).unwrap());
+        nodes.sort_by_key(|node| node.id);
 
         self.table = HashRing::new();
-        self.nodes = nodes
-            .into_iter()
-            .map(|n| {
-                let node = n.clone();
-                self.table.add(n.into());
-                (node.id, node)
-            })
-            .collect();
+        for node in nodes {
+            self.table.add(node.into());
+        }
     }
 
     pub fn get_all(&self) -> Vec<RemoteNodeState> {
-- 
2.43.0


From c7e00ac43a9f770f979e184d1e3499c96f48d30c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:28:41 +0000
Subject: [PATCH 30/57] fix: a notification sent to a singleton does not stop
 its proxy

---
 coerce/src/singleton/mod.rs        |  2 +-
 coerce/src/singleton/proxy/send.rs | 13 ++++++++++---
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/coerce/src/singleton/mod.rs b/coerce/src/singleton/mod.rs
index b4c2054..109ffdb 100644
--- a/coerce/src/singleton/mod.rs
+++ b/coerce/src/singleton/mod.rs
@@ -94,7 +94,7 @@ impl<A: Actor, F: SingletonFactory<Actor = A>> Singleton<A, F> {
             return Err(e);
         }
 
-        rx.await.unwrap()
+        rx.await.unwrap_or(Err(ActorRefErr::ResultChannelClosed))
     }
 
     pub async fn notify<M: Message>(&self, message: M) -> Result<(), ActorRefErr>
diff --git a/coerce/src/singleton/proxy/send.rs b/coerce/src/singleton/proxy/send.rs
index 5ffe844..5277748 100644
--- a/coerce/src/singleton/proxy/send.rs
+++ b/coerce/src/singleton/proxy/send.rs
@@ -25,12 +25,19 @@ impl<M: Message> Deliver<M> {
         A: Handler<M>,
     {
         let message = self.message.take().unwrap();
-        let result_channel = self.result_channel.take().unwrap();
+        let result_channel = self.result_channel.take();
         tokio::spawn(async move {
             debug!(msg_type = M::type_name(), "delivering message to singleton");
 
-            let res = actor.send(message).await;
-            result_channel.send(res)
+            match result_channel {
+                Some(result_channel) => {
+                    let res = actor.send(message).await;
+                    let _ = result_channel.send(res);
+                }
+                None => {
+                    let _ = actor.notify(message).await;
+                }
+            }
         });
     }
 }
-- 
2.43.0


From ba1d2c05d0df38c49dd9b2487231746a2e937ba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:37:48 +0000
Subject: [PATCH 31/57] fix: a singleton built after its node became a member
 of the cluster is started

---
 coerce/src/remote/heartbeat/mod.rs  |  41 ++++++++-
 coerce/src/singleton/manager/mod.rs | 125 +++++++++++++++++-----------
 2 files changed, 118 insertions(+), 48 deletions(-)

diff --git a/coerce/src/remote/heartbeat/mod.rs b/coerce/src/remote/heartbeat/mod.rs
index bc46530..9ed46e5 100644
--- a/coerce/src/remote/heartbeat/mod.rs
+++ b/coerce/src/remote/heartbeat/mod.rs
@@ -82,6 +82,13 @@ impl Heartbeat {
         let _ = system.heartbeat().notify(GetHealth(tx));
         rx.await.unwrap()
     }
+
+    /// Returns the current leader and nodes if `MemberUp` has already been published by this node.
+    pub async fn member_up(system: &RemoteActorSystem) -> Option<ClusterMemberUp> {
+        let (tx, rx) = oneshot::channel();
+        let _ = system.heartbeat().notify(GetMemberUp(tx));
+        rx.await.ok().flatten()
+    }
 }
 
 #[async_trait]
@@ -167,8 +174,14 @@ impl Message for NodePing {
 
 pub struct OnLeaderChanged(pub Sender<NodeId>);
 
+struct GetMemberUp(Sender<Option<ClusterMemberUp>>);
+
 impl Actor for Heartbeat {}
 
+impl Message for GetMemberUp {
+    type Result = ();
+}
+
 impl Message for OnLeaderChanged {
     type Result = ();
 }
@@ -200,6 +213,28 @@ impl Handler<OnLeaderChanged> for Heartbeat {
     }
 }
 
+#[async_trait]
+impl Handler<GetMemberUp> for Heartbeat {
+    async fn handle(&mut self, message: GetMemberUp, _ctx: &mut ActorContext) {
+        let mut member_up = None;
+        if let (true, Some(system)) = (self.cluster_member_up, &self.system) {
+            if let Some(leader_id) = system.current_leader() {
+                let nodes = system.get_nodes().await;
+                member_up = Some(ClusterMemberUp {
+                    leader_id,
+                    nodes: nodes
+                        .into_iter()
+                        .filter(|n| n.status != NodeStatus::Terminated)
+                        .map(|n| Arc::new(n.into()))
+                        .collect(),
+                });
+            }
+        }
+
+        let _ = message.0.send(member_up);
+    }
+}
+
 #[async_trait]
 impl Handler<HeartbeatTick> for Heartbeat {
     async fn handle(&mut self, _msg: HeartbeatTick, _ctx: &mut ActorContext) {
@@ -296,7 +331,11 @@ impl Handler<HeartbeatTick> for Heartbeat {
                 if min_cluster_size_reached {
                     self.on_min_cluster_size_reached(
                         leader_id,
-                        updates.into_iter().map(|n| Arc::new(n.into())).collect(),
+                        updates
+                            .into_iter()
+                            .filter(|n| n.status != NodeStatus::Terminated)
+                            .map(|n| Arc::new(n.into()))
+                            .collect(),
                     );
                 }
             }
diff --git a/coerce/src/singleton/manager/mod.rs b/coerce/src/singleton/manager/mod.rs
index 74ce520..79a3cf2 100644
--- a/coerce/src/singleton/manager/mod.rs
+++ b/coerce/src/singleton/manager/mod.rs
@@ -13,6 +13,7 @@ use crate::actor::message::{
 };
 use crate::actor::{Actor, ActorFactory, ActorId, ActorRef, IntoActor, LocalActorRef, ToActorId};
 use crate::remote::cluster::node::NodeSelector;
+use crate::remote::heartbeat::Heartbeat;
 use crate::remote::stream::pubsub::{PubSub, Receive, Subscription};
 use crate::remote::stream::system::{ClusterEvent, ClusterMemberUp, SystemEvent, SystemTopic};
 use crate::remote::system::{NodeId, RemoteActorSystem};
@@ -24,7 +25,6 @@ use crate::singleton::{proto, proxy};
 use std::collections::hash_map::Entry;
 use std::collections::{HashMap, HashSet};
 use std::fmt::{Debug, Formatter};
-use std::mem;
 use std::time::Duration;
 
 pub struct Manager<F: SingletonFactory> {
@@ -245,6 +245,15 @@ impl<F: SingletonFactory> Actor for Manager<F> {
         let sys = ctx.system().remote();
         self.current_leader_node = sys.current_leader();
 
+        // this node may have become a member of the cluster before the subscription
+        let sys = self.sys.clone();
+        let self_ref = self.actor_ref(ctx);
+        tokio::spawn(async move {
+            if let Some(member_up) = Heartbeat::member_up(&sys).await {
+                let _ = self_ref.notify(AlreadyUp(member_up));
+            }
+        });
+
         debug!(
             node_id = self.node_id,
             singleton = F::Actor::type_name(),
@@ -276,58 +285,80 @@ impl<F: SingletonFactory> Actor for Manager<F> {
     }
 }
 
+struct AlreadyUp(ClusterMemberUp);
+
+impl Message for AlreadyUp {
+    type Result = ();
+}
+
+#[async_trait]
+impl<F: SingletonFactory> Handler<AlreadyUp> for Manager<F> {
+    async fn handle(&mut self, message: AlreadyUp, ctx: &mut ActorContext) {
+        self.on_member_up(&message.0, ctx).await;
+    }
+}
+
+impl<F: SingletonFactory> Manager<F> {
+    async fn on_member_up(&mut self, member_up: &ClusterMemberUp, ctx: &ActorContext) {
+        let ClusterMemberUp {
+            leader_id: leader,
+            nodes,
+        } = member_up;
+
+        debug!(
+            leader = leader,
+            nodes_len = nodes.len(),
+            "manager received `MemberUp`"
+        );
+
+        let acknowledgement_pending = match &mut self.state {
+            State::Joining {
+                acknowledgement_pending,
+            } => acknowledgement_pending.take(),
+            _ => return,
+        };
+
+        for node in nodes {
+            if node.id == self.node_id || !self.selector.includes(node.as_ref()) {
+                continue;
+            }
+
+            self.managers.insert(
+                node.id,
+                RemoteActorRef::new(
+                    format!("{}-{}", &self.manager_actor_id, node.id).to_actor_id(),
+                    node.id,
+                    self.sys.clone(),
+                )
+                .into(),
+            );
+        }
+
+        self.state = State::Idle;
+        if let Some(node_id) = acknowledgement_pending {
+            self.notify_manager(
+                node_id,
+                LeaseAck {
+                    source_node_id: self.node_id,
+                },
+                ctx,
+            )
+            .await;
+        }
+
+        if leader == &self.node_id {
+            self.begin_starting(ctx).await;
+        }
+    }
+}
+
 #[async_trait]
 impl<F: SingletonFactory> Handler<Receive<SystemTopic>> for Manager<F> {
     async fn handle(&mut self, message: Receive<SystemTopic>, ctx: &mut ActorContext) {
         let sys = ctx.system().remote();
         match message.0.as_ref() {
             SystemEvent::Cluster(e) => match e {
-                ClusterEvent::MemberUp(ClusterMemberUp {
-                    leader_id: leader,
-                    nodes,
-                }) => {
-                    debug!(
-                        leader = leader,
-                        nodes_len = nodes.len(),
-                        "manager received `MemberUp`"
-                    );
-
-                    for node in nodes {
-                        if node.id == self.node_id || !self.selector.includes(node.as_ref()) {
-                            continue;
-                        }
-
-                        self.managers.insert(
-                            node.id,
-                            RemoteActorRef::new(
-                                format!("{}-{}", &self.manager_actor_id, node.id).to_actor_id(),
-                                node.id,
-                                sys.clone(),
-                            )
-                            .into(),
-                        );
-                    }
-
-                    match mem::replace(&mut self.state, State::Idle) {
-                        State::Joining {
-                            acknowledgement_pending: Some(node_id),
-                        } => {
-                            self.notify_manager(
-                                node_id,
-                                LeaseAck {
-                                    source_node_id: self.node_id,
-                                },
-                                ctx,
-                            )
-                            .await;
-                        }
-                        _ => {}
-                    }
-
-                    if leader == &self.node_id {
-                        self.begin_starting(ctx).await;
-                    }
-                }
+                ClusterEvent::MemberUp(member_up) => self.on_member_up(member_up, ctx).await,
 
                 ClusterEvent::LeaderChanged(leader) => {
                     if !self.state.is_joining() {
-- 
2.43.0


From a0aefae18bf7883bf5a7a16e2e367d3d5e7ee305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:39:06 +0000
Subject: [PATCH 32/57] fix: a singleton that another node takes over is
 stopped first, then handed over

---
 coerce/src/singleton/manager/mod.rs | 56 ++++++++++++++++-------------
 coerce/src/singleton/proxy/mod.rs   | 25 ++++++++++---
 2 files changed, 51 insertions(+), 30 deletions(-)

diff --git a/coerce/src/singleton/manager/mod.rs b/coerce/src/singleton/manager/mod.rs
index 79a3cf2..262e508 100644
--- a/coerce/src/singleton/manager/mod.rs
+++ b/coerce/src/singleton/manager/mod.rs
@@ -211,7 +211,18 @@ impl<F: SingletonFactory> Manager<F> {
             None => return,
         };
 
-        let _ = actor_ref.notify_stop();
+        self.state = State::Stopping {
+            actor_ref: actor_ref.clone(),
+            lease_requested_by: node_id,
+        };
+
+        let _ = self.proxy.notify(proxy::SingletonStopping::new(None));
+        let self_ref = self.actor_ref(ctx);
+        tokio::spawn(async move {
+            let _ = actor_ref.stop().await;
+            let _ = self_ref.notify(ActorStopped);
+        });
+
         self.notify_managers(
             SingletonStopped {
                 source_node_id: self.node_id,
@@ -219,11 +230,6 @@ impl<F: SingletonFactory> Manager<F> {
             ctx,
         )
         .await;
-
-        self.state = State::Stopping {
-            actor_ref,
-            lease_requested_by: node_id,
-        };
     }
 
     pub async fn on_leader_changed(&mut self, new_leader_id: NodeId, ctx: &ActorContext) {
@@ -260,27 +266,25 @@ impl<F: SingletonFactory> Actor for Manager<F> {
             "manager started"
         )
     }
+}
 
-    async fn on_child_stopped(&mut self, id: &ActorId, ctx: &mut ActorContext) {
-        if id != &self.singleton_actor_id {
-            return;
-        }
-
-        match &self.state {
-            State::Running { .. } => {
-                if !ctx.system().is_terminated() {
-                    // TODO: restart actor
-                }
-            }
+struct ActorStopped;
 
-            State::Stopping {
-                lease_requested_by, ..
-            } => {
-                self.grant_lease(*lease_requested_by, ctx).await;
-                self.state = State::Idle;
-            }
+impl Message for ActorStopped {
+    type Result = ();
+}
 
-            _ => {}
+#[async_trait]
+impl<F: SingletonFactory> Handler<ActorStopped> for Manager<F> {
+    async fn handle(&mut self, _message: ActorStopped, ctx: &mut ActorContext) {
+        if let State::Stopping {
+            lease_requested_by, ..
+        } = &self.state
+        {
+            let lease_requested_by = *lease_requested_by;
+
+            self.state = State::Idle;
+            self.grant_lease(lease_requested_by, ctx).await;
         }
     }
 }
@@ -461,7 +465,9 @@ impl<F: SingletonFactory> Handler<SingletonStopped> for Manager<F> {
             "received stopped notification, notifying proxy"
         );
 
-        let _ = self.proxy.notify(proxy::SingletonStopping);
+        let _ = self
+            .proxy
+            .notify(proxy::SingletonStopping::new(Some(message.source_node_id)));
     }
 }
 
diff --git a/coerce/src/singleton/proxy/mod.rs b/coerce/src/singleton/proxy/mod.rs
index 2eb3892..0c32f08 100644
--- a/coerce/src/singleton/proxy/mod.rs
+++ b/coerce/src/singleton/proxy/mod.rs
@@ -1,6 +1,7 @@
 use crate::actor::context::ActorContext;
 use crate::actor::message::{Handler, Message};
 use crate::actor::{Actor, ActorRef, ToActorId};
+use crate::remote::system::NodeId;
 use crate::singleton::proxy::send::Buffered;
 use std::collections::VecDeque;
 
@@ -49,7 +50,16 @@ impl<A: Actor> SingletonStarted<A> {
     }
 }
 
-pub struct SingletonStopping;
+pub struct SingletonStopping {
+    /// The node of the stopping singleton, `None` if it is the current node
+    node_id: Option<NodeId>,
+}
+
+impl SingletonStopping {
+    pub fn new(node_id: Option<NodeId>) -> Self {
+        Self { node_id }
+    }
+}
 
 impl<A: Actor> Message for SingletonStarted<A> {
     type Result = ();
@@ -91,10 +101,15 @@ impl<A: Actor> Handler<SingletonStarted<A>> for Proxy<A> {
 
 #[async_trait]
 impl<A: Actor> Handler<SingletonStopping> for Proxy<A> {
-    async fn handle(&mut self, _: SingletonStopping, ctx: &mut ActorContext) {
-        debug!("singleton actor stopped, buffering messages");
-
-        if self.state.is_active() {
+    async fn handle(&mut self, message: SingletonStopping, ctx: &mut ActorContext) {
+        let is_stopping = match &self.state {
+            // the singleton may already have been started on another node
+            ProxyState::Active { actor_ref } => actor_ref.node_id() == message.node_id,
+            ProxyState::Buffered { .. } => false,
+        };
+
+        if is_stopping {
+            debug!("singleton actor stopped, buffering messages");
             self.state = ProxyState::Buffered {
                 request_queue: VecDeque::new(),
             }
-- 
2.43.0


From 327077109b6823b45e8e50b6ab72803992689db7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:49:23 +0000
Subject: [PATCH 33/57] fix: a singleton starts although lease requests are
 lost or made by two nodes

---
 coerce/src/singleton/manager/lease.rs | 103 +++++++++++++++++++++-----
 coerce/src/singleton/manager/mod.rs   |  33 +++++++--
 coerce/src/singleton/manager/start.rs |   4 +
 3 files changed, 114 insertions(+), 26 deletions(-)

diff --git a/coerce/src/singleton/manager/lease.rs b/coerce/src/singleton/manager/lease.rs
index f2490a7..15584fa 100644
--- a/coerce/src/singleton/manager/lease.rs
+++ b/coerce/src/singleton/manager/lease.rs
@@ -6,8 +6,9 @@ use crate::actor::Actor;
 use crate::remote::system::{NodeId, RemoteActorSystem};
 use crate::singleton::factory::SingletonFactory;
 use crate::singleton::manager::status::SingletonState;
-use crate::singleton::manager::{Manager, State};
+use crate::singleton::manager::{Manager, SingletonStarted, State};
 use crate::singleton::proto::singleton as proto;
+use std::time::Duration;
 
 #[derive(Clone)]
 pub struct RequestLease {
@@ -78,21 +79,52 @@ pub struct LeaseNack {
 #[async_trait]
 impl<F: SingletonFactory> Handler<RequestLease> for Manager<F> {
     async fn handle(&mut self, message: RequestLease, ctx: &mut ActorContext) {
-        if !self.state.is_running() {
-            debug!(
-                source_node_id = message.source_node_id,
-                "received RequestLease"
-            );
-
-            self.grant_lease(message.source_node_id, ctx).await;
-        } else {
-            debug!(
-                node_id = self.node_id,
-                singleton = F::Actor::type_name(),
-                "singleton already running, stopping",
-            );
-
-            self.begin_stopping(message.source_node_id, ctx).await;
+        let source_node_id = message.source_node_id;
+        match &self.state {
+            State::Joining { .. } | State::Idle => {
+                debug!(source_node_id = source_node_id, "received RequestLease");
+
+                self.grant_lease(source_node_id, ctx).await;
+            }
+
+            State::Running { .. } => {
+                debug!(
+                    node_id = self.node_id,
+                    singleton = F::Actor::type_name(),
+                    "singleton already running, stopping",
+                );
+
+                self.begin_stopping(source_node_id, ctx).await;
+            }
+
+            State::Starting { .. } => {
+                // two nodes want to start the singleton, the current leader is the one to do it
+                if !self.actor_starting && self.sys.current_leader() == Some(source_node_id) {
+                    self.state = State::Idle;
+                    self.grant_lease(source_node_id, ctx).await;
+                }
+            }
+
+            State::Stopping { .. } => {
+                // the lease will be requested again
+            }
+        }
+    }
+}
+
+const RETRY_LEASE_DELAY: Duration = Duration::from_millis(500);
+
+struct RetryLease;
+
+impl Message for RetryLease {
+    type Result = ();
+}
+
+#[async_trait]
+impl<F: SingletonFactory> Handler<RetryLease> for Manager<F> {
+    async fn handle(&mut self, _message: RetryLease, ctx: &mut ActorContext) {
+        if matches!(&self.state, State::Starting { .. }) && !self.actor_starting {
+            self.request_lease(ctx).await;
         }
     }
 }
@@ -107,7 +139,7 @@ impl<F: SingletonFactory> Handler<LeaseAck> for Manager<F> {
 impl<F: SingletonFactory> Manager<F> {
     pub async fn request_lease(&mut self, ctx: &ActorContext) {
         if self.managers.len() == 0 {
-            self.on_all_managers_acknowledged(ctx).await;
+            self.start_if_acknowledged(ctx).await;
             return;
         }
 
@@ -122,6 +154,27 @@ impl<F: SingletonFactory> Manager<F> {
             "requesting lease"
         );
         self.notify_managers(request, ctx).await;
+
+        // the manager of another node may not have been started yet
+        let _ = self
+            .actor_ref(ctx)
+            .scheduled_notify(RetryLease, RETRY_LEASE_DELAY);
+    }
+
+    fn is_lease_acknowledged(&self) -> bool {
+        match &self.state {
+            State::Starting { acknowledged_nodes } => self
+                .managers
+                .keys()
+                .all(|node_id| acknowledged_nodes.contains(node_id)),
+            _ => false,
+        }
+    }
+
+    pub async fn start_if_acknowledged(&mut self, ctx: &ActorContext) {
+        if !self.actor_starting && self.is_lease_acknowledged() {
+            self.on_all_managers_acknowledged(ctx).await;
+        }
     }
 
     pub async fn grant_lease(&mut self, node_id: NodeId, ctx: &ActorContext) {
@@ -163,9 +216,19 @@ impl<F: SingletonFactory> Manager<F> {
                 );
 
                 // TODO: Can we do it with a quorum rather than *all managers*?
-                if acknowledged_nodes.len() == self.managers.len() {
-                    self.on_all_managers_acknowledged(ctx).await;
-                }
+                self.start_if_acknowledged(ctx).await;
+            }
+
+            State::Running { .. } => {
+                // the other manager may not have been started when the singleton was
+                self.notify_manager(
+                    node_id,
+                    SingletonStarted {
+                        source_node_id: self.node_id,
+                    },
+                    ctx,
+                )
+                .await;
             }
 
             state => {
diff --git a/coerce/src/singleton/manager/mod.rs b/coerce/src/singleton/manager/mod.rs
index 262e508..05b894c 100644
--- a/coerce/src/singleton/manager/mod.rs
+++ b/coerce/src/singleton/manager/mod.rs
@@ -40,6 +40,7 @@ pub struct Manager<F: SingletonFactory> {
     sys: RemoteActorSystem,
     proxy: LocalActorRef<Proxy<F::Actor>>,
     cluster_up: bool,
+    actor_starting: bool,
 }
 
 impl<F: SingletonFactory> Manager<F> {
@@ -64,6 +65,7 @@ impl<F: SingletonFactory> Manager<F> {
             sys,
             proxy,
             cluster_up: false,
+            actor_starting: false,
         }
     }
 }
@@ -233,7 +235,7 @@ impl<F: SingletonFactory> Manager<F> {
     }
 
     pub async fn on_leader_changed(&mut self, new_leader_id: NodeId, ctx: &ActorContext) {
-        if new_leader_id == self.node_id && !self.state.is_running() {
+        if new_leader_id == self.node_id && matches!(self.state, State::Idle) {
             self.begin_starting(ctx).await;
         }
     }
@@ -284,7 +286,11 @@ impl<F: SingletonFactory> Handler<ActorStopped> for Manager<F> {
             let lease_requested_by = *lease_requested_by;
 
             self.state = State::Idle;
-            self.grant_lease(lease_requested_by, ctx).await;
+            if self.managers.contains_key(&lease_requested_by) {
+                self.grant_lease(lease_requested_by, ctx).await;
+            } else if self.sys.current_leader() == Some(self.node_id) {
+                self.begin_starting(ctx).await;
+            }
         }
     }
 }
@@ -352,6 +358,15 @@ impl<F: SingletonFactory> Manager<F> {
 
         if leader == &self.node_id {
             self.begin_starting(ctx).await;
+        } else {
+            // the other managers may have been started earlier than this one
+            self.notify_managers(
+                LeaseAck {
+                    source_node_id: self.node_id,
+                },
+                ctx,
+            )
+            .await;
         }
     }
 }
@@ -411,14 +426,20 @@ impl<F: SingletonFactory> Handler<Receive<SystemTopic>> for Manager<F> {
                     self.managers.remove(&node.id);
 
                     debug!(node_id = node.id, "node removed");
-                    if !self.state.is_joining() {
-                        if let State::Starting { acknowledged_nodes } = &mut self.state {
+                    match &mut self.state {
+                        State::Starting { acknowledged_nodes } => {
                             acknowledged_nodes.remove(&node.id);
+                            self.start_if_acknowledged(ctx).await;
+                        }
 
-                            if acknowledged_nodes.len() == self.managers.len() {
-                                self.on_all_managers_acknowledged(ctx).await;
+                        State::Idle => {
+                            // the removed node may have been the one running the singleton
+                            if sys.current_leader() == Some(self.node_id) {
+                                self.begin_starting(ctx).await;
                             }
                         }
+
+                        _ => {}
                     }
                 }
 
diff --git a/coerce/src/singleton/manager/start.rs b/coerce/src/singleton/manager/start.rs
index 9fd654a..c9b1f57 100644
--- a/coerce/src/singleton/manager/start.rs
+++ b/coerce/src/singleton/manager/start.rs
@@ -16,6 +16,8 @@ impl<A: Actor> Message for ActorStartResult<A> {
 
 impl<F: SingletonFactory> Manager<F> {
     pub async fn start_actor(&mut self, ctx: &ActorContext) {
+        self.actor_starting = true;
+
         let state = self.factory.create();
         let sys = self.sys.actor_system().clone();
         let manager_ref = self.actor_ref(ctx);
@@ -34,6 +36,8 @@ impl<F: SingletonFactory> Manager<F> {
 #[async_trait]
 impl<F: SingletonFactory> Handler<ActorStartResult<F::Actor>> for Manager<F> {
     async fn handle(&mut self, message: ActorStartResult<F::Actor>, ctx: &mut ActorContext) {
+        self.actor_starting = false;
+
         match message {
             ActorStartResult::Started(actor_ref) => {
                 match &self.state {
-- 
2.43.0


From 6c89b6932af93101f33dce3055882e65532af48a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:50:01 +0000
Subject: [PATCH 34/57] fix: requests under way to a node are answered with an
 error when the connection to it is lost

---
 coerce/src/remote/actor/mod.rs             |  8 ++++++
 coerce/src/remote/actor/registry.rs        |  8 ++++--
 coerce/src/remote/actor_ref.rs             |  2 +-
 coerce/src/remote/cluster/discovery/mod.rs |  4 +++
 coerce/src/remote/net/client/connect.rs    |  4 +++
 coerce/src/remote/system/rpc.rs            | 32 ++++++++++++++++++++--
 6 files changed, 53 insertions(+), 5 deletions(-)

diff --git a/coerce/src/remote/actor/mod.rs b/coerce/src/remote/actor/mod.rs
index 1e113c6..59f4e75 100644
--- a/coerce/src/remote/actor/mod.rs
+++ b/coerce/src/remote/actor/mod.rs
@@ -1,6 +1,7 @@
 use crate::actor::ActorRefErr;
 
 use crate::remote::handler::{ActorHandler, ActorMessageHandler};
+use crate::remote::system::NodeId;
 
 use std::collections::HashMap;
 use uuid::Uuid;
@@ -26,12 +27,19 @@ impl RemoteHandler {
         self.requests.remove(&message_id)
     }
 
+    /// Drops every request sent to the node, their callers no longer wait for a response
+    pub fn drop_requests(&mut self, node_id: NodeId) {
+        self.requests
+            .retain(|_id, request| request.node_id != Some(node_id));
+    }
+
     pub fn inflight_request_count(&self) -> usize {
         self.requests.len()
     }
 }
 
 pub struct RemoteRequest {
+    pub node_id: Option<NodeId>,
     pub res_tx: tokio::sync::oneshot::Sender<RemoteResponse>,
 }
 
diff --git a/coerce/src/remote/actor/registry.rs b/coerce/src/remote/actor/registry.rs
index bf8538c..d86ccff 100644
--- a/coerce/src/remote/actor/registry.rs
+++ b/coerce/src/remote/actor/registry.rs
@@ -149,11 +149,11 @@ impl Handler<GetActorNode> for RemoteRegistry {
                 let (res_tx, res_rx) = tokio::sync::oneshot::channel();
 
                 trace!("remote request={}", message_id);
-                system.push_request(message_id, res_tx);
+                system.push_node_request(message_id, assigned_registry_node, res_tx);
 
                 trace!("sending actor lookup request to={}", assigned_registry_node);
                 let trace_id = String::new(); //extract_trace_identifier(&span);
-                system
+                let sent = system
                     .notify_node(
                         assigned_registry_node,
                         SessionEvent::FindActor(FindActorEvent {
@@ -165,6 +165,10 @@ impl Handler<GetActorNode> for RemoteRegistry {
                     )
                     .await;
 
+                if !sent {
+                    let _ = system.pop_request(message_id);
+                }
+
                 trace!("lookup sent, waiting for result");
                 match res_rx.await {
                     Ok(RemoteResponse::Ok(res)) => {
diff --git a/coerce/src/remote/actor_ref.rs b/coerce/src/remote/actor_ref.rs
index 951c503..4bb6e32 100644
--- a/coerce/src/remote/actor_ref.rs
+++ b/coerce/src/remote/actor_ref.rs
@@ -80,7 +80,7 @@ where
         let event = self.create_request(msg, String::new(), id, true)?;
 
         let (res_tx, res_rx) = oneshot::channel();
-        self.system.push_request(id, res_tx);
+        self.system.push_node_request(id, self.node_id, res_tx);
 
         // TODO: we could make this fail fast if the node is known to be terminated?
         if !self.system.notify_node(self.node_id, event).await {
diff --git a/coerce/src/remote/cluster/discovery/mod.rs b/coerce/src/remote/cluster/discovery/mod.rs
index 6642fef..7645d5e 100644
--- a/coerce/src/remote/cluster/discovery/mod.rs
+++ b/coerce/src/remote/cluster/discovery/mod.rs
@@ -177,6 +177,10 @@ impl Handler<Forget> for NodeDiscovery {
                 &identity.node.addr, identity.node.id
             );
 
+            if let Some(system) = self.remote_system.as_ref() {
+                system.drop_node_requests(identity.node.id);
+            }
+
             let node = self.discovered_nodes_by_id.remove(&identity.node.id);
             if let Some(node) = node {
                 if let Some(system) = self.remote_system.as_ref() {
diff --git a/coerce/src/remote/net/client/connect.rs b/coerce/src/remote/net/client/connect.rs
index a694e4f..bb7e79b 100644
--- a/coerce/src/remote/net/client/connect.rs
+++ b/coerce/src/remote/net/client/connect.rs
@@ -337,6 +337,10 @@ impl Handler<Disconnected> for RemoteClient {
                 })
                 .await;
 
+            if let Some(node_id) = self.node_id {
+                ctx.system().remote().drop_node_requests(node_id);
+            }
+
             let _ = ctx.boxed_actor_ref().notify_stop();
         }
     }
diff --git a/coerce/src/remote/system/rpc.rs b/coerce/src/remote/system/rpc.rs
index 785f831..c7a2f93 100644
--- a/coerce/src/remote/system/rpc.rs
+++ b/coerce/src/remote/system/rpc.rs
@@ -94,7 +94,7 @@ impl RemoteActorSystem {
             "message_id={}, created channel, storing request",
             &message_id
         );
-        self.push_request(message_id, res_tx);
+        self.push_node_request(message_id, node_id, res_tx);
 
         trace!(
             "message_id={}, emitting event to node_id={}",
@@ -195,7 +195,35 @@ impl RemoteActorSystem {
 
     pub fn push_request(&self, id: Uuid, res_tx: oneshot::Sender<RemoteResponse>) {
         let mut handler = self.inner.handler_ref.lock();
-        handler.push_request(id, RemoteRequest { res_tx });
+        handler.push_request(
+            id,
+            RemoteRequest {
+                node_id: None,
+                res_tx,
+            },
+        );
+    }
+
+    /// Stores a request that can no longer be answered once the connection to the node is lost
+    pub fn push_node_request(
+        &self,
+        id: Uuid,
+        node_id: NodeId,
+        res_tx: oneshot::Sender<RemoteResponse>,
+    ) {
+        let mut handler = self.inner.handler_ref.lock();
+        handler.push_request(
+            id,
+            RemoteRequest {
+                node_id: Some(node_id),
+                res_tx,
+            },
+        );
+    }
+
+    pub fn drop_node_requests(&self, node_id: NodeId) {
+        let mut handler = self.inner.handler_ref.lock();
+        handler.drop_requests(node_id);
     }
 
     pub fn pop_request(&self, id: Uuid) -> Option<oneshot::Sender<RemoteResponse>> {
-- 
2.43.0


From 1d7d419589052ce54126aafe5ccaeccbdfb01182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:50:47 +0000
Subject: [PATCH 35/57] fix: messages sent to a singleton after its node left
 are kept for the next instance

---
 coerce/src/singleton/manager/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/coerce/src/singleton/manager/mod.rs b/coerce/src/singleton/manager/mod.rs
index 05b894c..0f9e2e7 100644
--- a/coerce/src/singleton/manager/mod.rs
+++ b/coerce/src/singleton/manager/mod.rs
@@ -426,6 +426,10 @@ impl<F: SingletonFactory> Handler<Receive<SystemTopic>> for Manager<F> {
                     self.managers.remove(&node.id);
 
                     debug!(node_id = node.id, "node removed");
+                    let _ = self
+                        .proxy
+                        .notify(proxy::SingletonStopping::new(Some(node.id)));
+
                     match &mut self.state {
                         State::Starting { acknowledged_nodes } => {
                             acknowledged_nodes.remove(&node.id);
-- 
2.43.0


From 945f0414d8b15129ac2a8676f73f4d7966d70e32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:38 +0000
Subject: [PATCH 36/57] fix: a request to a node the connection to which is
 lost fails at once

---
 coerce/src/remote/actor/mod.rs             | 17 +++++++++++++++--
 coerce/src/remote/cluster/discovery/mod.rs |  2 +-
 coerce/src/remote/net/client/connect.rs    |  6 +++++-
 coerce/src/remote/system/rpc.rs            |  9 +++++++--
 4 files changed, 28 insertions(+), 6 deletions(-)

diff --git a/coerce/src/remote/actor/mod.rs b/coerce/src/remote/actor/mod.rs
index 59f4e75..40107f7 100644
--- a/coerce/src/remote/actor/mod.rs
+++ b/coerce/src/remote/actor/mod.rs
@@ -3,7 +3,7 @@ use crate::actor::ActorRefErr;
 use crate::remote::handler::{ActorHandler, ActorMessageHandler};
 use crate::remote::system::NodeId;
 
-use std::collections::HashMap;
+use std::collections::{HashMap, HashSet};
 use uuid::Uuid;
 
 pub mod clients;
@@ -16,10 +16,17 @@ pub(crate) type BoxedMessageHandler = Box<dyn ActorMessageHandler + Send + Sync>
 
 pub struct RemoteHandler {
     requests: HashMap<Uuid, RemoteRequest>,
+    lost_nodes: HashSet<NodeId>,
 }
 
 impl RemoteHandler {
     pub fn push_request(&mut self, message_id: Uuid, request: RemoteRequest) {
+        if let Some(node_id) = &request.node_id {
+            if self.lost_nodes.contains(node_id) {
+                return;
+            }
+        }
+
         self.requests.insert(message_id, request);
     }
 
@@ -27,8 +34,13 @@ impl RemoteHandler {
         self.requests.remove(&message_id)
     }
 
+    pub fn node_connected(&mut self, node_id: NodeId) {
+        self.lost_nodes.remove(&node_id);
+    }
+
     /// Drops every request sent to the node, their callers no longer wait for a response
-    pub fn drop_requests(&mut self, node_id: NodeId) {
+    pub fn node_lost(&mut self, node_id: NodeId) {
+        self.lost_nodes.insert(node_id);
         self.requests
             .retain(|_id, request| request.node_id != Some(node_id));
     }
@@ -76,6 +88,7 @@ impl RemoteHandler {
     pub fn new() -> RemoteHandler {
         RemoteHandler {
             requests: HashMap::new(),
+            lost_nodes: HashSet::new(),
         }
     }
 }
diff --git a/coerce/src/remote/cluster/discovery/mod.rs b/coerce/src/remote/cluster/discovery/mod.rs
index 7645d5e..f555dd3 100644
--- a/coerce/src/remote/cluster/discovery/mod.rs
+++ b/coerce/src/remote/cluster/discovery/mod.rs
@@ -178,7 +178,7 @@ impl Handler<Forget> for NodeDiscovery {
             );
 
             if let Some(system) = self.remote_system.as_ref() {
-                system.drop_node_requests(identity.node.id);
+                system.node_lost(identity.node.id);
             }
 
             let node = self.discovered_nodes_by_id.remove(&identity.node.id);
diff --git a/coerce/src/remote/net/client/connect.rs b/coerce/src/remote/net/client/connect.rs
index bb7e79b..6a35e0d 100644
--- a/coerce/src/remote/net/client/connect.rs
+++ b/coerce/src/remote/net/client/connect.rs
@@ -132,6 +132,10 @@ impl Handler<Connect> for RemoteClient {
         }
 
         if let Some(connection_state) = self.connect(message, ctx).await {
+            ctx.system()
+                .remote()
+                .node_connected(connection_state.identity.node.id);
+
             let client_actor_ref = self.actor_ref(ctx);
             let _ = ctx
                 .system()
@@ -338,7 +342,7 @@ impl Handler<Disconnected> for RemoteClient {
                 .await;
 
             if let Some(node_id) = self.node_id {
-                ctx.system().remote().drop_node_requests(node_id);
+                ctx.system().remote().node_lost(node_id);
             }
 
             let _ = ctx.boxed_actor_ref().notify_stop();
diff --git a/coerce/src/remote/system/rpc.rs b/coerce/src/remote/system/rpc.rs
index c7a2f93..680ca8f 100644
--- a/coerce/src/remote/system/rpc.rs
+++ b/coerce/src/remote/system/rpc.rs
@@ -221,9 +221,14 @@ impl RemoteActorSystem {
         );
     }
 
-    pub fn drop_node_requests(&self, node_id: NodeId) {
+    pub fn node_connected(&self, node_id: NodeId) {
         let mut handler = self.inner.handler_ref.lock();
-        handler.drop_requests(node_id);
+        handler.node_connected(node_id);
+    }
+
+    pub fn node_lost(&self, node_id: NodeId) {
+        let mut handler = self.inner.handler_ref.lock();
+        handler.node_lost(node_id);
     }
 
     pub fn pop_request(&self, id: Uuid) -> Option<oneshot::Sender<RemoteResponse>> {
-- 
2.43.0


From d0db943c7e7d523d8937debaa8443adc2bc77815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:33:55 +0000
Subject: [PATCH 37/57] fix: requests to a sharded entity that cannot be
 created are answered with the error

---
 coerce/src/sharding/shard/mod.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/coerce/src/sharding/shard/mod.rs b/coerce/src/sharding/shard/mod.rs
index a85e6ee..9752380 100644
--- a/coerce/src/sharding/shard/mod.rs
+++ b/coerce/src/sharding/shard/mod.rs
@@ -274,7 +274,18 @@ impl Handler<EntityStartResult> for Shard {
                 );
             }
             Err(e) => {
-                // TODO: we should respond to all buffered requests with a failure
+                // the entity can be started again by the next request
+                if let Some(Entity {
+                    state: EntityState::Starting { request_buffer },
+                    ..
+                }) = self.entities.remove(&actor_id)
+                {
+                    for result_channel in
+                        request_buffer.into_iter().filter_map(|r| r.result_channel)
+                    {
+                        let _ = result_channel.send(Err(e.clone()));
+                    }
+                }
 
                 error!(
                     "failed to spawn entity as a child of Shard#{}, actor_id={}, error={}, is_shard_recovery={}",
-- 
2.43.0


From 634d3717adc10436e00fbf01b91b35e3662488cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:33:58 +0000
Subject: [PATCH 38/57] fix: a sharded entity that stopped is started again by
 the next request

---
 coerce/src/sharding/shard/mod.rs | 49 +++++++++++++++++++++++++++-----
 1 file changed, 42 insertions(+), 7 deletions(-)

diff --git a/coerce/src/sharding/shard/mod.rs b/coerce/src/sharding/shard/mod.rs
index 9752380..09294f1 100644
--- a/coerce/src/sharding/shard/mod.rs
+++ b/coerce/src/sharding/shard/mod.rs
@@ -82,7 +82,11 @@ struct BufferedReq {
 
 enum EntityState {
     Idle,
-    Starting { request_buffer: Vec<BufferedReq> },
+    Starting {
+        request_buffer: Vec<BufferedReq>,
+        /// The entity has stopped before the shard was told that it started
+        stopped: bool,
+    },
     Active(BoxedActorRef),
     Passivated,
 }
@@ -97,7 +101,7 @@ impl Debug for EntityState {
     fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
         match &self {
             EntityState::Idle => write!(f, "EntityState::Idle"),
-            EntityState::Starting { request_buffer } => write!(
+            EntityState::Starting { request_buffer, .. } => write!(
                 f,
                 "EntityState::Starting(request_buffer: {} messages)",
                 request_buffer.len()
@@ -114,6 +118,7 @@ impl EntityState {
     pub fn starting(request: Option<BufferedReq>) -> EntityState {
         EntityState::Starting {
             request_buffer: request.map(|r| vec![r]).unwrap_or_else(|| vec![]),
+            stopped: false,
         }
     }
 
@@ -182,7 +187,16 @@ impl PersistentActor for Shard {
             .notify(ShardReady(self.shard_id, self.actor_ref(ctx)));
     }
 
-    async fn on_child_stopped(&mut self, id: &ActorId, _ctx: &mut ActorContext) {}
+    async fn on_child_stopped(&mut self, id: &ActorId, _ctx: &mut ActorContext) {
+        if let Some(entity) = self.entities.get_mut(id) {
+            match &mut entity.state {
+                // the entity is started again by the next request
+                EntityState::Active(_) => entity.state = EntityState::Idle,
+                EntityState::Starting { stopped, .. } => *stopped = true,
+                _ => {}
+            }
+        }
+    }
 }
 
 impl Shard {
@@ -247,7 +261,10 @@ impl Handler<EntityStartResult> for Shard {
                 if let Some(entity) = self.entities.get_mut(&actor_id) {
                     let previous = mem::replace(&mut entity.state, EntityState::Active(actor_ref));
                     match previous {
-                        EntityState::Starting { request_buffer } => {
+                        EntityState::Starting {
+                            request_buffer,
+                            stopped,
+                        } => {
                             debug!(
                                 "entity({}) request buffer: {} message(s)",
                                 &entity.actor_id,
@@ -257,6 +274,10 @@ impl Handler<EntityStartResult> for Shard {
                             for msg in request_buffer {
                                 entity.request(msg.handler, msg.message, msg.result_channel);
                             }
+
+                            if stopped {
+                                entity.state = EntityState::Idle;
+                            }
                         }
                         state => {
                             warn!("spawned entity (id={}) state(previous={:?}) was unexpected (expected: `Starting`)", &actor_id, &state);
@@ -276,7 +297,7 @@ impl Handler<EntityStartResult> for Shard {
             Err(e) => {
                 // the entity can be started again by the next request
                 if let Some(Entity {
-                    state: EntityState::Starting { request_buffer },
+                    state: EntityState::Starting { request_buffer, .. },
                     ..
                 }) = self.entities.remove(&actor_id)
                 {
@@ -367,7 +388,7 @@ impl Entity {
                 result_channel.map(|c| c.send(Err(ActorRefErr::ActorUnavailable)));
             }
 
-            EntityState::Starting { request_buffer } => {
+            EntityState::Starting { request_buffer, .. } => {
                 request_buffer.push(BufferedReq {
                     handler,
                     message,
@@ -441,7 +462,21 @@ impl Handler<EntityRequest> for Shard {
         match entity {
             Entry::Occupied(entity) => {
                 let entity = entity.into_mut();
-                entity.request(handler, message, result_channel);
+                match &entity.state {
+                    EntityState::Idle | EntityState::Passivated => {
+                        let recipe = entity.recipe.clone();
+                        entity.state = EntityState::starting(Some(BufferedReq {
+                            handler,
+                            message,
+                            result_channel,
+                        }));
+
+                        self.start_entity(actor_id.clone(), recipe, ctx, false)
+                            .await;
+                    }
+
+                    _ => entity.request(handler, message, result_channel),
+                }
             }
 
             Entry::Vacant(entry) => {
-- 
2.43.0


From f6e14c9c76c9d9189d5cf8f83b1da0a4b439619c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:34:50 +0000
Subject: [PATCH 39/57] fix: an entity that is being created when its shard
 stops is stopped with it

---
 coerce/src/sharding/shard/mod.rs | 40 +++++++++++++++++++++++++++-----
 1 file changed, 34 insertions(+), 6 deletions(-)

diff --git a/coerce/src/sharding/shard/mod.rs b/coerce/src/sharding/shard/mod.rs
index 09294f1..3f8cdbe 100644
--- a/coerce/src/sharding/shard/mod.rs
+++ b/coerce/src/sharding/shard/mod.rs
@@ -25,6 +25,7 @@ use std::mem;
 use std::sync::Arc;
 use tokio::sync::oneshot;
 use tokio::sync::oneshot::Sender;
+use tokio::task::JoinHandle;
 
 pub mod message;
 pub(crate) mod passivation;
@@ -47,6 +48,7 @@ pub struct Shard {
     entity_passivation: bool,
     entities: HashMap<ActorId, Entity>,
     host: LocalActorRef<ShardHost>,
+    starting_entities: HashMap<ActorId, JoinHandle<Option<BoxedActorRef>>>,
 }
 
 impl Shard {
@@ -64,6 +66,7 @@ impl Shard {
             recovered_snapshot: false,
             entity_passivation: true,
             host,
+            starting_entities: HashMap::new(),
         }
     }
 }
@@ -187,6 +190,15 @@ impl PersistentActor for Shard {
             .notify(ShardReady(self.shard_id, self.actor_ref(ctx)));
     }
 
+    async fn stopped(&mut self, _ctx: &mut ActorContext) {
+        // entities that are being created are not children of the shard yet
+        for (_id, starting) in self.starting_entities.drain() {
+            if let Ok(Some(actor_ref)) = starting.await {
+                let _ = actor_ref.stop().await;
+            }
+        }
+    }
+
     async fn on_child_stopped(&mut self, id: &ActorId, _ctx: &mut ActorContext) {
         if let Some(entity) = self.entities.get_mut(id) {
             match &mut entity.state {
@@ -252,6 +264,8 @@ impl Handler<EntityStartResult> for Shard {
             is_shard_recovery,
         } = message;
 
+        self.starting_entities.remove(&actor_id);
+
         match result {
             Ok(actor_ref) => {
                 if let Some(previous) = ctx.add_child_ref(actor_ref.clone()) {
@@ -338,22 +352,36 @@ impl Shard {
         let system = ctx.system().clone();
         let self_ref = self.actor_ref(ctx);
 
-        tokio::spawn(async move {
-            let result = handler
+        let entity_id = actor_id.clone();
+        let parent_ref = self_ref.clone().into();
+        let creation = tokio::spawn(async move {
+            handler
                 .create(
-                    Some(actor_id.clone()),
+                    Some(entity_id),
                     &start_entity.recipe,
-                    Some(self_ref.clone().into()),
+                    Some(parent_ref),
                     Some(&system),
                 )
-                .await;
+                .await
+        });
+
+        let entity_id = actor_id.clone();
+        let starting = tokio::spawn(async move {
+            let result = creation
+                .await
+                .unwrap_or_else(|_| Err(ActorRefErr::ActorUnavailable));
 
+            let actor_ref = result.as_ref().ok().cloned();
             let _ = self_ref.notify(EntityStartResult {
-                actor_id,
+                actor_id: entity_id,
                 result,
                 is_shard_recovery,
             });
+
+            actor_ref
         });
+
+        self.starting_entities.insert(actor_id, starting);
     }
 }
 
-- 
2.43.0


From 4194d79b1624521bfbabcd54bee41c9a98008b0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:36:05 +0000
Subject: [PATCH 40/57] fix: a request to an entity whose shard cannot be
 reached or allocated is delivered later or answered with an error

---
 coerce/src/sharding/host/request.rs | 167 ++++++++++++++++++++++------
 1 file changed, 136 insertions(+), 31 deletions(-)

diff --git a/coerce/src/sharding/host/request.rs b/coerce/src/sharding/host/request.rs
index 4478ded..20a068f 100644
--- a/coerce/src/sharding/host/request.rs
+++ b/coerce/src/sharding/host/request.rs
@@ -1,6 +1,6 @@
 use crate::actor::context::ActorContext;
 use crate::actor::message::{Handler, Message, MessageUnwrapErr, MessageWrapErr};
-use crate::actor::{Actor, ActorId, ActorRef, ActorRefErr, IntoActorId};
+use crate::actor::{Actor, ActorId, ActorRef, ActorRefErr, IntoActorId, LocalActorRef};
 use crate::sharding::coordinator::allocation::{AllocateShard, AllocateShardResult};
 
 use crate::remote::system::{NodeId, RemoteActorSystem};
@@ -12,6 +12,7 @@ use crate::sharding::coordinator::ShardId;
 use protobuf::Message as ProtoMessage;
 use std::str::FromStr;
 use std::sync::Arc;
+use std::time::Duration;
 use tokio::sync::oneshot::{channel, Sender};
 use uuid::Uuid;
 
@@ -32,6 +33,30 @@ pub struct RemoteEntityRequest {
     pub origin_node: NodeId,
 }
 
+const RETRY_DELAY: Duration = Duration::from_millis(100);
+const MAX_DELIVERY_ATTEMPTS: usize = 20;
+const MAX_ALLOCATION_ATTEMPTS: usize = 50;
+
+struct RedeliverRequest {
+    request: EntityRequest,
+    shard_id: ShardId,
+    node_id: NodeId,
+    attempt: usize,
+}
+
+struct AllocationFailed {
+    shard_id: ShardId,
+    error: ActorRefErr,
+}
+
+impl Message for RedeliverRequest {
+    type Result = ();
+}
+
+impl Message for AllocationFailed {
+    type Result = ();
+}
+
 pub(crate) fn handle_request(
     message: EntityRequest,
     shard_id: ShardId,
@@ -71,13 +96,59 @@ impl Handler<EntityRequest> for ShardHost {
     async fn handle(&mut self, message: EntityRequest, ctx: &mut ActorContext) {
         let shard_id = self.allocator.allocate(&message.actor_id);
 
+        self.route_request(message, shard_id, 0, ctx);
+    }
+}
+
+#[async_trait]
+impl Handler<RedeliverRequest> for ShardHost {
+    async fn handle(&mut self, message: RedeliverRequest, ctx: &mut ActorContext) {
+        let shard_id = message.shard_id;
+        if let Some(shard) = self.remote_shards.get(&shard_id) {
+            if shard.node_id() == Some(message.node_id) {
+                // ask the coordinator again
+                self.remote_shards.remove(&shard_id);
+            }
+        }
+
+        self.route_request(message.request, shard_id, message.attempt, ctx);
+    }
+}
+
+#[async_trait]
+impl Handler<AllocationFailed> for ShardHost {
+    async fn handle(&mut self, message: AllocationFailed, _ctx: &mut ActorContext) {
+        let requests = self
+            .requests_pending_shard_allocation
+            .remove(&message.shard_id)
+            .unwrap_or_default();
+
+        for request in requests {
+            if let Some(result_channel) = request.result_channel {
+                let _ = result_channel.send(Err(message.error.clone()));
+            }
+        }
+    }
+}
+
+impl ShardHost {
+    fn route_request(
+        &mut self,
+        message: EntityRequest,
+        shard_id: ShardId,
+        attempt: usize,
+        ctx: &ActorContext,
+    ) {
         if let Some(shard) = self.hosted_shards.get_mut(&shard_id) {
             handle_request(message, shard_id, shard);
         } else if let Some(shard) = self.remote_shards.get(&shard_id) {
             let shard_ref = shard.clone();
             tokio::spawn(remote_entity_request(
+                self.actor_ref(ctx),
+                shard_id,
                 shard_ref,
                 message,
+                attempt,
                 ctx.system().remote_owned(),
             ));
         } else {
@@ -93,36 +164,48 @@ impl Handler<EntityRequest> for ShardHost {
             let host_ref = self.actor_ref(ctx);
 
             tokio::spawn(async move {
-                let allocation = leader
-                    .send(AllocateShard {
-                        shard_id,
-                        rebalancing: false,
-                    })
-                    .await;
-                match allocation {
-                    Ok(result) => match result {
-                        AllocateShardResult::Allocated(shard_id, node_id)
-                        | AllocateShardResult::AlreadyAllocated(shard_id, node_id) => {
-                            let _ = host_ref.notify(ShardAllocated(shard_id, node_id));
-                        }
-                        AllocateShardResult::NotAllocated => {
-                            // No hosts available?
-                            error!("shard(#{}) not allocated, no hosts available?", shard_id);
-                        }
-                        AllocateShardResult::Err(e) => {
-                            error!("shard(#{}) failed to allocate: {}", shard_id, e);
-                        }
-                    },
-                    Err(_e) => {}
+                let mut error = ActorRefErr::ActorUnavailable;
+                for _attempt in 0..MAX_ALLOCATION_ATTEMPTS {
+                    let allocation = leader
+                        .send(AllocateShard {
+                            shard_id,
+                            rebalancing: false,
+                        })
+                        .await;
+                    match allocation {
+                        Ok(result) => match result {
+                            AllocateShardResult::Allocated(shard_id, node_id)
+                            | AllocateShardResult::AlreadyAllocated(shard_id, node_id) => {
+                                let _ = host_ref.notify(ShardAllocated(shard_id, node_id));
+                                return;
+                            }
+                            AllocateShardResult::NotAllocated => {
+                                // No hosts available, or the shard is being moved
+                                warn!("shard(#{}) not allocated, no hosts available?", shard_id);
+                            }
+                            AllocateShardResult::Err(e) => {
+                                error!("shard(#{}) failed to allocate: {}", shard_id, e);
+                                break;
+                            }
+                        },
+                        Err(e) => error = e,
+                    }
+
+                    tokio::time::sleep(RETRY_DELAY).await;
                 }
+
+                let _ = host_ref.notify(AllocationFailed { shard_id, error });
             });
         }
     }
 }
 
 async fn remote_entity_request(
+    host_ref: LocalActorRef<ShardHost>,
+    shard_id: ShardId,
     shard_ref: ActorRef<Shard>,
     mut request: EntityRequest,
+    attempt: usize,
     system: RemoteActorSystem,
 ) -> Result<(), ActorRefErr> {
     // TODO: We need a way to buffer and re-distribute this request if we get a signal that the node is terminated
@@ -130,7 +213,8 @@ async fn remote_entity_request(
 
     let request_id = Uuid::new_v4();
     let (tx, rx) = channel();
-    system.push_request(request_id, tx);
+    let node_id = shard_ref.node_id().unwrap_or_else(|| system.node_id());
+    system.push_node_request(request_id, node_id, tx);
 
     let result_channel = request.result_channel.take();
 
@@ -140,17 +224,38 @@ async fn remote_entity_request(
         system.node_id()
     );
 
-    shard_ref
-        .notify(RemoteEntityRequest {
+    let sent = shard_ref
+        .send(RemoteEntityRequest {
             origin_node: system.node_id(),
             request_id,
-            actor_id: request.actor_id.into_actor_id(),
-            message_type: request.message_type,
-            message: request.message,
-            recipe: request.recipe.map(|r| r.as_ref().clone()),
+            actor_id: request.actor_id.clone(),
+            message_type: request.message_type.clone(),
+            message: request.message.clone(),
+            recipe: request.recipe.as_ref().map(|r| r.as_ref().clone()),
         })
-        .await
-        .expect("shard notify");
+        .await;
+
+    if let Err(e) = sent {
+        let _ = system.pop_request(request_id);
+        request.result_channel = result_channel;
+
+        if matches!(&e, ActorRefErr::NotFound(_)) && attempt < MAX_DELIVERY_ATTEMPTS {
+            // the shard is not running on that node (any more, or yet)
+            tokio::time::sleep(RETRY_DELAY).await;
+            return host_ref.notify(RedeliverRequest {
+                request,
+                shard_id,
+                node_id,
+                attempt: attempt + 1,
+            });
+        }
+
+        if let Some(result_channel) = request.result_channel.take() {
+            let _ = result_channel.send(Err(e.clone()));
+        }
+
+        return Err(e);
+    }
 
     trace!(
         "emitted RemoteEntityRequest to node_id={} from node_id={}, waiting for reply",
-- 
2.43.0


From ad4e905f4de13ca9d8dd5f9c6bb575bca8e17eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:38:05 +0000
Subject: [PATCH 41/57] fix: stopping a shard that is starting, stopping or not
 hosted is acknowledged, and requests made meanwhile are kept

---
 coerce/src/sharding/host/mod.rs     | 99 +++++++++++++++++++----------
 coerce/src/sharding/host/request.rs |  7 +-
 2 files changed, 72 insertions(+), 34 deletions(-)

diff --git a/coerce/src/sharding/host/mod.rs b/coerce/src/sharding/host/mod.rs
index 58ea342..206af1e 100644
--- a/coerce/src/sharding/host/mod.rs
+++ b/coerce/src/sharding/host/mod.rs
@@ -19,11 +19,14 @@ use crate::actor::scheduler::ActorType;
 use crate::sharding::coordinator::factory::CoordinatorFactory;
 use crate::singleton::factory::SingletonFactory;
 use crate::singleton::Singleton;
+use std::time::Duration;
 use uuid::Uuid;
 
 pub mod request;
 pub mod stats;
 
+const STOPPING_SHARD_DELAY: Duration = Duration::from_millis(50);
+
 pub enum ShardState {
     Starting {
         actor_ref: LocalActorRef<Shard>,
@@ -267,7 +270,12 @@ impl Handler<ShardReady> for ShardHost {
                 ..
             }) => {
                 if let Some(stop_requested) = stop_requested {
-                    // TODO: move the request buffer over to `requests_pending_shard_allocation`
+                    self.hosted_shards.insert(shard_id, ShardState::Stopping);
+                    self.requests_pending_shard_allocation
+                        .entry(shard_id)
+                        .or_insert_with(|| vec![])
+                        .extend(request_buffer);
+
                     self.stop_shard(shard_id, actor_ref, ctx, Some(stop_requested));
                 } else {
                     let mut shard_state = ShardState::Ready(actor_ref);
@@ -300,27 +308,32 @@ impl Handler<StopShard> for ShardHost {
         };
 
         match shard_entry {
-            Entry::Occupied(mut shard_entry) => {
-                // TODO: is this correct? if the status is starting, should we not update that rather than re-inserting `Stopping`?
-                match shard_entry.insert(ShardState::Stopping) {
-                    ShardState::Starting {
-                        mut stop_requested, ..
-                    } => {
-                        // actor has requested to be started so we can't stop it yet, once the actor
-                        // has finished starting, we can then stop it.
-                        stop_requested = Some(stop_request);
-                    }
+            Entry::Occupied(mut shard_entry) => match shard_entry.get_mut() {
+                ShardState::Starting { stop_requested, .. } => {
+                    // actor has requested to be started so we can't stop it yet, once the actor
+                    // has finished starting, we can then stop it.
+                    *stop_requested = Some(stop_request);
+                }
 
-                    ShardState::Ready(actor_ref) => {
-                        self.stop_shard(shard_id, actor_ref, ctx, Some(stop_request))
-                    }
+                ShardState::Ready(actor_ref) => {
+                    let actor_ref = actor_ref.clone();
+                    shard_entry.insert(ShardState::Stopping);
+                    self.stop_shard(shard_id, actor_ref, ctx, Some(stop_request))
+                }
 
-                    ShardState::Stopping => {
-                        // shard already stopping
-                    }
+                ShardState::Stopping => {
+                    // shard already stopping, reply when it has stopped
+                    let _ = self
+                        .actor_ref(ctx)
+                        .scheduled_notify(message, STOPPING_SHARD_DELAY);
                 }
+            },
+            Entry::Vacant(_) => {
+                let remote_system = ctx.system().remote_owned();
+                tokio::spawn(async move {
+                    notify_shard_stopped(shard_id, true, stop_request, &remote_system).await;
+                });
             }
-            Entry::Vacant(_) => {}
         }
     }
 }
@@ -343,31 +356,51 @@ impl ShardHost {
             });
 
             if let Some(stop_requested) = stop_requested {
-                let shard_stopped = ShardStopped {
-                    shard_id,
-                    stopped_successfully: result.is_ok(),
-                }
-                .into_envelope(EnvelopeType::Remote)
-                .unwrap()
-                .into_bytes();
-
-                let _ = remote_system
-                    .notify_raw_rpc_result(
-                        stop_requested.request_id,
-                        shard_stopped,
-                        stop_requested.origin_node_id,
-                    )
+                notify_shard_stopped(shard_id, result.is_ok(), stop_requested, &remote_system)
                     .await;
             }
         });
     }
 }
 
+async fn notify_shard_stopped(
+    shard_id: ShardId,
+    stopped_successfully: bool,
+    stop_requested: StopRequested,
+    remote_system: &RemoteActorSystem,
+) {
+    let shard_stopped = ShardStopped {
+        shard_id,
+        stopped_successfully,
+    }
+    .into_envelope(EnvelopeType::Remote)
+    .unwrap()
+    .into_bytes();
+
+    let _ = remote_system
+        .notify_raw_rpc_result(
+            stop_requested.request_id,
+            shard_stopped,
+            stop_requested.origin_node_id,
+        )
+        .await;
+}
+
 #[async_trait]
 impl Handler<ShardStopped> for ShardHost {
-    async fn handle(&mut self, message: ShardStopped, _ctx: &mut ActorContext) {
+    async fn handle(&mut self, message: ShardStopped, ctx: &mut ActorContext) {
         self.hosted_shards.remove(&message.shard_id);
         info!("shard#{} stopped", message.shard_id);
+
+        // requests made while the shard was stopping are handled by its next host
+        let requests = self
+            .requests_pending_shard_allocation
+            .remove(&message.shard_id)
+            .unwrap_or_default();
+
+        for request in requests {
+            self.handle(request, ctx).await;
+        }
     }
 }
 
diff --git a/coerce/src/sharding/host/request.rs b/coerce/src/sharding/host/request.rs
index 20a068f..daceba2 100644
--- a/coerce/src/sharding/host/request.rs
+++ b/coerce/src/sharding/host/request.rs
@@ -139,7 +139,12 @@ impl ShardHost {
         attempt: usize,
         ctx: &ActorContext,
     ) {
-        if let Some(shard) = self.hosted_shards.get_mut(&shard_id) {
+        if let Some(ShardState::Stopping) = self.hosted_shards.get(&shard_id) {
+            self.requests_pending_shard_allocation
+                .entry(shard_id)
+                .or_insert_with(|| vec![])
+                .push(message);
+        } else if let Some(shard) = self.hosted_shards.get_mut(&shard_id) {
             handle_request(message, shard_id, shard);
         } else if let Some(shard) = self.remote_shards.get(&shard_id) {
             let shard_ref = shard.clone();
-- 
2.43.0


From f717cc4e05c04ee6dbf0ef6a7a27ba846bf65830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:38:22 +0000
Subject: [PATCH 42/57] fix: a shard being moved is hosted elsewhere only when
 it has stopped, and always allocated again

---
 coerce/src/sharding/coordinator/allocation.rs |  6 ++++
 coerce/src/sharding/coordinator/balancing.rs  | 30 +++++++++++--------
 2 files changed, 23 insertions(+), 13 deletions(-)

diff --git a/coerce/src/sharding/coordinator/allocation.rs b/coerce/src/sharding/coordinator/allocation.rs
index 19eaf47..0437843 100644
--- a/coerce/src/sharding/coordinator/allocation.rs
+++ b/coerce/src/sharding/coordinator/allocation.rs
@@ -73,9 +73,15 @@ impl Handler<AllocateShard> for ShardCoordinator {
         }
 
         if message.rebalancing {
+            self.reallocating_shards.remove(&message.shard_id);
             return self.allocate_shard(message.shard_id, ctx).await;
         }
 
+        if self.reallocating_shards.contains(&message.shard_id) {
+            // allocated again once it has stopped
+            return AllocateShardResult::NotAllocated;
+        }
+
         match self.persist(&message, ctx).await {
             Ok(_) => self.allocate_shard(message.shard_id, ctx).await,
             Err(e) => {
diff --git a/coerce/src/sharding/coordinator/balancing.rs b/coerce/src/sharding/coordinator/balancing.rs
index b3a473f..763cee5 100644
--- a/coerce/src/sharding/coordinator/balancing.rs
+++ b/coerce/src/sharding/coordinator/balancing.rs
@@ -99,6 +99,9 @@ impl ShardCoordinator {
                 let shard_host = self.hosts.get_mut(&shard_node_id).unwrap();
                 let _ = shard_host.shards.remove(&shard);
 
+                // the shard must not be hosted elsewhere until it has stopped
+                self.reallocating_shards.insert(shard);
+
                 let self_ref = self_ref.clone();
                 let shard_host_actor = shard_host.actor.clone();
 
@@ -107,32 +110,33 @@ impl ShardCoordinator {
                     let request_id = Uuid::new_v4();
 
                     let (tx, rx) = oneshot::channel();
-                    sys.push_request(request_id, tx);
+                    sys.push_node_request(request_id, shard_node_id, tx);
 
                     let stop = StopShard { shard_id: shard, request_id, origin_node_id };
                     let result = shard_host_actor.notify(stop).await;
                     match result {
                         Ok(_) => {
-                            let result = rx.await;
-                            if let Ok(result) = result {
-                                let result = ShardStopped::from_bytes(result.into_result().unwrap());
-                                match result {
-                                    Ok(_res) => {
-                                        let _ = self_ref.send(AllocateShard { shard_id: shard, rebalancing: true }).await;
-                                    },
-                                    Err(e) => {
+                            match rx.await.map(|r| r.into_result()) {
+                                Ok(Ok(result)) => {
+                                    if let Err(e) = ShardStopped::from_bytes(result) {
                                         error!("deserialization error: {}", e);
-                                    },
+                                    }
+                                }
+                                Ok(Err(e)) => {
+                                    warn!("error stopping shard (shard_id={}), error={}", shard, e);
+                                }
+                                Err(_) => {
+                                    warn!("error recv");
                                 }
-                            } else {
-                                warn!("error recv")
                             }
-
                         }
                         Err(e) => {
+                            let _ = sys.pop_request(request_id);
                             error!("error during shard re-balancing - failed to send StopShard (shard_id={}), target_node={}) error={}", shard, &shard_host_actor, e);
                         }
                     }
+
+                    let _ = self_ref.send(AllocateShard { shard_id: shard, rebalancing: true }).await;
                 });
             }
         }
-- 
2.43.0


From 0f33e635a366304fbeecff958d03ee1801e14503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:38:31 +0000
Subject: [PATCH 43/57] fix: several entity types can be sharded in one system

---
 coerce/src/sharding/mod.rs  |  1 +
 coerce/src/singleton/mod.rs | 10 ++++++++++
 2 files changed, 11 insertions(+)

diff --git a/coerce/src/sharding/mod.rs b/coerce/src/sharding/mod.rs
index 3a35b3f..b03d854 100644
--- a/coerce/src/sharding/mod.rs
+++ b/coerce/src/sharding/mod.rs
@@ -90,6 +90,7 @@ impl<A: ActorFactory> Sharding<A> {
 
         let coordinator = SingletonBuilder::new(system.clone())
             .factory(CoordinatorFactory::new(shard_entity.clone(), host.clone()))
+            .singleton_id(format!("{}-ShardCoordinator", &shard_entity))
             .build()
             .await;
 
diff --git a/coerce/src/singleton/mod.rs b/coerce/src/singleton/mod.rs
index 109ffdb..98702a2 100644
--- a/coerce/src/singleton/mod.rs
+++ b/coerce/src/singleton/mod.rs
@@ -50,6 +50,16 @@ impl<F: SingletonFactory> SingletonBuilder<F> {
         self
     }
 
+    /// Sets the id of the singleton, its managers and proxies are named after it. Each
+    /// of the singletons of one actor type needs an id of its own, the same on every node.
+    pub fn singleton_id(mut self, singleton_id: impl IntoActorId) -> Self {
+        let singleton_id = singleton_id.into_actor_id();
+        self.manager_id = Some(format!("singleton-manager<{}>", &singleton_id).into_actor_id());
+        self.proxy_id = Some(format!("singleton-proxy<{}>", &singleton_id).into_actor_id());
+        self.singleton_id = Some(singleton_id);
+        self
+    }
+
     pub async fn build(mut self) -> Singleton<F::Actor, F> {
         let factory = self.factory.expect("factory");
 
-- 
2.43.0


From 2be5885ef2b404198d2e997ccc6a41b6b7445d1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:51:31 +0000
Subject: [PATCH 44/57] fix: a shard has stopped only when its entities have
 stopped

---
 coerce/src/sharding/shard/mod.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/coerce/src/sharding/shard/mod.rs b/coerce/src/sharding/shard/mod.rs
index 3f8cdbe..92f1fe2 100644
--- a/coerce/src/sharding/shard/mod.rs
+++ b/coerce/src/sharding/shard/mod.rs
@@ -190,7 +190,12 @@ impl PersistentActor for Shard {
             .notify(ShardReady(self.shard_id, self.actor_ref(ctx)));
     }
 
-    async fn stopped(&mut self, _ctx: &mut ActorContext) {
+    async fn stopped(&mut self, ctx: &mut ActorContext) {
+        // the shard may be started elsewhere as soon as it has stopped
+        if let Some(supervised) = ctx.supervised_mut() {
+            supervised.stop_all().await;
+        }
+
         // entities that are being created are not children of the shard yet
         for (_id, starting) in self.starting_entities.drain() {
             if let Ok(Some(actor_ref)) = starting.await {
-- 
2.43.0


From ab7a7ee5f9a226ca252174d807049915ccf2e997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:51:51 +0000
Subject: [PATCH 45/57] fix: shards are moved only off nodes above the fair
 share of the nodes that are available

---
 coerce/src/sharding/coordinator/balancing.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/coerce/src/sharding/coordinator/balancing.rs b/coerce/src/sharding/coordinator/balancing.rs
index 763cee5..2caddaa 100644
--- a/coerce/src/sharding/coordinator/balancing.rs
+++ b/coerce/src/sharding/coordinator/balancing.rs
@@ -30,7 +30,8 @@ impl Handler<Rebalance> for ShardCoordinator {
                 let self_ref = ctx.actor_ref();
 
                 let total_shards = self.shards.len();
-                let fair_shard_count_per_node = total_shards / self.hosts.len();
+                let available_hosts = self.hosts.values().filter(|h| h.is_ready()).count();
+                let fair_shard_count_per_node = total_shards / available_hosts.max(1);
 
                 let mut shards_to_rebalance = vec![];
                 for (node_id, shard_host) in &self.hosts {
-- 
2.43.0


From 492770e26fdf2a4e5a3985b43958999b73011efd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:51:51 +0000
Subject: [PATCH 46/57] fix: a shard that is allocated to another node while
 starting does not stay behind

---
 coerce/src/sharding/host/mod.rs | 44 ++++++++++++++++++++++++++++++---
 1 file changed, 40 insertions(+), 4 deletions(-)

diff --git a/coerce/src/sharding/host/mod.rs b/coerce/src/sharding/host/mod.rs
index 206af1e..2e13f8d 100644
--- a/coerce/src/sharding/host/mod.rs
+++ b/coerce/src/sharding/host/mod.rs
@@ -19,6 +19,7 @@ use crate::actor::scheduler::ActorType;
 use crate::sharding::coordinator::factory::CoordinatorFactory;
 use crate::singleton::factory::SingletonFactory;
 use crate::singleton::Singleton;
+use std::mem;
 use std::time::Duration;
 use uuid::Uuid;
 
@@ -193,7 +194,13 @@ impl Handler<ShardAllocated> for ShardHost {
 
             let hosted_shard_entry = self.hosted_shards.entry(shard_id);
             match hosted_shard_entry {
-                Entry::Occupied(_) => {
+                Entry::Occupied(hosted_shard) => {
+                    if let ShardState::Stopping = hosted_shard.get() {
+                        // can be started again once it has stopped
+                        let _ = self_ref.scheduled_notify(message, STOPPING_SHARD_DELAY);
+                        return;
+                    }
+
                     // already allocated locally
                     debug!("local shard#{} already allocated", message.0);
                 }
@@ -219,14 +226,33 @@ impl Handler<ShardAllocated> for ShardHost {
                 }
             }
         } else {
-            if let Some(shard) = self.hosted_shards.remove(&shard_id) {
+            if let Some(shard) = self
+                .hosted_shards
+                .get_mut(&shard_id)
+                .filter(|shard| shard.actor_ref().is_some())
+            {
                 debug!(
                     "shard#{} was allocated locally but now allocated remotely on node={}, stopping shard",
                     shard_id, node_id
                 );
 
-                if let Some(shard_actor) = shard.actor_ref() {
-                    let _ = shard_actor.notify_stop();
+                match mem::replace(shard, ShardState::Stopping) {
+                    ShardState::Starting {
+                        actor_ref,
+                        request_buffer,
+                        stop_requested,
+                    } => {
+                        self.requests_pending_shard_allocation
+                            .entry(shard_id)
+                            .or_insert_with(|| vec![])
+                            .extend(request_buffer);
+
+                        self.stop_shard(shard_id, actor_ref, ctx, stop_requested);
+                    }
+                    ShardState::Ready(actor_ref) => {
+                        self.stop_shard(shard_id, actor_ref, ctx, None);
+                    }
+                    ShardState::Stopping => {}
                 }
             }
 
@@ -257,6 +283,16 @@ impl Handler<ShardReady> for ShardHost {
         let shard_id = message.0;
         let actor_ref = message.1;
 
+        let starting = matches!(
+            self.hosted_shards.get(&shard_id),
+            Some(ShardState::Starting { .. })
+        );
+
+        if !starting {
+            // the shard is hosted by another node by now
+            return;
+        }
+
         let shard_state = self
             .hosted_shards
             .insert(shard_id, ShardState::Ready(actor_ref.clone()));
-- 
2.43.0


From b4b9082fec18c396ec93f301fde7f2fe3601e899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:51:51 +0000
Subject: [PATCH 47/57] fix: the coordinator is asked again where a shard is
 that could not be reached

---
 coerce/src/sharding/host/request.rs | 33 +++++++++++++++++++++++------
 1 file changed, 27 insertions(+), 6 deletions(-)

diff --git a/coerce/src/sharding/host/request.rs b/coerce/src/sharding/host/request.rs
index daceba2..16b9018 100644
--- a/coerce/src/sharding/host/request.rs
+++ b/coerce/src/sharding/host/request.rs
@@ -44,6 +44,11 @@ struct RedeliverRequest {
     attempt: usize,
 }
 
+struct ShardUnreachable {
+    shard_id: ShardId,
+    node_id: NodeId,
+}
+
 struct AllocationFailed {
     shard_id: ShardId,
     error: ActorRefErr,
@@ -53,6 +58,10 @@ impl Message for RedeliverRequest {
     type Result = ();
 }
 
+impl Message for ShardUnreachable {
+    type Result = ();
+}
+
 impl Message for AllocationFailed {
     type Result = ();
 }
@@ -104,17 +113,19 @@ impl Handler<EntityRequest> for ShardHost {
 impl Handler<RedeliverRequest> for ShardHost {
     async fn handle(&mut self, message: RedeliverRequest, ctx: &mut ActorContext) {
         let shard_id = message.shard_id;
-        if let Some(shard) = self.remote_shards.get(&shard_id) {
-            if shard.node_id() == Some(message.node_id) {
-                // ask the coordinator again
-                self.remote_shards.remove(&shard_id);
-            }
-        }
 
+        self.shard_unreachable(shard_id, message.node_id);
         self.route_request(message.request, shard_id, message.attempt, ctx);
     }
 }
 
+#[async_trait]
+impl Handler<ShardUnreachable> for ShardHost {
+    async fn handle(&mut self, message: ShardUnreachable, _ctx: &mut ActorContext) {
+        self.shard_unreachable(message.shard_id, message.node_id);
+    }
+}
+
 #[async_trait]
 impl Handler<AllocationFailed> for ShardHost {
     async fn handle(&mut self, message: AllocationFailed, _ctx: &mut ActorContext) {
@@ -132,6 +143,15 @@ impl Handler<AllocationFailed> for ShardHost {
 }
 
 impl ShardHost {
+    /// The coordinator is asked again where the shard is by the next request
+    fn shard_unreachable(&mut self, shard_id: ShardId, node_id: NodeId) {
+        if let Some(shard) = self.remote_shards.get(&shard_id) {
+            if shard.node_id() == Some(node_id) {
+                self.remote_shards.remove(&shard_id);
+            }
+        }
+    }
+
     fn route_request(
         &mut self,
         message: EntityRequest,
@@ -255,6 +275,7 @@ async fn remote_entity_request(
             });
         }
 
+        let _ = host_ref.notify(ShardUnreachable { shard_id, node_id });
         if let Some(result_channel) = request.result_channel.take() {
             let _ = result_channel.send(Err(e.clone()));
         }
-- 
2.43.0


From b29d953c5983702170bf14f0a4520dde29de2185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:07:14 +0000
Subject: [PATCH 48/57] fix: hosts are not told that a shard is on a node that
 is gone

---
 coerce/src/sharding/coordinator/allocation.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/coerce/src/sharding/coordinator/allocation.rs b/coerce/src/sharding/coordinator/allocation.rs
index 0437843..062ae00 100644
--- a/coerce/src/sharding/coordinator/allocation.rs
+++ b/coerce/src/sharding/coordinator/allocation.rs
@@ -157,6 +157,9 @@ pub async fn broadcast_allocation(
                     "failed to notify node of shard allocation (shard_id={}, node_id={})",
                     shard_id, node_id
                 );
+
+                // the node is gone, the shard may have been allocated to another one by now
+                return;
             }
         } else {
             futures.push(async move {
-- 
2.43.0


From 95d95eeafce1f1794e0c7a3eb19afdd3cfcbef5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:12:28 +0000
Subject: [PATCH 49/57] fix: a request to a shard that cannot be reached is not
 retried for ever

---
 coerce/src/sharding/host/mod.rs     | 14 +++++++-------
 coerce/src/sharding/host/request.rs |  8 ++++----
 2 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/coerce/src/sharding/host/mod.rs b/coerce/src/sharding/host/mod.rs
index 2e13f8d..22cc221 100644
--- a/coerce/src/sharding/host/mod.rs
+++ b/coerce/src/sharding/host/mod.rs
@@ -48,7 +48,7 @@ pub struct ShardHost {
     actor_handler: BoxedActorHandler,
     hosted_shards: HashMap<ShardId, ShardState>,
     remote_shards: HashMap<ShardId, ActorRef<Shard>>,
-    requests_pending_shard_allocation: HashMap<ShardId, Vec<EntityRequest>>,
+    requests_pending_shard_allocation: HashMap<ShardId, Vec<(EntityRequest, usize)>>,
     allocator: Box<dyn ShardAllocator>,
     coordinator: Option<Singleton<ShardCoordinator, CoordinatorFactory>>,
 }
@@ -245,7 +245,7 @@ impl Handler<ShardAllocated> for ShardHost {
                         self.requests_pending_shard_allocation
                             .entry(shard_id)
                             .or_insert_with(|| vec![])
-                            .extend(request_buffer);
+                            .extend(request_buffer.into_iter().map(|request| (request, 0)));
 
                         self.stop_shard(shard_id, actor_ref, ctx, stop_requested);
                     }
@@ -270,8 +270,8 @@ impl Handler<ShardAllocated> for ShardHost {
                 shard_id
             );
 
-            for request in buffered_requests {
-                self.handle(request, ctx).await;
+            for (request, attempt) in buffered_requests {
+                self.route_request(request, shard_id, attempt, ctx);
             }
         }
     }
@@ -310,7 +310,7 @@ impl Handler<ShardReady> for ShardHost {
                     self.requests_pending_shard_allocation
                         .entry(shard_id)
                         .or_insert_with(|| vec![])
-                        .extend(request_buffer);
+                        .extend(request_buffer.into_iter().map(|request| (request, 0)));
 
                     self.stop_shard(shard_id, actor_ref, ctx, Some(stop_requested));
                 } else {
@@ -434,8 +434,8 @@ impl Handler<ShardStopped> for ShardHost {
             .remove(&message.shard_id)
             .unwrap_or_default();
 
-        for request in requests {
-            self.handle(request, ctx).await;
+        for (request, attempt) in requests {
+            self.route_request(request, message.shard_id, attempt, ctx);
         }
     }
 }
diff --git a/coerce/src/sharding/host/request.rs b/coerce/src/sharding/host/request.rs
index 16b9018..6af9679 100644
--- a/coerce/src/sharding/host/request.rs
+++ b/coerce/src/sharding/host/request.rs
@@ -134,7 +134,7 @@ impl Handler<AllocationFailed> for ShardHost {
             .remove(&message.shard_id)
             .unwrap_or_default();
 
-        for request in requests {
+        for (request, _attempt) in requests {
             if let Some(result_channel) = request.result_channel {
                 let _ = result_channel.send(Err(message.error.clone()));
             }
@@ -152,7 +152,7 @@ impl ShardHost {
         }
     }
 
-    fn route_request(
+    pub(super) fn route_request(
         &mut self,
         message: EntityRequest,
         shard_id: ShardId,
@@ -163,7 +163,7 @@ impl ShardHost {
             self.requests_pending_shard_allocation
                 .entry(shard_id)
                 .or_insert_with(|| vec![])
-                .push(message);
+                .push((message, attempt));
         } else if let Some(shard) = self.hosted_shards.get_mut(&shard_id) {
             handle_request(message, shard_id, shard);
         } else if let Some(shard) = self.remote_shards.get(&shard_id) {
@@ -181,7 +181,7 @@ impl ShardHost {
 
             let buffered_requests = self.requests_pending_shard_allocation.entry(shard_id);
             let buffered_requests = buffered_requests.or_insert_with(|| vec![]);
-            buffered_requests.push(message);
+            buffered_requests.push((message, attempt));
 
             debug!("shard#{} not allocated, notifying coordinator and buffering request (buffered_requests={})",
                 shard_id, buffered_requests.len());
-- 
2.43.0


From 16ca4520948e617f1f92966e873e3998e7d13111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:40:35 +0000
Subject: [PATCH 50/57] fix: the API reports the shards of a node

---
 coerce/src/remote/api/sharding/node.rs | 61 +++++++++++++-------------
 1 file changed, 31 insertions(+), 30 deletions(-)

diff --git a/coerce/src/remote/api/sharding/node.rs b/coerce/src/remote/api/sharding/node.rs
index 7aeec34..c035dca 100644
--- a/coerce/src/remote/api/sharding/node.rs
+++ b/coerce/src/remote/api/sharding/node.rs
@@ -3,7 +3,7 @@ use crate::actor::message::{Handler, Message};
 use crate::actor::LocalActorRef;
 use crate::remote::api::sharding::ShardingApi;
 
-use crate::sharding::host::stats::GetStats as GetHostStats;
+use crate::sharding::host::stats::{GetStats as GetHostStats, HostStats};
 use axum::extract::Path;
 use axum::response::IntoResponse;
 use axum::Json;
@@ -32,6 +32,34 @@ pub struct ShardStats {
     pub node_id: u64,
     pub entities: Vec<String>,
 }
+
+impl Stats {
+    fn new(entity: String, host_stats: HostStats) -> Self {
+        Self {
+            entity,
+            total_shards: host_stats.hosted_shard_count + host_stats.remote_shard_count,
+            hosted_shards: host_stats
+                .hosted_shards
+                .into_iter()
+                .map(|(shard_id, shard)| {
+                    let stats = ShardStats {
+                        shard_id: shard.shard_id,
+                        node_id: shard.node_id,
+                        entities: shard.entities.into_iter().collect(),
+                    };
+
+                    (shard_id, stats)
+                })
+                .collect(),
+            remote_shards: host_stats
+                .remote_shards
+                .into_iter()
+                .map(|s| (s.shard_id, s.node_id))
+                .collect(),
+        }
+    }
+}
+
 impl Message for GetStats {
     type Result = Option<Stats>;
 }
@@ -47,19 +75,7 @@ impl Handler<GetStats> for ShardingApi {
             let host_stats = host.send(GetHostStats).await;
             if let Ok(host_stats_receiver) = host_stats {
                 if let Ok(host_stats) = host_stats_receiver.await {
-                    let total_shards =
-                        host_stats.hosted_shard_count + host_stats.remote_shard_count;
-
-                    Some(Stats {
-                        entity: message.0,
-                        hosted_shards: HashMap::new(), /*host_stats.hosted_shards,*/
-                        remote_shards: HashMap::new(), /*host_stats
-                                                       .remote_shards
-                                                       .into_iter()
-                                                       .map(|s| (s.shard_id, s.node_id))
-                                                       .collect(),*/
-                        total_shards,
-                    })
+                    Some(Stats::new(message.0, host_stats))
                 } else {
                     None
                 }
@@ -84,22 +100,7 @@ impl Handler<GetAllStats> for ShardingApi {
             let host_stats = host.send(GetHostStats).await;
             if let Ok(host_stats_receiver) = host_stats {
                 if let Ok(host_stats) = host_stats_receiver.await {
-                    let total_shards =
-                        host_stats.hosted_shard_count + host_stats.remote_shard_count;
-
-                    stats.insert(
-                        entity.clone(),
-                        Stats {
-                            entity: entity.clone(),
-                            hosted_shards: HashMap::new(), /*host_stats.hosted_shards*/
-                            remote_shards: HashMap::new(), /*host_stats
-                                                           .remote_shards
-                                                           .into_iter()
-                                                           .map(|s| (s.shard_id, s.node_id))
-                                                           .collect()*/
-                            total_shards,
-                        },
-                    );
+                    stats.insert(entity.clone(), Stats::new(entity.clone(), host_stats));
                 }
             }
         }
-- 
2.43.0


From 7ded0e82c54dbec45bc5fdb97d923accdf18e78a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:40:39 +0000
Subject: [PATCH 51/57] fix: the API answers although a shard or the
 coordinator cannot be reached

---
 coerce/src/remote/api/sharding/cluster.rs | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/coerce/src/remote/api/sharding/cluster.rs b/coerce/src/remote/api/sharding/cluster.rs
index 7c801e7..34e9053 100644
--- a/coerce/src/remote/api/sharding/cluster.rs
+++ b/coerce/src/remote/api/sharding/cluster.rs
@@ -135,8 +135,12 @@ impl Handler<GetClusterStats> for ShardingApi {
             let shard_host = shard_host;
             let coordinator = shard_host.send(GetCoordinator).await;
 
-            if let Ok(coordinator) = coordinator {
-                let sharding_stats = coordinator.send(GetShardingStats).await.unwrap();
+            let sharding_stats = match coordinator {
+                Ok(coordinator) => coordinator.send(GetShardingStats).await,
+                Err(e) => Err(e),
+            };
+
+            if let Ok(sharding_stats) = sharding_stats {
                 let shards: Vec<ActorRef<Shard>> =
                     get_shards(&message.entity_type, &remote, sharding_stats.shards).await;
                 let nodes: Vec<ShardingNode> =
@@ -145,11 +149,9 @@ impl Handler<GetClusterStats> for ShardingApi {
                     join_all(shards.iter().map(|f| f.send(GetShardStats)))
                         .await
                         .into_iter()
-                        .map(|s| {
-                            s /*todo: this unwrap may not be safe..*/
-                                .unwrap()
-                                .into()
-                        })
+                        // shards that cannot be reached (stopping, or on a node that is gone)
+                        .filter_map(|s| s.ok())
+                        .map(|s| s.into())
                         .collect();
 
                 let _ = tx.send(Some(ShardingClusterStats {
@@ -222,7 +224,7 @@ pub async fn get_sharding_stats(
         .await
         .unwrap();
     if let Some(cluster_stats_receiver) = cluster_stats {
-        Json(cluster_stats_receiver.await.unwrap())
+        Json(cluster_stats_receiver.await.unwrap_or_default())
     } else {
         Json(None)
     }
@@ -237,7 +239,7 @@ pub async fn get_shard_host_stats(
         .await
         .unwrap();
     if let Some(host_stats) = host_stats {
-        Json(host_stats.await.unwrap())
+        Json(host_stats.await.unwrap_or_default())
     } else {
         Json(None)
     }
-- 
2.43.0


From 5c259d727feb10c5f1d7abf7795cc562bca15a92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:41:09 +0000
Subject: [PATCH 52/57] fix: a remote request reaches the actor its id denotes
 after the id was taken over

---
 coerce/src/actor/scheduler/mod.rs |  7 ++++++
 coerce/src/remote/handler.rs      | 37 +++++++++++++++++++++++++------
 2 files changed, 37 insertions(+), 7 deletions(-)

diff --git a/coerce/src/actor/scheduler/mod.rs b/coerce/src/actor/scheduler/mod.rs
index 7d0cf9c..13c32c6 100644
--- a/coerce/src/actor/scheduler/mod.rs
+++ b/coerce/src/actor/scheduler/mod.rs
@@ -224,6 +224,13 @@ where
                 previous_actor = previous_actor.actor_id().as_ref(),
                 "actor replaced with a new reference and is no longer tracked by the scheduler"
             );
+
+            #[cfg(feature = "remote")]
+            if let (Some(remote), Some(actor)) = (&self.remote, self.actors.get(&actor_id)) {
+                let system_id = remote.actor_system().system_id();
+                crate::remote::handler::actor_replaced(system_id, &actor_id, actor.clone());
+            }
+
             return;
         }
 
diff --git a/coerce/src/remote/handler.rs b/coerce/src/remote/handler.rs
index d8924e2..4830123 100644
--- a/coerce/src/remote/handler.rs
+++ b/coerce/src/remote/handler.rs
@@ -8,6 +8,7 @@ use crate::actor::{
 use crate::remote::actor::{BoxedActorHandler, BoxedMessageHandler};
 
 use std::any::{Any, TypeId};
+use std::collections::hash_map::Entry;
 use std::collections::HashMap;
 use std::marker::PhantomData;
 
@@ -201,6 +202,23 @@ impl ActorRefCache {
             .insert((*system_id, actor_id.clone()), actor_ref);
     }
 
+    /// Adds the reference unless there is a valid one already, returns the one that is cached
+    pub fn add_if_invalid(
+        &self,
+        system_id: &Uuid,
+        actor_id: &ActorId,
+        actor_ref: BoxedActorRef,
+    ) -> BoxedActorRef {
+        match self.inner.lock().entry((*system_id, actor_id.clone())) {
+            Entry::Occupied(entry) if entry.get().is_valid() => entry.get().clone(),
+            Entry::Occupied(mut entry) => {
+                entry.insert(actor_ref.clone());
+                actor_ref
+            }
+            Entry::Vacant(entry) => entry.insert(actor_ref).clone(),
+        }
+    }
+
     pub fn get(&self, system_id: &Uuid, actor_id: &ActorId) -> Option<BoxedActorRef> {
         self.inner
             .lock()
@@ -219,6 +237,11 @@ lazy_static! {
     static ref ACTOR_REF_CACHE: ActorRefCache = ActorRefCache::new();
 }
 
+/// The actor id now denotes another actor, although its previous one may still be running
+pub(crate) fn actor_replaced(system_id: &Uuid, actor_id: &ActorId, actor_ref: BoxedActorRef) {
+    ACTOR_REF_CACHE.add(system_id, actor_id, actor_ref);
+}
+
 pub fn actor_ref_cache_size() -> usize {
     ACTOR_REF_CACHE.len()
 }
@@ -237,13 +260,13 @@ async fn get_actor_ref<A: Actor>(
     }
 
     if let Some(actor_ref) = system.get_tracked_actor::<A>(actor_id.clone()).await {
-        ACTOR_REF_CACHE.add(
-            system.system_id(),
-            actor_id,
-            BoxedActorRef::from(actor_ref.clone()),
-        );
-
-        Some(actor_ref)
+        ACTOR_REF_CACHE
+            .add_if_invalid(
+                system.system_id(),
+                actor_id,
+                BoxedActorRef::from(actor_ref),
+            )
+            .as_actor()
     } else {
         None
     }
-- 
2.43.0


From 55c37a2aa283ad0a65268c706bd502ea22a47be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:43:20 +0000
Subject: [PATCH 53/57] fix: a message too large for a frame fails its request,
 not the connection

---
 coerce/src/remote/net/message.rs            | 29 +++++++++++++++++++++
 coerce/src/remote/net/server/session/mod.rs | 13 ++++++---
 coerce/src/remote/system/cluster.rs         |  4 +++
 coerce/src/remote/system/rpc.rs             |  6 ++++-
 4 files changed, 48 insertions(+), 4 deletions(-)

diff --git a/coerce/src/remote/net/message.rs b/coerce/src/remote/net/message.rs
index 2907f77..d48ed4c 100644
--- a/coerce/src/remote/net/message.rs
+++ b/coerce/src/remote/net/message.rs
@@ -156,8 +156,37 @@ impl StreamData for SessionEvent {
     }
 }
 
+/// The largest message (including the event id) that fits into one frame of the stream between
+/// two nodes, which is the limit of `LengthDelimitedCodec`.
+const MAX_MESSAGE_SIZE: u64 = 8 * 1024 * 1024;
+
+impl SessionEvent {
+    /// Whether the message can be sent to another node, given its size
+    pub(crate) fn fits_frame(&self) -> bool {
+        match self {
+            SessionEvent::NotifyActor(e) => fits_frame(e),
+            SessionEvent::CreateActor(e) => fits_frame(e),
+            SessionEvent::StreamPublish(e) => fits_frame(e.as_ref()),
+            SessionEvent::Result(e) => fits_frame(e),
+            _ => true,
+        }
+    }
+}
+
+pub(crate) fn fits_frame<M: Message>(message: &M) -> bool {
+    message.compute_size() < MAX_MESSAGE_SIZE
+}
+
 fn write_event(event_id: Event, message: Result<Vec<u8>, Error>) -> Option<Vec<u8>> {
     match message {
+        Ok(message) if message.len() as u64 >= MAX_MESSAGE_SIZE => {
+            error!(
+                "message is too large to be sent (size={}, event={:?})",
+                message.len(),
+                event_id
+            );
+            None
+        }
         Ok(mut message) => {
             message.insert(0, event_id as u8);
             Some(message)
diff --git a/coerce/src/remote/net/server/session/mod.rs b/coerce/src/remote/net/server/session/mod.rs
index 50633dc..a233601 100644
--- a/coerce/src/remote/net/server/session/mod.rs
+++ b/coerce/src/remote/net/server/session/mod.rs
@@ -1,12 +1,13 @@
 use crate::actor::context::{ActorContext, LogContext};
 use crate::actor::message::{Handler, Message};
+use crate::actor::message::MessageWrapErr;
 use crate::actor::{Actor, ActorId, ActorRefErr, IntoActorId, LocalActorRef};
 use crate::remote::actor::message::NodeTerminated;
 use crate::remote::actor::RemoteResponse;
 use crate::remote::cluster::discovery::{Discover, Seed};
 use crate::remote::cluster::node::{NodeAttributes, RemoteNode};
 use crate::remote::net::message::{
-    datetime_to_timestamp, timestamp_to_datetime, ClientEvent, SessionEvent,
+    datetime_to_timestamp, fits_frame, timestamp_to_datetime, ClientEvent, SessionEvent,
 };
 use crate::remote::net::proto::network::{
     ActorAddress, ClientErr, ClientHandshake, ClientResult, CreateActorEvent, MessageRequest,
@@ -680,12 +681,18 @@ async fn send_result(
 ) {
     trace!("sending result");
 
-    let event = ClientEvent::Result(ClientResult {
+    let result = ClientResult {
         message_id,
         result: res,
         ..ClientResult::default()
-    });
+    };
+
+    if !fits_frame(&result) {
+        let error = ActorRefErr::Serialisation(MessageWrapErr::SerializationErr);
+        return send_err(result.message_id, error, session_id, session).await;
+    }
 
+    let event = ClientEvent::Result(result);
     if session.send(SessionWrite(session_id, event)).await.is_ok() {
         trace!("sent result successfully");
     } else {
diff --git a/coerce/src/remote/system/cluster.rs b/coerce/src/remote/system/cluster.rs
index b49c1c1..18fb468 100644
--- a/coerce/src/remote/system/cluster.rs
+++ b/coerce/src/remote/system/cluster.rs
@@ -31,6 +31,10 @@ impl RemoteActorSystem {
 
     /// Returns false when there is no connection to the node.
     pub async fn notify_node(&self, node_id: NodeId, message: SessionEvent) -> bool {
+        if !message.fits_frame() {
+            return false;
+        }
+
         self.inner
             .clients_ref
             .send(ClientWrite(node_id, message))
diff --git a/coerce/src/remote/system/rpc.rs b/coerce/src/remote/system/rpc.rs
index 680ca8f..e7d6795 100644
--- a/coerce/src/remote/system/rpc.rs
+++ b/coerce/src/remote/system/rpc.rs
@@ -4,6 +4,7 @@ use std::fmt::{Display, Formatter};
 use tokio::sync::oneshot;
 use uuid::Uuid;
 
+use crate::actor::message::MessageWrapErr;
 use crate::actor::{ActorId, ActorRefErr};
 use crate::remote::actor::{RemoteRequest, RemoteResponse};
 use crate::remote::net::message::SessionEvent;
@@ -131,7 +132,10 @@ impl RemoteActorSystem {
                 ..Default::default()
             });
 
-            if !self.notify_node(node_id, result).await {
+            if !result.fits_frame() {
+                let error = ActorRefErr::Serialisation(MessageWrapErr::SerializationErr);
+                self.notify_rpc_err(request_id, error, node_id).await;
+            } else if !self.notify_node(node_id, result).await {
                 error!(
                     "unable to send result to target node (node_id={}, request_id={})",
                     &node_id, &request_id
-- 
2.43.0


From f017377fe45615f2929292cacf1dc21c3788cbcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:05:09 +0000
Subject: [PATCH 54/57] fix: a client whose connection is closed before the
 node identified itself connects again

---
 coerce/src/remote/net/client/receive.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/coerce/src/remote/net/client/receive.rs b/coerce/src/remote/net/client/receive.rs
index d22b556..7013e71 100644
--- a/coerce/src/remote/net/client/receive.rs
+++ b/coerce/src/remote/net/client/receive.rs
@@ -153,6 +153,11 @@ impl StreamReceiver for ClientMessageReceiver {
     }
 
     async fn on_close(&mut self, _sys: &RemoteActorSystem) {
+        if self.identity_sender.take().is_some() {
+            // the client still waits for the identity, and is told by this that it never arrives
+            return;
+        }
+
         info!("closed, sending `Disconnected` to {:?}", &self.actor_ref);
         let _ = self.actor_ref.send(Disconnected).await;
     }
-- 
2.43.0


From 09bffafa67efc73bfc51c9de7a3eef665ffd6e32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:52 +0000
Subject: [PATCH 55/57] fix: a terminated node stays terminated until it
 answers

---
 coerce/src/remote/heartbeat/mod.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/coerce/src/remote/heartbeat/mod.rs b/coerce/src/remote/heartbeat/mod.rs
index 9ed46e5..3502bce 100644
--- a/coerce/src/remote/heartbeat/mod.rs
+++ b/coerce/src/remote/heartbeat/mod.rs
@@ -477,6 +477,13 @@ fn node_status(
             }
         }
 
+        // only an answer brings a terminated node back, not the late result of an earlier ping
+        Some(PingResult::Timeout) | Some(PingResult::Err)
+            if previous_status == NodeStatus::Terminated =>
+        {
+            NodeStatus::Terminated
+        }
+
         Some(PingResult::Timeout) => {
             let terminated = last_heartbeat.map_or(true, |h| {
                 h.add(chrono::Duration::from_std(config.terminated_node_heartbeat_timeout).unwrap())
-- 
2.43.0


From 8db03b66b46a1154e7df2215cf8b5e58e24ec620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:52 +0000
Subject: [PATCH 56/57] fix: a node that was lost or cannot be reached is no
 member when its removal is announced

---
 coerce/src/remote/cluster/discovery/mod.rs | 29 ++++++++++++++--------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/coerce/src/remote/cluster/discovery/mod.rs b/coerce/src/remote/cluster/discovery/mod.rs
index f555dd3..d9e907a 100644
--- a/coerce/src/remote/cluster/discovery/mod.rs
+++ b/coerce/src/remote/cluster/discovery/mod.rs
@@ -1,7 +1,7 @@
 use crate::actor::context::ActorContext;
 use crate::actor::message::{Handler, Message};
 use crate::actor::Actor;
-use crate::remote::actor::message::SetRemote;
+use crate::remote::actor::message::{NodeTerminated, SetRemote};
 use crate::remote::cluster::node::{NodeIdentity, NodeStatus, RemoteNode};
 
 use crate::remote::net::client::RemoteClientRef;
@@ -185,24 +185,29 @@ impl Handler<Forget> for NodeDiscovery {
             if let Some(node) = node {
                 if let Some(system) = self.remote_system.as_ref() {
                     let system = system.clone();
-                    let node = Arc::new(node.node.clone());
+                    let node = node.node.clone();
 
                     // TODO: if configured to do so, remove the node from the RemoteRegistry/RemoteNodeStore
 
-                    let _ = tokio::spawn(async move {
-                        PubSub::publish_locally(
-                            SystemTopic,
-                            SystemEvent::Cluster(ClusterEvent::NodeRemoved(node)),
-                            &system,
-                        )
-                        .await;
-                    });
+                    let _ = tokio::spawn(node_removed(node, system));
                 }
             }
         }
     }
 }
 
+/// Whoever misses the event finds the node marked as terminated
+async fn node_removed(node: RemoteNode, system: RemoteActorSystem) {
+    let _ = system.heartbeat().send(NodeTerminated(node.id)).await;
+
+    PubSub::publish_locally(
+        SystemTopic,
+        SystemEvent::Cluster(ClusterEvent::NodeRemoved(Arc::new(node))),
+        &system,
+    )
+    .await;
+}
+
 struct NodeDiscovered {
     node: RemoteNode,
     successful: bool,
@@ -233,6 +238,10 @@ impl Handler<NodeDiscovered> for NodeDiscovery {
                 message.node.id,
                 remote.node_id()
             );
+
+            // the node cannot be reached: it is no member until it is discovered again
+            self.discovering_nodes.remove(&message.node.id);
+            tokio::spawn(node_removed(message.node, remote.clone()));
         }
     }
 }
-- 
2.43.0


From 1df68aa05e0b5dd114714a3c2554844763eba6a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:52 +0000
Subject: [PATCH 57/57] fix: a node is told of the shards allocated to it
 before it could be reached

---
 coerce/src/sharding/coordinator/discovery.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/coerce/src/sharding/coordinator/discovery.rs b/coerce/src/sharding/coordinator/discovery.rs
index f83bd56..92c5581 100644
--- a/coerce/src/sharding/coordinator/discovery.rs
+++ b/coerce/src/sharding/coordinator/discovery.rs
@@ -1,6 +1,8 @@
 use crate::actor::context::ActorContext;
 use crate::actor::message::{Handler, Message};
+use crate::actor::ActorRef;
 use crate::remote::cluster::node::RemoteNode;
+use crate::sharding::coordinator::allocation::broadcast_allocation;
 use crate::sharding::coordinator::balancing::Rebalance;
 use crate::sharding::coordinator::{ShardCoordinator, ShardHostState, ShardHostStatus};
 use crate::sharding::host::ShardHost;
@@ -38,6 +40,14 @@ impl ShardCoordinator {
                 if node.status != ShardHostStatus::Ready {
                     node.status = ShardHostStatus::Ready;
                     self.schedule_full_rebalance(ctx);
+                } else {
+                    // the node could not be reached when shards were allocated to it
+                    let shards = node.shards.clone();
+                    let hosts = self.hosts.values().map(|h| h.actor.clone());
+                    let hosts = hosts.collect::<Vec<ActorRef<ShardHost>>>();
+                    for shard_id in shards {
+                        tokio::spawn(broadcast_allocation(shard_id, new_node.id, hosts.clone()));
+                    }
                 }
             }
 
-- 
2.43.0

