//! C10: recovery of persistent actors.
use crate::store::{Fault, Provider, Store};
use coerce::actor::context::ActorContext;
use coerce::actor::message::{Handler, Message};
use coerce::actor::scheduler::ActorType;
use coerce::actor::system::ActorSystem;
use coerce::actor::{ActorRefErr, LocalActorRef};
use coerce::persistent::journal::types::JournalTypes;
use coerce::persistent::{Persistence, PersistentActor, Recover, RecoverSnapshot};
use coerce_macros::{JsonMessage, JsonSnapshot};
use parking_lot::Mutex;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::sync::Arc;
use vf::rt::{self, within};
use vf::*;

#[derive(Debug, Clone, Serialize, Deserialize, PartialEq)]
pub enum Do {
    Persist(bool),
    Batch(Vec<bool>),
    Snapshot(bool),
    Clear,
}
#[derive(Debug, Clone, Serialize, Deserialize, PartialEq)]
pub enum Op {
    Do(u8, Do),
    /// several operations at once, to several actors
    Burst(Vec<(u8, Do)>),
    /// storage fails this often (applying the write or not), the actor retries
    Flaky(u8, Do, Vec<bool>),
    Stop(u8),
    Panic(u8),
    /// the process dies while the actor waits for the storage
    Crash(u8, Do, bool),
    /// the process dies when nothing is going on
    CrashIdle,
    Check(u8),
}
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Case {
    set_like: bool,
    own_provider: bool,
    ops: Vec<Op>,
}

// equal payloads are common on purpose
#[derive(JsonMessage, Serialize, Deserialize, Clone, Debug)]
#[result("()")]
struct Add(u32);
#[derive(JsonMessage, Serialize, Deserialize, Clone, Debug)]
#[result("()")]
struct Note(String);
#[derive(JsonSnapshot, Serialize, Deserialize)]
struct Full {
    state: Vec<String>,
}
#[derive(JsonSnapshot, Serialize, Deserialize)]
struct Rev {
    etats: Vec<String>,
}

struct Cmd(Do, Vec<u32>);
impl Message for Cmd {
    /// the error text, or the effects that were acknowledged
    type Result = Result<Vec<String>, String>;
}
struct Get;
impl Message for Get {
    type Result = Vec<String>;
}
struct Boom;
impl Message for Boom {
    type Result = ();
}

type Recovered = Arc<Mutex<Vec<(usize, Vec<String>)>>>;

macro_rules! actor {
    ($name:ident, $add:literal, $note:literal, $full:literal, $rev:literal) => {
        struct $name {
            slot: usize,
            key: Option<String>,
            state: Vec<String>,
            recovered: Recovered,
            ready: bool,
        }
        #[async_trait]
        impl PersistentActor for $name {
            fn persistence_key(&self, ctx: &ActorContext) -> String {
                self.key.clone().unwrap_or_else(|| ctx.id().to_string())
            }
            fn configure(types: &mut JournalTypes<Self>) {
                types.message::<Add>($add).message::<Note>($note).snapshot::<Full>($full).snapshot::<Rev>($rev);
            }
            async fn post_recovery(&mut self, _: &mut ActorContext) {
                self.ready = true;
                self.recovered.lock().push((self.slot, self.state.clone()));
            }
        }
        #[async_trait]
        impl Recover<Add> for $name {
            async fn recover(&mut self, m: Add, _: &mut ActorContext) {
                tokio::task::yield_now().await;
                self.state.push(format!("a{}", m.0));
            }
        }
        #[async_trait]
        impl Recover<Note> for $name {
            async fn recover(&mut self, m: Note, _: &mut ActorContext) {
                self.state.push(format!("n{}", m.0));
            }
        }
        #[async_trait]
        impl RecoverSnapshot<Full> for $name {
            async fn recover(&mut self, s: Full, _: &mut ActorContext) {
                self.state = s.state;
            }
        }
        #[async_trait]
        impl RecoverSnapshot<Rev> for $name {
            async fn recover(&mut self, s: Rev, _: &mut ActorContext) {
                self.state = s.etats.into_iter().rev().collect();
            }
        }
        #[async_trait]
        impl Handler<Cmd> for $name {
            async fn handle(&mut self, c: Cmd, ctx: &mut ActorContext) -> Result<Vec<String>, String> {
                if !self.ready {
                    return Err("handled before recovery".into());
                }
                match c.0 {
                    Do::Persist(true) => {
                        let m = Note(c.1[0].to_string());
                        self.persist(&m, ctx).await.map_err(|e| e.to_string())?;
                        self.state.push(format!("n{}", m.0));
                        Ok(vec![format!("n{}", m.0)])
                    }
                    Do::Persist(false) => {
                        let m = Add(c.1[0]);
                        self.persist(&m, ctx).await.map_err(|e| e.to_string())?;
                        self.state.push(format!("a{}", m.0));
                        Ok(vec![format!("a{}", m.0)])
                    }
                    Do::Batch(kinds) => {
                        let mut b = self.event_batch(ctx);
                        let mut eff = vec![];
                        for (k, v) in kinds.iter().zip(&c.1) {
                            if *k {
                                b.message(Note(v.to_string()));
                                eff.push(format!("n{v}"));
                            } else {
                                b.message(Add(*v));
                                eff.push(format!("a{v}"));
                            }
                        }
                        self.persist_batch(b, ctx).await.map_err(|e| e.to_string())?;
                        self.state.extend(eff.clone());
                        Ok(eff)
                    }
                    Do::Snapshot(rev) => {
                        let r = if rev {
                            self.snapshot(Rev { etats: self.state.iter().rev().cloned().collect() }, ctx).await
                        } else {
                            self.snapshot(Full { state: self.state.clone() }, ctx).await
                        };
                        r.map_err(|e| e.to_string())?;
                        Ok(vec![])
                    }
                    Do::Clear => {
                        self.clear_old_messages(ctx).await;
                        Ok(vec![])
                    }
                }
            }
        }
        #[async_trait]
        impl Handler<Get> for $name {
            async fn handle(&mut self, _: Get, _: &mut ActorContext) -> Vec<String> {
                self.state.clone()
            }
        }
        #[async_trait]
        impl Handler<Boom> for $name {
            async fn handle(&mut self, _: Boom, _: &mut ActorContext) {
                panic!("generated")
            }
        }
    };
}
actor!(P, "add", "note", "full", "rev");
// the same identifiers with the other meaning: only right if journals and types are kept apart
actor!(Q, "note", "add", "rev", "full");

#[derive(Clone)]
enum Ref {
    P(LocalActorRef<P>),
    Q(LocalActorRef<Q>),
}
impl Ref {
    async fn cmd(&self, c: Cmd) -> Result<Result<Vec<String>, String>, ActorRefErr> {
        match self {
            Ref::P(a) => a.send(c).await,
            Ref::Q(a) => a.send(c).await,
        }
    }
    async fn get(&self) -> Result<Vec<String>, ActorRefErr> {
        match self {
            Ref::P(a) => a.send(Get).await,
            Ref::Q(a) => a.send(Get).await,
        }
    }
    async fn stop(&self) -> Result<(), ActorRefErr> {
        match self {
            Ref::P(a) => a.stop().await,
            Ref::Q(a) => a.stop().await,
        }
    }
    async fn boom(&self) {
        let _ = match self {
            Ref::P(a) => a.send(Boom).await,
            Ref::Q(a) => a.send(Boom).await,
        };
    }
}
const SLOTS: usize = 4;
struct World {
    store: Arc<Store>,
    own: Option<Arc<Store>>,
    sys: ActorSystem,
    refs: Vec<Option<Ref>>,
    recovered: Recovered,
    /// acknowledged effects
    model: Vec<Vec<String>>,
    /// effects whose persistence was cut off by a crash
    maybe: Vec<Option<Vec<String>>>,
    serial: u32,
    recoveries: usize,
    deep: bool,
}
impl World {
    fn system(&self) -> ActorSystem {
        let mut p = Persistence::from(Provider(self.store.clone()));
        if let Some(o) = &self.own {
            p = p.actor_provider::<Q, _>(Provider(o.clone()));
        }
        ActorSystem::new().to_persistent(p)
    }
    fn store_of(&self, slot: usize) -> &Arc<Store> {
        match &self.own {
            Some(o) if slot >= 2 => o,
            _ => &self.store,
        }
    }
    async fn up(&mut self, slot: usize) -> Result<Ref, Fail> {
        if let Some(r) = &self.refs[slot] {
            return Ok(r.clone());
        }
        let n = self.recovered.lock().len();
        // keys that contain each other
        let (id, key) = [("k", None), ("k1", None), ("q-a", Some("k1/".to_string())), ("k11", None)][slot].clone();
        let r = if slot < 2 {
            Ref::P(
                within("start", self.sys.new_actor(id, P { slot, key, state: vec![], recovered: self.recovered.clone(), ready: false }, ActorType::Tracked))
                    .await?
                    .map_err(|e| Fail::Safety(format!("persistent actor did not start: {e:?}")))?,
            )
        } else {
            Ref::Q(
                within("start", self.sys.new_actor(id, Q { slot, key, state: vec![], recovered: self.recovered.clone(), ready: false }, ActorType::Tracked))
                    .await?
                    .map_err(|e| Fail::Safety(format!("persistent actor did not start: {e:?}")))?,
            )
        };
        let rec = self.recovered.lock()[n..].to_vec();
        ensure!(rec.len() == 1, "one start, {} recoveries", rec.len());
        let got = &rec[0].1;
        self.recoveries += 1;
        let with_maybe = self.maybe[slot].take().map(|m| [self.model[slot].clone(), m].concat());
        if with_maybe.as_ref() == Some(got) {
            self.model[slot] = got.clone();
        }
        ensure!(
            *got == self.model[slot],
            "actor {slot} recovered {:?}; acknowledged before: {:?}{}",
            got,
            self.model[slot],
            with_maybe.map_or(String::new(), |w| format!(" (or with the write that was cut off: {w:?})"))
        );
        self.deep |= got.len() >= 3;
        self.refs[slot] = Some(r.clone());
        Ok(r)
    }
    fn values(&mut self, d: &Do) -> Vec<u32> {
        let n = match d {
            Do::Persist(_) => 1,
            Do::Batch(k) => k.len(),
            _ => 0,
        };
        // small range: repeated payloads must not be confused with each other
        (0..n)
            .map(|_| {
                self.serial += 1;
                self.serial % 3
            })
            .collect()
    }
    fn down(&mut self) {
        self.refs.iter_mut().for_each(|r| *r = None);
        self.sys = self.system();
    }
}
fn effects(d: &Do, v: &[u32]) -> Vec<String> {
    match d {
        Do::Persist(k) => vec![format!("{}{}", if *k { 'n' } else { 'a' }, v[0])],
        Do::Batch(ks) => ks.iter().zip(v).map(|(k, v)| format!("{}{v}", if *k { 'n' } else { 'a' })).collect(),
        _ => vec![],
    }
}

async fn execute(case: &Case) -> CaseResult {
    let store = Store::new(case.set_like, true);
    let own = case.own_provider.then(|| Store::new(case.set_like, true));
    let mut w = World {
        sys: ActorSystem::new(),
        store,
        own,
        refs: vec![None; SLOTS],
        recovered: Default::default(),
        model: vec![vec![]; SLOTS],
        maybe: vec![None; SLOTS],
        serial: 0,
        recoveries: 0,
        deep: false,
    };
    w.sys = w.system();
    let mut crashes = 0;
    for op in &case.ops {
        match op {
            Op::Do(s, d) => {
                let s = *s as usize % SLOTS;
                let r = w.up(s).await?;
                let v = w.values(d);
                let got = within("command", r.cmd(Cmd(d.clone(), v.clone()))).await?;
                ensure!(got == Ok(Ok(effects(d, &v))), "{d:?} on a healthy storage resolved with {got:?}");
                w.model[s].extend(effects(d, &v));
            }
            Op::Burst(v) => {
                let mut hs = vec![];
                for (s, d) in v {
                    let s = *s as usize % SLOTS;
                    let r = w.up(s).await?;
                    let vals = w.values(d);
                    let want = effects(d, &vals);
                    w.model[s].extend(want.clone());
                    let d = d.clone();
                    hs.push((tokio::spawn(async move { r.cmd(Cmd(d, vals)).await }), want));
                }
                for (h, want) in hs {
                    let got = within("command", h).await?.expect("task");
                    ensure!(got == Ok(Ok(want)), "a command on a healthy storage resolved with {got:?}");
                }
            }
            Op::Flaky(s, d, pattern) => {
                let s = *s as usize % SLOTS;
                let r = w.up(s).await?;
                let v = w.values(d);
                // clearing does not retry
                if *d != Do::Clear && !matches!(d, Do::Batch(b) if b.is_empty()) {
                    *w.store_of(s).script.lock() = pattern.iter().map(|a| if *a && case.set_like { Fault::ErrAfter } else { Fault::Err }).collect();
                }
                let got = within("command under retry", r.cmd(Cmd(d.clone(), v.clone()))).await?;
                ensure!(got == Ok(Ok(effects(d, &v))), "{d:?} with {} storage failures and unlimited retry resolved with {got:?}", pattern.len());
                w.model[s].extend(effects(d, &v));
                ensure!(w.store_of(s).script.lock().is_empty(), "{d:?} was acknowledged before the storage accepted it");
            }
            Op::Stop(s) => {
                let s = *s as usize % SLOTS;
                if let Some(r) = w.refs[s].take() {
                    let _ = within("stop", r.stop()).await?;
                }
            }
            Op::Panic(s) => {
                let s = *s as usize % SLOTS;
                if let Some(r) = w.refs[s].take() {
                    within("panic", r.boom()).await?;
                }
            }
            Op::Crash(s, d, after) => {
                let s = *s as usize % SLOTS;
                let r = w.up(s).await?;
                let v = w.values(d);
                if !matches!(d, Do::Batch(b) if b.is_empty()) {
                    w.store_of(s).script.lock().push_back(if *after { Fault::HangAfter } else { Fault::HangBefore });
                }
                let d2 = d.clone();
                let v2 = v.clone();
                tokio::spawn(async move { r.cmd(Cmd(d2, v2)).await });
                rt::settle(50).await;
                w.store.script.lock().clear();
                if let Some(o) = &w.own {
                    o.script.lock().clear();
                }
                w.maybe[s] = Some(effects(d, &v));
                w.down();
                crashes += 1;
            }
            Op::CrashIdle => {
                w.down();
                crashes += 1;
            }
            Op::Check(s) => {
                let s = *s as usize % SLOTS;
                let r = w.up(s).await?;
                let got = within("query", r.get()).await?;
                ensure!(got.as_ref() == Ok(&w.model[s]), "actor {s} has the state {got:?}, acknowledged: {:?}", w.model[s]);
            }
        }
    }
    // twice, to see that recovering changes nothing
    for _ in 0..2 {
        w.down();
        for s in 0..SLOTS {
            w.up(s).await?;
        }
    }
    let snaps = case.ops.iter().any(|o| matches!(o, Op::Do(_, Do::Snapshot(_)) | Op::Flaky(_, Do::Snapshot(_), _)));
    Ok(CaseOut::new(w.deep && w.recoveries > 8)
        .label(crashes > 0, "crash")
        .label(snaps, "snapshot")
        .label(case.ops.iter().any(|o| matches!(o, Op::Flaky(..))), "storage failures")
        .label(case.set_like, "sorted-set storage")
        .label(case.own_provider, "provider per actor type"))
}

fn doing() -> impl Strategy<Value = Do> {
    prop_oneof![
        6 => any::<bool>().prop_map(Do::Persist),
        3 => prop::collection::vec(any::<bool>(), 0..5).prop_map(Do::Batch),
        3 => any::<bool>().prop_map(Do::Snapshot),
        1 => Just(Do::Clear),
    ]
}
fn op() -> impl Strategy<Value = Op> {
    // most traffic on few actors
    let slot = || prop_oneof![3 => Just(0u8), 1 => Just(1u8), 2 => Just(2u8), 1 => Just(3u8)];
    prop_oneof![
        8 => (slot(), doing()).prop_map(|(s, d)| Op::Do(s, d)),
        2 => prop::collection::vec((slot(), doing()), 1..6).prop_map(Op::Burst),
        2 => (slot(), doing(), prop::collection::vec(any::<bool>(), 1..4)).prop_map(|(s, d, p)| Op::Flaky(s, d, p)),
        2 => slot().prop_map(Op::Stop),
        1 => slot().prop_map(Op::Panic),
        2 => (slot(), doing(), any::<bool>()).prop_map(|(s, d, a)| Op::Crash(s, d, a)),
        1 => Just(Op::CrashIdle),
        1 => slot().prop_map(Op::Check),
    ]
}
struct Hist;
impl Part for Hist {
    type Case = Case;
    fn name(&self) -> &'static str {
        "histories"
    }
    fn rule(&self) -> &'static str {
        "1-30 operations on four persistent actors of two types with related keys: persist, batch, snapshot (two kinds of each), clear, bursts, storage failures under retry, stop, panic, process crash before or after the storage applied a write; every start compares the recovered state with the acknowledged effects, and everything is recovered twice at the end; non-trivial: more than the final recoveries, and a recovered state of three or more effects."
    }
    fn strategy(&self, t: Tier) -> BoxedStrategy<Case> {
        let n = if t == Tier::Quick { 30 } else { 80 };
        (any::<bool>(), any::<bool>(), prop::collection::vec(op(), 1..n)).prop_map(|(set_like, own_provider, ops)| Case { set_like, own_provider, ops }).boxed()
    }
    fn cases(&self, t: Tier) -> u32 {
        if t == Tier::Quick { 6_000 } else { 120_000 }
    }
    fn check(&self, c: &Case) -> CaseResult {
        block_on_paused(async { tokio::time::timeout(rt::VIRT * 20, execute(c)).await.unwrap_or_else(|_| Err(Fail::Safety("case never completed".into()))) })
    }
}
pub fn run() {
    Runner::from_args("C10").part(Hist).finish()
}
