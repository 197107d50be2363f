//! C13: the Redis journal storage against a model, with a real server.
use coerce::actor::context::ActorContext;
use coerce::actor::message::{Handler, Message};
use coerce::actor::scheduler::ActorType;
use coerce::actor::system::ActorSystem;
use coerce::actor::LocalActorRef;
use coerce::persistent::journal::provider::StorageProvider;
use coerce::persistent::journal::types::JournalTypes;
use coerce::persistent::{Persistence, PersistentActor, Recover, RecoverSnapshot};
use coerce_macros::{JsonMessage, JsonSnapshot};
use coerce_redis::journal::{RedisStorageConfig, RedisStorageProvider};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::process::{Child, Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, Instant};
use vf::storage::{drive, ops, Case, Driver, KEYS};
use vf::*;

struct Server {
    url: String,
    _guard: Child,
    dir: std::path::PathBuf,
}
/// The server lives in a scratch directory, listens on a unix socket only, and ends with us.
fn server() -> Server {
    let dir = std::env::temp_dir().join(format!("vf-redis-{}-{}", std::process::id(), uuid::Uuid::new_v4().simple()));
    std::fs::create_dir_all(&dir).expect("scratch");
    let sock = dir.join("s");
    let script = format!(
        "redis-server --port 0 --unixsocket {} --save '' --appendonly no --dir {} --databases 1 >/dev/null 2>&1 & P=$!; cat >/dev/null; kill -9 $P",
        sock.display(),
        dir.display()
    );
    let child = Command::new("sh").arg("-c").arg(script).stdin(Stdio::piped()).spawn().expect("redis-server");
    let t = Instant::now();
    let url = format!("unix://{}", sock.display());
    loop {
        if let Ok(c) = redis::Client::open(url.clone()) {
            if c.get_connection().is_ok() {
                break;
            }
        }
        if t.elapsed() > Duration::from_secs(30) {
            eprintln!("redis-server does not come up");
            std::process::exit(2);
        }
        std::thread::sleep(Duration::from_millis(20));
    }
    Server { url, _guard: child, dir }
}
static CASE: AtomicU64 = AtomicU64::new(0);

fn config(url: &str, prefix: &str, hashtags: bool) -> RedisStorageConfig {
    RedisStorageConfig { nodes: vec![url.into()], key_prefix: prefix.into(), cluster: false, use_key_hashtags: hashtags }
}
fn real() -> tokio::runtime::Runtime {
    tokio::runtime::Builder::new_current_thread().enable_all().build().expect("runtime")
}

struct Model<'a>(&'a Server);
impl Part for Model<'_> {
    type Case = Case;
    fn name(&self) -> &'static str {
        "model"
    }
    fn rule(&self) -> &'static str {
        "1-40 operations (snapshot, message, batch, concurrent writes, latest snapshot, messages from, one message, inclusive range, delete up to, delete all, jump to sequences up to 2^52, reconnect) on eight related keys against a redis-server, with and without key hash tags, boundaries chosen on, next to and between the stored sequences; every read is compared with a model and the whole content at the end through a new connection; non-trivial: at least three messages were read and two keys used."
    }
    fn strategy(&self, t: Tier) -> BoxedStrategy<Case> {
        let n = if t == Tier::Quick { 40 } else { 100 };
        (ops(n, true, true), 0u8..2).prop_map(|(ops, variant)| Case { ops, variant }).boxed()
    }
    fn cases(&self, t: Tier) -> u32 {
        if t == Tier::Quick { 3_000 } else { 60_000 }
    }
    fn check(&self, c: &Case) -> CaseResult {
        real().block_on(async {
            let prefix = format!("c{};", CASE.fetch_add(1, Ordering::Relaxed));
            let d = Driver { key: Box::new(|k| KEYS[k].to_string()), keys: KEYS.len() };
            let connect = || {
                let cfg = config(&self.0.url, &prefix, c.variant == 1);
                async move {
                    let sys = ActorSystem::new();
                    RedisStorageProvider::connect(cfg, &sys).await.journal_storage().expect("storage")
                }
            };
            let r = tokio::time::timeout(Duration::from_secs(60), drive(c, &d, connect))
                .await
                .unwrap_or_else(|_| Err(Fail::Deadline("a storage operation did not resolve within 60 s".into())));
            let s = connect().await;
            for k in KEYS {
                let _ = s.delete_all(k).await;
            }
            r
        })
    }
}

// persistent actors on top of it
#[derive(JsonMessage, Serialize, Deserialize, Clone, Debug)]
#[result("()")]
struct Add(u32);
#[derive(JsonSnapshot, Serialize, Deserialize)]
struct Full {
    state: Vec<u32>,
}
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
enum Do {
    Persist,
    Batch(u8),
    Snapshot,
    Clear,
}
struct Cmd(Do, u32);
impl Message for Cmd {
    type Result = Result<(), String>;
}
struct Get;
impl Message for Get {
    type Result = Vec<u32>;
}
struct P {
    state: Vec<u32>,
}
#[async_trait]
impl PersistentActor for P {
    fn configure(types: &mut JournalTypes<Self>) {
        types.message::<Add>("add").snapshot::<Full>("full");
    }
}
#[async_trait]
impl Recover<Add> for P {
    async fn recover(&mut self, m: Add, _: &mut ActorContext) {
        self.state.push(m.0);
    }
}
#[async_trait]
impl RecoverSnapshot<Full> for P {
    async fn recover(&mut self, s: Full, _: &mut ActorContext) {
        self.state = s.state;
    }
}
#[async_trait]
impl Handler<Cmd> for P {
    async fn handle(&mut self, c: Cmd, ctx: &mut ActorContext) -> Result<(), String> {
        match c.0 {
            Do::Persist => {
                self.persist(&Add(c.1), ctx).await.map_err(|e| e.to_string())?;
                self.state.push(c.1);
            }
            Do::Batch(n) => {
                let mut b = self.event_batch(ctx);
                for i in 0..n as u32 {
                    b.message(Add(c.1 + i));
                }
                self.persist_batch(b, ctx).await.map_err(|e| e.to_string())?;
                self.state.extend((0..n as u32).map(|i| c.1 + i));
            }
            Do::Snapshot => self.snapshot(Full { state: self.state.clone() }, ctx).await.map_err(|e| e.to_string())?,
            Do::Clear => {
                self.clear_old_messages(ctx).await;
            }
        }
        Ok(())
    }
}
#[async_trait]
impl Handler<Get> for P {
    async fn handle(&mut self, _: Get, _: &mut ActorContext) -> Vec<u32> {
        self.state.clone()
    }
}
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
enum Step {
    Do(u8, Do),
    Stop(u8),
    /// everything starts again in a new system with a new connection
    Restart,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct ActorCase {
    steps: Vec<Step>,
    hashtags: bool,
}
struct Actors<'a>(&'a Server);
impl Part for Actors<'_> {
    type Case = ActorCase;
    fn name(&self) -> &'static str {
        "actors"
    }
    fn rule(&self) -> &'static str {
        "1-24 steps (persist, batch, snapshot, clear, stop, restart in a new system) of three persistent actors whose journals are in a redis-server; whenever an actor starts its state must be that of the acknowledged effects; non-trivial: a state of three or more effects was recovered."
    }
    fn strategy(&self, t: Tier) -> BoxedStrategy<ActorCase> {
        let d = prop_oneof![5 => Just(Do::Persist), 2 => (0u8..5).prop_map(Do::Batch), 2 => Just(Do::Snapshot), 1 => Just(Do::Clear)];
        let st = prop_oneof![8 => (0u8..3, d).prop_map(|(k, d)| Step::Do(k, d)), 2 => (0u8..3).prop_map(Step::Stop), 1 => Just(Step::Restart)];
        let n = if t == Tier::Quick { 24 } else { 60 };
        (prop::collection::vec(st, 1..n), any::<bool>()).prop_map(|(steps, hashtags)| ActorCase { steps, hashtags }).boxed()
    }
    fn cases(&self, t: Tier) -> u32 {
        if t == Tier::Quick { 1_500 } else { 30_000 }
    }
    fn check(&self, c: &ActorCase) -> CaseResult {
        real().block_on(async {
            let prefix = format!("a{};", CASE.fetch_add(1, Ordering::Relaxed));
            let r = tokio::time::timeout(Duration::from_secs(60), actors(c, &self.0.url, &prefix))
                .await
                .unwrap_or_else(|_| Err(Fail::Deadline("the history did not complete within 60 s".into())));
            let sys = ActorSystem::new();
            let s = RedisStorageProvider::connect(config(&self.0.url, &prefix, c.hashtags), &sys).await.journal_storage().expect("storage");
            for k in IDS {
                let _ = s.delete_all(k).await;
            }
            r
        })
    }
}
const IDS: [&str; 3] = ["p", "p:journal", "p1"];
async fn actors(c: &ActorCase, url: &str, prefix: &str) -> CaseResult {
    async fn system(url: &str, prefix: &str, h: bool) -> ActorSystem {
        let base = ActorSystem::new();
        let p = RedisStorageProvider::connect(config(url, prefix, h), &base).await;
        base.to_persistent(Persistence::from(p))
    }
    let mut sys = system(url, prefix, c.hashtags).await;
    let mut refs: [Option<LocalActorRef<P>>; 3] = [None, None, None];
    let mut model: [Vec<u32>; 3] = Default::default();
    let mut serial = 0;
    let mut deep = false;
    let mut steps = c.steps.clone();
    steps.push(Step::Restart);
    for k in 0..3 {
        steps.push(Step::Do(k, Do::Clear));
    }
    for st in &steps {
        match *st {
            Step::Do(k, d) => {
                let k = k as usize;
                if refs[k].is_none() {
                    let r = sys.new_actor(IDS[k], P { state: vec![] }, ActorType::Tracked).await.map_err(|e| Fail::Safety(format!("the actor does not start: {e:?}")))?;
                    let got = r.send(Get).await.map_err(|e| Fail::Safety(format!("the actor does not answer: {e:?}")))?;
                    ensure!(got == model[k], "actor {:?} recovered {:?}, acknowledged: {:?}", IDS[k], got, model[k]);
                    deep |= got.len() >= 3;
                    refs[k] = Some(r);
                }
                let r = refs[k].clone().unwrap();
                serial += 10;
                let got = r.send(Cmd(d, serial)).await;
                ensure!(got == Ok(Ok(())), "{d:?} resolved with {got:?}");
                match d {
                    Do::Persist => model[k].push(serial),
                    Do::Batch(n) => model[k].extend((0..n as u32).map(|i| serial + i)),
                    _ => {}
                }
            }
            Step::Stop(k) => {
                if let Some(r) = refs[k as usize].take() {
                    let _ = r.stop().await;
                }
            }
            Step::Restart => {
                refs = [None, None, None];
                sys = system(url, prefix, c.hashtags).await;
            }
        }
    }
    Ok(CaseOut::new(deep).label(c.steps.iter().any(|s| matches!(s, Step::Do(_, Do::Snapshot))), "snapshot").label(c.hashtags, "hash tags"))
}

fn main() {
    let s = server();
    let mut r = Runner::from_args("C13");
    r.assume("The installed redis-server, one node, no persistence of its own, reached over a unix socket; a Redis cluster is not built by the repository and not covered.");
    r.part(Model(&s)).part(Actors(&s));
    let _ = std::fs::remove_dir_all(&s.dir);
    r.finish()
}
