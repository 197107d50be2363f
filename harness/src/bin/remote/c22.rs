//! C22: who gets in, and what bad peers can do. Tokens are made here, independently of the code
//! that checks them; hostile peers are raw TCP connections and raw TCP listeners.
use base64::URL_SAFE_NO_PAD;
use bytes::Bytes;
use chrono::{Duration as Span, Utc};
use coerce::actor::context::ActorContext;
use coerce::actor::message::Handler;
use coerce::actor::scheduler::ActorType;
use coerce::actor::{Actor, ActorCreationErr, ActorFactory, ActorRecipe, IntoActorId};
use coerce::remote::cluster::discovery::{Discover, Seed};
use coerce::remote::net::message::{ClientEvent, SessionEvent};
use coerce::remote::net::proto::network as net;
use coerce::remote::net::security::jwt::Jwt;
use coerce::remote::net::StreamData;
use coerce::remote::stream::pubsub::{PubSub, Receive, Subscription, Topic};
use coerce::remote::system::builder::RemoteSystemConfigBuilder;
use coerce::remote::system::RemoteActorSystem;
use coerce_macros::JsonMessage;
use futures::{SinkExt, StreamExt};
use hmac::{Hmac, Mac};
use proptest::prelude::*;
use protobuf::well_known_types::timestamp::Timestamp;
use protobuf::well_known_types::wrappers::UInt64Value;
use serde::{Deserialize, Serialize};
use sha2::{Sha256, Sha512};
use std::sync::atomic::{AtomicU32, Ordering::SeqCst};
use std::sync::Arc;
use std::time::Duration;
use tokio::io::{AsyncReadExt, AsyncWriteExt};
use tokio::net::{TcpListener, TcpStream};
use tokio_util::codec::{Framed, LengthDelimitedCodec};
use uuid::Uuid;
use vf::cluster::{self, patience, soon, Node};
use vf::*;

// ---------------------------------------------------------------------------------------------
// tokens

#[derive(Debug, Clone, Serialize, Deserialize)]
enum Token {
    /// signed with the secret, made so many seconds ago
    Signed(i64),
    /// in the code's own way
    Own,
    OtherSecret,
    /// right key, other algorithm in header and signature
    Hs512,
    NoneAlg,
    /// `alg: none` in the header, but signed
    NoneSigned,
    /// segment, position, change
    Tampered(u8, u16, u8),
    /// payload of one token with the signature of another
    Mixed,
    NoSignature,
    Truncated(u8),
    Extra(String),
    /// signed, but not the payload of a token
    OddPayload(u8),
    Text(String),
    Empty,
}
#[derive(Debug, Clone, Serialize, Deserialize)]
struct TokenCase {
    secret: Vec<u8>,
    other: Vec<u8>,
    ttl: Option<u64>,
    tokens: Vec<Token>,
}

fn b64(b: &[u8]) -> String {
    base64::encode_config(b, URL_SAFE_NO_PAD)
}
fn sign256(secret: &[u8], text: &str) -> String {
    let mut m = <Hmac<Sha256> as Mac>::new_from_slice(secret).unwrap();
    m.update(text.as_bytes());
    b64(&m.finalize().into_bytes())
}
fn body(age: i64) -> String {
    b64(serde_json::json!({"id": Uuid::new_v4(), "timestamp": Utc::now() - Span::seconds(age)}).to_string().as_bytes())
}
fn signed(secret: &[u8], age: i64) -> String {
    let t = format!("{}.{}", b64(br#"{"alg":"HS256"}"#), body(age));
    format!("{t}.{}", sign256(secret, &t))
}
/// the token, and whether it has to be accepted (None: either)
fn make(t: &Token, secret: &[u8], other: &[u8], ttl: Option<u64>) -> (String, Option<bool>) {
    match t {
        Token::Signed(age) => {
            let ok = match ttl {
                None => Some(true),
                // made in the future: nothing is said
                _ if *age < 0 => None,
                Some(l) if (*age as u64) + 20 < l => Some(true),
                Some(l) if *age as u64 > l => Some(false),
                _ => None,
            };
            (signed(secret, *age), ok)
        }
        Token::Own => (
            Jwt::from_secret(secret.to_vec(), ttl.map(Duration::from_secs)).generate_token().unwrap_or_default(),
            if ttl.map_or(true, |t| t > 20) { Some(true) } else { None },
        ),
        Token::OtherSecret => {
            // keys are padded with zeros (up to the block size), longer ones are hashed
            let pad = |s: &[u8]| {
                let mut v = s.to_vec();
                v.resize(64, 0);
                v
            };
            (signed(other, 0), Some(false).filter(|_| pad(secret) != pad(other) && secret.len() <= 64 && other.len() <= 64))
        }
        Token::Hs512 => {
            let t = format!("{}.{}", b64(br#"{"alg":"HS512"}"#), body(0));
            let mut m = <Hmac<Sha512> as Mac>::new_from_slice(secret).unwrap();
            m.update(t.as_bytes());
            (format!("{t}.{}", b64(&m.finalize().into_bytes())), Some(false))
        }
        Token::NoneAlg => (format!("{}.{}.", b64(br#"{"alg":"none"}"#), body(0)), Some(false)),
        Token::NoneSigned => {
            let t = format!("{}.{}", b64(br#"{"alg":"none"}"#), body(0));
            (format!("{t}.{}", sign256(other, &t)), if secret == other { None } else { Some(false).filter(|_| secret.len() <= 64 && other.len() <= 64 && !padded_equal(secret, other)) })
        }
        Token::Tampered(seg, pos, ch) => {
            let t = signed(secret, 0);
            let mut parts: Vec<Vec<u8>> = t.split('.').map(|s| s.as_bytes().to_vec()).collect();
            let p = &mut parts[*seg as usize % 3];
            // the last character of a segment carries unused bits
            let i = *pos as usize % (p.len() - 1);
            const A: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_.=+/ ";
            let c = A[*ch as usize % A.len()];
            if p[i] == c {
                return (t, Some(ttl.map_or(true, |t| t > 20)).filter(|b| *b));
            }
            p[i] = c;
            (parts.into_iter().map(|p| String::from_utf8(p).unwrap()).collect::<Vec<_>>().join("."), Some(false))
        }
        Token::Mixed => {
            let (a, b) = (signed(secret, 0), signed(secret, 1));
            let (mut a, b): (Vec<&str>, Vec<&str>) = (a.split('.').collect(), b.split('.').collect());
            a[2] = b[2];
            (a.join("."), Some(false))
        }
        Token::NoSignature => {
            let t = signed(secret, 0);
            (format!("{}.", t.rsplit_once('.').unwrap().0), Some(false))
        }
        Token::Truncated(n) => {
            let t = signed(secret, 0);
            let keep = t.len() - 3 - (*n as usize % (t.len() - 3));
            (t[..keep].to_string(), Some(false))
        }
        Token::Extra(s) => (format!("{}.{s}", signed(secret, 0)), Some(false)),
        Token::OddPayload(k) => {
            let p = match k % 6 {
                0 => "{}".to_string(),
                1 => "null".to_string(),
                2 => format!("{{\"id\":\"{}\"}}", Uuid::new_v4()),
                3 => format!("{{\"id\":\"{}\",\"timestamp\":\"yesterday\"}}", Uuid::new_v4()),
                4 => String::new(),
                _ => "[1,2,3]".to_string(),
            };
            let t = format!("{}.{}", b64(br#"{"alg":"HS256"}"#), b64(p.as_bytes()));
            (format!("{t}.{}", sign256(secret, &t)), Some(false))
        }
        Token::Text(s) => (s.clone(), Some(false)),
        Token::Empty => (String::new(), Some(false)),
    }
}
fn padded_equal(a: &[u8], b: &[u8]) -> bool {
    let n = a.len().max(b.len());
    (0..n).all(|i| a.get(i).copied().unwrap_or(0) == b.get(i).copied().unwrap_or(0))
}

fn token() -> impl Strategy<Value = Token> {
    prop_oneof![
        4 => prop_oneof![3 => 0i64..30, 1 => 0i64..200_000, 1 => -100i64..0].prop_map(Token::Signed),
        2 => Just(Token::Own),
        2 => Just(Token::OtherSecret),
        1 => Just(Token::Hs512),
        1 => Just(Token::NoneAlg),
        1 => Just(Token::NoneSigned),
        4 => (0u8..3, any::<u16>(), any::<u8>()).prop_map(|(a, b, c)| Token::Tampered(a, b, c)),
        1 => Just(Token::Mixed),
        1 => Just(Token::NoSignature),
        1 => any::<u8>().prop_map(Token::Truncated),
        1 => "[a-zA-Z0-9.]{0,5}".prop_map(Token::Extra),
        1 => any::<u8>().prop_map(Token::OddPayload),
        1 => "\\PC{0,30}".prop_map(Token::Text),
        1 => Just(Token::Empty),
    ]
}
fn secret() -> impl Strategy<Value = Vec<u8>> {
    prop_oneof![3 => prop::collection::vec(any::<u8>(), 1..40), 1 => prop::collection::vec(any::<u8>(), 60..140), 1 => Just(vec![]), 1 => Just(b"secret".to_vec())]
}
fn ttl() -> impl Strategy<Value = Option<u64>> {
    prop_oneof![3 => Just(None), 4 => (25u64..600).prop_map(Some), 1 => (25u64..100_000_000).prop_map(Some), 1 => Just(Some(u64::MAX)), 1 => Just(Some(0)), 1 => Just(Some(u64::MAX / 1000))]
}

struct Tokens;
impl Part for Tokens {
    type Case = TokenCase;
    fn name(&self) -> &'static str {
        "tokens"
    }
    fn rule(&self) -> &'static str {
        "tokens made independently of the code: signed with the right or another secret (of any length), of any age against any time to live, of other algorithms, tampered in one character, mixed, truncated, extended, with odd payloads, and arbitrary text; accepted exactly if rightly signed and in time; non-trivial: at least one token to accept and one to refuse"
    }
    fn cases(&self, tier: Tier) -> u32 {
        match tier {
            Tier::Quick => 6000,
            Tier::Thorough => 400_000,
        }
    }
    fn strategy(&self, _t: Tier) -> BoxedStrategy<TokenCase> {
        (secret(), secret(), ttl(), prop::collection::vec(token(), 1..8))
            .prop_map(|(secret, other, ttl, tokens)| TokenCase { secret, other, ttl, tokens })
            .boxed()
    }
    fn check(&self, c: &TokenCase) -> CaseResult {
        let jwt = Jwt::from_secret(c.secret.clone(), c.ttl.map(Duration::from_secs));
        let (mut yes, mut no) = (0, 0);
        for t in &c.tokens {
            let (text, want) = make(t, &c.secret, &c.other, c.ttl);
            let got = jwt.validate_token(&text);
            if let Some(w) = want {
                if w {
                    yes += 1
                } else {
                    no += 1
                }
                ensure!(got == w, "the token {t:?} = {text:?} is {}", if got { "accepted" } else { "refused" });
            }
        }
        Ok(CaseOut::new(yes > 0 && no > 0).label(c.ttl == Some(u64::MAX), "huge-ttl"))
    }
}

// ---------------------------------------------------------------------------------------------
// connections

#[derive(Debug, Clone, Serialize, Deserialize)]
enum MsgId {
    Good,
    Bad(String),
}
#[derive(Debug, Clone, Serialize, Deserialize)]
enum Event {
    Ping(MsgId, bool, u64),
    Pong(MsgId),
    /// own id, ids and addresses of the nodes, strange start time
    Handshake(u64, Vec<(u64, u8)>, bool),
    /// actor (0 the real one), handler (0 the real one), payload (0 right), wants an answer
    Notify(MsgId, u8, u8, u8, bool),
    Create(MsgId, u8, bool),
    Register(u8, Option<u64>),
    Find(MsgId, u8),
    Publish(u8, bool),
    Result(MsgId),
    /// with or without the error itself
    Err(MsgId, bool),
}
#[derive(Debug, Clone, Serialize, Deserialize)]
enum Act {
    Raw(Vec<u8>),
    /// announces a frame of that length and sends less
    ShortFrame(u32, u8),
    Frame(Vec<u8>),
    Event(Event),
    Identify(Token),
    Wait(u8),
    HalfClose,
}
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Conn {
    acts: Vec<Act>,
    keep: bool,
}
#[derive(Debug, Clone, Serialize, Deserialize)]
struct ConnCase {
    auth: bool,
    ttl: Option<u64>,
    conns: Vec<Conn>,
    join: bool,
}

#[derive(JsonMessage, Serialize, Deserialize, Clone)]
#[result("u32")]
struct Ask(u32);
struct Target(Arc<Effects>, Option<Subscription>);
#[derive(Default)]
struct Effects {
    asked: AtomicU32,
    created: AtomicU32,
    heard: AtomicU32,
}
#[vf::async_trait]
impl Actor for Target {
    async fn started(&mut self, ctx: &mut ActorContext) {
        self.1 = PubSub::subscribe::<Self, Board>(Board, ctx).await.ok();
    }
}
#[vf::async_trait]
impl Handler<Ask> for Target {
    async fn handle(&mut self, m: Ask, _: &mut ActorContext) -> u32 {
        self.0.asked.fetch_add(1, SeqCst);
        m.0.wrapping_mul(3)
    }
}
struct Board;
#[derive(Serialize, Deserialize)]
struct Post(u32);
impl StreamData for Post {
    fn read_from_bytes(b: Vec<u8>) -> Option<Self> {
        serde_json::from_slice(&b).ok()
    }
    fn write_to_bytes(&self) -> Option<Vec<u8>> {
        serde_json::to_vec(self).ok()
    }
}
impl Topic for Board {
    type Message = Post;
    fn topic_name() -> &'static str {
        "board"
    }
}
#[vf::async_trait]
impl Handler<Receive<Board>> for Target {
    async fn handle(&mut self, _: Receive<Board>, _: &mut ActorContext) {
        self.0.heard.fetch_add(1, SeqCst);
    }
}
struct Idle;
impl Actor for Idle {}
#[derive(Clone)]
struct Make(Arc<Effects>);
struct Rec;
impl ActorRecipe for Rec {
    fn read_from_bytes(b: &Vec<u8>) -> Option<Self> {
        (b == b"ok").then_some(Rec)
    }
    fn write_to_bytes(&self) -> Option<Vec<u8>> {
        Some(b"ok".to_vec())
    }
}
#[vf::async_trait]
impl ActorFactory for Make {
    type Actor = Idle;
    type Recipe = Rec;
    async fn create(&self, _: Rec) -> Result<Idle, ActorCreationErr> {
        self.0.created.fetch_add(1, SeqCst);
        Ok(Idle)
    }
}

fn config(b: &mut RemoteSystemConfigBuilder, fx: Arc<Effects>) -> &mut RemoteSystemConfigBuilder {
    b.heartbeat(cluster::heartbeat(200)).with_handler::<Target, Ask>("Ask").with_actor(Make(fx))
}
const SECRET: &[u8] = b"a secret for the check";
const OTHER: &[u8] = b"another secret";

async fn target(id: u64, auth: bool, ttl: Option<u64>, fx: Arc<Effects>) -> RemoteActorSystem {
    cluster::system_with(
        id,
        "target",
        move |b| if auth { b.client_auth_jwt(SECRET, ttl.map(Duration::from_secs)) } else { b },
        move |b| config(b, fx),
    )
    .await
}

fn mid(m: &MsgId) -> String {
    match m {
        MsgId::Good => Uuid::new_v4().to_string(),
        MsgId::Bad(s) => s.clone(),
    }
}
fn event(e: &Event) -> SessionEvent {
    let name = |n: u8| if n == 0 { "target".to_string() } else { format!("nobody-{n}") };
    match e {
        Event::Ping(m, terminated, node) => {
            SessionEvent::Ping(net::PingEvent { message_id: mid(m), node_id: *node, system_terminated: *terminated, ..Default::default() })
        }
        Event::Pong(m) => SessionEvent::Pong(net::PongEvent { message_id: mid(m), ..Default::default() }),
        Event::Handshake(id, nodes, odd) => SessionEvent::Handshake(net::SessionHandshake {
            node_id: *id,
            node_tag: "h".into(),
            nodes: nodes
                .iter()
                .map(|(id, a)| net::RemoteNode {
                    node_id: *id,
                    addr: ["127.0.0.1:1", "", "nonsense", "127.0.0.1:2"][*a as usize % 4].into(),
                    tag: "x".into(),
                    node_started_at: Some(Timestamp { seconds: if *odd { i64::MAX } else { 5 }, ..Default::default() }).into(),
                    ..Default::default()
                })
                .collect(),
            ..Default::default()
        }),
        Event::Notify(m, actor, handler, payload, wants) => SessionEvent::NotifyActor(net::MessageRequest {
            message_id: mid(m),
            handler_type: if *handler == 0 { "Ask".into() } else { format!("h{handler}") },
            actor_id: name(*actor),
            message: if *payload == 0 { serde_json::to_vec(&Ask(1)).unwrap() } else { vec![*payload; 3] },
            requires_response: *wants,
            origin_node_id: 77,
            ..Default::default()
        }),
        Event::Create(m, id, good) => SessionEvent::CreateActor(net::CreateActorEvent {
            message_id: mid(m),
            actor_id: if *id == 0 { String::new() } else { format!("made-{id}") },
            actor_type: std::any::type_name::<Idle>().into(),
            recipe: if *good { b"ok".to_vec() } else { vec![1] },
            ..Default::default()
        }),
        Event::Register(a, node) => SessionEvent::RegisterActor(net::ActorAddress {
            actor_id: name(*a),
            node_id: node.map(UInt64Value::from).into(),
            ..Default::default()
        }),
        Event::Find(m, a) => SessionEvent::FindActor(net::FindActorEvent { message_id: mid(m), actor_id: name(*a), ..Default::default() }),
        Event::Publish(t, good) => SessionEvent::StreamPublish(Arc::new(net::StreamPublishEvent {
            topic: if *t == 0 { "board".into() } else { format!("t{t}") },
            message: if *good { serde_json::to_vec(&Post(1)).unwrap() } else { vec![200, 1] },
            ..Default::default()
        })),
        Event::Result(m) => SessionEvent::Result(net::ClientResult { message_id: mid(m), result: vec![1], ..Default::default() }),
        Event::Err(m, with) => SessionEvent::Err(net::ClientErr {
            message_id: mid(m),
            error: if *with { Some(net::ActorRefErr::default()) } else { None }.into(),
            ..Default::default()
        }),
    }
}
fn frame(b: &[u8]) -> Vec<u8> {
    let mut v = (b.len() as u32).to_be_bytes().to_vec();
    v.extend_from_slice(b);
    v
}
fn identify(token: String) -> SessionEvent {
    SessionEvent::Identify(net::IdentifyEvent { source_node_id: 900, source_node_tag: "raw".into(), token, ..Default::default() })
}

type Line = Framed<TcpStream, LengthDelimitedCodec>;
async fn next(l: &mut Line) -> Option<ClientEvent> {
    loop {
        match l.next().await {
            Some(Ok(b)) => {
                if let Some(e) = ClientEvent::read_from_bytes(b.to_vec()) {
                    return Some(e);
                }
            }
            _ => return None,
        }
    }
}

/// a well-behaved peer is admitted and served
async fn probe(addr: &str, node: u64, auth: bool, n: u32) -> Result<Line, Fail> {
    let what = || "a well-behaved peer connects, identifies itself and asks".to_string();
    let s = soon(&what, TcpStream::connect(addr)).await?.map_err(|e| Fail::Safety(format!("the node no longer accepts connections: {e}")))?;
    let mut l = Framed::new(s, LengthDelimitedCodec::new());
    let token = if auth { signed(SECRET, 0) } else { String::new() };
    let _ = l.send(Bytes::from(identify(token).write_to_bytes().unwrap())).await;
    match soon(&what, next(&mut l)).await? {
        Some(ClientEvent::Identity(i)) => ensure!(i.node_id == node, "the node identifies itself as {}", i.node_id),
        e => return Err(Fail::Safety(format!("a well-behaved peer with a valid token is not admitted (got {})", if e.is_some() { "another frame" } else { "the connection closed" }))),
    }
    let id = Uuid::new_v4().to_string();
    let _ = l.send(Bytes::from(SessionEvent::Ping(net::PingEvent { message_id: id.clone(), node_id: 900, ..Default::default() }).write_to_bytes().unwrap())).await;
    loop {
        match soon(&what, next(&mut l)).await? {
            Some(ClientEvent::Pong(p)) if p.message_id == id => break,
            Some(_) => {}
            None => return Err(Fail::Safety("a well-behaved peer's ping is not answered, the connection closed".into())),
        }
    }
    let id = Uuid::new_v4().to_string();
    let req = SessionEvent::NotifyActor(net::MessageRequest {
        message_id: id.clone(),
        handler_type: "Ask".into(),
        actor_id: "target".into(),
        message: serde_json::to_vec(&Ask(n)).unwrap(),
        requires_response: true,
        origin_node_id: 900,
        ..Default::default()
    });
    let _ = l.send(Bytes::from(req.write_to_bytes().unwrap())).await;
    loop {
        match soon(&what, next(&mut l)).await? {
            Some(ClientEvent::Result(r)) if r.message_id == id => {
                let v: Option<u32> = serde_json::from_slice(&r.result).ok();
                ensure!(v == Some(n.wrapping_mul(3)), "a well-behaved peer is given {v:?} as the answer");
                return Ok(l);
            }
            Some(ClientEvent::Err(e)) if e.message_id == id => return Err(Fail::Safety(format!("a well-behaved peer's request is refused: {:?}", e.error))),
            Some(_) => {}
            None => return Err(Fail::Safety("a well-behaved peer's request is not answered, the connection closed".into())),
        }
    }
}

fn msgid() -> impl Strategy<Value = MsgId> {
    prop_oneof![3 => Just(MsgId::Good), 2 => "[a-z0-9-]{0,36}".prop_map(MsgId::Bad)]
}
fn any_event() -> impl Strategy<Value = Event> {
    prop_oneof![
        2 => (msgid(), prop::bool::weighted(0.2), 0u64..5).prop_map(|(a, b, c)| Event::Ping(a, b, c)),
        1 => msgid().prop_map(Event::Pong),
        2 => (0u64..9, prop::collection::vec((20u64..40, 0u8..4), 0..3), prop::bool::weighted(0.2)).prop_map(|(a, b, c)| Event::Handshake(a, b, c)),
        5 => (msgid(), 0u8..2, 0u8..2, 0u8..2, any::<bool>()).prop_map(|(a, b, c, d, e)| Event::Notify(a, b, c, d, e)),
        2 => (msgid(), 0u8..3, any::<bool>()).prop_map(|(a, b, c)| Event::Create(a, b, c)),
        1 => (1u8..3, prop::option::of(0u64..9)).prop_map(|(a, b)| Event::Register(a, b)),
        2 => (msgid(), 0u8..3).prop_map(|(a, b)| Event::Find(a, b)),
        2 => (0u8..2, any::<bool>()).prop_map(|(a, b)| Event::Publish(a, b)),
        1 => msgid().prop_map(Event::Result),
        1 => (msgid(), any::<bool>()).prop_map(|(a, b)| Event::Err(a, b)),
    ]
}
fn junk() -> impl Strategy<Value = Act> {
    prop_oneof![
        2 => prop::collection::vec(any::<u8>(), 0..30).prop_map(Act::Raw),
        1 => (any::<u32>(), any::<u8>()).prop_map(|(a, b)| Act::ShortFrame(a, b)),
        3 => prop::collection::vec(any::<u8>(), 0..20).prop_map(Act::Frame),
        // a known kind of frame with arbitrary content
        2 => (0u8..14, prop::collection::vec(any::<u8>(), 0..12)).prop_map(|(k, mut v)| {
            v.insert(0, k);
            Act::Frame(v)
        }),
        1 => (0u8..20).prop_map(Act::Wait),
        1 => Just(Act::HalfClose),
    ]
}
fn conn() -> impl Strategy<Value = Conn> {
    let first = prop_oneof![
        6 => token().prop_map(|t| vec![Act::Identify(t)]),
        3 => Just(vec![Act::Identify(Token::Signed(0))]),
        1 => any_event().prop_map(|e| vec![Act::Event(e)]),
        1 => junk().prop_map(|j| vec![j]),
        2 => Just(vec![]),
    ];
    let rest = prop::collection::vec(prop_oneof![4 => any_event().prop_map(Act::Event), 1 => junk(), 1 => token().prop_map(Act::Identify)], 0..7);
    (first, rest, prop::bool::weighted(0.1), any::<bool>()).prop_map(|(mut f, r, silent, keep)| {
        if silent {
            return Conn { acts: vec![], keep: true };
        }
        f.extend(r);
        Conn { acts: f, keep }
    })
}

struct Hostile;
impl Part for Hostile {
    type Case = ConnCase;
    fn name(&self) -> &'static str {
        "hostile-connections"
    }
    fn rule(&self) -> &'static str {
        "a real node with or without token authentication and 1-5 raw TCP connections to it that identify themselves with any kind of token or not at all and then send generated frames in any order, junk bytes, truncated frames, or nothing, and stay, half-close or vanish; a connection is admitted exactly if its first frame identifies it acceptably; frames of others have no effect; after each one a well-behaved peer has to be admitted and served; at the end a real node has to be able to join and the node to shut down; non-trivial: at least one connection was refused or sent junk"
    }
    fn cases(&self, tier: Tier) -> u32 {
        match tier {
            Tier::Quick => 1000,
            Tier::Thorough => 25000,
        }
    }
    fn shards(&self) -> u32 {
        16
    }
    fn shrink_budget(&self) -> (u32, Duration) {
        (60, Duration::from_secs(90))
    }
    fn strategy(&self, _t: Tier) -> BoxedStrategy<ConnCase> {
        (prop::bool::weighted(0.75), prop_oneof![Just(None), Just(Some(60))], prop::collection::vec(conn(), 1..6), prop::bool::weighted(0.3))
            .prop_map(|(auth, ttl, conns, join)| ConnCase { auth, ttl, conns, join })
            .boxed()
    }
    fn per_process(&self) -> u32 {
        1500
    }
    fn check(&self, c: &ConnCase) -> CaseResult {
        cluster::run(2, hostile(c))
    }
}

async fn hostile(c: &ConnCase) -> CaseResult {
    let fx = Arc::new(Effects::default());
    let sys = target(1, c.auth, c.ttl, fx.clone()).await;
    let addr = cluster::fresh_addr();
    let server = cluster::serve(&sys, &addr, None).await;
    sys.actor_system().new_actor("target".into_actor_id(), Target(fx.clone(), None), ActorType::Tracked).await.expect("target");
    let mut kept = vec![];
    let mut probes = 0u32;
    let mut any_admitted = false;
    let (mut refused, mut junked, mut silent) = (false, false, false);
    for (i, conn) in c.conns.iter().enumerate() {
        let s = soon(|| "connecting".into(), TcpStream::connect(&addr)).await?.map_err(|e| Fail::Safety(format!("the node no longer accepts connections: {e}")))?;
        let (mut rd, mut wr) = s.into_split();
        // whether the first complete frame admits the connection; None: not decidable from here
        let mut admitted: Option<Option<bool>> = None;
        let mut garbled = false;
        let mut sent = false;
        let mut closed = false;
        for a in &conn.acts {
            if closed {
                break;
            }
            let bytes = match a {
                Act::Raw(b) => {
                    garbled |= !b.is_empty();
                    b.clone()
                }
                Act::ShortFrame(n, k) => {
                    garbled = true;
                    let mut v = n.to_be_bytes().to_vec();
                    v.extend(vec![*k; (*n as usize / 2).min(*k as usize)]);
                    v
                }
                Act::Frame(b) => {
                    if admitted.is_none() {
                        // arbitrary content of an identify frame is left undecided
                        admitted = Some(if SessionEvent::read_from_bytes(b.clone()).map_or(false, |e| matches!(e, SessionEvent::Identify(_))) { None } else { Some(false) });
                    }
                    junked = true;
                    frame(b)
                }
                Act::Event(e) => {
                    admitted.get_or_insert(Some(false));
                    frame(&event(e).write_to_bytes().unwrap())
                }
                Act::Identify(t) => {
                    let (text, ok) = make(t, SECRET, OTHER, c.ttl);
                    admitted.get_or_insert(if c.auth { ok } else { Some(true) });
                    frame(&identify(text).write_to_bytes().unwrap())
                }
                Act::Wait(ms) => {
                    tokio::time::sleep(Duration::from_millis(*ms as u64)).await;
                    continue;
                }
                Act::HalfClose => {
                    let _ = wr.shutdown().await;
                    closed = true;
                    continue;
                }
            };
            if garbled && admitted.is_none() {
                admitted = Some(None);
            }
            sent |= !bytes.is_empty();
            if wr.write_all(&bytes).await.is_err() {
                closed = true;
            }
        }
        junked |= garbled;
        let admitted = admitted.unwrap_or(Some(false));
        if conn.acts.is_empty() {
            silent = true;
        }
        any_admitted |= admitted != Some(false);
        refused |= admitted == Some(false);
        let waits = !garbled && !closed && sent;
        match admitted {
            Some(false) if waits && (conn.keep || i % 2 == 0) => {
                // told nothing, and disconnected
                let mut buf = vec![];
                let got = soon(|| "a connection that does not identify itself acceptably is closed".into(), rd.read_to_end(&mut buf)).await?;
                let _ = got;
                ensure!(buf.is_empty(), "connection {i} ({:?}) is not acceptable, but was sent {} bytes", conn.acts.first(), buf.len());
            }
            Some(true) if !garbled && !closed && conn.keep => {
                let id = Uuid::new_v4().to_string();
                let ping = SessionEvent::Ping(net::PingEvent { message_id: id.clone(), node_id: 901, ..Default::default() });
                let wrote = wr.write_all(&frame(&ping.write_to_bytes().unwrap())).await.is_ok();
                let mut l = Framed::new(rd.reunite(wr).unwrap(), LengthDelimitedCodec::new());
                let mut first = true;
                loop {
                    let e = soon(|| format!("connection {i} is admitted and gets either an answer or is closed ({:?})", conn.acts), next(&mut l)).await?;
                    match e {
                        Some(ClientEvent::Identity(n)) if first => ensure!(n.node_id == 1, "the node identifies itself as {}", n.node_id),
                        Some(_) if first => return Err(Fail::Safety(format!("connection {i} is acceptable, but the node does not identify itself first"))),
                        Some(ClientEvent::Pong(p)) if p.message_id == id => break,
                        Some(_) => {}
                        None => {
                            ensure!(!first || !wrote, "connection {i} ({:?}) is acceptable, but was closed without an identity", conn.acts.first());
                            break;
                        }
                    }
                    first = false;
                }
                kept.push(Some(l));
                probes += 1;
                probe(&addr, 1, c.auth, probes).await?;
                continue;
            }
            _ => {}
        }
        if conn.keep {
            kept.push(rd.reunite(wr).ok().map(|s| Framed::new(s, LengthDelimitedCodec::new())));
        }
        probes += 1;
        probe(&addr, 1, c.auth, probes).await?;
    }
    if !any_admitted {
        let a = fx.asked.load(SeqCst);
        ensure!(a == probes, "frames of connections that were not admitted reached an actor {} times", a - probes.min(a));
        ensure!(fx.created.load(SeqCst) == 0, "a connection that was not admitted created an actor");
        ensure!(fx.heard.load(SeqCst) == 0, "a message published by a connection that was not admitted was delivered");
        let nodes = sys.get_nodes().await;
        ensure!(nodes.len() == 1, "a connection that was not admitted changed the member table: {nodes:?}");
        for k in 1..3 {
            let at = soon(|| "locating".into(), sys.locate_actor_node(format!("nobody-{k}").into_actor_id())).await?;
            ensure!(at.is_none(), "a connection that was not admitted registered an actor");
        }
    }
    let mut all = vec![Node { sys, server: Some(server), addr: addr.clone() }];
    if c.join {
        let fx2 = Arc::new(Effects::default());
        let sys2 = target(2, c.auth, c.ttl, fx2).await;
        let addr2 = cluster::fresh_addr();
        let server = soon(|| "a real node joins".into(), cluster::serve(&sys2, &addr2, Some(&addr))).await?;
        all.push(Node { sys: sys2, server: Some(server), addr: addr2 });
        sees_each_other(&all[0], &all[1]).await?;
    }
    all[0].server.as_ref().unwrap().stop();
    let down = tokio::time::timeout(patience(), all[0].sys.actor_system().shutdown()).await;
    if down.is_err() {
        return Err(Fail::Deadline("the node does not shut down".into()));
    }
    drop(kept);
    Ok(CaseOut::new(refused || junked)
        .label(refused, "refused")
        .label(any_admitted, "admitted")
        .label(junked, "junk")
        .label(silent, "silent")
        .label(c.join, "join"))
}

async fn sees_each_other(a: &Node, b: &Node) -> Result<(), Fail> {
    use coerce::remote::cluster::node::NodeStatus::Healthy;
    let t = std::time::Instant::now();
    loop {
        let x = a.sys.get_nodes().await.iter().any(|n| n.id == b.sys.node_id() && n.status == Healthy);
        let y = b.sys.get_nodes().await.iter().any(|n| n.id == a.sys.node_id() && n.status == Healthy);
        if x && y {
            return Ok(());
        }
        if t.elapsed() > patience() {
            return Err(Fail::Deadline(format!("a real node with the right secret cannot join (seen there {x}, seen here {y})")));
        }
        tokio::time::sleep(Duration::from_millis(20)).await;
    }
}

// ---------------------------------------------------------------------------------------------
// hostile listeners the node is told to connect to

#[derive(Debug, Clone, Serialize, Deserialize)]
enum Reply {
    Raw(Vec<u8>),
    Frame(Vec<u8>),
    /// node id, odd time, number of peers
    Identity(u64, bool, u8),
    Handshake(u64, bool),
    Result(MsgId),
    Err(MsgId, bool),
    Pong(MsgId),
    /// answers a ping or whatever comes
    Read,
    Wait(u8),
}
#[derive(Debug, Clone, Serialize, Deserialize)]
struct ListenCase {
    listeners: Vec<(Vec<Reply>, bool)>,
    join: bool,
}
struct Listeners;
impl Part for Listeners {
    type Case = ListenCase;
    fn name(&self) -> &'static str {
        "hostile-listeners"
    }
    fn rule(&self) -> &'static str {
        "a real node is told to discover 1-3 listeners that answer with generated frames in any order, junk, or nothing, and stay or vanish; well-behaved peers have to be admitted and served all the time, and a real node has to be able to join; non-trivial: some listener said something"
    }
    fn cases(&self, tier: Tier) -> u32 {
        match tier {
            Tier::Quick => 400,
            Tier::Thorough => 8000,
        }
    }
    fn shards(&self) -> u32 {
        24
    }
    fn shrink_budget(&self) -> (u32, Duration) {
        (40, Duration::from_secs(90))
    }
    fn strategy(&self, _t: Tier) -> BoxedStrategy<ListenCase> {
        let reply = prop_oneof![
            1 => prop::collection::vec(any::<u8>(), 0..30).prop_map(Reply::Raw),
            2 => (0u8..14, prop::collection::vec(any::<u8>(), 0..12)).prop_map(|(k, mut v)| {
                v.insert(0, k);
                Reply::Frame(v)
            }),
            4 => (prop_oneof![2 => 20u64..30, 1 => Just(1u64)], prop::bool::weighted(0.2), 0u8..3).prop_map(|(a, b, c)| Reply::Identity(a, b, c)),
            2 => (20u64..30, any::<bool>()).prop_map(|(a, b)| Reply::Handshake(a, b)),
            1 => msgid().prop_map(Reply::Result),
            1 => (msgid(), any::<bool>()).prop_map(|(a, b)| Reply::Err(a, b)),
            1 => msgid().prop_map(Reply::Pong),
            2 => Just(Reply::Read),
            1 => (0u8..20).prop_map(Reply::Wait),
        ];
        (prop::collection::vec((prop::collection::vec(reply, 0..7), any::<bool>()), 1..4), prop::bool::weighted(0.4))
            .prop_map(|(listeners, join)| ListenCase { listeners, join })
            .boxed()
    }
    fn per_process(&self) -> u32 {
        1500
    }
    fn check(&self, c: &ListenCase) -> CaseResult {
        cluster::run(2, listen(c))
    }
}

fn reply(r: &Reply, addr: &str) -> Option<Vec<u8>> {
    let odd = |odd: &bool| Some(Timestamp { seconds: if *odd { i64::MAX } else { 5 }, ..Default::default() });
    let e = match r {
        Reply::Raw(b) => return Some(b.clone()),
        Reply::Frame(b) => return Some(frame(b)),
        Reply::Identity(id, o, n) => ClientEvent::Identity(net::NodeIdentity {
            node_id: *id,
            node_tag: "listener".into(),
            addr: addr.into(),
            node_started_at: odd(o).into(),
            peers: (0..*n).map(|k| net::RemoteNode { node_id: 40 + k as u64, addr: ["127.0.0.1:1", "nonsense"][k as usize % 2].into(), ..Default::default() }).collect(),
            ..Default::default()
        }),
        Reply::Handshake(id, o) => ClientEvent::Handshake(net::ClientHandshake { node_id: *id, node_started_at: odd(o).into(), ..Default::default() }),
        Reply::Result(m) => ClientEvent::Result(net::ClientResult { message_id: mid(m), ..Default::default() }),
        Reply::Err(m, with) => ClientEvent::Err(net::ClientErr { message_id: mid(m), error: if *with { Some(net::ActorRefErr::default()) } else { None }.into(), ..Default::default() }),
        Reply::Pong(m) => ClientEvent::Pong(net::PongEvent { message_id: mid(m), ..Default::default() }),
        Reply::Read | Reply::Wait(_) => return None,
    };
    Some(frame(&e.write_to_bytes().unwrap()))
}

async fn listen(c: &ListenCase) -> CaseResult {
    let fx = Arc::new(Effects::default());
    let sys = target(1, true, None, fx.clone()).await;
    let addr = cluster::fresh_addr();
    let server = cluster::serve(&sys, &addr, None).await;
    sys.actor_system().new_actor("target".into_actor_id(), Target(fx.clone(), None), ActorType::Tracked).await.expect("target");
    let mut n = 0;
    for (replies, keep) in &c.listeners {
        let l = TcpListener::bind("127.0.0.1:0").await.expect("listener");
        let at = l.local_addr().unwrap().to_string();
        let (replies, keep, here) = (replies.clone(), *keep, at.clone());
        tokio::spawn(async move {
            loop {
                let Ok((mut s, _)) = l.accept().await else { return };
                let (replies, here) = (replies.clone(), here.clone());
                tokio::spawn(async move {
                    for r in &replies {
                        match r {
                            Reply::Read => {
                                let mut b = [0u8; 4096];
                                let _ = tokio::time::timeout(Duration::from_millis(300), s.read(&mut b)).await;
                            }
                            Reply::Wait(ms) => tokio::time::sleep(Duration::from_millis(*ms as u64)).await,
                            r => {
                                if let Some(b) = reply(r, &here) {
                                    let _ = s.write_all(&b).await;
                                }
                            }
                        }
                    }
                    if keep {
                        let mut sink = vec![];
                        let _ = s.read_to_end(&mut sink).await;
                    }
                });
            }
        });
        let _ = sys.node_discovery().notify(Discover { seed: Seed::Addr(at), on_discovery_complete: None });
        n += 1;
        probe(&addr, 1, true, n).await?;
    }
    tokio::time::sleep(Duration::from_millis(30)).await;
    n += 1;
    probe(&addr, 1, true, n).await?;
    let mut all = vec![Node { sys, server: Some(server), addr: addr.clone() }];
    if c.join {
        let fx2 = Arc::new(Effects::default());
        let sys2 = target(2, true, None, fx2).await;
        let addr2 = cluster::fresh_addr();
        let server = soon(|| "a real node joins".into(), cluster::serve(&sys2, &addr2, Some(&addr))).await?;
        all.push(Node { sys: sys2, server: Some(server), addr: addr2 });
        sees_each_other(&all[0], &all[1]).await?;
    }
    for n in &all {
        n.server.as_ref().unwrap().stop();
    }
    Ok(CaseOut::new(c.listeners.iter().any(|l| !l.0.is_empty())).label(c.join, "join").label(c.listeners.iter().any(|l| l.0.is_empty() && l.1), "silent"))
}

pub fn run() {
    let mut r = Runner::from_args("C22");
    r.assume("HMAC-SHA256 as computed by the hmac and sha2 crates is right");
    r.part(Tokens).part(Hostile).part(Listeners).finish()
}
