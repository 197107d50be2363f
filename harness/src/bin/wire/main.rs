//! C14: wire encodings.
use coerce::actor::message::{Message, MessageUnwrapErr, MessageWrapErr};
use coerce::actor::system::ActorSystem;
use coerce::actor::{ActorRefErr, ActorRecipe, ToActorId};
use coerce::persistent::journal::snapshot::Snapshot;
use coerce::persistent::journal::storage::JournalEntry;
use coerce::remote::cluster::node::RemoteNode;
use coerce::remote::net::message::{datetime_to_timestamp, timestamp_to_datetime, ClientEvent, SessionEvent};
use coerce::remote::net::proto::network as net;
use coerce::remote::net::{receive_loop, StreamData, StreamReceiver};
use coerce::remote::stream::system::{ClusterEvent, ClusterMemberUp, SystemEvent};
use coerce::remote::system::RemoteActorSystem;
use coerce::sharding::coordinator::allocation::{AllocateShard, AllocateShardErr, AllocateShardResult};
use coerce::sharding::coordinator::stats::{GetShardingStats, NodeStats, ShardingStats};
use coerce::sharding::coordinator::ShardHostStatus;
use coerce::sharding::host::request::RemoteEntityRequest;
use coerce::sharding::host::stats::RemoteShard;
use coerce::sharding::host::{ShardAllocated, ShardReallocating, ShardStopped, StopShard};
use coerce::sharding::proto::sharding as shp;
use coerce::sharding::shard::message::{PassivateEntity, RemoveEntity, StartEntity};
use coerce::sharding::shard::vf_hooks::{GetShardStats, ShardStateSnapshot, ShardStats};
use coerce::singleton::manager::vf_hooks::{LeaseAck, RequestLease};
use coerce::singleton::manager::{SingletonStarted, SingletonStopped};
use coerce::singleton::proto::singleton as sip;
use coerce_macros::{JsonMessage, JsonSnapshot};
use parking_lot::Mutex;
use proptest::prelude::*;
use protobuf::well_known_types::timestamp::Timestamp;
use protobuf::well_known_types::wrappers::UInt64Value;
use protobuf::{EnumOrUnknown, Message as _};
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::sync::Arc;
use vf::*;

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Node {
    id: u64,
    addr: String,
    tag: String,
    started: Option<(i64, u32)>,
    attributes: BTreeMap<String, String>,
}
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Fields {
    s: [String; 5],
    n: [u64; 3],
    u: u32,
    b: Vec<u8>,
    flags: [bool; 2],
    nodes: Vec<Node>,
    started: Option<(i64, u32)>,
    many: Vec<(u32, u64, u8)>,
    uuid: (u64, u64),
    i: i64,
}

fn text() -> BoxedStrategy<String> {
    prop_oneof![4 => "[a-zA-Z0-9:./ -]{0,12}", 2 => any::<String>(), 1 => Just(String::new()), 1 => Just("{\"\\\u{0}é\u{10ffff}".to_string())].boxed()
}
fn num() -> BoxedStrategy<u64> {
    prop_oneof![3 => any::<u64>(), 2 => 0u64..300, 1 => Just(u64::MAX), 1 => Just(1 << 63), 1 => Just(i64::MAX as u64)].boxed()
}
fn when() -> BoxedStrategy<Option<(i64, u32)>> {
    // what chrono can represent
    prop::option::of((prop_oneof![3 => 0i64..4_000_000_000, 1 => -8_000_000_000_000i64..8_000_000_000_000], 0u32..1_000_000_000)).boxed()
}
fn node() -> BoxedStrategy<Node> {
    (num(), text(), text(), when(), prop::collection::btree_map(text(), text(), 0..4))
        .prop_map(|(id, addr, tag, started, attributes)| Node { id, addr, tag, started, attributes })
        .boxed()
}
fn fields() -> BoxedStrategy<Fields> {
    (
        [text(), text(), text(), text(), text()],
        [num(), num(), num()],
        prop_oneof![any::<u32>(), 0u32..10],
        prop_oneof![6 => prop::collection::vec(any::<u8>(), 0..40), 1 => prop::collection::vec(any::<u8>(), 500..3000)],
        any::<[bool; 2]>(),
        prop::collection::vec(node(), 0..4),
        when(),
        prop::collection::vec((any::<u32>(), num(), any::<u8>()), 0..5),
        any::<(u64, u64)>(),
        prop_oneof![any::<i64>(), 0i64..100],
    )
        .prop_map(|(s, n, u, b, flags, nodes, started, many, uuid, i)| Fields { s, n, u, b, flags, nodes, started, many, uuid, i })
        .boxed()
}

fn ts(t: &Option<(i64, u32)>) -> Option<Timestamp> {
    t.map(|(seconds, nanos)| Timestamp { seconds, nanos: nanos as i32, ..Default::default() })
}
fn proto_node(n: &Node) -> net::RemoteNode {
    net::RemoteNode {
        node_id: n.id,
        addr: n.addr.clone(),
        tag: n.tag.clone(),
        node_started_at: ts(&n.started).into(),
        attributes: n.attributes.clone().into_iter().collect(),
        ..Default::default()
    }
}
fn real_node(n: &Node) -> RemoteNode {
    RemoteNode::new(
        n.id,
        n.addr.clone(),
        n.tag.clone(),
        n.started.map(|(s, ns)| chrono::DateTime::<chrono::Utc>::from_utc(chrono::NaiveDateTime::from_timestamp_opt(s, ns).expect("in range"), chrono::Utc)),
        Arc::new(n.attributes.iter().map(|(k, v)| (k.as_str().into(), v.as_str().into())).collect()),
    )
}
fn same_node(a: &RemoteNode, b: &Node) -> bool {
    let b = real_node(b);
    a.id == b.id && a.addr == b.addr && a.tag == b.tag && a.node_started_at == b.node_started_at && a.attributes == b.attributes
}
fn err_of(f: &Fields) -> ActorRefErr {
    let id = f.s[0].clone().to_actor_id();
    let we = [MessageWrapErr::Unknown, MessageWrapErr::NotTransmittable, MessageWrapErr::SerializationErr][f.n[0] as usize % 3].clone();
    let ue = [MessageUnwrapErr::Unknown, MessageUnwrapErr::NotTransmittable, MessageUnwrapErr::DeserializationErr][f.n[0] as usize % 3].clone();
    match f.u % 12 {
        0 => ActorRefErr::ActorUnavailable,
        1 => ActorRefErr::NotFound(id),
        2 => ActorRefErr::AlreadyExists(id),
        3 => ActorRefErr::Serialisation(we),
        4 => ActorRefErr::Deserialisation(ue),
        5 => ActorRefErr::Timeout { time_taken_millis: f.n[1] },
        6 => ActorRefErr::ActorStartFailed,
        7 => ActorRefErr::InvalidRef,
        8 => ActorRefErr::ResultChannelClosed,
        9 => ActorRefErr::ResultSendFailed,
        10 => ActorRefErr::NotSupported { actor_id: id, message_type: f.s[1].clone(), actor_type: f.s[2].clone() },
        _ => ActorRefErr::NotImplemented,
    }
}

fn client_events(f: &Fields) -> Vec<ClientEvent> {
    let nodes: Vec<_> = f.nodes.iter().map(proto_node).collect();
    vec![
        ClientEvent::Identity(net::NodeIdentity {
            node_id: f.n[0],
            node_tag: f.s[0].clone(),
            addr: f.s[1].clone(),
            application_version: f.s[2].clone(),
            protocol_version: f.s[3].clone(),
            node_started_at: ts(&f.started).into(),
            peers: nodes.clone(),
            capabilities: Some(net::SystemCapabilities { actors: f.s[..2].to_vec(), messages: f.s[2..].to_vec(), ..Default::default() }).into(),
            attributes: f.nodes.first().map(|n| n.attributes.clone().into_iter().collect()).unwrap_or_default(),
            ..Default::default()
        }),
        ClientEvent::Handshake(net::ClientHandshake {
            node_id: f.n[0],
            nodes,
            node_tag: f.s[1].clone(),
            trace_id: f.s[2].clone(),
            node_started_at: ts(&f.started).into(),
            ..Default::default()
        }),
        ClientEvent::Result(result(f)),
        ClientEvent::Err(client_err(f)),
        ClientEvent::Ping(ping(f)),
        ClientEvent::Pong(net::PongEvent { message_id: f.s[0].clone(), ..Default::default() }),
    ]
}
fn result(f: &Fields) -> net::ClientResult {
    net::ClientResult { message_id: f.s[0].clone(), result: f.b.clone(), trace_id: f.s[1].clone(), ..Default::default() }
}
fn client_err(f: &Fields) -> net::ClientErr {
    net::ClientErr { message_id: f.s[3].clone(), error: Some(net::ActorRefErr::from(err_of(f))).into(), trace_id: f.s[4].clone(), ..Default::default() }
}
fn ping(f: &Fields) -> net::PingEvent {
    net::PingEvent { message_id: f.s[0].clone(), trace_id: f.s[1].clone(), node_id: f.n[1], system_terminated: f.flags[0], ..Default::default() }
}
fn session_events(f: &Fields) -> Vec<SessionEvent> {
    vec![
        SessionEvent::Identify(net::IdentifyEvent { source_node_id: f.n[0], source_node_tag: f.s[0].clone(), token: f.s[1].clone(), ..Default::default() }),
        SessionEvent::Ping(ping(f)),
        SessionEvent::Pong(net::PongEvent { message_id: f.s[0].clone(), ..Default::default() }),
        SessionEvent::Handshake(net::SessionHandshake {
            node_id: f.n[0],
            nodes: f.nodes.iter().map(proto_node).collect(),
            token: f.b.clone(),
            node_tag: f.s[0].clone(),
            client_type: if f.flags[0] { net::ClientType::Client } else { net::ClientType::Worker }.into(),
            trace_id: f.s[1].clone(),
            ..Default::default()
        }),
        SessionEvent::NotifyActor(net::MessageRequest {
            message_id: f.s[0].clone(),
            handler_type: f.s[1].clone(),
            actor_id: f.s[2].clone(),
            message: f.b.clone(),
            trace_id: f.s[3].clone(),
            requires_response: f.flags[0],
            origin_node_id: f.n[0],
            ..Default::default()
        }),
        SessionEvent::CreateActor(net::CreateActorEvent {
            message_id: f.s[0].clone(),
            actor_id: f.s[1].clone(),
            actor_type: f.s[2].clone(),
            recipe: f.b.clone(),
            trace_id: f.s[3].clone(),
            ..Default::default()
        }),
        SessionEvent::RegisterActor(net::ActorAddress {
            actor_id: f.s[0].clone(),
            node_id: (if f.flags[0] { Some(UInt64Value::from(f.n[0])) } else { None }).into(),
            ..Default::default()
        }),
        SessionEvent::FindActor(net::FindActorEvent { message_id: f.s[0].clone(), actor_id: f.s[1].clone(), trace_id: f.s[2].clone(), ..Default::default() }),
        SessionEvent::StreamPublish(Arc::new(net::StreamPublishEvent { topic: f.s[0].clone(), key: f.s[1].clone(), message: f.b.clone(), trace_id: f.s[2].clone(), ..Default::default() })),
        SessionEvent::Result(result(f)),
        SessionEvent::Err(client_err(f)),
    ]
}
fn same_client(a: &ClientEvent, b: &ClientEvent) -> bool {
    use ClientEvent::*;
    match (a, b) {
        (Identity(x), Identity(y)) => x == y,
        (Handshake(x), Handshake(y)) => x == y,
        (Result(x), Result(y)) => x == y,
        (Err(x), Err(y)) => x == y,
        (Ping(x), Ping(y)) => x == y,
        (Pong(x), Pong(y)) => x == y,
        _ => false,
    }
}
fn same_session(a: &SessionEvent, b: &SessionEvent) -> bool {
    use SessionEvent::*;
    match (a, b) {
        (Identify(x), Identify(y)) => x == y,
        (Ping(x), Ping(y)) => x == y,
        (Pong(x), Pong(y)) => x == y,
        (Handshake(x), Handshake(y)) => x == y,
        (NotifyActor(x), NotifyActor(y)) => x == y,
        (CreateActor(x), CreateActor(y)) => x == y,
        (RegisterActor(x), RegisterActor(y)) => x == y,
        (FindActor(x), FindActor(y)) => x == y,
        (StreamPublish(x), StreamPublish(y)) => x == y,
        (Result(x), Result(y)) => x == y,
        (Err(x), Err(y)) => x == y,
        _ => false,
    }
}

#[derive(Debug, Clone, Serialize, Deserialize, PartialEq)]
enum Kind {
    A,
    B(i64, String),
    C { x: Option<Box<Kind>>, y: Vec<u8> },
}
#[derive(JsonMessage, Debug, Clone, Serialize, Deserialize, PartialEq)]
#[result("Result<Vec<Kind>, String>")]
struct Json {
    text: Vec<String>,
    n: u64,
    map: BTreeMap<String, u64>,
    kind: Kind,
    opt: Option<()>,
}
#[derive(JsonSnapshot, Debug, Clone, Serialize, Deserialize, PartialEq)]
struct Snap {
    json: Json,
}

/// Decoding and encoding again yields what was encoded.
fn re_encode<M: Message, P: protobuf::Message + PartialEq + std::fmt::Debug>(p: &P) -> Result<(), Fail> {
    let bytes = p.write_to_bytes().expect("generated value");
    let m = M::from_bytes(bytes).map_err(|e| Fail::Safety(format!("{} does not decode from {p:?}: {e}", M::type_name())))?;
    let again = m.as_bytes().map_err(|e| Fail::Safety(format!("{} does not encode: {e}", M::type_name())))?;
    let q = P::parse_from_bytes(&again).map_err(|e| Fail::Safety(format!("{} encodes to something else: {e}", M::type_name())))?;
    ensure!(&q == p, "{} decodes and encodes {p:?} into {q:?}", M::type_name());
    Ok(())
}
fn trip<M: Message>(m: &M) -> Result<M, Fail> {
    let b = m.as_bytes().map_err(|e| Fail::Safety(format!("{} does not encode: {e}", M::type_name())))?;
    M::from_bytes(b).map_err(|e| Fail::Safety(format!("{} does not decode: {e}", M::type_name())))
}
fn result_trip<M: Message>(r: M::Result) -> Result<M::Result, Fail> {
    let b = M::write_remote_result(r).map_err(|e| Fail::Safety(format!("the result of {} does not encode: {e}", M::type_name())))?;
    M::read_remote_result(b).map_err(|e| Fail::Safety(format!("the result of {} does not decode: {e}", M::type_name())))
}

struct Round;
impl Part for Round {
    type Case = Fields;
    fn name(&self) -> &'static str {
        "round-trip"
    }
    fn rule(&self) -> &'static str {
        "one set of field values (strings of any characters, extreme numbers, byte strings, nodes with attributes and times), put into every kind of frame, system event, sharding and singleton message, error, journal entry and derived JSON message; each is encoded and decoded and compared; non-trivial: some node, string and byte string is not empty."
    }
    fn strategy(&self, _: Tier) -> BoxedStrategy<Fields> {
        fields()
    }
    fn cases(&self, t: Tier) -> u32 {
        if t == Tier::Quick { 20_000 } else { 400_000 }
    }
    fn check(&self, f: &Fields) -> CaseResult {
        for (i, e) in client_events(f).iter().enumerate() {
            let b = e.write_to_bytes().ok_or(Fail::Safety(format!("client frame {i} does not encode")))?;
            let d = ClientEvent::read_from_bytes(b).ok_or(Fail::Safety(format!("client frame {i} does not decode")))?;
            ensure!(same_client(e, &d), "client frame {i} decodes to something else");
        }
        for e in session_events(f) {
            let b = e.write_to_bytes().ok_or(Fail::Safety(format!("{e:?} does not encode")))?;
            let d = SessionEvent::read_from_bytes(b).ok_or(Fail::Safety(format!("{e:?} does not decode")))?;
            ensure!(same_session(&e, &d), "{e:?} decodes to {d:?}");
        }
        let e = err_of(f);
        let back = ActorRefErr::from(net::ActorRefErr::from(e.clone()));
        ensure!(e == back, "the error {e:?} arrives as {back:?}");
        for n in &f.nodes {
            let r = real_node(n);
            for p in [net::RemoteNode::from(&r), net::RemoteNode::from(r.clone()), net::RemoteNode::from(coerce::remote::cluster::node::RemoteNodeState::new(r.clone()))] {
                let back = RemoteNode::from(p);
                ensure!(same_node(&back, n), "the node {r:?} arrives as {back:?}");
            }
            let id = net::NodeIdentity {
                node_id: n.id,
                node_tag: n.tag.clone(),
                addr: n.addr.clone(),
                node_started_at: ts(&n.started).into(),
                attributes: n.attributes.clone().into_iter().collect(),
                ..Default::default()
            };
            let back = RemoteNode::from(&id);
            ensure!(same_node(&back, n), "the identity {id:?} is understood as {back:?}");
        }
        let nodes: Vec<_> = f.nodes.iter().map(|n| Arc::new(real_node(n))).collect();
        let mut evs = vec![
            SystemEvent::Cluster(ClusterEvent::LeaderChanged(f.n[0])),
            SystemEvent::Cluster(ClusterEvent::MemberUp(ClusterMemberUp { leader_id: f.n[1], nodes: nodes.clone() })),
        ];
        for n in &nodes {
            evs.push(SystemEvent::Cluster(ClusterEvent::NodeAdded(n.clone())));
            evs.push(SystemEvent::Cluster(ClusterEvent::NodeRemoved(n.clone())));
        }
        for e in &evs {
            let b = e.write_to_bytes().ok_or(Fail::Safety(format!("{e:?} does not encode")))?;
            let d = SystemEvent::read_from_bytes(b).ok_or(Fail::Safety(format!("{e:?} does not decode")))?;
            let full = |n: &RemoteNode| (n.id, n.addr.clone(), n.tag.clone(), n.node_started_at, n.attributes.clone());
            let (SystemEvent::Cluster(a), SystemEvent::Cluster(b)) = (e, &d);
            let same = match (a, b) {
                (ClusterEvent::LeaderChanged(x), ClusterEvent::LeaderChanged(y)) => x == y,
                (ClusterEvent::NodeAdded(x), ClusterEvent::NodeAdded(y)) | (ClusterEvent::NodeRemoved(x), ClusterEvent::NodeRemoved(y)) => full(x) == full(y),
                (ClusterEvent::MemberUp(x), ClusterEvent::MemberUp(y)) => x.leader_id == y.leader_id && x.nodes.len() == y.nodes.len() && x.nodes.iter().zip(&y.nodes).all(|(p, q)| full(p) == full(q)),
                _ => false,
            };
            ensure!(same, "{e:?} decodes to {d:?}");
        }
        if let Some(t) = &f.started {
            let p = ts(&Some(*t)).unwrap();
            let back = datetime_to_timestamp(&timestamp_to_datetime(p.clone()));
            ensure!(p == back, "the time {p:?} becomes {back:?}");
        }

        // sharding
        let uuid = uuid::Uuid::from_u64_pair(f.uuid.0, f.uuid.1);
        let m = trip(&AllocateShard { shard_id: f.u, rebalancing: f.flags[0] })?;
        ensure!(m.shard_id == f.u && m.rebalancing == f.flags[0], "AllocateShard({}, {}) decodes to ({}, {})", f.u, f.flags[0], m.shard_id, m.rebalancing);
        let allocs = || {
            vec![
                AllocateShardResult::Allocated(f.u, f.n[0]),
                AllocateShardResult::AlreadyAllocated(f.u, f.n[1]),
                AllocateShardResult::NotAllocated,
                AllocateShardResult::Err(AllocateShardErr::Unknown),
                AllocateShardResult::Err(AllocateShardErr::Persistence),
            ]
        };
        for (a, b) in allocs().into_iter().zip(allocs()) {
            let r = result_trip::<AllocateShard>(a)?;
            ensure!(r == b, "{b:?} arrives as {r:?}");
        }
        let m = trip(&ShardAllocated(f.u, f.n[0]))?;
        ensure!(m.0 == f.u && m.1 == f.n[0], "ShardAllocated decodes to something else");
        let m = trip(&ShardReallocating(f.u))?;
        ensure!(m.0 == f.u, "ShardReallocating decodes to something else");
        let m = trip(&StopShard { shard_id: f.u, origin_node_id: f.n[0], request_id: uuid })?;
        ensure!(m.shard_id == f.u && m.origin_node_id == f.n[0] && m.request_id == uuid, "StopShard decodes to something else");
        re_encode::<ShardStopped, _>(&shp::ShardStopped { shard_id: f.u, is_successful: f.flags[0], ..Default::default() })?;
        let recipe = f.flags[1].then(|| f.s[4].clone().into_bytes());
        let q = RemoteEntityRequest { request_id: uuid, actor_id: f.s[0].clone().to_actor_id(), message_type: f.s[1].clone(), message: f.b.clone(), recipe: recipe.clone(), origin_node: f.n[2] };
        let m = trip(&q)?;
        ensure!(
            m.request_id == uuid && m.actor_id == q.actor_id && m.message_type == q.message_type && m.message == q.message && m.recipe == q.recipe && m.origin_node == q.origin_node,
            "RemoteEntityRequest decodes to something else (recipe {:?} -> {:?})",
            q.recipe,
            m.recipe
        );
        let m = trip(&StartEntity { actor_id: f.s[0].clone().to_actor_id(), recipe: Arc::new(f.b.clone()) })?;
        ensure!(*m.actor_id == *f.s[0] && *m.recipe == f.b, "StartEntity decodes to something else");
        let m = trip(&RemoveEntity { actor_id: f.s[0].clone().to_actor_id() })?;
        ensure!(*m.actor_id == *f.s[0], "RemoveEntity decodes to something else");
        let m = trip(&PassivateEntity { actor_id: f.s[0].clone().to_actor_id() })?;
        ensure!(*m.actor_id == *f.s[0], "PassivateEntity decodes to something else");
        let status = |n: u8| [ShardHostStatus::Unknown, ShardHostStatus::Starting, ShardHostStatus::Ready, ShardHostStatus::Unavailable][n as usize % 4];
        trip(&GetShardingStats)?;
        let st = result_trip::<GetShardingStats>(ShardingStats {
            entity_type: f.s[0].clone(),
            total_shards: f.n[0],
            shards: f.many.iter().map(|m| RemoteShard { shard_id: m.0, node_id: m.1 }).collect(),
            nodes: f.many.iter().map(|m| NodeStats { node_id: m.1, shard_count: m.0 as u64, status: status(m.2) }).collect(),
        })?;
        ensure!(
            st.entity_type == f.s[0]
                && st.total_shards == f.n[0]
                && st.shards.iter().map(|s| (s.shard_id, s.node_id)).collect::<Vec<_>>() == f.many.iter().map(|m| (m.0, m.1)).collect::<Vec<_>>()
                && st.nodes.iter().map(|s| (s.shard_count, s.node_id, format!("{:?}", s.status))).collect::<Vec<_>>()
                    == f.many.iter().map(|m| (m.0 as u64, m.1, format!("{:?}", status(m.2)))).collect::<Vec<_>>(),
            "the sharding statistics arrive changed"
        );
        trip(&GetShardStats)?;
        let ents: std::collections::HashSet<String> = f.s.iter().cloned().collect();
        let st = result_trip::<GetShardStats>(ShardStats { shard_id: f.u, node_id: f.n[0], entities: ents.clone() })?;
        ensure!(st.shard_id == f.u && st.node_id == f.n[0] && st.entities == ents, "the shard statistics arrive changed");
        let es = [shp::EntityState::IDLE, shp::EntityState::ACTIVE, shp::EntityState::PASSIVATED];
        let sn = shp::ShardStateSnapshot {
            shard_id: f.u,
            node_id: f.n[0],
            entities: f
                .many
                .iter()
                .map(|m| shp::shard_state_snapshot::Entity { actor_id: format!("{}{}", m.0, f.s[0]), recipe: f.b.clone(), state: es[m.2 as usize % 3].into(), ..Default::default() })
                .collect(),
            ..Default::default()
        };
        let d = ShardStateSnapshot::from_remote_envelope(sn.write_to_bytes().unwrap()).map_err(|e| Fail::Safety(format!("a shard snapshot does not decode: {e}")))?;
        let again = d.into_remote_envelope().map_err(|e| Fail::Safety(format!("a shard snapshot does not encode: {e}")))?.into_bytes();
        let again = shp::ShardStateSnapshot::parse_from_bytes(&again).map_err(|e| Fail::Safety(format!("a shard snapshot encodes to something else: {e}")))?;
        let mut want = sn.clone();
        for e in want.entities.iter_mut() {
            // an active entity is not running any more when it is recovered
            if e.state == EnumOrUnknown::new(shp::EntityState::ACTIVE) {
                e.state = shp::EntityState::IDLE.into();
            }
        }
        ensure!(again == want, "the shard snapshot {want:?} becomes {again:?}");

        // singleton
        re_encode::<LeaseAck, _>(&sip::LeaseAck { source_node_id: f.n[0], ..Default::default() })?;
        re_encode::<RequestLease, _>(&sip::RequestLease { source_node_id: f.n[0], ..Default::default() })?;
        re_encode::<SingletonStarted, _>(&sip::SingletonStarted { source_node_id: f.n[0], ..Default::default() })?;
        re_encode::<SingletonStopped, _>(&sip::SingletonStopped { source_node_id: f.n[0], ..Default::default() })?;
        ensure!(trip(&LeaseAck { source_node_id: f.n[1] })?.source_node_id == f.n[1], "LeaseAck decodes to something else");
        ensure!(trip(&RequestLease { source_node_id: f.n[1] })?.source_node_id == f.n[1], "RequestLease decodes to something else");

        // journal
        let j = JournalEntry { sequence: f.i, payload_type: f.s[0].as_str().into(), bytes: Arc::new(f.b.clone()) };
        let b = j.write_to_bytes().ok_or(Fail::Safety("a journal entry does not encode".into()))?;
        for d in [JournalEntry::read_from_bytes(b.clone()), JournalEntry::read_from_slice(&b)] {
            let d = d.ok_or(Fail::Safety("a journal entry does not decode".into()))?;
            ensure!(d.sequence == j.sequence && d.payload_type == j.payload_type && d.bytes == j.bytes, "the journal entry {j:?} decodes to {d:?}");
        }

        // derived
        let kind = match f.u % 3 {
            0 => Kind::A,
            1 => Kind::B(f.i, f.s[3].clone()),
            _ => Kind::C { x: Some(Box::new(Kind::B(-f.i.max(-5), f.s[2].clone()))), y: f.b.clone() },
        };
        let js = Json { text: f.s.to_vec(), n: f.n[0], map: f.s.iter().cloned().zip(f.n).collect(), kind: kind.clone(), opt: None };
        let d = trip(&js)?;
        ensure!(d == js, "{js:?} decodes to {d:?}");
        for r in [Ok(vec![kind, Kind::A]), Err(f.s[0].clone())] {
            let d = result_trip::<Json>(r.clone())?;
            ensure!(d == r, "the result {r:?} arrives as {d:?}");
        }
        let sn = Snap { json: js };
        let b = sn.clone().into_remote_envelope().map_err(|e| Fail::Safety(format!("a derived snapshot does not encode: {e}")))?.into_bytes();
        let d = Snap::from_remote_envelope(b).map_err(|e| Fail::Safety(format!("a derived snapshot does not decode: {e}")))?;
        ensure!(d == sn, "{sn:?} decodes to {d:?}");
        ensure!(<() as ActorRecipe>::read_from_bytes(&().write_to_bytes().unwrap_or_default()) == Some(()), "the empty recipe does not decode");
        Ok(CaseOut::new(!f.nodes.is_empty() && !f.s[0].is_empty() && !f.b.is_empty()).label(f.s.iter().any(|s| !s.is_ascii()), "non-ascii").label(f.n.iter().any(|n| *n > i64::MAX as u64), "numbers above i64"))
    }
}

#[derive(Debug, Clone, Serialize, Deserialize)]
enum Mutation {
    Truncate(u16),
    Flip(u16, u8),
    Insert(u16, Vec<u8>),
    Remove(u16, u8),
    Duplicate(u16),
}
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Garbage {
    source: u8,
    fields: Fields,
    raw: Vec<u8>,
    mutations: Vec<Mutation>,
    /// values no one would send
    enums: [i32; 3],
    time: (i64, i32),
}
fn mutate(mut b: Vec<u8>, ms: &[Mutation]) -> Vec<u8> {
    for m in ms {
        let n = b.len();
        match m {
            Mutation::Truncate(k) => b.truncate(*k as usize % (n + 1)),
            Mutation::Flip(k, x) if n > 0 => b[*k as usize % n] ^= x,
            Mutation::Insert(k, v) => {
                let at = *k as usize % (n + 1);
                b.splice(at..at, v.iter().copied());
            }
            Mutation::Remove(k, l) if n > 0 => {
                let at = *k as usize % n;
                b.drain(at..(at + *l as usize).min(n));
            }
            Mutation::Duplicate(k) if n > 0 => {
                let at = *k as usize % n;
                let tail = b[at..].to_vec();
                b.extend(tail);
            }
            _ => {}
        }
    }
    b
}
/// Frames and messages that are valid protobuf and make no sense.
fn odd(g: &Garbage) -> Vec<Vec<u8>> {
    let t = || Some(Timestamp { seconds: g.time.0, nanos: g.time.1, ..Default::default() });
    let node = net::RemoteNode { node_id: g.fields.n[0], node_started_at: t().into(), ..Default::default() };
    let err = net::ActorRefErr {
        type_: EnumOrUnknown::from_i32(g.enums[0]),
        serialization_error: EnumOrUnknown::from_i32(g.enums[1]),
        deserialization_error: EnumOrUnknown::from_i32(g.enums[2]),
        ..Default::default()
    };
    let mut v = vec![];
    for (k, m) in [
        (0u8, net::NodeIdentity { node_started_at: t().into(), peers: vec![node.clone()], ..Default::default() }.write_to_bytes()),
        (1, net::ClientErr { error: Some(err.clone()).into(), ..Default::default() }.write_to_bytes()),
        (2, net::ClientErr::default().write_to_bytes()),
        (3, net::NewNodeEvent::default().write_to_bytes()),
        (4, net::NewNodeEvent { node: Some(node.clone()).into(), ..Default::default() }.write_to_bytes()),
        (5, net::MemberUpEvent { nodes: vec![node.clone()], ..Default::default() }.write_to_bytes()),
        (6, net::SessionHandshake { client_type: EnumOrUnknown::from_i32(g.enums[0]), nodes: vec![node.clone()], ..Default::default() }.write_to_bytes()),
        (7, shp::ShardAllocated::default().write_to_bytes()),
        (8, shp::AllocateShardResult { result_type: EnumOrUnknown::from_i32(g.enums[0]), err: EnumOrUnknown::from_i32(g.enums[1]), ..Default::default() }.write_to_bytes()),
        (9, shp::StopShard { request_id: g.fields.s[0].clone(), ..Default::default() }.write_to_bytes()),
        (10, shp::RemoteEntityRequest { request_id: g.fields.s[1].clone(), ..Default::default() }.write_to_bytes()),
        (11, shp::ShardingStats { nodes: vec![shp::NodeStats { status: EnumOrUnknown::from_i32(g.enums[0]), ..Default::default() }], ..Default::default() }.write_to_bytes()),
        (12, shp::ShardStateSnapshot { entities: vec![shp::shard_state_snapshot::Entity { state: EnumOrUnknown::from_i32(g.enums[0]), ..Default::default() }], ..Default::default() }.write_to_bytes()),
    ] {
        let m = m.expect("generated value");
        let mut f = vec![g.raw.first().copied().unwrap_or(k) % 16];
        f.extend(&m);
        v.push(m);
        v.push(f);
    }
    let _ = err;
    v
}
/// Runs every decoder; the answers do not matter, panics do.
fn decode_all(b: &[u8]) -> u32 {
    let v = || b.to_vec();
    let mut ok = 0;
    if let Some(e) = ClientEvent::read_from_bytes(v()) {
        ok += 1;
        match e {
            ClientEvent::Identity(i) => {
                let _ = RemoteNode::from(&i);
                i.peers.into_iter().for_each(|p| drop(RemoteNode::from(p)));
            }
            ClientEvent::Handshake(h) => h.nodes.into_iter().for_each(|p| drop(RemoteNode::from(p))),
            ClientEvent::Err(e) => {
                if let Some(e) = e.error.into_option() {
                    let _ = ActorRefErr::from(e);
                }
            }
            _ => {}
        }
    }
    if let Some(e) = SessionEvent::read_from_bytes(v()) {
        ok += 1;
        match e {
            SessionEvent::Handshake(h) => h.nodes.into_iter().for_each(|p| drop(RemoteNode::from(p))),
            SessionEvent::Err(e) => {
                if let Some(e) = e.error.into_option() {
                    let _ = ActorRefErr::from(e);
                }
            }
            _ => {}
        }
    }
    ok += SystemEvent::read_from_bytes(v()).is_some() as u32;
    ok += AllocateShard::from_bytes(v()).is_ok() as u32;
    ok += AllocateShard::read_remote_result(v()).is_ok() as u32;
    ok += ShardAllocated::from_bytes(v()).is_ok() as u32;
    ok += ShardReallocating::from_bytes(v()).is_ok() as u32;
    ok += StopShard::from_bytes(v()).is_ok() as u32;
    ok += ShardStopped::from_bytes(v()).is_ok() as u32;
    ok += RemoteEntityRequest::from_bytes(v()).is_ok() as u32;
    ok += StartEntity::from_bytes(v()).is_ok() as u32;
    ok += RemoveEntity::from_bytes(v()).is_ok() as u32;
    ok += PassivateEntity::from_bytes(v()).is_ok() as u32;
    ok += GetShardingStats::from_bytes(v()).is_ok() as u32;
    ok += GetShardingStats::read_remote_result(v()).is_ok() as u32;
    ok += GetShardStats::from_bytes(v()).is_ok() as u32;
    ok += GetShardStats::read_remote_result(v()).is_ok() as u32;
    ok += ShardStateSnapshot::from_remote_envelope(v()).is_ok() as u32;
    ok += LeaseAck::from_bytes(v()).is_ok() as u32;
    ok += RequestLease::from_bytes(v()).is_ok() as u32;
    ok += SingletonStarted::from_bytes(v()).is_ok() as u32;
    ok += SingletonStopped::from_bytes(v()).is_ok() as u32;
    ok += JournalEntry::read_from_bytes(v()).is_some() as u32;
    ok += Json::from_bytes(v()).is_ok() as u32;
    ok += Json::read_remote_result(v()).is_ok() as u32;
    ok += Snap::from_remote_envelope(v()).is_ok() as u32;
    ok
}
struct Junk;
impl Part for Junk {
    type Case = Garbage;
    fn name(&self) -> &'static str {
        "garbage"
    }
    fn rule(&self) -> &'static str {
        "byte strings that are random, mutations of valid encodings (truncated, flipped, spliced, doubled), or valid protobuf with missing parts, unknown enumerators, unreadable ids and impossible times, given to every decoder; a panic is a violation; non-trivial: some decoder accepted and some rejected one of the strings."
    }
    fn strategy(&self, _: Tier) -> BoxedStrategy<Garbage> {
        let m = prop_oneof![
            any::<u16>().prop_map(Mutation::Truncate),
            (any::<u16>(), 1u8..).prop_map(|(a, b)| Mutation::Flip(a, b)),
            (any::<u16>(), prop::collection::vec(any::<u8>(), 1..6)).prop_map(|(a, b)| Mutation::Insert(a, b)),
            (any::<u16>(), 1u8..9).prop_map(|(a, b)| Mutation::Remove(a, b)),
            any::<u16>().prop_map(Mutation::Duplicate),
        ];
        let en = || prop_oneof![any::<i32>(), 0i32..16];
        (
            any::<u8>(),
            fields(),
            prop::collection::vec(any::<u8>(), 0..40),
            prop::collection::vec(m, 0..4),
            [en(), en(), en()],
            (prop_oneof![any::<i64>(), -10i64..10], prop_oneof![any::<i32>(), 0i32..2_000_000_000]),
        )
            .prop_map(|(source, fields, raw, mutations, enums, time)| Garbage { source, fields, raw, mutations, enums, time })
            .boxed()
    }
    fn cases(&self, t: Tier) -> u32 {
        if t == Tier::Quick { 15_000 } else { 400_000 }
    }
    fn check(&self, g: &Garbage) -> CaseResult {
        let f = &g.fields;
        let mut inputs: Vec<Vec<u8>> = vec![g.raw.clone()];
        let mut valid: Vec<Vec<u8>> = client_events(f).iter().filter_map(|e| e.write_to_bytes()).collect();
        valid.extend(session_events(f).iter().filter_map(|e| e.write_to_bytes()));
        valid.push(shp::AllocateShardResult { result_type: shp::allocate_shard_result::Type::ALLOCATED.into(), ..Default::default() }.write_to_bytes().unwrap());
        valid.push(Json { text: f.s.to_vec(), n: f.n[0], map: Default::default(), kind: Kind::A, opt: None }.as_bytes().unwrap());
        let n = valid.len();
        inputs.push(mutate(valid.swap_remove(g.source as usize % n), &g.mutations));
        // the right first byte and nonsense after it
        for k in 0..14u8 {
            let mut v = vec![k];
            v.extend(&g.raw);
            inputs.push(v);
        }
        inputs.extend(odd(g));
        let total = inputs.len() as u32;
        let mut ok = 0;
        for i in &inputs {
            let i = i.clone();
            match std::panic::catch_unwind(|| decode_all(&i)) {
                Ok(n) => ok += n,
                Err(_) => return Err(Fail::Safety(format!("decoding {} bytes panicked: {:02x?}", i.len(), &i[..i.len().min(200)]))),
            }
        }
        for e in [net::ActorRefErr { type_: EnumOrUnknown::from_i32(g.enums[0]), serialization_error: EnumOrUnknown::from_i32(g.enums[1]), deserialization_error: EnumOrUnknown::from_i32(g.enums[2]), ..Default::default() }] {
            ensure!(std::panic::catch_unwind(|| ActorRefErr::from(e)).is_ok(), "reading an error with the codes {:?} panicked", g.enums);
        }
        ensure!(
            std::panic::catch_unwind(|| timestamp_to_datetime(Timestamp { seconds: g.time.0, nanos: g.time.1, ..Default::default() })).is_ok(),
            "reading the time {:?} panicked",
            g.time
        );
        Ok(CaseOut::new(ok > 0 && ok < 26 * total).label(!g.mutations.is_empty(), "mutated"))
    }
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Stream {
    fields: Fields,
    picks: Vec<(u8, bool)>,
    chunks: Vec<u16>,
    delays: Vec<u8>,
    cut: bool,
}
#[derive(Clone, Default)]
struct Got {
    events: Arc<Mutex<Vec<SessionEvent>>>,
    failed: Arc<Mutex<usize>>,
    closed: Arc<Mutex<usize>>,
}
#[async_trait]
impl StreamReceiver for Got {
    type Message = SessionEvent;
    async fn on_receive(&mut self, m: SessionEvent, _: &RemoteActorSystem) {
        self.events.lock().push(m);
    }
    async fn on_close(&mut self, _: &RemoteActorSystem) {
        *self.closed.lock() += 1;
    }
    fn on_deserialisation_failed(&mut self) {
        *self.failed.lock() += 1;
    }
    fn on_stream_lost(&mut self, _: std::io::Error) {}
    async fn close(&mut self) {}
    fn should_close(&self) -> bool {
        false
    }
}
struct Frag;
impl Part for Frag {
    type Case = Stream;
    fn name(&self) -> &'static str {
        "fragments"
    }
    fn rule(&self) -> &'static str {
        "1-12 frames, some of them unreadable, written to a byte stream in generated pieces with pauses, possibly cut off in the middle of the last frame; the receiving loop must deliver exactly the readable frames, in order, report the unreadable ones and end with the stream; non-trivial: at least three pieces and two readable frames."
    }
    fn strategy(&self, _: Tier) -> BoxedStrategy<Stream> {
        (fields(), prop::collection::vec((any::<u8>(), prop::bool::weighted(0.15)), 1..12), prop::collection::vec(1u16..200, 1..12), prop::collection::vec(0u8..3, 1..6), any::<bool>())
            .prop_map(|(fields, picks, chunks, delays, cut)| Stream { fields, picks, chunks, delays, cut })
            .boxed()
    }
    fn cases(&self, t: Tier) -> u32 {
        if t == Tier::Quick { 3_000 } else { 60_000 }
    }
    fn check(&self, c: &Stream) -> CaseResult {
        block_on_paused(async {
            use futures::SinkExt;
            use tokio::io::AsyncWriteExt;
            use tokio_util::codec::{FramedRead, FramedWrite, LengthDelimitedCodec};
            let sys = RemoteActorSystem::builder().with_actor_system(ActorSystem::new()).build().await;
            // frames as the sending side frames them
            let (a, mut b) = tokio::io::duplex(1 << 22);
            let mut w = FramedWrite::new(a, LengthDelimitedCodec::new());
            let (mut want, mut bad) = (vec![], 0);
            for (p, broken) in &c.picks {
                let mut evs = session_events(&c.fields);
                let n = evs.len();
                let e = evs.swap_remove(*p as usize % n);
                let mut bytes = e.write_to_bytes().ok_or(Fail::Safety("a frame does not encode".into()))?;
                if *broken {
                    bytes[0] = 0xfe;
                    bad += 1;
                } else {
                    want.push(e);
                }
                w.send(bytes::Bytes::from(bytes)).await.expect("in memory");
            }
            drop(w);
            let mut all = vec![];
            tokio::io::AsyncReadExt::read_to_end(&mut b, &mut all).await.expect("in memory");
            if c.cut && !c.picks.last().unwrap().1 {
                all.pop();
                want.pop();
            }
            let (mut tx, rx) = tokio::io::duplex(64);
            let got = Got::default();
            let loop_ = tokio::spawn(receive_loop(sys, FramedRead::new(rx, LengthDelimitedCodec::new()), got.clone()));
            let (mut at, mut i) = (0, 0);
            while at < all.len() {
                let n = (c.chunks[i % c.chunks.len()] as usize).min(all.len() - at);
                tx.write_all(&all[at..at + n]).await.map_err(|e| Fail::Safety(format!("the receiver closed the stream: {e}")))?;
                vf::rt::perturb(c.delays[i % c.delays.len()] * 2).await;
                at += n;
                i += 1;
            }
            drop(tx);
            rt::within("the receiving loop", loop_).await?.map_err(|e| Fail::Safety(format!("the receiving loop panicked: {e}")))?;
            let g = got.events.lock();
            ensure!(g.len() == want.len() && g.iter().zip(&want).all(|(a, b)| same_session(a, b)), "sent {} readable frames, received {} (or others): {:?}", want.len(), g.len(), g);
            ensure!(*got.failed.lock() == bad, "{bad} unreadable frames, {} reported", *got.failed.lock());
            ensure!(*got.closed.lock() == 1, "the end of the stream was reported {} times", *got.closed.lock());
            Ok(CaseOut::new(i >= 3 && want.len() >= 2).label(bad > 0, "unreadable frames").label(c.cut, "cut"))
        })
    }
}

fn main() {
    Runner::from_args("C14").part(Round).part(Junk).part(Frag).finish()
}
