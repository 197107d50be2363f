#!/usr/bin/env python3
"""Single source of properties.jsonl."""
import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]="cfg(vf_hooks): re-exports of private message types" if id=="C14" else None
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

A="coerce/src/actor/"
p("C01","Local mailbox: exactly-once, serial, per-sender FIFO, own reply",
 "Every message accepted for a running local actor, by whichever local call it was passed (request, notification, delivery with a caller-supplied reply channel, closure execution, typed receiver, location-transparent reference, piped future, blocking call), is handled exactly once by that actor with its content intact, even if the caller stopped waiting. An actor never handles two messages at the same time, and the messages one sender passes one after the other to an actor are handled in that order. Every request resolves with the value that the handler returned for that very request.",
 ["schedules","histories"],"all message sequences from any number of concurrent senders to any number of actors, all handler suspensions and interleavings",
 "The tests send a handful of messages from one task; ordering, exclusivity and reply correlation only become visible with many concurrent senders and suspending handlers.",
 [A+"lifecycle.rs",A+"refs/mod.rs",A+"message/mod.rs",A+"blocking.rs",A+"mod.rs"],
 [("receive loop","ActorLoop::run"),("mailbox + one-shot reply","LocalActorRef::send/notify/deliver, ActorMessage::handle")],
 ["replies","handler-side log"])
p("C02","Actor lifecycle and stop semantics; requests never hang",
 "The started hook completes before an actor handles its first message; a stop request takes effect in mailbox order: everything accepted before it is handled, nothing after it is, and the stopped hook then runs exactly once, before the waiting stop request resolves. An actor that stops itself, stops while starting, or panics ends in the same way for its callers: a spawn whose actor does not come up fails, every request that was not answered resolves with an error, and every later use of its reference fails. Requests and stop calls never stay unresolved once the actor has ended.",
 ["schedules","histories","fault_sequences"],"all sequences of requests, notifications, stops, self-stops and panics from concurrent senders, at any point of the actor's life",
 "The tests stop an actor once, when it is idle; what happens to queued and late requests, second stops, self-stops and panics in hooks or handlers depends on the interleaving.",
 [A+"lifecycle.rs",A+"refs/mod.rs",A+"system/mod.rs",A+"context.rs"],
 [("stop handling","Handler<Stop>, actor_stopped"),("start acknowledgement","ActorSystem::new_actor")])
p("C03","Tracked actors are found by id exactly while they live",
 "From the moment spawning a tracked actor returns until that actor ends (by stopping, failing to start, or panicking), looking up its id with its type yields a reference to that actor, and once it has ended the lookup yields nothing; a lookup with another actor type and a lookup of an untracked actor yield nothing. When several tracked actors are spawned under one id, the id denotes the most recent one for as long as it lives, no matter when its predecessors end. The reported number of tracked actors equals the number of ids that currently denote a live actor.",
 ["histories","schedules"],"all histories of spawn, stop, failing start, panic and lookup over colliding ids",
 "The tests look up one actor with a unique id; id reuse, replacement and failed starts are never combined.",
 [A+"scheduler/mod.rs",A+"system/mod.rs",A+"lifecycle.rs"],
 [("registry","ActorScheduler RegisterActor/DeregisterActor/GetActor/ActorCount")])
p("C04","Supervision: children live and die with their parent",
 "A parent sees exactly its live children: spawning under a taken id is refused and leaves the existing child untouched, and when a child ends for any reason (stopped, stopped itself, failed to start, panicked) the parent's child-stopped hook runs exactly once for it and its id becomes free. When an actor ends, each of its descendants stops, and its own parent is told only after its direct children have stopped. No actor outside the ended subtree is affected.",
 ["histories","schedules","fault_sequences"],"all trees and all sequences of spawns (waiting or deferred), stops, self-stops, failing starts and panics at any node",
 "The tests stop one parent of one or two idle children; nested trees, panics and concurrent stops are not reached.",
 [A+"supervised.rs",A+"context.rs",A+"lifecycle.rs"],
 [("child map","Supervised"),("cascade","Drop for ActorContext, Supervised::stop_all"),("notification","Terminated / on_child_stopped")])
p("C05","Watchers are notified exactly once when the watched actor ends",
 "When an actor ends, by stopping or by panicking, every actor that was watching it at that moment receives exactly one termination notice naming that actor, and no other actor receives one. Watching twice still yields one notice, un-watching before the end yields none, and one actor's watching is independent of any other's.",
 ["histories","schedules"],"all sequences of watch, unwatch, stop and panic over any number of watchers and subjects",
 "The single test watches once and stops once.",
 [A+"watch/mod.rs",A+"watch/watchers.rs",A+"lifecycle.rs",A+"context.rs"],
 [("watcher set","Watchers"),("notice","actor_stopped / ActorTerminated")])
p("C06","Timers and delayed notifications fire on time and stop when told",
 "A timer delivers its tick first after one period (or at once when started immediately) and then one period after the previous tick was handled, never two at a time; it keeps ticking until it is stopped, its handle is dropped or the actor ends, and sends no tick after that. A delayed notification is delivered exactly once, at its delay, unless it was cancelled before.",
 ["schedules","histories"],"all periods, handling times, concurrent load on the actor, and stop, drop or cancel instants",
 "The tests use real time and only count ticks roughly; they never drop a handle or cancel close to a tick.",
 [A+"scheduler/timer.rs",A+"mod.rs"],[("timer loop","timer_loop"),("delayed notify","LocalActorRef::scheduled_notify")])
p("C07","Worker pools handle each task once, in parallel and evenly",
 "Every task dispatched to a worker pool is handled exactly once by exactly one worker and its result is returned to its own dispatcher; tasks are dealt to the workers in turn, so up to as many tasks as there are workers run at the same time and a busy worker never holds up tasks dealt to the others. A dispatch whose worker dies resolves with an error instead of hanging.",
 ["schedules","histories"],"all pool sizes, task counts, task durations, dispatch overlaps and worker crashes",
 "The test runs a fixed number of tasks and checks only elapsed time.",
 [A+"worker.rs"],[("round robin dispatch","Handler<WorkerMessage>")])
p("C08","System shutdown stops everything and always completes",
 "Shutting an actor system down completes whatever its actors are doing, including actors that are busy, stopping, or themselves spawning and looking up actors; when it completes every tracked actor has handled what it had accepted and has run its stopped hook exactly once, and their descendants stop too. Afterwards the system reports itself terminated, lookups find nothing, and shutting down again is harmless.",
 ["schedules","histories"],"all populations of tracked, untracked and supervised actors with pending work, and all instants of the shutdown",
 "No test shuts a system down while its actors are working.",
 [A+"system/mod.rs",A+"scheduler/mod.rs"],[("shutdown","ActorSystem::shutdown, ActorScheduler::stopped")])
p("C09","Describing the system reports the real actor tree",
 "A description of an actor, or of the whole system, contains every tracked actor and its live descendants exactly once at their true place, with the true id, path (its parent's path followed by its own id), type name and tags, limited only by the depth, child-count and attached-children options. An actor that cannot answer in time or has ended is reported as such under its own identity (its ancestors below the top of a system description may then have run out of time too), and never prevents the description from being returned.",
 ["histories","inputs"],"all trees, options, busy or dead children",
 "The test describes one fixed tree and checks a count.",
 [A+"describe/mod.rs"],[("recursive describe","Handler<Describe>, Handler<DescribeAll>")])

Q="coerce/src/persistent/"
p("C10","Persistent actors recover exactly the state they persisted",
 "After any history of successfully persisted messages, batches, snapshots and journal clears, a restarted persistent actor reaches, before it handles its first message, the state obtained by applying the last snapshot and then every message persisted after it, each exactly once and in order, from the storage configured for the actor's type. A message or batch whose persistence was interrupted by a crash is applied completely or not at all, and actors with different persistence ids never see each other's journals. Repeated crashes and recoveries do not change the outcome.",
 ["histories","crash_points"],"all histories of persist, batch, snapshot, clear, stop, crash and restart, over several actors",
 "The tests recover once after one fixed sequence; interleavings of snapshots with messages and of repeated recoveries are not reached.",
 [Q+"actor.rs",Q+"context.rs",Q+"recovery.rs",Q+"batch.rs",Q+"journal/mod.rs",Q+"journal/types.rs"],
 [("sequence numbers","Journal::persist_message / persist_snapshot"),("recovery","Recover, PersistentActor::recover")])
p("C11","Persist and recovery failure policies do what they say",
 "When the storage fails, a persistent actor behaves as its policy states: with retry it tries again, after the configured delay, until it succeeds or the configured number of attempts is used up and then reports an error; with return-error the caller gets the storage's failure; with stop-actor the actor stops and its callers get errors. Whatever faults occur, an acknowledged persist is recovered later, a recovery that did not succeed never lets the actor handle messages with partial state, and no caller waits for ever unless the policy says to retry for ever.",
 ["fault_sequences","histories","configurations"],"all patterns of failing storage operations during recovery, persist and snapshot under all policy combinations",
 "The tests script one fault pattern for two policies.",
 [Q+"failure.rs",Q+"actor.rs",Q+"context.rs",Q+"recovery.rs"],[("policies","RecoveryFailurePolicy, PersistFailurePolicy, Retry")])
p("C12","In-memory journal storage obeys the storage contract",
 "For every sequence of operations, the in-memory storage returns the last snapshot written, and for a starting sequence or a bounded range (both ends included) exactly the stored messages in it, in order and intact; deletions remove what they name and nothing else, and keys are independent of each other. No operation on an absent key, empty range or out-of-range sequence fails or panics.",
 ["histories","inputs"],"all sequences of storage operations with increasing sequence numbers, all ranges and payloads, over several keys",
 "The in-memory provider is only exercised through two actor tests.",
 [Q+"journal/provider.rs",Q+"journal/storage.rs"],[("storage","InMemoryStorageProvider")])
p("C13","Redis journal storage obeys the storage contract",
 "For every sequence of operations against a Redis server, the Redis storage returns the last snapshot written, and for a starting sequence or a bounded range (both ends included) exactly the stored messages in it, in order and intact; batches are stored completely, deletions remove what they name and nothing else, keys are independent, and what was acknowledged is visible to every later client of the same server.",
 ["histories","inputs"],"all sequences of storage operations with increasing sequence numbers (up to 2^52), all ranges and payloads, over several keys and several clients",
 "The tests write a few entries under one key.",
 ["providers/persistence/coerce-redis/src/journal/mod.rs","providers/persistence/coerce-redis/src/journal/actor.rs"],[("storage","RedisJournalStorage, RedisJournal")])

R="coerce/src/remote/"
p("C14","Wire encodings round-trip and reject garbage without panicking",
 "Every message that the system sends to other nodes or stores (session and client frames, system events, sharding and singleton protocol messages, journal entries, and messages using the derived JSON encoding, floating-point values excepted) decodes to what was encoded, for all field values, and encoded frames survive any fragmentation of the byte stream. Bytes that are not a valid encoding are rejected with an error or ignored; decoding never panics.",
 ["inputs"],"all field values, all byte strings, all fragmentations",
 "The tests encode one or two fixed messages.",
 [R+"net/message.rs",R+"net/mod.rs",R+"stream/system.rs","coerce/src/sharding","coerce/src/singleton","coerce/src/persistent/journal","coerce/macros/src"],[("codecs","read_from_bytes / write_to_bytes, Message::as_bytes/from_bytes")])
p("C15","Remote actors behave like local ones to their callers",
 "A request sent through a remote reference is handled exactly once by the actor it names on the node it names, with its content intact, and resolves with the value the handler returned for that very request, however many requests from however many callers and nodes are in flight; a notification to a remote actor is handled exactly once. A request that cannot be served (no such actor, no connection to the node, message type not registered there, result not serialisable, handler died) resolves with an error. When the connection to a living node breaks, every request under way resolves, nothing is handled twice, notifications sent while it is known to be down are delivered later, and requests work again once the node can be reached.",
 ["schedules","histories","inputs"],"all interleavings of requests and notifications among nodes, callers, actors and payload sizes",
 "The tests send one message at a time over one connection.",
 [R+"actor_ref.rs",R+"handler.rs",R+"system/rpc.rs",R+"net/server/session/mod.rs",R+"net/client"],[("request registry","RemoteRegistry / pending requests"),("dispatch","RemoteActorMessageHandler")])
p("C16","Actors are located and deployed correctly across the cluster",
 "Looking an actor up by id from any node of a connected cluster yields a usable reference to it, wherever it runs, once its registration has spread, and nothing or an error for an unknown id; systems in one process never see each other's references unless they form a cluster. Once the cluster has formed, deploying an actor locally or to another node by its registered type starts exactly one instance there from the given recipe, with the given id, and refuses an id that is already running, an unknown type and an unreadable recipe with an error.",
 ["histories","configurations","inputs"],"all placements of actors and lookups over clusters of several nodes, all deployments",
 "The tests use one actor on a two-node cluster.",
 [R+"actor/registry.rs",R+"system/actor.rs",R+"handler.rs",R+"net/server/session/mod.rs"],[("registry","RemoteRegistry"),("deploy","RemoteActorSystem::deploy_actor, ActorFactory")])
p("C17","Cluster membership converges and leaders agree",
 "Nodes that are started and joined through any connected set of seeds all end up with the same member list, containing every node's true id, tag and address once, and all agree that the leader is the oldest live member. When a node leaves or dies, the remaining nodes notice after the configured time without contact, no longer count it as alive, and agree on the oldest remaining node as the leader; a node that answers is never declared dead. Living nodes whose connections break agree on the same members and leader again once they can reach each other. Where a minimum cluster size is configured, a node announces itself up once that size is reached, and not before.",
 ["histories","configurations","fault_sequences"],"all join topologies, node attributes and departures within the bounds of the clusters built",
 "The tests join fixed topologies and look once.",
 [R+"heartbeat/mod.rs",R+"cluster/discovery/mod.rs",R+"cluster/node.rs",R+"system/cluster.rs"],[("heartbeat","Heartbeat"),("discovery","NodeDiscovery"),("node store","RemoteNodeStore")])
p("C18","Published messages reach every current subscriber exactly once, in order",
 "A message published to a topic is received exactly once and unchanged by every actor subscribed to that topic, on the publishing node and, when published cluster-wide, on every connected node, and by no one else; each subscriber sees one publisher's messages on a topic in publication order. Topics are independent, and after unsubscribing or stopping an actor receives nothing more; a slow or dead subscriber does not affect the others.",
 ["histories","schedules"],"all sequences of subscribe, unsubscribe, stop and publish over several topics, subscribers and nodes",
 "The tests publish a few messages to one topic.",
 [R+"stream/pubsub.rs",R+"stream/mediator/mod.rs"],[("mediator","StreamMediator"),("subscription","PubSub::subscribe")])
p("C19","Sharding: one live entity per id, every request answered",
 "In a cluster whose members stay, every request to a sharded entity is handled exactly once by the single live instance of that entity in the cluster, started on demand from the recipe given, and its own result is returned, no matter from which node it is sent and how many requests arrive while the coordinator, the shard or the entity is still starting; two instances of the same entity never run at once, and an entity that nothing stopped is not started again. A request that cannot be served (no recipe for an entity that does not exist yet, creation failed, entity stopped before it got to the request) resolves with an error instead of hanging and is not handled, and later requests that bring a recipe, or find one known to the shard, start the entity again. Several entity types can be sharded in the same system.",
 ["histories","schedules","configurations"],"all request sequences over entities, entity types, nodes and start/stop/failure instants within the clusters built",
 "The tests start one or two entities on one or two nodes.",
 ["coerce/src/sharding/shard/mod.rs","coerce/src/sharding/shard/message.rs","coerce/src/sharding/host/request.rs","coerce/src/sharding/host/mod.rs","coerce/src/sharding/mod.rs","coerce/src/sharding/builder.rs"],[("shard","Shard"),("host","ShardHost"),("routing","EntityRequest")])
p("C20","Shard allocation: one owner per shard, spread and moved safely",
 "While the node that runs the coordinator stays, each shard is allocated to exactly one available node of the cluster, all nodes are given the same answer, and repeated requests give the same answer until the shard is moved; an entity's shard depends only on its id and the configured number of shards and is below that number. Allocation picks a node with the fewest shards; when a node joins or leaves, shards are moved only off departed nodes or from nodes above the fair share, no shard is lost, a shard runs on its new node only after it and its entities have stopped on the old one, and once the move is over every entity answers from every node again. A request made during a move is answered or fails with an error, and is handled at most once.",
 ["histories","schedules","configurations"],"all allocation orders, node sets, joins, departures and rebalances within the clusters built",
 "The tests allocate one shard on two nodes.",
 ["coerce/src/sharding/coordinator/allocation.rs","coerce/src/sharding/coordinator/balancing.rs","coerce/src/sharding/coordinator/mod.rs","coerce/src/sharding/host/mod.rs","coerce/src/sharding/host/request.rs","coerce/src/sharding/shard/mod.rs"],[("coordinator","ShardCoordinator"),("allocator","ShardAllocator"),("host","ShardHost")])
p("C21","Cluster singletons: at most one instance, requests reach it",
 "In a cluster whose nodes are configured with the minimum size they form, at most one instance of a cluster singleton runs at any time among the live nodes, and a cluster whose membership does not change settles on exactly one, which every node's handle reaches. Every request sent through the handle on any node, also before the instance runs, is answered with its own reply, or with an error if the instance moved meanwhile, and every notification sent while the instance stays where it is arrives; no message is handled twice. When another node takes over or the node running the instance leaves, the next instance starts only after the previous one has ended.",
 ["histories","schedules","configurations"],"all node sets, start orders and request timings within the clusters built",
 "The test sends one request on a two-node cluster.",
 ["coerce/src/singleton/manager/mod.rs","coerce/src/singleton/manager/lease.rs","coerce/src/singleton/proxy/mod.rs","coerce/src/singleton/mod.rs"],[("lease","Manager"),("buffering","Proxy")])
p("C22","Only authenticated peers get in, and bad ones cannot disturb the node",
 "With token authentication configured, a connection is accepted exactly if it identifies itself with a token signed with the node's secret and valid at the time; without it none of its other frames has any effect. Whatever bytes, valid frames in the wrong order, silence or disconnects a peer produces, the node keeps accepting and serving well-behaved peers and can be shut down, and a connection that was accepted is either answered or closed.",
 ["inputs","fault_sequences"],"all tokens and tampered tokens, all byte streams and frame sequences of hostile connections",
 "The tests only connect well-behaved nodes.",
 [R+"net/security/auth/jwt.rs",R+"net/server/session/mod.rs",R+"net/server/session/store.rs",R+"net/server/mod.rs"],[("jwt","Jwt"),("handshake","RemoteSession::started / Identify"),("accept loop","RemoteServer")])
p("C23","Keys map to nodes consistently on every node",
 "The node chosen for a key depends only on the key and the set of member nodes, never on the order or history in which they were added and removed, so every node with the same member set makes the same choice, and the choice is always a current member. Adding or removing a node only changes the choice for keys that move to or from that node.",
 ["histories","inputs"],"all member sets, all add/remove histories, all keys",
 "The test checks one fixed ring.",
 [R+"cluster/node.rs"],[("ring","RemoteNodeStore, hashring")])
p("C24","System health reflects the probed actors",
 "A health report names every probed actor exactly once with its true state: the time it took to answer, or that it did not because it has ended; the overall verdict is unhealthy if any has ended, degraded if any took longer than a second, and healthy otherwise, and the report is returned as soon as every probed actor has answered or ended.",
 ["histories","fault_sequences"],"all sets of healthy, busy, stopped and panicked actors",
 "The tests probe one busy actor.",
 [R+"heartbeat/health.rs"],[("health","Heartbeat::get_system_health")])
p("C25","The HTTP API reports the true state of system, cluster and sharding",
 "The management API's answers on health, the actors of the system (ids, paths, types, status, tags, supervised children, subject to the request's depth and limits), cluster nodes, sharded types, the hosts and shards of a type and the entities a shard knows agree with the state of the system at the time of the request, for every population of actors, nodes and entities. Every request gets an answer: an unknown sharded type is answered with null, and a shard or coordinator that cannot be reached is left out rather than failing the request.",
 ["histories","configurations"],"all populations of actors and entities on the node(s) built",
 "No test calls the API.",
 [R+"api"],[("routes","Routes implementations under remote/api")])
p("C26","Stream attachments deliver every item in order, then stop the actor",
 "An actor to which a stream is attached receives every item that the converter keeps, exactly once and in stream order, up to the end of the stream or its first error, and is then stopped exactly if configured to; the actor's other messages are unaffected.",
 ["inputs","schedules"],"all item sequences, converters, errors, and interleavings with other messages",
 "The tests use it only implicitly through the network layer.",
 [A+"context.rs"],[("attach_stream","attach_stream")])
p("C27","Exported metrics count exactly what happened",
 "With metrics enabled, the counters exported at /metrics per actor type (actors started, actors ended) and per actor and message type (messages sent, messages processed, the counts of the waiting- and processing-time histograms) grow, over every history of starting, messaging, failing and stopping actors, by exactly the number of such events, each counted once and under its own type, with the node's id, tag and cluster labels.",
 ["histories","configurations"],"all histories of starts, notifies, sends, batches, worker pools, failures and stops; quiescent before reading",
 "No test reads a metric.",
 [A+"metrics/mod.rs",R+"api/metrics/mod.rs"],[("ActorMetrics","ActorMetrics and the /metrics route")])
p("C28","Sharding remembers its shards and entities when nodes go",
 "Over one persistent storage, whenever all nodes of a sharded cluster are restarted, or the coordinator's node (possibly with others) leaves or dies and the remaining nodes take over, possibly joined by new ones: without any request being made, every shard ever allocated is allocated again to exactly one live node, spread evenly, and hosted by its owner alone, and every entity that ever ran (unless it ended by itself while its shard stayed) runs there once with the recipe it was started with and answers every node without a recipe. A request under way meanwhile is handled at most once.",
 ["histories","crash_points","fault_sequences"],"all histories of allocations, entity starts and ends, node losses, takeovers and restarts within the clusters built; instances may overlap for a moment while a lost coordinator is replaced",
 "No test restarts a cluster or loses a coordinator.",
 ["coerce/src/sharding/shard/recovery.rs","coerce/src/sharding/shard/mod.rs","coerce/src/sharding/coordinator/mod.rs","coerce/src/sharding/coordinator/allocation.rs","coerce/src/sharding/coordinator/discovery.rs","coerce/src/sharding/host/mod.rs"],[("recovery","ShardStateSnapshot / ShardCoordinator recovery"),("coordinator","ShardCoordinator"),("host","ShardHost")])
if __name__=="__main__":
    with open('properties.jsonl','w') as f:
        for x in P: f.write(json.dumps(x)+"\n")
