#!/usr/bin/env python3
# Source of properties.jsonl (kept as a generator only so that the lines stay readable).
import json
P=[]
def p(id,title,statement,over,quant,why,files,mech,observe,state=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":quant},"why_tests_cant":why,"anchors":a})

SPAWN="flarch spawn_local wrapper (cfg fledger_sim) so that the simulator decides task order"

p("C01","Message brokers deliver exactly once and in order",
 "Every message put into a broker reaches every listener (tap) and every handler that was registered before it and not removed since, exactly once and in the order in which it was put in; answers produced by a handler reach all output listeners and all linked brokers in the same way. Registering, removing or closing other listeners, handlers or links never loses, duplicates or reorders the messages of the remaining ones, and a removed one receives nothing once its removal has completed. A message passed on through links reaches the linked brokers once per link path, translated, and in order.",
 ["schedules","histories"],"all interleavings of producers, handlers, registrations, removals and dropped listeners, over all graphs of linked brokers",
 "The unit tests run one short sequence on one schedule; the actor loop, the reference counting and the subscription bookkeeping can only go wrong for particular interleavings.",
 ["flarch/src/broker.rs","flarch/src/broker_macros.rs"],
 [("single queue per broker, processed by one task","flarch/src/broker.rs Intern::get_msg/process_once"),("trail of broker ids on forwarded messages","flarch/src/broker.rs process_translate_*_messages")],
 ["taps, handlers and translators of brokers"],
 [("msg_queue_in/out","messages being processed","flarch/src/broker.rs Intern")],SPAWN)

p("C02","Linked brokers always come to rest, and settle tells the truth",
 "In every graph of linked brokers, including cyclic ones, a message causes only a finite number of deliveries, and waiting for a broker to settle always returns, also when several tasks settle brokers of the same graph at the same time. When it returns, every message emitted before the call has been handled by that broker and by every broker it is forwarded to. Once the last handle of a broker is dropped, its listeners see the end of the stream and its handlers are released.",
 ["schedules","configurations"],"all link graphs and all interleavings of emits, concurrent settles, removals and drops",
 "Tests link two or three brokers and settle from one task; deadlocks need two concurrent settles that cross, and endless forwarding needs particular cycles.",
 ["flarch/src/broker.rs"],
 [("settle forwards itself along the links with the list of callers","flarch/src/broker.rs Intern::get_msg Settle / Translator::settle"),("trail check stops forwarding in cycles","flarch/src/broker.rs process_translate_*_messages"),("Cloned/Dropped counting ends the broker task","flarch/src/broker.rs Intern::get_msg")],
 ["return of settle and remove_subsystem, handler logs, tap closing"],None,SPAWN)

p("C03","The timer ticks once per second and once per minute, forever",
 "After it has been started, the timer emits one second tick per elapsed second and one minute tick after every 60 second ticks, for as long as it runs. This holds whatever instant it is started at, however the wall clock jumps forwards or backwards, and after stalls of the process (missed ticks are made up for, none is invented). Every listener attached to a second or minute tick gets exactly that one.",
 ["schedules","fault_sequences"],"all start instants, clock jumps, scheduling delays and stalls",
 "Tests never look at the real timer: they inject tick messages by hand, at one start instant and with a well-behaved clock.",
 ["flmodules/src/timer.rs","flarch/src/tasks/libc.rs"],
 [("interval stream on the monotonic clock plus a counter to 60","flmodules/src/timer.rs Timer::start"),("conversion of wall-clock start to a monotonic instant","flarch/src/tasks/libc.rs Interval::new")],
 ["messages of the timer broker against simulated time"],None,"libc clock and epoll interposed by the harness (no change in /repo)")

p("C04","Stored values survive crashes and failed writes whole",
 "A value stored under a key in file storage is what the next read returns, also by another handle and after a restart; a removed key reads as absent. If the process dies at any point during a store, or the store fails (full disk, I/O error, partly written data), a later read returns either the complete previous or the complete new value, never a mixture or nothing; a failed store reports an error and leaves the previous value. Operations on one key never affect another key, and no failure of the disk makes the storage panic.",
 ["crash_points","fault_sequences","histories"],"all sequences of set/get/remove, all positions of crashes, short writes and failing system calls",
 "The one test writes and reads back a single value on a healthy disk.",
 ["flarch/src/data_storage/libc.rs","flarch/src/data_storage.rs"],
 [("one file per key","flarch/src/data_storage/libc.rs DataStorageFile")],
 ["DataStorage::get after restart on the simulated disk"],None,"libc file calls interposed by the harness (no change in /repo)")

p("C05","A node keeps its identity and its keys",
 "Once a node has started with an identity (its key pair, hence its node id, and its name) every later start on the same storage has the same identity, and signing keys once handed out to the user are still there. This holds for a crash at any moment and for disk reads or writes that fail: if the stored configuration or keys cannot be read or written the start fails or continues with them untouched, but they are never silently replaced by new ones.",
 ["crash_points","fault_sequences"],"all sequences of starts, configuration changes, key creation, crashes and disk errors",
 "Tests never restart after a crash in the middle of saving the configuration and never let the disk return an error.",
 ["flnode/src/node.rs","flmodules/src/nodeconfig.rs","flmodules/src/flo/storage.rs","flarch/src/data_storage/libc.rs"],
 [("configuration is read, completed and written back on start","flnode/src/node.rs Node::get_config"),("decode falls back to a new configuration","flmodules/src/nodeconfig.rs NodeConfig::decode"),("signers are stored with every new key","flmodules/src/flo/storage.rs CryptoStorage")],
 ["NodeConfig and signers returned after each restart"],None,"libc file calls interposed by the harness (no change in /repo)")

p("C06","Gossip reaches every node, and each event is announced once",
 "Once messages are no longer lost and the connected nodes form one connected graph, every event added on any of them is known to all of them after a bounded number of timer rounds, whatever was lost, duplicated, delayed or reordered and whichever nodes were down or disconnected before. On each node, an event is announced to the application at most once while it stays in the store, and only events that were really added somewhere are ever announced or stored, unaltered. When everybody knows everything, nodes stop sending events to each other.",
 ["schedules","fault_sequences","histories"],"all histories of additions, connections, partitions, restarts, message loss, duplication and reordering",
 "Tests run a few nodes over a lossless simulated network with one order of delivery.",
 ["flmodules/src/gossip_events/core.rs","flmodules/src/gossip_events/intern.rs","flmodules/src/gossip_events/broker.rs"],
 [("known ids / request / events exchange on connect and every tick","flmodules/src/gossip_events/intern.rs"),("outstanding requests are retried","flmodules/src/gossip_events/intern.rs tick")],
 ["Gossip::events of every node, NewEvent messages, messages on the wire"],None,SPAWN)

p("C07","Gossip storage is bounded, newest wins, independent of order",
 "A node keeps at most the configured number of events per category and these are the newest ones it was given; of the node descriptions it keeps the newest one per node. What a set of nodes ends up with depends only on the set of events, not on the order, repetition or batching in which they arrived.",
 ["schedules","histories"],"all arrival orders, duplications and batchings of all sets of events, including equal timestamps",
 "Tests insert a few events in one order; disagreement needs several arrival orders of the same set, in particular with equal timestamps and overflowing categories.",
 ["flmodules/src/gossip_events/core.rs"],
 [("EventsStorage::limit and unique categories","flmodules/src/gossip_events/core.rs")],
 ["Gossip::events and chat_events after delivery of permuted histories"],None,SPAWN)

p("C08","Gossip events survive restarts",
 "Every event a node had announced or accepted before it stopped is known again after a restart, unless newer events displaced it, for a crash at any moment after the event was announced. A crash or disk error while saving never loses events saved before, never invents any, and never prevents the node from starting.",
 ["crash_points","fault_sequences"],"all histories of local and remote events with crashes and disk errors at any system call",
 "Tests restart once, cleanly, on in-memory storage that never fails.",
 ["flmodules/src/gossip_events/intern.rs","flmodules/src/gossip_events/core.rs","flarch/src/data_storage/libc.rs"],
 [("store() after every change, load on start","flmodules/src/gossip_events/intern.rs")],
 ["Gossip::events after restart"],None,"libc file calls interposed by the harness (no change in /repo)")

p("C09","Signalling server: identity needs the key, traffic stays private",
 "A node is registered at the signalling server only over a connection that proved possession of that node's private key for the challenge of that very connection. Only connections of registered nodes get the list of nodes; a list contains only registered nodes, with the description they announced, and a requested list contains all of them up to the configured length; connection-setup messages are delivered only to the addressed node, and only when sent by the registered node that they name as one end. Whatever is sent by one connection never lets it impersonate, unregister or silence another node.",
 ["histories","schedules"],"all interleavings of connects, announces (valid, replayed, forged), requests, setups, disconnects and reconnects of several honest and hostile clients",
 "Tests use two or three honest clients in one order.",
 ["flmodules/src/network/signal.rs"],
 [("challenge per connection, signature over it","flmodules/src/network/signal.rs ws_announce"),("connection id <-> node id map","flmodules/src/network/signal.rs SignalServer")],
 ["messages sent by the server to each connection"],None,SPAWN)

p("C10","Signalling server tracks who is online",
 "A node that announced itself and whose connection is open and active stays registered and reachable, also when older connections of the same node close, time out or are replaced afterwards; a node whose connection was closed is not listed any more. A connection that is silent is kept at least for the configured time, and within one more minute it is closed and its node removed. A node that reconnects is registered again as soon as it announces itself.",
 ["histories","schedules"],"all sequences of connects, announces, disconnects, reconnects, silence and ticks, with disconnect notices arriving late",
 "Tests check one timeout and one reconnect.",
 ["flmodules/src/network/signal.rs","flmodules/src/network/broker.rs","flmodules/src/network/intern.rs"],
 [("ttl per connection decreased every minute","flmodules/src/network/signal.rs msg_in timer"),("remove_node on disconnection","flmodules/src/network/signal.rs")],
 ["node lists given to clients, delivery of connection setups"],None,SPAWN)

p("C11","No message from outside stops a node or the server",
 "Whatever bytes arrive, corrupted, truncated, repeated, out of order or made up, from the signalling server, from a client of it, or from another node, the receiving node or server neither panics nor hangs nor stops serving others. After such messages it still handles correct messages from well-behaved peers as before.",
 ["inputs","fault_sequences","histories"],"all malformed and adversarial messages at every network entry point, interleaved with correct traffic",
 "No test sends anything but well-formed messages.",
 ["flmodules/src/network/signal.rs","flmodules/src/network/intern.rs","flmodules/src/router/messages.rs","flmodules/src/gossip_events/intern.rs","flmodules/src/dht_router/intern.rs","flmodules/src/dht_storage/intern.rs","flmodules/src/web_proxy/intern.rs","flarch/src/web_rtc/node_connection.rs","flmodules/src/nodeconfig.rs"],
 [("messages that do not parse are ignored","unwrap_yaml in flmodules/src/router/messages.rs")],
 ["panics (hook), liveness probes after the injected messages"],None,SPAWN)

p("C12","WebSocket server and client keep connections apart and alive",
 "A text sent by either side of a websocket connection arrives at the other side of that same connection, once, complete and in order, as long as the connection is up; it is never delivered to another connection. Connection numbers are never reused, a closed connection is announced as disconnected exactly once and gets nothing afterwards, and clients that fail, stall or drop at any point, including during the handshake, do not disturb the others. When its connection breaks, the client connects again once the server is reachable.",
 ["schedules","fault_sequences"],"all interleavings of clients connecting, sending, closing, failing handshakes, dying in mid-message, and network delays",
 "The single test uses two clients that connect, exchange two messages and leave.",
 ["flarch/src/web_rtc/libc/web_socket_server.rs","flarch/src/web_rtc/libc/web_socket_client.rs","flarch/src/web_rtc/websocket.rs"],
 [("index of connections","flarch/src/web_rtc/libc/web_socket_server.rs WebSocketServer"),("reading task per connection","WSConnection::loop_read")],
 ["WSServerOut / WSClientOut messages, bytes on the simulated sockets"],None,"cfg fledger_sim: in-memory TcpListener/TcpStream instead of tokio::net in flarch web_rtc/libc")

p("C13","Messages between two nodes arrive whole, once and in order",
 "Every text handed to a node-to-node connection, of any length and with any characters, arrives at the other end exactly once and unaltered, whether it was sent before, while or after an underlying data channel opened, as long as the channels lose nothing; and in sending order while the same data channel is used. Fragments of concurrent, lost, repeated or foreign messages never produce a wrong or partial text; and incomplete ones never use memory beyond what was received.",
 ["inputs","schedules","fault_sequences"],"all message sizes and contents, all interleavings of fragments and of channel opening, fault patterns of the channel",
 "Tests send one long ASCII message over a fault-free pair of channels.",
 ["flarch/src/web_rtc/node_connection.rs","flarch/src/web_rtc/messages.rs"],
 [("splitting and reassembly of long messages","flarch/src/web_rtc/node_connection.rs Packet / PacketCollector"),("queue until a direction is open","flarch/src/web_rtc/node_connection.rs NodeConnection")],
 ["NCOutput::Text at the receiving end"],None,SPAWN)

p("C14","Nodes connect, notice disconnects, and agree about it",
 "When a node asks to connect to another online node, or sends it a message, the two get connected and the message arrives, once the signalling path and the data channels work again. Connected and disconnected notices for a peer strictly alternate, starting with connected, messages are handed up only between them or together with the corresponding notice, and are attributed to the node whose connection they came from. After a connection breaks or a peer restarts both sides notice within bounded time and can connect and exchange messages again.",
 ["schedules","fault_sequences","histories"],"all interleavings of simultaneous connects, signalling loss and delay, channel failures, partitions, crashes and restarts",
 "Tests connect two nodes once, over a network that never fails.",
 ["flmodules/src/network/intern.rs","flmodules/src/network/broker.rs","flarch/src/web_rtc/mod.rs","flarch/src/web_rtc/node_connection.rs","flmodules/src/router/broker.rs"],
 [("connection state per peer","flmodules/src/network/intern.rs"),("pending messages until connected","flarch/src/web_rtc/node_connection.rs"),("router bookkeeping","flmodules/src/router/broker.rs")],
 ["NetworkOut and RouterOut messages on all nodes"],None,SPAWN)

p("C15","The random overlay stays consistent and connected",
 "A node keeps connections only to other nodes it was told about or that connected to it, never to itself, and no node is at once connected and connecting. After changes stop, each node of a set of nodes that can reach each other has as many connections as the size of the network calls for, and peers that left are dropped. Messages of modules using the overlay are delivered only between nodes that are connected, and the connected list modules see is the real one.",
 ["schedules","histories","fault_sequences"],"all histories of node lists, connects, failed connects, disconnects and churn",
 "Tests use one static list of nodes with immediate success of all connections.",
 ["flmodules/src/random_connections/core.rs","flmodules/src/random_connections/intern.rs","flmodules/src/random_connections/nodes.rs","flmodules/src/router/broker.rs"],
 [("known / connecting / connected bookkeeping","flmodules/src/random_connections/core.rs")],
 ["RandomStats, NetworkIn::Connect/Disconnect requests, NodeIDsConnected"],None,SPAWN)

p("C16","The DHT routing table holds live peers only, all in reach",
 "The routing table of a node never contains the node itself, no peer twice, each peer at its distance, and at most the configured number of active peers in each distance range that is split off; peers beyond that are kept as spares, as many as fit, and take over when an active one goes away. A peer that disconnects, or does not answer within the timeout, is neither used for routing nor reported as active afterwards, and an active one that answers stays active unless its range has enough others. Once the peers stay the same, each distance range has as many active peers as it can have.",
 ["histories","schedules","fault_sequences"],"all histories of peers appearing, answering, stalling, disconnecting and returning",
 "Tests add a handful of nodes and remove one or two.",
 ["flmodules/src/dht_router/kademlia.rs","flmodules/src/dht_router/intern.rs","flmodules/src/dht_router/broker.rs"],
 [("buckets with active and cache lists","flmodules/src/dht_router/kademlia.rs"),("ping on tick, timeout","flmodules/src/dht_router/intern.rs")],
 ["DHTRouter::stats, DHTRouterOut::NodeList, next hops chosen"],None,SPAWN)

p("C17","DHT messages reach their target and never circulate",
 "A message routed to a key never gets farther from it, in the number of leading bits that the nodes share with the key, visits no node twice, and is seen by every node on its way exactly once, as a message in transit or as its end. In a network at rest it ends at a node that no other node beats in that number, or is not sent if its origin is such a node. A message sent to a node id is delivered to that node and to no other as its destination, and in a network at rest it arrives; a broadcast reaches each active neighbour once, and a message to a neighbour reaches only that one. Nothing is delivered twice or altered, also while nodes come and go.",
 ["schedules","configurations","fault_sequences"],"all sizes and topologies of networks, origins and keys, interleavings, and churn of nodes",
 "Tests cover one small fixed network; loops or misdelivery depend on the topology and on nodes leaving in mid-route.",
 ["flmodules/src/dht_router/intern.rs","flmodules/src/dht_router/kademlia.rs"],
 [("route_closest picks a strictly closer peer","flmodules/src/dht_router/kademlia.rs"),("message_closest / message_direct","flmodules/src/dht_router/intern.rs")],
 ["DHTRouterOut messages on all nodes, hops on the simulated wire"],None,SPAWN)

p("C18","DHT storage respects its space and the accepted realms",
 "The data a node stores for a realm never exceeds the space configured in the realm (apart from the description of the realm itself, which may be larger than that and is never evicted), and its reported size is the size of what it holds. When space runs out, the objects whose ids are farthest from the node's own id go first, and an object closer than stored ones is accepted in their place if removing the farther ones makes enough place. A node limited to some realms takes up no objects of other realms, and no sequence of stores, updates or links makes it hang.",
 ["histories","schedules"],"all sequences of stores, updates, links and syncs with objects of all sizes and distances, and all realm sizes",
 "Tests fill one realm once with equal-sized objects.",
 ["flmodules/src/dht_storage/core.rs","flmodules/src/dht_storage/intern.rs"],
 [("size bookkeeping and eviction of the farthest","flmodules/src/dht_storage/core.rs RealmStorage::upsert_flo/remove_furthest"),("accepts_realm","flmodules/src/dht_storage/core.rs DHTConfig")],
 ["DHTStorage::stats, GetFlos, GetRealms"],None,SPAWN)

p("C19","DHT replicas converge to the newest version",
 "Given that every version of an object is made once, by one node: on every node the version of a stored object never goes back, an older or equal version never replaces a newer one, whatever order, repetition or route the messages take. After faults stop and nodes sync with their neighbours, all connected nodes that accept a realm and have the space hold the same newest version of every object of it, with the data of that version, including nodes that were down, partitioned or newly started.",
 ["schedules","fault_sequences","histories"],"all histories of concurrent stores and updates on several nodes with loss, reordering, partitions and restarts",
 "Tests propagate one object over a lossless network and never update concurrently with faults.",
 ["flmodules/src/dht_storage/core.rs","flmodules/src/dht_storage/intern.rs","flmodules/src/dht_storage/broker.rs"],
 [("version comparison in upsert_flo and sync_available","flmodules/src/dht_storage/core.rs"),("realm ids -> metas -> flos sync protocol","flmodules/src/dht_storage/intern.rs msg_neighbour")],
 ["GetFlos on all nodes"],None,SPAWN)

p("C20","Objects attached to another one stay attached",
 "An object that declares another one as its parent is listed among the attached objects of that parent by every node that stores both, whatever order they arrived in, and stays so when either is updated, synchronised, or the node restarts. Lists of attached objects contain no duplicates and only objects that declared it, and after sync all nodes storing a parent list everything that any of them lists.",
 ["histories","schedules","fault_sequences"],"all orders of storing, updating and syncing parents and attached objects on several nodes, with loss, reordering and restarts",
 "Tests attach one object to an existing parent, once, without updates.",
 ["flmodules/src/dht_storage/core.rs","flmodules/src/dht_storage/intern.rs"],
 [("store_cuckoo_id(s), StoreCuckooID message","flmodules/src/dht_storage/core.rs, intern.rs")],
 ["ReadCuckooIDs answers, GetFlos"],None,SPAWN)

p("C21","DHT storage survives crashes",
 "What a node had stored when its change of storage completed is there again after a restart, with the same versions and attachments, for a crash at any later moment. A crash or disk error while saving leaves either the previous or the new state readable, and stored data that cannot be read at start is never overwritten by an empty state.",
 ["crash_points","fault_sequences"],"all histories of stores and updates with crashes and disk errors at any system call",
 "Tests never restart a storage node and use storage that cannot fail.",
 ["flmodules/src/dht_storage/intern.rs","flarch/src/data_storage/libc.rs"],
 [("store() after every modification, load in Messages::new","flmodules/src/dht_storage/intern.rs")],
 ["GetFlos, ReadCuckooIDs after restart"],None,"libc file calls interposed by the harness (no change in /repo)")

p("C22","Requests to the DHT are answered correctly or time out",
 "A request for an object, for attached objects, or for the list of realms returns within its timeout, with an error or with the right answer: an object is the one with the requested id and realm and at least as new as the one the node itself holds, byte for byte as some node stored it. Requests made at the same time do not get each other's answers. An object that a reachable node on the route to its id holds is found when no message is lost.",
 ["schedules","fault_sequences","histories"],"all interleavings of concurrent requests, late and repeated answers, message loss and node failures",
 "Tests make one request at a time on a lossless network.",
 ["flmodules/src/dht_storage/broker.rs","flmodules/src/dht_storage/intern.rs"],
 [("tap on the internal broker with a timeout","flmodules/src/dht_storage/broker.rs send_wait_timeout")],
 ["results and simulated duration of DHTStorage::get_flo, get_cuckoos, get_realm_ids, get_flos"],None,SPAWN)

p("C23","Pages and tags are reachable by path on every node",
 "After a realm and pages in it have been created, renamed, edited or moved under another parent through a realm view, each edit made on a node that has the newest versions, that view and, once synced and updated, every view opened on any node find each page by its full path and with its latest content, and not under a path it no longer has. A page has a full path if it is linked from its parent (which takes an editor who may change the parent), or, having no parent, is attached to the root page; a page attached to another one can also be reached beside it, and pages whose parents form a loop have no path. Each page is linked from its current parent exactly once and from no former parent that the editor may change. Tags that were created are present. No sequence of edits and look-ups panics or runs for ever.",
 ["histories","schedules"],"all sequences of page creations and edits on different nodes, interleaved with syncs, updates of views and message faults",
 "Tests create one or two pages on a lossless network and look them up on the same node or after one sync.",
 ["flmodules/src/dht_storage/realm_view.rs","flmodules/src/flo/blob.rs"],
 [("parent/child links kept up to date on edits","flmodules/src/dht_storage/realm_view.rs update_page/update_child_links"),("lookup over children and attached pages","flmodules/src/dht_storage/realm_view.rs get_path_internal")],
 ["RealmView::get_page_from_path, get_full_path_id, get_children on all nodes"],None,SPAWN)

p("C24","Web requests through a proxy return the right bytes",
 "A request for a web page through another node ends within its timeout with an error, or returns the status and headers the web server sent; the bytes read are always the beginning of the body the web server sent, in order, and all of it if nothing breaks, however the answer is split and delayed. When the web server, the proxy or the way to it breaks off, the body ends early instead of going on with a hole or waiting for ever. Answers of concurrent requests never mix, an answer arriving after its request was abandoned has no effect, a request is sent to a connected node other than oneself that offers proxying, and no answer of a web server stops the proxy.",
 ["schedules","fault_sequences"],"all chunkings and delays of answers, interleavings of concurrent requests, slow readers, lost nodes and abandoned requests",
 "The only test needs the Internet and makes one request; reordering of body parts needs particular task schedules.",
 ["flmodules/src/web_proxy/broker.rs","flmodules/src/web_proxy/core.rs","flmodules/src/web_proxy/intern.rs","flmodules/src/web_proxy/response.rs"],
 [("nonce per request, header then body parts then end","flmodules/src/web_proxy/intern.rs start_request"),("channel to the reader","flmodules/src/web_proxy/core.rs handle_response")],
 ["Response header and bytes compared with what the simulated web server sent"],None,"cfg fledger_sim: simulated web server instead of reqwest::get in flmodules web_proxy")

p("C25","A whole network of nodes recovers after faults",
 "In a network of complete nodes with a signalling server, once crashes, restarts, partitions and broken connections stop, within 30 minutes every running node knows which nodes are online, is connected, has the descriptions of all nodes, and shows all chat messages; a realm stored on one node is available on all, web requests through other nodes work and new chat messages reach all nodes. No chat message that a node showed before a fault is lost unless its disk failed, none appears that nobody wrote, nodes keep their identity over restarts, and no node stops working because others fail.",
 ["schedules","fault_sequences","crash_points"],"all schedules of crashes and restarts of nodes and of the signalling server, partitions, lossy and slow links, stalled nodes and clock differences",
 "The integration tests start a fixed set of nodes on a perfect network and never stop one.",
 ["flnode/src/node.rs","flmodules/src/network/mod.rs","flmodules/src/router/broker.rs","flmodules/src/lib.rs","flarch/src/web_rtc/mod.rs"],
 [("periodic list updates and reconnects","flmodules/src/network/intern.rs"),("periodic gossip and DHT sync","flmodules/src/gossip_events/intern.rs, flmodules/src/dht_storage/broker.rs")],
 ["Node::nodes_connected, nodes_online, gossip events, DHT storage of every node"],None,SPAWN)

p("N01","Signed objects verify only if signed as their condition requires",
 "An object verifies exactly when its genesis, every change of its condition and its current data carry valid signatures satisfying the condition in force at that point; any alteration of a signed part makes it fail. Signing with keys that are not part of a condition is refused.",
 ["inputs"],"all conditions, key sets, updates and alterations",
 "Tests check one key and one update chain.",
 ["flmodules/src/flo/flo.rs","flcrypto/src/access.rs","flcrypto/src/signer_ed25519.rs"],
 [("Flo::verify, ConditionSignature::verify_cond","flmodules/src/flo/flo.rs, flcrypto/src/access.rs")],
 ["result of Flo::verify"])
p("N02","Stored data of older versions can always be read",
 "Every value written by any released format version is decoded to the equivalent current value, and encoding followed by decoding gives back an equal value.",
 ["inputs"],"all values of all versioned types",
 "Tests decode one sample per version.",
 ["flmacro/src/lib.rs","flmodules/src/nodeconfig.rs","flmodules/src/gossip_events/core.rs","flarch/src/nodeids.rs"],
 [("VersionedSerde derive","flmacro/src/lib.rs")],
 ["decode(encode(x))"])
with open(__file__.rsplit('/',1)[0]+"/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
