#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run: python3 tools/props.py > properties.jsonl)."""
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=None)))

p("C01","A message survives its transport form unchanged",
 "For every message a user can build (any namespace, room and event text, any body bytes or any error text) decoding its transport form yields the same namespace, room, event, body and error, so no field's content can be lost, altered or mistaken for another field (a body marshalled from an object unmarshals to an equal object). An error that was registered as known is recovered as that same error value, any other error with the same text; input that is not a well-formed message is reported as invalid (or as a native message carrying exactly those bytes where native messages are allowed) and never decoded into invented fields.",
 ["inputs"],"all field texts not containing the reserved escape sequence, all bodies, all error texts, all byte strings given to the decoder",
 "TestMessageSerialization samples eight messages; separators in every position, huge or binary bodies, empty error texts and registered/dynamic known errors are never combined.",
 ["message.go"],[("escape/unescape of the separator","message.go:escape, unescape"),("seven-field split","message.go:deserializeInput"),("known error resolution","message.go:resolveError")],
 ["Message.Serialize","DeserializeMessage","RegisterKnownError"])
p("C02","Hostile bytes from a peer are contained",
 "Whatever bytes a remote peer sends, in whatever order and at whatever stage of the protocol, the process does not crash and no event callback runs for a namespace that connection is not connected to, nor for bytes that are not a well-formed message (unless native messages are allowed). The peer can never choose its own connection ID, nor get any event callback run before the server has accepted it. Valid messages sent later on the same connection, and all traffic of other connections, are still served.",
 ["inputs","histories"],"arbitrary and grammar-mutated payload sequences from a raw peer, before and after the acknowledgement, interleaved with valid traffic of the same and of other connections",
 "The tests only use the well-behaved Go client; no test sends a malformed, mistimed or forged payload.",
 ["conn.go","message.go"],[("handshake dispatch by first byte","conn.go:handleACK"),("invalid payload rejection","conn.go:handleMessage"),("connected-namespace lookup before dispatch","conn.go:tryNamespace")],
 ["raw Socket peer","event callbacks","Conn.ID"])
p("C03","Emitted events arrive exactly once, in order and unchanged",
 "On a live connection every event one side emits successfully into a connected namespace (or joined room) is handled by the other side exactly once, with the same namespace, room, event, body and text/binary kind. Events emitted one after the other are handled in that order, and one connection's event callbacks never run concurrently with each other.",
 ["schedules","inputs","histories"],"all sequences of emits from either side and from several goroutines, all bodies, link latencies and callback durations",
 "The tests emit a handful of events from one goroutine over an idle loopback link and look at the first arrival.",
 ["conn.go","conn_namespace.go","conn_room.go"],[("single ordered reader/dispatcher per connection","conn.go:startReader"),("write path","conn.go:Write")],
 ["NSConn.Emit","NSConn.EmitBinary","Room.Emit","Conn.Write","event callbacks"])
p("C04","An Ask returns the answer to its own question",
 "Every Ask that returns without error returns the reply the remote callback produced for exactly that request, and an error returned by the remote callback comes back as the Ask's error with the same text (the same value if it is a known error). This holds for any number of concurrent asks from both sides and from inside event callbacks, and with unrelated traffic in between. A reply is consumed by its Ask and is never dispatched as an event, and unrelated messages are never consumed by an Ask.",
 ["schedules","histories"],"all interleavings of concurrent asks from both sides, in and outside of callbacks, mixed with emits, with arbitrary latencies",
 "TestAsk asks sequentially with nothing else on the wire; BUILD.json documents that even that hangs on several processors.",
 ["conn.go","message.go"],[("wait token generation","message.go:genWait"),("reply routing by token","conn.go:handleMessage"),("waiter registration","conn.go:ask")],
 ["Conn.Ask","NSConn.Ask","event callbacks"],[dict(name="waitingMessages",meaning="asks in flight by token",where="conn.go:Conn.waitingMessages")])
p("C05","An Ask always terminates and never harms the connection",
 "Every Ask, Connect, JoinRoom, Leave or Disconnect call ends: with the reply, with its context's error when the context ends first, or with an error once the connection is closed by either side or by the network. A reply that arrives after its Ask has ended is discarded without running any event callback. The connection keeps serving all later traffic.",
 ["schedules","fault_sequences","histories"],"all placements of a context deadline, a local or remote close or a link failure relative to the request and its reply",
 "No test lets an Ask time out, closes a connection with an Ask in flight, or delivers a late or duplicate reply.",
 ["conn.go","conn_namespace.go"],[("select over context, reply and close","conn.go:ask"),("close notification","conn.go:Close")],
 ["Conn.Ask","Conn.Connect","NSConn.JoinRoom","Room.Leave","NSConn.Disconnect"])
p("C06","Both sides agree on every namespace connection",
 "Connect succeeds only if both sides declare the namespace and neither side's connect callback refuses it; otherwise the caller gets the refusing side's error and neither side is connected. Disconnect on the client succeeds unless the server's callback refuses it, in which case both sides stay connected; a server-side Disconnect cannot be refused by the client. After every completed operation both sides report the same set of connected namespaces, and connecting again returns the same namespace connection.",
 ["histories","inputs"],"all histories of connect/disconnect/disconnect-all/reconnect from either side over any set of declared namespaces with any refusal pattern",
 "TestConnect makes six fixed connect attempts and never disconnects, reconnects, or connects from the server.",
 ["conn.go"],[("ask/reply connect","conn.go:askConnect, replyConnect"),("ask/reply disconnect","conn.go:askDisconnect, replyDisconnect")],
 ["Conn.Connect","Conn.WaitConnect","NSConn.Disconnect","Conn.DisconnectAll","Conn.Namespace"],[dict(name="connectedNamespaces",meaning="namespaces this side is connected to",where="conn.go:Conn.connectedNamespaces")])
p("C07","Both sides agree on every room membership",
 "JoinRoom succeeds only if neither side's join callback refuses, otherwise the caller gets the refusing side's error and is not joined. Leave on the client succeeds unless the server's leave callback refuses it (then both stay joined), a server-side Leave cannot be refused by the client; leaving a room that is not joined reports a bad-room error. After every completed operation that neither initiator's own callback refused, both sides report the same rooms, and disconnecting from a namespace leaves all of its rooms and no other namespace's.",
 ["histories","inputs"],"all histories of join/leave/leave-all/disconnect/rejoin from either side over any rooms and namespaces with any refusal pattern",
 "Two tests join and leave one room once; no refusals, no second room, no leave-all, no rejoin.",
 ["conn_namespace.go","conn_room.go"],[("ask/reply join","conn_namespace.go:askRoomJoin, replyRoomJoin"),("ask/reply leave","conn_namespace.go:askRoomLeave, replyRoomLeave"),("forced leave","conn_namespace.go:forceLeaveAll")],
 ["NSConn.JoinRoom","Room.Leave","NSConn.LeaveAll","NSConn.Room","NSConn.Rooms"],[dict(name="rooms",meaning="rooms this side has joined",where="conn_namespace.go:NSConn.rooms")])
p("C08","Lifecycle callbacks fire exactly once and in order",
 "On each side every namespace connection produces exactly one Connect then one Connected callback, and exactly one Disconnect when it ends; every room membership produces one Join, one Joined, and when it ends one Leave and one Left, strictly inside its namespace's Connected..Disconnect span. A refused attempt produces no Connected/Joined callback and a refused Disconnect/Leave does not end the span. Each callback's message names the right namespace and room, and its local/forced marks tell whether this side asked for it and whether it was forced.",
 ["histories","schedules"],"all histories of connects, joins, leaves, disconnects, closes and link failures initiated from either side",
 "The tests observe at most one OnRoomLeft callback; order, multiplicity and marks are never asserted.",
 ["conn.go","conn_namespace.go","event.go"],[("callback firing around each state change","conn.go:askConnect, replyConnect, askDisconnect, replyDisconnect, Close; conn_namespace.go:ask*/reply*, forceLeaveAll")],
 ["event callbacks: OnNamespaceConnect(ed)/Disconnect, OnRoomJoin(ed)/Leave/Left"])
p("C09","Nothing crosses a namespace or room boundary",
 "A message for a namespace that is not connected, or for a room that is not joined on the sending side, is refused with a false result and puts nothing on the wire. A received message only ever runs the callbacks of its own namespace, and only while that namespace is connected; a request for a namespace that is not connected is answered with a bad-namespace error instead of being handled.",
 ["histories","inputs"],"all membership histories crossed with all (namespace, room, event) targets, including look-alike, nested and separator-carrying names",
 "No test sends outside of its namespace or room, or uses more than one namespace with the same event.",
 ["conn.go"],[("write gate","conn.go:canWrite"),("receive gate","conn.go:tryNamespace"),("dispatch by namespace","conn.go:handleMessage")],
 ["Conn.Write","NSConn.Emit","Room.Emit","bytes on the wire","event callbacks"])
p("C10","Closing a connection cleans up everything, on both sides",
 "When a connection ends (local Close, remote Close, Server.Close or link failure, at any moment) each side that was connected fires, per namespace, the forced leave and left callbacks of every joined room and then one forced disconnect callback, and afterwards holds no namespace and no room. The client's close notification fires after those callbacks, the server's OnDisconnect fires once, after them too, every later write reports false, and no event callback runs for messages arriving afterwards. Closing again has no effect.",
 ["crash_points","schedules","histories"],"every prefix of a session as the moment of the close, every kind of close, also with operations and callbacks in flight",
 "Tests close idle clients at the end and assert nothing afterwards.",
 ["conn.go","client.go","server.go"],[("one-shot close","conn.go:Close"),("forced leave","conn_namespace.go:forceLeaveAll"),("server loop removal","server.go:start")],
 ["Conn.Close","Client.NotifyClose","Server.OnDisconnect","Conn.IsClosed"])
p("C11","A broadcast reaches exactly its audience, exactly once",
 "Every message given to Broadcast is received exactly once by every live connection that is connected to its namespace (and joined to its room if it names one, and has its To ID if it names one), except the excluded sender (a connection, namespace connection, room, or ID); no other connection receives it. Each message of a multi-message broadcast is judged on its own and the messages of one call arrive in their order; with SyncBroadcaster successive broadcasts also arrive in call order. Broadcasting does not modify the caller's messages.",
 ["histories","schedules","inputs"],"all membership states of several connections (including equal IDs), all audience selectors, bursts of broadcasts, both broadcaster modes, all latencies",
 "TestServerBroadcastTo sends one broadcast to one ID with two idle clients.",
 ["server.go","broadcaster.go"],[("async fan-out","broadcaster.go"),("audience filter","server.go:publishMessages, conn.go:canWrite"),("sync fan-out","server.go:start")],
 ["Server.Broadcast","NSConn.Broadcast","NSConn.BroadcastOthers","client event callbacks"])
p("C12","The server's view of its connections is exact",
 "Once in-flight connects and disconnects have settled, GetTotalConnections, GetConnections, GetConnectionsByNamespace and Do see exactly the live connections; at any other moment they see no connection twice, none that had already ended and been announced as disconnected, and every one that is settled. OnConnect runs once per upgraded connection, and OnDisconnect runs exactly once for each accepted connection that ended and never for a connection refused by OnConnect (unless FireDisconnectAlways is set). After Server.Close every connection is closed and new upgrades are rejected.",
 ["schedules","histories"],"all histories of dials, refusals, client closes, link failures, server-side closes and server close, with arbitrary overlap",
 "No test looks at the connection count, at OnDisconnect, or at a closed server.",
 ["server.go","conn.go"],[("connection registry loop","server.go:start"),("upgrade sequence","server.go:Upgrade")],
 ["Server.GetTotalConnections","Server.GetConnections","Server.GetConnectionsByNamespace","Server.Do","Server.OnConnect","Server.OnDisconnect"],[dict(name="connections",meaning="registered connections",where="server.go:Server.connections")])
p("C13","The opening handshake honours the server's verdict",
 "Dial returns a usable client exactly when the server's OnConnect accepts the connection; otherwise it returns an error with OnConnect's text and no event callback ever runs for that connection on either side, and the connection is closed (also when OnConnect had used it before refusing). Client and server then hold the same connection ID, the one the ID generator produced. Messages that reach the server before acceptance are held back and then handled once each in arrival order.",
 ["schedules","inputs","histories"],"all OnConnect durations, verdicts and actions (including connecting the client to namespaces), all early-message sequences, IDs and latencies",
 "The tests never refuse a connection, never delay OnConnect, and cannot send before the acknowledgement.",
 ["conn.go","server.go","client.go","waiter_once.go"],[("acknowledgement exchange","conn.go:sendClientACK, handleACK"),("readiness latch","waiter_once.go"),("early-message queue","conn.go:handleQueue")],
 ["Dial","Server.OnConnect","Server.IDGenerator","Client.ID","Conn.ID"])
p("C14","A server-wide Ask returns one addressed client's own answer",
 "Server.Ask returns the reply (or the error) of a connection the message was addressed to (its To ID if given, otherwise the first of the audience to reply), or the context's error. Replies of other connections, late replies and replies to timed-out asks are discarded: they never answer a different ask, never run an event callback, and never stall the connection they came from.",
 ["schedules","histories"],"any number of concurrent server asks, responders, response delays, deadlines and repeated replies",
 "TestServerAsk makes one Ask to one client that answers once.",
 ["server.go","conn.go"],[("server-level waiters","server.go:Ask"),("reply routing","conn.go:handleMessage")],
 ["Server.Ask","client event callbacks"],[dict(name="waitingMessages",meaning="server asks in flight by token",where="server.go:Server.waitingMessages")])
p("C15","Native messages pass through byte for byte",
 "When the empty namespace declares a native-message callback, every non-empty raw websocket message that is not in neffos format and arrives on a connection connected to that namespace is handed to that callback exactly once with exactly its bytes and kind, and a message written as native arrives at the remote side as exactly its body. If that callback is the only event then every message is native, whatever it looks like, without any handshake; if it is not declared, raw messages are ignored.",
 ["inputs","configurations","histories"],"all byte strings and kinds, all combinations of native/non-native handlers on both sides, interleaved with ordinary events",
 "Two tests send one fixed native text.",
 ["conn.go","message.go"],[("native modes","conn.go:newConn"),("native decode/encode","message.go:deserializeInput, serializeMessage")],
 ["Conn.Write with IsNative","OnNativeMessage callback","raw Socket peer"])
p("C16","A StackExchange sees every membership change and carries every broadcast",
 "With one or more stack exchanges in use, each exchange gets exactly one OnConnect per upgraded connection and one OnDisconnect when it ends (also when it was refused), one Subscribe per namespace connected (made before the connect is answered, so that a broadcast made right after it is delivered), one Unsubscribe per namespace disconnected while the connection lives on (when the connection ends, OnDisconnect alone may end its subscriptions), and every broadcast message exactly once through Publish (whatever the others return). A failing exchange OnConnect refuses the connection. Messages an exchange delivers to a connection reach its client subject to the same namespace, room and exclusion rules as a local broadcast, and Server.Ask through an exchange returns the addressed client's reply.",
 ["histories","configurations","fault_sequences"],"all session histories over several servers sharing an in-memory exchange, one to three exchanges stacked, injected exchange failures",
 "No test uses a StackExchange at all.",
 ["server.go","stackexchange.go","conn.go","message.go"],[("hook calls","server.go:Upgrade, start, Broadcast, Ask; conn.go:notifyNamespaceConnected/Disconnect"),("stacking","stackexchange.go:stackExchangeWrapper")],
 ["StackExchange interface","client event callbacks"])
p("C17","Redis scale-out delivers like one server",
 "With several servers sharing a redis stack exchange, a broadcast from any of them reaches exactly the connections of all servers that are connected to its namespace, joined to its room and match its To ID, exactly once, and not the excluded sender, and the messages of one server arrive in publish order. This holds for any namespace names and connection IDs, as soon as the connect or join has returned, and again once broken connections to the broker are re-established. Connections that left the namespace or disconnected get nothing and leave no subscription behind, and Server.Ask from any server is answered by the addressed client on any server.",
 ["histories","configurations"],"random membership histories over two or three servers and several clients against a redis-protocol server",
 "The package has no tests and needs a redis server.",
 ["stackexchange/redis/stackexchange_redis.go"],[("channel naming","stackexchange_redis.go:getChannel"),("subscriber bookkeeping","stackexchange_redis.go:run")],
 ["redis.NewStackExchange","Server.Broadcast","Server.Ask","client event callbacks"])
p("C18","NATS scale-out delivers like one server",
 "With several servers sharing a NATS stack exchange, a broadcast from any of them reaches exactly the connections of all servers that are connected to its namespace, joined to its room and match its To ID, exactly once, and not the excluded sender, and the messages of one server to the same namespace (or to the same ID) arrive in publish order. This holds for any namespace names and connection IDs, as soon as the connect or join has returned, and again once broken connections to the broker are re-established. Connections that left the namespace or disconnected get nothing and leave no subscription behind, and Server.Ask from any server is answered by the addressed client on any server. Only the configured NATS servers are used; an exchange that cannot reach any is not created, and a client for which it cannot subscribe is refused with an error and leaves nothing behind.",
 ["histories","configurations"],"random membership histories over two or three servers and several clients against a NATS-protocol server",
 "The package has no tests and needs a NATS server.",
 ["stackexchange/nats/stackexchange_nats.go"],[("subject naming","stackexchange_nats.go:getSubject"),("subscriber bookkeeping","stackexchange_nats.go:run")],
 ["nats.NewStackExchange","Server.Broadcast","Server.Ask","client event callbacks"])
p("C19","A struct handler behaves like the callbacks it declares",
 "NewStruct turns exactly the struct's event-shaped methods into events, named after the method (system-event names mapped to the system events) or as its matcher says, under the namespace given by SetNamespace, the Namespace method or the Namespace field. A struct holding a namespace connection gets its own fresh instance per namespace connection, carrying that connection and copies of the static fields, so no two connections ever see each other's instance state.",
 ["inputs","histories","configurations"],"a family of struct shapes, matchers, static field values and connection histories with interleaved events of several connections",
 "Three tests call one or two handlers directly on one instance, without connections or matchers.",
 ["conn_handler.go","reflect.go"],[("method scan","reflect.go:makeEventsFromStruct, makeEventFromMethod"),("per-connection instance","reflect.go:makeEventsFromStruct"),("namespace resolution","reflect.go:resolveStructNamespace")],
 ["NewStruct","Struct.Events","Struct.GetNamespaces","event callbacks"])
p("C20","Composed handlers dispatch to the right callback",
 "Joining connection handlers yields exactly the union of their namespaces and events, with the later handler winning on the same namespace and event (the Events of a WithTimeout are joined after its Namespaces), and does not modify the joined handlers. For every event received in a connected namespace the callback registered under exactly that event name runs, else the any-event callback if declared, else none. Read and write timeouts given by the handler passed to the server or client (WithTimeout, or a Struct with SetTimeouts) apply to its connections.",
 ["inputs","configurations"],"all nestings of Events, Namespaces, WithTimeout and structs with overlapping names, including missing and nil parts, and all event names",
 "Tests join one pair of handlers; precedence, aliasing and timeouts are unchecked.",
 ["conn_handler.go"],[("merge","conn_handler.go:JoinConnHandlers"),("dispatch","conn_handler.go:fireEvent"),("timeouts","conn_handler.go:getTimeouts")],
 ["JoinConnHandlers","Namespaces.On","Events.On","WithTimeout","event callbacks"])
p("C21","The per-connection store loses no update",
 "For every history of Set, Get, Increment and Decrement on a connection, from any number of goroutines, the results are those of some one-at-a-time execution: Get returns the latest value set, Increment and Decrement change an integer by one and start from zero when the key is absent or not an integer, and concurrent increments are never lost. Stores of different connections are independent.",
 ["schedules","histories"],"all sequential histories against a map model and concurrent counter histories",
 "No test touches the store.",
 ["conn.go"],[("store lock","conn.go:Set, Get, Increment, Decrement")],
 ["Conn.Set","Conn.Get","Conn.Increment","Conn.Decrement"])
p("C22","The HTTP entry point admits and describes requests faithfully",
 "Only GET requests on an open server are upgraded: a HEAD probe is answered as a reconnect check, any other method gets 405 with Allow: GET, a closed server answers 500, and in all these cases the upgrader is not called, no connection is registered and a matching error is returned. Every URL parameter carrying the websocket-header prefix becomes a request header with all of its values, and no other parameter does. The reconnect header makes the connection report that number of tries, and upgrade errors are returned and reported to OnUpgradeError.",
 ["inputs","configurations"],"all methods, query strings, headers, reconnect values, upgrader outcomes, ID generators and socket wrappers",
 "Tests only perform successful GET upgrades without parameters.",
 ["server.go"],[("method gate","server.go:Upgrade"),("parameter mapping","server.go:tryParseURLParamsToHeaders")],
 ["Server.Upgrade","Server.ServeHTTP","Conn.ReconnectTries","IsTryingToReconnect"])
p("C23","The websocket adapters are transparent",
 "Over a real websocket, with the gorilla or gobwas adapter on either end, every message written arrives exactly once, in order per writer, with identical bytes and text/binary kind, whatever its size, whatever fragmentation and control frames (ping, pong) the peer uses, and however many goroutines write at once. A close frame or broken stream makes reading fail instead of yielding a partial message. An opening HTTP handshake that fails (the network, a refusal, missing or wrong headers, a cut, garbage, silence until the context ends) makes Dial or Upgrade return an error and no connection, and the server stays usable.",
 ["inputs","schedules","fault_sequences"],"all payload sizes across the frame-length boundaries, fragmentations, interleaved control frames, concurrent writers and cut points, for all four adapter pairings",
 "Tests exchange a few tiny text messages between equal adapters.",
 ["gorilla/socket.go","gobwas/socket.go","gorilla/upgrader.go","gobwas/upgrader.go"],[("frame loop","gobwas/socket.go:ReadData, gorilla/socket.go:ReadData"),("serialised writes","gobwas/socket.go:write, gorilla/socket.go:write")],
 ["Socket.ReadData","Socket.WriteText","Socket.WriteBinary"])
p("C24","Any API call may be made from inside a callback",
 "From inside any event callback, on either side and also while a namespace or the connection is being closed, a user may emit, leave, disconnect, close, broadcast, and look up namespaces and rooms, and from a callback that does not itself decide a connect, join or leave also ask, connect and join (while the other side's callbacks are not waiting for this one); each such call completes. The same holds for emitting, broadcasting, closing connections and looking them up from Server.OnDisconnect and from a function run by Server.Do. The connection (if not closed) keeps serving.",
 ["schedules","histories","programs"],"all assignments of short API-call scripts to callbacks on both sides, all triggering operations, all latencies",
 "One test leaves a room from inside a callback.",
 ["conn.go","conn_namespace.go","server.go","broadcaster.go"],[("callbacks run outside of locks","conn.go:Close, DisconnectAll; conn_namespace.go:LeaveAll, forceLeaveAll"),("reading continues while a callback asks","conn.go:startReader, ask")],
 ["all public methods, called in event callbacks"])
p("C25","Read and write timeouts are honoured",
 "A connection configured with a read timeout is closed once its peer has been silent for that long, and never while the peer keeps sending within it; without a read timeout an idle connection stays open. The configured timeouts are handed to the socket for every read and write, on server and client, and a write that times out or fails because the connection is gone closes the connection.",
 ["schedules","configurations","fault_sequences"],"all timeout values, traffic gaps around the limit, and write failures, in simulated time",
 "No test configures a timeout.",
 ["conn.go","conn_handler.go","event.go"],[("timeouts plumbing","conn.go:startReader, write; server.go:Upgrade; client.go:Dial"),("error classification","event.go:IsCloseError, IsTimeoutError")],
 ["WithTimeout","Struct.SetTimeouts","Socket.ReadData/Write* timeout argument","Conn.IsClosed"])
p("C26","Concurrent lifecycle operations converge",
 "However connect, disconnect, join, leave, ask and emit operations of both sides and several goroutines overlap on one connection, every call returns, no side fires a second Connected (Joined) callback before the matching Disconnect (Left), and the connection goes on serving: after both sides have disconnected from everything they agree and can connect and join again. When the overlapping operations only connect and join, or when every namespace is changed by one goroutine at a time, both sides report the same connected namespaces and the same rooms once all have returned and the link is idle. Concurrent connects to a namespace yield one namespace connection (and concurrent joins one room membership) with a single Connected (Joined) callback per side, and a message emitted after the sender's connect or join completed is not lost.",
 ["schedules","histories"],"overlapping operations on the same and different namespaces and rooms, with arbitrary latencies, callback durations and processor counts",
 "All tests run one operation at a time.",
 ["conn.go","conn_namespace.go","process.go"],[("connect process gate","process.go, conn.go:tryNamespace, askConnect"),("locked state changes","conn.go, conn_namespace.go")],
 ["Conn.Connect","NSConn.JoinRoom","Room.Leave","NSConn.Disconnect","Conn.Namespace","NSConn.Rooms"])
p("C27","Concurrent use is free of data races",
 "The exported methods of Server, Client, Conn, NSConn, Room, the stack exchanges and the sockets may be called from any number of goroutines and from inside callbacks, while connections are dialed, accepted, acknowledged, closed or time out and while the server is closed: no two of these calls (nor a call and the library's own goroutines) access the same memory without synchronisation, and no such overlap ends the process, as concurrent map use does. Configuration (exported fields, handlers, known errors, exchanges) that is set before the server or client is used is outside of this.",
 ["schedules","histories"],"all overlaps of lifecycle operations, messages, asks, broadcasts, connection registry reads, store access, dials and closes, on both sides, over the simulated link, the in-memory brokers and the real adapters",
 "The tests are run without the race detector, over histories in which hardly anything overlaps.",
 ["conn.go","conn_namespace.go","conn_room.go","server.go","broadcaster.go","process.go","reflect.go","gorilla/socket.go","gobwas/socket.go","stackexchange/redis/stackexchange_redis.go","stackexchange/nats/stackexchange_nats.go"],[("connection state","conn.go: connectedNamespacesMutex, waitingMessagesMutex, storeMutex, atomics"),("registry","server.go: mu"),("rooms","conn_namespace.go: roomsMutex"),("writes","gorilla/socket.go, gobwas/socket.go: mu")],
 ["the Go race detector, over the generated histories of the other checks"])
p("C28","Ended connections and ended requests leave nothing behind",
 "On a running server that connections come to and leave from for ever, the library's goroutines, the connections it holds and the memory it has in use do not grow with the number of connections that have ended (accepted, refused or never acknowledged; ended by either side, by a callback or by the link), nor with the number of requests, answered or not, of namespaces disconnected, rooms left, or messages broadcast.",
 ["histories","fault_sequences"],"all rounds of short-lived connections and of operations on a lasting connection, repeated, with and without a stack exchange and the sync broadcaster",
 "Tests start a fresh server, make one or two connections and exit.",
 ["conn.go","server.go","broadcaster.go","conn_namespace.go","conn_inbox.go"],[("pending requests","conn.go:ask, notifyAsk; server.go:Ask"),("per-connection goroutines","server.go:Upgrade, waitMessages; conn.go:startReader, readPayloads, Close"),("registry","server.go:start"),("broadcast list","broadcaster.go")],
 ["runtime goroutine stacks","weak pointers to connections","recorded allocations of the library"])
p("C29","A stuck connection does not hold up the others",
 "While some connections are stuck (their peer does not read, acknowledge or answer, or one of their event callbacks or their OnConnect does not return), everything else goes on: new connections are accepted, the other connections connect, disconnect, join, leave, emit, ask, are asked, receive broadcasts and are closed with their notifications, and Broadcast, Server.Ask (someone else answering), the registry reads, Do and Server.Close (no disconnect callback being the stuck one) return. With SyncBroadcaster this excludes connections whose writes block, which it waits for by design.",
 ["schedules","fault_sequences","histories"],"all kinds and moments of getting stuck, several at once, crossed with all operations of the healthy connections",
 "Tests have no stuck peer or callback.",
 ["server.go","broadcaster.go","conn.go","conn_namespace.go"],[("a goroutine per connection","server.go:Upgrade, waitMessages"),("callbacks outside of locks","conn.go, conn_namespace.go"),("close without waiting","conn.go:Close; server.go:Close")],
 ["all public methods of Server, and of the connections which are not stuck"])
for x in P:
    assert len(x["title"])<=80,(x["id"],len(x["title"]))
    print(json.dumps(x))
