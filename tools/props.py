#!/usr/bin/env python3
# Source of properties.jsonl (run: python3 tools/props.py > properties.jsonl).
import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],**({'observe_at':observe} if observe else {}))))
p("C01","Message fidelity: namespace, room, event and body arrive exactly as sent",
 "Whatever a peer emits - any namespace, room and event name (semicolons included, the reserved escape text excluded) and any body, any bytes when sent as binary and any valid UTF-8 when sent as text - is received by the other side's event callback with exactly the same namespace, room, event, body and text/binary kind. Serializing a message and deserializing the result is the identity on those fields, and a payload that is not a well-formed message is reported as invalid and never handled as some other message.",
 ["inputs","configurations"],"all field texts and bodies, both directions, every socket implementation pair",
 "the unit tests serialize a dozen fixed literals; the input space of field texts and bodies, and its passage through the real sockets, is not sampled",
 ["message.go","conn.go","gobwas/socket.go","gorilla/socket.go"],[("wire format","message.go serializeMessage/DeserializeMessage"),("emit path","conn_namespace.go Emit/EmitBinary, conn_room.go Emit"),("read path","conn.go startReader/HandlePayload")],["event callbacks on both sides","Message.Serialize / DeserializeMessage"])
p("C02","Callback results travel back: replies as bodies, errors as the same errors",
 "When an event callback answers a request with Reply(body) the asker receives exactly that body and no error; when it returns an error the asker receives an error with exactly that text, and the identical registered value when that text belongs to a built-in or registered known error. An error that is returned for a plain (not asked) message reaches the sender's callback of the same namespace and event as an error, and a nil result sends nothing back.",
 ["inputs","configurations"],"all reply bodies and error texts (empty ones included), both directions, registered and resolver errors",
 "tests check two fixed error texts; nothing checks arbitrary texts, empty ones, resolver errors or that nil stays silent",
 ["event.go","message.go","conn.go"],[("reply/err encoding","message.go serializeOutput/resolveError"),("error write-back","conn.go handleMessage")],["result of Ask","event callbacks"])
p("C03","Every Ask gets its own reply and nobody else's",
 "For any number of concurrent Ask calls, from any goroutines of both sides of a connection at once, including from inside event callbacks, each call returns exactly the reply that the remote callback produced for that very request. The remote callback runs exactly once per Ask, and an Ask never consumes, delays forever or drops any other message that arrives meanwhile.",
 ["schedules","histories"],"all interleavings of concurrent and nested asks with ordinary traffic in both directions",
 "the repository's suite is run on one processor because an Ask straight after another could hang; it never overlaps asks",
 ["conn.go","message.go","conn_namespace.go"],[("wait tokens","message.go genWait"),("waiting table","conn.go Ask/ask"),("reply routing","conn.go handleMessage")],["result of Ask","event callbacks"])
p("C04","A pending Ask ends with its context or its connection; late replies are inert",
 "An Ask returns with an error as soon as its context is done or its connection is closed or lost, whichever side causes it and whether or not it runs inside a callback, and an Ask on a closed connection fails at once. A reply that arrives after its Ask gave up has no effect: it does not fire any callback, is not delivered to another Ask and does not disturb the following traffic.",
 ["schedules","fault_sequences"],"all points at which the context ends, a side closes or the network is cut during pending asks",
 "no test closes a connection or cancels a context under a pending Ask",
 ["conn.go"],[("ask select","conn.go ask"),("close sweep","conn.go Close"),("reader failure","conn.go startReader")],["result of Ask","event callbacks"])
p("C05","Messages of a connection are handled in order, exactly once, one at a time",
 "Messages that one side sends sequentially on a connection are handled by the other side's callbacks exactly once each, in the order they were sent, and never two at the same time, for as long as the connection lives. This holds across namespaces and rooms, while callbacks are slow, ask, emit or (re)connect namespaces, and for messages sent immediately after a namespace connect returns.",
 ["schedules","histories"],"all sequences of sends and all schedules of sender, reader and callbacks",
 "tests send a handful of messages and never check order, duplication or overlap",
 ["conn.go","gobwas/socket.go","gorilla/socket.go"],[("reader loop","conn.go startReader"),("connect gate","process.go, conn.go tryNamespace")],["event callbacks"])
p("C06","A broadcast reaches exactly the addressed connections, exactly once, in order",
 "A server broadcast is received exactly once by every connection that is connected to the message's namespace, joined to its room if one is given, has the addressed ID if one is given and is not the excluded connection (or excluded ID) at that time and stays so, and by no other connection. Each message of a multi-message broadcast is judged on its own, successive broadcasts of one caller reach a connection in call order, and neither slow receivers nor concurrent connects and disconnects make another receiver miss or repeat one.",
 ["schedules","histories","configurations"],"all sets of connections, memberships, addressing combinations and concurrent broadcasts, default and synchronous broadcaster",
 "one test broadcasts to a few clients; loss and repetition appear only when broadcasts overlap with deliveries and membership changes",
 ["server.go","broadcaster.go","conn.go"],[("addressing","server.go Broadcast/publishMessages, conn.go canWrite"),("async fan-out","broadcaster.go, server.go waitMessages"),("sync fan-out","server.go start")],["event callbacks of clients"])
p("C07","SyncBroadcaster delivers all broadcasts in one common order",
 "With the synchronous broadcaster all connections that receive two broadcasts receive them in the same relative order, whichever goroutines issued them, and the broadcasts of one goroutine in its call order. Broadcasting from any callback, including connection and namespace disconnect callbacks, is delivered and never blocks the server.",
 ["schedules","histories"],"all interleavings of concurrent broadcasters, receivers, connects and disconnects",
 "no test uses the synchronous broadcaster",
 ["server.go"],[("server loop","server.go start"),("queueing","server.go Broadcast")],["event callbacks of clients"])
p("C08","Namespace gate: no traffic without a mutually accepted namespace connection",
 "A namespace becomes usable on a connection only if both sides declare it and neither side's connect callback refuses; otherwise connecting returns the refusal (or bad-namespace) error and leaves both sides unconnected. Messages for a namespace that is not connected fire no callback, are refused locally when sent, and a request among them is answered with the bad-namespace error; after a disconnect the same holds again until the next connect.",
 ["histories","inputs","configurations"],"all sequences of connect, refuse, disconnect and traffic on any set of namespaces, from both sides, including raw clients that ignore the rules",
 "tests check one accepted and one refused connect; the histories and rule-breaking peers are not covered",
 ["conn.go","conn_namespace.go"],[("connect handshake","conn.go askConnect/replyConnect"),("gate","conn.go tryNamespace/canWrite"),("disconnect","conn.go askDisconnect/replyDisconnect")],["callbacks","returned errors","wire replies"])
p("C09","Room gate: membership is agreed, respected and isolated",
 "Joining a room makes it visible on both sides unless a join callback refuses, leaving removes it on both sides unless the server's leave callback refuses, disconnecting from the namespace or closing leaves all of its rooms, and memberships of other rooms, namespaces and connections are unaffected. A peer that is not in a room cannot send to it from that side and receives nothing addressed to it.",
 ["histories","configurations"],"all sequences of join, leave, leave-all, disconnect, refuse and room traffic started by either side",
 "tests join and leave one room; agreement after arbitrary histories is not checked",
 ["conn_namespace.go","conn_room.go","conn.go"],[("join/leave handshake","conn_namespace.go askRoomJoin/replyRoomJoin/askRoomLeave/replyRoomLeave"),("room gate","conn.go canWrite"),("force leave","conn_namespace.go forceLeaveAll")],["NSConn.Room/Rooms on both sides","event callbacks"])
p("C10","Lifecycle callbacks are well-formed, balanced and correctly marked",
 "On each side and namespace connection the callbacks follow connect, connected, (join, joined, leave, left)*, disconnect: connected, joined and left fire once per transition, every connected is matched by exactly one disconnect and every joined by exactly one left by the time the connection has ended (a disconnect or leave that the server's callback refused does not count), and rooms are left before their namespace is disconnected, except that the server is asked first when a client requests the disconnect. Each of them names the right namespace and room and is marked local or remote and forced or not according to who caused it. Inside each of them the connection is in the state that the event names: connect and join come before the namespace or room is there and nothing can be sent to it yet, connected and joined after, leave while the room is still there, left and disconnect when the rooms are gone.",
 ["histories","schedules","crash_points"],"all histories of connects, joins, leaves, disconnects and closes from either side, ended by any kind of termination",
 "the tests assert a few callbacks on one scripted path and no balance over histories",
 ["conn.go","conn_namespace.go"],[("lifecycle events","conn.go askConnect/replyConnect/askDisconnect/replyDisconnect/Close"),("room events","conn_namespace.go")],["event callbacks"])
p("C11","Admission: OnConnect decides, and both sides agree on the connection ID",
 "A dial succeeds exactly when the server's connect callback accepts, otherwise it returns an error with the callback's text and the connection is terminated without ever handling any message of it; until the callback has returned, or itself started to use the connection, nothing of the client is handled. The ID that the client sees is exactly the one that the server's generator produced for that request, and no client message can change it or skip the admission.",
 ["schedules","inputs","configurations"],"all timings of the connect callback relative to client traffic, all IDs, all first bytes a client may send, native-only servers included",
 "tests check one rejection with a well-behaved client",
 ["server.go","conn.go","waiter_once.go","client.go"],[("acknowledgement","conn.go handleACK/sendClientACK"),("readiness","waiter_once.go"),("upgrade","server.go Upgrade")],["Dial result","server callbacks","raw frames"])
p("C12","Connection registry is conserved: count, Do and OnDisconnect agree with reality",
 "After every burst of connects and terminations has settled, the server's total and the set that Do visits are exactly the live connections, each visited once. OnDisconnect fires exactly once for every admitted connection after it ends, after its namespaces were disconnected, never while it lives, and for a rejected one only if configured so.",
 ["schedules","fault_sequences","histories"],"all interleavings of dials, closes by either side, network cuts, rejections and server close",
 "tests check the total after one client",
 ["server.go","conn.go"],[("registry loop","server.go start"),("register/unregister","server.go Upgrade, conn.go Close")],["GetTotalConnections","Do","OnConnect/OnDisconnect"])
p("C13","Close is final, idempotent, notified and releases everything",
 "Closing a connection from either side, any number of times and from any goroutines including its own callbacks, ends it on both sides: its network connection is closed, NotifyClose fires after its disconnect callbacks, later writes report failure and no callback handles a message that arrives afterwards. Closing the server ends every connection, including those being established, and makes it refuse new ones; when all is closed no goroutine and no network connection of those connections remains.",
 ["schedules","crash_points","fault_sequences"],"all moments and origins of close relative to handshakes, traffic, asks and other closes",
 "tests close once at the end",
 ["conn.go","server.go","client.go"],[("close","conn.go Close"),("server close","server.go Close"),("notify","client.go NotifyClose")],["IsClosed, NotifyClose, write results","goroutine census","socket state"])
p("C14","Hostile input is contained to the connection that sent it",
 "Whatever bytes a peer sends - before or after admission, malformed messages, forged tokens, system events out of turn, broken frames - the process does not crash, no other connection is disturbed, and no callback fires for a payload that is not a valid message for a connected namespace. The same holds for clients facing a hostile server.",
 ["inputs","fault_sequences"],"all byte strings and orders of frames",
 "tests only use well-behaved peers",
 ["conn.go","message.go","server.go","gobwas/socket.go","gorilla/socket.go"],[("parsing","message.go deserializeInput"),("dispatch","conn.go handleMessage/handleACK")],["process liveness","callbacks","victim connections"])
p("C15","No data races in the library under concurrent use of its API",
 "Concurrent use of connections, namespaces, rooms, broadcasts, asks, stores, dials and closes from any goroutines and callbacks, on every socket implementation and exchange, never produces a data race in the library. Only the two functions documented as not safe for concurrent use are exempt.",
 ["schedules","programs"],"all concurrent programs over the public API",
 "the suite is not run under the race detector and hardly runs anything concurrently",
 ["conn.go","server.go","broadcaster.go","waiter_once.go","process.go","conn_namespace.go","gobwas/socket.go","gorilla/socket.go","stackexchange/redis/stackexchange_redis.go","stackexchange/nats/stackexchange_nats.go"],[("shared state","all mutexes and atomics of these files")],["race detector reports"])
p("C16","The API can be used from inside callbacks without blocking forever",
 "Any event or lifecycle callback may call the connection's own API - emit, ask, connect, disconnect, join, leave, list rooms and namespaces, read and write the store, broadcast, close - and every such call completes once the peer answers, for every callback on both sides and whichever side caused the event (connecting to a namespace from within its own connect callback excepted). While such calls are in progress other connections keep being served.",
 ["schedules","programs"],"all pairs of callback and API call, both sides, local, remote and forced causes",
 "tests call a few API functions from one or two callbacks",
 ["conn.go","conn_namespace.go","server.go"],[("callback invocation under no lock","conn.go Close/askDisconnect, conn_namespace.go forceLeaveAll/LeaveAll"),("in-callback ask","conn.go ask")],["completion of calls"])
p("C17","Websocket frames stay intact under concurrent writers, pings and fragmentation",
 "Every frame that a connection puts on the wire is a complete well-formed websocket frame carrying exactly one message, whatever number of goroutines write at once and while pings are being answered. Fragmented messages, interleaved control frames, frames that arrive together with the handshake's response (for the gobwas server: with its request) and idle periods longer than the write timeout are read and answered correctly by both socket implementations.",
 ["schedules","inputs","configurations"],"all interleavings of writers and control frames, all fragmentations and message sizes",
 "tests exchange small single frames with the same library at both ends",
 ["gobwas/socket.go","gobwas/dialer.go","gobwas/upgrader.go","gorilla/socket.go"],[("write lock","gobwas/socket.go write, gorilla/socket.go write"),("control frames","gobwas/socket.go ReadData")],["independent frame parser on the raw byte stream"])
p("C18","The connection's store is a linearizable map with atomic counters",
 "Set, Get, Increment and Decrement on a connection's store behave as if executed one at a time in some order consistent with real time, from any goroutines. Stores of different connections are independent.",
 ["schedules","histories"],"all concurrent histories",
 "no test uses the store concurrently",
 ["conn.go"],[("store","conn.go Set/Get/Increment/Decrement")],["call/return history"])
p("C19","Scale-out: a broadcast via Redis or NATS reaches the same set on all servers",
 "With a stack exchange a broadcast issued on any server is received exactly once by every connection of every server that is connected to its namespace, joined to its room, has the addressed ID and is not the excluded one, and by nobody else, with namespace, room, event and body intact; the broadcasts of one caller with the same addressing arrive in order. Connections that disconnect from the namespace or end stop receiving and release their subscriptions. It works with any of the broker configurations (password, several addresses, pool size), and servers that share the broker but use another channel prefix receive nothing of it.",
 ["schedules","histories","configurations"],"all placements of connections on servers, memberships, addressing, configurations and both exchanges",
 "no test runs an exchange at all",
 ["stackexchange/redis/stackexchange_redis.go","stackexchange/nats/stackexchange_nats.go","server.go","message.go"],[("publish/subscribe","stackexchange/*/"),("origin marking","message.go serializeMessage/DeserializeMessage")],["callbacks of clients","broker's subscription table"])
p("C20","Scale-out: a server Ask finds its responder on any server",
 "With a stack exchange a server's Ask returns the reply (or the error) of the addressed connection, or of one of the connections of the namespace, on whichever server it lives, concurrent asks get their own replies, and an Ask whose context ends returns its error. Additional and late replies are inert, and asks leave no subscription and no broker connection behind.",
 ["schedules","histories","configurations"],"all placements of responders, numbers of responders and concurrent asks, both exchanges",
 "no test runs an exchange",
 ["stackexchange/redis/stackexchange_redis.go","stackexchange/nats/stackexchange_nats.go","server.go","message.go","conn.go"],[("ask","stackexchange/*/ Ask, NotifyAsk"),("token","message.go genWaitStackExchange")],["result of Ask","broker's subscription table"])
p("C21","The server drives its stack exchange by the contract",
 "For every connection an exchange sees connect before anything else, one subscribe per namespace connection, before its connected callback, one unsubscribe per requested namespace disconnection, in order, and exactly one disconnect at the end (calls still in progress when the connection is closed may overlap it); it sees every broadcast batch exactly once and unchanged except for the sender mark, and an error of its connect rejects the connection. With several registered exchanges each of them sees all of it, and an initialization error is returned and leaves the exchange unregistered.",
 ["histories","configurations"],"all histories of connections and namespaces, numbers of exchanges and failures",
 "no test registers an exchange",
 ["stackexchange.go","server.go","conn.go"],[("wrapper","stackexchange.go"),("calls","server.go Upgrade/start/Broadcast, conn.go notifyNamespaceConnected/notifyNamespaceDisconnect")],["a recording exchange"])
p("C22","Server Ask returns one addressed reply and ignores the rest",
 "A server Ask without exchange returns the reply or the error of the addressed connection, or the first one of the namespace or room when not addressed, concurrent asks never mix their replies, and it ends with its context. Further and late replies are inert: they fire no callback, block no connection and are not sent back.",
 ["schedules","histories"],"all numbers of responders, reply timings and concurrent asks",
 "one test asks a single client",
 ["server.go","conn.go"],[("waiting table","server.go Ask"),("reply routing","conn.go handleMessage")],["result of Ask","event callbacks"])
p("C23","Simultaneous connects converge to one namespace connection on each side",
 "When any number of goroutines of both sides connect the same connection to the same namespace at the same time, all calls return, the successful ones of a side return the same namespace connection, the connected callback fires once per side, and both sides agree. Waiting for the server's connect returns that same namespace connection, and reconnecting after a disconnect works the same way any number of times.",
 ["schedules","histories"],"all interleavings of connects of both sides, with disconnects between rounds",
 "tests connect from one side only",
 ["conn.go","process.go","client.go"],[("connect process","process.go"),("registration","conn.go askConnect/replyConnect, WaitConnect")],["returned values","event callbacks"])
p("C24","Struct controllers: one isolated instance per namespace connection",
 "A controller struct with a connection field gets its own instance per namespace connection, holding that connection and the static exported fields of the registered value, reused for all of its events and never shared with or visible to another connection or leaking into the registered value. Methods become events by the documented naming rules and matchers, and a controller without such a field is shared and receives the connection as argument.",
 ["schedules","programs","inputs"],"all concurrent connections and event orders; controllers with exported, unexported, zero and non-zero fields, matchers and injectors",
 "one test uses a single connection",
 ["reflect.go","conn_handler.go"],[("instance per connect","reflect.go makeEventsFromStruct"),("matching","conn_handler.go, reflect.go makeEventFromMethod")],["controller state seen by its methods"])
p("C25","Event dispatch picks the right callback and handler composition is faithful",
 "An incoming message fires exactly the callback registered for its namespace and event, else the any-event callback of that namespace, else none, never one of another namespace. Joined handlers contain the union of namespaces and events with later ones overriding, their inputs are not modified, and wrapping with timeouts or using events alone (the empty namespace) exposes the same callbacks.",
 ["inputs","programs"],"all handler trees and event names",
 "tests join two fixed handlers",
 ["conn_handler.go","event.go","conn.go"],[("dispatch","conn_handler.go fireEvent"),("composition","conn_handler.go JoinConnHandlers/GetNamespaces")],["event callbacks","GetNamespaces"])
p("C26","Configured timeouts are applied to every read and write and end dead connections",
 "The read and write timeouts given by a timeout or struct handler are the ones applied to every read and write of the connections of that side, and none is applied when not given. A peer that stays silent longer than the read timeout, or that does not accept data for longer than the write timeout, loses its connection with all its disconnect callbacks, while one that communicates in time never does.",
 ["configurations","fault_sequences"],"all timeout configurations by all handler kinds, silent and stalled peers",
 "tests set timeouts but never let them expire",
 ["conn_handler.go","conn.go","server.go","client.go","gobwas/socket.go","gorilla/socket.go"],[("configuration","conn_handler.go getTimeouts"),("deadlines","gobwas/socket.go, gorilla/socket.go")],["timeouts passed to a recording socket","callbacks"])
p("C27","The HTTP upgrade contract holds for every request",
 "Only GET requests can become connections: a HEAD probe is answered as found and reported as a reconnection attempt, other methods are answered with 405 and the allowed method, a closed server answers 500, and a failed upgrade is reported to the upgrade-error callback and returned. URL parameters with the documented prefix appear as request headers and no other ones do, the reconnection counter is taken from its header, and the custom ID generator and socket wrapper given to an upgrade are the ones used.",
 ["inputs","configurations"],"all methods, query strings, headers and upgrade options",
 "tests perform plain upgrades only",
 ["server.go"],[("upgrade","server.go Upgrade/tryParseURLParamsToHeaders/IsTryingToReconnect")],["HTTP responses","Upgrade results","Conn fields"])
p("C28","Native messages pass through untouched where allowed, and only there",
 "If the empty namespace declares a native-message callback and is connected, any non-empty raw payload that is not a well-formed message is delivered to it exactly once with exactly its bytes and kind, in order with everything else; if that callback is the only thing declared, every payload is, without any handshake. Native writes put exactly the given body on the wire, and without such a callback raw payloads fire nothing.",
 ["inputs","configurations"],"all payloads, mixed native and ordinary traffic, native-only and mixed handlers, both directions",
 "one test sends one native message",
 ["conn.go","message.go"],[("native mode","conn.go newConn/handleMessage"),("format","message.go deserializeInput/serializeMessage")],["native callback","raw frames"])
for x in P: print(json.dumps(x))
