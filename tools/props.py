#!/usr/bin/env python3
"""Single source of properties.jsonl, checks.json and MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []

def prop(id, title, statement, over, qtext, why, files, mech, bounds, harness=None, observe=None, assumptions=None, quick=60, thorough=700, na=None, state=None, instrument=None, extra=None, standin=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, bounds=bounds,
                  harness=harness or id.lower(), observe=observe or [], assumptions=assumptions or [], quick=quick, thorough=thorough, na=na, state=state or [], instrument=instrument, extra=extra, standin=standin))

SOCK = "the websocket transport is an in-memory Socket that delivers whole frames in order (the adapters themselves: C29)"
SCHED = "goroutine switches are explored at blocking operations plus up to the stated number of delays placed, by the solver, at any synchronisation point of the repository's code (delay-bounded scheduling); weak-memory effects are not modelled"
TIME = "time is virtual: it advances only when every goroutine is blocked"
STD = "the Go standard library behaves as its own source, executed symbolically, or as the engine's models of sync, time, context-free atomics, maps and channels; sample paths are re-run natively and must agree"

prop("C01", "Messages survive the wire unchanged",
 "Whatever namespace, room, event, body, error or reply a message is sent with, the receiving side decodes exactly the same values, whatever bytes they contain, separators included; an error arrives as an error and a body as a body. A native message is exactly its body on the wire.",
 ["inputs"], "every namespace, room and event name, every body or error text, text and binary frames",
 "The tests serialise a handful of fixed messages; the escaping has to hold for every byte sequence in every field.",
 ["message.go", "event.go"], [("escaping of the separator in names", "message.go escape/unescape"), ("split into seven fields, body last", "message.go serializeMessage/deserializeInput")],
 "quick: namespace, event and body of up to 2 symbolic bytes each, room up to 1 (thorough 3/2), all 256 values; plus fields built from up to 2 (3) of 9 separator-like words; excluded-connection tokens of up to 2 (3) symbolic bytes. Out of scope: names that contain the literal replacement text '@%!semicolon@%!' (documented as reserved).",
 observe=["Message.Serialize, DeserializeMessage"], assumptions=[STD])

prop("C02", "Every payload is decoded exactly or refused",
 "Any received payload is either a well-formed message, whose token, namespace, room, event, error flag and body are exactly the fields between its first six separators, or a native message where those are allowed, or it is refused as an invalid payload; nothing else is ever read into it. A refused payload fires no callback, sends nothing and does not close the connection.",
 ["inputs"], "every byte sequence within the bound, text or binary, with and without native messages, server and client side",
 "Decoding must hold for every byte sequence; the tests decode well-formed ones only.",
 ["message.go", "conn.go"], [("field split and classification", "message.go deserializeInput"), ("invalid payload refused", "conn.go handleMessage")],
 "every payload of up to 8 symbolic bytes (thorough 10); every well-formed one with up to 3 bytes of token, 1 (2) of every other field and 2 of body; HandlePayload with up to 6 (8) bytes.",
 observe=["DeserializeMessage, Conn.HandlePayload, Message.IsWait"], assumptions=[STD])

prop("C03", "No received message kills or wedges a connection",
 "Whatever the other side sends, in whatever state the connection is, neither side panics, closes the connection or stops serving it: the next legitimate connect and question are answered. Before the handshake is complete the same holds: the connection is refused with the server's error or becomes usable.",
 ["inputs", "histories"], "every message within the bound, every connection state reachable by connecting and joining, server and client side, one or two hostile messages",
 "Only an exhaustive treatment of the payload space shows that no token, event name or flag reaches a path that panics or blocks the reader.",
 ["conn.go", "conn_namespace.go", "message.go"], [("reader loop and dispatch", "conn.go startReader/handleMessage"), ("replies nobody waits for are dropped", "conn.go handleReply")],
 "one payload of up to 7 (9) symbolic bytes; one well-formed message with symbolic token (up to 3 bytes or an excluded-connection token), flags and body over 12 event names x namespaces x rooms x states x with/without a StackExchange; two consecutive messages over 4 (5) tokens x 6 events x rooms; up to 3 (4) symbolic bytes before the acknowledgement.",
 observe=["frames written, Conn.IsClosed"], assumptions=[SOCK, STD])

prop("C04", "Only connected namespaces receive messages",
 "A message fires a callback of its namespace only if that namespace is connected on this connection at that moment. A question sent to one that is not connected is answered with the bad-namespace error, any other message to it is dropped; other namespaces are unaffected.",
 ["histories", "inputs"], "every sequence of connects, disconnects, messages, questions and errors over declared and undeclared namespaces, server and client side",
 "The tests connect first and then talk; they never send to a namespace in another state.",
 ["conn.go"], [("namespace lookup before dispatch", "conn.go tryNamespace/handleMessage")],
 "sequences of 3 (4) operations over 3 declared and 1 undeclared namespaces; 3 (4) local connects, disconnects and DisconnectAll with every answer of the other side; every namespace name of up to 3 symbolic bytes against a connected one.",
 observe=["callbacks fired, frames written"], assumptions=[SOCK, STD])

prop("C05", "The right callback handles a message and its result is sent back",
 "A message is handled exactly once by the callback registered for exactly its event in exactly its namespace, else by that namespace's any-event callback, else by none, and messages are handled one at a time in the order they arrive. A nil result sends nothing; an error is sent back as an error and a Reply as a body, once, with the same token, namespace, room, event and frame type.",
 ["inputs", "histories"], "every short event name, body, result and error text, with and without token, room and any-event callback, text and binary",
 "The mapping has to hold for every event name and every combination of results; the tests check one echo.",
 ["conn.go", "conn_handler.go", "event.go", "message.go"], [("exact match, then any-event", "conn_handler.go fireEvent"), ("result written back", "conn.go handleMessage")],
 "event names of up to 2 symbolic bytes, result texts up to 2 (3), bodies up to 1; sequences of 3 (4) messages over two namespaces and events.",
 observe=["callbacks fired, frames written"], assumptions=[SOCK, STD])

prop("C06", "A message is written once, only where it may be",
 "Sending succeeds exactly when the connection is open, the namespace is connected and the room, if any, is joined; then exactly one frame with exactly the given namespace, room, event and body is written, text or binary as asked. Otherwise false is returned and nothing is written; a failed write is reported, and closes the connection only if the transport is gone.",
 ["histories", "inputs", "fault_sequences"], "every way to send, in every state of connection, namespace and room, with write failures",
 "The tests send in the one state where it works.",
 ["conn.go", "conn_namespace.go", "conn_room.go"], [("write checks", "conn.go canWrite"), ("single frame", "conn.go write")],
 "6 ways to send x 4 namespace/room states x open/closed x text/binary, event of up to 1 and body of up to 2 (3) symbolic bytes; transport and non-transport write errors; nil namespaces.",
 observe=["results of Emit/EmitBinary/Write, frames written"], assumptions=[SOCK, STD])

prop("C07", "Connecting to a namespace needs both sides and happens once",
 "A namespace becomes connected exactly when both sides declare it and neither side's connect callback refuses; then the connected event fires once, later connects succeed without any effect and return the same value. A refusal is returned as the refusing side's error, leaves the namespace disconnected and fires no connected event; simultaneous connects, of either side, connect it once. It is connected when the other side gets the confirmation.",
 ["histories", "schedules", "inputs"], "every sequence of connect attempts and refusals from either side, and every interleaving of simultaneous ones within the delay bound",
 "Tests connect once from the client; refusal, repetition and simultaneous connects are history and schedule properties.",
 ["conn.go", "process.go"], [("ask and reply of connect", "conn.go askConnect/replyConnect")],
 "passive: sequences of 3 (4) operations with symbolic refusals; active: all outcomes; simultaneous: 2 local connects plus a remote one with up to 2 (3) delays; the moment of the confirmation with 1 (2) delays.",
 observe=["events fired, frames written, Conn.Namespace"], assumptions=[SOCK, SCHED, TIME, STD])

prop("C08", "Disconnecting from a namespace is agreed and complete",
 "A namespace is disconnected only after the other side confirms; a server-side callback may refuse a client's disconnect, a client's may not refuse the server's, and a refused or failed disconnect changes nothing. A successful one leaves every joined room first (leave, then left, forced), fires the disconnect event once, makes the namespace unusable and touches no other namespace; the namespace and its rooms are already left when the other side gets its confirmation.",
 ["histories", "inputs"], "every state of 0-2 joined rooms, both roles, both initiators, every refusal text, cancellation",
 "The tests disconnect once without rooms or refusals.",
 ["conn.go", "conn_namespace.go"], [("ask/reply disconnect", "conn.go askDisconnect/replyDisconnect"), ("forced leave", "conn_namespace.go forceLeaveAll")],
 "0-2 rooms, both roles, refusals with texts of up to 2 symbolic bytes; DisconnectAll over 0-3 namespaces with a refusal at any position; the moment of the confirmation with 1 (2) delays.",
 observe=["events fired, frames written, Namespace/Rooms"], assumptions=[SOCK, STD])

prop("C09", "Room membership follows the agreed joins and leaves",
 "A connection is in a room exactly when it joined it, with the other side's and the local callback's consent, and has not left it since; only then can it write to the room. Join fires join then joined, leave fires leave then left, each once; a refused, failed or repeated operation returns the error (or succeeds without effect when repeated) and changes nothing. Simultaneous joins of a room join it once. A join or leave the other side asked for has taken effect when it gets the confirmation.",
 ["histories", "inputs", "schedules"], "every sequence of joins and leaves by either side with any refusals, cancellations and room names",
 "Membership is a history property; the tests perform one join and one leave.",
 ["conn_namespace.go", "conn_room.go"], [("ask/reply join and leave", "conn_namespace.go")],
 "sequences of 3 (4) operations of 4 kinds over 2 rooms with symbolic refusals and outcomes; LeaveAll over 0-3 rooms; room names of up to 2 symbolic bytes; two simultaneous joins, by this side or both, with up to 2 (3) delays; the moment of the confirmation with 1 (2) delays; confirmations nobody asked for.",
 observe=["events fired, frames written, NSConn.Room/Rooms, writes to the room"], assumptions=[SOCK, STD])

prop("C10", "Closing a connection cleans up everything once",
 "However a connection ends (closed by either side, transport lost, write failed, server closed, several at once), every joined room fires leave and left and every connected namespace fires disconnect, forced, exactly once and in that order; afterwards nothing is connected or joined, the transport is closed, the server no longer counts the connection and its disconnect callback ran once. Closing again changes nothing, and a namespace that connects or a room that is joined meanwhile does not stay so.",
 ["histories", "schedules", "fault_sequences"], "every reason to close in every state of namespaces and rooms, and every interleaving within the delay bound",
 "Close races with the reader, with itself and with connects; tests close idle connections.",
 ["conn.go", "server.go", "conn_namespace.go"], [("close once", "conn.go Close"), ("registry update", "server.go start")],
 "0-2 namespaces with 0-2 rooms each; 4 ways to close; pairs of concurrent reasons with up to 2 (3) delays; connect and join, by either side, racing with close. Out of scope: a namespace or room being left by an agreed disconnect or leave while the connection closes may fire its events for both.",
 observe=["events fired, Conn.IsClosed, GetTotalConnections, OnDisconnect, NotifyClose"], assumptions=[SOCK, SCHED, TIME, STD])

prop("C11", "A reply reaches exactly the question it answers",
 "Every question returns the first reply carrying its own token, with that reply's body or error, whatever the order in which replies, other messages and other questions arrive and whether or not it was asked inside a callback. Replies nobody waits for are dropped without firing a callback, and messages that are not replies are all handled, in order.",
 ["histories", "schedules", "inputs"], "every interleaving of replies, repeated and wrong replies, messages and questions within the bound; every schedule within the delay bound",
 "Correlation is about orders of arrival and concurrent callers; tests ask one question at a time.",
 ["conn.go"], [("table of waiting questions", "conn.go Ask/handleReply/deliverReply"), ("reading on behalf of a blocked reader", "conn.go readUntilReply")],
 "2 (3) open questions and 3 (5) arrivals of any kind; questions inside a callback with 2 (3) messages around the reply; 2 (3) concurrent questions and a cancellation with up to 2 (3) delays; a question of the other side answered beside one's own with up to 2 (3) delays.",
 observe=["results of Ask, callbacks fired"], assumptions=[SOCK, SCHED, TIME, STD])

prop("C12", "A question always ends",
 "A question (ask, connect, disconnect, join or leave) whose reply never comes ends when its context ends, with that error, or when the connection is closed or lost, with an error, also when asked inside a callback; one that cannot be sent fails at once. After a question given up the connection keeps working.",
 ["fault_sequences", "schedules", "histories"], "every kind of question, every way to end it, inside and outside callbacks, every interleaving within the delay bound",
 "Termination under loss, close and cancellation at every point cannot be sampled.",
 ["conn.go"], [("select on context, close and reply", "conn.go ask")],
 "6 kinds of question x 5 ends x inside/outside a callback; 4 reasons not to be sent; races of reply, close, loss and cancellation with up to 2 (3) delays.",
 observe=["return of the call, its error and virtual time"], assumptions=[SOCK, SCHED, TIME, STD])

prop("C13", "A broadcast reaches exactly the addressed connections",
 "Every message of a broadcast is written exactly once to every connection that is connected to its namespace, is in its room if it names one, has the given receiver ID if it names one and is not the excluded sender, and to no other; each message of one call is addressed on its own. The written frame has the message's namespace, room, event, body and frame type and nothing of the sender, and the caller's messages are not modified.",
 ["configurations", "inputs", "histories"], "every membership of connections in namespaces and rooms, every way to exclude and address, both broadcasters",
 "The set of receivers depends on the product of memberships and addressing; tests broadcast to everybody.",
 ["server.go", "conn.go"], [("per-connection filter", "server.go publishMessages"), ("write checks", "conn.go canWrite")],
 "3 connections with any membership in a namespace and a room, two messages per call, 6 kinds of sender to exclude, receiver IDs; both broadcasters.",
 observe=["frames written per connection"], assumptions=[SOCK, STD])

prop("C14", "Broadcasts arrive exactly once and in order",
 "A connection that is registered before a broadcast and connected to its namespace gets every message of it exactly once, and the broadcasts of one caller in the order of the calls, whatever the timing of callers, connections and disconnects. One lost connection does not keep the others from it, nor, with the default broadcaster, does a slow one.",
 ["schedules", "histories"], "every interleaving within the delay bound of concurrent broadcasts, joining, closing and slow connections, both broadcasters",
 "Lost, repeated or reordered broadcasts need a particular schedule.",
 ["broadcaster.go", "server.go"], [("list of broadcasts each connection walks", "broadcaster.go"), ("single publishing loop of the sync one", "server.go start")],
 "2 (3) broadcasting goroutines with 3 (4) broadcasts to 2-3 connections, one joining, closing, lost, failing or blocked meanwhile, up to 2 (3) delays (1 (2) for failing and blocked ones).",
 observe=["frames written per connection"], assumptions=[SOCK, SCHED, TIME, STD])

prop("C15", "The server knows exactly its open connections",
 "After any history of connections opened and ended, the number of connections, the lists of connections (all, or by namespace) and the ones that Do visits are exactly the ones that are open; the server's disconnect callback runs exactly once for each accepted connection that ended and never for one refused (unless configured to).",
 ["histories", "schedules"], "every sequence of upgrades, refusals, closes and losses, and their interleavings within the delay bound",
 "The registry is fed from several goroutines; tests open a couple of connections.",
 ["server.go", "conn.go"], [("connect/disconnect channels", "server.go start/Upgrade")],
 "sequences of 4 (5) operations over up to 4 connections; upgrade racing with close and drop with up to 2 (3) delays.",
 observe=["GetTotalConnections, GetConnections, GetConnectionsByNamespace, Do, OnDisconnect"], assumptions=[SOCK, SCHED, TIME, STD])

prop("C16", "The handshake comes first",
 "The first frame a server writes to an accepted client is the acknowledgement with the connection's ID, and it is written once; no callback of a message runs before it, and the messages received earlier are then handled in order, once each. A client has that ID when Dial returns, and a message of the wrong direction never acknowledges a connection.",
 ["histories", "schedules", "inputs"], "every sequence of frames before and after the acknowledgement, every ID within the bound, slow accept callbacks",
 "The order of acknowledgement, queue and early messages depends on timing and on what the peer sends first.",
 ["conn.go", "server.go", "client.go"], [("ack handling and queue", "conn.go handleACK/handleQueue")],
 "3 (4) early frames of any kind incl. binary ones, acknowledgements of the wrong direction with symbolic content, IDs of up to 3 symbolic bytes; server pushing from its connect callback with up to 2 (3) delays (1 (2) with more than one push); callbacks of any duration around the acknowledgement with up to 2 (3) delays, on the client 3 (4).",
 observe=["frames written, callbacks fired, Client.ID"], assumptions=[SOCK, SCHED, TIME, STD])

prop("C17", "A connection refused by the server never becomes usable",
 "If the server's connect callback (or a StackExchange) returns an error without having used the connection itself, the client's Dial returns that error's text, no callback of a message of that client ever runs, and the disconnect callback runs only if the server is configured so. In any case a refused connection is closed and removed, and an accepted one is acknowledged only after the callback returned or itself used the connection.",
 ["histories", "schedules", "configurations"], "every error text within the bound, callbacks that send, connect, broadcast or block first, native-only handlers, every interleaving within the delay bound",
 "Whether a frame slips through before the refusal is a matter of timing.",
 ["server.go", "conn.go", "waiter_once.go"], [("readiness of a connection", "server.go Upgrade, waiter_once.go")],
 "error texts of up to 2 (3) symbolic bytes; 6 things the callback does first; early client messages; with/without FireDisconnectAlways and StackExchange; a real client and a native-only one with up to 2 (3) delays, 1 (2) for those that are accepted. Out of scope: a client that never sends its acknowledgement request is not told of the refusal, and stays until it closes.",
 observe=["Dial result, callbacks fired, OnDisconnect, transport"], assumptions=[SOCK, SCHED, TIME, STD])

prop("C18", "Client and server always complete the handshake",
 "For every schedule of the two sides, Dial returns with an accepted connection or with the error of the refusal or loss; Connect, from either side and also inside the server's connect callback, then returns on both sides. No schedule leaves a side waiting forever, and a server-side Connect to a client that never acknowledges gives up. Dial hands its dialer the address (with ws:// if it has no scheme) and a context, returns its error, and leaves no socket open when it fails.",
 ["schedules", "fault_sequences"], "every interleaving, within the delay bound, of a real client and a real server over an in-memory transport, with loss of the transport at any point",
 "A lost wakeup needs one particular interleaving out of many.",
 ["waiter_once.go", "conn.go", "server.go", "client.go"], [("readiness waiter", "waiter_once.go"), ("process gate", "process.go")],
 "one client and one server, connects from either or both sides, up to 2 (3) delays (1 (2) for both sides); the transport lost at one of the first 2 (4) frames of either side, or at any moment with 1 (2) delays; addresses of up to 7 (9) symbolic bytes.",
 observe=["return of Dial and Connect, state of both sides"], assumptions=[SOCK, SCHED, TIME, STD])

prop("C19", "The connection's store loses no update",
 "A connection's store behaves as a map from keys to the last value set; Increment and Decrement return and store the previous integer (0 if there is none) plus or minus one, atomically, however many goroutines use the store.",
 ["schedules", "histories", "inputs"], "every sequence of operations with any integers and every interleaving of concurrent updates within the delay bound",
 "Lost updates depend on the schedule; there is no test of the store.",
 ["conn.go"], [("store mutex", "conn.go Set/Get/Increment/Decrement")],
 "sequences of 3 (4) operations over 3 keys with symbolic integers; 2 (3) concurrent updates of one key with up to 2 (3) delays, of any keys with up to 3 delays (every outcome is that of some order).", harness="store",
 observe=["Conn.Get/Set/Increment/Decrement"], assumptions=[SCHED, STD])

prop("C20", "Question tokens are unique and tell who asked",
 "No two questions of a process carry the same token, even when asked at the same instant from several connections and goroutines; a client's token is recognisable as such to both sides, so that a server never takes a client's question for a reply nor the other way round.",
 ["schedules", "inputs"], "every interleaving within the delay bound of questions asked at the same instant; every token within the bound",
 "Two questions in one clock tick need a coarse clock or luck.",
 ["message.go", "conn.go"], [("token generator", "message.go genWait"), ("classification", "message.go IsWait")],
 "3 (4) questions at the same virtual instant from two connections, 2 concurrent ones with up to 2 (3) delays; tokens of up to 3 symbolic bytes for the classification (C02).",
 observe=["tokens of the frames written"], assumptions=[SOCK, SCHED, TIME, STD])

prop("C21", "Handlers combine without loss and timeouts are applied",
 "The namespaces and events a server or client serves are exactly the union of the handlers it was given, whichever way they were written (events, namespaces, with timeouts, structs, joined); joining changes none of the inputs, and a later handler wins for the same event. The read and write timeouts given are the ones used for every read and write of the transport.",
 ["configurations", "inputs"], "every combination of presence of events in up to three handlers, every timeout value",
 "The union over all combinations of handlers is not sampled by one example.",
 ["conn_handler.go", "server.go", "client.go"], [("join of handlers", "conn_handler.go JoinConnHandlers/GetNamespaces"), ("timeouts", "conn_handler.go getTimeouts")],
 "two (three) handlers over 2 namespaces and 2 events with any presence; symbolic timeouts up to 2^40 ns.",
 observe=["callbacks fired, timeouts passed to the Socket"], assumptions=[SOCK, STD])

prop("C22", "Errors keep their identity across the wire",
 "An error sent by one side whose text is that of a known (built-in or registered) error arrives as that very value, a registered error with its own matching as decided by it, and any other as an error with exactly that text. Errors of a closed transport and timeouts are classified as such and nothing else is.",
 ["inputs", "configurations"], "every error text within the bound, every registered set within the bound, every kind of network error",
 "Identity has to hold for every text; tests cover two.",
 ["message.go", "event.go"], [("known errors", "message.go RegisterKnownError/resolveError"), ("classification", "event.go IsCloseError/IsTimeoutError")],
 "texts of up to 3 (4) symbolic bytes against registered errors of up to 3 bytes; net.OpError with any combination of nil/syscall/timeout/other inner errors.",
 observe=["Message.Err, IsCloseError, IsTimeoutError, IsDisconnectError, IsTryingToReconnect"], assumptions=[STD])

prop("C23", "The HTTP entry upgrades only what it should",
 "Only a GET request to an open server is upgraded; HEAD answers 302 for reconnect probes, any other method 405 with Allow, a closed server 500, and in none of these is the upgrader called or a connection registered. URL parameters with the header prefix become request headers of exactly that name and value, others do not, and the reconnect header gives the number of tries.",
 ["inputs", "configurations"], "every method within the bound, every query string within the bound, failing upgraders",
 "Method and query are attacker-controlled strings.",
 ["server.go"], [("method gate", "server.go Upgrade"), ("url parameters to headers", "server.go tryParseURLParamsToHeaders")],
 "methods of up to 4 symbolic bytes; up to 2 parameters whose name and value have up to 2 (3) symbolic bytes after the prefix or near-prefix; reconnect values of up to 2 digits.",
 observe=["response, request headers seen by the upgrader, OnUpgradeError, registry"], assumptions=["net/http and net/url as their source", STD])

prop("C24", "A StackExchange sees exactly what happened",
 "A StackExchange is told of every accepted connection before anything else and of its end exactly once, of each namespace connected and disconnected by a request once, and is given every broadcast (and nothing is written locally); a refusal by it refuses the connection. Several exchanges are all told, in the order they were added; a publish succeeds only if all do, and a question falls back to the next one on error.",
 ["histories", "configurations", "fault_sequences"], "every sequence of connects, disconnects, broadcasts and ends, with one or two exchanges failing or not",
 "There is no test with a StackExchange, as they need a broker.",
 ["stackexchange.go", "server.go", "conn.go"], [("hooks", "server.go Upgrade/start/Broadcast, conn.go notifyNamespace*"), ("wrapper", "stackexchange.go")],
 "sequences of 3 (4) operations on one connection; 1-3 exchanges with any outcome of each call.",
 observe=["calls made to the exchange, frames written"], assumptions=[SOCK, "the exchange itself is a recording stand-in (a broker is out of scope)", STD])

prop("C25", "A server's question is answered by the right client",
 "Server.Ask is sent to exactly the addressed connections, returns the first reply carrying its token with that body or error, and ends with its context otherwise; later replies are dropped, and concurrent questions never get each other's reply. With a StackExchange the question is given to it, and the client's reply is passed to it with the same token.",
 ["histories", "schedules"], "every order of replies of up to 3 clients, several questions at once, cancellation, every interleaving within the delay bound",
 "Which client answers first, and what happens to the others' replies, depends on timing.",
 ["server.go", "conn.go", "message.go"], [("server-wide table of questions", "server.go Ask"), ("stackexchange mark", "message.go genWaitStackExchange")],
 "3 connections, 2 questions, 3 (4) arrivals in any order with wrong and repeated tokens; 2 (3) at once with up to 2 (3) delays, 1 (2) when one is cancelled; every end of an asker.",
 observe=["result of Server.Ask, frames written, calls of the exchange"], assumptions=[SOCK, SCHED, TIME, STD])

prop("C26", "Callbacks may use the connection",
 "Any callback of a connection (of a system event, also on forced leave and disconnect, or of a message) may emit, join, leave, connect, disconnect, list rooms and namespaces, ask, broadcast or close without deadlock, and the operation that fired it still completes.",
 ["programs", "histories"], "every combination of an event whose callback acts and an action it takes, both roles",
 "The product of events and actions is not tested; a lock held around a callback only shows in the right combination.",
 ["conn.go", "conn_namespace.go", "server.go"], [("no lock held while a callback runs", "conn.go, conn_namespace.go")],
 "8 events x 15 actions x 14 ways to trigger x 2 roles; two actions in a row (quick: 4 first ones); broadcasts with the synchronous broadcaster. Not covered: callbacks run by the server's own loop on Server.Close with SyncBroadcaster, whose broadcasts cannot complete by design.",
 observe=["completion of the triggering operation and of the action"], assumptions=[SOCK, TIME, STD])

prop("C27", "Messages sent right after connecting are not lost",
 "A message that either side sends to a namespace after its own connect completed is handled by the other side's callback exactly once and in order, even if it arrives before the other side's Connect returned, and a message sent in the connected callback too; neither side deadlocks.",
 ["schedules"], "every interleaving, within the delay bound, of a real client and server connecting and sending at once",
 "The window between the reply and the return of Connect is a few instructions.",
 ["conn.go", "process.go"], [("messages wait for the running connect", "conn.go tryNamespace, process.go"), ("reply before the namespace is writable", "conn.go replyConnect")],
 "client connecting and server sending from its connected callback and from another goroutine (and vice versa), twice, 1 (2) delays, 2 (3) when both connect or ask.",
 observe=["callbacks fired on both sides"], assumptions=[SOCK, SCHED, TIME, STD])

prop("C28", "Native messages are passed through unchanged",
 "With the native-message callback as the only one declared, every non-empty frame is given to it unchanged, no handshake is required or sent, and what is written natively is exactly the body; when other events are declared too, exactly the frames that are not well-formed messages are native. Without it no frame is treated as native.",
 ["inputs", "configurations"], "every payload within the bound, text and binary, all handler configurations, both roles",
 "Any byte sequence may be sent by a raw websocket client.",
 ["conn.go", "message.go"], [("native-only mode", "conn.go newConn/handleMessage"), ("classification", "message.go deserializeInput")],
 "payloads of up to 6 (8) symbolic bytes, sequences of 2 frames, 3 handler configurations, both roles.",
 observe=["callbacks fired, frames written"], assumptions=[SOCK, STD])

prop("C29", "The transport adapters carry whole messages",
 "Through either adapter (gobwas or gorilla), on either side, what is written is read by the other side as exactly one message of the same type and bytes (which later ones do not change), whatever its size and however the stream is segmented or fragmented, from the first byte after the handshake on. Control frames are never delivered as messages, and a ping is answered with its pong; a close, a loss or a message cut short is an error. Concurrent writers, and the answers to pings, never mix their frames. A read during which nothing arrives, and a write that cannot proceed, fail after their own timeout.",
 ["inputs", "schedules", "fault_sequences"], "every body, type, mask, fragmentation, control frame, cut and segmentation within the bound, in both adapters and roles, and every interleaving of writers within the delay bound",
 "Bytes and interleavings on the wire: the tests exchange a few fixed messages over loopback.",
 ["gobwas/socket.go", "gobwas/dialer.go", "gobwas/upgrader.go", "gorilla/socket.go", "gorilla/dialer.go", "gorilla/upgrader.go"], [("write lock", "gobwas/socket.go write, gorilla/socket.go write"), ("frame filter", "ReadData"), ("bytes that come with the handshake", "gobwas/dialer.go Dialer")],
 "two messages each way of up to 2 (3) symbolic bytes, all four pairs of adapters and both directions, any client mask; texts of up to 1 symbolic ASCII character and 4 wide ones; bodies of 124-127, 4095-4097 (65535, 65536) bytes with 3 symbolic ones; sequences of 2 (3) messages (whole or in two parts, a ping between), pings, pongs and closes; a stream of two messages cut at every byte; 0 to all bytes of two messages arriving with the handshake; 2 writers and a ping with up to 2 (3) delays; reads of 1, 3 or all available bytes. The net.Conn is an in-memory one; TLS, compression and invalid UTF-8 are out of scope. The adapters are driven through their Upgrader and Dialer, and the libraries' own handshake, framing and masking code is executed symbolically from its source.",
 observe=["Socket.ReadData/WriteText/WriteBinary, bytes on the connection"], assumptions=[SCHED, TIME, STD], instrument=["gobwas", "gorilla"])

prop("C30", "Closing the server ends everything",
 "After the server is closed every connection is closed, with its clean-up events, and new ones are refused, also those being upgraded at that moment; closing again does nothing, and closing a server at any moment after its creation works.",
 ["schedules", "histories"], "every interleaving, within the delay bound, of close with start, upgrade, messages and other closes",
 "An upgrade that overlaps the close needs a particular schedule.",
 ["server.go"], [("closed flag checked around registration", "server.go Upgrade/Close")],
 "0-2 (3) open connections, one upgrade in progress, two closers, messages, up to 2 (3) delays (1 (2) for an upgrade beside two closers).",
 observe=["state of connections, result of Upgrade, registry"], assumptions=[SOCK, SCHED, TIME, STD])

prop("C31", "Redis and NATS exchanges route messages to the right connections",
 "With the Redis or the NATS exchange a broadcast of any server reaches, once and in the order of its namespace's messages, exactly the connections of every server that are connected to its namespace (and in its room), one addressed to a connection that one only, and one to the others not its sender; whatever the namespaces are called. A question returns the first answer (or its error), or its context's error, whatever else arrives, and is asked only of whom it is addressed to. A connection that ended, at any moment, is forgotten: its connections to the broker are closed. A client that is slow, or ends, stalls nobody else.",
 ["histories", "schedules", "inputs"], "every history of connects, joins, broadcasts, questions and ends of connections of two servers within the bounds, every name, and every interleaving within the delay bound",
 "There are no tests of it: it needs a broker.",
 ["stackexchange/redis/stackexchange_redis.go", "stackexchange/nats/stackexchange_nats.go", "server.go", "conn.go"], [("channel names and subscriptions", "stackexchange/redis getChannel, run; stackexchange/nats getSubject, run"), ("a reader per connection", "stackexchange/redis OnConnect, stackexchange/nats makeMsgHandler"), ("a subscription per question", "Ask, NotifyAsk")],
 "two servers with 3 connections, 2 (3) connects, disconnects, joins, leaves or ends and a broadcast of 3 kinds; names of up to 3 symbolic bytes against one of 2 (3), the empty name included (NATS: without the characters subjects reserve); any body of 3 (6) bytes, event and room of 1 (2) bytes; two servers of the same and of different prefixes; a question to two connections with any answers, with 1 (2) delays; a message to a connection just accepted, with 2 delays; a connection ending while it is accepted, connects or gets messages, with 1 (2) delays; a blocked client; no broker. The client libraries are stand-ins (/verif/standin) with a broker in memory: for radix its own publish/subscribe code over a Redis server's publish/subscribe commands, for nats.go its documented behaviour (buffered until flushed, a goroutine per subscription). Out of scope: connection IDs that equal a namespace's name, loss of the broker's connection, clusters, binary messages (their type is not carried).",
 harness="c31", instrument=["stackexchange/redis", "stackexchange/nats"], standin=["github.com/mediocregopher/radix/v3=radix", "github.com/nats-io/nats.go=nats"],
 observe=["frames written, results of Ask and Publish, connections to the broker"], assumptions=["the broker and the client libraries do what the stand-ins in /verif/standin do", SOCK, SCHED, TIME, STD])

prop("C32", "A struct's methods become its events",
 "Every exported method of a handler struct with a callback's signature serves exactly the event named after it (or the one its matcher gives), the seven system events by their names, and no other method serves any; errors are sent back as from any callback. The namespace is the one set, else that of the Namespace method, else of the Namespace field. In a struct with a connection field every namespace connect gets its own instance, with that connection and the given exported fields, whatever their types and values, and only that instance serves it; the given value itself is never changed. What cannot be a handler is refused when the Struct is made.",
 ["inputs", "histories", "schedules"], "every event name, matcher, field value and history of connects, messages and disconnects of several connections within the bounds",
 "One struct with one connection and one field is tested.",
 ["reflect.go", "conn_handler.go", "conn_namespace.go"], [("method discovery by reflection", "reflect.go makeEventsFromStruct, makeEventFromMethod"), ("instance of a connection", "reflect.go makeEventsFromStruct, NSConn.value"), ("static fields", "reflect.go getNonZeroFields, isZero")],
 "seven struct types (with and without a connection field, embedded or named, fields of 17 types, unexported fields and methods, methods of other signatures, the namespace by field, embedded field, method or none), four matchers, any event name up to 3 (4) bytes, any field values, 4 (5) connects, messages and disconnects of 2 connections x 2 namespaces, two connections at once with 1 (2) delays. Types are part of the program: the shapes are those of the harness. Package reflect itself is executed by the checker on its own values.",
 harness="c32", observe=["calls of the struct's methods, their receivers and connections", "frames written"], assumptions=[SOCK, SCHED, TIME, STD, "package reflect does what its documentation says (the checker has its own implementation; a counterexample is replayed with the real one)"])

prop("C33", "WaitConnect returns as soon as the namespace is connected",
 "WaitConnect returns the connected namespace within one poll interval of the connection being acknowledged and the namespace connected by the other side, and returns its context's error when that ends first.",
 ["schedules", "histories"], "every moment at which the other side connects or the context ends, and every interleaving within the delay bound",
 "The result depends on which of several events comes first.",
 ["conn.go", "client.go"], [("poll loop", "conn.go WaitConnect")],
 "the other side connects at any multiple of 5 ms up to 45 (95) ms, the context ends by cancellation or deadline at any 5k+1 ms up to 46 (96) ms, or never, both roles; the acknowledgement racing with up to 2 (3) delays.",
 observe=["return of WaitConnect, its value, error and virtual time"], assumptions=[SOCK, SCHED, TIME, STD])

prop("C34", "Concurrent use is free of data races",
 "When users call operations of one connection, namespace, room, server or client from several goroutines, together with whatever the other side sends and with the library's own goroutines, every two accesses of one memory location by the library, at least one of which is a write, are ordered by synchronisation (Go's happens-before). This includes the buffers it hands to a Socket. The two methods documented as not thread safe (Server.GetConnections and GetConnectionsByNamespace) are excepted, and so are exported fields set while the server serves.",
 ["schedules", "histories"], "every pair of operations, both orders, both roles, and every interleaving within the delay bound",
 "A race that loses in a test run leaves no trace; which pairs of operations meet, and in which order, is chosen by the scheduler.",
 ["conn.go", "conn_namespace.go", "conn_room.go", "server.go", "client.go", "process.go", "waiter_once.go", "message.go", "gobwas/socket.go", "gorilla/socket.go"],
 [("locks", "conn.go, conn_namespace.go: the mutexes beside the maps they guard"), ("server loop", "server.go start"), ("waiters", "process.go, waiter_once.go")],
 "any two of 37 operations at once (16 of a user of the connection, 9 the other side sends, 6 of the server or client, 6 reads) in either order, both roles, 0 (1) delays; any two of 12 operations from OnConnect and beside it while a connection starts or is refused, 1 (2) delays; on the sockets of both adapters, being read, any two of: a text write, a binary write, a ping, a message, the close, with and without timeouts, 1 (2) delays. Happens-before clocks are kept for go statements, channels, locks, conditions, wait groups, atomics and timers along every explored path.",
 harness="c34", extra=["c29"], instrument=["gobwas", "gorilla"], observe=["memory accesses of the library's code, and of standard library code on its behalf"], assumptions=["a counterexample is confirmed by running the same operations, compiled without inserted points, under Go's race detector", SOCK, SCHED, TIME, STD])

prop("C35", "Objects are encoded by themselves or the default encoding",
 "The body Marshal returns is exactly what the value's own Marshal method, if it has one of the documented signature, or else DefaultMarshaler returns, or the text of its error. Unmarshal hands the message's body, unchanged, to the target's own Unmarshal method, or else to DefaultUnmarshaler, and returns its error; nothing else is called. So an object sent with its own encoding, as text or binary, is an equal object in the other side's callback and in the answer, whatever its bytes. Marshal(nil) and Unmarshal(nil) panic.",
 ["inputs"], "every content of objects and bodies within the bounds",
 "Nothing tests it.",
 ["message.go"], [("own encoding or the default", "message.go Marshal, Unmarshal")],
 "objects of up to 2 (4) symbolic bytes of types with both, one or none of the methods, or methods of other signatures; failing and succeeding encodings; an object sent and answered between a client and a server. The standard library's JSON is not executed: the defaults are replaced, as the package allows.",
 observe=["Marshal, Message.Unmarshal, calls of the object's methods"], assumptions=[SOCK, STD])

def main():
    checks, man, lines, na = {}, [], [], []
    for p in P:
        built = os.path.isdir(os.path.join(V, "harness", p["harness"])) and p["na"] is None
        lines.append(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["qtext"]),
            why_tests_cant=p["why"], anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]], observe_at=p["observe"], hook_needed=None))))
        if not built:
            na.append(dict(property=p["id"], reason=p["na"] or "no check built yet"))
            continue
        c = dict(harness=p["harness"], bounds=p["bounds"], assumptions=p["assumptions"], quick=dict(Seconds=p["quick"]), thorough=dict(Seconds=p["thorough"]))
        if p["instrument"]: c["instrument"] = p["instrument"]
        if p["standin"]: c["standin"] = p["standin"]
        if p["extra"]: c["extra_packages"] = p["extra"]
        checks[p["id"]] = c
        man.append(dict(property=p["id"], quick_cmd="./check.sh %s quick" % p["id"], thorough_cmd="./check.sh %s thorough" % p["id"],
            evidence_file="evidence/%s.json" % p["id"], technique="solver-based symbolic execution of the Go SSA of /repo (z3), counterexamples replayed natively",
            level="model_checking",
            level_note="Holds for every input and schedule within the bounds: " + p["bounds"] + " Trusted: the engine's semantics of Go SSA, goroutines and sync (checked by native re-runs of sample paths), z3, and: " + "; ".join(p["assumptions"]) + "."))
    open(os.path.join(V, "properties.jsonl"), "w").write("\n".join(lines) + "\n")
    json.dump(checks, open(os.path.join(V, "checks.json"), "w"), indent=1); open(os.path.join(V, "checks.json"), "a").write("\n")
    m = dict(version=1, setup_cmd="./check.sh build", checks=man, not_applicable=na,
        notes="No hooks in /repo: delay points are inserted into a copy of the sources laid over the build (go build -overlay) at check time. /repo's own commits are fixes of defects the checks found (known_findings.txt).")
    json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1); open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
main()

def design():
    import re, glob
    out = []
    for p in P:
        d = os.path.join(V, "harness", p["harness"])
        if p["na"] or not os.path.isdir(d): continue
        out.append("### %s %s\n\n%s\n" % (p["id"], p["title"], p["statement"]))
        out.append("Entries of harness/%s (each executed symbolically; the oracle is what the entry computes from its own choices):\n" % p["harness"])
        for f in sorted(glob.glob(d + "/*.go")):
            for m in re.finditer(r"((?://[^\n]*\n)+)func (Check\w+)\(", open(f).read()):
                t = " ".join(l.lstrip("/ ").strip() for l in m.group(1).splitlines())
                t = re.sub(r"^%s:?\s*" % m.group(2), "", t)
                out.append("* `%s`: %s" % (m.group(2), t))
        out.append("\nBounds: %s\nBudget: quick %d s, thorough %d s of exploration. Why tests cannot: %s\n" % (p["bounds"], p["quick"], p["thorough"], p["why"]))
    seeds = ["| bug | property | needs | check |", "|---|---|---|---|"]
    res = {}
    rf = os.path.join(V, "tools", "seed_results.txt")
    if os.path.exists(rf):
        for l in open(rf):
            k, _, v = l.strip().partition(": ")
            if k: res[k] = v
    for f in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
        id = os.path.basename(os.path.dirname(f)); m = json.load(open(f))
        seeds.append("| %s | %s | %s | %s |" % (id, m["property"], m["needs"], res.get(id, "")))
    s = open(os.path.join(V, "tools", "DESIGN.in.md")).read()
    open(os.path.join(V, "DESIGN.md"), "w").write(s.replace("@@PROPS@@", "\n".join(out)).replace("@@SEEDS@@", "\n".join(seeds)))
design()
