#!/usr/bin/env python3
"""Writes properties.jsonl (single source for the property list)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = list(observe)
    a["hook_needed"] = hook
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why, anchors=a))

# ---------------------------------------------------------------- hub
p("H01", "A hub never assigns one port twice on a host",
  "A hub answers every registration it receives exactly once, on the connection the registration came from, with a port between 20001 and 49000 that is not on the hub's black list. It never assigns a port it has already assigned to an earlier registration from the same host address, also when registrations arrive concurrently. (When no port is left the hub may end, but gives no other answer.)",
  ["schedules","histories","configurations"], "every sequence and interleaving of registrations from any number of connections and hosts, every black list",
  "The tests register at most three docks on one (mock) host with an empty black list and never look at the ports.",
  ["hub.go"], [("per-host port counter under a lock", "hub.go:allocate"), ("registration handler", "hub.go:OnPacket/cRegisterRequest")],
  [("assigned ports", "last port given out per host address", "hub.go:assignPorts"), ("black list", "ports never to be given out", "hub.go:blackPorts")],
  ["registration request/response on the hub connection"])
p("H02", "Discovery answers only with docks that registered the feature and are ready",
  "A hub answers a discovery query for a feature only with the address (the host the dock connected from plus the port the hub assigned to it) of a dock that registered that feature and has announced itself ready for it. While there is no such dock connected the query gets no answer.",
  ["schedules","histories"], "every interleaving of connections, registrations, readiness announcements and queries",
  "The tests see discovery only through a call that succeeds; an answer naming an unready or wrong dock would usually still work there because every dock is on one host and becomes ready at once.",
  ["hub.go"], [("ready flag checked before answering", "hub.go:OnPacket/cQueryRequest"), ("ready flag set only for the announcing peer", "hub.go:OnPacket/cReady")],
  [("provider list", "registrations per feature, in order, with address, connection and ready flag", "hub.go:docks")],
  ["query request/response on the hub connection"])
p("H03", "Discovery prefers the most recently registered ready provider",
  "A discovery query is never answered with one registration of the feature if a more recent registration of it was already ready when the query reached the hub, and has stayed connected.",
  ["schedules","histories"], "every order of registrations, readiness announcements and queries with several providers of one feature",
  "No test has two providers of the same feature.",
  ["hub.go"], [("provider list scanned from newest to oldest", "hub.go:OnPacket/cQueryRequest"), ("registrations appended at the back", "hub.go:OnPacket/cRegisterRequest")],
  [("provider list", "registrations per feature in order", "hub.go:docks")], ["query response"])
p("H04", "Every discovery query is answered exactly once, as soon as a provider is ready",
  "Every discovery query for which some provider of the feature is ready, or becomes ready later, is answered exactly once, on the connection that asked. This holds whether query or readiness comes first, and however many other queries are pending or already answered.",
  ["schedules","histories"], "every order of queries and readiness announcements over any number of connections and features",
  "The tests only run until one call has succeeded; a lost, duplicated or misdirected answer for another query is not looked for.",
  ["hub.go"], [("waiting loop per query", "hub.go:OnPacket/cQueryRequest"), ("answer sent to the asking peer", "hub.go:respondQueryImme")],
  [("pending queries", "one waiting routine per unanswered query", "hub.go:OnPacket")], ["query response"])
p("H05", "Docks that have left are no longer handed out",
  "Once a dock's connection to the hub has been closed, no query the hub gets afterwards is answered with that dock's address; the other providers of its features are handed out as before, and the dock can come back under a new registration.",
  ["schedules","histories"], "every order of registrations, readiness announcements, departures and queries, several providers of one feature",
  "No test lets a dock leave while the hub goes on.",
  ["hub.go"], [("registrations of a closed connection dropped", "hub.go:OnClosed"), ("provider scan", "hub.go:provider")],
  [("provider list", "registrations per feature, with their connection", "hub.go:docks")], ["query response"])
# ---------------------------------------------------------------- dock
p("D01", "A dock announces itself ready only once it can be reached",
  "After connecting, a dock registers with its hub exactly once; it announces itself ready to the hub exactly once for the port it was assigned, and never before the assignment. By the time the announcement can be seen, the dock accepts connections on that port.",
  ["schedules","histories"], "every scheduling of the dock's routines and every delay of the hub's answers",
  "The tests' mock network retries a connection for a second, so announcing before listening goes unnoticed.",
  ["dock.go","network/socket.go"], [("listen before the readiness message is sent", "dock.go:OnPacket/cRegisterResponse"), ("registration on connect", "dock.go:OnConnected")],
  (), ["messages on the hub connection", "connecting to the assigned port"])
p("D02", "A dock announces exactly its discoverable features",
  "Every registration and every readiness announcement a dock sends, to the hub or to another dock, names exactly the features it carries as discoverable, each once. A feature carried as not discoverable is named in none of them, and can still be called from inside its dock.",
  ["configurations","histories"], "every set of carried features with every choice of discoverability, on every connection",
  "Every feature in the tests is discoverable.",
  ["dock.go","slot.go"], [("collecting only discoverable features", "dock.go:collect"), ("local lookup of every carried feature", "dock.go:call, callWithResult")],
  [("carried features", "features by id with the discoverable flag", "dock.go:slots")], ["registration and readiness messages"])
p("D03", "Feature start and destroy callbacks run exactly once, in order",
  "Every feature a dock carries is started exactly once, and not before the hub has assigned the dock's port and the dock is listening on it. When everything is closed every carried feature is told to destroy itself exactly once; closing again does nothing more.",
  ["schedules","histories","configurations"], "every set of features, every delay of the hub's answer, every moment of closing after the docks have started",
  "The tests count a few callbacks of features that do nothing in them, and never check destruction.",
  ["dock.go","runtime.go"], [("start after registration response", "dock.go:OnPacket/cRegisterResponse, start"), ("destroy on close", "dock.go:Close, runtime.go:destroy")],
  (), ["OnStart and OnDestroy of the features"])
p("D04", "Connections and queries follow feature dependency only",
  "A call to a feature that the caller's own dock carries is executed inside that dock and causes no network traffic. A dock queries its hub only for features it does not carry and that one of its features has called, and it opens connections only to its hub and to addresses the hub gave it in answers.",
  ["histories","configurations"], "every distribution of features over docks and every sequence of calls",
  "The tests never look at the traffic, so calling a local feature through the network or connecting without need would pass.",
  ["dock.go"], [("local lookup before a remote call", "dock.go:call, callWithResult"), ("query only from the commit of a waiting call", "dock.go:commit")],
  (), ["messages and connections of a dock"])
p("D05", "Both docks of a connection register and acknowledge each other",
  "On every connection between two docks each side sends its own registration once, and answers every registration it receives with exactly one readiness announcement on that connection.",
  ["schedules","histories"], "every order in which the messages of the two sides are delivered, on incoming and outgoing connections, for any number of connections",
  "The tests only see that one call got through.",
  ["dock.go"], [("registration on connect", "dock.go:OnConnected"), ("readiness in answer to registration", "dock.go:OnPacket/cRegisterRequest")],
  (), ["messages on dock-to-dock connections"])
p("D06", "A dock that is gone is not called again",
  "When a connection to another dock closes, every call sent over it and not answered returns an error, and later calls to the features of that dock go to another dock the hub names on a new query, not to the lost one. Calls and connections that have nothing to do with the lost dock are not affected.",
  ["schedules","histories","fault_sequences"], "every moment of losing a connection relative to calls, their requests and responses; any number of outstanding calls; several providers",
  "No test lets a dock leave while others go on.",
  ["dock.go"], [("provider cache cleared and calls failed on close", "dock.go:OnClosed"), ("receiver of a call remembered", "rpc.go:rpc.peer, dock.go:commit")],
  [("known providers", "connection per remote feature", "dock.go:remoteSlots")], ["errors of calls, queries and requests on the wire"])
# ---------------------------------------------------------------- rpc
p("R01", "A call is executed at most once, and exactly once if it succeeds",
  "Each call a feature makes runs the named method at most once in the whole system, on a dock that carries the named feature, with exactly that call's arguments. A call that returns without error ran it exactly once.",
  ["schedules","histories","configurations"], "every number of concurrent calls, local and remote, before and after the provider appears, every order of handshake messages, several providers",
  "The tests make one or two calls one after the other.",
  ["dock.go","rpc.go","chancall/callee.go"], [("request cleared when it has been sent", "dock.go:commit"), ("one local request per received request", "dock.go:OnPacket/cRpcRequest")],
  [("waiting calls", "calls not yet sent or not yet answered", "dock.go:rpcs"), ("known providers", "connection per remote feature", "dock.go:remoteSlots")],
  ["method executions at the providers", "requests on the wire"])
p("R02", "A call returns the outcome of its own execution",
  "A call returns the results and the error of its own execution and never those of another call, however many calls to the same or other features are outstanding and in whatever order their responses arrive.",
  ["schedules","histories"], "every number of concurrent calls from one or several features of a dock, every order of the responses",
  "The tests have one outstanding call at a time and only log the result.",
  ["rpc.go","dock.go"], [("unique call index", "rpc.go:newRpc"), ("lookup of the waiting call by index", "dock.go:OnPacket/cRpcResponse")],
  [("waiting calls", "calls by index", "dock.go:rpcs")], ["return values of calls", "requests and responses on the wire"])
p("R03", "Every call to an available feature completes",
  "Every call to a discoverable feature returns once some dock providing it is running and stays so, whether the call was made before or after that dock appeared, in whatever order the messages of the two docks are delivered, and however many calls wait for the same feature at the time.",
  ["schedules","histories"], "every order of call, query answer, registration and readiness messages, any number of waiting calls, any scheduling of the dock's routines",
  "The tests start everything together and make one call at a time; lost wake-ups, lost requests in a burst and crashes in rare interleavings are not reached.",
  ["dock.go","rpc.go","network/peer.go"], [("waiting calls retried on readiness", "dock.go:OnPacket/cReady"), ("query repeated while the provider is unknown", "dock.go:commit"), ("send queue", "network/peer.go:Send")],
  [("waiting calls", "calls not yet sent", "dock.go:rpcs")], ["return of calls", "requests on the wire"])
p("R04", "A dock answers each request it receives exactly once",
  "A dock answers every call request it receives for a feature it carries with exactly one response, on the connection the request came in on, with the request's identifier, feature and method and the outcome of running it (results only if the request asked for them).",
  ["schedules","histories"], "any number of concurrent requests over any number of connections, fast, slow and failing methods",
  "The tests send two requests in total and never look at a response message.",
  ["dock.go","chancall/callee.go"], [("response built from the request", "dock.go:OnPacket/cRpcRequest"), ("done flag", "chancall/callee.go:result, track")],
  (), ["response messages"])
p("R05", "Values cross docks unchanged",
  "Booleans, strings, integers of every width and floating point numbers passed as arguments reach the called method with the same values in the same order, and its results reach the caller with the same values in the same order, whether the called feature is in the caller's dock or in another one (a number may arrive in another numeric width).",
  ["inputs","configurations"], "all values of the basic types including the extremes of each width, zero, negative zero, infinities, empty and long strings; any number of arguments and results; local and remote",
  "The tests pass one string and the integers 1 and 2, and only log what comes back.",
  ["protocol.go","codec/encoder.go","codec/decoder.go","chancall/meta.go","serializer.go"], [("request and response marshalling", "protocol.go"), ("value codec", "codec"), ("conversion to parameter types", "chancall/meta.go:call")],
  (), ["arguments seen by methods, results seen by callers"])
p("R06", "Failed calls report an error, successful ones do not",
  "A call that exceeds its time limit, names a method the feature does not have, or passes the wrong number of arguments or one that cannot be converted to its parameter's type, or whose arguments or results cannot be sent to the other dock, returns an error to its caller, from inside the dock as well as from another dock, and the dock goes on serving calls. Any other call, whose method finishes within its time limit, returns no error.",
  ["inputs","histories"], "every method name, argument list and duration, local and remote, with and without results, followed by further calls",
  "The only failing call in the tests is one local time-out without results.",
  ["chancall/callee.go","chancall/meta.go","dock.go"], [("time-out watchdog", "chancall/callee.go:track"), ("error text in the response", "dock.go:OnPacket/cRpcRequest, cRpcResponse")],
  (), ["errors returned by calls"])
# ---------------------------------------------------------------- chancall
p("C01", "A feature runs one method at a time, in the order of the calls",
  "The methods of one feature invoked through calls never overlap in time, whoever calls them, and calls run in the order in which they were made: a call made after another one was accepted runs after it.",
  ["schedules"], "any number of concurrent callers, methods of any duration, with and without time-outs",
  "The tests have a single caller.",
  ["chancall/callee.go","chancall/API.go"], [("one handling routine per callee", "chancall/callee.go:handling"), ("request queue", "chancall/API.go:NewCallee")],
  [("request queue", "requests waiting to be run", "chancall/callee.go:callRequest")], ["begin and end of method executions"])
p("C02", "Each local call gets exactly one reply, its own",
  "Every call made through a caller receives exactly one reply, the one to that call: a result that arrives after the call has timed out is discarded and never becomes the reply of a later call, and calls made concurrently through one caller do not get each other's replies.",
  ["schedules","histories"], "every order of method completion, time-out and later calls, on fresh, reused and shared callers",
  "The tests never call again after a time-out and never compare a reply with its call.",
  ["chancall/callee.go","chancall/caller.go"], [("done flag under the request's lock", "chancall/callee.go:result, track"), ("reply channel", "chancall/caller.go")],
  [("done", "whether the request has been replied to", "chancall/data.go:callRequest")], ["return values of calls"])
p("C03", "Time-outs fire at the configured duration, not earlier",
  "A call whose method runs shorter than the time limit of that method returns the method's results without error. One whose method runs longer returns an error when the limit, counted from the start of the method, has passed. The limit is the duration set for the method, fractions of a second included, or one second if none was set, and setting one method's limit does not change another's.",
  ["inputs","schedules"], "every limit and method duration, any sequence of settings, several methods and features",
  "The only time-out test waits two seconds against a limit of 0.1 s and accepts any error at any time.",
  ["chancall/callee.go","chancall/meta.go"], [("watchdog per request", "chancall/callee.go:track"), ("limit per method", "chancall/meta.go:timeout, setTimeout")],
  [("limit", "time limit per method", "chancall/meta.go:fcall.timeout")], ["time and value of returns in virtual time"])
p("C04", "A call runs exactly the named method with its arguments in order",
  "A call runs the exported method with exactly the given name on the object the callee was made for, passes every argument in its position, converted to the parameter's type without change of value if that can hold it, and returns every result in its position. Calling without asking for results runs the method just the same.",
  ["inputs","programs"], "objects with any methods, any arities and basic parameter and result types, value and pointer receivers, several callees at once",
  "The tests call three methods of one object and print the results.",
  ["chancall/meta.go","chancall/caller.go"], [("method table", "chancall/meta.go:collect"), ("invocation", "chancall/meta.go:call")],
  (), ["method executions and results"])
# ---------------------------------------------------------------- network
p("N01", "Packets are recovered exactly from any fragmentation of the stream",
  "Whatever pieces the byte stream of a connection arrives in, including pieces that end inside a length header, hold several packets, or are larger than any internal buffer, the receiver delivers exactly the packets that were sent, complete, unmodified and in order. The bytes a serializer is given for a packet are that packet's for good: they don't change when further packets arrive, also if the serializer keeps them.",
  ["inputs","schedules"], "every sequence of packets of any size and every way of cutting their bytes into pieces",
  "The network test sends one packet pair in one piece, and the others send packets of a few bytes over a mock network that preserves packet boundaries.",
  ["network/peer.go","serializer.go","network/txt_serializer.go","network/mock.go"], [("receive buffer and slicing loop", "network/peer.go:run"), ("length prefix", "serializer.go:Slice"), ("zero terminator", "network/txt_serializer.go:Slice")],
  [("receive buffer", "bytes received and not yet delivered", "network/peer.go:recvBuffer")], ["packets delivered to the sink"])
p("N02", "Sent packets arrive once, in order, without loss",
  "Packets sent to a connected peer arrive at the other end exactly once and in the order in which they were sent, in any number and as fast as the sender likes, as long as the connection stays open. Sending on a socket reaches every one of its connected peers. A packet that a serializer turns into no bytes at all doesn't keep others from arriving.",
  ["schedules","histories"], "any number of packets, bursts from one or many senders, slow receivers, several peers",
  "The tests send a handful of packets.",
  ["network/peer.go","network/socket.go"], [("send queue with one sending routine", "network/peer.go:Send, run"), ("broadcast", "network/socket.go:Send")],
  [("send queue", "packets waiting to be written", "network/peer.go:sendPackets")], ["packets delivered at the other end"])
p("N03", "Connection callbacks: connected first, closed once, nothing after",
  "For every connection the sink is told that it is connected exactly once, before any packet of it, and that it is closed exactly once when either side closes it; after that it gets no further packet (but one already being delivered). Only the dialing side sees the peer as its own, and each side sees the other side's address as the remote one.",
  ["schedules","histories"], "every order of connecting, sending and closing by either side, any number of connections, over TCP and the mock network",
  "The network test only counts two connects and two packets.",
  ["network/socket.go","network/peer.go","network/mock.go"], [("callback before the receive routine starts", "network/socket.go:Listen, Dial"), ("close callback", "network/peer.go:close")],
  (), ["callbacks of the sink"])
# ---------------------------------------------------------------- codec
p("K01", "Every supported value survives encoding and decoding",
  "Decoding the encoding of nil, a boolean, an integer of any width and sign, a floating point number, a string, or any array or map of such values (map keys being nil, booleans, numbers or strings, no two of them equal as numbers, and not NaN), however nested and whatever its element types, yields an equal value: same elements in the same order, same keys, same numbers (possibly in a narrower integer or wider floating point type of the same signedness).",
  ["inputs"], "all values of the supported types, all nestings, values written one after the other into one stream",
  "The tests round-trip one or two values per type.",
  ["codec/encoder.go","codec/decoder.go","codec/any.go"], [("encoder by type", "codec/encoder.go:encode, encodeValue"), ("decoder by code", "codec/decoder.go:decode")],
  (), ["decoded values"])
p("K02", "Malformed or truncated encodings are rejected, not misread",
  "Decoding a byte sequence that is not a complete valid encoding (truncated at any point, with an unknown code, an impossible element count, or a map key that cannot be a key) returns an error; it never crashes, and never yields a value made of bytes that were not there.",
  ["inputs"], "all byte sequences, in particular every truncation and single-byte change of valid encodings",
  "The tests decode only what they have just encoded.",
  ["codec/decoder.go"], [("error checks of the reader", "codec/decoder.go:readByte.., decode")],
  (), ["result of decoding"])
p("K03", "Encodings follow the documented format and any valid form is read",
  "The bytes of an encoding are those of the documented MessagePack subset: one type code, big-endian payload, 32-bit counts, integers in the smallest width that holds them (the lowest number of a signed width may be written one width wider). Conversely a value written in any of the format's integer widths is read back with that value, and a reader consumes exactly the bytes of one value.",
  ["inputs"], "all supported values, all integer widths on reading, values followed by further bytes",
  "The tests compare bytes only for nil; an encoder and decoder that change together still pass although docks of different builds no longer understand each other.",
  ["codec/code.go","codec/encoder.go","codec/decoder.go"], [("codes", "codec/code.go"), ("encoder", "codec/encoder.go"), ("decoder", "codec/decoder.go")],
  (), ["encoded bytes"])
p("K04", "Typed access returns the decoded value or an error",
  "On a decoded value, asking for a type of the same kind (signed integer, unsigned integer, floating point, boolean, string, array, map) that can hold it returns exactly that value, and asking for a type of another kind returns an error; it never crashes and never returns a different value for one that fits.",
  ["inputs"], "every decoded value against every typed accessor, also on an object reused for several decodes",
  "The tests call only the accessor that matches the value they wrote.",
  ["codec/any.go"], [("type tag", "codec/any.go:normalize"), ("accessors", "codec/any.go")],
  [("type tag", "type of the held value", "codec/any.go:any.tp")], ["accessor results"])
# ---------------------------------------------------------------- wire protocol
p("W01", "Protocol messages keep every field",
  "Every protocol message a hub or dock puts on the wire is one frame of a four-byte little-endian length, a message code and its fields in the documented order, from which an independent reader recovers every field unchanged, for any feature names, addresses, ports, identifiers, arguments and results; and every such frame sent to a hub or dock is understood with the same fields.",
  ["inputs"], "all messages a dock or hub can send or receive: empty and long feature lists, empty, long and non-ASCII names, extreme identifiers, any arguments, frames longer than 255 and 65535 bytes",
  "The tests let the code talk to itself with a few short messages.",
  ["protocol.go","serializer.go"], [("marshalling of each message", "protocol.go"), ("framing", "serializer.go:Marshal, Unmarshal, Slice")],
  (), ["bytes on the connections"])
# ---------------------------------------------------------------- proxies
p("G01", "Generated proxies forward every method faithfully",
  "For every interface whose methods use basic parameter and result types, named, grouped or unnamed, the generator writes a proxy that compiles, implements the interface, forwards each call with the interface's name, the method's name and all arguments in order, and returns the results in order as the declared types, also when they come from another dock; if the call fails it returns zero values.",
  ["programs","inputs"], "all interfaces over the basic types with any number of methods, parameters and results; all argument values; failing and succeeding calls",
  "The generator has no tests; one generated file is checked in.",
  ["tool/ferry.gen.go"], [("parsing of interfaces", "tool/ferry.gen.go:parseFile"), ("code template", "tool/ferry.gen.go:gencode, genProxyCode")],
  (), ["generated code, compiled and run"])
p("G02", "Visiting a feature yields the proxy registered for it, bound to the visitor",
  "Visiting a feature returns the proxy made by the maker registered last under exactly that name, bound to the slot that visits; visiting again from the same slot returns the same proxy, different slots get their own, and visiting a name nobody registered returns nothing. Visits may come from several routines at once.",
  ["histories","schedules"], "every sequence of registrations and visits over any names and slots, concurrent visits",
  "No test visits a feature.",
  ["registry.go","slot.go"], [("registry", "registry.go"), ("cache per slot", "slot.go:Visit")],
  [("registry", "maker per name", "registry.go:registry"), ("visited", "proxies per slot", "slot.go:visiters")], ["returned proxies"])
# ---------------------------------------------------------------- lifecycle
p("L01", "Closing releases every hub and dock of the process",
  "Closing shuts down every hub and dock started so far in the process, also if they were started at the same time as one another: their listening ports stop accepting, their connections are closed and seen as closed by the other ends, and hubs and docks can then be started again in the same process on the same addresses and work.",
  ["schedules","histories"], "any number of hubs and docks started in any order or concurrently, several start/close rounds, open connections and traffic at the time of closing",
  "The tests close mock listeners once each and look at nothing afterwards.",
  ["runtime.go","dock.go","hub.go","network/socket.go"], [("list of running instances", "runtime.go:wait, destroy"), ("closing of sockets", "dock.go:Close, hub.go:Close, network/socket.go:Close")],
  [("instances", "hubs and docks to close", "runtime.go:insts")], ["ports and connections after closing"])
p("L02", "Closing a dock ends its calls",
  "When a dock is closed, every call its features have made to features of other docks and that is not answered returns with an error, and so does every such call they make afterwards; none of them waits forever.",
  ["schedules","histories"], "any number of calls, connected or not, answered or not, made before, during and after closing, over several start/close rounds",
  "The tests close docks with no calls in progress.",
  ["dock.go","rpc.go","slot.go"], [("calls in progress fail", "dock.go:Close, failRpcs"), ("calls of a closed dock", "dock.go:rpc, rpcWithResult")],
  [("calls", "requests without response yet", "dock.go:rpcs")], ["returns of calls of closed docks"])
# ---------------------------------------------------------------- misc
p("M01", "A set holds each item once",
  "Adding an item reports true exactly if the item was not in the set, removing reports true exactly if it was, and listing the set yields each item that has been added and not removed since exactly once, for any history of operations and any comparable items.",
  ["histories"], "every sequence of add, remove and list operations over any items",
  "The tests run four operations.",
  ["misc/set.go"], [("map of items", "misc/set.go")],
  [("items", "current members", "misc/set.go:set.data")], ["results of operations"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P), "properties")
