A_I = "path-sensitive abstract interpretation (value-term dataflow, calls inlined) of the handler"
ASSUME = "Trusts the AST extractor, the models of Qt containers/strings, and that signals are delivered as connected (one thread); "

prop("T01", "Client data reaches exactly the server the client registered with",
     "Every chunk of data received from a registered client is forwarded unchanged, exactly once, as one encoded frame carrying that client's own tunnel address, to the server connection the client registered with. It is never forwarded anywhere else and never interpreted as a management request. Nothing is forwarded when the client has no live server.",
     ["inputs", "histories"], "all data chunks, all clients, all combinations of registered servers and clients",
     "tests tunnel a few payloads through one or two servers; a routing mix-up needs other combinations of connections",
     [TS], [("routing of client data", TS + ":onClientDataAvailable")], ["bytes sent on each transport connection"],
     A_I + " with a send-sink routing automaton",
     ASSUME + "the frame encoding itself is T03's subject")
prop("T02", "Server frames reach exactly the addressed client, in its own tunnel",
     "Each well-formed frame received from a registered server with framing enabled is delivered exactly once: frames for address 0 to the management interface on behalf of that server, frames for an address assigned by that server to the client owning the address, payload unchanged. Frames for unknown addresses are dropped without affecting the other frames of the same read. A server can never reach a client of another server.",
     ["inputs", "histories"], "all frame sequences and address values, all sets of connected servers and clients",
     "tests use one server and a few well-behaved addresses; isolation quantifies over all tables and addresses",
     [TS], [("demultiplexing loop", TS + ":onClientDataAvailable"), ("address lookup", L + "tunnelproxy/tunnelproxyserverconnection.cpp")],
     ["bytes sent on each transport connection"], A_I + " with a per-iteration routing automaton for the frame loop",
     ASSUME + "frame decoding is T03/T04's subject")
prop("T03", "The wire codec is lossless and rejects malformed frames",
     "For every 16 bit address and every byte string, building, SLIP-encoding, decoding and parsing a frame gives back exactly that address and payload. The encoded frame contains the END byte only as its terminator, escapes are those of RFC 1055, and the header is the big-endian address. Decoding data with an invalid or truncated escape sequence, and parsing data without a complete header, never yields a payload.",
     ["inputs"], "all byte strings of all lengths, all addresses",
     "tests encode a handful of frames; a wrong byte value or length is only hit by chance",
     [SLIP], [("encoder", SLIP + ":serializeData"), ("decoder", SLIP + ":deserializeData"), ("header", SLIP + ":buildFrame"), ("header", SLIP + ":parseFrame")],
     ["encoded and decoded bytes"],
     "finite transducer extraction from the codec loops by abstract interpretation, product with the RFC 1055 reference transducer over all 256 byte values; header terms compared for all 65536 addresses",
     "Trusts the AST extractor and the models of QByteArray/QDataStream. ")
prop("T04", "Frame reassembly does not depend on how the stream is chunked",
     "However the byte stream of a framed connection is cut into reads, exactly the frames it contains are delivered, once, in order and decoded, on the proxy server as well as in the server-side library. Bytes of an incomplete frame are kept for the next read, empty frames deliver nothing, and a malformed frame is dropped alone without affecting its neighbours.",
     ["inputs", "schedules"], "all byte streams and all ways of cutting them into reads",
     "tests send whole frames; partial, joined and malformed frames need particular segmentations",
     [L + "tunnelproxy/tunnelproxyclient.cpp", CL + "tunnelproxy/tunnelproxysocketserver.cpp"],
     [("server", L + "tunnelproxy/tunnelproxyclient.cpp:processData"), ("client library", CL + "tunnelproxy/tunnelproxysocketserver.cpp:onConnectionDataAvailable")],
     ["frames delivered"],
     "inductive check of the reassembly loop: every abstract iteration for each of the 256 byte values against the one-byte reference step (append / deliver / drop)",
     ASSUME)
prop("T05", "The client libraries deliver and send tunnel data unchanged",
     "In the server-side library every frame received after the registration reaches exactly the tunnel socket created for its address (address 0: only the management client; unknown addresses: nobody), payload unchanged, and everything received before is management data. Writing to a socket sends exactly one frame with the data and the announced address of that socket. The client-side connection hands received data to the application and sends its data unchanged once the tunnel exists, and refuses to send before.",
     ["inputs", "histories"], "all frames, addresses, socket tables and connection states",
     "tests use one or two sockets; mixing up sockets or states needs other tables",
     [CL + "tunnelproxy/tunnelproxysocketserver.cpp", CL + "tunnelproxy/tunnelproxysocket.cpp", CL + "tunnelproxy/tunnelproxyremoteconnection.cpp"],
     [("demultiplexing", CL + "tunnelproxy/tunnelproxysocketserver.cpp:onConnectionDataAvailable"), ("socket write", CL + "tunnelproxy/tunnelproxysocket.cpp:writeData"),
      ("client connection", CL + "tunnelproxy/tunnelproxyremoteconnection.cpp")],
     ["data signals and bytes sent by the libraries"], A_I + " with an output automaton per event",
     ASSUME + "the WebSocket transport carries text only, so it is not byte transparent (documented limitation)")
prop("T06", "The switch to tunnel data is exact wherever the network cuts the stream",
     "In both client libraries the management messages are taken out of the stream one by one, each as soon as it is complete whatever follows it, and everything received behind the successful response to the registration is handled as tunnel data, even if it arrives in the same read. Nothing of it is lost, taken for a management message or handled before the connection counts as ready. The beginning of a frame survives until the next read of the same connection, but never into another connection.",
     ["inputs", "schedules"], "all ways in which the network joins the response to the registration with the data behind it",
     "tests wait for the response before anything else is sent, so both never share a read",
     [CL + "proxyjsonrpcclient.cpp", CL + "tunnelproxy/tunnelproxysocketserver.cpp", CL + "tunnelproxy/tunnelproxyremoteconnection.cpp"],
     [("splitting", CL + "proxyjsonrpcclient.cpp:processData"), ("server library", CL + "tunnelproxy/tunnelproxysocketserver.cpp:onServerRegistrationFinished"),
      ("client library", CL + "tunnelproxy/tunnelproxyremoteconnection.cpp:onClientRegistrationFinished")],
     ["data signals of the libraries, management messages processed"], A_I + "; inductive check of the splitting loop with the buffer observed at every hand-over",
     ASSUME + "a proxy server sends compact JSON, in which no raw line break occurs")
prop("A01", "Tunnel addresses are unique per server and never reserved",
     "At any time no two clients of one server share a tunnel address, and no client is ever assigned the management address 0 or the invalid address 0xFFFF. The address under which the server reaches a client is the one the client's data is tagged with.",
     ["histories"], "all histories of registrations and departures, including more than 65534 registrations (counter wrap-around)",
     "needs tens of thousands of registrations with selected departures before the counter wraps",
     [L + "tunnelproxy/tunnelproxyserverconnection.cpp"], [("address allocation", L + "tunnelproxy/tunnelproxyserverconnection.cpp:getFreeAddress")],
     ["address table of a server connection", "announced addresses"],
     "dataflow on every write to the address table: the key must be provably unused, non-zero and not 0xFFFF on every path",
     ASSUME + "inductive: the table is only changed by the writes found")
prop("A02", "Refused registrations change nothing but close the requester",
     "A registration only succeeds for a known, not yet registered connection whose non-null uuid is used by no connected server or client, and, for clients, if the requested server is connected. Every other registration request is answered with an error, leaves the server and client tables, the addresses and the requester's identity untouched, notifies nobody and closes only the requesting connection after its answer.",
     ["inputs", "histories"], "all registration requests in all server states",
     "tests check a handful of error codes, not that each refused path is free of side effects in every state",
     [TS, L + "jsonrpc/tunnelproxyhandler.cpp"], [("registerServer", TS + ":registerServer"), ("registerClient", TS + ":registerClient"), ("request handlers", L + "jsonrpc/tunnelproxyhandler.cpp")],
     ["registration answer", "tables", "notifications"], A_I + ": precondition facts on success exits, heap equality on refusal exits", ASSUME + "uuid validity is QUuid::isNull")
prop("A03", "A successful registration is committed completely",
     "After a successful registration answer the connection carries the requested uuid and name and its new role, and is listed exactly under its uuid in the table of its role. A server's framing is enabled only after that answer; a client is entered under its address and uuid in the requested server's tables and tagged with that server and address.",
     ["inputs", "histories"], "all successful registrations in all server states",
     "tests observe the answer; a partially committed registration only shows in later traffic or departures",
     [TS], [("registerServer", TS + ":registerServer"), ("registerClient", TS + ":registerClient"), ("client table of a server", L + "tunnelproxy/tunnelproxyserverconnection.cpp:registerClientConnection")],
     ["tables after the answer"], A_I + ": required heap effects on every success exit", ASSUME + "object identity by allocation site")
prop("A04", "A connected client is announced exactly once, to its server, with its address",
     "Every successful client registration sends exactly one ClientConnected notification, to the requested server only, carrying the client's uuid, name, peer address and the tunnel address actually assigned. No other registration outcome announces anything.",
     ["inputs", "histories"], "all registrations in all server states",
     "tests compare one announcement of one client with one server",
     [TS], [("announcement", TS + ":registerClient")], ["notifications received by servers"],
     A_I + " with a notification automaton", ASSUME + "the notification's wire channel is J04's subject")
prop("D01", "A departing client is unregistered and its server is told once",
     "When a client's connection ends, for whatever reason, it disappears from every table, its tunnel address becomes free, and its server receives exactly one ClientDisconnected notification with that address. No other connection is closed and no other client or server is touched. Departures of unknown connections change nothing.",
     ["histories", "schedules"], "all orders of departures, all table states",
     "tests disconnect one client in one state; stale table entries only matter for later histories",
     [TS], [("departure", TS + ":onClientDisconnected")], ["tables", "notifications"],
     A_I + ": heap effect and notification automaton per exit", ASSUME + "deleteLater counts as release")
prop("D02", "A departing server takes exactly its own clients with it",
     "When a registered server's connection ends, its entry is removed and the connection of every client registered with it is closed and detached from it, so that none can send to the vanished server. No client or server other than those is closed.",
     ["histories", "schedules"], "all numbers of clients, all table states",
     "tests use one server with few clients; the guarantee is universal over its client list",
     [TS], [("departure", TS + ":onClientDisconnected")], ["closed connections"],
     A_I + " with universally quantified loop marks (every iteration closes and detaches its element)", ASSUME + "")
prop("D03", "A disconnect request closes exactly the addressed client of the requester",
     "A request to disconnect a tunnel address is only honoured for a registered server, and closes exactly the client that owns this exact address at that server. Any other request closes no client and is answered with an error; an unknown address does not cost the server its connection.",
     ["inputs", "histories"], "all requested numbers (also beyond 16 bit), all requesters",
     "tests request one existing and one unknown address from one server",
     [TS, L + "jsonrpc/tunnelproxyhandler.cpp"], [("disconnectClient", TS + ":disconnectClient")], ["closed connections", "answers"],
     A_I + " incl. integer narrowing of the requested address", ASSUME + "")
PJ = CL + "proxyjsonrpcclient.cpp"
SS = CL + "tunnelproxy/tunnelproxysocketserver.cpp"
RC = CL + "tunnelproxy/tunnelproxyremoteconnection.cpp"
prop("C01", "Each library request is answered by its own response, exactly once",
     "Every request of the client libraries is sent once, with a fresh id, its method and its arguments under their API names. A pending request completes exactly once, with the response that carries its id, which is stored before completion is signalled. Garbage, notifications and responses with unknown ids complete no request, and ClientConnected/ClientDisconnected notifications are reported once with the values they carry.",
     ["inputs", "histories"], "all sequences of requests, responses and notifications with arbitrary ids",
     "tests have one request in flight and a well-behaved server; mixing up replies needs id collisions and reordering",
     [PJ], [("requests", PJ + ":sendRequest"), ("reply matching", PJ + ":processDataPacket")], ["requests sent", "reply objects and signals"],
     A_I + " with request/pending-table/notification automata", ASSUME + "splitting the text stream into JSON packets is not covered")
prop("C02", "The client libraries are ready only after a successful registration",
     "A library connection says hello when connected, registers its own identity (uuid, name, requested server) only after hello succeeded, and becomes running/remote connected only by a successful registration answer. Every failure closes the connection instead. The running/remoteConnected value and its change signal always agree with the state.",
     ["inputs", "histories"], "all answers of the proxy server, all orders of socket and protocol events",
     "tests follow the good path and one or two error answers",
     [SS, RC], [("server side", SS + ":onServerRegistrationFinished"), ("client side", RC + ":onClientRegistrationFinished")],
     ["state, running and remoteConnected values and signals"], A_I + " of every entry point, with a state/signal automaton",
     ASSUME + "getters and signals are the observation; timing of the answers is not covered")
prop("C03", "A started tunnel server reconnects and keeps alive until it is stopped",
     "While enabled, losing the connection or failing to get one, even at once, starts the 5 s reconnect timer, which connects again to the same url whenever the server is disconnected. While running, the 30 s keep alive timer runs, is restarted by received data, and pings the proxy. Stopping disables first, cancels a scheduled reconnect and closes the connection, and a stopped server never schedules or starts a reconnect.",
     ["histories", "schedules"], "all orders of connection, stop, timer and data events",
     "tests do not wait for reconnects or pings in unusual orders",
     [SS], [("timers", SS + ":setupTimers"), ("state changes", SS + ":setState"), ("stop", SS + ":stopServer")],
     ["timer starts and stops", "connection attempts", "pings"], A_I + " of every entry point and timer slot, with a timer automaton",
     ASSUME + "QTimer fires as configured")
prop("C04", "Tunnel sockets follow the announcements of the proxy server",
     "An announced client gets exactly one new, connected socket, listed under its address, carrying the announced name, uuid and peer address, and reported once. A departure removes, disconnects and reports exactly the socket of its address, once; unknown departures change nothing; and a lost connection does so for every socket. Disconnecting a socket asks the proxy to disconnect its own address.",
     ["inputs", "histories"], "all announcements and departures, all socket tables",
     "tests use one or two sockets and do not lose the connection with several sockets open",
     [SS, CL + "tunnelproxy/tunnelproxysocket.cpp"], [("announced", SS + ":onTunnelProxyClientConnected"), ("departed", SS + ":onTunnelProxyClientDisconnected"), ("lost", SS + ":cleanUp")],
     ["clientConnected/clientDisconnected/disconnected signals", "socket table"], A_I + " with an inductive rule for the loop over the sockets",
     ASSUME + "deleteLater counts as release; reusing an address that is still listed is excluded by A01/D01")
prop("C05", "A replaced or lost library connection cannot affect its successor",
     "When the connection is lost or a new one is started, the old connection object is detached from its owner, it and its management client are released exactly once (deferred), and after a loss both are forgotten and the state is disconnected. Every new connection gets each of its signals connected exactly once, and before it is opened.",
     ["histories", "schedules"], "all orders of losses, reconnects and late signals of the old connection",
     "needs late signals of a replaced socket, which depend on event timing",
     [SS, RC], [("server side", SS + ":cleanUp"), ("client side", RC + ":cleanUp")], ["signals after a reconnect"],
     A_I + " with ownership/connection automaton", ASSUME + "QObject::disconnect stops all signals of the object to the receiver")
prop("C06", "The connections of the client libraries follow their socket",
     "Each transport connection of the client libraries reports every state change and error of its socket exactly once with its value, is connected only while its socket is (encrypted sockets: after the handshake), and reports each change of that exactly once. Connecting opens the socket once, to the host and port of the given url; disconnecting closes it in whatever state it is. A request to ignore TLS errors is passed on as it is: exactly the given errors, or all.",
     ["inputs", "schedules", "histories"], "all orders of socket states and errors, all calls in all states",
     "tests connect to a server that accepts, and disconnect when connected; failing attempts and half-open sockets depend on the network",
     [CL + "tcpsocketconnection.cpp", CL + "websocketconnection.cpp"], [("TCP", CL + "tcpsocketconnection.cpp:onStateChanged"), ("WebSocket", CL + "websocketconnection.cpp:onStateChanged")],
     ["signals of the connection", "socket state"], A_I + " over the slots connected to each socket signal", ASSUME + "the Qt sockets signal their state changes and errors")
prop("N03", "The client libraries never use a connection that is gone",
     "In no state, order of calls or callback do the library's connection classes dereference a connection or management client that does not exist (yet, or any more). This includes calls before connecting, after a loss, and processing more data after the application or the protocol closed the connection from within a callback.",
     ["histories", "schedules"], "all public calls and slots in all states, including reentrant closing",
     "tests do not call the library in the wrong state or from within callbacks",
     [SS, RC], [("server side", SS), ("client side", RC)], ["process (crash)"], A_I + " with nullness of the connection members (havocked by callbacks)",
     ASSUME + "signals of a connection and its replies only arrive while it exists (C05)")
JS = L + "server/jsonrpcserver.cpp"
TCF = L + "server/transportclient.cpp"
JTF = L + "jsonrpc/jsontypes.cpp"
prop("J01", "Every management request gets exactly one response, on its own connection",
     "Each JSON request packet is answered with exactly one response, sent to the connection it came from. The response carries the id of its request (-1 if the request has none), its status, and the result of the method or the reason of the error. A request answered later is answered once, to its requester with its id, and with an error if it timed out; nothing is sent for a requester that has gone.",
     ["inputs", "histories"], "all request packets, handlers and orders of late answers",
     "tests send some valid and invalid requests; lost, doubled or misattributed answers need particular paths",
     [JS, L + "jsonrpc/jsonhandler.cpp"], [("request processing", JS + ":processDataPacket"), ("late answers", JS + ":asyncReplyFinished")],
     ["responses on each transport connection"], A_I + " with a log automaton per exit",
     ASSUME + "splitting the byte stream into JSON packets is not covered")
prop("J02", "Only described methods are executed, and only with validated parameters",
     "A management request executes a method only if its namespace and method are described by a handler and its parameters match the description: all mandatory parameters present, none undeclared, every value convertible to its declared type. It is then executed once, before its answer, with exactly these parameters and on behalf of the requesting connection.",
     ["inputs"], "all JSON messages, all method descriptions and parameter maps",
     "tests try a few bad parameters; validation gaps depend on particular keys, nesting and types",
     [JS, JTF, L + "jsonrpc/jsonhandler.cpp"], [("invocation", JS + ":processDataPacket"), ("validation", JTF + ":validateMap"), ("validation", JTF + ":validateProperty")],
     ["method invocations", "answers to requests"], A_I + ": guard facts at the invocation; inductive rules for the validation loops and type cases",
     ASSUME + "QVariant::canConvert is the notion of a matching value; regular expressions are trusted")
prop("J03", "Protocol errors are answered and then close only the offender",
     "A packet that is no JSON, has no usable id, method, known namespace, known method or valid parameters executes nothing, is answered with an error and then closes its own connection, once. Valid requests never close a connection, except that the connection is closed after the response if the operation asked for that (or the answer timed out).",
     ["inputs", "histories"], "all request packets and outcomes of operations",
     "tests check that some errors close the connection, not that nothing else does, nor the order",
     [JS], [("request processing", JS + ":processDataPacket"), ("late answers", JS + ":asyncReplyFinished")],
     ["responses and closed connections"], A_I + " with a send/close order automaton",
     ASSUME + "refused operations asking for the close are A02's subject")
prop("J04", "Management messages use the channel the connection has negotiated",
     "Responses and notifications to a connection with framing are sent as one encoded frame with address 0, to any other connection raw, and always as one newline terminated line. Framing is enabled only by a successful request that asked for it and that does not close the connection, after its response has been sent, and is never disabled.",
     ["inputs", "histories"], "all messages, all connection states",
     "tests look at one registration; an error path writing raw into a framed stream corrupts tunnels only in that state",
     [JS, TCF], [("responses", JS + ":sendResponse"), ("errors", JS + ":sendErrorResponse"), ("notifications", JS + ":sendNotification"), ("framing state", TCF + ":setSlipEnabled")],
     ["bytes sent on each transport connection"], A_I + " with a channel automaton; effect analysis of the writers of the framing state",
     ASSUME + "frame encoding is T03's subject")
prop("J05", "Nothing is processed for a connection after it has been closed",
     "Once the server has decided to close a connection, no further request or frame of it is processed or forwarded, even if it arrived in the same read. Otherwise every received packet is processed once, in order, on behalf of its sender. Closing addresses exactly the connection's own socket, is remembered, and never undone; data of connections unknown to the management interface is ignored.",
     ["inputs", "schedules"], "all sequences of packets within one read, all outcomes of processing each",
     "needs several packets in one segment, one of which closes the connection",
     [TS, JS, TCF], [("request packets", JS + ":processData"), ("frames", TS + ":onClientDataAvailable"), ("closing", TCF + ":killConnection")],
     ["requests executed, bytes forwarded"], A_I + " with a kill typestate havocked by every processed packet",
     ASSUME)
prop("I01", "The described API is what server and client libraries implement",
     "Exactly the documented methods and notifications are described, with the documented parameters, results and types, under their namespaces, and all can be invoked. Each method reads only its described parameters, acts for its caller with them and answers exactly its described results (errors by name, Ping its timestamp); each notification carries exactly its described values. The client libraries send and read only what is described.",
     ["inputs"], "all requests, results and notifications",
     "tests cover some methods; a renamed key or shifted error name breaks other implementations silently",
     [L + "jsonrpc/tunnelproxyhandler.cpp", JS, L + "jsonrpc/jsontypes.h", PJ], [("descriptions and methods", L + "jsonrpc/tunnelproxyhandler.cpp"), ("Hello, Introspect", JS), ("error names", L + "jsonrpc/jsontypes.h"), ("requests", PJ)],
     ["introspection, responses and notifications"], "agreement check between constructor descriptions, method bodies, notification sites and client library (" + A_I + ")",
     ASSUME + "the reference API is the table in sa/rules_json.py taken from the released protocol")
prop("I02", "The handshake and the introspection tell the truth",
     "Hello answers with the software, version and API version of the build and the configured server name, a ping returns the timestamp it was sent with and Introspect lists all types and the methods and notifications of all handlers. The client libraries report exactly what the proxy answered.",
     ["inputs", "configurations"], "all requests, configurations and answers", "tests compare neither with the configuration nor with what other proxies answer",
     [JS, "libnymea-remoteproxy/jsonrpc/tunnelproxyhandler.cpp", CL + "tunnelproxy/"], [("hello", JS + ":Hello"), ("introspection", JS + ":Introspect"), ("client library", CL + "tunnelproxy/tunnelproxysocketserver.cpp:onHelloFinished")],
     ["contents of the answers", "getters of the client libraries"], A_I + " of the three handlers and of the handlers of the hello answer",
     ASSUME + "The descriptions themselves are I01's subject")
prop("J06", "Management messages survive any segmentation of the stream",
     "The unframed management stream is cut into messages only at a line break that ends one (in the client library), or at a line break between two objects or ending the received data (on the server): no byte is lost, repeated or reordered. A message that is complete is processed at once, an incomplete one is kept until the rest arrives.",
     ["inputs", "schedules"], "all message streams and all ways of cutting them into reads",
     "tests send one whole message per read", [L + "tunnelproxy/tunnelproxyclient.cpp", PJ],
     [("server", L + "tunnelproxy/tunnelproxyclient.cpp:processData"), ("client library", PJ + ":processData")],
     ["messages processed"], "inductive conservation rule on the splitting loop: symbolic slices (linear index arithmetic) of the buffer at the loop head and after each step",
     ASSUME + "messages are single JSON objects; known finding: the server also accepts an unterminated object at the end of the data")
TP = L + "server/tcpsocketserver.cpp"
WS = L + "server/websocketserver.cpp"
US = L + "server/unixsocketserver.cpp"
prop("X01", "Every transport delivers, reports and closes its own connections only",
     "Each transport writes data unchanged to the socket of the given connection id, closes exactly this socket when asked to, and reports received data unchanged under the id of its connection. A new connection is reported once, under a fresh id, before anything else of it; its end is reported once, after which it is forgotten and its socket deleted. Stopping a transport closes all its connections.",
     ["histories", "schedules"], "all ids, sockets, orders of socket events, for the TCP, WebSocket and unix transport",
     "tests open a few connections; mix-ups and leaks need concurrent connections or unusual event orders", [TP, WS, US],
     [("TCP", TP), ("WebSocket", WS), ("unix", US)], ["socket operations, transport signals, table of connections"],
     A_I + " of every transport method and of each handler connected to a socket", ASSUME + "the WebSocket transport carries text; QUuid::createUuid gives fresh ids")
prop("X02", "The transports of the client libraries carry data unchanged",
     "The TCP and the WebSocket transport of the client libraries write each piece of data to their socket exactly once and unchanged. Everything the socket receives is read completely and reported exactly once, unchanged, and nothing else consumes received data.",
     ["inputs", "schedules"], "all data and all segmentations of the received stream",
     "tests send short texts; truncation, conversion or withheld data need binary payloads or particular segmentations",
     [CL + "tcpsocketconnection.cpp", CL + "websocketconnection.cpp"], [("TCP", CL + "tcpsocketconnection.cpp"), ("WebSocket", CL + "websocketconnection.cpp")],
     ["socket writes, dataReceived signals"], A_I + " of sendData and of every handler connected to the socket",
     ASSUME + "the WebSocket transport carries text only (documented limitation)")
prop("S01", "With TLS enabled the server only talks to encrypted connections",
     "If TLS is enabled, the server uses the configured certificate for every connection, reports no connection and passes on no data before the encryption is established, and closes connections that do not complete the handshake within a minute. Errors of the handshake are never ignored, and the transports get the TLS settings of the configuration.",
     ["histories", "schedules"], "all connections, handshake outcomes and event orders",
     "tests use one cooperative TLS client", [TP, WS, L + "engine.cpp"],
     [("TCP server", TP + ":incomingConnection"), ("WebSocket server", WS + ":startServer"), ("engine", L + "engine.cpp:start")],
     ["connections and data reported by the transports"], A_I + " of the socket handlers with an encryption typestate; effect query for ignored TLS errors",
     ASSUME + "Qt and OpenSSL implement TLS")
prop("S02", "The client libraries never connect unencrypted or unverified on their own",
     "The client libraries connect unencrypted only if the url asks for it (scheme tcp or ws), and are connected only once the encryption is established. They never switch off the verification of the server certificate themselves: errors are passed to the application, and are only ignored if it says so.",
     ["inputs", "histories"], "all urls, all orders of socket events",
     "tests use one url and ignore the self signed certificate", [CL + "tcpsocketconnection.cpp", CL + "websocketconnection.cpp", SS, RC],
     [("TCP", CL + "tcpsocketconnection.cpp"), ("WebSocket", CL + "websocketconnection.cpp")],
     ["connection attempts, connected state"], A_I + " of every entry point; effect query for TLS settings", ASSUME + "Qt verifies certificates by default")
TC_ = L + "tunnelproxy/tunnelproxyclient.cpp"
prop("K01", "Idle and dead connections are closed, registered clients never",
     "A new connection that does not register within the configured time is closed, and only a successful registration ends that timeout. A registered client is never closed for being silent. A registered server is closed after one minute without received data; any received data restarts that minute.",
     ["histories", "schedules"], "all histories of connections, registrations, refusals and data",
     "tests wait for a timeout once; refused registrations and keep alive traffic are not combined with it", [TC_, TS, TCF],
     [("timer", TC_ + ":TunnelProxyClient"), ("activation", TC_ + ":activateClient"), ("received data", TCF + ":addRxDataCount")],
     ["closed connections"], A_I + " with a timer automaton; call graph query for other users of the timer", ASSUME + "QTimer fires as configured")
prop("K02", "A connection cannot make the server buffer unlimited unframed data",
     "If more than 10 KiB of an incomplete management message are buffered for an unframed connection, this connection, and no other, is closed and nothing more of the received data is processed. Within the limit nothing is closed.",
     ["inputs"], "all unframed data streams",
     "tests send one oversized message", [JS, TCF], [("limit", JS + ":processData")], ["closed connections"],
     A_I + ": the path facts after buffering bound the buffer", ASSUME + "framed streams of registered servers are not limited by the implementation")
prop("K03", "Forwarding tunnel data never closes or changes a connection",
     "Forwarding data of a registered client or frames of a registered server closes no connection and changes no registration, whatever the data, the address or the state of the other side is. (Management messages in frames are subject to J03.)",
     ["inputs", "histories"], "all tunnel data in all server states",
     "tests forward ordinary data only", [TS], [("forwarding", TS + ":onClientDataAvailable")], ["closed connections, tables"],
     A_I + " with the registration state as a precondition; effect check on every exit", ASSUME)

SV = "server/"
prop("S03", "The configuration file decides what the server does",
     "After a successful load every setting has the value of its documented key, converted to its type, or its documented default when the key is absent, and every getter returns it. TLS is configured from exactly the configured certificate, key and chain; an unreadable file makes loading fail, a failed load installs no TLS configuration and TLS is never enabled without one. The server starts the engine only with a configuration that was loaded successfully or completely set up.",
     ["inputs"], "all configuration files, contents and combinations of absent keys and unreadable files",
     "tests build one configuration in code and load one file", [L + "proxyconfiguration.cpp", SV + "main.cpp"],
     [("loading", L + "proxyconfiguration.cpp:loadConfiguration"), ("start", SV + "main.cpp")], ["configuration values", "sockets opened"],
     A_I + " with a provenance analysis of every configuration field (section, key, conversion, default)", ASSUME + "parsing of the INI syntax is QSettings' business; certificates whose PEM text is invalid are not examined")
prop("S04", "The command line tools connect exactly as they are told",
     "The tunnel client opens exactly one connection: as a server, or as a client when asked, to the given valid URL with the given name and UUID (a fresh one only when none is given) and, as a client, to the given server UUID; contradictory or unusable options end it with an error before anything is opened. TLS errors are ignored only with the insecure option, random data is sent only with its option, and a server's echo goes back to the socket it came from. The monitor connects once to the given socket in the mode asked for and refuses the option that needs the other mode.",
     ["inputs", "histories"], "all combinations and values of the options of both tools and all states of the connections",
     "no test runs the tools", ["tunnelclient/main.cpp", "tunnelclient/serverconnection.cpp", "tunnelclient/clientconnection.cpp", "monitor/main.cpp"],
     [("tunnel client", "tunnelclient/main.cpp"), ("server connection", "tunnelclient/serverconnection.cpp"), ("client connection", "tunnelclient/clientconnection.cpp"), ("monitor", "monitor/main.cpp")],
     ["connections opened", "data sent", "exit status"],
     A_I + " of main() per option fact, with the connection objects and their slots run in the state main() leaves them", ASSUME + "splitting of the arguments is QCommandLineParser's business")
prop("L01", "Tunnel data never reaches the log under the shipped configuration",
     "What clients send through the server is private to the two ends of the tunnel: with the logging rules shipped with the server, no statement on the data path writes received or forwarded bytes, or text made from them, to the log. The client library shows such data only at debug level in its traffic categories. Nothing on the data path prints data past the logging categories.",
     ["inputs", "histories"], "all data and all paths from a socket's read to the other end's write, including the error paths",
     "no test looks at the log", [L + "server/", TS, "common/slipdataprocessor.cpp", "libnymea-remoteproxyclient/", "nymea-remoteproxy-logging.conf"],
     [("transports", L + "server/"), ("tunnel", TS), ("logging rules", "nymea-remoteproxy-logging.conf"), ("client library", "libnymea-remoteproxyclient/")],
     ["log"], "taint analysis from received and sent bytes to every log statement, decided against the shipped logging rules", ASSUME + "the management requests (JSON-RPC) are not tunnel data")
prop("E01", "Starting and stopping the engine leaves no object, socket or state behind",
     "start() creates every server, gives each transport its own configured address, registers it before the tunnel server starts and reports running; stop(), destroy() and destruction delete every server object exactly once, use none afterwards and keep no pointer to it, and a stopped engine reports not running exactly once. Transports are started and stopped together with the tunnel server, each registered and connected once. Sockets listen on the configured address and only a stale socket of the own name is removed.",
     ["histories"], "all sequences of start, stop, destroy and all outcomes of opening the sockets",
     "tests start and stop once with working sockets", [L + "engine.cpp", TS, L + "server/"],
     [("engine", L + "engine.cpp"), ("registration", TS + ":registerTransportInterface")], ["objects", "listening sockets", "running signal"],
     "ownership and typestate analysis over the abstract paths of the life cycle functions", ASSUME + "starting a running engine again with the identical configuration object is outside the interface")
prop("M01", "Monitors only observe and each request is answered to its sender",
     "A connection to the monitor socket is listed, served and released exactly once. Every refresh request is answered, once, to the connection that sent it, with one line of compact JSON containing the current data; anything else is refused. No request of a monitor changes the server or another monitor connection.",
     ["inputs", "histories"], "all monitor requests, all numbers of connected monitors",
     "tests request once from one monitor", [L + "server/monitorserver.cpp"], [("requests", L + "server/monitorserver.cpp"), ("data", L + "engine.cpp:buildMonitorData")],
     ["data written on monitor sockets"], A_I + " with an effect and answer automaton", ASSUME + "one read of the local socket is taken as one request")
prop("M02", "The statistics describe the actual connections and traffic",
     "The monitor data lists every server (or, without printAll, every server with clients) and under it exactly its clients, each with its own id, address, name, uuid, connection time and byte counters, and the totals equal the tables. Every byte received from or sent to a connection is counted once in its counters, every forwarded payload byte once in the throughput, and the throughput covers one second.",
     ["inputs", "histories"], "all server states and all traffic",
     "tests read the statistics of one tunnel", [TS, L + "server/transportclient.cpp", L + "engine.cpp"],
     [("rows", TS + ":currentStatistics"), ("counters", TS + ":onClientDataAvailable"), ("period", L + "engine.cpp:onTimerTick")], ["monitor data"],
     "provenance analysis of the generated rows per loop iteration and linear effect analysis of the counters", ASSUME)
prop("M03", "The monitor tool shows every update completely and truthfully",
     "However the answers of the server are cut into reads, the monitor handles each exactly once and complete. Each printed or painted row shows the values of its own connection, received and sent bytes are not exchanged and neither counters nor times are cut to a smaller type; all connections received are shown. JSON mode prints the data and ends with success; requests ask for all servers exactly when this was wanted.",
     ["inputs", "schedules"], "all monitor data and all segmentations of the stream",
     "no test covers the tool", ["monitor/monitorclient.cpp", "monitor/noninteractivemonitor.cpp", "monitor/terminalwindow.cpp", "monitor/utils.h"],
     [("splitting", "monitor/monitorclient.cpp:onReadyRead"), ("rows", "monitor/noninteractivemonitor.cpp"), ("rows", "monitor/terminalwindow.cpp:paintContentTunnelProxy")],
     ["output of the tool"], "inductive check of the splitting loop and provenance analysis of the printed rows", ASSUME + "layout and curses positions are not examined")
prop("N01", "No handler blocks the event loop",
     "No code of the server and of the client libraries waits for a peer, another process or a timer or runs a nested event loop, so a slow or silent peer never delays the others and no handler is entered while another one is halfway.",
     ["schedules"], "all functions of the server and of the libraries",
     "a blocking call is only noticed with a peer that is slow at the right moment", [L, CL, SV], [("all handlers", L), ("all handlers", CL)], ["calls to blocking library functions"],
     "effect analysis: every call site of the server and the libraries is resolved and compared with the blocking operations of Qt and libc", "Trusts the AST extractor; file access of the log and the configuration is not counted as blocking, nor is the termination of loops examined. ")
prop("N04", "Nothing is used that may not be there",
     "Whatever a peer sends and in whatever order connections come and go, no result of a lookup and no link between connections is used by the server or the client libraries before it is known to exist. No element is taken from a list, a string or received data unless it is known to be long enough.",
     ["inputs", "histories"], "all entry points of the server and of the client libraries, all table contents and messages",
     "a missing test only crashes for the one request, frame or order of departures that finds nothing", [L, CL, "common/"],
     [("lookups", L + "tunnelproxy/tunnelproxyserver.cpp"), ("messages", JS), ("frames", "common/slipdataprocessor.cpp")],
     ["process crash"], A_I + ": at every dereference the facts of the path must imply that the lookup succeeded, at every element access that the index is in range",
     ASSUME + "Tables of connections never store null pointers. The members of the engine are E01's subject, the connection objects of the client libraries N03's; lists of the API description have one template")
prop("N02", "Signals end the server cleanly and never corrupt its state",
     "SIGINT and SIGTERM reach the event loop, which destroys the engine and quits. The signal handlers themselves, which may interrupt the server at any instruction, call nothing but async-signal-safe functions.",
     ["schedules"], "all points at which a signal can interrupt the server", "tests send no signals and cannot place one at a chosen instruction",
     [SV + "remoteproxyserverapplication.cpp"], [("handlers", SV + "remoteproxyserverapplication.cpp")], ["functions called by the handler", "shutdown"],
     "effect analysis of everything reachable from the installed handlers; " + A_I + " for the shutdown", "Trusts the AST extractor and the list of async-signal-safe functions of POSIX. ")
