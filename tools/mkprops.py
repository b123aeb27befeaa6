#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run: python3 tools/mkprops.py)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            mechanism=[dict(name=n, where=w) for n, w in mech],
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            observe_at=list(observe), hook_needed=None)))

p("C01", "Every client call gets exactly one outcome, its own",
  "Every Invoke on a connected client yields exactly one outcome and then its channel closes: the value (or the error) that the server produced for that very call (nothing or an empty value for a method without a result), never an empty stand-in, never a second outcome and never another call's. The server method runs exactly once per Invoke or Send, with the arguments of that call, and Send's channel closes without reporting an error when the call was delivered and succeeded. This holds for any number of concurrent calls from any number of goroutines, in both protocols and also when the server completes them in any order.",
  ["schedules", "inputs", "histories"],
  "all sets of concurrent Invoke/Send calls, all completion orders, all interleavings of the sending, receiving and result goroutines, JSON and MessagePack",
  "The suite's client Invoke tests are left out as flaky; they sample one call at a time, while the mix-ups are races between the result and the error channel of concurrent calls.",
  ["client.go", "invokeclient.go", "Invokeresult.go", "loop.go"],
  [("id allocation and correlation table", "invokeclient.go newInvocation/receiveCompletionItem"), ("result/error merge", "Invokeresult.go newInvokeResultChan"), ("Invoke/Send", "client.go Invoke, Send")],
  [("pending invocations", "map from invocation id to result and error channels", "invokeclient.go resultChans")],
  ["Client.Invoke / Client.Send result channels", "hub method entry"])

p("C02", "The server answers every invocation exactly as the hub protocol says",
  "For every invocation that carries an id the server sends exactly one completion with that id, after all of that invocation's stream items: with the returned value(s) of the method, without a result for a method that returns nothing, or with an error for an unknown method, wrong argument count or type, or an unusable stream; a panicking method is reported by a completion with an error. An invocation without an id is executed but never answered. The method executed is the one whose name equals the target case-insensitively or the one the target is registered for as alternate name, it is executed exactly once, and no completion or stream item is ever sent for an id the peer did not use.",
  ["inputs", "histories", "schedules"],
  "all sequences and interleavings of invocations (plain and stream), all targets, argument lists and stream id lists a peer can send on one or more connections, in both protocols",
  "The tests check a handful of method shapes one at a time over one connection, each against an expected first answer; they do not look for surplus answers or answers to the wrong id.",
  ["loop.go", "hubconnection.go", "party.go"],
  [("dispatch", "loop.go handleInvocationMessage/getMethod"), ("result routing", "loop.go returnInvocationResult/sendResult"), ("argument building", "loop.go buildMethodArguments")],
  [], ["bytes the server writes to a Connection", "hub method entry"])

p("C03", "A stream result delivers exactly the items sent, in order, then ends",
  "A stream invocation of a method that returns a channel delivers exactly the values the method sends on that channel, each once and in the order sent, followed by the end of the stream and nothing after it. The channel returned by PullStream yields these values and then closes, or yields the server's error once and then closes. This holds for consumers that take each item within the channel receive timeout. Streams running at the same time on the same or on different connections never exchange, lose or reorder items.",
  ["schedules", "inputs", "histories"],
  "all numbers of concurrent streams, item counts and types, producer and consumer speeds, and interleavings, in both protocols",
  "The tests read one stream with a few ints and a fast consumer; loss and reordering need concurrent streams, slow consumers and unlucky schedules.",
  ["streamer.go", "streamclient.go", "loop.go", "client.go"],
  [("server side pump", "streamer.go Start"), ("client side demultiplexer", "streamclient.go receiveStreamItem/receiveCompletionItem"), ("PullStream", "client.go, loop.go PullStream")],
  [("open streams", "map from stream id to channel", "streamclient.go upstreamChannels")],
  ["channel returned by Client.PullStream", "stream items and completions on the wire"])

p("C04", "An upload stream reaches the method's channel parameter unaltered",
  "Each channel passed to PushStreams is delivered to the corresponding channel parameter of the method: exactly the items the caller sends, in order and unmixed with other streams, and the parameter is closed after the last item once the caller closes its channel. The method is called exactly once with its plain arguments and the call yields exactly one outcome, the value the method returned (or its error). This also holds when several uploads with several channels each run concurrently over one connection.",
  ["schedules", "inputs", "histories"],
  "all argument lists mixing plain values and channels of any element type, all item counts, interleavings of concurrent uploads, both protocols",
  "The tests push short int streams one upload at a time; item mix-up between parameters, lost tails and early closes need concurrency and other element types.",
  ["client.go", "loop.go", "streamclient.go", "streamer.go"],
  [("upload start", "loop.go PushStreams"), ("channel arguments", "streamclient.go buildChannelArgument"), ("item delivery", "streamclient.go receiveStreamItem")],
  [("open uploads", "map from stream id to channel", "streamclient.go upstreamChannels")],
  ["hub method channel parameter", "channel returned by Client.PushStreams"])

p("C05", "How the transport cuts the byte stream never changes the messages",
  "A server and a client process exactly the same sequence of messages, in the same order, no matter how the transport splits or joins the bytes: one byte at a time, several messages (or the handshake and messages) in one read, or any other cut. No message is lost, repeated, altered, delayed until further traffic arrives or merged with another one, in JSON as well as in MessagePack.",
  ["inputs", "schedules"],
  "all message sequences and all ways to partition their bytes into reads, including at the handshake boundary, on the server and on the client side, for both protocols",
  "The protocol tests feed a few hand-made frames to the parser; the partitions of a message sequence are exponentially many and the end-to-end tests use transports that keep message boundaries.",
  ["jsonhubprotocol.go", "messagepackhubprotocol.go", "hubconnection.go", "server.go", "client.go"],
  [("JSON framing", "jsonhubprotocol.go readJSONFrames/parseJSONFrames"), ("MessagePack framing", "messagepackhubprotocol.go readFrames"), ("read pump", "hubconnection.go Receive"), ("handshake read", "server.go receiveHandshakeRequest, client.go receiveHandshakeResponse")],
  [("left over bytes", "bytes read but not yet parsed", "remainBuf in hubconnection.go")],
  ["Connection.Read results versus hub/receiver calls and completions"])

p("C06", "Values keep their value across the wire",
  "An argument, result or stream item of a serializable type arrives at the other side equal to what was sent: integers of every size, floats, booleans, strings with any Unicode and control characters, byte slices, nested slices, maps and structs (by their JSON field names), nil and empty values. This holds in both protocols and in both directions (where no type is declared, as for the results a client receives, the value arrives in the protocol's generic form: JSON turns numbers into floats and byte slices into base64 text), and a value that does not fit the declared parameter type is answered with an error instead of being passed altered.",
  ["inputs"],
  "all values of the supported kinds (numbers at their limits, strings containing delimiters and escapes, deep nesting), both protocols, both directions",
  "The tests send small ints, short ASCII strings and one struct.",
  ["jsonhubprotocol.go", "messagepackhubprotocol.go", "loop.go"],
  [("encode", "WriteMessage of both protocols"), ("decode", "UnmarshalArgument of both protocols"), ("argument building", "loop.go buildMethodArguments")],
  [], ["hub method parameters", "InvokeResult values", "receiver method parameters"])

p("C07", "No bytes from a peer can crash the process or disturb other connections",
  "Whatever bytes a peer sends, before, during or after the handshake, valid or not, the process keeps running, and every other connection of the same server keeps working and receives nothing caused by those bytes. The offending connection either continues as if the bytes were a message it understands or is closed; it never stays in a state in which the server is busy or blocked forever after the peer is gone. A client facing a malformed server survives in the same way.",
  ["inputs", "fault_sequences"],
  "all byte strings: random, mutated valid traffic, structurally valid messages with wrong types, lengths, ids and counts, truncated at any point, both protocols, against server and client",
  "The tests send a few malformed messages; crashes sit behind unusual combinations such as stream ids on methods without channels or map keys no Go map can hold.",
  ["loop.go", "jsonhubprotocol.go", "messagepackhubprotocol.go", "streamclient.go", "hubconnection.go", "server.go", "client.go"],
  [("parse errors close the connection", "loop.go Run"), ("argument checks", "loop.go buildMethodArguments"), ("MessagePack decoding", "messagepackhubprotocol.go parseMessage/UnmarshalArgument")],
  [], ["process exit", "service of a bystander connection", "Serve returning"])

p("C08", "A panicking hub method harms only its own call",
  "When a hub or receiver method panics, the caller gets a completion whose error contains the panic's text, and the connection, all other calls on it and all other connections go on unaffected. The error contains a stack trace if and only if detailed errors are enabled. A panic in a call without id produces no message at all. A logger which fails or panics does no harm to any call or connection either.",
  ["inputs", "schedules"],
  "all panic values (strings, errors, runtime errors, custom values), plain, stream and upload invocations, concurrent with other traffic, both protocols",
  "The tests look at one panic in isolation and do not check that concurrent calls and later calls are unaffected.",
  ["loop.go"],
  [("recover", "loop.go recoverInvocationPanic"), ("detail switch", "options.go EnableDetailedErrors")],
  [], ["completions on the wire", "later calls on the same and on other connections"])

p("C09", "Addressed sends reach exactly the addressed connections, once",
  "A send to all, to the caller, to one connection or to a group calls the client method exactly once, with exactly the given arguments, on each connection that is connected (and, for a group, a member) for the whole time of the send, and never on a connection that was not connected or was not a member at any time during the send. Group membership changes only by explicitly adding or removing the connection or by its disconnect, and adding twice, removing twice, or naming unknown groups or connections has no other effect. This holds from hub methods and from server code outside of hubs, under concurrent sends, membership changes, connects and disconnects.",
  ["schedules", "histories", "configurations"],
  "all histories of connects, disconnects, group changes and sends from concurrent callers over any number of connections and groups",
  "The group and addressing tests use two or three clients and sequential steps; the single-client test is flaky and left out.",
  ["hublifetimemanager.go", "hubclients.go", "clientproxy.go", "hubcontext.go", "groupmanager.go"],
  [("connection table and groups", "hublifetimemanager.go"), ("proxies", "clientproxy.go, hubclients.go")],
  [("clients, groups", "connected clients; members per group", "hublifetimemanager.go")],
  ["client method invocations on every connection's wire"])

p("C10", "Connect and disconnect callbacks happen exactly once per connection",
  "For every connection whose handshake succeeded the hub's OnConnected runs exactly once and, when the connection ends for whatever reason (peer closes or resets, protocol error, timeout, abort by the hub, server shutdown), OnDisconnected runs exactly once with the same connection id. For a connection whose handshake failed neither runs. A connection that has ended receives no further sends, and one whose connect callback has run is reachable by them.",
  ["fault_sequences", "schedules", "histories"],
  "all ways and points in time a connection can end, in any number of concurrent connections, with any hub factory kind",
  "The tests end a connection in one or two ways at a quiet moment.",
  ["server.go", "loop.go", "hublifetimemanager.go"],
  [("callbacks", "server.go onConnected/onDisconnected"), ("loop end", "loop.go Run")],
  [], ["hub callbacks", "sends to ended connections"])

p("C11", "Hub state and context belong to the calling connection only",
  "Inside a hub method the connection id, caller proxy, context and item store are those of the connection that made the call: items stored on one connection are seen by all later calls of that connection and by no other, and sending to the caller reaches only it. The connection's context is cancelled when that connection ends and not before. With a per-connection hub factory exactly one hub instance serves all calls and both lifecycle callbacks of a connection, and no two connections share one.",
  ["schedules", "histories", "configurations"],
  "all interleavings of calls from any number of connections, for hub factories and per-connection hub factories",
  "The per-connection hub tests call the factory sequentially; two first calls racing with each other or with connect/disconnect are never produced.",
  ["server.go", "hubcontext.go", "hub.go"],
  [("hub creation", "server.go invocationTarget/newConnectionHubContext"), ("per-connection table", "server.go getConnectionHub/setConnectionHub/removeConnectionHub")],
  [("hub per connection", "map from connection id to hub", "server.go connectionHubs")],
  ["values observed inside hub methods", "factory calls"])

p("C12", "When the connection ends, every pending client call ends with an error",
  "When a client's connection is lost, closed by the server, stopped or cancelled, every call still pending (Invoke, Send, PullStream, PushStreams) ends within bounded time: its channel delivers an error and closes, and never just closes as if the call had succeeded nor delivers a made-up value. Calls started after the end of a client without reconnect report an error as well. A result that arrived before the end is still delivered. Ending pending calls does not busy-wait.",
  ["fault_sequences", "schedules", "crash_points"],
  "all points in the exchange (before, during and after sending, between partial frames) and all ways at which the connection can end, with any number of pending calls of each kind",
  "The tests cancel once, with at most one call pending and no race between sending and losing the connection.",
  ["client.go", "loop.go", "invokeclient.go", "Invokeresult.go", "streamclient.go"],
  [("cancel all invocations", "invokeclient.go cancelAllInvokes, loop.go Run"), ("result channel ends", "Invokeresult.go")],
  [("pending invocations", "map from invocation id to channels", "invokeclient.go resultChans")],
  ["channels returned by client calls"])

p("C13", "Client states are reported truthfully and waiting for them never hangs",
  "A started client without connector goes through connecting, at most once connected, and finally closed and stays there; state queries, WaitForState, observers and Stop return within bounded time whatever the connection does and even if an observer does not read its channel. WaitForState yields nil only when the client was in the requested state and otherwise an error: if the client is not started, has closed, or the given context is cancelled. When a client is in connected state, calls on it reach the server, and once it is closed its last error is available: the one which ended the connection (the error of the server's close message, say), and none after a close message without one.",
  ["schedules", "fault_sequences", "histories"],
  "all interleavings of start, stop, cancellation, connection loss, observation start and end, and waiting, from any number of goroutines",
  "The state tests run one transition with one observer.",
  ["client.go"],
  [("state changes", "client.go setState, ObserveStateChanged, cancelObserveStateChanged"), ("waiting", "client.go WaitForState, waitingIsOver"), ("run/stop", "client.go Start, run, Stop, shouldClientEnd")],
  [("state, observers", "current state and channels to notify", "client.go state, stateChangeChans")],
  ["Client.State, WaitForState, ObserveStateChanged, Stop, Err"])

p("C14", "A client with a connector reconnects and works again",
  "A client created with a connector that loses its connection, or cannot connect or handshake, asks the connector for a fresh connection after the back-off and, once the server is reachable, becomes connected and all calls work again; it gives up only when stopped or cancelled, when the back-off says so, or when the server closes with reconnecting not allowed. A call is only ever answered over the connection it was sent on. A failed connection is never used again. While it waits for the back-off the client is connecting, and a call made then waits for the next connection. A client that gave up can be started again and then reconnects as before.",
  ["fault_sequences", "schedules", "histories"],
  "all sequences of connector errors, handshake failures, connection losses at any point and server closes with and without permission to reconnect",
  "One test reconnects once after a clean loss.",
  ["client.go", "clientoptions.go"],
  [("reconnect loop", "client.go Start"), ("connection set-up", "client.go setupConnectionAndProtocol"), ("end decision", "client.go shouldClientEnd")],
  [("conn, loop", "connection and message loop in use", "client.go")],
  ["connector calls", "handshakes and messages on each connection", "Client.State"])

p("C15", "Silent peers are dropped in time, live ones are not, and idle links are pinged",
  "A connection on which nothing is received for the timeout interval is ended when that interval has elapsed, not earlier and not noticeably later, and any received message (also a ping) restarts the interval. While connected, each side sends a ping whenever it has sent nothing for the keep-alive interval. A peer that does not complete the handshake within the handshake timeout is dropped and, for the server, never causes a hub call.",
  ["schedules", "configurations", "histories"],
  "all timeout and keep-alive settings, all arrival patterns of traffic around the interval borders, both sides, both protocols",
  "The tests use one fixed pattern in wall-clock time with wide tolerances.",
  ["loop.go", "hubconnection.go", "server.go", "client.go"],
  [("tickers", "loop.go Run"), ("last write time", "hubconnection.go LastWriteStamp"), ("handshake deadlines", "server.go receiveHandshakeRequest/sendHandshakeResponse, client.go processHandshake")],
  [], ["times of messages on the wire", "time of Serve return and client state change"])

p("C16", "The receive size limit rejects what is larger and only that",
  "A single message larger than the configured maximum receive message size is never dispatched and ends the connection (a single HTTP post above it may also just be refused) instead of being buffered without bound. Messages up to the maximum are accepted, however the transport cuts them and however many of them arrive together, and whatever limits other servers and clients of the process have.",
  ["inputs", "configurations"],
  "all limits, message sizes around the limit, partitions into reads and batches of messages, both protocols, server and client side",
  "The size tests send one oversized message in one piece.",
  ["jsonhubprotocol.go", "messagepackhubprotocol.go", "hubconnection.go", "httpmux.go"],
  [("JSON check", "jsonhubprotocol.go readJSONFrames"), ("MessagePack check", "messagepackhubprotocol.go readFrames"), ("read buffer", "hubconnection.go Receive")],
  [], ["hub calls and connection end as function of message sizes"])

p("C17", "Stream limits, slow consumers and cancellation act as configured",
  "A peer can have at most the configured number of upload streams open on a connection: one more is refused with an error completion and does not disturb the open ones, and every stream that ends frees its place. If a method does not take an upload item for the channel receive timeout, the server tells the peer by a completion with error for that stream, never earlier, and does not itself end the connection. After a cancel message for a stream result that runs, or whose method has not returned its channel yet, the server sends no more than the item already on its way and exactly one completion for it, however many streams were cancelled before, and other streams are not affected.",
  ["histories", "schedules", "configurations"],
  "all sequences of opening, feeding, completing, stalling and cancelling streams beyond the limit, for all limits and timeouts",
  "The tests exceed the limit once and cancel once; slots that leak after the hundredth cancel or a refused upload need long histories.",
  ["streamclient.go", "streamer.go", "loop.go"],
  [("upload limit", "streamclient.go buildChannelArgument"), ("slow consumer", "streamclient.go sendChanValSave"), ("cancel", "streamer.go Stop")],
  [("open uploads, cancel marks", "", "streamclient.go upstreamChannels, streamer.go cancels")],
  ["completions on the wire"])

p("C18", "Negotiated ids admit exactly one connection and nothing else gets in",
  "Negotiate answers POST with a fresh unguessable id (and, for version 1, a separate token) and the transports the server allows; only a pending id (version 0) or token (version 1) admits a transport connection, it does so at most once even for simultaneous attempts, and no longer once the negotiation has expired. Requests with an unknown, used or expired id, event streams and posts without id, and wrong methods get an error response (or, once upgraded, a close) and never reach a hub, and at most the configured number of negotiations is pending; connections which have ended are no longer held; a websocket without any id is served as a connection of its own. Cross-origin websocket requests are refused unless their origin is allowed.",
  ["inputs", "schedules", "histories"],
  "all sequences and interleavings of negotiate, GET and POST requests with any ids, versions, headers and origins, over time",
  "The tests make single well-behaved requests in sequence; double use needs simultaneous requests or reuse after upgrade.",
  ["httpmux.go", "negotiateresponse.go", "serversseconnection.go"],
  [("id table", "httpmux.go connectionMap, negotiate, serveConnection, reaperLoop"), ("transport selection", "httpmux.go handleGet/handlePost")],
  [("pending and active ids", "map from id or token to negotiation or connection", "httpmux.go connectionMap")],
  ["HTTP status codes and bodies", "hub connect callbacks"])

p("C19", "All HTTP transports and routers give the same service",
  "Over WebSockets and Server-Sent Events, with negotiate version 0 and 1 and with every supported router, a client can make concurrent calls, receive sends and streams of any content and message size within the limit, and sees exactly what it would see over an in-process connection. The path, query and headers which the client was given are used in all its requests, and it uses only a transport that the server offers. A broken or closed transport ends the connection on both sides: the server's connection ends and releases what it holds, including the HTTP response, and the client notices.",
  ["configurations", "inputs", "schedules"],
  "all combinations of transport, protocol, negotiate version and router, concurrent calls, message sizes and contents, and disconnects from either side",
  "The HTTP tests call one method once per transport; the connection tests are flaky and left out.",
  ["httpmux.go", "httpconnection.go", "websocketconnection.go", "serversseconnection.go", "clientsseconnection.go", "router/chirouter.go", "router/gorillarouter.go", "router/httprouter.go"],
  [("websocket", "websocketconnection.go"), ("SSE down and up", "serversseconnection.go, clientsseconnection.go"), ("routers", "router/*.go")],
  [], ["client results", "hub callbacks", "HTTP response end"])

p("C20", "No data races",
  "Concurrent use of clients, servers, hubs, groups and transports through the public API, including connects, disconnects, reconnects and shutdown at any time, never performs a data race inside the library.",
  ["schedules"],
  "all interleavings of public API calls and network events",
  "The suite is not run with the race detector here and its schedules are nearly sequential.",
  ["client.go", "loop.go", "hubconnection.go", "server.go", "streamclient.go", "invokeclient.go", "httpmux.go", "serversseconnection.go", "ext/redishublifetimemnager.go"],
  [("locks and atomics", "throughout")],
  [], ["race detector reports with library frames"])

p("C21", "Ended connections leave nothing running, and Serve returns",
  "Serve returns within bounded time after the connection fails or ends, after the hub aborts it, after a timeout and after the server's context is cancelled, whatever calls, streams or unread output are pending. Once a connection has ended and its transport is released, nothing the library started for it keeps running or waiting, on the server as well as on the client, apart from application code that has not returned, and the server (or a client that has connected anew) no longer holds the connection in memory, even when the application adds it to groups while it ends. When the server ends a connection because of an error or shutdown it tells a reachable peer by a close message, allowing reconnect unless a lifecycle callback panicked. A hub method that closes its connection causes exactly one close message, with the text and the reconnect permission it gave, and Serve returns.",
  ["fault_sequences", "schedules", "histories"],
  "all ways a connection can end, with any pending calls, streams, uploads, stalled writes, in long histories of connections",
  "The suite checks no leaks; it ends with hundreds of goroutines still alive.",
  ["loop.go", "hubconnection.go", "server.go", "client.go", "streamer.go", "streamclient.go", "invokeclient.go", "Invokeresult.go"],
  [("loop end", "loop.go Run"), ("read and parse pumps", "hubconnection.go Receive"), ("stream pumps", "streamer.go Start")],
  [], ["goroutines with library frames after the end", "Serve return", "close message on the wire"])

p("C22", "The Redis backplane delivers to exactly the targets on all servers",
  "With the Redis lifetime manager a send to all, to one connection or to a group reaches every targeted connection exactly once and with its arguments, whichever server instance it is connected to and whichever instance sends, including the sending one, and nobody else. Group membership follows explicit adds and removes from any instance's own connections and ends with the disconnect. Receiving such sends leaves the connections usable, and concurrent membership changes never crash the process.",
  ["schedules", "histories", "configurations"],
  "all histories of connects, disconnects, group changes and sends over several server instances sharing one Redis",
  "The ext module has no tests at all.",
  ["ext/redishublifetimemnager.go", "ext/options.go"],
  [("publish/subscribe", "ext/redishublifetimemnager.go Invoke*, handleRedisMessage"), ("membership", "AddToGroup, RemoveFromGroup, OnDisconnected")],
  [("local connections and groups", "", "ext/redishublifetimemnager.go")],
  ["client method invocations on every connection's wire"])

p("C23", "Only a proper handshake opens a connection",
  "A server runs no hub code for a connection before it has received a complete handshake request naming a supported protocol and then answers with an empty response; a request for another protocol or a malformed one is never served, the former being told the reason in the response. A client reports connected only after a response without error, otherwise it reports the server's error. After the handshake both sides use the agreed protocol for all further messages.",
  ["inputs", "schedules"],
  "all handshake requests and responses, well-formed or not, cut in any way, with anything following them",
  "The tests use the two good handshakes and one bad protocol name.",
  ["server.go", "client.go"],
  [("server side", "server.go processHandshake"), ("client side", "client.go processHandshake")],
  [], ["first bytes on the wire in both directions", "hub callbacks", "Client.State/Err"])

p("C24", "Everything sent is well-formed, complete and never interleaved",
  "Every byte sequence a server or client writes after the handshake is a concatenation of complete, valid hub protocol messages of the agreed protocol, also when many goroutines send at the same time. Within one connection a client uses every invocation and stream id for one call only, stream items are only sent between the start and the completion of their stream, and items of one stream are written in order.",
  ["schedules", "inputs"],
  "all interleavings of concurrent calls, sends, streams and pings on one connection, both protocols, both sides",
  "The tests parse the bytes with the library's own parser, one message at a time.",
  ["hubconnection.go", "jsonhubprotocol.go", "messagepackhubprotocol.go", "loop.go", "streamer.go"],
  [("encoders", "WriteMessage of both protocols"), ("one write per message", "hubconnection.go writeMessage"), ("ids", "loop.go GetNewID")],
  [], ["bytes on the wire, decoded by an independent codec and checked against a protocol automaton"])

p("C25", "An HTTP connection is set up as negotiated or refused with an error, in time",
  "NewHTTPConnection and HttpConnectionFactory negotiate once per attempt at the negotiate path below the given address and connect with the negotiated id or token to the address itself, keeping its path, query and the application's headers in every request, sending the negotiation's cookies with a WebSocket request, and using only a transport which both sides allow: WebSockets before Server-Sent Events, the factory falling back from the first to the second. They return a working connection with the negotiated connection id exactly when the server's answers allow one, and otherwise an error and never both or neither, whatever the server answers: error statuses, garbage, no common transport, a refused upgrade or event stream, a broken connection. When the context given is cancelled they return soon, whatever the server does or leaves undone; its later cancellation does not touch the connection. A failed set-up leaves nothing open or running.",
  ["inputs", "fault_sequences", "schedules", "configurations"],
  "all answers of a server to the negotiation and the connection request, addresses, options, and all times of cancellation",
  "The tests negotiate with a server of the library, which answers correctly and at once.",
  ["httpconnection.go", "clientoptions.go", "clientsseconnection.go", "negotiateresponse.go"],
  [("negotiation and choice of transport", "httpconnection.go NewHTTPConnection"), ("fallback", "clientoptions.go HttpConnectionFactory")],
  [], ["requests the HTTP server receives", "the connection or error returned and when", "open network connections and goroutines afterwards"])

p("C26", "Options do what they say, in any order, or are refused",
  "NewServer and NewClient refuse with an error every list of options which has one that is not valid (a zero stream buffer capacity or maximum message size, an unsupported transport or transfer format, a failing lifetime manager constructor), belongs to the other party, contradicts another (a connection and a connector), or lacks the hub or the connection; a refused or created but not started party does nothing. Nil options are ignored. Otherwise every setting - handshake timeout, timeout interval, keep-alive interval, maximum receive message size, detailed errors, maximum of upload streams, stream buffer capacity, channel receive timeout, alternate method names, offered transports, maximum of negotiations, hub source, transfer format, back-off, receiver, connection source - has exactly the documented effect of its last value, or that of its documented default, whatever other options are given and in whatever order.",
  ["configurations", "inputs"],
  "all lists and orders of options with any values",
  "The tests set one or two options at a time to one value; defaults and orders are not tested.",
  ["options.go", "serveroptions.go", "clientoptions.go", "party.go", "server.go", "client.go"],
  [("options", "options.go, serveroptions.go, clientoptions.go"), ("defaults", "party.go newPartyBase, server.go NewServer, client.go NewClient")],
  [], ["errors of the constructors", "times, sizes, counts and contents at which the behaviour on the wire changes"])

p("C27", "A live connection keeps nothing of what has ended",
  "However long a server runs, a client lives or reconnects and a connection lasts, what is over leaves nothing behind in the library: no goroutine, no memory which grows with the number of calls, no place counted against the maximum of upload streams, no open observer channel. Over is a call which was answered, refused, failed, panicked, could not be serialized, or whose stream has been completed, canceled (before it started, while it streamed or too late) or whose upload was completed, whether it was read or not; a wait which was met, given up or canceled; an observation which was canceled, also when a state was waiting to be received from it; a group without members; and a connection which has ended and was released by its transport. What is still pending meanwhile goes on undisturbed.",
  ["histories", "schedules"],
  "all histories of calls of a connection and all interleavings of their ends",
  "A test makes a few calls and ends; what each of them leaves behind only hurts after thousands, and no test looks at it.",
  ["loop.go", "streamer.go", "streamclient.go", "invokeclient.go", "client.go", "hublifetimemanager.go", "server.go"],
  [("calls of a server", "loop.go handleInvocationMessage, streamer.go, streamclient.go"), ("calls of a client", "client.go, invokeclient.go, Invokeresult.go"), ("groups and connections", "hublifetimemanager.go, server.go Serve")],
  [], ["goroutines of the library before and after the calls", "memory in use after many calls", "uploads accepted afterwards", "observer channels"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
