#!/usr/bin/env python3
# Writes properties.jsonl (kept here so that the long lines stay readable).
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    a = {"files": files.split(), "mechanism": [dict(zip(("name", "where"), m)) for m in mech]}
    if state: a["state"] = [dict(zip(("name", "meaning", "where"), s)) for s in state]
    if observe: a["observe_at"] = list(observe)
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over.split(), "text": text}, "why_tests_cant": why, "anchors": a})

p("C01", "Inbound byte streams reach the handler intact",
  "With the default protocol, the concatenation of the data passed to a connection's message callback is at all times a prefix of the byte stream its peer sent, and once the system is quiet and the connection still open it is all of it: no byte is lost, duplicated, reordered or taken from another connection. This holds however the stream is cut into segments, however reads and replies interleave, and also for the data that precedes the peer's half-close.",
  "schedules inputs", "all segmentations of short streams into segments shorter, equal to and longer than the read buffer, with every interleaving of clients, loops and senders up to the preemption bound, on one and two connections",
  "Tests send whole messages over loopback, where one read returns one message; reads that fill the buffer exactly, arrive while output is pending or race with replies are never forced.",
  "connection.go eventloop/eventloop.go protocol.go poller/epoll.go",
  [("handleRead: read into the loop's packet buffer, carry over leftovers", "connection.go"), ("DefaultProtocol.UnPacket", "protocol.go")],
  [("inBuffer", "bytes received and not yet consumed by the protocol", "connection.go"), ("packet", "per-loop read buffer shared by all connections of the loop", "eventloop/eventloop.go")],
  ["data argument of OnMessage"])
p("C02", "Custom protocols see each frame once under any segmentation",
  "For a user protocol that takes a frame only when it is complete and leaves incomplete input in the buffer, the message callback gets exactly the frames contained in the peer's byte stream, in order, each once, with the context its unpacking returned, and every reply is packed by the same protocol. The result depends only on the stream and not on how it is cut into segments or how many frames share a segment.",
  "inputs schedules", "all cuts of streams of up to four frames (empty, short, longer than the read buffer) into segments, all lengths of left-over",
  "The tests use the default protocol or send one frame per write; splits inside headers, left-overs meeting the next read and several frames per read are not enumerated.",
  "connection.go protocol.go",
  [("handlerProtocol loop; leftover copied into inBuffer", "connection.go")],
  [("inBuffer", "left-over incomplete frame", "connection.go")], ["ctx and data arguments of OnMessage", "bytes received by the client"])
p("C03", "Outbound bytes are delivered intact, in order and completely",
  "Everything a handler returns or sends on a connection arrives at the peer as one byte stream without loss, duplication or foreign bytes: each piece whole, the replies in the order of their messages, the Sends of one goroutine in the order of the calls, whatever partial, refused or interrupted socket writes happen. If the peer keeps reading and nobody closes the connection, all of it arrives, including output that had to be buffered.",
  "schedules inputs fault_sequences", "every outcome (complete, partial, would-block) of each socket write up to the deviation bound, small socket buffers, all interleavings with peer reads, further sends and further input",
  "Loopback sockets take small writes whole, so the buffering, wrap-around and resume paths are hardly entered by the tests, and never at each possible cut.",
  "connection.go eventloop/eventloop.go poller/epoll.go",
  [("sendInLoop buffers what write did not take and enables write events", "connection.go"), ("handleWrite flushes and disables write events", "connection.go")],
  [("outBuffer", "bytes accepted and not yet written", "connection.go")], ["byte stream read by the client"])
p("C04", "Send works from any goroutine; finish callbacks run exactly once",
  "Any goroutine may call Send at any time: unless the connection closes first, each Send that returned nil puts its packed data into the output exactly once and in one piece, in the order in which each goroutine made its calls. Then its completion callback runs exactly once, on the connection's loop and with the data Send was given (never twice, never for a Send that failed); on a connection already closed, Send returns the closed error and sends nothing.",
  "schedules", "all interleavings of two and three sending goroutines with the loop, the peer and close, up to the preemption bound",
  "The tests send from one goroutine at a time and look at the happy path; lost wake-ups and interleaved queues need specific schedules.",
  "connection.go connection_options.go eventloop/eventloop.go",
  [("Send queues a closure on the loop", "connection.go"), ("QueueInLoop / doPendingFunc", "eventloop/eventloop.go")],
  [("taskQueueW, needWake", "pending tasks and the wake-up flag", "eventloop/eventloop.go")], ["bytes received by the client", "SendInLoop callbacks"])
p("C05", "Connection lifecycle callbacks: connect, messages, close",
  "For every connection the server takes, the connect callback runs exactly once and before every other callback of it; the close callback runs exactly once if and when the connection ends for whatever reason (peer close, reset, error, idle timeout, own Close, server stop), and no callback of it follows (save the completion callback of a Send whose own write found the connection dead). A connection that has not ended does not get a close callback.",
  "schedules fault_sequences histories", "all interleavings and orders of connect, data, half-close, reset, local Close from any goroutine, timeout and Stop on up to two connections",
  "Tests only count callbacks on orderly runs; double or missing close callbacks need two reasons for closing to race.",
  "connection.go server.go eventloop/eventloop.go",
  [("handleClose guards by the connected flag", "connection.go"), ("handleNewConnection queues OnConnect", "server.go")],
  [("connected", "open as far as the server is concerned", "connection.go")], ["OnConnect, OnMessage, OnClose"])
p("C06", "All callbacks of a connection run serially on its event loop",
  "All callbacks of a connection (connect, message, close, send-completion, protocol packing and unpacking) run on one and the same goroutine, that of the event loop the connection was assigned to, and never overlap each other. Callbacks of all connections of one loop never overlap either, so handlers need no locks for per-loop state.",
  "schedules", "all interleavings of two loops, several connections, foreign Send/Close and Stop up to the preemption bound",
  "A test cannot see that two callbacks could have overlapped, only that they did not on that run.",
  "server.go connection.go eventloop/eventloop.go",
  [("QueueInLoop moves work to the loop", "eventloop/eventloop.go")],
  [], ["goroutine identity in the callbacks"])
p("C07", "Close: effective once, from any goroutine, final",
  "Close may be called from any goroutine or callback, any number of times: the connection is then closed, the peer observes end of stream or reset, the close callback runs once, and Connected reports false from then on. After that, Close and Send return the connection-closed error and have no effect, and data that Send had queued on the loop before Close was called is written before the connection closes, as far as the peer takes it.",
  "schedules histories", "all interleavings of Close from handlers and foreign goroutines with Send, input, peer close and timeout up to the preemption bound",
  "The one test of Close closes once from a handler; concurrent closers and closes racing with input are not explored.",
  "connection.go eventloop/eventloop.go",
  [("Close queues handleClose", "connection.go"), ("connected flag", "connection.go")],
  [("connected", "open flag", "connection.go")], ["Connected, error results, client's end of stream"])
p("C08", "Operations never hit a descriptor the connection does not own",
  "No read, write, shutdown, close or registration issued for a connection, listener or event loop is ever applied to a file descriptor number that it does not own at that moment; in particular nothing is closed twice and nothing touches a number that the process has meanwhile reused for another connection or file. Consequently what is done to one connection never sends to, reads from, shuts or closes another.",
  "schedules histories", "all interleavings of API calls with close and the reuse of the descriptor number by a new connection or a foreign file, up to the preemption bound",
  "Descriptor reuse within the race window practically never happens in tests and has no visible effect there when it does.",
  "connection.go eventloop/eventloop.go poller/epoll.go listener.go server.go",
  [("operations on the descriptor happen on the loop, under the connected flag", "connection.go"), ("Wake/Close", "poller/epoll.go")],
  [("fd", "descriptor number held by the connection", "connection.go")], ["system calls issued"])
p("C09", "Closed connections and stopped servers release their resources",
  "When a connection has ended, its descriptor is closed, its event registration and idle timer are gone and its buffers are back in the pool, each exactly once and never used again; a pooled buffer never shows one connection's bytes to another. After Stop has closed a server, no descriptor it opened (sockets, listener, event queues, wake-up handles) remains open.",
  "schedules histories", "all ends of a connection (each cause, with pending input, pending output, queued tasks) and all stops, up to the preemption bound",
  "Leaks do not fail tests, and double returns to a pool corrupt data only under particular reuse.",
  "connection.go server.go listener.go poller/epoll.go eventloop/eventloop.go",
  [("handleClose returns buffers and stops the timer", "connection.go"), ("Poller.Close", "poller/epoll.go"), ("listener.Close", "listener.go")],
  [("inBuffer, outBuffer", "pooled buffers", "connection.go")], ["open descriptors, buffer pool accounting"])
p("C10", "Loop task queue: every task once, in order, no lost wake-up",
  "Every function queued on a running event loop from any goroutine, also from a task or callback of the loop itself, is run exactly once, on the loop's goroutine, without waiting for unrelated events; functions queued by one goroutine run in the order queued. Queuing never blocks on the loop, and tasks queued while the loop is going to sleep still wake it.",
  "schedules", "all interleavings of up to three queuing goroutines, tasks that queue tasks, and the loop's sleep/wake protocol up to the preemption bound (unbounded in the smallest configurations)",
  "The existing test queues ten tasks and checks nothing; a lost wake-up needs a preemption at one of a few instructions.",
  "eventloop/eventloop.go poller/epoll.go",
  [("needWake compare-and-swap + Wake", "eventloop/eventloop.go"), ("handler(-1) after the event batch", "poller/epoll.go")],
  [("taskQueueW, taskQueueR, needWake", "double-buffered queue and wake flag", "eventloop/eventloop.go")], ["tasks run"])
p("C11", "Poller reports readiness faithfully; Wake and Close are safe",
  "The poller calls its handler for every registered descriptor that is ready for what it is registered for, with exactly the readiness the system reports (read, write, error), never for an unregistered one, and after Wake it calls the wake handler promptly. Close makes a running Poll return and releases its descriptors exactly once, a second Close or a Close of a poller that is not running reports the closed error, and Wake racing with or following Close touches no foreign descriptor.",
  "schedules histories", "all sequences of registration changes and socket events up to length four, all interleavings of Poll, Wake (two callers) and Close up to the preemption bound, ready sets larger than the event batch",
  "The tests start and close an idle poller; no event is ever delivered in them.",
  "poller/epoll.go",
  [("event translation in Poll", "poller/epoll.go"), ("Wake via eventfd", "poller/epoll.go"), ("running flag and waitDone", "poller/epoll.go")],
  [("running, waitDone", "life of the poller", "poller/epoll.go")], ["handler calls, system calls"])
p("C12", "Stop shuts the whole server down; Start then returns",
  "Once Start is serving, Stop (called from any goroutine outside the callbacks, once or several times, concurrently or not, at any moment relative to traffic) returns, stops accepting, frees the port, ends every open connection with its close callback, and makes Start return; nothing panics or hangs. After that, no callback of the server runs any more, timers not yet due never fire, and a second Stop has no effect.",
  "schedules histories", "all interleavings of one or two Stop calls with start-up, accepts, traffic, closes and queued tasks up to the preemption bound",
  "Tests stop idle servers after sleeping; stopping in the middle of accepts, sends or closes needs chosen schedules.",
  "server.go eventloop/eventloop.go poller/epoll.go listener.go",
  [("Server.Stop", "server.go"), ("EventLoop.Stop queues the closing of its sockets", "eventloop/eventloop.go"), ("Poller.Close waits for Poll", "poller/epoll.go")],
  [("running", "server state", "server.go")], ["return of Start and Stop, OnClose, port"])
p("C13", "Idle timeout closes idle connections and only those",
  "With an idle time T configured, a connection on which the server saw no event for T is closed (with its close callback) soon after T, and a connection is never closed for idleness before T has passed since its last event or its start (input that the server leaves unread because earlier output is blocked is no event). Without an idle time nothing is closed for idleness, and a timeout racing with traffic or another close has the effect of one of the two orders.",
  "schedules histories", "all activity patterns on a grid of offsets around the timeout (including sub-second offsets), in virtual time, with the timer, loop and client interleaved up to the preemption bound",
  "The test waits for one idle connection to go; early closing by less than a second and renewals racing the timer are not visible to it.",
  "connection.go server.go options.go",
  [("closeTimeoutConn re-arms by the remaining time", "connection.go"), ("activeTime updated by HandleEvent", "connection.go")],
  [("activeTime", "time of the last event", "connection.go")], ["time of OnClose"])
p("C14", "Round-robin assigns connections to loops in strict rotation",
  "With the round-robin strategy (the default), the n-th connection accepted by a server is served by loop n modulo the number of loops, so after any number of accepted connections the numbers assigned to any two loops differ by at most one, independent of connections that have closed. Two servers, or two strategy values, rotate independently of each other.",
  "histories configurations", "all numbers of loops up to 5, all numbers of picks up to several rotations, two interleaved strategy instances, and accept/close histories on a running server",
  "The test checks one loop count with a fresh instance and a single sequence.",
  "load_balance.go server.go options.go",
  [("RoundRobin closure", "load_balance.go")], [("nextLoopIndex", "next loop", "load_balance.go")], ["loop whose goroutine runs the callbacks"])
p("C15", "Least-connection picks a least loaded loop; counts are exact",
  "With the least-connection strategy every connection goes to a loop whose connection count is minimal among all loops at the time it is picked. A loop's connection count equals, whenever the loop is idle, the number of open connections it serves: every open and every end of a connection, whatever its cause, changes it by exactly one, and it is never negative and zero after Stop.",
  "histories schedules configurations", "all count vectors in {0..3}^n for n<=4, and all histories of connects and ends (each cause) up to length five on two and three loops, Stop included",
  "The test feeds constant counts; drift through failed registrations, double closes or stops is not observed.",
  "load_balance.go eventloop/eventloop.go server.go connection.go",
  [("LeastConnection", "load_balance.go"), ("ConnCunt changed by AddSocketAndEnableRead and DeleteFdInLoop", "eventloop/eventloop.go")],
  [("ConnCunt", "connections registered", "eventloop/eventloop.go")], ["ConnectionCount, loop that serves a connection"])
p("C16", "Buffer-length gauges tell the real backlog",
  "Whenever a connection's loop is idle, the reported read-buffer length equals the number of bytes received but not yet consumed by the protocol, and the reported write-buffer length equals the number of bytes handed over for sending but not yet taken by the socket. Both may be read from any goroutine and are never negative or larger than what was ever pending.",
  "schedules inputs fault_sequences", "all partial-write and partial-frame histories up to the bounds of C02 and C03, sampled at every quiescent point",
  "No test reads the gauges under partial writes or left-over input.",
  "connection.go",
  [("inBufferLen/outBufferLen updated after events", "connection.go")], [("inBufferLen, outBufferLen", "gauges", "connection.go")], ["ReadBufferLength, WriteBufferLength"])
p("C17", "The per-connection key/value context is a linearizable map",
  "Set, Get and Delete of the key/value context of a connection may be used from any goroutines concurrently and behave like operations on one map executed atomically in some order consistent with real time: Get returns the value of the last Set not followed by Delete, and whether there is one. Contexts of different connections are independent.",
  "schedules histories", "all interleavings of three threads with up to two operations on colliding keys, and all sequential histories up to length six against a map",
  "The test is sequential and uses each key once.",
  "context.go", [("RWMutex around the map", "context.go")], [("kv", "lazily made map", "context.go")], ["results of Get"])
p("C18", "Every connecting client is accepted and correctly identified",
  "Every client that connects while the server is serving is accepted and announced exactly once without needing any further event, also when many arrive at once, and connections beyond a transient accept failure are still served. The connection reports the address and port of the client at its other end (IPv4 and IPv6) and carries that client's data only.",
  "schedules fault_sequences", "bursts of up to four clients in all interleavings with the accept loop and the work loops, connects and early closes before the accept, IPv4 and IPv6 addresses",
  "Tests connect clients one after another and never look at the address.",
  "listener.go server.go connection.go",
  [("listener.HandleEvent accepts on level-triggered readiness", "listener.go"), ("sockAddrToString", "connection.go")], [], ["OnConnect, PeerAddr"])
p("C19", "WebSocket frames are decoded alike under any segmentation",
  "After the handshake, the sequence of messages delivered to the application is determined by the client's byte stream alone: each complete frame (masked or not, 7-, 16- or 64-bit length) is delivered once, in order, with its unmasked payload, no matter how the bytes are cut into segments or how many frames share one. Incomplete frames wait without loss; a frame whose header is invalid is never delivered.",
  "inputs histories", "all cuts of streams of up to three frames of all header forms, ring buffers in all wrap positions, at every byte boundary including inside the header",
  "The tests use a client library that writes whole frames which arrive in one read.",
  "plugins/websocket/protocol.go plugins/websocket/ws/read.go connection.go",
  [("Protocol.UnPacket with virtual reads", "plugins/websocket/protocol.go"), ("VirtualReadHeader", "plugins/websocket/ws/read.go")],
  [("header buffer in the connection context", "scratch for the header", "plugins/websocket/protocol.go")], ["OnMessage of the WebSocket handler"])
p("C20", "WebSocket handshake follows RFC 6455",
  "A complete upgrade request is answered with 101, the correct accept token and the negotiated sub-protocol and extensions if and only if it is a GET of HTTP/1.1 (or a later 1.x) with Host, Upgrade, Connection, version 13 and a 24-character key, and the user's callbacks agree; otherwise the client gets exactly one HTTP error response with the fitting status (or the one the callback chose), is not upgraded, and nothing is delivered to the application. The outcome does not depend on the segmentation of the request, header-name case or header order, nothing is answered before the request is complete, and bytes following the request are treated as frames.",
  "inputs configurations", "all requests obtained from a valid one by changing, removing, duplicating or reordering up to two parts, all callback results, all two-way cuts of the request and all ring-buffer wrap positions",
  "One happy-path handshake by a client library is tested.",
  "plugins/websocket/ws/ws.go plugins/websocket/ws/http.go plugins/websocket/ws/nonce.go plugins/websocket/ws/util.go plugins/websocket/ws/errors.go plugins/websocket/protocol.go",
  [("Upgrader.Upgrade", "plugins/websocket/ws/ws.go"), ("header parsing and response writing", "plugins/websocket/ws/http.go")], [], ["HTTP response bytes, callbacks"])
p("C21", "WebSocket control frames are answered and kept from the application",
  "Every ping is answered by one pong with the same payload and every close frame by one close frame before the sending side is shut, so that the client receives the reply and then end of stream; control frames are never delivered to the application's message callback. Control frames between data frames do not disturb the data, and data replies are framed as the type the application chose.",
  "inputs schedules", "all sequences of up to three frames over {text, binary, ping, pong, close with each kind of body}, cut at every byte, with partial writes",
  "The tests exchange text frames and close from one side.",
  "plugins/websocket/wrap.go plugins/websocket/ws/util/util.go connection.go",
  [("HandlerWrap.OnMessage", "plugins/websocket/wrap.go"), ("HandleClose/HandlePing", "plugins/websocket/ws/util/util.go")], [], ["frames received by the client"])
p("C22", "WebSocket frame encoding and masking are exact",
  "Encoding any frame header and payload gives the byte string RFC 6455 defines, with the shortest length form, and decoding it gives the same header and payload back. Masking at any offset XORs byte i with mask byte (offset+i) mod 4, is its own inverse and touches nothing outside the payload, for every payload length and alignment.",
  "inputs", "all header flag combinations with lengths around every form boundary, all masks from a boundary set, all payload lengths 0..40, offsets 0..8 and alignments 0..8, against an independent reference",
  "No test covers the codec directly; word-wise masking has alignment- and length-dependent paths.",
  "plugins/websocket/ws/write.go plugins/websocket/ws/read.go plugins/websocket/ws/frame.go plugins/websocket/ws/cipher.go plugins/websocket/ws/util/util.go",
  [("WriteHeader", "plugins/websocket/ws/write.go"), ("Cipher", "plugins/websocket/ws/cipher.go")], [], ["bytes produced"])
p("C23", "WebSocket close codes are judged by RFC 6455",
  "For each of the 65536 close codes and any reason, the server's reply to a close frame echoes code and reason exactly when the RFC allows the code in a frame and the reason is valid UTF-8, and otherwise is a close frame with code 1002; a close without a body is answered by a close without a body. A reply never exceeds the 125 bytes a control frame may carry.",
  "inputs", "all 65536 codes, with reasons empty, ASCII, maximal, and every class of invalid UTF-8, and bodies of length 0, 1, 2",
  "No test sends a close code.",
  "plugins/websocket/ws/util/util.go plugins/websocket/ws/frame.go plugins/websocket/ws/read.go",
  [("CheckCloseFrameData", "plugins/websocket/ws/util/util.go"), ("NewCloseFrameBody", "plugins/websocket/ws/frame.go")], [], ["reply frame"])
p("C24", "Protobuf framing round-trips under any segmentation",
  "Every message packed with the protobuf plugin's packing function is delivered exactly once with its type and data, in order, whatever the segmentation of the stream, including empty types and empty data. Truncated messages wait, and a malformed length field never crashes the server or yields a message that was not sent.",
  "inputs", "all sequences of up to three messages with type and data lengths 0..3 and beyond the read buffer, all cuts, all small corruptions of the length fields",
  "The plugin has no tests.",
  "plugins/protobuf/protobuf.go plugins/protobuf/protocol.go",
  [("PackMessage", "plugins/protobuf/protobuf.go"), ("Protocol.UnPacket", "plugins/protobuf/protocol.go")], [], ["ctx and data arguments of OnMessage"])
p("C25", "No client input can crash or wedge the server",
  "Whatever bytes clients send, in whatever segmentation and with whatever way of disconnecting, to a server with the default, WebSocket or protobuf protocol, the server neither panics nor hangs, other connections of the same loop keep being served, and the offending connection can still be closed. Memory claimed for a connection is bounded by what the client sent.",
  "inputs fault_sequences", "all byte strings up to a length over a small alphabet chosen per protocol, headers with extreme length fields, all cuts, each followed by close, half-close or reset while a second connection is served",
  "Tests only send well-formed input.",
  "connection.go plugins/websocket/protocol.go plugins/websocket/ws/read.go plugins/websocket/ws/ws.go plugins/websocket/ws/util.go plugins/protobuf/protocol.go protocol.go",
  [("length checks before allocation and slicing", "plugins/protobuf/protocol.go")], [], ["panics, progress of a second connection"])
p("C26", "A failed NewServer leaves nothing behind",
  "If creating a server fails at any point (handler missing, address in use, out of descriptors, registration refused), NewServer returns a nil server and an error, and every descriptor and the port it had taken are released, so that a later attempt on the same address succeeds. If it succeeds it returns no error and a server that works.",
  "fault_sequences configurations", "every single failure position of every system call of the construction, for one to three loops, plain and port-reusing listeners, followed by a second attempt",
  "The construction never fails in the tests.",
  "server.go listener.go eventloop/eventloop.go poller/epoll.go",
  [("error paths of NewServer/newListener/Create", "server.go")], [], ["open descriptors, listening ports"])
p("C27", "Options are applied as given, defaults otherwise",
  "The options a server reports and acts on are exactly those passed to it, the last one given winning, and for those not given the documented defaults: network tcp, address :1388, as many loops as CPUs, no idle timeout, default protocol, round-robin. Options of one server do not influence another server, and the reported copy cannot change the server.",
  "configurations", "all subsets of options and all orders of pairs with duplicate options, against a record updated in order",
  "Tests set a few options and read back none.",
  "options.go server.go", [("newOptions", "options.go")], [], ["Server.Options, loops used, address listened on"])
p("C28", "Log level filters exactly the messages below it",
  "With the levels ordered fatal, info, error, debug, a message logged at a level is handed to the configured logger exactly once if the level is not beyond the current one in that order and not at all otherwise, with the configured prefix before its arguments or format and these unchanged; Log and Logf hand on everything. Changing the level, the logger or the prefix takes effect for the following messages. Fatal messages end the process after being handed on. What the server itself logs obeys the same rule.",
  "configurations histories", "all pairs of level and logging function, all sequences of level changes up to length three, all recognised level names",
  "There is no test of the log package.",
  "log/log.go", [("level comparison in each function", "log/log.go")], [("level", "current level", "log/log.go")], ["calls of the logger"])
p("C29", "RunAfter fires once, RunEvery periodically, both stoppable",
  "A function given to RunAfter runs exactly once, not before its delay has passed (to the timer's resolution of a millisecond); one given to RunEvery runs once per interval, starting one interval after the call, without drift; stopping the returned timer before it is due prevents all further runs. Timers that come due after the server has stopped do not run.",
  "schedules histories", "all combinations of delays, intervals, stop times and server stop on a grid, in virtual time, with timers and stoppers interleaved",
  "The examples run one timer with real sleeps.",
  "server.go everyscheduler.go", [("timing wheel AfterFunc/ScheduleFunc", "server.go"), ("everyScheduler.Next", "everyscheduler.go")], [], ["times at which the function runs"])
p("C30", "The public API is free of data races",
  "No combination of the operations documented or evidently meant for use from any goroutine (Send, Close, ShutdownWrite, Connected, PeerAddr, buffer lengths, key/value context, queuing tasks, connection counts, timers, Stop) with each other and with the running server performs conflicting unsynchronised memory accesses. Handlers that touch only their own connection's state inside callbacks need no locks.",
  "schedules", "the interleavings explored for the concurrency properties, each observed by a happens-before race detector that sees only the program's own synchronisation",
  "go test -race sees only the schedules that happen to occur and the calls the tests make.",
  "connection.go server.go eventloop/eventloop.go poller/epoll.go context.go listener.go",
  [("atomics, spin lock and the loop's task queue", "eventloop/eventloop.go")], [], ["race reports"])
p("C31", "Transient system errors do not lose work or stop service",
  "Interrupted waits, would-block results, spurious wake-ups, transient accept failures and momentary descriptor exhaustion never lose data, connections or tasks: service continues as if the call had been delayed, except that a connection whose registration or socket fails is closed with its callbacks and without leaking. A hard error on one connection affects that connection only.",
  "fault_sequences schedules", "every placement of up to two (three in the deep run) injected faults at the system calls of a serving session, with interleavings up to the preemption bound",
  "System calls practically never fail in the tests.",
  "poller/epoll.go listener.go connection.go server.go eventloop/eventloop.go",
  [("EINTR and EAGAIN handling", "poller/epoll.go"), ("accept error handling", "listener.go")], [], ["service of all clients after the faults"])
p("C32", "ShutdownWrite and half-close let pending data drain",
  "After ShutdownWrite, called from any goroutine or callback, all output handed over before it reaches the peer, then the peer sees end of stream while its own data continues to be received and delivered until it closes. A peer that half-closes still gets its pending data delivered to the handler, and on a connection already closed ShutdownWrite reports the closed error and touches nothing.",
  "schedules inputs", "all interleavings of ShutdownWrite with buffered output, partial writes, input, Close and the peer's half-close up to the preemption bound",
  "No test calls ShutdownWrite except through the WebSocket close of a cooperative client.",
  "connection.go plugins/websocket/wrap.go", [("ShutdownWrite", "connection.go")], [], ["bytes and end of stream seen by the client"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
