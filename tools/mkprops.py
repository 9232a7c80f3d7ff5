#!/usr/bin/env python3
# Writes /verif/properties.jsonl (kept as a script so that the text is reviewable).
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state, observe, hook="none"):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     state=[dict(name=x.strip(), meaning='part of the state the property is about', where=files[0]) for x in state.split(',') if state!='none'], observe_at=[x.strip() for x in observe.split(";")], hook_needed=hook)))

CONN="src/pomp_conn.c"; CTX="src/pomp_ctx.c"; LOOP="src/pomp_loop.c"; PROT="src/pomp_prot.c"

prop("C01", "Stream messages arrive exactly once, in order and intact",
 "On a stream connection (TCP or Unix) the receiver is notified of exactly the messages whose send was accepted, each once, in sending order and with identical identifier and arguments: at any time what it received is a prefix of what was accepted. If the connection stays up, every accepted message is eventually delivered; if it ends, every message reported as sent before a clean close is delivered first. This holds however the transport splits, merges or delays bytes, and whatever read buffer size is in use.",
 ["schedules","fault_sequences","inputs","configurations"],
 "All message sequences and sizes, all splits of the byte stream (short writes, full socket buffers, interrupted calls, short reads), latencies and partitions, all read buffer lengths (also changed while running), both loop backends.",
 "Loopback sockets in the unit tests almost never produce partial writes, full buffers, interrupted calls or adversarial segmentation; the property quantifies over all of them.",
 [CONN,PROT,"src/pomp_msg.c","src/pomp_buffer.c"],
 [("queued asynchronous write with offset","pomp_conn_send_buf_internal, pomp_conn_process_write"),("incremental message decoding","pomp_prot_decode_msg"),("read loop","pomp_conn_process_read")],
 "pending write queue and offset, decoder state, partially received message",
 "message event callback on the receiver against accepted sends on the sender")
prop("C02", "Every accepted send gets exactly one truthful completion, in order",
 "When a send callback is set, every send the library accepted gets exactly one completion notice, in sending order per connection, and none comes for a send that was refused. It says OK only if all bytes of that buffer were handed to the system and ABORTED only if they were not, and all notices of a connection have been given when its teardown finishes. The last notice of a connection whose sends are all completed carries the queue-empty flag.",
 ["schedules","fault_sequences","histories"],
 "All interleavings of sends, partial writes, disconnections by either side, context stop and sends or disconnects made from inside callbacks.",
 "The existing test only counts completions on an unloaded loopback; ordering across the deferred, queued and aborted paths needs full buffers and teardown at arbitrary points.",
 [CONN,CTX,LOOP],
 [("deferred completion list","pomp_conn_add_idle_cb, pomp_idle_cb, clear_pending_callbacks"),("abort on close","pomp_conn_close")],
 "pending write queue, list of deferred completions", "send completion callback")
prop("C03", "Connection events are well formed and end with the context",
 "Each connection is announced as connected exactly once before any message, send notice or disconnection on it, and as disconnected exactly once after which no message is notified on it. Stopping a context announces the disconnection of every connection it has, and once the stop has taken effect no callback of that context is made until it is started again. A stop requested from inside one of the context's callbacks takes effect at the next idle point, and the context can then be reused or destroyed.",
 ["schedules","fault_sequences","histories"],
 "All orders of connect, accept, traffic, peer close, reset, disconnect, stop and restart, with faults and with calls made from inside callbacks.",
 "Tests walk one fixed sequence with a cooperative peer; the lifecycle must hold for every history, including stop or reset while events are already queued for dispatch.",
 [CTX,CONN,LOOP],
 [("event notification and deferred stop","pomp_ctx_notify_event, pomp_ctx_stop, pomp_ctx_stop_idle"),("connection removal","pomp_ctx_remove_conn")],
 "connection list, notifying/stopping counters, timer, loop registrations", "context event, message, raw and send callbacks")
prop("C04", "Clients reconnect and servers rebind by themselves once faults stop",
 "A started client that is not stopped keeps trying until it is connected, whatever made an earlier attempt or connection fail, and after the last fault it is connected again within a bounded time if a server listens; the same holds for a server or datagram context waiting for its address to appear. Attempts are spaced by the reconnection delay and never made after the context was stopped. At most one connection or attempt exists at a time per client.",
 ["schedules","fault_sequences"],
 "All sequences of refused, timed out, unreachable or reset connections, failing system calls during an attempt, server restarts, crashes and partitions, address appearing late.",
 "A liveness claim over unbounded retry histories with 2 s delays; tests cover at most one refused connection on a healthy system.",
 [CTX,"src/pomp_timer_linux.c","src/pomp_timer_posix.c"],
 [("retry timer","timer_cb, client_start, server_start, dgram_start, client_complete_conn")],
 "retry timer, client socket or connection", "connected event, connection getter, connection attempts seen by the simulated network")
prop("C05", "Clients of a server are isolated and broadcast reaches each of them",
 "A message broadcast by a server is accepted for every connection that is up at that moment and delivered once to each, in order with other messages of that connection; slow, stuck, suspended or broken peers neither delay nor alter what the others receive. A server holds at most 32 connections: further ones are closed without disturbing the others, and a freed place can be used again.",
 ["schedules","fault_sequences","configurations"],
 "All mixes of fast, stalled and failing peers, up to and beyond the connection limit, with connections coming and going while broadcasting.",
 "Requires many peers with independently stalled transports; the tests use one or two healthy ones.",
 [CTX,CONN],
 [("broadcast","pomp_ctx_send_msg, pomp_ctx_send_raw_buf"),("connection limit","server_accept_conn"),("list removal","pomp_ctx_remove_conn")],
 "server connection list and count, per connection queues", "message callbacks of each client, connection count")
prop("C06", "Passed file descriptors arrive with their message and never leak",
 "A message with file descriptors sent over a Unix connection is delivered with descriptors referring to the same open files in the same argument positions, however the stream is fragmented. A descriptor value is never taken from message bytes: an argument without a received descriptor reads as an error. Every descriptor received or duplicated by the library is closed exactly once when its message is released, dropped or its connection ends, and non-local connections refuse such messages.",
 ["schedules","fault_sequences","inputs"],
 "All fragmentations relative to ancillary data, partial writes, interleaved messages with and without descriptors, connection loss, hostile peers attaching too many, missing or unannounced descriptors.",
 "The outcome depends on how the kernel merges segments with ancillary data and where short reads and writes fall, which a test cannot enumerate on a real socket.",
 [CONN,"src/pomp_buffer.c","src/pomp_decoder.c","src/pomp_encoder.c"],
 [("two receive tables","pomp_conn_process_read_with_cmsg, pomp_conn_fixup_rx_fds"),("sending","pomp_io_buffer_write_with_cmsg"),("ownership","pomp_buffer_register_fd, pomp_buffer_clear")],
 "receive descriptor tables, descriptors held by buffers", "decoded descriptors, simulated descriptor table")
prop("C07", "No descriptor, memory, timer or registration outlives its owner",
 "After contexts, loops, timers, events and messages have been stopped and destroyed, every descriptor, memory block, timer and thread the library obtained has been released, exactly once, whatever faults happened in between and at whatever point a call failed. The library never closes or changes a descriptor it does not own. A destroy that is refused releases nothing and can be repeated once the reason is gone.",
 ["fault_sequences","histories","crash_points"],
 "All single and repeated failures of system calls during any operation, combined with arbitrary operation histories and teardown at any moment.",
 "Error paths are reached only when a particular call fails at a particular moment; the tests never make one fail.",
 [CTX,CONN,LOOP,"src/pomp_loop_linux.c","src/pomp_loop_posix.c","src/pomp_evt_linux.c","src/pomp_evt_posix.c","src/pomp_timer_linux.c","src/pomp_timer_posix.c","src/pomp_watchdog.c"],
 [("error paths","server_start, client_start, dgram_start, pomp_conn_new, pomp_loop_new, pomp_timer_new")],
 "descriptor table, heap, timers, threads", "simulated kernel tables and heap at quiescent points")
prop("C08", "Hostile or corrupted stream input is contained",
 "Whatever bytes a peer sends, at whatever segmentation, the library neither crashes, hangs, accesses memory out of bounds nor disturbs other connections, and messages that are malformed are never delivered as if they were well formed. After garbage, the next well formed message that follows on that connection is decoded again, as described by the protocol.",
 ["inputs","schedules"],
 "All byte sequences: truncated, overlong or inconsistent headers, wrong magics including partial ones, huge declared sizes, malformed arguments, valid messages embedded in garbage, arbitrary segmentation.",
 "The input space is unbounded and interacts with segmentation and with memory limits for huge declared sizes.",
 [PROT,"src/pomp_decoder.c",CONN,"protocol.txt"],
 [("resynchronisation","pomp_prot_decode_msg, pomp_prot_check_magic"),("argument checks","pomp_decoder_walk, decoder_read_size_u32")],
 "decoder state, partially allocated message", "message callback compared with a reference decoder; memory checker")
prop("C09", "Datagrams are independent and replies go to their sender",
 "Each received datagram is decoded on its own: one that is truncated, malformed, lost, duplicated or reordered never changes how another is delivered. Within the callback of a message the peer address is that of its sender and a message sent on the connection goes to that sender. Outside of it a send without an address is refused. Sends that the system cannot take at once are kept and transmitted in order to the address each was given.",
 ["schedules","fault_sequences","inputs"],
 "All sequences of valid, truncated, empty and garbage datagrams from several senders under loss, duplication and reordering, with the socket buffer full at arbitrary moments.",
 "Loopback UDP does not lose, duplicate, reorder or fill up on demand.",
 [CONN,CTX,PROT],
 [("datagram read and reply address","pomp_conn_process_read, pomp_conn_process_read_with_cmsg"),("queued address","pomp_conn_send_buf_internal, pomp_io_buffer_write_dgram")],
 "decoder state, peer address, pending queue with addresses", "message callback and datagrams seen by the simulated network")
prop("C10", "Timers fire never early, never stale, and periodically as asked",
 "An armed timer's callback runs after its delay and not before, once for a one-shot timer and again at each period for a periodic one until cleared. After a timer is cleared, set again or destroyed, no expiry of the earlier setting calls its callback, even if that expiry was already pending. This holds for every timer backend, with delayed dispatching and with timers changed from any callback.",
 ["schedules","histories","configurations"],
 "All sequences of set, set periodic, clear, destroy and dispatch at arbitrary times relative to expiry, several timers, late dispatch, interrupting signals, both backends.",
 "Stale expiries need a clear or set in the window between expiry and dispatch; tests with real clocks do not hit it and accept large tolerances.",
 ["src/pomp_timer.c","src/pomp_timer_linux.c","src/pomp_timer_posix.c"],
 [("expiry pending in descriptor","pomp_timer_fd_cb, pomp_timer_posix_cb, pomp_timer_posix_sighandler")],
 "kernel timer, expiry count or notification pipe", "timer callback with simulated time")
prop("C11", "Idle functions run once, in order, from any thread, unless removed",
 "Each function queued to run when idle is called exactly once by the loop's thread, in the order of queuing, no matter which threads queue, unless it is removed before being called; removal and flush by cookie affect exactly the matching entries. A loop that waits is woken for them: no queued function stays pending while the loop keeps being run. Flushing runs everything queued, including what is queued meanwhile.",
 ["schedules","histories"],
 "All interleavings of queuing threads with the loop thread, and of removal, flush and queuing from inside idle functions.",
 "A lost wakeup or lost entry needs a specific interleaving of two threads around the internal event.",
 [LOOP,"src/pomp_evt.c","src/pomp_list.h"],
 [("idle list and event","pomp_loop_idle_add, pomp_idle_evt_cb, pomp_loop_idle_remove, pomp_loop_idle_flush")],
 "idle list under lock, internal event state", "idle callbacks recorded by the harness")
prop("C12", "Signalled events and wakeups are never lost across threads",
 "An event signalled from any thread while attached causes its callback to run in the loop's thread after the signal, unless it is cleared or detached first; several signals may be merged into one call but a signal made after a call began leads to another. A wakeup makes the current or next wait return without waiting for its timeout, and neither call ever blocks its caller, however often it is made. Event callbacks do not run without a signal.",
 ["schedules","histories"],
 "All interleavings of signalling, clearing and wakeup threads with a loop thread that waits, dispatches or is stopped, any number of pending signals, both backends.",
 "Depends on the interleaving of signal, clear, and wait in different threads and on a saturated notification channel.",
 ["src/pomp_evt.c","src/pomp_evt_linux.c","src/pomp_evt_posix.c","src/pomp_loop_linux.c","src/pomp_loop_posix.c"],
 [("event signalling","pomp_evt_fd_signal, pomp_evt_posix_signal, pomp_evt_fd_cb"),("wakeup","pomp_loop_epoll_do_wakeup, pomp_loop_poll_do_wakeup")],
 "event counter or notification pipe", "event callbacks and return of the wait call")
prop("C13", "The loop calls exactly the callbacks whose descriptors have events",
 "While a descriptor is registered and the loop is run, its callback is called with its own user data and with events that are both true of it and requested (or errors), and a persistent event is eventually reported even if many others are ready. After removal the callback is never called again, and a descriptor registered anew never receives events of an earlier registration, even if both happen inside callbacks of one dispatch. Behaviour is the same with every loop backend, and with a loop driven through its own descriptor.",
 ["histories","schedules","configurations"],
 "All sequences of add, update, remove, close and number reuse of descriptors from outside and inside callbacks, any readiness pattern, more ready descriptors than are fetched at once.",
 "Stale events need a removal and reuse inside one dispatch of several ready descriptors; the tests use one or two descriptors.",
 [LOOP,"src/pomp_loop_linux.c","src/pomp_loop_posix.c"],
 [("lookup at dispatch","pomp_loop_epoll_do_wait_and_process, pomp_loop_poll_do_wait_and_process, pomp_loop_find_pfd"),("registration table","pomp_loop_add_pfd, pomp_loop_remove_pfd")],
 "registration table, kernel interest list", "descriptor callbacks compared with the simulated kernel state")
prop("C14", "The watchdog fires for, and only for, over-long dispatches",
 "With the watchdog enabled, if one dispatch of the loop lasts longer than the configured delay its callback is called once during that dispatch; it is not called for shorter ones, while waiting, or after it was disabled. Disabling, changing the delay and enabling again take effect for later dispatches whatever happened before, and destroying the loop ends the watchdog's thread.",
 ["schedules","histories"],
 "All dispatch durations around the delay, any clock reading at start, all interleavings of the watchdog thread with the loop thread, spurious thread wakeups, enable and disable at any point.",
 "Depends on the clock value at the time of dispatch and on thread interleaving; a test sees a handful of clock values.",
 ["src/pomp_watchdog.c",LOOP],
 [("deadline computation","get_absolute_timeout, check_timeout"),("watchdog thread","pomp_watchdog_thread_cb, pomp_watchdog_enter, pomp_watchdog_leave, pomp_watchdog_stop")],
 "deadline, monitoring flag, dispatch counter, thread", "watchdog callback against simulated dispatch durations")
prop("C15", "Suspending reads delays delivery but loses and reorders nothing",
 "After reading is suspended on a connection nothing is read from it beyond what was already read; after it is resumed all data arrives in order with nothing lost or repeated. Sending and other connections are not affected, and suspension can be requested from inside a message callback.",
 ["schedules","histories"],
 "All placements of suspend and resume relative to arrivals, inside and outside callbacks, with queued output and small buffers.",
 "Needs suspend and resume at arbitrary points of a fragmented stream with simultaneous output.",
 [CONN,LOOP],
 [("suspension","pomp_conn_suspend_read, pomp_conn_resume_read, pomp_conn_process_read")],
 "suspended flag and monitored events", "message and raw callbacks, reads seen by the simulated kernel")
prop("C16", "Shared buffers are immutable and freed exactly once",
 "A buffer with more than one reference refuses every modification, and its contents stay the same for every holder, including while the library itself holds it for a pending send or the application keeps a received raw buffer. References may be taken and dropped concurrently from several threads; the memory and descriptors of the buffer are released exactly once, when the last reference goes.",
 ["schedules","histories"],
 "All interleavings of reference changes by several threads with sends, completions and receptions that share the buffer.",
 "Reference count races and reuse of a read buffer still held by the application depend on interleaving and timing of reads.",
 ["src/pomp_buffer.c",CONN],
 [("reference counting","pomp_buffer_ref, pomp_buffer_unref"),("read buffer replacement","pomp_conn_process_read")],
 "reference count, buffer data", "buffer contents and return codes, memory checker")
prop("C17", "Raw connections carry the exact byte stream",
 "In raw mode the concatenation of the buffers notified to the receiver is exactly the concatenation of the buffers whose send was accepted, without loss, repetition, reordering or framing, and a notified buffer is never empty. A prefix relation holds at any time and equality once everything in flight has been delivered on a connection that stays up.",
 ["schedules","fault_sequences","inputs"],
 "All buffer sizes, shared buffers broadcast to several peers, partial writes, full socket buffers, any read buffer size.",
 "As for messages: partial and blocked writes at arbitrary offsets are not produced by loopback tests.",
 [CONN,CTX],
 [("raw send and receive","pomp_conn_send_raw_buf, pomp_conn_process_read_buf, pomp_ctx_notify_raw_buf")],
 "pending write queue and offset, read buffer", "raw data callback")
prop("C18", "A server keeps serving through accept failures and dying peers",
 "A started server stays registered and able to accept new connections whatever happens to individual peers or to individual attempts to accept: aborted or reset connections, exhausted descriptors or memory, peers gone before being accepted. A failed acceptance leaves no half-open connection behind and does not affect established ones.",
 ["fault_sequences","schedules"],
 "All failures of accepting and setting up a connection at any moment, with any mix of peers that connect, reset and vanish.",
 "Requires injecting failures into accept and socket set-up while other connections carry traffic.",
 [CTX,CONN],
 [("accept path","server_cb, server_accept_conn, pomp_conn_new")],
 "listening socket, connection list", "connected events, acceptance of new connections after faults")
prop("C19", "Failed allocations and system calls fail cleanly",
 "If memory or another resource runs out inside any call, that call reports failure (or the connection is dropped) without crashing, corrupting or leaking, and no partial effect is visible to the peer as corrupted data. Once resources are back, the same context, connection or loop works again.",
 ["fault_sequences","crash_points"],
 "All positions at which an allocation or system call can fail during any public operation or dispatch, single or repeated failures.",
 "Tests never fail an allocation; the property quantifies over every failure position in every history.",
 ["src/pomp_buffer.c","src/pomp_msg.c",PROT,CONN,CTX,LOOP,"src/pomp_encoder.c","src/pomp_decoder.c"],
 [("allocation error paths","pomp_prot_alloc_msg, pomp_conn_send_buf_internal, pomp_buffer_ensure_capacity, pomp_loop_idle_add")],
 "whatever object the failing call was building", "return codes, later behaviour, memory checker")
prop("C20", "A silently vanished TCP peer is detected within the keepalive time",
 "On TCP connections the keepalive settings in force in the context when the connection is established are applied on both the connecting and the accepting side; with keepalive enabled, a peer that vanishes without closing is reported as disconnected within idle plus interval times count seconds of silence. With keepalive disabled a quiet connection is never dropped for silence.",
 ["fault_sequences","configurations"],
 "All keepalive settings, power loss or partition at any moment, with and without traffic.",
 "Needs a peer that disappears without a closing packet and seconds of silence.",
 [CTX],
 [("keepalive set-up","fd_socket_setup_keepalive, server_accept_conn, client_complete_conn")],
 "socket options", "disconnected event and simulated time")
prop("C21", "Any callback may tear down or change what it runs in",
 "From inside any connection, message, raw, send, socket, timer, event, idle or descriptor callback the application may stop its context, disconnect any connection, change the read buffer size, suspend, send, remove descriptors and queue idle functions; the library then neither uses released objects nor skips or repeats other pending work. The effect is the same as if the call was made just after the callback, apart from the deferral of a context stop.",
 ["histories","schedules"],
 "All public calls made from all callbacks in any state, with several events pending in the same dispatch.",
 "The number of callback and call combinations with other events pending is far beyond the tests, and misuse shows only as memory errors in rare orders.",
 [CTX,CONN,LOOP],
 [("deferral and re-entrancy guards","pomp_ctx_stop, pomp_conn_cb, pomp_conn_process_read_buf, pomp_conn_disconnect")],
 "objects in use up the call stack", "memory checker and the lifecycle model")
prop("C22", "Listening addresses, socket files and peer identities are truthful",
 "While a server or datagram context is active its reported local address is the bound one, and for connections the reported local and peer addresses and Unix credentials are those of the real endpoints. The file of a Unix server socket exists with the requested access mode while it listens, replaces a stale one left by a crash, and is removed when the context is stopped; a stopped context reports no address.",
 ["histories","crash_points"],
 "All sequences of start, failed start, crash and restart, stop, with stale socket files and automatically assigned ports.",
 "Crash leftovers, retries after failure and concurrent owners are not part of the tests.",
 [CTX,CONN],
 [("bind and unlink","server_start, server_stop, dgram_start"),("addresses","pomp_conn_new, pomp_ctx_get_local_addr")],
 "bound addresses, socket file", "address getters, simulated file system")

prop("C23", "The C++ interface mirrors the C interface",
 "In a program that uses the C++ classes (libpomp.hpp, libpomp-cxx11.hpp) every guarantee of the C interface on streams, timers, descriptors and events holds as well. In addition: a connection has one Connection object from onConnected to onDisconnected, which every notification and getConnections use and which is freed afterwards; getConnections lists exactly the announced connections; notifications carry the object and handler they were registered with; typed messages have exactly the bytes of the same arguments written with a format string and read back to equal values; and a failure inside is returned, never reported as success.",
 ["schedules","histories","fault_sequences"],
 "All sequences of connections and disconnections of several clients, calls from notifications, failing allocations and system calls, argument values.",
 "No unit test includes the C++ headers at all.",
 ["include/libpomp.hpp","include/libpomp-cxx11.hpp"],
 [("connection objects","Context::eventCb, Context::findConn"),("typed messages","Message::write, Message::read, MessageFormat"),("handlers","Loop::fdEventCb, Timer::timerCb, Event::eventCb")],
 "list of Connection objects of a Context", "virtual methods of the handlers, return values, state of the simulated kernel")

prop("C24", "The command line tool sends, dumps, waits and ends as told",
 "pomp-cli sends the message of its command line, encoded as its format and arguments say, exactly once and nothing else: on the first connection made or, for datagrams, at once to the destination given. With --dump it prints the text of every message received, whole and in order; with --wait it runs until a message with the awaited id is received. It ends when what was asked is done, not before and not long after: the message completely handed over if it only sends, the awaited message received, the timeout passed without a connection (with --wait or datagrams: passed at all; it runs from the start and again from each disconnection), or SIGINT or SIGTERM received, at any moment. It then leaves nothing behind and never crashes. A malformed command line is refused with a failure status and nothing is sent.",
 ["inputs","schedules","fault_sequences"],
 "All option combinations, addresses, formats and arguments; peers that connect late, never, repeatedly, several at once, send while connecting and vanish; message sizes beyond socket buffers; signals at any instant, also while it ends; failing calls.",
 "No test runs the tool; its behaviour depends on signals, timeouts and partial sends at particular moments.",
 ["tools/pomp_cli.c"],
 [("events and end of the loop","event_cb, send_cb, timer_cb, sig_handler"),("command line and cleanup","main, send_msg, setup_timeout, cancel_timeout")],
 "options, timer, running flag", "bytes received by the peers, printed text, exit status, moment of the end")

prop("C25", "The Python implementation keeps the connection guarantees",
 "Over stream sockets the Python implementation writes to each connection exactly the messages sent on it, in order, and delivers each message received once, in order, until the connection ends. Notifications are well formed: a connection is announced once, before its messages, ended once, after them, and none comes after stop has returned or for an earlier start; the list of connections is exactly the announced ones. After any fault a client that is started connects again and a server listens again within a bounded time, and a peer whose machine vanished is found out within seconds. Datagrams are decoded each on its own and sent once, in order, to the address asked for. Stop, disconnect and send may be called at any moment, also in notifications; they do not fail, stop returns within a bounded time and leaves no thread and no socket, and no thread of the implementation dies whatever peers send or calls fail.",
 ["schedules","histories","fault_sequences"],
 "All interleavings of the threads of contexts and connections, sequences of operations in and outside notifications, byte streams and datagrams of peers, failing calls, partitions, resets and power losses.",
 "The stable tests run no Python at all; its guarantees rest on three threads per connection and one per context whose order matters.",
 ["python/pomp/context.py","python/pomp/connection.py","python/pomp/looper.py","python/pomp/protocol.py"],
 [("threads of a context","Context._runServer, _runClient, _runDgram, stop, _onRequest"),("threads of a connection","Connection._reader, _writer, start, close"),("message loops","looper._Loop, stepLoop")], "list of connections, running flags, semaphore of connections", "notifications, bytes at the simulated sockets, threads and sockets alive, results of calls")
prop("C26", "The Python command line tool sends, dumps and ends as told",
 "pompcli.py sends the message of its command line, encoded as its format and arguments say, at most once and nothing else: on the first connection made or, for datagrams, to the destination given; a message that fits the socket's buffer is sent whole if the peer stays. It listens, connects or binds on the address given only. With --dump it logs the text of every message received and survives malformed ones. It ends when what was asked is done, not before and not long after: the first connection made (without --dump), the timeout passed without a connection (it runs from the start and again from each disconnection), or an interruption from the keyboard; nothing keeps the process alive then. A malformed command line is refused with a failure status and nothing is sent.",
 ["inputs","schedules","fault_sequences"],
 "All option combinations, addresses, formats and arguments; peers that connect late, never, repeatedly, several at once, send valid and malformed messages and vanish; interruptions; failing calls; interleavings of its threads.",
 "No test runs the tool; its behaviour depends on threads, timeouts and peers at particular moments.",
 ["python/pompcli.py","python/pomp/context.py"],
 [("events and end of the loop","App.onConnected, onDisconnected, recvMessage, onTimer, run"),("command line","main, parseArgs"),("timeout","App.setupTimeout, cancelTimeout")],
 "options, timer", "bytes received by the peers, log, exit status, moment of the end of the process")
prop("C33", "The Python implementation encodes and decodes the same protocol",
 "A message written by the Python implementation has the bytes that protocol.txt prescribes, the same that the C library writes and reads, and reads back and is dumped as the same identifier and values for every supported type. Formats that are invalid or do not match, arguments that do not fit and payloads that are cut are refused. A stream of messages in any pieces, with anything between them, is decoded into all its messages, once and in order. Textual addresses are parsed into the address they name or refused.",
 ["inputs","histories"], "All formats and argument values, all pieces of the byte stream, all garbage between messages, all texts of addresses.", "No stable test runs it; round trips and resynchronisation must hold for every value and piece.",
 ["python/pomp/encoder.py","python/pomp/decoder.py","python/pomp/message.py","python/pomp/buffer.py","python/pomp/protocol.py","python/pomp/__init__.py"],
 [("argument encoding","Encoder.write, Decoder.read, Decoder.dump"),("incremental decoding","Protocol.decode"),("addresses","parseAddr")], "bytes of the message, state of the stream decoder", "bytes, values, texts and refusals")

prop("C30", "Message arguments round-trip through encoding and decoding",
 "A message written in any of the ways the interface offers (arguments with a format, strings, one argument at a time, mixed), copied, or decoded from its bytes received in any pieces has the bytes that protocol.txt prescribes and reads back, in any of the ways to read, as the same identifier and argument values for every supported type. A format that is invalid or does not match, and a payload that is cut short, are reported as errors. When memory or descriptors run out at any point the operation reports failure, leaks nothing, changes nothing else, and the message can be cleared and written again.",
 ["inputs","fault_sequences","histories"], "All formats and argument values, all pieces of the byte stream, and every sequence of failing allocations and descriptor duplications.",
 "Unit tests encode a finite set of values and no allocation or duplication of a descriptor ever fails in them; round trip and cleanup must hold for every value, way of writing and failure.",
 ["src/pomp_encoder.c","src/pomp_decoder.c","src/pomp_msg.c","src/pomp_prot.c","src/pomp_buffer.c"],
 [("argument encoding","pomp_encoder_writev, pomp_encoder_write_argv, pomp_decoder_readv, pomp_decoder_walk"),("copies","pomp_msg_new_copy, pomp_buffer_new_copy"),("incremental decoding","pomp_prot_decode_msg")], "bytes of the message and descriptors registered in its buffer", "results of the decoder; bytes of the buffer; descriptors and memory in the simulated kernel")
prop("C31", "Textual addresses parse and format consistently",
 "Parsing a textual address and formatting the result gives an equivalent address for inet, inet6, unix and abstract unix forms. Malformed text, also a port that does not exist or a path that is too long, is rejected, and neither parsing nor formatting overruns the buffer of the caller, whatever its size. The product root is put before the path of unix addresses that have one and nothing else. When memory runs out the call reports failure and leaves nothing allocated.",
 ["inputs","fault_sequences","configurations"], "All texts, addresses, buffer sizes and product roots, and every allocation that may fail, those of the resolver included.", "A finite set of strings is tested with ample buffers and no failure.",
 ["src/pomp_addr.c"], [("parsing","pomp_addr_parse, pomp_addr_parse_inet"),("formatting","pomp_addr_format"),("product root","pomp_addr_get_real_addr")], "none", "return values and the contents of the buffers around what was given")
prop("C32", "Message dumps are bounded and faithful",
 "Dumping a message in readable form never writes beyond the given size and always terminates the text, with an ellipsis when it was cut. The allocating form contains every argument, or reports failure and leaves nothing allocated when memory runs out or the message is malformed.",
 ["inputs","fault_sequences"], "All messages, also malformed ones, all buffer sizes, and every allocation that may fail.", "A finite set of messages is tested and no allocation fails.",
 ["src/pomp_msg.c","src/pomp_decoder.c"], [("dump","pomp_msg_dump, pomp_msg_adump, pomp_decoder_dump, pomp_decoder_adump")], "none", "text output and the memory around it")

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
