"""What each check runs: (build, harness key, weight, extra violation tags)."""
COMPONENTS = {
    "real": ["all of libpomp's C sources compiled from /repo/src (contexts, connections, protocol, encoder/decoder, buffers, loops with epoll and poll back ends, timerfd and POSIX timers, eventfd and pipe events, watchdog)", "for C23 also the C++ interface, include/libpomp.hpp and libpomp-cxx11.hpp", "for C24 also the command line tool, tools/pomp_cli.c"],
    "stub": ["the system calls and C library functions the library refers to (sockets, epoll, poll, timers, pipes, eventfd, files, clocks, memory allocation, threads, mutexes, conditions, signals): a simulated kernel", "the application: generated workloads"],
}
ASSUMPTIONS = [
    "the simulated kernel follows Linux semantics for the calls libpomp makes (TCP/Unix streams with SCM_RIGHTS, UDP, epoll, poll, timerfd, eventfd, pipes, POSIX timers and threads)",
    "a clean search is evidence on the sampled schedules and faults, not a proof",
]
PYTHON = {
    "real": ["all of the Python implementation, python/pomp (contexts, connections, looper, protocol, encoder, decoder, messages, buffers, addresses) and, for C26, python/pompcli.py, loaded from /repo's working tree"],
    "stub": ["the modules threading, queue, time, socket and logging: threads are tasks of one scheduler, the clock is virtual, sockets, addresses and the network are simulated", "the application and the peers that are not the implementation: generated workloads"],
    "assumptions": ["the simulated modules follow the documented behaviour of Python's threading, queue, time and socket modules on Linux; a thread may be pre-empted at every call of them and, in part of the runs, between any two lines", "a clean search is evidence on the sampled schedules and faults, not a proof"],
}
S = "seeded pseudo-random schedule, workload and fault sequence over the real library code on the simulated kernel; "
NET = S + "1 to 3 simulated processes with servers and clients of the library over simulated TCP and Unix sockets, raw peers that follow the protocol or not, all public operations at random instants from outside and inside callbacks; short reads and writes, full buffers, interrupted and failing calls, failing allocations, resets, partitions, crashes, power losses, stalls; then faults stop, everything has to recover, a last client probes each server, and all is torn down. "
MSG = S + "one simulated process writes messages of up to 24 arguments of all types with boundary and random values in every way the interface offers (format and va_list, variadic, strings, one argument at a time, mixed), reads them back with full, shorter, mismatched and invalid formats, one argument at a time, copies, clears and destroys them, makes messages of valid, cut and malformed bytes, decodes streams of messages in random pieces and dumps them into buffers of every size, while allocations and descriptor duplications fail at random positions; bytes, values, texts, open descriptors and live memory are compared with a model after each step."
PROPS = {
    "C01": {"parts": [("A", "C01", 1, ["C05", "C15"])], "rule": NET + "Every message delivered is compared with the history of accepted sends of the other end of the same kernel connection; mostly message contexts."},
    "C02": {"parts": [("A", "C02", 4, []), ("A", "C09", 1, [])], "rule": NET + "All contexts have a send callback; each notice is compared with the queue of accepted sends and with the number of bytes the simulated kernel took. Also the datagram scenario of C09."},
    "C03": {"parts": [("A", "C03", 5, []), ("A", "C09", 1, [])], "rule": NET + "Half of the callbacks make calls; stops, restarts and disconnections are frequent; an automaton per connection and per context judges each callback. Also the datagram scenario of C09."},
    "C04": {"parts": [("A", "C04", 4, ["C19"]), ("A", "C09", 1, [])], "rule": NET + "TCP; many refused and failing attempts, late addresses, partitions, restarts; attempts are seen by the simulated kernel; connection and listening are required 25 s after the last fault. Also the datagram scenario of C09."},
    "C05": {"parts": [("A", "C05", 1, ["C01", "C17", "C18"])], "rule": NET + "Many peers, also stalled ones and more than 32 on one server, broadcasts."},
    "C06": {"parts": [("A", "C06", 4, []), ("A", "C09", 1, ["C09"])], "rule": NET + "Unix sockets, messages with descriptors, hostile peers attaching too many, too few or unannounced ones, descriptor limits. Also the datagram scenario of C09."},
    "C07": {"parts": [("A", "C07", 4, ["C18", "C06"]), ("A", "C09", 1, ["C06"]), ("A", "C10", 1, ["C07"])], "rule": NET + "The tables of the simulated kernel and the heap are compared with what exists, while running and after teardown; frequent stops and destructions, failing calls. Also the datagram scenario of C09."},
    "C08": {"parts": [("A", "C08", 4, ["C01", "C05", "C18"]), ("A", "C30", 1, [])], "rule": NET + "Hostile peers write garbage, partial magics, wrong sizes, malformed arguments and valid messages in arbitrary pieces; a reference decoder of the byte stream says what has to be delivered."},
    "C09": {"parts": [("A", "C09", 3, ["C02", "C03", "C04", "C06", "C07", "C15", "C22"]), ("B", "C09", 1, ["C02", "C03", "C04", "C06", "C07", "C15", "C22"])], "rule": S + "1 to 3 simulated processes with datagram contexts over UDP (IPv4 and IPv6) and Unix datagram sockets, message and raw mode, sending to each other, replying in callbacks, stopping, suspending and changing the read buffer size; raw peers that send valid, truncated, concatenated, garbage, empty and descriptor carrying datagrams; loss, duplication, reordering, truncation, corruption, full socket buffers, failing sends and reads, late addresses; a reference decoder per datagram says what has to be delivered, the simulated kernel sees each address and each datagram."},
    "C10": {"parts": [("A", "C10", 1, ["C07"])], "rule": S + "1 to 4 timers on one loop are created, set, cleared, set again and destroyed at random instants, also from callbacks, with both timer back ends and delayed dispatching."},
    "C11": {"parts": [("B", "C11", 2, ["C12", "C07", "RACE"]), ("A", "C11", 1, ["C12", "C07"])], "rule": S + "1 to 3 threads beside the loop's thread add and remove idle functions, with and without cookies, wake the loop up and signal events while the loop's thread dispatches, flushes and does the same from callbacks; pre-emption at every call (A) and at every memory access of the library (B, with a happens-before race detector)."},
    "C12": {"parts": [("B", "C12", 1, ["C11", "RACE"]), ("A", "C12", 1, ["C11"])], "rule": S + "1 to 3 threads signal and clear events and wake the loop up while its thread waits, dispatches, attaches and detaches; both event back ends; long series of wakeups without a dispatch; a wait for ever that a wakeup should have ended is a deadlock of the simulation."},
    "C13": {"parts": [("A", "C13", 1, ["C07"])], "rule": S + "up to 20 descriptors of pipes and socket pairs on one loop are added, updated, removed, closed and reused by number, also from callbacks of the same wait, with both loop back ends; each callback is compared with the registration and with the readiness in the simulated kernel; level-triggered events have to be reported within two waits."},
    "C14": {"parts": [("A", "C14", 2, ["C07"]), ("B", "C14", 1, ["C07", "RACE"])], "rule": S + "one or two loops with watchdogs, each with its own thread; dispatches shorter than, about as long as and longer than the delay; enabling, changing and disabling inside and outside dispatches; failing thread creation, spurious wakeups, interrupted waits, jumps of the wall clock, clock readings on round values; a dispatch longer than the delay by 50 ms has to have called the watchdog exactly once."},
    "C15": {"parts": [("A", "C15", 4, ["C01", "C17"]), ("A", "C09", 1, [])], "rule": NET + "Frequent suspending and resuming; reads of the library are seen by the simulated kernel. Also the datagram scenario of C09."},
    "C16": {"parts": [("B", "C16b", 2, ["RACE", "C07"]), ("A", "C16b", 1, ["C07"]), ("A", "C16", 2, ["C17", "C07"])], "rule": S + "1 to 4 threads share buffers and messages made of them: take, hand over and drop references, copy, read and try every modification, with failing allocations and descriptor duplication; the number of references that surely and possibly exist decides what each call may answer; pre-emption at every memory access of the library (B, with a happens-before race detector). Also the network scenario, in which the application keeps received and sent raw buffers and compares them later."},
    "C17": {"parts": [("A", "C17", 1, ["C15"])], "rule": NET + "Raw contexts; the concatenation of what is notified is compared with that of the accepted buffers."},
    "C18": {"parts": [("A", "C18", 1, ["C05"])], "rule": NET + "Failing accepts, exhausted descriptors, floods of peers that vanish; at the end a new client of each server has to be served."},
    "C19": {"parts": [("A", "C09", 1, ["C02", "C03", "C04", "C06", "C07", "C09"]), ("A", "C19", 4, ["C01", "C02", "C03", "C04", "C06", "C07", "C11", "C16", "C17", "C18"])], "rule": NET + "Every allocation and system call of the library may fail. Also the datagram scenario of C09."},
    "C20": {"parts": [("A", "C20", 1, [])], "rule": NET + "TCP, keepalive settings changed at random, partitions and power losses with little traffic; the options of each socket are seen by the simulated kernel, which also plays the keepalive probes."},
    "C21": {"parts": [("A", "C09", 1, ["C02", "C03", "C07", "C09", "C15"]), ("A", "C21", 4, ["C01", "C02", "C03", "C11", "C12", "C13", "C15", "C17"])], "rule": NET + "Half of the callbacks of all kinds make one to four calls. Also the datagram scenario of C09."},
    "C22": {"parts": [("A", "C22", 4, []), ("A", "C09", 1, [])], "rule": NET + "Unix servers with access modes, crashes that leave socket files, restarts; addresses and credentials are compared with the simulated kernel's. Also the datagram scenario of C09."},
    "C24": {"parts": [("A", "C24", 1, ["C07"])], "rule": S + "one simulated process runs the tool's main() with a random command line (client, server or datagrams over TCP, UDP, Unix sockets; dump, wait, timeout; up to 24 arguments and 60 kB; malformed ones), 1 to 3 raw peers listen, connect, send messages in pieces, stall, close and reset at random instants, SIGINT and SIGTERM arrive at random instants including inside malloc() and free(), calls and allocations fail; what the peers receive, what is printed and when and how the tool ends are compared with the command line and the events it was given"},
    "C25": {"parts": [("P", "PYS", 3, []), ("P", "PYD", 1, [])], "rule": "seeded pseudo-random schedule, workload and fault sequence over the real Python implementation on simulated threads, queues, clock and sockets; a server and up to three clients, each with its own threads, over simulated TCP (IPv4, IPv6) and Unix sockets, raw peers that send valid or malformed messages in pieces, connect and vanish in series, stall, reset and lose power, or up to three datagram contexts and raw senders; messages, broadcasts, disconnections, stops and restarts at random instants from outside and inside notifications; short reads and writes, full buffers, failing calls, partitions, late addresses, lost, doubled, late and truncated datagrams; then faults stop, every client has to be connected again, what was sent has to arrive, and all is stopped."},
    "C26": {"parts": [("P", "PYT", 1, [])], "rule": "seeded pseudo-random schedule, workload and fault sequence over the real python/pompcli.py and Python implementation on simulated threads, queues, timers, clock and sockets; one simulated process runs the tool's main() with a random command line (client, server or datagrams over TCP, UDP, Unix sockets; dump, timeout; up to 5 arguments; malformed ones), peers listen, connect, send valid and malformed messages in pieces, stall, close and reset at random instants, an interruption arrives at a random instant, calls fail; what is sent, what is logged and when and how the process ends are compared with the command line and the events it was given."},
    "C33": {"parts": [("P", "PYC", 1, [])], "rule": "seeded pseudo-random messages of all types with boundary and random values are encoded and decoded by the real Python implementation, cut, corrupted and read with other formats, dumped, sent as streams with garbage between them in random pieces, and addresses are parsed; bytes, values and texts are compared with an independent implementation of protocol.txt."},
    "C30": {"parts": [("A", "C30", 1, ["C08", "C32"])], "rule": MSG},
    "C31": {"parts": [("A", "C31", 1, [])], "rule": S + "addresses of every form, with boundary and random contents, and malformed texts are parsed into and formatted into buffers of exact, larger and smaller sizes, and completed with the product root, while allocations fail, those of the resolver included; the socket address is built independently of the library"},
    "C32": {"parts": [("A", "C30", 1, [])], "rule": MSG},
    "C23": {"parts": [("A", "C23", 5, "*"), ("A", "C23t", 1, "*"), ("A", "C23l", 1, "*"), ("A", "C23e", 1, "*")], "rule": "the scenarios of C01 to C08 and C15 to C22 (connections), C10 (timers), C13 (descriptors) and C12 (events, threads) with every call that the C++ classes offer made through them, all their requirements included; " + NET + "In addition the list of Connection objects is compared with the notifications, freed objects are recognised by the address sanitizer, and typed messages of four formats are written, read and sent and compared with the same arguments written through the C interface."},
}
