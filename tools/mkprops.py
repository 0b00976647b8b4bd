#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per line)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                     observe_at=list(observe), hook_needed=hook)))

SIZE_HOOK = "compile-time override of the fixed buffer/table sizes (guard DW_VERIF), so that buffer-full and table-full states are reachable with small inputs"

prop("C01", "Every request on a TCP connection gets exactly one correct reply",
 "For every well-formed request a client sends to a node over TCP, the node sends back exactly one reply on that same connection, carrying the request's identifier, the requested reply size and a success status, and it sends nothing else. "
 "This holds however the byte stream is cut into pieces, however many requests are pipelined or interleaved over several connections, and whatever order their asynchronous parts complete in.",
 ["inputs", "schedules"],
 "every byte position(s) at which the request stream is cut, every mix of up to 4 pipelined requests (compute/store/load/forward) on 1-3 connections, every completion order and event order, up to a bounded number of deviations from the default schedule",
 "Shell tests send a few identical requests in one segment over loopback and only look at exit codes or one log line; segmentation, pipelining and out-of-order completion never occur.",
 ["src/dw_node.c", "src/connection.c", "src/request.c", "src/message.c"],
 [("receive-buffer framing", "src/connection.c:conn_recv, conn_next_message"),
  ("receive-buffer compaction when a request is replied to", "src/connection.c:conn_req_remove"),
  ("command execution loop and reply", "src/dw_node.c:process_single_message, reply, obtain_messages")],
 [("recv_buf/curr_recv_buf/curr_proc_buf", "bytes received, bytes consumed", "src/connection.h:conn_info_t"),
  ("message_ptr/curr_cmd", "where a pending request lives in the receive buffer", "src/request.h:req_info_t")],
 ["bytes arriving at the peer of each connection"], SIZE_HOOK)

prop("C02", "A request's commands run once each, in order, before its reply",
 "A node executes the commands of a request one after the other in the order given, each exactly once and each with the parameters of that request, and it sends the reply only after the last command preceding it has completed. "
 "A compute command consumes at least the requested CPU time (and not a multiple of it); nothing after the reply command is executed by that node.",
 ["programs", "schedules"],
 "all command chains up to a bounded length over {compute, store, load, forward} with distinguishable parameters, alone and overlapped with other requests, under all bounded schedules of connection worker and storage worker",
 "Tests only check that a client run exits 0; no test observes which operations were executed, in which order, or on behalf of which request.",
 ["src/dw_node.c", "src/message.c", "src/connection.c"],
 [("command loop", "src/dw_node.c:process_single_message"), ("busy computation", "src/dw_node.c:compute_for"),
  ("hand-off to the storage worker and resume on its acknowledgement", "src/dw_node.c:storage_worker, conn_worker"),
  ("command sizes and stepping", "src/message.c:cmd_type_size, cmd_next")],
 [("curr_cmd", "next command of a suspended request", "src/request.h")],
 ["CPU clock readings, storage system calls, forwarded messages and replies, in trace order"], SIZE_HOOK)

prop("C03", "Slow readers never lose, corrupt, reorder or stall the byte stream",
 "When a peer (client or forward target) reads slowly, so that the node can only send part of a message or nothing at all, the bytes the peer eventually receives are exactly the complete messages in the order the node produced them. "
 "Once the peer resumes reading, all pending messages are delivered without further input, the connection stays open (unless the backlog exceeds the node's send buffer), and other connections are not affected.",
 ["inputs", "schedules", "fault_sequences"],
 "all socket-buffer capacities in a bounded range, all points at which the peer drains any number of bytes, replies produced directly, after storage, after a forward or after a timeout, on up to 3 connections",
 "Tests use tiny messages over loopback where every send completes at once; the partial-send path is never executed.",
 ["src/connection.c", "src/dw_node.c"],
 [("send buffer append and partial send", "src/connection.c:conn_send_message, conn_start_send, conn_send"),
  ("EPOLLOUT arming and disarming", "src/dw_node.c:exec_request")],
 [("send_buf/curr_send_buf/curr_send_size", "bytes produced but not yet accepted by the kernel", "src/connection.h")],
 ["bytes arriving at the slow peer, order and completeness"], SIZE_HOOK)

prop("C04", "Forwards carry exactly the nested commands and wait for the required acks",
 "A forward command sends to each of its targets exactly one message containing exactly the commands nested between it and its matching reply, and the request resumes after that matching reply once the required number of targets has answered. "
 "Several forwards (pipelined, sequential or nested, to the same or different targets) complete independently, answers to requests that no longer exist are dropped, and surplus answers do not advance anything.",
 ["programs", "schedules", "histories"],
 "all nesting shapes of forward and multi-forward up to bounded depth, 1-3 targets, every required-ack count, every arrival order of the answers, with 1-3 concurrent requests sharing targets, connection establishment delayed or immediate",
 "test_forward.sh and test_multi_forward.sh run one request at a time against healthy nodes and look for one log line; overlapping forwards and answer orders are never exercised.",
 ["src/dw_node.c", "src/message.c", "src/connection.c"],
 [("sub-chain copy", "src/message.c:message_copy_tail, message_skip_cmds"),
  ("starting forwards and reusing connections", "src/dw_node.c:single_start_forward; src/connection.c:conn_find_existing"),
  ("matching answers to requests", "src/dw_node.c:handle_forward_reply, obtain_messages")],
 [("fwd_replies_left", "answers still required", "src/request.h")],
 ["messages arriving at each forward target; reply at the client"], SIZE_HOOK)

prop("C05", "Forward timeouts fire on time, retry as asked, then report failure",
 "A forward with a timeout that gets no answer is re-sent after each timeout, exactly as many times as requested, and then the request continues after the forward and is replied with a failure status; a forward answered in time never times out. "
 "Each deadline is honoured at its own time (never earlier, and not later because of other requests' deadlines), for any number of concurrent timed forwards, whatever order they are answered, expire or are cancelled in, and independent of request identifiers.",
 ["schedules", "histories", "fault_sequences"],
 "up to 4 concurrent forwards with all combinations of relative deadlines (equal, earlier, later), retries 0-2, each answered/never answered/answered late, all orders of answers and expirations, client identifiers equal to or different from internal ones",
 "test_forward_timeout.sh uses one request at a time (and is excluded as failing); no test has two pending deadlines.",
 ["src/dw_node.c", "src/priority_queue.c", "src/timespec.h"],
 [("deadline queue and timer re-arming", "src/dw_node.c:insert_timeout, remove_timeout"),
  ("expiry handling: retry, skip, fail", "src/dw_node.c:handle_timeout")],
 [("timeout_queue/time_elapsed", "pending deadlines relative to the armed timer", "src/dw_node.c:conn_worker_info_t")],
 ["virtual time of each re-send at the target and of the reply at the client"], SIZE_HOOK)

prop("C06", "Losing a connection at any point harms nothing but that connection",
 "When a client or a forward target closes or resets its connection at any moment, the node keeps running, the requests of all other connections are still answered correctly, and nothing of the lost connection's requests is ever sent on another connection. "
 "New connections accepted afterwards work normally, also when they reuse the resources of lost ones, and pending storage operations or deadlines of the lost requests are harmless.",
 ["fault_sequences", "schedules", "histories"],
 "every point (between any two system calls of the node) at which a peer closes or resets, with requests pending on compute, storage, forward or timeout, followed by new connections; up to 2 losses",
 "test_conn_drop.sh drops one client in one state (compute only).",
 ["src/dw_node.c", "src/connection.c", "src/request.c"],
 [("connection teardown", "src/dw_node.c:exec_request (error path), close_and_forget; src/connection.c:conn_free"),
  ("request table lookup by identifier", "src/request.h:req_get_by_id"), ("slot reuse", "src/connection.c:conn_alloc; src/request.c:req_alloc")],
 [("req_list", "requests of a connection", "src/connection.h")],
 ["node liveness, replies on surviving and new connections, memory accesses"], SIZE_HOOK)

prop("C07", "Store and load touch exactly the requested bytes of the storage file",
 "A store of n bytes writes exactly n bytes, contiguously, at the given offset or, without an offset, right after the previous access, restarting from the beginning when the configured maximum size would be exceeded; a load of n bytes reads exactly n bytes under the corresponding rule over the written extent (with direct I/O, sizes and offsets are rounded to whole blocks). "
 "The storage file never grows beyond its maximum size through sequential stores not larger than it, short reads and writes by the operating system are completed, and no operation is lost, repeated or executed with another request's parameters.",
 ["inputs", "histories", "fault_sequences"],
 "all sequences of up to 4 store/load operations with sizes around the buffer and maximum sizes and offsets {none, 0, inside, at the end}, from one or more connections, with every short-count outcome of the storage system calls",
 "test_loadstore.sh checks one file size; offsets, wrap-around, chunking and short counts are not examined.",
 ["src/dw_node.c"],
 [("store and load", "src/dw_node.c:store, load"), ("completion of short counts", "src/dw_node.c:safe_write, safe_read")],
 [("storage_offset/storage_eof/max_storage_size", "position, written extent, limit", "src/dw_node.c:storage_info_t")],
 ["lseek/read/write calls on the storage file"], SIZE_HOOK)

prop("C08", "A synchronous store is acknowledged only after its data is on disk",
 "The reply to a request containing a synchronous store is sent only after the storage file has been synced at a moment following the completion of all of that store's writes, both in immediate and in periodic sync mode. "
 "In periodic mode every waiting request is released by the next sync, each exactly once and to the worker that owns it; non-synchronous stores and loads do not wait for a sync.",
 ["crash_points", "schedules"],
 "every interleaving of connection workers, storage worker and periodic timer with up to 4 synchronous/asynchronous stores from 1-2 workers; a crash right after any reply must find the data covered by a completed sync",
 "No test looks at fsync; test_storage.sh only checks exit codes.",
 ["src/dw_node.c", "src/priority_queue.c"],
 [("immediate sync", "src/dw_node.c:store"), ("periodic sync and waiting queue", "src/dw_node.c:storage_worker")],
 [("sync_waiting_queue", "requests waiting for the next periodic sync", "src/dw_node.c:storage_worker_info_t")],
 ["order of write, fsync and reply events"], SIZE_HOOK)

prop("C09", "With several worker threads each connection is served once, by one worker",
 "In every accept mode (per-worker, shared, parent) and for any interleaving of the worker threads, every accepted connection is served by exactly one worker, no two live connections or requests share internal slots, and every request is answered exactly as by a single-threaded node. "
 "A worker never blocks or stops serving its own connections because of what other workers do.",
 ["schedules", "configurations"],
 "2-3 workers in all three accept modes, 2-4 connections opened, used, forwarded and closed concurrently; all interleavings at system-call and shared-memory-access granularity up to a preemption bound",
 "Multi-thread tests run once with whatever interleaving the machine happens to produce.",
 ["src/dw_node.c", "src/connection.c", "src/request.c"],
 [("slot allocation", "src/connection.c:conn_alloc, conn_free"), ("request identifiers", "src/request.c:req_alloc"),
  ("accept and assignment", "src/dw_node.c:conn_worker, init_listen_sock"), ("per-thread forward connections", "src/connection.c:conn_find_existing")],
 [("busy/parent_thread", "slot ownership", "src/connection.h")],
 ["replies per connection, blocked threads"], SIZE_HOOK)

prop("C10", "Reported activity counters equal the real connections and requests",
 "Whenever the node is at rest, the statistics printed on request report, per worker and in total, exactly the number of open connections it serves (to clients and to forward targets) and of requests accepted but not yet replied to; in particular both are zero after all peers are gone. "
 "Asking for statistics at any moment does not lose or delay other events.",
 ["histories", "fault_sequences", "schedules"],
 "all bounded histories of connect/request/partial send/forward/refused forward/timeout/disconnect, in all accept modes with 1-2 workers, the statistics signal arriving at every point",
 "test_stats.sh (excluded as unstable) checks one history.",
 ["src/dw_node.c"],
 [("counter updates", "src/dw_node.c:exec_request, reply, obtain_messages, handle_timeout, conn_worker"),
  ("statistics event", "src/dw_node.c:conn_worker (STATS)")],
 [("active_conns/active_reqs", "per-worker counters", "src/dw_node.c:conn_worker_info_t")],
 ["statistics lines on standard output"], SIZE_HOOK)

prop("C11", "A termination signal always ends the node promptly and cleanly",
 "Whatever the node is doing when it receives SIGINT or SIGTERM (idle, serving, waiting for storage, forwards, timeouts or sync), all its threads finish and the process exits with status 0 without further input, having released its memory without invalid or double frees.",
 ["schedules", "configurations", "crash_points"],
 "the signal delivered between any two system calls of scenarios with 1-3 workers in all accept modes, storage idle/busy/periodic",
 "Tests kill the node with whatever signal is at hand at the end and ignore its exit status.",
 ["src/dw_node.c"],
 [("signal file descriptor watched by every thread", "src/dw_node.c:main, conn_worker, storage_worker"), ("joins and clean-ups", "src/dw_node.c:main")],
 [], ["process exit status, thread states, allocator state"], SIZE_HOOK)

prop("C12", "The client sends exactly the configured requests, on schedule",
 "Each client thread sends exactly the configured number of requests (rounded up to a multiple of the sessions), identified 0,1,2,... and split evenly over its sessions, one connection per session, each a complete well-formed message that contains the configured commands and has the configured size (or the size of its commands if that is larger). "
 "Within a session, request k is never sent before the session start plus the sum of the first k inter-send periods, and late sends do not shift the schedule of later ones.",
 ["configurations", "schedules"],
 "all combinations of threads 1-2, sessions 1-3, packets 1-5, periods/rates, sleeping or spinning wait, packet sizes from too small to large, under all bounded interleavings of sender, receiver and server",
 "Tests check exit codes and grep a few output lines for one configuration at a time; what goes over the wire and when is never observed.",
 ["src/dw_client.c", "src/ccmd.c", "src/distrib.c", "src/timespec.h"],
 [("sender loop and absolute-time pacing", "src/dw_client.c:thread_sender"), ("session management", "src/dw_client.c:thread_receiver"),
  ("packet count rounding", "src/dw_client.c:argp_client_parse_opt")],
 [("first_pkt_id/num_send_pkts", "range of a session", "src/dw_client.c:thread_data_t")],
 ["bytes and send times at the server side"], SIZE_HOOK)

prop("C13", "The client's report is complete and true",
 "When the client ends it has printed exactly one line per request it sent, with that request's send time and an elapsed time equal to the interval between its sending and the arrival of its reply, or 0 if no successful reply came. "
 "This holds for any segmentation and order of the replies, any total amount of data, failed replies, and connections dropped by the server at any point: the client neither crashes nor hangs, and the remaining sessions still run.",
 ["schedules", "fault_sequences", "histories"],
 "servers that answer in every order, cut replies at every byte, report failures, or close at every point of every session, with 1-2 threads, 1-3 sessions, both output modes, replies exceeding the receive buffer in total",
 "Tests only run against a healthy node with in-order replies and small totals.",
 ["src/dw_client.c", "src/connection.c"],
 [("receiver loop, fast-forward on failure", "src/dw_client.c:thread_receiver"), ("timestamps", "src/dw_client.c:thread_sender")],
 [("usecs_send/usecs_elapsed", "send time and latency per request", "src/dw_client.c")],
 ["standard output lines vs. recorded wire events"], SIZE_HOOK)

prop("C14", "Connection retries happen as often and as spaced as configured",
 "A client thread that cannot connect tries exactly as many times as configured, waiting the configured period between attempts, and proceeds normally if any attempt succeeds; if all fail, the client reports the failure and exits with a failure status. Every failed attempt releases its socket.",
 ["fault_sequences", "configurations"],
 "all patterns of refused/accepted attempts up to the retry count 1-4, over 1-3 sessions and 1-2 threads",
 "test_retry_*.sh cover one success and one failure pattern.",
 ["src/dw_client.c"], [("retry loop", "src/dw_client.c:connect_retry")], [], ["connect attempts and their times, exit status"], None)

prop("C15", "The command line and script files build the request that was asked for",
 "For every sequence of client options, the request template contains exactly the requested commands in order, every forward has exactly one matching reply with the size and ack count given for it (or the defaults), and the chain ends with the reply to the client; a skip never goes past the reply that ends its level. "
 "Options have the same effect whether given on the command line or in a script file.",
 ["inputs", "programs"],
 "all option sequences up to a bounded length over compute/store/load/skip/forward/multi-forward/reply and their modifiers, in both spellings and in scripts",
 "test_client_opts.sh and test_script.sh try a handful of combinations and check the exit status.",
 ["src/dw_client.c", "src/ccmd.c", "src/queue.c"],
 [("option handling and deferred replies", "src/dw_client.c:argp_client_parse_opt"), ("script handling", "src/dw_client.c:script_parse")],
 [("deferred_replies", "replies reserved for open forwards", "src/dw_client.c")],
 ["printed request template and the bytes of the first request sent"], None)

prop("C16", "Encoding, skipping and splitting of command chains are exact",
 "A message encoded from a template holds exactly the template's commands with their sampled parameters, followed by the end mark and within the available space, leaving out exactly the commands that a skip decision covers; skipping n commands treats a forward with everything up to its matching reply as one command and never goes past the reply of the current level. "
 "Splitting off the commands of a forward yields exactly the nested commands up to and including the matching reply, for every chain shape.",
 ["programs", "inputs"],
 "all well-bracketed command chains up to 7-8 commands including multi-forward runs, all skip counts, all skip outcomes, all start positions, all available sizes around the exact fit",
 "test_ccmd.c checks three fixed chains; nesting and skip combinations are not covered.",
 ["src/ccmd.c", "src/message.c"],
 [("encoding", "src/ccmd.c:ccmd_dump, ccmd_skip"), ("wire-level skip and copy", "src/message.c:message_skip_cmds, message_copy_tail")],
 [], ["encoded bytes vs. reference encoder"], None)

prop("C17", "The priority queue always yields a smallest element and keeps handles valid",
 "After any sequence of insertions, removals by handle and pops, the queue's top is an element with the smallest key among those present, its size is right, and every handle returned by an insertion still refers to its own key and data until that element is removed.",
 ["histories"],
 "all operation sequences up to a bounded length with keys from a small set, capacities 1-6, including full and empty queue states and slot reuse",
 "test_pqueue.c runs four fixed sequences.",
 ["src/priority_queue.c", "src/priority_queue.h"],
 [("heap maintenance", "src/priority_queue.c:up, down, pqueue_insert, pqueue_remove, pqueue_pop")],
 [("heap/stack/nodes", "heap order, free slots, elements", "src/priority_queue.h")], ["top/size/handles after every operation"], None)

prop("C18", "The bounded queue behaves as a double-ended queue",
 "After any sequence of enqueue, dequeue-head, dequeue-tail and drop operations the queue holds exactly the elements a double-ended queue would hold, in order, never exceeding its capacity; operations on a full or empty queue have no effect on its contents.",
 ["histories"],
 "all operation sequences up to a bounded length for capacities 1-5 from every reachable wrap-around position",
 "test_queue.c runs a few sequences that never wrap around.",
 ["src/queue.c", "src/queue.h"], [("circular indices", "src/queue.c:queue_enqueue, queue_dequeue_head, queue_dequeue_tail")],
 [("head/tail/size", "ring indices", "src/queue.h")], ["head, tail, size after every operation"], None)

prop("C19", "Time arithmetic is exact and ordered",
 "Adding and subtracting non-negative times gives the exact normalized result and are inverse to each other, differences in microseconds are the exact quotient rounded down, comparison of different times agrees with their exact difference, and conversion between microseconds and timer settings is exact in both directions.",
 ["inputs"],
 "all pairs/triples of times from a grid of boundary seconds and nanoseconds, and all microsecond values around every carry boundary",
 "test_timespec.c checks a dozen values.",
 ["src/timespec.h"], [("carry handling", "src/timespec.h:ts_add, ts_sub, ts_sub_us, ts_leq, us_to_its, its_to_us")], [], ["returned values vs. 128-bit reference"], None)

prop("C20", "Sampled values respect the distribution given by the user",
 "Every specification accepted by the parser yields the value, bounds, unit scaling and step that the documented syntax states, specifications lacking a needed parameter are refused, and every sample drawn from a random distribution lies within its bounds; sequences run through their steps and stay at the last value, file samples are replayed in order and cyclically. "
 "For given random draws the sampled value is the one the distribution's definition prescribes.",
 ["inputs", "histories"],
 "all specifications from a grammar of distributions x parameters x units, all sequences of random draws from a grid up to a bounded length",
 "test_distrib.c checks averages of a few distributions with one random stream.",
 ["src/distrib.c", "src/distrib.h"], [("parser", "src/distrib.c:pd_parse_internal, sscanf_unit"), ("sampling", "src/distrib.c:pd_sample")],
 [("pd_spec_t", "distribution and sequence position", "src/distrib.h")], ["samples vs. reference implementation driven by the same draws"], None)

prop("C21", "Host, port and protocol are parsed as documented",
 "Every address of the documented form, with any combination of protocol prefix, host and port present or absent, yields the given protocol, host and port, and missing parts keep their defaults. Ports that are not numbers or are out of range, unknown protocols and unknown hosts are rejected.",
 ["inputs"],
 "all combinations of protocol prefix x separator x host x port from a grammar",
 "test_node_opts.sh covers about ten of them through log lines.",
 ["src/address_utils.c"], [("parsing", "src/address_utils.c:addr_proto_parse, addr_parse")], [], ["resulting address and protocol"], None)

prop("C22", "CPU lists select exactly the listed cores and are assigned round robin",
 "A CPU list in taskset syntax selects exactly the listed cores, where every range has its own step, and worker threads are pinned in order to the selected cores in increasing order, wrapping around, the storage thread taking the next one. Malformed lists and cores that do not exist are refused.",
 ["inputs"],
 "all lists of up to 3 items (single, range, range with step) over small core counts; all iterator positions",
 "test_affinity scripts check a few lists by exit status.",
 ["src/thread_affinity.c", "src/dw_node.c"], [("list parsing and iteration", "src/thread_affinity.c:aff_list_parse, aff_it_init, aff_it_next")], [], ["resulting CPU mask and pinning calls"], None)

prop("C23", "UDP requests are answered to their sender and the socket stays usable",
 "Over UDP, every request datagram is answered by exactly one reply datagram to the address it came from, with the right identifier, size and status, for any interleaving of clients and of asynchronous completions, also when requests are forwarded over UDP or TCP. "
 "The node's UDP socket stays usable after any number of requests and forwards.",
 ["schedules", "histories", "configurations"],
 "up to 3 clients x 2 requests with compute/store/forward chains over UDP and TCP, all arrival and completion orders, 1-2 workers",
 "test_udp.sh sends one request at a time from one client.",
 ["src/dw_node.c", "src/connection.c"],
 [("per-request target", "src/connection.c:conn_req_add, conn_start_send"), ("UDP forwards", "src/dw_node.c:single_start_forward; src/connection.c:conn_find_existing")],
 [("target", "address to answer to", "src/request.h")], ["datagrams per destination"], SIZE_HOOK)

prop("C24", "Client and nodes together: latencies cover the work done on the whole path",
 "When real client and real nodes run together, the client's run completes with every request answered, and the elapsed time reported for a request is at least the computation it requested along its whole path (all hops it waits for) and, all processes sharing one processor, at most the computation asked for by all requests together.",
 ["schedules", "configurations"],
 "client with 1-2 threads and 1-3 nodes, chains with local compute, forwards, nested forwards and multi-forwards, all bounded interleavings of the processes",
 "Tests check that the client exits, not what latency it reports.",
 ["src/dw_client.c", "src/dw_node.c", "src/message.c", "src/ccmd.c"],
 [("end-to-end path", "src/dw_client.c:thread_sender, thread_receiver; src/dw_node.c:process_single_message, reply")],
 [], ["client report lines vs. virtual clock"], SIZE_HOOK)

prop("C25", "Scheduling and socket settings reach every thread and connection they concern",
 "The scheduling policy and its parameters given to a program are in force on every thread that serves or sends requests before it does so, and the value given for immediate sending is in force on every TCP connection, accepted or opened, before anything is sent on it. "
 "A policy the system refuses and malformed settings end the program with an error instead of running with other settings.",
 ["configurations", "inputs", "schedules"],
 "every policy and parameter from a grid x 1-3 workers x accept modes x spellings and orders of the options, TCP and UDP, client with 1-2 threads and sessions, the system accepting or refusing",
 "Tests cannot see the parameters of a thread or a socket from outside, and need privileges.",
 ["src/dw_node.c", "src/dw_client.c"],
 [("scheduling", "src/dw_node.c:conn_worker, argp_node_parse_opt"), ("socket options", "src/dw_node.c:conn_worker, single_start_forward; src/dw_client.c:connect_retry")],
 [], ["parameters in force in the simulated kernel when bytes are received or sent"], SIZE_HOOK)

prop("C26", "Serving and losing connections for ever uses up nothing",
 "However often the same course of connections, requests, forwards, timeouts, losses and refusals is repeated, the node goes on answering, and its open descriptors, allocated memory and threads do not grow with the number of repetitions. "
 "The same holds for the client with the number of its sessions.",
 ["histories", "fault_sequences", "configurations"],
 "all histories of up to 3 (4) operations after each of several openings, over connect, requests of every kind, answers, stray answers, closing and resetting by clients and targets, each repeated 10 times; tables full; 1-2 workers, accept modes, UDP; client sessions answered or lost at any request",
 "Tests run a node for seconds; what leaks per connection shows after thousands of them.",
 ["src/dw_node.c", "src/connection.c", "src/request.c", "src/dw_client.c"],
 [("connection table", "src/connection.c:conn_alloc, conn_free"), ("request table", "src/request.c:req_alloc, req_free"), ("closing", "src/dw_node.c:close_and_forget; src/dw_client.c:thread_receiver")],
 [("conns, reqs", "tables of connections and requests", "src/connection.c, src/request.c")], ["answers after each repetition; descriptors, heap and threads in the simulated kernel"], SIZE_HOOK)

prop("C27", "What the operating system refuses is never taken for success",
 "When the operating system refuses a call that the node or the client makes (no descriptors, threads or memory for a connection, disk full, input/output errors, address in use), at start or at any later moment, the program either ends with an error message and a failure status, or drops only the connection concerned and goes on serving the others. "
 "It never crashes, never reports success for a store, load, forward or request that was not carried out, and never keeps a client waiting on an open connection.",
 ["fault_sequences", "configurations"],
 "every call of the run, one and two (three) failing in one run, with each error it can give, in nodes of every accept mode, storage mode and protocol under plain, computing, storing, loading and forwarding requests one by one and pipelined, and in clients with 1-2 threads and sessions; impossible storage positions; storage commands to a node without storage; start-up and small allocations and forwards without timeout to a lost target are not claimed",
 "Tests run where nothing is ever refused.",
 ["src/dw_node.c", "src/dw_client.c", "src/connection.c", "src/dw_debug.h"],
 [("checked calls", "src/dw_debug.h:sys_check"), ("storing", "src/dw_node.c:storage_worker"), ("watching descriptors", "src/dw_node.c:conn_worker"), ("threads", "src/dw_node.c:main; src/dw_client.c:main")],
 [], ["exit status, replies on the wire, calls on the storage file"], SIZE_HOOK)

prop("C28", "The node does what its options say, in every combination",
 "Whatever options are given to the node, in whatever order and spelling, it listens at the address and with the queue length given, keeps its data in the storage file given (or in none) within the maximum size given, accesses it directly and syncs it as given, and serves with the number of workers given in the accept mode given; what is not given has its default. "
 "Help, unknown options and missing arguments end it before it opens anything.",
 ["configurations", "inputs"],
 "all combinations of nine options, each absent or with one of its values, in two orders and four spellings; each option twice with any other one between; what ends the node",
 "Tests try single options with one value and look only at whether the node starts.",
 ["src/dw_node.c", "src/address_utils.c"],
 [("options", "src/dw_node.c:argp_node_parse_opt, main"), ("listening", "src/dw_node.c:init_listen_sock")],
 [], ["sockets, files, threads, accesses, syncs and replies for a fixed series of requests"], SIZE_HOOK)

prop("C29", "The client does what its options say, in every combination",
 "Whatever options are given to the client, in whatever order and spelling and however divided between the command line and a script file, it connects from and to the addresses given with the protocol given, with the threads, sessions, requests, sizes, commands, pace, stagger, attempts and socket settings given, waits by spinning or sleeping, and prints connection times and per-session reports exactly if asked to; what is not given has its default. "
 "Help, unknown options, missing or impossible arguments end it before it opens a connection.",
 ["configurations", "inputs"],
 "all combinations of a core of eleven options; every three (four) of seventeen options with all their values, none or all of the others given, in two orders, four spellings and three divisions between command line and script; each option twice with any other one between; what ends the client",
 "Tests try single options with one value and look only at whether the client ends with success.",
 ["src/dw_client.c", "src/address_utils.c"],
 [("options", "src/dw_client.c:argp_client_parse_opt, script_parse, main"), ("connecting", "src/dw_client.c:connect_retry"), ("running", "src/dw_client.c:thread_receiver, thread_sender")],
 [], ["sockets, attempts, requests, their times, sleeping and output towards a fixed server"], SIZE_HOOK)

path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(path, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
