"""Which generated units decide which property. q/t: cases in the quick/thorough tier."""


def U(h, v, u, q, **k):
    return dict(h=h, v=v, u=u, q=q, **k)


HARNESSES = {}      # per harness: extra sources, compile and link flags

D = "h_data"
PROPS = {
    "C01": dict(rule="Random histories of array operations over up to four arrays, mirrored in a plain vector model and compared after every step.",
                units=[U(D, "asan", "arrays", 3000000)]),
    "C02": dict(rule="Random texts over small alphabets (and all byte values) against direct reference implementations.",
                units=[U(D, "asan", "split", 2000000), U(D, "asan", "build", 2500000)]),
    "C03": dict(rule="Random byte strings: encode equals the reference, decode inverts it, damaged text and small buffers are refused.",
                units=[U(D, "asan", "base64", 5000000)]),
    "C04": dict(rule="URIs assembled from generated components and URI-like token soup.",
                units=[U(D, "asan", "uri", 2500000), U(D, "asan", "uri_any", 3000000)]),
    "C05": dict(rule="Random text/pattern pairs, numbers and paths against direct reference implementations.",
                units=[U(D, "asan", "search", 2500000), U(D, "asan", "number", 1800000), U(D, "asan", "path", 1800000)]),
    "C06": dict(rule="Random record arrays: the output is ordered and is the same multiset of records.",
                units=[U(D, "asan", "sort", 2000000)]),
    "C07": dict(rule="Random argument vectors and queries against a model of the documented option rules; one process per case.",
                units=[U(D, "asan", "opt", 150000)]),
}

X = "h_except"
PROPS["C09"] = dict(rule="Random programs of nested try/catch/finally blocks, throws, rethrows, signals and protected pointers; the event log must equal the reference interpreter's.",
                    units=[U(X, "plain", "nested", 1000000), U(X, "plain", "nested_scope", 700000), U(X, "plain", "nested_first", 60000),
                           U(X, "rel", "nested", 1000000), U(X, "rel", "threads", 60000), U(X, "noise", "threads", 15000), U(X, "plain", "uncaught", 40000),
                           U(X, "plain", "tasks", 30000), U(X, "rel", "tasks", 30000)])
S = "h_scope"
PROPS["C10"] = dict(rule="Random programs of nested guards with deferred functions, fences, recoveries, throws and breaks, and random thread-scope histories ended in different ways; the event log must equal the reference interpreter's.",
                    units=[U(S, "plain", "guard", 1200000), U(S, "plain", "fence", 800000), U(S, "plain", "mixed", 800000), U(S, "rel", "fence", 800000), U(S, "rel", "mixed", 800000), U(S, "plain", "exit", 50000),
                           U(S, "plain", "tasks", 25000), U(S, "rel", "tasks", 25000), U(S, "plain", "threads", 60000), U(S, "rel", "threads", 60000), U(S, "noise", "threads", 15000)])
K = "h_coro"
PROPS["C11"] = dict(rule="Random programs of tasks (spawned, nested, thousands of steps, all creation functions) under a virtual clock; the order of their steps must equal the reference scheduler's, locals and arguments must survive, awaits must see finished results.",
                    units=[U(K, "plain", "order", 60000), U(K, "rel", "order", 40000), U(K, "plain", "await", 50000), U(K, "rel", "await", 30000)])
PROPS["C12"] = dict(rule="Random trees of tasks that open task groups, fill them, yield or sleep and wait for them.",
                    units=[U(K, "plain", "group", 90000), U(K, "rel", "group", 60000)])
PROPS["C13"] = dict(rule="Random generators, their reads spread over the rest of the creator's program, some past the end.",
                    units=[U(K, "plain", "gen", 90000), U(K, "rel", "gen", 60000)])
PROPS["C14"] = dict(rule="Random programs of sleeping and yielding tasks under a virtual clock.",
                    units=[U(K, "plain", "sleep", 90000), U(K, "rel", "sleep", 60000)])
Q = "h_deque"
PROPS["C08"] = dict(rule="Random histories of push, take and steal against a plain model; generated interleavings of every single atomic access (with store buffers) of an owner and thieves; real threads. No item lost, doubled or invented.",
                    units=[U(Q, "plain", "seq", 2000000), U(Q, "rel", "seq", 1000000), U(Q, "plain", "sched", 4000000),
                           U(Q, "plain", "threads", 10000), U(Q, "rel", "threads", 10000)])
T = "h_thread"
PROPS["C17"] = dict(rule="Random programs of tasks that hand functions to pool threads and collect them in drawn orders and ways, and of threads with results, exceptions and deferred functions; each function runs once with its arguments, each result, errno or exception reaches the one waiting.",
                    units=[U(T, "plain", "queue", 5000), U(T, "rel", "queue", 5000), U(T, "plain", "future", 12000), U(T, "rel", "future", 12000),
                           U(T, "noise", "queue", 8000), U(T, "noise", "future", 8000)])
PROPS["C26"] = dict(rule="Random trees of tasks created with go() and in waitgroups of all sizes, from the main thread and from pool threads, with nested groups, yields, delays, awaits and deferred functions, over two to five processors.",
                    units=[U(T, "plain", "go", 3000), U(T, "rel", "go", 4000), U(T, "plain", "waitgroup", 5000), U(T, "rel", "waitgroup", 5000),
                           U(T, "plain", "burst", 2000), U(T, "noise", "go", 5000), U(T, "noise", "waitgroup", 6000), U(T, "noise", "burst", 4000)])
L = "h_loop"
PROPS["C15"] = dict(rule="Random histories of registrations, changes, traffic and closings over one or two loops, inside and outside callbacks, and over loops of several threads, and loops that end anywhere; poll(2) decides what each callback must get.",
                    units=[U(L, "plain", "fds", 110000), U("h_loops", "plain", "loops", 6000), U("h_loops", "noise", "loops", 2000), U("h_loops", "plain", "life", 6000), U("h_loops", "rel", "life", 6000), U(L, "rel", "fds", 70000)])
PROPS["C16"] = dict(rule="Random histories of timeouts, actors, repeats and waits over virtual time, inside and outside callbacks.",
                    units=[U(L, "plain", "time", 110000), U(L, "rel", "time", 70000)])
PROPS["C22"] = dict(rule="Random histories of signals added, deleted, raised (also in callbacks and threads), next to descriptors and timers.",
                    units=[U(L, "plain", "signals", 60000), U(L, "rel", "signals", 30000), U(L, "noise", "signals", 15000)])
N = "h_net"
PROPS["C19"] = dict(rule="Random programs of clients, servers, readers and writers over pipes, socket pairs, TCP and Unix sockets; every byte, end and address is checked; connections handed to the thread pool; streams, files and processes of several threads at once.",
                    units=[U(N, "plain", "stream", 50000), U(N, "rel", "stream", 40000), U(N, "plain", "stream_names", 6000),
                           U("h_fifo", "plain", "fifo", 15000), U("h_fifo", "rel", "fifo", 10000),
                           U(T, "plain", "serve", 1500), U(T, "rel", "serve", 1000), U(T, "noise", "serve", 1200), U(T, "plain", "io", 1200), U(T, "rel", "io", 800), U(T, "noise", "io", 1500)])
PROPS["C27"] = dict(rule="Random programs of senders, receivers, handlers and answers over UDP sockets.",
                    units=[U(N, "plain", "udp", 100000), U(N, "rel", "udp", 60000), U(N, "plain", "udp_names", 7000)])
PROPS["C25"] = dict(rule="Generated and damaged addresses against a reference parser; sockets bound to generated addresses and paths and asked for their name; names looked up by several tasks at once.",
                    units=[U(D, "asan", "addr", 4000000), U(D, "asan", "parseip", 1500000), U(N, "plain", "bind", 200000),
                           U(N, "plain", "paths", 25000), U(N, "rel", "paths", 15000), U(T, "plain", "lookup", 2000), U(T, "rel", "lookup", 1500), U(T, "noise", "lookup", 3000)])
C = "h_spawn"
PROPS["C20"] = dict(rule="Random scripts for up to eight child processes at a time, run by spawn(), spawn_cgi() and exec(): every byte they write and are sent, their arguments, environment, exit status and descriptors are checked; also started by tasks of several threads at once.",
                    units=[U(C, "plain", "spawn", 25000), U(C, "rel", "spawn", 15000), U(C, "plain", "exec", 20000), U(C, "rel", "exec", 10000),
                           U("h_thread", "noise", "io", 1500)])
G = "h_fs"
PROPS["C18"] = dict(rule="Random programs of file operations by up to five tasks; each is repeated by plain system calls in a twin directory, every result, errno, byte and tree must be the same.",
                    units=[U(G, "plain", "files", 5000), U(G, "rel", "files", 4000)])
R = "h_alloc"
PROPS["C21"] = dict(rule="Random histories of allocations, reallocations and frees of all sizes and alignments over a memory map that records every mapping and fails at drawn points, against an interval model; the same by several threads that hand blocks to each other, come and go; first allocations by several threads at once; requests too large for any memory; the same allocations repeated do not take more and more.",
                    units=[U(R, "plain", "heap", 9000), U(R, "rel", "heap", 15000), U(R, "plain", "refuse", 10000), U(R, "rel", "refuse", 10000),
                           U(R, "plain", "threads", 6000), U(R, "rel", "threads", 10000), U(R, "plain", "first", 3000), U(R, "rel", "first", 4000),
                           U(R, "plain", "reuse", 2500), U(R, "rel", "reuse", 3000),
                           U(R, "noise", "threads", 6000), U(R, "noise", "first", 4000)])
W = "h_watch"
PROPS["C23"] = dict(rule="Random trees of directories, watched by events_watch(), fs_events() and the inotify calls, under random changes, with watches removed inside and outside handlers and pipes on the same loop; a second inotify instance says what must be reported.",
                    units=[U(W, "plain", "watch", 1200), U(W, "rel", "watch", 1000), U(W, "plain", "fs_events", 400), U(W, "rel", "fs_events", 300),
                           U(W, "plain", "inotify", 1200), U(W, "rel", "inotify", 800)])

# What a check on every change explores, in parts of what one by itself affords
QUICK = dict(C09=.4, C10=.35, C11=.7, C12=.7, C13=.7, C14=.7, C15=.5, C16=.6, C17=.4, C18=.5, C19=.4, C20=.4, C21=.35, C22=.4, C23=.45, C25=.33, C26=.33, C27=.35)
for _p, _f in QUICK.items():
    for _u in PROPS[_p]["units"]:
        _u.setdefault("t", _u["q"] * 40)
        _u["q"] = int(_u["q"] * _f)
