NS = "Searches generated programs against an explicit reference in both the debug and the optimised build; absence of a failure is evidence, not proof. Trusts the reference interpreter in the harness and gcc."
prop("C09", "Exceptions reach the right handler, run each block once, release once",
     "For every nesting of try, catch(type), catch_if, catch_any and finally with throws, rethrows, panics and hardware signals anywhere in bodies and handlers, control reaches exactly the innermost matching handler, every finally runs exactly once on the way, an unmatched exception keeps its name and travels outward, caught() and the error record describe the exception at hand, and protected pointers of the abandoned region are released exactly once, newest first. An exception nobody catches ends the process with failure after the same releases. Threads, and tasks that take turns inside their blocks, do not disturb each other.",
     ["inputs", "histories", "schedules"], "all nested block structures and throw sites over several exception kinds, first use and repeated use, one to several threads and tasks",
     "the tests check a few fixed one- and two-level shapes",
     [X, "include/except.h"], [("try/catch state machine", "include/except.h"), ("throw, rethrow, unwinding, signal conversion", X)],
     note=NS, tech="property-based testing: random programs, differential against a reference interpreter of the documented semantics, with shrinking")
prop("C10", "Deferred work of a guard or scope runs last-in first-out exactly once",
     "However a guard block is left (end, break, exception from any call depth, recovery inside a deferred function), every function deferred or fenced in it runs exactly once, newest first, with its own argument, before the code after the guard or the outer handler; guard_caught() with the current error stops the exception, with any other text it does not. Nested guards, and guards open at once in other tasks or threads, keep their work apart and leave neither memory nor hooks behind. Work deferred on a thread's scope runs the same way on exit_scope(), normal exit and uncaught exceptions.",
     ["inputs", "histories"], "all nested guard/try/call programs with defers, fences, protected pointers, recoveries and throws; all process endings",
     "the tests run a few fixed guards",
     [X, E, "include/except.h"], [("scope_unwind, guard_init/reset/set/caught, fence", X), ("deferred", E), ("guard/guarded macros", "include/except.h")],
     note=NS, tech="property-based testing: random programs, differential against a reference interpreter of the documented semantics, with shrinking")
NC = "Searches generated programs against an explicit reference in both the debug and the optimised build, on one thread under a virtual clock; absence of a failure is evidence, not proof. Trusts the reference scheduler in the harness, the clock stand-in and gcc."
prop("C11", "Tasks run in order, isolated from each other, to completion, results kept",
     "Every task created with async_task, async_ex, launch or as main runs exactly once, with the arguments it was given, and the run ends only after all of them. Ready tasks take turns in creation and yield order; launch runs the new task before its creator. A task's locals, user data, id and arguments are never disturbed by other tasks running in between. Deferred functions run newest first once it has returned. await_for and results_for give exactly what the task returned, never before it has finished. A request to cancel is seen by the task asked and no other, and a suspended task goes on, where it was, when it is resumed.",
     ["inputs", "schedules", "histories"], "all task trees, arguments, stack sizes and interleavings by yield, sleep and await",
     "the tests run a few fixed handfuls of tasks",
     [E, "src/asm.c", "include/events.h"], [("scheduler and run queue", E), ("task_switch", "src/asm.c"), ("create_task, task_push, await_for, results_for", E)],
     note=NC, tech="property-based testing: random task programs against a reference scheduler under a virtual clock, with shrinking")
prop("C12", "tasks_wait returns after all group tasks, with exactly their results",
     "tasks_wait() returns only after every task created since task_group() has returned and run its deferred functions; it returns the result ids of exactly those that returned a value, once each, and each id gives that value. This holds for groups inside group tasks, groups whose tasks already finished, sleep or yield, and several groups at once; other tasks keep running and the waiting task continues once.",
     ["inputs", "schedules", "histories"], "all trees of groups, task bodies and waiting points",
     "the tests use one flat group",
     [E], [("task_group, tasks_wait", E), ("group bookkeeping in create_task and task_done", E)],
     note=NC, tech="property-based testing: random task programs against a reference model under a virtual clock, with shrinking")
prop("C13", "A generator hands over every value once, in order, then ends",
     "Reads of a generator by its creator give exactly the values passed to yielding(), in order, each once, whatever the value (null included), however many generators are open and whatever yields, sleeps or other tasks run in between; the body goes on only after the value was taken. A read past the end gives null, and the generator's result is then available.",
     ["inputs", "schedules", "histories"], "all interleavings of several generators with reads, yields and sleeps",
     "the tests read one generator in a loop",
     [E], [("generator, yielding, yielded", E), ("deferred_unwind", E)],
     note=NC, tech="property-based testing: random task programs against a reference model under a virtual clock, with shrinking")
prop("C14", "delay() never ends early, wakes in order, and cannot be starved",
     "delay(ms) returns no earlier than ms milliseconds later, reports at least ms and no more than the time that passed, sleepers with earlier deadlines wake first, no sleeper is lost or woken twice, and a wake-up is not held off by other tasks that keep yielding. Nobody else is delayed meanwhile.",
     ["inputs", "schedules", "histories"], "all sets of delays, nesting and yields",
     "the tests sleep a few fixed times against the wall clock",
     [E], [("delay, add_timeout, task_wait_system", E)],
     note=NC, tech="property-based testing: random task programs under a virtual clock, with shrinking")
prop("C08", "The work-stealing deque loses, doubles or invents no item",
     "One owner pushes and takes, any number of thieves steal at the same time. Whatever the interleaving, every item pushed is handed out to exactly one of them or is still in the deque; nothing that was not pushed is handed out; takes give the newest item, steals the oldest; growing moves items without losing any and without pulling the array away from a thief that reads it. An empty or unused deque says so.",
     ["schedules", "histories"], "all histories and interleavings of owner and thieves, through growth and wrap-around",
     "the test runs one fixed load once",
     ["src/deque.c", "src/events_internal.h"], [("deque_push, deque_take, deque_steal, deque_resize", "src/deque.c")],
     note="Searches generated histories and schedules; the schedule unit redirects every atomic access of deque.c to a generated scheduler with x86 store buffers, the thread units use the real thing. Absence of a failure is evidence, not proof.", tech="property-based testing: model-based histories, generated schedules over all atomic accesses, and thread runs, with shrinking")
NT = "Searches generated programs run on real threads; the schedule is the operating system's, stirred by generated delays at memory accesses inside the library; failures are confirmed by replaying. Absence of a failure is evidence, not proof."
FU = "src/future.c"
prop("C17", "Work handed to a thread runs once and its outcome reaches its waiter",
     "Every function given to queue_work, promise_work or thrd_async runs exactly once, off the calling thread, with the arguments given. queue_get, promise_wait, queue_wait and thrd_get return only after it has, with exactly the value it returned (the first element of an array), with its errno when it failed with -1, and thrd_get throws the exception that ended the thread, its own and no other's, after its deferred functions ran. However many are under way and in whatever order they are collected, none is lost, mixed up or touched after it was collected.",
     ["inputs", "schedules", "histories"], "all sets of jobs and threads under way, outcomes and orders of collecting",
     "the tests run one job at a time",
     [FU, E, "include/future.h"], [("queue_work, queue_get, promise_work, promise_wait, queue_wait, thrd_async, thrd_get", FU), ("__future_wrapper", E)],
     note=NT, tech="property-based testing: random programs over real threads against a reference model, with shrinking")
prop("C26", "go() and waitgroup run every task once and waitfor waits for all of them",
     "Every task created with go() runs exactly once, in the thread pool, with its arguments, and await_for gives what it returned. waitfor() returns only after every task created with go() since waitgroup() has returned and run its deferred functions, with the result ids of exactly those that returned a value, whatever the size given to waitgroup(), one after another or several groups at once, from the main thread or from tasks in the pool. A function given to go_guard() runs there once, its failure ends nobody else, and its cleanup runs once after what it deferred. Nobody's locals are disturbed, and the program ends when its main function has.",
     ["inputs", "schedules", "histories"], "all trees of pool tasks and groups, group sizes, numbers of processors and interleavings",
     "the test runs one group of 30 tasks once",
     [E], [("go, task_push, enqueue_tasks, task_take", E), ("waitgroup, tasks_poster, waitfor, __thrd_waitfor", E)],
     note=NT, tech="property-based testing: random programs over real threads against a reference model, with shrinking")
NL = "Searches generated histories of registrations, changes, arrivals and time against a model that asks poll(2) for the truth, in both the debug and the optimised build; time is virtual, descriptors and signals are real. Absence of a failure is evidence, not proof."
EP = "src/epoll.c"
prop("C15", "Each ready descriptor reaches its own callback, and nobody else's",
     "After any history of events_add, events_set_event, events_set_timeout, events_del and closing, over one or several loops, of one or several threads, and the whole descriptor range, each run of the loop calls the callback of exactly the descriptors that are registered and ready (readable, writable, hung up or broken) with the directions that are both wanted and ready, its own argument, and no other; nothing is delivered to a descriptor that was deleted or changed, also by another callback of the same run, and nothing ready is kept back for ever. Queries (events_get_event, events_is_registered, ...) agree with the last change. What cannot be watched is refused; a loop that was destroyed, also by a callback of its own, calls nothing any more, while the others go on, and after events_deinit() everything can be set up again, as new, with no descriptor of the program touched.",
     ["histories", "inputs"], "all histories of registration, change, traffic and closing, from inside and outside callbacks",
     "the tests register a handful of fixed descriptors",
     [E, EP], [("events_add, events_set_event, events_del, events_run", E), ("events_update_internal, events_poll_once", EP)],
     note=NL, tech="property-based testing: model-based histories over real descriptors, poll(2) as oracle, virtual time, with shrinking")
prop("C16", "Timeouts and actors come when due, once, in order, and not after removal",
     "A descriptor's timeout is reported after at least the seconds asked for (whole seconds, up to the loop's maximum) and not more than the wheel's resolution later, once, and not if it was cleared, re-armed, deleted or had other traffic in the meantime. An actor runs no earlier than its time, in order of due time, once, or again as asked by events_repeat_actor, never after events_clear_actor; times of any size do not overflow. The loop goes on while, and only while, something is registered. Signals and idle loops do not change any of it.",
     ["histories", "inputs"], "all histories of arming, clearing, repeating and waiting, over all lengths of time",
     "the tests wait for one or two fixed timers",
     [E, EP], [("events_set_timeout, handle timeouts", E), ("events_actor, events_clear_actor, events_repeat_actor", E)],
     note=NL, tech="property-based testing: model-based histories under a virtual clock, with shrinking")
prop("C22", "A signal reaches its callback once for each time it was seen, with its argument",
     "events_add_signal() registers a callback that is called from the process the signal is raised in, with its own number and argument, as often as raised (a second one of the same number during the callback merges as usual), also in another thread or while another callback runs, and without disturbing descriptors with the same number. Deleting or re-adding, in and out of callbacks, is exact: after deletion the callback is not called; other signals stay. A wait interrupted by a signal loses no event and no timer.",
     ["histories", "schedules"], "all histories of adding, deleting, raising, inside and outside callbacks, and in other threads",
     "the tests raise one signal",
     [E, O], [("events_add_signal, events_del_signal", O), ("events_add, events_del", E)],
     note=NL, tech="property-based testing: model-based histories with real signals, with shrinking")
NI = "Searches generated programs of tasks over real descriptors of the loopback, in both the debug and the optimised build, with virtual time; absence of a failure is evidence, not proof. Trusts the kernel's sockets and the harness."
IO = "src/async_io.c"
prop("C19", "Streams between tasks arrive complete, in order, and nobody waits for ever",
     "Over pipes, with or without a name, socket pairs, TCP and Unix sockets, what tasks write with async_write arrives at the tasks that async_read from the other end, byte for byte, in order, once, then the end of the stream, whatever the sizes of writes, reads and buffers, with both directions in use at once and several readers or writers on one end. Each call returns as soon as it can go on, others run meanwhile. async_accept hands out every connection once with its peer's address and port, and socket_is_uds() and socket_is_udp() tell what kind of socket a descriptor is now; a connection to nobody fails with the reason in errno, writing to a closed end fails. A connection given to accept_handler or uds_handler is handled once, by a task of the thread pool, and closed when its handler returns. The program ends when all its tasks have.",
     ["inputs", "schedules", "histories"], "all programs of readers, writers, clients and servers, all sizes and interleavings",
     "the tests send one or two short messages",
     [IO, E, "src/async_uds.c"], [("async_wait, wait_cb", E), ("async_read, async_write, async_accept, async_connect, async_bind", IO), ("uds_bind, uds_accept, uds_connect", "src/async_uds.c")],
     note=NI, tech="property-based testing: random programs of communicating tasks against a byte-exact model, with shrinking")
prop("C27", "Datagrams arrive whole at the one addressed, and answers at the one who asked",
     "Each datagram sent with udp_to and async_sendto, or over udp_connect, reaches the socket bound to that address and no other, once, whole (or cut to the buffer of async_recvfrom), in the order its sender sent it; udp_recv reports its length, bytes and sender, udp_send answers that sender even when others wrote in between, and the packet stays valid until its task ends. Empty datagrams are datagrams, IPv4 and IPv6 alike, several receivers share a socket.",
     ["inputs", "schedules", "histories"], "all programs of senders, receivers and handlers, sizes and interleavings",
     "the test sends one datagram and one answer",
     ["src/async_udp.c", E], [("udp_recv, udp_send, udp_to, async_sendto, async_recvfrom, udp_handler", "src/async_udp.c"), ("async_wait", E)],
     note=NI, tech="property-based testing: random programs of communicating tasks against a model, with shrinking")
prop("C25", "An address in text means the same socket address everywhere, or is refused",
     "async_parse_addr gives the family, address and port that are written (dotted quad or bracketed IPv6 with or without port, port alone, known name with port, local socket path) and refuses everything else, numbers out of range included; str_parseip takes scheme, host and port apart. Neither changes the text given. async_bind and udp_bind give a non-blocking socket of the right kind bound to exactly that address and port, no address means all interfaces, uds_bind and uds_connect use exactly the path that is written, or refuse one that is too long. Names looked up by several tasks at a time (async_gethostbyname, async_getaddrinfo, async_getnameinfo) give each the answer to its own, which stays until its task ends.",
     ["inputs"], "all texts, well-formed and damaged",
     "the tests use three fixed addresses",
     [IO, A, "src/async_uds.c"], [("async_parse_addr, async_bind, async_gethostbyname", IO), ("str_parseip", A), ("udp_bind", "src/async_udp.c"), ("uds_bind, uds_connect", "src/async_uds.c")],
     note="Searches generated texts; name resolution is replaced by a fixed table where texts are parsed, and asks no network. Absence of a failure is evidence, not proof.", tech="property-based testing: generated and damaged addresses against a reference parser, and real sockets, with shrinking")
prop("C20", "A child process gets its input, and all its output and its exit arrive, once",
     "A program started by spawn(), spawn_cgi() or exec() is run with exactly the arguments and the environment given (its parent's without one). Every byte it writes reaches the output callback of its own spawn, in order, whatever the amount, also what is left at its end; then the exit callback is called once with its exit code, or the signal that ended it. What is written to exec_fdin() or in the callback is its input; exec() redirects the given descriptors. Other tasks go on meanwhile, spawn_is_finish(), spawn_pid() and exec_wait() tell the truth; no process, descriptor or other child's pipe is left or lost; one that cannot be started is reported as such, and never as ended.",
     ["inputs", "schedules", "histories"], "all scripts, sizes of output and input, ends of the process, and mixes of processes at the same time",
     "the tests run one child with three short lines of output and exit code 0",
     [IO, O], [("spawn, spawn_cgi, spawning, spawn_io, exec_addenv", IO), ("exec, exec_info, exec_wait, os_exec_info", O)],
     note="Runs generated scripts in real child processes, in both builds, other tasks on virtual time; absence of a failure is evidence, not proof. Trusts the kernel's processes and pipes.", tech="property-based testing: generated child scripts against an exact model of their output and end, with shrinking")
prop("C18", "File operations of tasks do what the system calls do, and block nobody else",
     "Each fs_ operation (open, read, write, sendfile, close, stat, fstat, access, rename, unlink, mkdir, rmdir, chmod, streams, touch, copyfile, writefile, readfile), async_fwrite, async_fprintf and the promise_ file and pipe operations give, for every path, flag, mode, size and state of the files, the result, errno, bytes and changed tree that the corresponding system calls give, for each of several tasks at the same time; no descriptor is lost. A copy is complete, and a file copied onto itself is not lost. What fs_readfile() gives stays until its task ends. While one task waits for a file the others go on.",
     ["inputs", "histories", "schedules"], "all programs of operations by several tasks, all states of the files, all partial transfers of the kernel",
     "the tests open, write and read one file",
     [IO, O, FU], [("fs_open, fs_read, fs_write, fs_close, fs_writefile, fs_readfile, ...", IO), ("copyfile", O), ("promise_work, promise_set", FU)],
     note="Searches generated programs, in both builds, with real pool threads, a sendfile() that copies in parts, and a twin directory as the oracle; absence of a failure is evidence, not proof. What fs_writefile() leaves behind a shorter text is not judged.", tech="property-based testing: differential against system calls in a twin directory tree, with shrinking")
prop("C21", "Memory handed out is the caller's alone, whole, aligned, and kept until freed",
     "Every block the allocator (rp_malloc and its family, rpmalloc and its family, and events_malloc, events_calloc and events_realloc on top) gives is as large and as aligned as asked for, overlaps no other live block, keeps its contents until it is freed or resized, is zero where calloc promises it, and its usable size can be used in full. realloc keeps the contents up to the smaller size, or fails and leaves the block as it was. Blocks may be freed by another thread than the one that got them, also after that one ended. If no memory can be mapped, or the request is larger than any memory, the answer is null and nothing is damaged. The allocator gives no live memory back to the system, and at the end all of it, once. Threads may allocate first at the same time. What is freed, by whichever thread, is used again: repeating the same allocations and frees does not take more and more memory.",
     ["inputs", "histories", "schedules", "faults"], "all histories of sizes and alignments, all interleavings of threads, all points at which mapping memory fails",
     "the tests use the allocator only incidentally",
     ["src/rpmalloc.c", E], [("_rpmalloc_allocate, _rpmalloc_deallocate, _rpmalloc_reallocate, _rpmalloc_aligned_allocate, caches, orphaned heaps", "src/rpmalloc.c"), ("events_set_allocator", E)],
     note="Searches generated histories, in both builds, over a memory map of its own that fails at drawn points, and with real threads; absence of a failure is evidence, not proof. Interleavings of threads are those the kernel happens to choose. Blocks larger than 70000 bytes are checked at their ends and at samples.", tech="property-based testing: stateful histories against an interval model with fault injection, and threads, with shrinking")
prop("C23", "Every change in a watched directory is reported, once, until it is unwatched",
     "Every creation, removal, move, write and attribute change of an entry in a directory given to events_watch() or fs_events(), and in the subdirectories it had then, reaches the handler once, in order, with the descriptor of that directory, the right kind, the name (full path below subdirectories) and the filter given, from the moment the call returns, in amounts larger than any buffer too; several watchers at once each get all and only their own. None comes after events_remove(), events_del_watch() or fs_events_cancel(); a directory that vanished is no longer counted by events_watch_count(). Other descriptors of the loop are served meanwhile, descriptors opened and closed with the same numbers do not interfere. With the inotify calls themselves, inotify_next() visits every event read.",
     ["inputs", "histories", "schedules"], "all trees, all sequences of changes, watches and removals, several watchers at the same time",
     "the test writes two files in one directory",
     [O, EP, E, IO], [("inotify_handler, inotify_task, inotify_add_watch, inotify_rm_watch, inotify_close, inotify_next", O), ("events_watch, events_remove, events_del_watch, fsevents_task", E), ("events_poll_once_internal", EP), ("fs_events, fs_events_cancel", IO)],
     note="Searches generated trees and histories in both builds, on the real inotify of the kernel; absence of a failure is evidence, not proof. Subdirectories made later are not watched, by design; one events_watch() for each loop is judged.", tech="property-based testing: differential against a second inotify instance, with shrinking")
