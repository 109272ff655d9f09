/* Tasks in the thread pool (go, waitgroup, waitfor), work handed to pool threads (queue_work and
 * promises), and threads with a result (thrd_async). Programs are drawn up front and run on the
 * real library with real threads; the number of processors it sees is part of the input. */
#include "events_internal.h"
#include "pbt.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <sched.h>
#include <errno.h>
#include <time.h>
#include <sys/syscall.h>
#include <sys/mman.h>
#include <signal.h>
#include <dirent.h>
#include <sys/socket.h>
#include <netinet/in.h>
#include <netdb.h>
#include <dlfcn.h>
#include <pthread.h>
#include "posix_names.h"
static int count_fds(void) {
	int n = 0; DIR *d = opendir("/proc/self/fd"); struct dirent *e;
	while ((e = readdir(d))) n += e->d_name[0] != '.';
	closedir(d);
	return n - 1;
}

static int cpus = 4;
int sched_getaffinity(pid_t p, size_t n, cpu_set_t *s) {
	int i; (void)p;
	memset(s, 0, n);
	for (i = 0; i < cpus; i++) CPU_SET(i, s);
	return 0;
}
static int main_tid;
static int gettid_(void) { return (int)syscall(SYS_gettid); }
static int on_main(void) { return gettid_() == main_tid; }
static void nap(int us) { struct timespec t = { 0, us * 1000l }; nanosleep(&t, NULL); }

/* The n-th thread asked for from now on is refused */
static volatile int no_thread, refused;
int pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*f)(void *), void *p) {
	static int (*real)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
	if (no_thread && !__sync_sub_and_fetch(&no_thread, 1)) { __sync_fetch_and_add(&refused, 1); return EAGAIN; }
	if (!real) real = dlsym(RTLD_NEXT, "pthread_create");
	return real(t, a, f, p);
}

/* ------------------------------------------------------------- go, waitgroup */
enum { O_YIELD, O_DELAY, O_GO, O_AWAIT, O_WG, O_DEFER, O_DEEP, O_SPAWN, O_WORK, O_GUARD, O_STREAM, O_FILE, O_CHILD, O_KINDS };
enum { H_ROOT, H_GO, H_MEMBER, H_ASYNC };
typedef struct { int kind, a, b, c; } op;
#define MAXS 400
#define MAXOPS 10
typedef struct {
	int parent, how, nops, nargs, ret, late;
	op o[MAXOPS];
	int next;                       /* next member of the same group */
	uint32_t rid; volatile int started, finished, defers, deferred, tid, awaited;
} spec;
static spec P[MAXS]; static int np, n_total, F_wg, F_go, F_work, F_io, deepest;
static char (*texts)[12]; /* far up: their address needs all its bits */
__attribute__((constructor)) static void get_texts(void) { texts = mmap(NULL, MAXS * 12, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); }

enum { G_RETURN, G_THROW, G_PANIC, G_KINDS };
#define MAXG 24
typedef struct { int how, yields, defers, stack, wait; volatile int ran, ended, cleaned, deferred, order; } guarded_t;
static guarded_t G[MAXG]; static int ng;
#define MAXC 40
static int nchild; static struct { volatile int out, ends, tid; } child[MAXC + 2];
static int draw(int parent, int how, int depth) {
	int i = np++, n, k; spec *s = &P[i]; memset(s, 0, sizeof *s);
	s->parent = parent; s->how = how; s->nargs = (int)pbt_below(4); s->ret = (int)pbt_below(4);
	n = (int)pbt_size(0, how == H_ROOT ? 7 : 4);
	for (k = 0; k < n && np < MAXS - 60 && n_total < 150; k++) {
		int can = depth > 0, goes = 0, j;
		for (j = 0; j < s->nops; j++) goes += s->o[j].kind == O_GO;
		int w[O_KINDS] = { [O_YIELD] = 4, [O_DELAY] = 2, [O_GO] = can && F_go ? (how == H_ROOT ? 8 : 3) : 0, [O_AWAIT] = goes ? 2 : 0,
			[O_WG] = can && F_wg ? (how == H_ROOT ? 6 : 1) : 0, [O_DEFER] = 2, [O_DEEP] = 1, [O_SPAWN] = how == H_ROOT && can ? 1 : 0, [O_WORK] = F_work ? 2 : 0, [O_GUARD] = F_go && how == H_ROOT && ng < MAXG ? 2 : 0, [O_STREAM] = F_io ? 5 : 0, [O_FILE] = F_io ? 2 : 0, [O_CHILD] = F_io && nchild < MAXC ? 2 : 0 };
		op *o = &s->o[s->nops++]; memset(o, 0, sizeof *o); n_total++;
		o->kind = pbt_weighted(w, O_KINDS);
		switch (o->kind) {
		case O_DELAY: o->a = (int)pbt_below(4); break;
		case O_DEEP: o->a = (int)pbt_below(5); break;
		case O_WORK: o->a = (int)pbt_below(1000); break;
		case O_STREAM: o->a = (int)(pbt_chance(1, 5) ? pbt_int(0, 200000) : pbt_size(0, 4000)); o->b = (int)pbt_below(8); o->c = (int)pbt_below(4); break;
		case O_CHILD: o->a = ++nchild; break;
		case O_FILE: o->a = (int)pbt_size(0, 5000); o->b = (int)pbt_below(2); break;
		case O_GUARD: { o->a = ng; guarded_t *g = &G[ng++]; memset(g, 0, sizeof *g); g->how = (int)pbt_below(G_KINDS); g->yields = (int)pbt_below(4); g->defers = (int)pbt_below(3); g->stack = 26 << (int)pbt_below(3); g->wait = (int)pbt_below(3); } break;
		case O_AWAIT: o->a = (int)pbt_below((uint64_t)goes); break;
		case O_GO: { int c = draw(i, H_GO, depth - 1); s = &P[i]; s->o[s->nops - 1].a = c; } break;
		case O_SPAWN: { int c = draw(i, H_ASYNC, depth - 1); s = &P[i]; s->o[s->nops - 1].a = c; } break;
		case O_WG: {
			/* a: first member, b: capacity, c: what happens between creating the members */
			int cnt = (int)pbt_size(0, how == H_ROOT ? 24 : 6), q, prev = -1, first = -1, at = s->nops - 1;
			o->b = pbt_chance(1, 3) ? (int)pbt_below(100) : cnt; o->c = (int)pbt_below(4);
			for (q = 0; q < cnt; q++) { int m = draw(i, H_MEMBER, depth - 1); P[m].next = -1; if (prev < 0) first = m; else P[prev].next = m; prev = m; }
			s = &P[i]; s->o[at].a = first;
			} break;
		}
		s = &P[i];
	}
	return i;
}
static void show(int i) {
	static const char *hn[] = { "root", "go", "member", "async" };
	spec *s = &P[i]; int k, c;
	pbt_note("%s%d(%d args, ret %d){ ", hn[s->how], i, s->nargs, s->ret);
	for (k = 0; k < s->nops; k++) { op *o = &s->o[k];
		switch (o->kind) {
		case O_YIELD: pbt_note("yield; "); break;
		case O_DELAY: pbt_note("delay(%d); ", o->a); break;
		case O_GO: case O_SPAWN: show(o->a); break;
		case O_AWAIT: pbt_note("await its go #%d; ", o->a); break;
		case O_WG: pbt_note("waitgroup(%d)%s[ ", o->b, o->c == 1 ? " yields" : o->c == 2 ? " async" : o->c == 3 ? " work" : ""); for (c = o->a; c >= 0; c = P[c].next) show(c); pbt_note("] "); break;
		case O_DEFER: pbt_note("defer; "); break;
		case O_DEEP: pbt_note("deep %d; ", o->a); break;
		case O_WORK: pbt_note("queue_work(%d); ", o->a); break;
		case O_STREAM: pbt_note("%s of %d bytes written by %s, delay %d; ", o->b & 4 ? "socket pair" : "pipe", o->a, o->b & 1 ? "go()" : "async_task()", o->c); break;
		case O_CHILD: pbt_note("child %d; ", o->a); break;
		case O_FILE: pbt_note("file of %d bytes; ", o->a); break;
		case O_GUARD: pbt_note("go_guard(%s, %d yields, %d defers)%s; ", G[o->a].how == G_RETURN ? "returns" : G[o->a].how == G_THROW ? "throws" : "panics", G[o->a].yields, G[o->a].defers, G[o->a].wait ? " waits" : ""); break;
		} }
	pbt_note("} ");
}
static void *ret_of(int i) { return P[i].ret == 0 ? NULL : P[i].ret == 1 ? (void *)(intptr_t)(i + 1) : (void *)texts[i]; }
static void ended(int i, const char *when) {
	if (P[i].started != 1) pbt_fail("%s, but task %d was started %d times", when, i, P[i].started);
	if (!P[i].finished) pbt_fail("%s, but task %d has not finished", when, i);
}
static void value_is(int i, values_t v, const char *when) {
	if (v.object != ret_of(i)) pbt_fail("%s: task %d gave %p instead of %p", when, i, v.object, ret_of(i));
}
static void *body(param_t a);
static void on_defer(void *p) { spec *s = p; __sync_fetch_and_add(&s->deferred, 1); }
static __attribute__((noinline)) int deep(int n, int i) { volatile int v = i * 3 + n; if (n) { int r = deep(n - 1, i); if (v != i * 3 + n) pbt_fail("task %d: a local variable of a caller changed", i); return r; } yield(); if (v != i * 3 + n) pbt_fail("task %d: a local variable changed over yield()", i); return v; }
static void g_defer(void *p) { guarded_t *g = p; if (g->cleaned) pbt_fail("go_guard: its cleanup ran before functions deferred later"); if (!g->ended) pbt_fail("go_guard: a deferred function ran before its function ended"); g->deferred++; }
static void g_clean(void *p) {
	guarded_t *g = p;
	if (g < G || g >= G + ng) pbt_fail("go_guard: its cleanup got a wrong argument");
	if (!g->ended) pbt_fail("go_guard: its cleanup ran before its function ended");
	if (g->deferred != g->defers) pbt_fail("go_guard: its cleanup ran after %d of %d deferred functions", g->deferred, g->defers);
	if (g->cleaned) pbt_fail("go_guard: its cleanup ran twice");
	/* as the documentation says, and an exception nobody looks at stays one */
	if (guard_message() != NULL) guard_caught(guard_message());
	__sync_synchronize(); g->cleaned = 1;
}
static void g_body(opaque_t a) {
	guarded_t *g = a->object; int i, mark = 77, tid = gettid_();
	if (g < G || g >= G + ng) pbt_fail("go_guard: its function got a wrong argument");
	if (on_main()) pbt_fail("go_guard: its function runs on the main thread");
	if (__sync_fetch_and_add(&g->ran, 1)) pbt_fail("go_guard: its function ran twice");
	for (i = 0; i < g->defers; i++) defer(g_defer, g);
	for (i = 0; i < g->yields; i++) { yield(); if (mark != 77 || tid != gettid_()) pbt_fail("go_guard: its locals changed, or the thread"); }
	g->ended = 1;
	if (g->how == G_THROW) throw(range_error);
	if (g->how == G_PANIC) panic("guarded");
}
static void go_guarded(int i) {
	guarded_t *g = &G[i];
	go_guard(Kb((size_t)g->stack), g_body, g_clean, g);
	if (g->wait) { while (!g->cleaned) yield(); }
}
static void *work(param_t a) { if (on_main()) pbt_fail("queue_work ran its function on the main thread"); return (void *)(intptr_t)(a[0].integer + 1); }
static void do_work(int v) { values_t r = queue_get(queue_work(futures_pool(), work, 1, (void *)(intptr_t)v)); if (r.integer != v + 1) pbt_fail("queue_get gave %d instead of %d", r.integer, v + 1); }
/* a pipe read here and written by another task, in this thread or another */
static uint8_t sbyte(int seed, int at) { return (uint8_t)(seed * 37 + at * 7 + (at >> 8) * 13 + (at >> 16)); }
static volatile int streams, streamed;
static void *stream_writer(param_t a) {
	int fd = a[0].integer, n = a[1].integer, seed = a[2].integer, wait = a[3].integer, at, r, m; char *b = malloc((size_t)n + 1);
	for (at = 0; at < n; at++) b[at] = (char)sbyte(seed, at);
	for (at = 0; at < n; at += r) {
		if (wait == 1) yield(); else if (wait > 1) delay((uint32_t)(wait - 1));
		m = wait && n > 3000 ? n / 3 + 1 : n; if (m > n - at) m = n - at;
		if ((r = async_write(fd, b + at, m)) != m) pbt_fail("stream %d: writing %d bytes gave %d, errno %d", seed, m, r, errno);
	}
	free(b); os_close(fd);
	return (void *)(intptr_t)(seed + 1);
}
static void do_stream(op *o) {
	int v[2], seed = __sync_fetch_and_add(&streams, 1), got = 0, r, i; uint32_t w; char *b = malloc(5000); values_t e;
	if (o->b & 4 ? socketpair(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0, v) : pipe2(v, O_CLOEXEC)) pbt_fail("harness: no descriptors");
	events_set_nonblocking(v[0]); events_set_nonblocking(v[1]);
	w = o->b & 1 ? go(stream_writer, 4, casting(v[1]), casting(o->a), casting(seed), casting(o->c)) : async_task(stream_writer, 4, casting(v[1]), casting(o->a), casting(seed), casting(o->c));
	if (o->b & 2) delay(1);
	while ((r = async_read(v[0], b, 4999)) > 0)
		for (i = 0; i < r; i++, got++) if (got >= o->a || (uint8_t)b[i] != sbyte(seed, got)) pbt_fail("stream %d: byte %d of %d is wrong", seed, got, o->a);
	if (r || got != o->a) pbt_fail("stream %d: %d of %d bytes came, then async_read() gave %d, errno %d", seed, got, o->a, r, errno);
	e = await_for(w);
	if (e.integer != seed + 1) pbt_fail("stream %d: await_for() its writer gave %d", seed, e.integer);
	os_close(v[0]); free(b); __sync_fetch_and_add(&streamed, 1);
}
static void do_file(op *o) {
	int seed = __sync_fetch_and_add(&streams, 1), fd, i, r; char f[300], *b = malloc((size_t)o->a + 2);
	snprintf(f, sizeof f, "%s/f%d", pbt_scratch(), seed);
	for (i = 0; i < o->a; i++) b[i] = (char)sbyte(seed, i);
	if ((fd = fs_open(f, O_RDWR | O_CREAT | O_EXCL, 0600)) < 0) pbt_fail("file %d: fs_open() gave %d, errno %d", seed, fd, errno);
	if ((r = fs_write(fd, b, (size_t)o->a)) != o->a) pbt_fail("file %d: fs_write() gave %d instead of %d, errno %d", seed, r, o->a, errno);
	if (o->b) yield();
	lseek(fd, 0, SEEK_SET); memset(b, 1, (size_t)o->a + 1);
	if ((r = fs_read(fd, b, (size_t)o->a + 1)) != o->a) pbt_fail("file %d: fs_read() gave %d instead of %d, errno %d", seed, r, o->a, errno);
	for (i = 0; i < o->a; i++) if ((uint8_t)b[i] != sbyte(seed, i)) pbt_fail("file %d: byte %d is wrong", seed, i);
	if ((r = fs_close(fd)) != 0) pbt_fail("file %d: fs_close() gave %d, errno %d", seed, r, errno);
	if ((r = fs_unlink(f)) != 0) pbt_fail("file %d: fs_unlink() gave %d, errno %d", seed, r, errno);
	free(b); __sync_fetch_and_add(&streamed, 1);
}
static void child_out(fds_t to, size_t n, char *p) {
	int c = 0; (void)to;
	if (n < 3 || p[0] != 'c' || p[n - 1] != '\n' || (c = atoi(p + 1)) < 1 || c > nchild) pbt_fail("a child's output is wrong: %zu bytes, %.20s", n, p);
	if (child[c].tid != gettid_()) pbt_fail("child %d: its output comes in another thread", c);
	if (child[c].ends) pbt_fail("child %d: output after its exit", c);
	child[c].out++;
}
static int child_end(int64_t status, int sig) {
	int c = (int)status;
	if (sig || c < 1 || c > nchild) pbt_fail("a child exits with %d, signal %d", c, sig);
	if (child[c].tid != gettid_()) pbt_fail("child %d: its exit is told in another thread", c);
	if (child[c].out != 1) pbt_fail("child %d: its output came %d times before its exit", c, child[c].out);
	if (child[c].ends++) pbt_fail("child %d: its exit is told twice", c);
	return 0;
}
static void do_child(op *o) {
	char a[60]; execinfo_t *h;
	sprintf(a, "-c,echo c%d;exit %d", o->a, o->a); child[o->a].tid = gettid_();
	if (!(h = spawn("/bin/sh", a, child_out, child_end))) pbt_fail("child %d: spawn() failed, errno %d", o->a, errno);
	while (!child[o->a].ends) yield();
}
static uint32_t go_(int i, int async) {
#define ARG (void *)(intptr_t)i, texts[i], &P[i], (void *)(intptr_t)7
	spec *s = &P[i];
	if (async) return async_task(body, 3, (void *)(intptr_t)i, texts[i], &P[i]);
	switch (s->nargs) {
	case 0: return go(body, 1, (void *)(intptr_t)i);
	case 1: return go(body, 2, (void *)(intptr_t)i, texts[i]);
	case 2: return go(body, 3, (void *)(intptr_t)i, texts[i], &P[i]);
	default: return go(body, 4, ARG);
	}
}
static void await_(int c) {
	values_t v = await_for(P[c].rid);
	ended(c, "await_for returned"); value_is(c, v, "await_for");
	if (!task_is_ready(P[c].rid)) pbt_fail("task %d is not ready after await_for", c);
	if (results_for(P[c].rid).object != ret_of(c)) pbt_fail("results_for task %d gave something else than await_for", c);
	P[c].awaited = 1;
}
static int empty_groups;
static void group(int i, op *o) {
	int c, n = 0, want = 0, got = 0; uint32_t k;
	waitgroup_t wg = waitgroup((uint32_t)o->b);
	if (!is_waitgroup(wg)) pbt_fail("waitgroup() gave none");
	for (c = o->a; c >= 0; c = P[c].next) {
		P[c].rid = go_(c, 0); n++; want += ret_of(c) != NULL;
		if (o->c == 1 && n % 3 == 1) yield();
		if (o->c == 2 && n % 4 == 1) { int q = np++; if (np > MAXS - 2) { np--; continue; } memset(&P[q], 0, sizeof P[q]); P[q].how = H_ASYNC; P[q].parent = i; P[q].late = 1; sprintf(texts[q], "t%d", q); P[q].rid = go_(q, 1); }
		if (o->c == 3 && n % 4 == 1) do_work(n);
	}
	if (tasks_count(wg) != (size_t)n) pbt_fail("the group of task %d has %d tasks instead of %d", i, (int)tasks_count(wg), n);
	if (!n) empty_groups++;
	array_t r = waitfor(wg);
	for (c = o->a; c >= 0; c = P[c].next) { ended(c, "waitfor returned"); if (P[c].deferred != P[c].defers) pbt_fail("waitfor returned, but task %d ran %d of its %d deferred functions", c, P[c].deferred, P[c].defers); value_is(c, results_for(P[c].rid), "results_for after waitfor"); }
	if (!want && r) pbt_fail("waitfor gave results, but no task of the group returned anything");
	if (want && !is_data(r)) pbt_fail("waitfor gave no results, but %d tasks of the group of task %d returned something", want, i);
	if (r) for (k = 0; k < $size(r); k++) {
		uint32_t id = (uint32_t)r[k].u_int; int hit = 0;
		for (c = o->a; c >= 0; c = P[c].next) if (P[c].rid == id) { hit = 1; if (!ret_of(c)) pbt_fail("waitfor lists task %d, which returned nothing", c); if (P[c].awaited++) pbt_fail("waitfor lists task %d twice", c); got++; }
		if (!hit) pbt_fail("waitfor lists result id %u, which is none of the group of task %d", id, i);
	}
	if (got != want) pbt_fail("waitfor gave %d results instead of %d (group of task %d)", got, want, i);
}
static void *body(param_t a) {
	int i = a[0].integer, k; spec *s; int mark = i * 7 + 1;
	if (i < 0 || i >= np) pbt_fail("a task got a wrong first argument: %d", i);
	s = &P[i];
	if (__sync_fetch_and_add(&s->started, 1)) pbt_fail("task %d was started twice", i);
	s->tid = gettid_();
	if (s->how == H_GO || s->how == H_MEMBER) {
		size_t want = (size_t)s->nargs + 1;
		if ($size(a) != want) pbt_fail("task %d got %d arguments instead of %d", i, (int)$size(a), (int)want);
		if ((want > 1 && a[1].char_ptr != texts[i]) || (want > 2 && a[2].object != s) || (want > 3 && a[3].integer != 7)) pbt_fail("task %d got wrong arguments", i);
	}
	if (s->how == H_GO && on_main()) pbt_fail("task %d, created with go(), runs on the main thread", i);
	if ((s->how == H_ROOT || s->how == H_ASYNC) && P[i].parent < 0 && !on_main()) pbt_fail("task %d, created with async_task() by the main thread, runs on another one", i);
	for (k = 0; k < s->nops; k++) {
		op *o = &s->o[k]; int tid = gettid_(), j, q;
		switch (o->kind) {
		case O_YIELD: yield(); break;
		case O_DELAY: delay((uint32_t)o->a); break;
		case O_DEFER: s->defers++; defer(on_defer, s); break;
		case O_DEEP: deep(o->a, i); break;
		case O_WORK: do_work(o->a); break;
		case O_STREAM: do_stream(o); break;
		case O_FILE: do_file(o); break;
		case O_CHILD: do_child(o); break;
		case O_GUARD: go_guarded(o->a); break;
		case O_GO: P[o->a].rid = go_(o->a, 0); break;
		case O_SPAWN: P[o->a].rid = go_(o->a, 1); break;
		case O_AWAIT: for (j = q = 0; j < k; j++) if (s->o[j].kind == O_GO) { if (q == o->a) { await_(s->o[j].a); break; } q++; } break;
		case O_WG: group(i, o); break;
		}
		if (gettid_() != tid) pbt_fail("task %d moved to another thread", i);
		if (mark != i * 7 + 1 || a[0].integer != i) pbt_fail("task %d: locals or arguments changed", i);
	}
	for (k = 0; k < s->nops; k++) if (s->o[k].kind == O_GO || s->o[k].kind == O_SPAWN) await_(s->o[k].a);
	__sync_synchronize();
	s->finished = 1;
	return ret_of(i);
}
static int roots[4], nroots;
static void *program(param_t a) {
	int i; (void)a;
	for (i = 0; i < nroots; i++) P[roots[i]].rid = async_task(body, 1, (void *)(intptr_t)roots[i]);
	for (i = 0; i < nroots; i++) await_(roots[i]);
	for (i = 0; i < ng; i++) while (!G[i].cleaned) yield();
	return 0;
}
static void run_pool(void) {
	int i, k, ngo = 0, nwg = 0, nm = 0;
	cpus = (int)pbt_int(2, 5);
	nroots = (int)pbt_size(1, 3);
	for (i = 0; i < nroots; i++) roots[i] = draw(-1, H_ROOT, 2);
	pbt_note("%d processors. ", cpus);
	for (i = 0; i < np; i++) { sprintf(texts[i], "t%d", i); ngo += P[i].how == H_GO; nm += P[i].how == H_MEMBER; for (k = 0; k < P[i].nops; k++) nwg += P[i].o[k].kind == O_WG; }
	for (i = 0; i < nroots; i++) show(roots[i]);
	if (ngo > 1 || (nwg && nm > 1)) pbt_nontrivial();
	if (ngo) pbt_label("go"); if (nwg) pbt_label("waitgroup"); if (nwg > 1) pbt_label("several waitgroups"); if (nroots > 1) pbt_label("several roots");
	if (ng) pbt_label("go_guard"); if (nchild) pbt_label("children");
	int before = count_fds();
	if (F_io) { sigset_t pipes; sigemptyset(&pipes); sigaddset(&pipes, SIGPIPE); sigprocmask(SIG_BLOCK, &pipes, NULL); }
	main_tid = gettid_();
	if (cpus > 3 && pbt_chance(1, 6)) { no_thread = (int)pbt_int(1, cpus); pbt_note("the %d. thread is refused. ", no_thread); pbt_label("a thread is refused"); }
	events_start(F_io ? 1024 : 64, (main_cb)program, 0);
	if (streams != streamed) pbt_fail("%d of %d streams and files came to their end", streamed, streams);
	if (F_io && !refused && (k = count_fds()) > before) pbt_fail("%d descriptors are left open", k - before);
	for (i = 0; i < np; i++) { if (P[i].started > 1) pbt_fail("task %d was started %d times", i, P[i].started); if (P[i].how != H_ASYNC || !P[i].late) ended(i, "the program ended"); }
	pbt_done();
}
static void u_go(void) { F_go = 1; F_work = pbt_chance(1, 4); run_pool(); }
static void u_io(void) { F_io = 1; F_go = 1; F_wg = pbt_chance(1, 3); F_work = pbt_chance(1, 4); run_pool(); }
static void u_waitgroup(void) { F_wg = 1; F_go = pbt_chance(1, 3); F_work = pbt_chance(1, 6); run_pool(); }

/* ------------------------------------------------------------- queue_work, promises */
enum { J_ADD, J_TEXT, J_NULL, J_FAIL, J_SLOW, J_ARRAY, J_ARGS, J_KINDS };
enum { Q_PUT, Q_GET, Q_WAIT, Q_YIELD, Q_DELAY, Q_OWN, Q_KINDS };
typedef struct { int kind, job, a, b; } qop;
typedef struct { int n; qop o[24]; volatile int runs[24]; } qprog;
static qprog Q[4]; static int nq;
static qop *last_seen; static int then_count; static qprog *then_prog; static int then_left[24], then_n;

static void *job(param_t a) {
	int q = a[0].integer, k = a[1].integer; qop *o;
	if (q < 0 || q >= nq || k < 0 || k >= Q[q].n) pbt_fail("a queued function got wrong arguments: %d, %d", q, k);
	o = &Q[q].o[k];
	if (on_main()) pbt_fail("queue_work ran its function on the main thread");
	if (__sync_fetch_and_add(&Q[q].runs[k], 1) && o->kind != Q_OWN) pbt_fail("a queued function ran twice");
	switch (o->job) {
	case J_ADD: return (void *)(intptr_t)(o->a + a[2].integer);
	case J_TEXT: return texts[k];
	case J_FAIL: errno = 1 + o->a % 100; return (void *)(intptr_t)-1;
	case J_SLOW: nap(o->a % 3000); return (void *)(intptr_t)(o->a + 5);
	case J_ARRAY: return $((void *)(intptr_t)(o->a + 9));
	case J_ARGS: { size_t i; intptr_t s = 0; for (i = 2; i < $size(a); i++) s = s * 3 + a[i].integer; return (void *)s; }
	}
	return NULL;
}
static promise *put(int q, int k) {
	qop *o = &Q[q].o[k];
#define V(x) (void *)(intptr_t)(x)
	if (o->job == J_ARGS) {
		if (o->b == 0) return queue_work(futures_pool(), job, 2, V(q), V(k));
		if (o->b == 1) return queue_work(futures_pool(), job, 5, V(q), V(k), V(1), V(2), V(3));
		return queue_work(futures_pool(), job, 9, V(q), V(k), V(4), V(3), V(2), V(1), V(0), V(5), V(6));
	}
	return queue_work(futures_pool(), job, 3, V(q), V(k), V(o->b));
}
static intptr_t want_of(qop *o, int k) {
	switch (o->job) {
	case J_ADD: return o->a + o->b;
	case J_TEXT: return (intptr_t)texts[k];
	case J_FAIL: return -1;
	case J_SLOW: return o->a + 5;
	case J_ARRAY: return o->a + 9;
	case J_ARGS: return o->b == 0 ? 0 : o->b == 1 ? (1 * 3 + 2) * 3 + 3 : (((((4 * 3 + 3) * 3 + 2) * 3 + 1) * 3 + 0) * 3 + 5) * 3 + 6;
	}
	return 0;
}
static void check_job(int q, int k, values_t v, int err, const char *by) {
	qop *o = &Q[q].o[k];
	if (!Q[q].runs[k]) pbt_fail("%s returned, but function %d.%d has not run", by, q, k);
	if ((intptr_t)v.object != want_of(o, k)) pbt_fail("%s gave %ld instead of %ld for function %d.%d (kind %d)", by, (long)v.object, (long)want_of(o, k), q, k, o->job);
	if (o->job == J_FAIL && err != 1 + o->a % 100) pbt_fail("%s: the function %d.%d failed with errno %d, errno is %d", by, q, k, 1 + o->a % 100, err);
}
static int then_q;
static void *then_fn(tuple_t t) { /* every result once: find a matching one that is still open */
	intptr_t v = t->intptr; int i;
	for (i = 0; i < then_n; i++) if (then_left[i] >= 0 && want_of(&Q[then_q].o[then_left[i]], then_left[i]) == v) { then_left[i] = -1; then_count++; return 0; }
	pbt_fail("queue_wait handed over %ld, which none of the functions still to finish returned", (long)v);
	return 0;
}
/* one promise for a row of jobs, of changing kinds; at last it is cleaned, or given up by queue_get() */
static void own_promise(int q, int k) {
	static const int kinds[] = { J_ADD, J_TEXT, J_NULL, J_FAIL, J_ARRAY };
	qprog *p = &Q[q]; qop *o = &p->o[k]; promise *f = alloc_promise();
	int n, rounds = 1 + o->a % 4, get = o->a / 4 % 2, i, first = 0;
	for (i = 0; i < 5; i++) if (kinds[i] == o->job) first = i;
	for (n = 0; n < rounds; n++) {
		if (n || o->job != J_SLOW) o->job = kinds[(first + n * (1 + o->b)) % 5];
		errno = 0;
		if (promise_work(f, job, 3, V(q), V(k), V(o->b)) != f) pbt_fail("promise_work gave another promise");
		values_t v = promise_wait(f); int e = errno; void *t = v.object;
		if (p->runs[k] != n + 1) pbt_fail("promise_wait returned, but the function ran %d times instead of %d", p->runs[k], n + 1);
		if (o->job == J_ARRAY) { if (!t) pbt_fail("promise_wait gave nothing for a function that returned an array"); v = *(tuple_t)t; }
		check_job(q, k, v, e, "promise_wait");
		if (get && n == rounds - 1) {
			v = queue_get(f); check_job(q, k, v, e, "queue_get after promise_wait");
			return;
		}
		if (o->job == J_ARRAY) $delete(t);
		if (n % 2) yield();
	}
	promise_clean(f);
}
static int waiting;   /* one task at a time uses queue_wait: its callback has no context */
static void *qbody(param_t a) {
	int q = a[0].integer, k; promise *open[24]; int opened[24], no = 0; qprog *p = &Q[q];
	for (k = 0; k < p->n; k++) {
		qop *o = &p->o[k];
		switch (o->kind) {
		case Q_PUT: open[no] = put(q, k); opened[no] = k; if (!is_promise(open[no])) pbt_fail("queue_work gave no promise"); no++; break;
		case Q_GET: if (no) { int j = o->a % no; promise *f = open[j]; errno = 0; values_t v = queue_get(f); int e = errno; check_job(q, opened[j], v, e, "queue_get"); if (queue_is_valid(f)) pbt_fail("a promise is still valid after queue_get"); memmove(&open[j], &open[j + 1], sizeof open[0] * (size_t)(no - j - 1)); memmove(&opened[j], &opened[j + 1], sizeof opened[0] * (size_t)(no - j - 1)); no--; } break;
		case Q_WAIT: if (no && !waiting) { int j; array_t w = array(); waiting = 1; then_q = q; then_n = no; then_count = 0; for (j = 0; j < no; j++) { $append(w, open[j]); then_left[j] = opened[j]; }
			queue_wait(w, (then_cb)then_fn); if (then_count != no) pbt_fail("queue_wait handed over %d of %d results", then_count, no); for (j = 0; j < no; j++) if (!p->runs[opened[j]]) pbt_fail("queue_wait returned before a function ran"); no = 0; waiting = 0; } break;
		case Q_YIELD: yield(); break;
		case Q_DELAY: delay((uint32_t)(o->a % 4)); break;
		case Q_OWN: own_promise(q, k); break;
		}
	}
	while (no) { errno = 0; values_t v = queue_get(open[--no]); int e = errno; check_job(q, opened[no], v, e, "queue_get"); }
	return (void *)(intptr_t)(q + 1);
}
static void *qmain(param_t a) {
	uint32_t rid[4]; int i; (void)a;
	for (i = 0; i < nq; i++) rid[i] = async_task(qbody, 1, V(i));
	for (i = 0; i < nq; i++) if (await_for(rid[i]).integer != i + 1) pbt_fail("task %d has a wrong result", i);
	return 0;
}
static void u_queue(void) {
	int i, k, puts = 0;
	static const char *jn[] = { "add", "text", "null", "fail", "slow", "array", "args" };
	cpus = (int)pbt_int(2, 5);
	nq = (int)pbt_size(1, 4);
	pbt_note("%d processors. ", cpus);
	for (i = 0; i < nq; i++) {
		int n = (int)pbt_size(1, 20); Q[i].n = n; pbt_note("task %d: ", i);
		for (k = 0; k < n; k++) {
			int w[] = { 8, 4, 1, 2, 1, 2 }; qop *o = &Q[i].o[k];
			o->kind = pbt_weighted(w, Q_KINDS); o->job = (int)pbt_below(J_KINDS); o->a = (int)pbt_size(0, 100000); o->b = (int)pbt_below(3);
			if (o->kind == Q_OWN && o->job == J_ARGS) o->job = J_ADD;
			switch (o->kind) {
			case Q_PUT: pbt_note("queue %s(%d, %d); ", jn[o->job], o->a, o->b); puts++; break;
			case Q_GET: pbt_note("get #%d; ", o->a); break;
			case Q_WAIT: pbt_note("wait all; "); break;
			case Q_YIELD: pbt_note("yield; "); break;
			case Q_DELAY: pbt_note("delay(%d); ", o->a % 4); break;
			case Q_OWN: pbt_note("own promise %d times %s(%d, %d); ", 1 + o->a % 4, jn[o->job], o->a, o->b); puts++; break;
			}
		}
	}
	if (puts > 1) pbt_nontrivial();
	if (nq > 1) pbt_label("several tasks");
	for (i = 0; i < MAXS; i++) sprintf(texts[i], "t%d", i);
	main_tid = gettid_();
	events_start(64, (main_cb)qmain, 0);
	for (i = 0; i < nq; i++) for (k = 0; k < Q[i].n; k++) if (Q[i].o[k].kind == Q_PUT && Q[i].runs[k] != 1) pbt_fail("function %d.%d ran %d times", i, k, Q[i].runs[k]);
	pbt_done();
}

/* ------------------------------------------------------------- thrd_async */
enum { T_INT, T_TEXT, T_NULL, T_ONE, T_TWO, T_THROW, T_PANIC, T_FAIL, T_KINDS };
typedef struct { int kind, a, us, how, again, nested; volatile int runs, deferred; int order; int refused; } fut;
static fut T[8]; static int nt, t_tasks;
EX_EXCEPTION(custom_failure);
static void t_defer(void *p) { __sync_fetch_and_add(&((fut *)p)->deferred, 1); }
static void *tbody(param_t a) {
	int i = a[0].integer; fut *t;
	if (i < 0 || i >= nt || $size(a) != 3 || a[2].integer != 77) pbt_fail("a thread got wrong arguments");
	t = &T[i];
	if (strcmp(a[1].char_ptr, texts[i])) pbt_fail("a thread got wrong arguments");
	if (on_main()) pbt_fail("thrd_async ran its function on the calling thread");
	if (__sync_fetch_and_add(&t->runs, 1)) pbt_fail("thread %d ran twice", i);
	defer(t_defer, t);
	if (t->us) nap(t->us);
	if (t->nested) { volatile int c = 0; try { throw(range_error); } catch (range_error) { c = 1; } if (!c) pbt_fail("thread %d could not catch its own exception", i); }
	switch (t->kind) {
	case T_INT: return (void *)(intptr_t)(t->a + 1);
	case T_TEXT: return texts[i];
	case T_ONE: return $(casting(t->a + 2));
	case T_TWO: return $$(casting(t->a + 3), casting(1));
	case T_THROW: if (t->a & 1) throw(custom_failure); else throw(division_by_zero); break;
	case T_PANIC: panic("went wrong"); break;
	case T_FAIL: errno = 1 + t->a % 100; return (void *)(intptr_t)-1;
	}
	return NULL;
}
static void spin(void) { nap(50); }
static void tget(int i, future_t f) {
	fut *t = &T[i]; volatile int n; volatile const char *got = NULL; values_t v; volatile intptr_t val = 0; char name[64] = "", msg[64] = ""; volatile int e = 0;
	for (n = 0; n <= t->again; n++) {
		name[0] = 0; errno = 0;
		if (t->how == 1 && n == 0) { thrd_wait(f, spin); if (!thrd_is_done(f)) pbt_fail("thrd_wait returned before the thread was done"); }
		try {
			v = t->how == 2 && n == 0 ? queue_get(f) : thrd_get(f);
			e = errno; val = (intptr_t)v.object;
		} catch_any { snprintf(name, sizeof name, "%s", err.name); snprintf(msg, sizeof msg, "%s", try_message()); }
		if (t->runs != 1) pbt_fail("thrd_get returned, but thread %d ran %d times", i, t->runs);
		if (t->deferred != 1) pbt_fail("thrd_get returned, but thread %d ran %d of 1 deferred functions", i, t->deferred);
		const char *want = t->kind == T_THROW ? (t->a & 1 ? "custom_failure" : "division_by_zero") : t->kind == T_PANIC ? "_panic" : "";
		if (n == 0 && strcmp(name, want)) pbt_fail("thread %d: thrd_get threw '%s' instead of '%s'", i, name, want);
		if (t->kind == T_PANIC && strcmp(msg, "went wrong")) pbt_fail("thread %d: the panic arrived as '%s'", i, msg);
		if (*want) break;
		if (name[0]) pbt_fail("thread %d: thrd_get threw '%s' the second time", i, name);
		intptr_t w = t->kind == T_INT ? t->a + 1 : t->kind == T_TEXT ? (intptr_t)texts[i] : t->kind == T_ONE ? t->a + 2 : t->kind == T_TWO ? t->a + 3 : t->kind == T_FAIL ? -1 : 0;
		if (val != w) pbt_fail("thread %d: thrd_get gave %ld instead of %ld", i, (long)val, (long)w);
		if (t->kind == T_FAIL && n == 0 && e != 1 + t->a % 100) pbt_fail("thread %d failed with errno %d, thrd_get left errno %d", i, 1 + t->a % 100, e);
	}
	(void)got;
}
static void futures(int from, int to) {
	future_t f[8]; int i, j;
	int left = to - from;
	for (i = from; i < to; i++) {
		volatile int thrown = 0;
		f[i] = NULL;
		if (T[i].refused) {
			no_thread = 1; refused = 0;
			try { thrd_async(tbody, 3, V(i), texts[i], V(77)); } catch (future_error) { thrown = 1; }
			if (!refused) pbt_fail("thrd_async asked for no thread");
			if (!thrown) pbt_fail("thrd_async did not throw when there was no thread");
			left--;
		} else if (f[i] = thrd_async(tbody, 3, V(i), texts[i], V(77)), !is_future(f[i])) pbt_fail("thrd_async gave no future");
	}
	while (left--) { /* read in drawn order */
		int best = -1;
		for (j = from; j < to; j++) if (f[j] && (best < 0 || T[j].order < T[best].order)) best = j;
		tget(best, f[best]); f[best] = NULL;
	}
}
static void *tmain(param_t a) { (void)a; futures(0, nt); return (void *)1; }
static void *tpart(param_t a) { futures(a[0].integer, a[1].integer); return (void *)1; }
static void *tsplit(param_t a) { uint32_t r1, r2; (void)a; r1 = async_task(tpart, 2, V(0), V(nt / 2)); r2 = async_task(tpart, 2, V(nt / 2), V(nt)); if (await_for(r1).integer != 1 || await_for(r2).integer != 1) pbt_fail("a task lost its result"); return 0; }
static void u_future(void) {
	int i; static const char *kn[] = { "int", "text", "null", "$", "$$", "throw", "panic", "fail" };
	cpus = 2; nt = (int)pbt_size(1, 7); t_tasks = (int)pbt_below(3);
	for (i = 0; i < nt; i++) {
		fut *t = &T[i]; t->kind = (int)pbt_below(T_KINDS); t->a = (int)pbt_size(0, 1000000); t->us = pbt_chance(1, 2) ? (int)pbt_below(800) : 0; t->how = (int)pbt_below(t_tasks ? 3 : 2); t->again = (int)pbt_below(2); t->nested = pbt_chance(1, 4); t->order = (int)pbt_below(100); t->refused = pbt_chance(1, 12);
		sprintf(texts[i], "t%d", i); pbt_note("%s(%d, %d us%s)%s ", kn[t->kind], t->a, t->us, t->nested ? ", own exception" : "", t->how == 1 ? " waited" : t->how == 2 ? " queue_get" : t->refused ? " refused" : "");
	}
	if (nt > 1) pbt_nontrivial();
	main_tid = gettid_();
	pbt_label("%s", t_tasks == 0 ? "plain" : t_tasks == 1 ? "one task" : "two tasks");
	if (t_tasks == 0) { events_init(64); futures(0, nt); }
	else events_start(64, (main_cb)(t_tasks == 1 ? tmain : tsplit), 0);
	for (i = 0; i < nt; i++) if (T[i].runs != !T[i].refused) pbt_fail("thread %d ran %d times", i, T[i].runs);
	pbt_done();
}

/* ------------------------------------------------------------- connections handed to the pool */
#define MAXV 16
typedef struct { int kind, n, rounds, len[6], pause[6], until_eof, hpause; volatile int handled, tid, handled_rounds, closed; volatile long bytes; } served;
static served V_[MAXV]; static int nv, v_quota[2]; static volatile int v_fd[2], v_up[2], v_left;
static uint8_t vbyte(int c, int r, int i) { return (uint8_t)(c * 53 + r * 17 + i * 7 + (i >> 8)); }
static int read_all(int fd, uint8_t *b, int n) { int m, t = 0; while (t < n && (m = async_read(fd, b + t, n - t)) > 0) t += m; return t; }
static void serve_one(int fd) {
	uint8_t id, *b; int c, r, i, mark; served *v;
	if (read_all(fd, &id, 1) != 1) pbt_fail("a handler cannot read the first byte of its connection");
	if ((c = id) >= nv) pbt_fail("a handler got a connection that begins with %d", id);
	v = &V_[c]; mark = c * 3 + 1;
	if (__sync_fetch_and_add(&v->handled, 1)) pbt_fail("connection %d was handled twice", c);
	v->tid = gettid_();
	for (r = 0; r < v->rounds || v->until_eof; r++) {
		int len = r < v->rounds ? v->len[r] : 1;
		b = malloc((size_t)len + 1);
		i = read_all(fd, b, len);
		if (r == v->rounds) { if (i) pbt_fail("connection %d: more came than was sent", c); free(b); break; }
		if (i != len) pbt_fail("connection %d: its handler read %d of %d bytes in round %d, errno %d", c, i, len, r, errno);
		for (i = 0; i < len; i++) { if (b[i] != vbyte(c, r, i)) pbt_fail("connection %d: its handler read a wrong byte %d in round %d", c, i, r); b[i] ^= 0xff; }
		if (v->hpause == 1) yield(); else if (v->hpause == 2) delay(1);
		if ((i = async_write(fd, b, len)) != len) pbt_fail("connection %d: its handler wrote %d of %d bytes, errno %d", c, i, len, errno);
		free(b);
		v->bytes += len; v->handled_rounds = r + 1;
		if (v->tid != gettid_() || mark != c * 3 + 1) pbt_fail("connection %d: its handler was disturbed", c);
	}
	v->closed = 1;
}
static int listen_on(int k) {
	char a[64]; int fd;
	if (k) return uds_bind((char *)"unix://serve.sock", 32);
	snprintf(a, sizeof a, "127.%d.%d.%d", 1 + (getpid() >> 14) % 250, (getpid() >> 7) % 128, 1 + getpid() % 128);
	fd = (int)async_bind(a, 7300, 32, 1);
	return fd;
}
static void *server_task(param_t args) {
	int k = args[0].integer, q = v_quota[k], fd;
	if ((v_fd[k] = listen_on(k)) < 0) pbt_fail("listening failed with errno %d", errno);
	v_up[k] = 1;
	while (q-- > 0) {
		fd = k ? uds_accept(v_fd[k], NULL) : (int)async_accept(v_fd[k], NULL, NULL);
		if (fd < 0) pbt_fail("accepting failed with errno %d", errno);
		if (k) uds_handler((uds_unix_cb)serve_one, fd); else accept_handler((client_cb)serve_one, fd);
	}
	os_close(v_fd[k]);
	while (v_left) yield(); /* its file lives as long as this task */
	return 0;
}
static void *vclient_task(param_t args) {
	int c = args[0].integer, fd, r, i; served *v = &V_[c]; uint8_t id = (uint8_t)c, *b; char a[64];
	while (!v_up[v->kind]) yield();
	if (v->kind) fd = uds_connect((char *)"serve.sock");
	else { snprintf(a, sizeof a, "127.%d.%d.%d", 1 + (getpid() >> 14) % 250, (getpid() >> 7) % 128, 1 + getpid() % 128); fd = (int)async_connect(a, 7300, 1); }
	if (fd < 0) pbt_fail("connection %d: connecting failed with errno %d", c, errno);
	if (async_write(fd, &id, 1) != 1) pbt_fail("connection %d: the first byte", c);
	for (r = 0; r < v->rounds; r++) {
		b = malloc((size_t)v->len[r] + 1);
		for (i = 0; i < v->len[r]; i++) b[i] = vbyte(c, r, i);
		if (v->pause[r] == 1) yield(); else if (v->pause[r] == 2) delay(1);
		if ((i = async_write(fd, b, v->len[r])) != v->len[r]) pbt_fail("connection %d: wrote %d of %d bytes, errno %d", c, i, v->len[r], errno);
		memset(b, 0, (size_t)v->len[r]);
		if ((i = read_all(fd, b, v->len[r])) != v->len[r]) pbt_fail("connection %d: %d of %d bytes of the answer in round %d, errno %d", c, i, v->len[r], r, errno);
		for (i = 0; i < v->len[r]; i++) if (b[i] != (uint8_t)~vbyte(c, r, i)) pbt_fail("connection %d: byte %d of the answer in round %d is wrong", c, i, r);
		free(b);
	}
	if (v->until_eof) shutdown(fd, SHUT_WR);
	/* the handler has returned, and what it was given is closed */
	if ((i = async_read(fd, &id, 1)) != 0) pbt_fail("connection %d: reading after its handler ended gives %d, errno %d", c, i, errno);
	if (!v->closed) pbt_fail("connection %d: was closed before its handler returned", c);
	os_close(fd);
	v_left--;
	return 0;
}
static void *serve_program(param_t a) {
	int k; (void)a;
	for (k = 0; k < 2; k++) if (v_quota[k]) async_task(server_task, 1, (void *)(intptr_t)k);
	for (k = 0; k < nv; k++) async_task(vclient_task, 1, (void *)(intptr_t)k);
	while (v_left) yield();
	delay(1);
	return 0;
}
static void u_serve(void) {
	int i, r, w, before, after; sigset_t pipes; sigemptyset(&pipes); sigaddset(&pipes, SIGPIPE); sigprocmask(SIG_BLOCK, &pipes, NULL);
	if (chdir(pbt_scratch())) pbt_fail("scratch");
	cpus = (int)pbt_int(2, 5);
	nv = v_left = 1 + (int)pbt_size(0, MAXV - 1); w = (int)pbt_below(3);
	for (i = 0; i < nv; i++) {
		served *v = &V_[i]; memset(v, 0, sizeof *v);
		v->kind = w == 2 ? (int)pbt_below(2) : w; v_quota[v->kind]++;
		v->rounds = (int)pbt_size(0, 6); v->until_eof = pbt_chance(1, 2); v->hpause = (int)pbt_below(3);
		pbt_note("%s(", v->kind ? "uds" : "tcp");
		for (r = 0; r < v->rounds; r++) { v->len[r] = 1 + (int)(pbt_chance(1, 8) ? pbt_int(0, 70000) : pbt_size(0, 3000)); v->pause[r] = (int)pbt_below(3); pbt_note("%s%d", r ? " " : "", v->len[r]); }
		pbt_note("%s) ", v->until_eof ? " eof" : "");
	}
	if (nv > 1) pbt_nontrivial();
	if (v_quota[0]) pbt_label("accept_handler"); if (v_quota[1]) pbt_label("uds_handler");
	main_tid = gettid_(); before = count_fds();
	events_start(256, (main_cb)serve_program, 0);
	for (i = 0; i < nv; i++) {
		if (V_[i].handled != 1) pbt_fail("connection %d was handled %d times", i, V_[i].handled);
		if (V_[i].tid == main_tid) pbt_fail("the handler of connection %d ran on the main thread", i);
	}
	if ((after = count_fds()) > before) pbt_fail("%d descriptors are left open", after - before);
	pbt_done();
}

/* ------------------------------------------------------------- names looked up by several tasks */
#define MAXL 8
typedef struct { int kind, name, arg, pause, later; uint8_t ip[4]; } look;
static struct { int n; look o[10]; int done; } K_[MAXL]; static int nk;
static const char *l_names[] = { "", "localhost", "256.1.1.1", "1.2.3.4.5", "77.." }; /* those nobody asks the network about */
static void name_of(look *o, char *b) { if (o->name) strcpy(b, l_names[o->name]); else sprintf(b, "%d.%d.%d.%d", o->ip[0], o->ip[1], o->ip[2], o->ip[3]); }
static void is_host(look *o, struct hostent *h, const char *when) {
	char want[64]; uint8_t ip[4] = { 127, 0, 0, 1 };
	if (!o->name) memcpy(ip, o->ip, 4);
	name_of(o, want);
	if (h->h_addrtype != AF_INET || h->h_length != 4 || !h->h_addr_list[0] || memcmp(h->h_addr_list[0], ip, 4)) pbt_fail("async_gethostbyname(%s) gave another address (%d, %d, %u.%u...), %s", want, h->h_addrtype, h->h_length, h->h_addr_list[0] ? (uint8_t)h->h_addr_list[0][0] : 999, h->h_addr_list[0] ? (uint8_t)h->h_addr_list[0][1] : 999, when);
	if (strcmp(h->h_name, want)) pbt_fail("async_gethostbyname(%s) gave the name '%s', %s", want, h->h_name, when);
}
static void look_pause(look *o) { int i; for (i = 0; i < o->later; i++) yield(); if (o->pause) delay(1); }
static void *look_task(param_t args) {
	int t = args[0].integer, i; char name[64];
	for (i = 0; i < K_[t].n; i++) {
		look *o = &K_[t].o[i]; name_of(o, name);
		if (o->kind < 2) {
			struct hostent *h = async_gethostbyname(name); int resolves = o->name < 2;
			if (!h != !resolves) pbt_fail("async_gethostbyname(%s) gave %p", name, (void *)h);
			if (!h) continue;
			is_host(o, h, "at once");
			if (o->arg & 1) {
				char ip[32], *g = gethostbyname_ip(h); uint8_t *b = (uint8_t *)h->h_addr_list[0];
				sprintf(ip, "%d.%d.%d.%d", b[0], b[1], b[2], b[3]);
				if (strcmp(g, ip)) pbt_fail("gethostbyname_ip() of %s is %s", name, g);
			}
			look_pause(o);
			is_host(o, h, "while others looked for theirs");
		} else if (o->kind < 4) {
			struct addrinfo hints, *a = NULL, *b = NULL, *x, *y; int r, q; static const char *serv[] = { NULL, "80", "http", "nosuchservice", "99999" };
			memset(&hints, 0, sizeof hints);
			hints.ai_family = o->arg & 1 ? AF_INET : AF_UNSPEC; hints.ai_socktype = o->arg & 2 ? SOCK_STREAM : 0; hints.ai_flags = o->name > 1 || o->arg & 4 ? AI_NUMERICHOST : 0;
			r = async_getaddrinfo(name, serv[o->pause * 2 + o->later % 3], &hints, &a);
			if (!r) look_pause(o);
			q = getaddrinfo(name, serv[o->pause * 2 + o->later % 3], &hints, &b);
			if (r != q) pbt_fail("async_getaddrinfo(%s) gave %d, getaddrinfo() %d", name, r, q);
			if (r) continue;
			for (x = a, y = b; x && y; x = x->ai_next, y = y->ai_next) if (x->ai_family != y->ai_family || x->ai_socktype != y->ai_socktype || x->ai_addrlen != y->ai_addrlen || memcmp(x->ai_addr, y->ai_addr, x->ai_addrlen)) pbt_fail("async_getaddrinfo(%s) gave another address", name);
			if (x || y) pbt_fail("async_getaddrinfo(%s) gave another number of addresses", name);
			freeaddrinfo(a); freeaddrinfo(b);
		} else {
			struct sockaddr_in sa; char h1[64] = "", h2[64] = "", s1[32] = "", s2[32] = ""; int r, q, fl = (o->arg & 1 ? NI_NUMERICSERV : 0) | NI_NUMERICHOST;
			memset(&sa, 0, sizeof sa); sa.sin_family = o->arg & 4 ? 77 : AF_INET; sa.sin_port = htons((uint16_t)(o->later * 40)); memcpy(&sa.sin_addr, o->ip, 4);
			r = async_getnameinfo((sockaddr_t *)&sa, sizeof sa, h1, o->arg & 2 ? 7 : sizeof h1, s1, sizeof s1, fl);
			q = getnameinfo((struct sockaddr *)&sa, sizeof sa, h2, o->arg & 2 ? 7 : sizeof h2, s2, sizeof s2, fl);
			if (r != q || (!r && (strcmp(h1, h2) || strcmp(s1, s2)))) pbt_fail("async_getnameinfo() gave %d '%s' '%s', getnameinfo() %d '%s' '%s'", r, h1, s1, q, h2, s2);
		}
	}
	K_[t].done++;
	return 0;
}
static void *look_program(param_t a) {
	int i; uint32_t id[MAXL]; (void)a;
	for (i = 0; i < nk; i++) id[i] = async_task(look_task, 1, (void *)(intptr_t)i);
	for (i = 0; i < nk; i++) await_for(id[i]);
	return 0;
}
static void u_lookup(void) {
	int t, i, n = 0; static const char *kn[] = { "host", "host", "addr", "addr", "name" };
	cpus = (int)pbt_int(2, 6); nk = 1 + (int)pbt_size(0, MAXL - 1);
	for (t = 0; t < nk; t++) {
		K_[t].n = 1 + (int)pbt_size(0, 9); K_[t].done = 0; pbt_note("%d:", t);
		for (i = 0; i < K_[t].n; i++) {
			look *o = &K_[t].o[i]; char b[64]; int k; static const int w[] = { 8, 3, 1, 1, 1 };
			o->kind = (int)pbt_below(5); o->name = pbt_weighted(w, 5); o->arg = (int)pbt_below(8); o->pause = (int)pbt_below(2); o->later = (int)pbt_below(4);
			for (k = 0; k < 4; k++) o->ip[k] = (uint8_t)pbt_below(256);
			name_of(o, b); pbt_note(" %s(%s)", kn[o->kind], b); n += o->kind < 2; pbt_label("%s", kn[o->kind]);
		}
		pbt_note("; ");
	}
	if (nk > 1 && n > 1) pbt_nontrivial();
	main_tid = gettid_();
	events_start(64, (main_cb)look_program, 0);
	for (t = 0; t < nk; t++) if (K_[t].done != 1) pbt_fail("task %d is not finished", t);
	pbt_done();
}

/* --- many short tasks at once: several pool tasks hand out tasks in a loop, and
   groups whose tasks all end at about the same moment follow one another --- */
#define MAXB 6
static struct { int go, rounds, n, kind, spin; } B_[MAXB]; static int nb;
static int b_runs[MAXB][4096], b_done;
static void *leaf(param_t a) {
	int b = a[0].integer, k = a[1].integer, i; volatile int x = 0;
	__sync_fetch_and_add(&b_runs[b][k], 1);
	for (i = 0; i < B_[b].spin; i++) x += i;
	return (void *)(intptr_t)(k * 8 + b + 1);
}
static void leaf_is(int b, int k, values_t v) { if (v.integer != k * 8 + b + 1) pbt_fail("maker %d: task %d returned %d, expected %d", b, k, v.integer, k * 8 + b + 1); }
static void *maker(param_t a) {
	int b = a[0].integer, r, i, k = 0; uint32_t id[64];
	if (on_main() == B_[b].go) pbt_fail("maker %d runs on %s", b, on_main() ? "the main thread, go() started it" : "a pool thread, async_task() started it");
	for (r = 0; r < B_[b].rounds; r++) {
		if (B_[b].kind == 0 || (B_[b].kind == 2 && r % 2)) {
			for (i = 0; i < B_[b].n; i++) id[i] = go(leaf, 2, (void *)(intptr_t)b, (void *)(intptr_t)(k + i));
			for (i = 0; i < B_[b].n; i++) leaf_is(b, k + i, await_for(id[i]));
		} else {
			waitgroup_t wg = waitgroup(B_[b].n); array_t got;
			for (i = 0; i < B_[b].n; i++) id[i] = go(leaf, 2, (void *)(intptr_t)b, (void *)(intptr_t)(k + i));
			got = waitfor(wg);
			if (!got) pbt_fail("maker %d: waitfor gave no results in round %d", b, r);
			if ($size(got) != (size_t)B_[b].n) pbt_fail("maker %d: waitfor gave %d results for %d tasks in round %d", b, (int)$size(got), B_[b].n, r);
			for (i = 0; i < B_[b].n; i++) leaf_is(b, k + i, results_for(id[i]));
		}
		k += B_[b].n;
	}
	__sync_fetch_and_add(&b_done, 1);
	return (void *)(intptr_t)(b + 1);
}
static void *burst_program(param_t a) {
	int b; uint32_t id[MAXB]; (void)a;
	for (b = 0; b < nb; b++) id[b] = B_[b].go ? go(maker, 1, (void *)(intptr_t)b) : async_task(maker, 1, (void *)(intptr_t)b);
	for (b = 0; b < nb; b++) if (await_for(id[b]).integer != b + 1) pbt_fail("the result of maker %d is lost", b);
	return 0;
}
static void u_burst(void) {
	int b, k, total = 0; static const char *kn[] = { "go and await", "waitgroup", "both" };
	cpus = (int)pbt_int(2, 8);
	nb = (int)pbt_size(1, MAXB);
	for (b = 0; b < nb; b++) {
		B_[b].go = pbt_chance(1, 2);
		B_[b].kind = (int)pbt_int(0, 2);
		B_[b].n = (int)pbt_size(1, 40);
		B_[b].rounds = (int)pbt_size(1, 40);
		if (B_[b].n * B_[b].rounds > 400) B_[b].rounds = 400 / B_[b].n;
		B_[b].spin = pbt_chance(1, 2) ? 0 : (int)pbt_int(0, 3000);
		total += B_[b].n * B_[b].rounds;
	}
	pbt_note("%d processors. ", cpus);
	for (b = 0; b < nb; b++) { pbt_note("%s %d times %d tasks%s, %s; ", B_[b].go ? "in the pool:" : "on the main thread:", B_[b].rounds, B_[b].n, B_[b].spin ? " that work" : "", kn[B_[b].kind]); pbt_label(kn[B_[b].kind]); }
	if (nb > 1 && total > 20) pbt_nontrivial();
	main_tid = gettid_();
	events_start(64, (main_cb)burst_program, 0);
	if (b_done != nb) pbt_fail("%d of %d makers ended", b_done, nb);
	for (b = 0; b < nb; b++) for (k = 0; k < B_[b].n * B_[b].rounds; k++) if (b_runs[b][k] != 1) pbt_fail("maker %d: task %d ran %d times", b, k, b_runs[b][k]);
	pbt_done();
}

const pbt_unit pbt_units[] = {
	{ "go", u_go, 1, 30000, PBT_FLAKY | PBT_NOAS, "at least two tasks in the pool" },
	{ "waitgroup", u_waitgroup, 1, 30000, PBT_FLAKY | PBT_NOAS, "a waitgroup with at least two tasks, or two tasks in the pool" },
	{ "io", u_io, 1, 30000, PBT_FLAKY | PBT_NOAS | PBT_SCRATCH, "at least two tasks in the pool" },
	{ "burst", u_burst, 1, 30000, PBT_FLAKY | PBT_NOAS, "at least two makers and more than twenty tasks" },
	{ "serve", u_serve, 1, 30000, PBT_FLAKY | PBT_NOAS | PBT_SCRATCH, "at least two connections" },
	{ "lookup", u_lookup, 1, 30000, PBT_FLAKY | PBT_NOAS, "at least two tasks, and two hosts looked up" },
	{ "queue", u_queue, 1, 30000, PBT_FLAKY | PBT_NOAS, "at least two functions handed to pool threads" },
	{ "future", u_future, 1, 30000, PBT_FLAKY | PBT_NOAS, "at least two threads" },
	{ 0 }
};
