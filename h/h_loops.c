/* Loops of several threads: each thread makes loops of its own, and uses them at the same time as the
 * others, over descriptors that are closed and opened again, so that their numbers go from thread to thread. */
#include "events_internal.h"
#include "pbt.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <errno.h>
#include <fcntl.h>
#include <sys/socket.h>
#include <signal.h>
#include "posix_names.h"
#undef open
#undef read
#undef close
#undef write
#undef connect

#define MAXT 6
#define MAXL 3
#define MAXE 8
#define MAXOPS 80
typedef struct { int fd, peer, open, loop, ev, bytes, told, r, w, full; events_t *l; } end_t;
typedef struct { int kind, a, b, c; } op_t;
typedef struct { int k, nl, nops, calls; op_t ops[MAXOPS]; events_t *loops[MAXL]; int ids[MAXL]; end_t E[MAXE]; pthread_t t; int running; char err[400]; } th_t;
static th_t T[MAXT]; static int nt; static pthread_barrier_t bar;
static __thread th_t *me;
#define BAD(...) do { if (!me->err[0]) snprintf(me->err, sizeof me->err, __VA_ARGS__); } while (0)

static void cb(fds_t fd, int event, void *arg) {
	end_t *e = arg; char b[4096]; long n;
	me->calls++;
	if (e < me->E || e >= me->E + MAXE) { BAD("a callback was given an end of another thread, descriptor %d", (int)fd); return; }
	if (!e->open || e->fd != (int)fd || e->loop < 0) { BAD("callback of descriptor %d, which is not registered", (int)fd); return; }
	if (e->loop != me->running) { BAD("callback of descriptor %d of loop %d while loop %d runs", (int)fd, e->loop, me->running); return; }
	if (event & ~e->ev & (EVENTS_READ | EVENTS_WRITE)) { BAD("callback of descriptor %d with %d, registered for %d", (int)fd, event, e->ev); return; }
	e->told |= event;
	if (event & EVENTS_READ) {
		n = read((int)fd, b, sizeof b);
		if (n != e->bytes) { BAD("%ld bytes were read from descriptor %d instead of %d", n, (int)fd, e->bytes); return; }
		for (; n > 0; n--) if (b[n - 1] != (char)(me->k * 16 + 1)) { BAD("descriptor %d of thread %d has data of another", (int)fd, me->k); return; }
		e->bytes = 0;
	}
}
static void unreg(end_t *e) { if (e->loop >= 0) { if (events_del(e->fd)) BAD("events_del(%d) gave an error", e->fd); e->loop = -1; } }
static void *thread(void *p) {
	int i, j, k, s[2]; end_t *e, *o; char b[100];
	me = p; memset(b, me->k * 16 + 1, sizeof b); me->running = -1;
	pthread_barrier_wait(&bar);
	for (i = 0; i < me->nl; i++) {
		if (!(me->loops[i] = events_create(me->ops[i].a % 60 + 1))) { BAD("events_create() gave none"); return 0; }
		me->ids[i] = events_id(me->loops[i]);
	}
	for (i = 0; i < me->nops && !me->err[0]; i++) {
		op_t *x = &me->ops[i]; k = x->a % (MAXE / 2); e = &me->E[x->a % MAXE]; o = &me->E[(x->a % MAXE) ^ 1];
		switch (x->kind) {
		case 0: /* a pair */
			e = &me->E[2 * k]; o = e + 1; if (e->open || o->open) break;
			if (socketpair(AF_UNIX, SOCK_STREAM | SOCK_NONBLOCK, 0, s)) break;
			memset(e, 0, sizeof *e); memset(o, 0, sizeof *o); e->fd = s[0]; o->fd = s[1]; e->open = o->open = 1; e->loop = o->loop = -1; break;
		case 1: /* registered, perhaps with another loop than before */
			if (!e->open || e->loop >= 0) break;
			e->loop = x->b % me->nl; e->ev = x->c % 3 == 0 ? EVENTS_READ : x->c % 3 == 1 ? EVENTS_WRITE : EVENTS_READ | EVENTS_WRITE;
			if (events_add(me->loops[e->loop], e->fd, e->ev, 0, cb, e)) BAD("events_add(%d) gave an error", e->fd);
			break;
		case 2: if (e->open) unreg(e); break;
		case 3: if (e->open && o->open && o->bytes < 3000 && write(e->fd, b, 1 + x->b % 90) == 1 + x->b % 90) o->bytes += 1 + x->b % 90; break;
		case 4: if (e->open && o->open) { unreg(e); unreg(o); close(e->fd); close(o->fd); e->open = o->open = 0; } break;
		case 5:
			me->running = x->b % me->nl; for (j = 0; j < MAXE; j++) me->E[j].told = 0;
			{ int want[MAXE]; for (j = 0; j < MAXE; j++) { end_t *q = &me->E[j]; want[j] = q->open && q->loop == me->running ? (q->ev & EVENTS_WRITE) | (q->bytes ? q->ev & EVENTS_READ : 0) : 0; }
			if (events_once(me->loops[me->running], 0) < 0) BAD("events_once() gave an error");
			for (j = 0; j < MAXE; j++) if (me->E[j].open && (me->E[j].told & (EVENTS_READ | EVENTS_WRITE)) != want[j]) BAD("descriptor %d was told %d instead of %d", me->E[j].fd, me->E[j].told, want[j]); }
			me->running = -1; break;
		case 6:
			if (!e->open) break;
			for (j = 0; j < me->nl; j++) if (events_is_registered(me->loops[j], e->fd) != (e->loop == j)) BAD("events_is_registered(loop %d, %d) is wrong", j, e->fd);
			if (e->loop >= 0 && events_loop(e->fd) != me->loops[e->loop]) BAD("events_loop(%d) is another", e->fd);
			break;
		}
	}
	for (j = 0; j < MAXE; j++) if (me->E[j].open) { unreg(&me->E[j]); close(me->E[j].fd); }
	return 0;
}
static void u_loops(void) {
	static const int w[] = { 5, 8, 3, 7, 2, 9, 3 };
	int i, j, k, l, calls = 0;
	nt = 2 + (int)pbt_below(MAXT - 1); events_init(1024); pthread_barrier_init(&bar, 0, (unsigned)nt);
	pbt_note("%d threads", nt);
	for (i = 0; i < nt; i++) {
		th_t *t = &T[i]; t->k = i; t->nl = 1 + (int)pbt_below(MAXL); t->nops = 10 + (int)pbt_below(MAXOPS - 9);
		for (j = 0; j < t->nops; j++) t->ops[j] = (op_t){ j < 3 ? 0 : pbt_weighted(w, 7), (int)pbt_below(64), (int)pbt_below(90), (int)pbt_below(3) };
	}
	for (i = 0; i < nt; i++) if (pthread_create(&T[i].t, 0, thread, &T[i])) pbt_fail("harness: no thread");
	for (i = 0; i < nt; i++) pthread_join(T[i].t, 0);
	for (i = 0; i < nt; i++) {
		if (T[i].err[0]) pbt_fail("thread %d: %s", i, T[i].err);
		calls += T[i].calls;
		for (j = 0; j < T[i].nl; j++) for (k = 0; k <= i; k++) for (l = 0; l < (k < i ? T[k].nl : j); l++)
			if (T[k].ids[l] == T[i].ids[j]) pbt_fail("two loops, of threads %d and %d, have the number %d", k, i, T[i].ids[j]);
	}
	if (calls > 10) pbt_nontrivial();
	pbt_done();
}
/* --------------------------------------------------------------- a loop's end */
/* The library is set up, used and left several times; loops are destroyed at any point, also by their own
 * callbacks: from then on nothing of theirs is called, what else there is goes on, and no descriptor stays open. */
typedef struct { events_t *l; int alive, endings; } life_t;
typedef struct { int fd, peer, loop, reg, bytes, told; } src_t;
static life_t L[3]; static int nloops, in_loop = -1, ended_in_cb, gone_all, life_calls; static src_t S_[6]; static int ns; static actor_t *act[4]; static int act_loop[4], act_left[4], act_end[4];
static int something(int i) { int k, n = 0; for (k = 0; k < ns; k++) n += S_[k].reg && S_[k].loop == i; for (k = 0; k < 4; k++) n += act_left[k] && act_loop[k] == i; return n; }
static void running_check(int last) {
	int i;
	for (i = 0; i < nloops; i++) if (L[i].alive && something(i) && !events_is_running(L[i].l)) pbt_fail("loop %d has something to do, events_is_running() does not say so", i);
	if (last >= 0 && events_is_running(L[last].l)) pbt_fail("events_is_running() says so of a destroyed loop");
}
static void end_loop(int i, const char *where) {
	int r; pbt_note("destroy loop %d%s ", i, where);
	if ((r = events_destroy(L[i].l))) pbt_fail("events_destroy() gave %d", r);
	L[i].alive = 0; if (in_loop == i) { ended_in_cb++; pbt_label("destroyed by a callback"); }
	running_check(i);
}
static void perhaps_end(int i) {
	if (!pbt_chance(1, 4)) return;
	end_loop(i, " in a callback");
	
}
static void life_cb(fds_t fd, int event, void *arg) {
	src_t *x = arg; char b[200];
	life_calls++; pbt_note("[%s %d] ", event & EVENTS_TIMEOUT ? "timeout" : "read", (int)fd);
	if (x->fd != (int)fd || !x->reg) pbt_fail("callback of descriptor %d, which is not registered", (int)fd);
	if (!L[x->loop].alive) pbt_fail("callback of descriptor %d after its loop was destroyed", (int)fd);
	if (x->loop != in_loop) pbt_fail("callback of descriptor %d of loop %d while loop %d runs", (int)fd, x->loop, in_loop);
	x->told = 1;
	if (event & EVENTS_READ) { int n = (int)read((int)fd, b, sizeof b); if (n != x->bytes) pbt_fail("%d bytes were read from descriptor %d instead of %d", n, (int)fd, x->bytes); x->bytes = 0; }
	perhaps_end(x->loop);
}
static void life_actor(actor_t *a, void *arg) {
	int k = (int)(intptr_t)arg;
	life_calls++; pbt_note("[actor %d] ", k);
	if (!L[act_loop[k]].alive) pbt_fail("an actor came after its loop was destroyed");
	if (act_loop[k] != in_loop) pbt_fail("an actor of loop %d came while loop %d runs", act_loop[k], in_loop);
	act_left[k] = 0; if (!act_end[k]) perhaps_end(act_loop[k]);
}
static void life_signal(fds_t s, int event, void *arg) {
	int i = (int)(intptr_t)arg;
	life_calls++;
	if (!L[i].alive) pbt_fail("the callback of a signal after its loop was destroyed");
	if (pbt_chance(1, 3)) { events_del(s); end_loop(i, " in the callback of a signal"); }
}
/* signals have the small numbers */
static int pipe_above(int *p) { int q[2]; if (pipe2(q, O_NONBLOCK)) return -1; p[0] = fcntl(q[0], F_DUPFD, 32); p[1] = fcntl(q[1], F_DUPFD, 32); close(q[0]); close(q[1]); return p[0] < 0 || p[1] < 0; }
static int task_fd = -1, task_got, tasks_done;
static void *life_task(param_t args) {
	char b[10]; int k, n = (int)args[0].integer;
	for (k = 0; k < n; k++) { async_wait(task_fd, 'r'); if (read(task_fd, b, 1) != 1) pbt_fail("a task was woken with nothing to read"); task_got++; }
	return 0;
}
static void life_task_start(actor_t *a, void *arg) { async_task(life_task, 1, arg); }
static int open_fds(void) { int i, n = 0; for (i = 0; i < 300; i++) if (fcntl(i, F_GETFD) != -1) n++; return n; }
static void u_life(void) {
	static const int sizes[] = { 64, 65, 200, 1024, 5000 };
	int c, cycles = 1 + (int)pbt_below(4), i, k, ops, before = -1, p[2], na, sig, mine[8], nmine = 0;
	for (c = 0; c < cycles; c++) {
		int size = pbt_pick(sizes); pbt_note("\ninit %d: ", size);
		if (before < 0) before = open_fds();
		if (events_init(size)) pbt_fail("events_init(%d) gave an error", size);
		for (k = 0; k < size; k++) if (events_is_registered(0, k)) pbt_fail("descriptor %d is registered from the start", k);
		nloops = 1 + (int)pbt_below(3); ns = na = 0; gone_all = 0; sig = 0; memset(act_left, 0, sizeof act_left); memset(act_end, 0, sizeof act_end);
		for (i = 0; i < nloops; i++) { if (!(L[i].l = events_create(1 + (int)pbt_below(60)))) pbt_fail("events_create() gave none"); L[i].alive = 1; }
		for (ops = 3 + (int)pbt_below(25); ops > 0 && !gone_all; ops--) {
			i = (int)pbt_below((uint64_t)nloops);
			switch (pbt_below(8)) {
			case 0: case 1:
				if (!L[i].alive) break;
				for (k = 0; k < ns && L[S_[k].loop].alive; k++);
				if (k < ns && pbt_chance(1, 2)) { /* a destroyed loop's, to another */
					if (pbt_chance(1, 2)) { close(S_[k].fd); close(S_[k].peer); if (pipe_above(p)) pbt_fail("harness: no pipe"); S_[k].fd = p[0]; S_[k].peer = p[1]; S_[k].bytes = 0; pbt_label("number used again"); }
					else pbt_label("descriptor used again");
					S_[k].loop = i; S_[k].reg = 1; pbt_note("add %d again to loop %d ", S_[k].fd, i);
					if (events_add(L[i].l, S_[k].fd, EVENTS_READ, 0, life_cb, &S_[k])) pbt_fail("events_add(%d) gave an error", S_[k].fd);
					break;
				}
				if (ns == 6 || pipe_above(p)) break;
				S_[ns] = (src_t){ p[0], p[1], i, 1, 0, 0 }; pbt_note("add %d to loop %d ", p[0], i);
				if (events_add(L[i].l, p[0], EVENTS_READ, 0, life_cb, &S_[ns])) pbt_fail("events_add(%d) gave an error", p[0]);
				ns++; break;
			case 2: if (ns) { k = (int)pbt_below((uint64_t)ns); if (write(S_[k].peer, "x", 1) == 1) { S_[k].bytes++; pbt_note("write %d ", S_[k].fd); } } break;
			case 3:
				if (na == 4 || !L[i].alive) break;
				act_loop[na] = i; act_left[na] = 1; pbt_note("actor %d on loop %d ", na, i);
				if (!(act[na] = events_actor(L[i].l, 0, life_actor, (void *)(intptr_t)na))) pbt_fail("events_actor() gave none");
				na++; break;
			case 4: if (L[i].alive && pbt_chance(1, 3)) { if (sig && L[sig - 1].alive) { events_del(SIGUSR1); sig = 0; } for (k = 0; k < ns; k++) if (S_[k].loop == i && S_[k].reg && pbt_chance(1, 2)) { events_del(S_[k].fd); S_[k].reg = 0; } end_loop(i, ""); } break;
			case 5: if (!sig && L[i].alive) { sig = i + 1; if (events_add(L[i].l, SIGUSR1, EVENTS_SIGNAL, 0, life_signal, (void *)(intptr_t)i)) pbt_fail("the signal was not taken"); } break;
			default:
				if (!L[i].alive) break;
				in_loop = i; pbt_note("once %d ", i); { int want[6]; for (k = 0; k < ns; k++) want[k] = S_[k].reg && S_[k].loop == i && S_[k].bytes, S_[k].told = 0;
				events_once(L[i].l, 0); in_loop = -1; running_check(L[i].alive ? -1 : i);
				for (k = 0; k < ns; k++) if (want[k] && !S_[k].told && L[i].alive) pbt_fail("descriptor %d is ready and was not told", S_[k].fd); }
				if (sig && L[sig - 1].alive && pbt_chance(1, 4)) { int was = sig - 1; pbt_note("signal "); in_loop = -1; raise(SIGUSR1); if (!L[was].alive) sig = 0; }
			}
		}
		/* tasks go on with whichever loop is left */
		for (i = 0; i < nloops && !L[i].alive; i++);
		if (i < nloops && pbt_chance(1, 2)) {
			int n = 1 + (int)pbt_below(3), turns = 0, gap = 1 + (int)pbt_below(5), later, sent = 0, tp[2];
			for (k = 0; k < ns; k++) if (S_[k].reg && L[S_[k].loop].alive) { events_del(S_[k].fd); S_[k].reg = 0; }
			for (k = 0; k < na; k++) act_end[k] = 1;
			for (later = i + 1; later < nloops; later++) if (L[later].alive) { k = i; if (pbt_chance(1, 2)) i = later, later = k; end_loop(later, " but one"); later = i > later ? i : later; }
			if (L[i].alive && !pipe_above(tp)) {
				task_fd = tp[0]; task_got = 0; pbt_note("a task on loop %d, %d times ", i, n);
				if (!events_actor(L[i].l, 0, life_task_start, (void *)(intptr_t)n)) pbt_fail("events_actor() gave none");
				for (; turns < 60 && task_got < n; turns++) {
					if (turns % gap == 0 && sent < n && write(tp[1], "x", 1) == 1) sent++;
					in_loop = i; events_once(L[i].l, 0); in_loop = -1;
				}
				if (task_got < n) pbt_fail("the task read %d of %d", task_got, sent);
				for (turns = 0; turns < 10; turns++) { in_loop = i; events_once(L[i].l, 0); in_loop = -1; }
				close(tp[0]); close(tp[1]); pbt_label("a task on the loop left"); tasks_done++;
			}
		}
		for (i = 0; i < nloops; i++) if (L[i].alive) end_loop(i, " at the end");
		for (k = 0; k < ns; k++) { close(S_[k].fd); close(S_[k].peer); }
		signal(SIGUSR1, SIG_IGN);
		if (!gone_all) events_deinit();
		if (open_fds() != before + nmine) pbt_fail("%d descriptors are open, %d were before", open_fds(), before + nmine);
		for (k = 0; k < nmine; k++) if (fcntl(mine[k], F_GETFD) == -1) pbt_fail("descriptor %d of the program was closed", mine[k]);
		if (nmine < 8 && pbt_chance(1, 2)) { if ((mine[nmine] = dup(0)) < 0) pbt_fail("harness: dup"); pbt_note("program opens %d ", mine[nmine]); nmine++; }
	}
	if (life_calls > 3) pbt_nontrivial();
	pbt_done();
}
const pbt_unit pbt_units[] = {
	{ "life", u_life, 1, 20000, PBT_SCRATCH, "more than three callbacks" },
	{ "loops", u_loops, 1, 20000, PBT_SCRATCH | PBT_FLAKY, "more than ten callbacks" },
	{ 0 }
};
