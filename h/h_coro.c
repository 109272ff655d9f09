/* Coroutines: scheduling order, awaiting, task groups, generators, delays. Programs of tasks are
 * drawn up front and run on the library's scheduler under a virtual clock. */
#include "events_internal.h"
#include "pbt.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include "posix_names.h"
#include "vclock.h"

enum { O_LOG, O_YIELD, O_SPAWN, O_EX, O_LAUNCH, O_MANY, O_DEFER, O_TRY, O_DEEP, O_DATA, O_AWAIT, O_DELAY, O_GROUP, O_GEN, O_GENREAD, O_EMIT, O_BUSY, O_CANCEL, O_LOOK, O_SUSPEND, O_RESUME, O_KINDS };
static const char *oname[] = { "log", "yield", "spawn", "spawn_ex", "launch", "many", "defer", "try", "deep", "data", "await", "delay", "group", "gen", "genread", "emit", "busy", "cancel", "look", "suspend", "resume" };
typedef struct { int kind, a, b; } op;
enum { HOW_TASK, HOW_EX, HOW_LAUNCH, HOW_GEN };
#define MAXS 700
#define MAXOPS 80
#define OPS 11
typedef struct {
	int parent, how, nops, nargs, ret, stack, depth;
	op o[MAXOPS];
	/* run state */
	uint32_t rid; int started, finished, pc, ndef, created, canceled, suspended; uint32_t id_seen; tasks_t *me; void *data;
	generator_t gen; int emitted, taken, nemit;
	int64_t deadline, late_from; int waking;
} spec;
static spec P[MAXS]; static int np;
static int F_await, F_delay, F_group, F_gen, F_order;
static int rid_base;

/* ------------------------------------------------------------- drawing */
static int n_ops_total;
static int draw(int parent, int how, int depth);
static void put(spec *s, int k, int a, int b) { if (s->nops < MAXOPS) { s->o[s->nops] = (op){ k, a, b }; s->nops++; n_ops_total++; } }
static int draw_ms(void) {
	static const int ms[] = { 0, 1, 2, 3, 5, 10, 20, 50, 100, 999, 1000, 1001, 2500, 4294, 4295, 5000, 10000 };
	return pbt_chance(1, 2) ? (int)pbt_pick(ms) : (int)pbt_size(0, 200);
}
static int leaf(int parent, int how) {
	int i = np++; spec *s = &P[i]; memset(s, 0, sizeof *s); s->parent = parent; s->how = how; s->nargs = 1; s->ret = 1;
	s->depth = P[parent].depth + 1;
	return i;
}
static int draw(int parent, int how, int depth) {
	int i = np++; spec *s = &P[i]; memset(s, 0, sizeof *s);
	int n = (int)pbt_size(0, OPS), k;
	s->parent = parent; s->how = how; s->nargs = (int)pbt_size(0, 6); s->ret = (int)pbt_below(4); s->depth = parent >= 0 ? P[parent].depth + 1 : 0;
	static const int stacks[] = { 0, 1, 4096, Kb(8), Kb(16), Kb(64), Kb(256) };
	s->stack = (int)pbt_pick(stacks);
	if (how == HOW_GEN) { /* a generator body: emits interleaved with other things */
		for (k = 0; k < n; k++) {
			int w[] = { 4, 1, F_delay ? 1 : 0, 1 };
			switch (pbt_weighted(w, 4)) {
			case 0: put(s, O_EMIT, (int)pbt_below(6), 0); s->nemit++; break;
			case 1: put(s, O_YIELD, 0, 0); break;
			case 2: put(s, O_DELAY, draw_ms(), 0); break;
			default: put(s, O_LOG, 0, 0);
			}
		}
		return i;
	}
	for (k = 0; k < n && np < MAXS - 120; k++) {
		int can = depth > 0 && n_ops_total < 250, kids = 0, j;
		for (j = 0; j < s->nops; j++) kids += s->o[j].kind == O_SPAWN;
		int w[O_KINDS] = { [O_LOG] = 2, [O_YIELD] = 5, [O_SPAWN] = can ? 4 : 0, [O_EX] = can ? 1 : 0, [O_LAUNCH] = can ? 1 : 0, [O_MANY] = can && n_ops_total < 100 ? 1 : 0,
			[O_DEFER] = 2, [O_TRY] = F_gen ? 0 : 1, [O_DEEP] = 1, [O_DATA] = 1, [O_AWAIT] = F_await && (kids || s->depth) ? 3 : 0, [O_DELAY] = F_delay ? 3 : 0,
			[O_GROUP] = F_group && can ? 3 : 0, [O_GEN] = F_gen && depth > 0 ? 4 : 0, [O_GENREAD] = 0, [O_EMIT] = 0, [O_BUSY] = 0, [O_CANCEL] = 1, [O_LOOK] = 2, [O_SUSPEND] = F_order ? 3 : 0, [O_RESUME] = F_order && kids ? 4 : 0 };
		int kind = pbt_weighted(w, O_KINDS);
		int at = s->nops;
		switch (kind) {
		case O_SPAWN: put(s, O_SPAWN, 0, 0); P[i].o[at].a = draw(i, HOW_TASK, depth - 1); break;
		case O_EX: put(s, O_EX, 0, 0); P[i].o[at].a = draw(i, HOW_EX, depth - 1); break;
		case O_LAUNCH: put(s, O_LAUNCH, 0, 0); P[i].o[at].a = draw(i, HOW_LAUNCH, depth - 1); break;
		case O_MANY: { int c = (int)pbt_size(1, 90), q, yn = (int)pbt_below(3); put(s, O_MANY, np, c); for (q = 0; q < c; q++) { int l = leaf(i, HOW_TASK), y; for (y = 0; y < yn; y++) { P[l].o[P[l].nops++] = (op){ O_YIELD, 0, 0 }; } P[l].ret = q % 4; } } break;
		case O_GROUP: { int c = (int)pbt_size(1, 8), q, first = 0; put(s, O_GROUP, 0, c);
			/* the children are chained by index: their specs are stored as (first, next ...) in op fields of the child */
			int idx[8]; for (q = 0; q < c && q < 8; q++) idx[q] = draw(i, pbt_chance(1, 8) ? HOW_LAUNCH : HOW_TASK, depth - 1);
			for (q = 0; q < c && q < 8; q++) P[idx[q]].pc = q + 1 < c && q + 1 < 8 ? idx[q + 1] : 0;
			first = idx[0]; P[i].o[at].a = first; P[i].o[at].b = (int)pbt_below(3); } break;
		case O_GEN: { put(s, O_GEN, 0, 0); int g = draw(i, HOW_GEN, 0); P[i].o[at].a = g; P[i].o[at].b = (int)pbt_below(2); } break;
		case O_DELAY: put(s, O_DELAY, draw_ms(), 0); break;
		case O_AWAIT: case O_CANCEL: put(s, kind, (int)pbt_below(8), 0); break;
		case O_RESUME: { int own[MAXOPS], c = 0; for (j = 0; j < s->nops; j++) if (s->o[j].kind == O_SPAWN) own[c++] = s->o[j].a; put(s, O_RESUME, own[pbt_below((uint64_t)c)], 0); } break;
		case O_DEEP: put(s, O_DEEP, 1 + (int)pbt_below(5), 0); break;
		case O_TRY: put(s, O_TRY, (int)pbt_below(2), 0); break;
		case O_DEFER: put(s, O_DEFER, (int)pbt_below(2), 0); break;
		default: put(s, kind, 0, 0);
		}
		s = &P[i];
	}
	if (F_order) for (k = 0, n = s->nops; k < n; k++) if (s->o[k].kind == O_SPAWN) { /* those who suspend themselves are mostly resumed */
		spec *c = &P[s->o[k].a]; int j;
		for (j = 0; j < c->nops; j++) if (c->o[j].kind == O_SUSPEND && pbt_chance(4, 5)) { put(s, O_YIELD, 0, 0); put(s, O_RESUME, s->o[k].a, 0); }
	}
	return i;
}
static void show(int i) {
	spec *s = &P[i]; int k;
	static const char *hn[] = { "task", "ex", "launched", "generator" };
	pbt_note("%s%d(%d args){ ", hn[s->how], i, s->nargs);
	for (k = 0; k < s->nops; k++) {
		op *o = &s->o[k];
		switch (o->kind) {
		case O_SPAWN: case O_EX: case O_LAUNCH: pbt_note("%s ", oname[o->kind]); show(o->a); break;
		case O_GEN: pbt_note("gen%s ", o->b ? " (read past the end)" : ""); show(o->a); break;
		case O_GROUP: { int c; pbt_note("group[%s ", o->b == 1 ? "yield before waiting" : o->b == 2 ? "yield between" : ""); for (c = o->a; c; c = P[c].pc) show(c); pbt_note("] "); } break;
		case O_MANY: pbt_note("spawn %d small tasks; ", o->b); break;
		case O_DELAY: pbt_note("delay(%d); ", o->a); break;
		case O_RESUME: pbt_note("resume task %d; ", o->a); break;
		case O_AWAIT: case O_CANCEL: pbt_note("%s #%d; ", oname[o->kind], o->a); break;
		default: pbt_note("%s; ", oname[o->kind]);
		}
	}
	pbt_note("} ");
}

/* ----------------------------------------------------- expected FIFO order */
#define MAXL 20000
typedef struct { int s; short op, k; } ev;
enum { E_START = 100, E_DEFER, E_END };
static ev W[MAXL]; static int nw, ng;
static void w(int s, int o, int k) { if (nw < MAXL) W[nw++] = (ev){ s, (short)o, (short)k }; }
static const char *evs(const ev *e) {
	static char b[4][80]; static int r; char *p = b[r++ & 3];
	if (e->op == E_START) sprintf(p, "task %d starts", e->s); else if (e->op == E_DEFER) sprintf(p, "task %d runs its deferred %d", e->s, e->k);
	else if (e->op == E_END) sprintf(p, "task %d returns", e->s); else sprintf(p, "task %d after step %d (%s)", e->s, e->k, oname[e->op]);
	return p;
}
static void got(int s, int o, int k) {
	vc_active();
	if (!F_order) return;
	ev e = { s, (short)o, (short)k };
	if (ng >= nw) pbt_fail("after everything expected: %s", evs(&e));
	if (memcmp(&W[ng], &e, sizeof e)) pbt_fail("event %d: %s, expected: %s", ng, evs(&e), evs(&W[ng]));
	ng++;
}
/* a task may suspend itself only if its parent still has to resume it */
static int resumed_later(int t, const int *pc_of) {
	int p = P[t].parent, k; if (p < 0) return 0;
	for (k = (pc_of ? pc_of[p] : P[p].pc) + 1; k < P[p].nops; k++) if (P[p].o[k].kind == O_RESUME && P[p].o[k].a == t) return 1;
	return 0;
}
static int Q[MAXL * 2], qh, qt, mpc[MAXS], mstate[MAXS], msusp[MAXS];
static void model(const int *roots, int nr) {
	int i; qh = qt = 0; memset(mpc, 0, sizeof mpc); memset(mstate, 0, sizeof mstate); memset(msusp, 0, sizeof msusp);
	for (i = 0; i < nr; i++) Q[qt++] = roots[i];
	while (qh < qt && qt < MAXL * 2 - 200) {
		int t = Q[qh++]; spec *s = &P[t]; int stop = 0;
		if (!mstate[t]) { mstate[t] = 1; w(t, E_START, 0); }
		else { op *o = &s->o[mpc[t]]; w(t, o->kind, mpc[t]); mpc[t]++; }   /* comes back from a yielding step */
		while (!stop && mpc[t] < s->nops) {
			op *o = &s->o[mpc[t]];
			switch (o->kind) {
			case O_YIELD: case O_DEEP: Q[qt++] = t; stop = 1; break;
			case O_SUSPEND: if (resumed_later(t, mpc)) { msusp[t] = 1; stop = 1; } else { w(t, o->kind, mpc[t]); mpc[t]++; } break;
			case O_RESUME: if (msusp[o->a]) { msusp[o->a] = 0; Q[qt++] = o->a; Q[qt++] = t; stop = 1; } else { w(t, o->kind, mpc[t]); mpc[t]++; } break;
			case O_LAUNCH: Q[qt++] = o->a; Q[qt++] = t; stop = 1; break;
			case O_SPAWN: case O_EX: Q[qt++] = o->a; w(t, o->kind, mpc[t]); mpc[t]++; break;
			case O_MANY: for (i = 0; i < o->b; i++) Q[qt++] = o->a + i; w(t, o->kind, mpc[t]); mpc[t]++; break;
			default: w(t, o->kind, mpc[t]); mpc[t]++;
			}
		}
		if (!stop) {
			w(t, E_END, 0);
			int d = 0; for (i = 0; i < s->nops; i++) d += s->o[i].kind == O_DEFER;
			while (d-- > 0) w(t, E_DEFER, d);
		}
	}
}

/* --------------------------------------------------------------- running */
static uint64_t hsh(uint64_t a, uint64_t b) { uint64_t x = (a + 1) * 0x9E3779B97F4A7C15ull ^ (b + 7) * 0xC2B2AE3D27D4EB4Full; x ^= x >> 29; x *= 0xBF58476D1CE4E5B9ull; return x ^ x >> 32; }
static int sig[MAXS]; static char texts[MAXS][16];
static void *ret_of(int t) { switch (P[t].ret) { case 0: return NULL; case 1: return casting(t + 5); case 2: return &sig[t]; default: return texts[t]; } }
static void *emit_of(int t, int n, int v) { switch (v) { case 0: return casting(n + 1); case 1: return &sig[t]; case 2: return texts[t]; case 3: return casting(-1 - n); case 4: return NULL; default: return casting(hsh(t, n)); } }

static void expect_done(int t, const char *who) {
	if (!P[t].finished) pbt_fail("%s although task %d has not returned", who, t);
	if (P[t].ndef) pbt_fail("%s although %d deferred functions of task %d have not run", who, P[t].ndef, t);
}
static void result_is(int t, values_t v, const char *who) { if (v.object != ret_of(t)) pbt_fail("%s of task %d gives %p, it returned %p", who, t, v.object, ret_of(t)); }
static void deferred_fn(void *p) {
	int v = (int)(intptr_t)p, t = v / 64, d = v % 64;
	if (!P[t].finished) pbt_fail("deferred function %d of task %d runs before the task returned", d, t);
	if (d != P[t].ndef - 1) pbt_fail("task %d: deferred function %d runs, expected %d", t, d, P[t].ndef - 1);
	P[t].ndef--; got(t, E_DEFER, d);
}
static void deferred_val(intptr_t v) { deferred_fn((void *)v); }

static int deep(int n, int t) {
	volatile unsigned char pad[300]; int i, s = 0;
	for (i = 0; i < (int)sizeof pad; i++) pad[i] = (unsigned char)(t + n + i);
	if (n > 0) s = deep(n - 1, t); else yield();
	for (i = 0; i < (int)sizeof pad; i++) if (pad[i] != (unsigned char)(t + n + i)) pbt_fail("task %d: its stack changed while another task ran (depth %d)", t, n);
	return s + 1;
}
static void *body(param_t a);
static void body_v(param_t a) { body(a); }
static uint32_t last_id[MAXS];
static uint32_t mk(int c) {
	spec *s = &P[c]; uint32_t r = 0;
	void *v[7]; int i; for (i = 0; i < 7; i++) v[i] = casting(hsh(c, i));
	s->created = 1; s->pc = 0;
#define A1 casting(c)
#define DO(call) do { switch (s->nargs) { \
	case 0: call(1, A1); break; case 1: call(2, A1, v[1]); break; case 2: call(3, A1, v[1], v[2]); break; \
	case 3: call(4, A1, v[1], v[2], v[3]); break; case 4: call(5, A1, v[1], v[2], v[3], v[4]); break; \
	case 5: call(6, A1, v[1], v[2], v[3], v[4], v[5]); break; default: call(7, A1, v[1], v[2], v[3], v[4], v[5], v[6]); } } while (0)
#define C_TASK(...) r = async_task(body, __VA_ARGS__)
#define C_EX(...) async_ex((size_t)s->stack, body_v, __VA_ARGS__)
#define C_LAUNCH(...) launch(body_v, __VA_ARGS__)
#define C_GEN(...) s->gen = generator(body, __VA_ARGS__)
	switch (s->how) {
	case HOW_TASK: DO(C_TASK); if ((int)r < 0) pbt_fail("async_task fails"); s->rid = r; for (i = 0; i < np; i++) if (i != c && P[i].created && P[i].how == HOW_TASK && P[i].rid == r) pbt_fail("tasks %d and %d share result id %u", i, c, r); break;
	case HOW_EX: DO(C_EX); break;
	case HOW_LAUNCH: DO(C_LAUNCH); break;
	default: DO(C_GEN); if (!s->gen) pbt_fail("generator() fails");
	}
	return r;
}
static int kid(int t, int n) { /* n-th own child or elder sibling that has a result and was already created */
	int i, c = 0, cand[64];
	for (i = 1; i < np && c < 64; i++) if (P[i].how == HOW_TASK && P[i].created && (P[i].parent == t || (t > 0 && i < t && P[i].parent == P[t].parent))) cand[c++] = i;
	return c ? cand[n % c] : -1;
}
static int sleepers, max_sleepers;
static int64_t next_deadline(void) { int i; int64_t d = -1; for (i = 0; i < np; i++) if (P[i].deadline && (d < 0 || P[i].deadline < d)) d = P[i].deadline; return d; }
static void do_delay(int t, int ms) {
	spec *s = &P[t]; int64_t t0 = vc_ns; int i;
	s->deadline = t0 + (int64_t)ms * 1000000; sleepers++; if (sleepers > max_sleepers) max_sleepers = sleepers;
	uint32_t d = delay((uint32_t)ms);
	int64_t dl = s->deadline; s->deadline = 0; sleepers--;
	if (vc_ns < dl) pbt_fail("task %d: delay(%d) is over %lld us early", t, ms, (long long)(dl - vc_ns) / 1000);
	if (d < (uint32_t)ms || (int64_t)d > (vc_ns - t0) / 1000000) pbt_fail("task %d: delay(%d) returned %u after %lld ms", t, ms, d, (long long)(vc_ns - t0) / 1000000);
	for (i = 0; i < np; i++) {

		if (P[i].deadline && P[i].deadline < dl) pbt_fail("task %d, due %lld us after task %d, wakes first", t, (long long)(dl - P[i].deadline) / 1000, i);
	}
	if (vc_ns - dl > (int64_t)(4 * np + 40) * vc_step + 400000) pbt_fail("task %d: delay(%d) ends %lld us late", t, ms, (long long)(vc_ns - dl) / 1000);
}
static void check_group(int t, array_t r, const int *c, int n) {
	int i, j, want = 0, cnt = r ? (int)$size(r) : 0;
	for (i = 0; i < n; i++) { char who[40]; sprintf(who, "tasks_wait of task %d returns", t); expect_done(c[i], who); if (P[c[i]].how == HOW_TASK && ret_of(c[i])) want++; }
	if (cnt != want) pbt_fail("task %d: tasks_wait returned %d result ids, %d of its tasks returned a value", t, cnt, want);
	for (i = 0; i < n; i++) if (P[c[i]].how == HOW_TASK) {
		int seen = 0; for (j = 0; j < cnt; j++) seen += r[j].u_int == P[c[i]].rid;
		if (seen != (ret_of(c[i]) != NULL)) pbt_fail("task %d: the result id of task %d is %d times in the group's results", t, c[i], seen);
		result_is(c[i], results_for(P[c[i]].rid), "results_for"); if (!task_is_ready(P[c[i]].rid)) pbt_fail("task %d is not ready after tasks_wait", c[i]);
	}
}
static void *body(param_t a) {
	int t = a[0].integer, i; spec *s = &P[t];
	volatile uint64_t canary[8]; int *data = NULL;
	if (t < 0 || t >= np) pbt_fail("a task got %d as its first argument", t);
	if (s->started++) pbt_fail("task %d runs twice", t);
	if (!s->created) pbt_fail("task %d runs but was never created", t);
	for (i = 1; i <= s->nargs; i++) if (a[i].object != casting(hsh(t, i))) pbt_fail("task %d: argument %d is %p", t, i, a[i].object);
	if ((int)$size(a) != s->nargs + 1) pbt_fail("task %d got %d arguments instead of %d", t, (int)$size(a), s->nargs + 1);
	for (i = 0; i < 8; i++) canary[i] = hsh(t, 100 + i);
	got(t, E_START, 0);
	uint32_t id = task_id(); s->id_seen = id; tasks_t *me = s->me = active_task();
	if (s->how == HOW_TASK && s->parent >= 0 && id != s->rid) pbt_fail("task %d: task_id() is %u, async_task returned %u", t, id, s->rid);
	for (; s->pc < s->nops; s->pc++) {
		op *o = &s->o[s->pc];
		switch (o->kind) {
		case O_YIELD: yield(); break;
		case O_SPAWN: case O_EX: case O_LAUNCH: mk(o->a); break;
		case O_MANY: for (i = 0; i < o->b; i++) mk(o->a + i); break;
		case O_DEFER: { int d = s->ndef++; if (o->a) defer(deferred_fn, casting(t * 64 + d)); else deferring(deferred_val, t * 64 + d); } break;
		case O_DEEP: deep(s->how == HOW_TASK ? o->a * 2 : 2, t); break;
		case O_DATA: s->data = data = &sig[t]; task_data_set(active_task(), data); break;
		case O_SUSPEND: if (resumed_later(t, NULL)) { s->suspended = 1; suspend(); if (s->suspended) pbt_fail("task %d goes on after suspend() without being resumed", t); pbt_label("suspended"); } break;
		case O_RESUME: if (P[o->a].suspended) { P[o->a].suspended = 0; resume(P[o->a].me); } break;
		case O_CANCEL: { int c = kid(t, o->a); if (c < 0) break; task_set_canceled(P[c].rid); P[c].canceled = 1; } break;
		case O_LOOK: for (i = 0; i < np; i++) if (P[i].created && i != t) {
			if (P[i].how == HOW_TASK && task_is_ready(P[i].rid) != !!(P[i].finished && !P[i].ndef)) pbt_fail("task_is_ready() of task %d, which is %sfinished, is wrong", i, P[i].finished ? "" : "not ");
			if (P[i].started && !P[i].finished && task_is_terminated(P[i].me)) pbt_fail("task_is_terminated() of task %d, which runs, is true", i);
			if (P[i].started && !P[i].finished && task_data_get(P[i].me) != P[i].data) pbt_fail("task_data_get() of task %d is not its user data", i);
		} break;
		case O_TRY: { volatile int caught_ = 0;
			try { if (o->a) throw(range_error); caught_ |= 1; } catch_any { caught_ |= 2; } finally { caught_ |= 4; }
			if (caught_ != (o->a ? 6 : 5)) pbt_fail("task %d: try block went wrong (%d)", t, caught_); } break;
		case O_AWAIT: { int c = kid(t, o->a); if (c < 0) break; values_t v = await_for(P[c].rid); char who[50]; sprintf(who, "await_for of task %d returns", t); expect_done(c, who); result_is(c, v, "await_for"); } break;
		case O_DELAY: do_delay(t, o->a); break;
		case O_GROUP: { int c[8], n = 0, q; for (q = o->a; q; n++) { c[n] = q; q = P[q].pc; }
			task_group_t *g = task_group(); if (!is_taskgroup(g)) pbt_fail("task_group() gives no group");
			for (q = 0; q < n; q++) { mk(c[q]); if (o->b == 2) yield(); }
			if ((int)tasks_count(g) != n) pbt_fail("task %d: its group counts %d of %d tasks", t, (int)tasks_count(g), n);
			if (o->b == 1) yield();
			array_t r = tasks_wait(g); check_group(t, r, c, n); } break;
		case O_GEN: mk(o->a); break;
		case O_GENREAD: { int g = o->a, n = o->b; spec *x = &P[g];
			values_t v = yielded(x->gen);
			if (n < x->nemit) {
				int q, c = -1; for (q = 0; q < x->nops; q++) if (x->o[q].kind == O_EMIT && ++c == n) break;
				if (v.object != emit_of(g, n, x->o[q].a)) pbt_fail("generator %d: value %d is %p, it yielded %p", g, n, v.object, emit_of(g, n, x->o[q].a));
				x->taken++;
			} else {
				if (v.object) pbt_fail("generator %d: %p is read past its end", g, v.object);
				expect_done(g, "the end of a generator is seen");
				result_is(g, results_for(gen_id()), "results_for(gen_id())");
			} } break;
		case O_EMIT: { int q, c = 0; for (q = 0; q < s->pc; q++) c += s->o[q].kind == O_EMIT; vc_active(); yielding(emit_of(t, c, o->a)); s->emitted++;
			if (s->taken < s->emitted - 1) pbt_fail("generator %d: yielding went on although value %d was not taken", t, s->taken); } break;
		}
		got(t, o->kind, s->pc);
		for (i = 0; i < 8; i++) if (canary[i] != hsh(t, 100 + i)) pbt_fail("task %d: a local variable changed while another task ran", t);
		if (task_id() != id || active_task() != me) pbt_fail("task %d is not the active task any more", t);
		if (task_is_canceled() != (s->how == HOW_TASK && s->canceled)) pbt_fail("task_is_canceled() in task %d (%s) is %d", t, s->how == HOW_TASK ? "with a result" : s->how == HOW_GEN ? "a generator" : "without a result", task_is_canceled());
		if (data && task_data() != data) pbt_fail("task %d: its user data changed", t);
		for (i = 1; i <= s->nargs; i++) if (a[i].object != casting(hsh(t, i))) pbt_fail("task %d: argument %d changed", t, i);
	}
	task_data_set(active_task(), NULL); s->data = NULL;
	s->finished = 1;
	got(t, E_END, 0);
	return ret_of(t);
}


/* spread the reads of every generator over the rest of its creator's program */
static void place_reads(void) {
	int i, k, j;
	for (i = 0; i < np; i++) {
		spec *s = &P[i]; static op out[400]; int n = 0, pend[20], left[20], q = 0;
		if (s->how == HOW_GEN) continue;
		for (k = 0; k < s->nops; k++) {
			out[n++] = s->o[k];
			if (s->o[k].kind == O_GEN && q < 20) { pend[q] = k; left[q] = 0; q++; }
			while (q && pbt_chance(1, 2)) { j = (int)pbt_below((uint64_t)q); int g = s->o[pend[j]].a; if (left[j] < P[g].nemit && n < 150) out[n++] = (op){ O_GENREAD, g, left[j]++ }; else break; }
		}
		while (q > 0) {
			j = (int)pbt_below((uint64_t)q); int g = s->o[pend[j]].a;
			if (left[j] < P[g].nemit + s->o[pend[j]].b) out[n++] = (op){ O_GENREAD, g, left[j]++ };
			else { pend[j] = pend[q - 1]; left[j] = left[q - 1]; q--; }
		}
		if (n > MAXOPS) { fprintf(stderr, "harness: too many reads\n"); abort(); }
		memcpy(s->o, out, sizeof(op) * (size_t)n); s->nops = n;
	}
}

static void run_program(int nroots) {
	int i, roots[3], ngen = 0, ngrp = 0, nsl = 0, nsp = 0, nyield = 0, naw = 0, k;
	char t0[16];
	np = 0; n_ops_total = 0; nw = ng = 0; sleepers = max_sleepers = 0;
	int depth = 1 + (int)pbt_below(3);
	for (i = 0; i < nroots; i++) roots[i] = draw(-1, HOW_TASK, depth);
	if (F_gen) place_reads();
	int as_main = pbt_chance(1, 2);
	for (i = 0; i < nroots; i++) show(roots[i]);
	if (as_main) pbt_note(" (first task is the main function)");
	for (i = 0; i < np; i++) { sprintf(texts[i], "text%d", i);
		for (k = 0; k < P[i].nops; k++) { int o = P[i].o[k].kind; ngen += o == O_GENREAD; ngrp += o == O_GROUP; nsl += o == O_DELAY; nsp += o == O_SPAWN || o == O_EX || o == O_LAUNCH || o == O_MANY; nyield += o == O_YIELD || o == O_DEEP; naw += o == O_AWAIT; } }
	(void)t0;
	if (np > 64) pbt_label("more than 64 tasks");
	if (F_order && nsp && nyield) pbt_nontrivial();
	if (F_await && naw && np > 2) pbt_nontrivial();
	if (F_group && !F_await && ngrp) pbt_nontrivial();
	if (F_gen && ngen > 1) pbt_nontrivial();
	if (F_delay && !F_await && !F_group && !F_gen && nsl > 1) pbt_nontrivial();
	if (ngrp) pbt_label("group"); if (nsl) pbt_label("delay"); if (naw) pbt_label("await"); if (ngen) pbt_label("generator");
	if (as_main) pbt_label("main"); if (nroots > 1) pbt_label("several roots");
	if (F_order) model(roots, nroots);

	events_init(64);
	events_t *loop = events_create(60);
	vc_start(); vc_next = next_deadline;
	if (as_main) events_set_main((main_cb)body);
	for (i = 0; i < nroots; i++) mk(roots[i]);
	async_run(loop);
	for (i = 0; i < np; i++) if (P[i].created) {
		if (!P[i].started) pbt_fail("the run ended, but task %d never started", i);
		expect_done(i, "the run ended");
		if (P[i].how == HOW_TASK) { result_is(i, results_for(P[i].rid), "results_for after the run"); if (!task_is_ready(P[i].rid)) pbt_fail("task %d is not ready after the run", i); }
	}
	if (F_order && ng != nw) pbt_fail("the run ended before: %s", evs(&W[ng]));
	if (max_sleepers > 1) pbt_label("several asleep");
	pbt_done();
}
static void u_order(void) { F_order = 1; run_program(1 + (int)pbt_below(3)); }
static void u_await(void) { F_await = 1; F_delay = pbt_chance(1, 3); F_group = pbt_chance(1, 3); run_program(1 + (int)pbt_below(3)); }
static void u_group(void) { F_group = 1; F_delay = pbt_chance(1, 2); run_program(1 + (int)pbt_below(2)); }
static void u_gen(void) { F_gen = 1; F_delay = pbt_chance(1, 3); run_program(1 + (int)pbt_below(2)); }
static void u_sleep(void) { F_delay = 1; run_program(1 + (int)pbt_below(3)); }

const pbt_unit pbt_units[] = {
	{ "order", u_order, 1, 20000, 0, "at least one task creation and one yield" },
	{ "await", u_await, 1, 20000, 0, "at least one await among three tasks" },
	{ "group", u_group, 1, 20000, 0, "at least one task group" },
	{ "gen", u_gen, 1, 20000, 0, "at least two reads of a generator" },
	{ "sleep", u_sleep, 1, 20000, 0, "at least two delays" },
	{ 0 }
};
