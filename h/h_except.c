/* Exceptions: random nested try/catch/finally programs against a small interpreter of
 * the documented rules. Both sides write a log; the logs must be equal. */
#include "events_internal.h"
#include "pbt.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <sys/wait.h>
#include "posix_names.h"

/* ------------------------------------------------------------------ programs */
enum { K_RANGE, K_LOGIC, K_OOM, K_TYPE, K_ILL, K_SEGV, K_INT, K_FPE, K_TERM, K_PANIC, KINDS };
static const char *kname[KINDS] = { "range_error", "logic_error", "out_of_memory", "invalid_type",
	"sig_ill", "sig_segv", "sig_int", "sig_fpe", "sig_term", "_panic" };
static const int ksig[KINDS] = { 0, 0, 0, 0, SIGILL, SIGSEGV, SIGINT, SIGFPE, SIGTERM, 0 };

enum { N_LOG, N_THROW, N_TRY, N_CALL, N_PROT, N_RETHROW, N_SCOPE, N_LOOP, N_YIELD };
enum { H_NONE, H_ONE, H_TWO, H_ONE_ANY, H_ANY, H_IF, H_IFMSG };   /* handler shapes */
#define MAXN 400
typedef struct { int kind, k, id, shape, e1, e2, fin, first, next, h1, h2, f, mem; } node;
#define MAXL 6000
typedef struct { char op; int id; int k; } ev;
typedef struct { int id[400], n; } prots;
typedef struct {
	node N[MAXN]; int nn; ev want[MAXL]; volatile int nw, ng; int overflow; prots P[200]; int np;
	int throws, released, maxdepth, depth_now; char blocks[MAXN]; void *heapblk[MAXN]; int head, outer_kind, esc, rc; char msg[400];
} prog;
static prog main_prog; static __thread prog *cur_prog;
static int in_tasks;
static __attribute__((noinline)) prog *curp(void) { return cur_prog ? cur_prog : &main_prog; }
#define N (curp()->N)
#define nn (curp()->nn)
#define want (curp()->want)
#define nw (curp()->nw)
#define ng (curp()->ng)
#define overflow (curp()->overflow)
#define P (curp()->P)
#define np (curp()->np)
#define throws (curp()->throws)
#define released (curp()->released)
#define maxdepth (curp()->maxdepth)
#define depth_now (curp()->depth_now)
#define blocks (curp()->blocks)
#define heapblk (curp()->heapblk)

static int scoped;   /* 0 no thread scope, 1 it exists, 2 created along the way */
static int gen_seq(int depth, int inhandler, int *budget);
static int gen_node(int depth, int inhandler, int *budget) {
	if (nn >= MAXN - 1) return -1;
	int i = nn++; node *x = &N[i];
	memset(x, 0, sizeof *x); x->first = x->next = x->h1 = x->h2 = x->f = -1; x->id = i;
	int y = in_tasks ? 8 : 0;
	const int w0[] = { 5, 4, 7, 2, 3, 0, 1, 1, y }, w1[] = { 5, 4, 5, 2, 3, 4, 1, 1, y }, wl[] = { 5, 4, 0, 0, 0, 0, 1, 0, y };
	x->kind = pbt_weighted(depth <= 0 || *budget <= 0 ? wl : inhandler ? w1 : w0, in_tasks ? 9 : 8);
	(*budget)--;
	if (x->kind == N_SCOPE && scoped != 2) x->kind = N_LOG;
	switch (x->kind) {
	case N_THROW: x->k = (int)pbt_below(KINDS); break;
	case N_TRY:
		x->shape = (int)pbt_below(scoped ? 7 : 6); x->e1 = (int)pbt_below(x->shape == H_IF ? K_PANIC : KINDS); x->e2 = (int)pbt_below(KINDS);
		x->fin = x->shape == H_NONE ? 1 : pbt_chance(1, 2);
		x->first = gen_seq(depth - 1, 0, budget);
		if (x->shape != H_NONE) x->h1 = gen_seq(depth - 1, 1, budget);
		if (x->shape == H_TWO || x->shape == H_ONE_ANY) x->h2 = gen_seq(depth - 1, 1, budget);
		if (x->fin) x->f = gen_seq(depth - 1, 0, budget);
		break;
	case N_PROT: x->mem = (int)pbt_below(3); /* fall through */
	case N_CALL: case N_LOOP: x->first = gen_seq(depth - 1, 0, budget); x->k = 1 + (int)pbt_below(3); break;
	}
	return i;
}
static int gen_seq(int depth, int inhandler, int *budget) {
	int n = (int)pbt_size(0, 4), head = -1, last = -1;
	while (n-- > 0) {
		int i = gen_node(depth, inhandler, budget);
		if (i < 0) break;
		if (last < 0) head = i; else N[last].next = i;
		last = i;
	}
	return head;
}
static void show(int i, int ind) {
	for (; i >= 0; i = N[i].next) {
		node *x = &N[i];
		switch (x->kind) {
		case N_LOG: pbt_note("log%d; ", i); break;
		case N_THROW: pbt_note("throw(%s); ", kname[x->k]); break;
		case N_RETHROW: pbt_note("rethrow; "); break;
		case N_SCOPE: pbt_note("scope_init(); "); break;
		case N_YIELD: pbt_note("%s; ", N[i].id & 1 ? "yield" : "sleep"); break;
		case N_CALL: pbt_note("call{ "); show(x->first, ind); pbt_note("} "); break;
		case N_LOOP: pbt_note("repeat %d{ ", x->k); show(x->first, ind); pbt_note("} "); break;
		case N_PROT: pbt_note("protect%d(%s){ ", i, x->mem == 0 ? "heap" : x->mem == 1 ? "static" : "NULL"); show(x->first, ind); pbt_note("} "); break;
		case N_TRY:
			pbt_note("try{ "); show(x->first, ind); pbt_note("} ");
			if (x->shape == H_ONE || x->shape == H_TWO || x->shape == H_ONE_ANY) { pbt_note("catch(%s){ ", kname[x->e1]); show(x->h1, ind); pbt_note("} "); }
			if (x->shape == H_IF) { pbt_note("catch_if caught(%s){ ", kname[x->e1]); show(x->h1, ind); pbt_note("} "); }
			if (x->shape == H_IFMSG) { pbt_note("catch_if caught(try_message){ "); show(x->h1, ind); pbt_note("} "); }
			if (x->shape == H_ANY) { pbt_note("catch_any{ "); show(x->h1, ind); pbt_note("} "); }
			if (x->shape == H_TWO) { pbt_note("catch(%s){ ", kname[x->e2]); show(x->h2, ind); pbt_note("} "); }
			if (x->shape == H_ONE_ANY) { pbt_note("catch_any{ "); show(x->h2, ind); pbt_note("} "); }
			if (x->fin) { pbt_note("finally{ "); show(x->f, ind); pbt_note("} "); }
		}
	}
}

/* ------------------------------------------------------------------ logs */
static void W(char op, int id, int k) { if (nw < MAXL) want[nw] = (ev){ op, id, k }, nw++; else overflow = 1; }
static const char *evs(const ev *e) {
	static __thread char b[4][80]; static __thread int r; char *p = b[r++ & 3];
	const char *n = e->k >= 0 && e->k < KINDS ? kname[e->k] : e->k == -1 ? "" : "other";
	switch (e->op) {
	case 'l': sprintf(p, "log%d", e->id); break; case 'p': sprintf(p, "release protected %d", e->id); break;
	case 'h': sprintf(p, "handler %d entered with %s", e->id, n); break; case 'i': sprintf(p, "catch_if of %d entered with %s", e->id, n); break;
	case 'f': sprintf(p, "finally of %d", e->id); break; case 'e': sprintf(p, "leave try %d", e->id); break;
	case 'X': sprintf(p, "outermost handler with %s", n); break; case 'Z': sprintf(p, "program ends"); break;
	default: sprintf(p, "%c %d %s", e->op, e->id, n);
	}
	return p;
}
static void G(char op, int id, int k) {
	ev e = { op, id, k };
	if (ng >= nw) pbt_fail("after the expected log: %s", evs(&e));
	if (want[ng].op != op || want[ng].id != id || want[ng].k != k) pbt_fail("step %d: %s, expected: %s", ng, evs(&e), evs(&want[ng]));
	ng++;
}
static int kidx(const char *n) { if (!n) return -2; for (int i = 0; i < KINDS; i++) if (!strcmp(n, kname[i])) return i; return -2; }

/* ------------------------------------------------------------------ model */
/* returns -1 normally, otherwise the pending exception kind */
static int m_seq(int i, int cur);
static void m_unwind(void) { prots *p = &P[np - 1]; while (p->n > 0) { int id = p->id[--p->n]; if (N[id].mem != 2) { W('p', id, -1); released++; } } }
static int m_throw(int k) { throws++; m_unwind(); return k; }
static int m_try(int i) {
	node *x = &N[i]; int e, pend, handled = 0;
	if (++depth_now > maxdepth) maxdepth = depth_now;
	P[np++].n = 0;
	e = m_seq(x->first, -1); pend = e;
	if (e >= 0) {
		int h = -2;
		switch (x->shape) {
		case H_ONE: if (e == x->e1) h = x->h1; break;
		case H_TWO: if (e == x->e1) h = x->h1; else if (e == x->e2) h = x->h2; break;
		case H_ONE_ANY: h = e == x->e1 ? x->h1 : x->h2; break;
		case H_ANY: h = x->h1; break;
		case H_IFMSG: W('i', i, e); h = x->h1; break;
		case H_IF: W('i', i, e); if (e == x->e1) h = x->h1; break;
		}
		if (h != -2) { W('h', i, e); handled = 1; pend = m_seq(h, e); }
	}
	np--; depth_now--;
	if (x->fin) {
		W('f', i, -1);
		int f = m_seq(x->f, -1);
		if (f >= 0) return f;
	}
	if (pend >= 0) { m_unwind(); return pend; }
	W('e', i, -1);
	(void)handled;
	return -1;
}
static int m_seq(int i, int cur) {
	for (; i >= 0; i = N[i].next) {
		node *x = &N[i]; int e = -1, r;
		if (overflow) return -1;
		switch (x->kind) {
		case N_LOG: W('l', i, -1); break;
		case N_THROW: return m_throw(x->k);
		case N_RETHROW: if (cur >= 0) return m_throw(cur); break;
		case N_TRY: e = m_try(i); break;
		case N_CALL: e = m_seq(x->first, -1); break;
		case N_LOOP: for (r = 0; r < x->k && e < 0; r++) e = m_seq(x->first, -1); break;
		case N_PROT: P[np - 1].id[P[np - 1].n++] = i; e = m_seq(x->first, -1); if (e < 0) P[np - 1].n--; break;
		}
		if (e >= 0) return e;
	}
	return -1;
}

/* ------------------------------------------------------------------ the real thing */
static void release(void *p) {
	for (int i = 0; i < nn; i++) if (p == heapblk[i] || p == &blocks[i]) { G('p', i, -1); return; }
	pbt_fail("a protected pointer is released with an unknown value");
}
static __attribute__((noinline)) void run_seq(int i, ex_context_t *cur);
static __thread int throw_line; static __thread const char *throw_func;
static volatile int zero;
static __attribute__((noinline)) void do_throw(int k, int real) {
	throw_func = __FUNCTION__;
	if (real && k == K_SEGV) *(volatile int *)(intptr_t)zero = 1;
	if (real && k == K_FPE) zero = 1 / zero;
	if (ksig[k]) { throw_line = 0; throw_func = NULL; raise(ksig[k]); pbt_fail("raise(%d) returned", ksig[k]); }
	switch (k) {
	case K_RANGE: throw_line = __LINE__; throw(range_error);
	case K_LOGIC: throw_line = __LINE__; throw(logic_error);
	case K_OOM: throw_line = __LINE__; throw(out_of_memory);
	case K_TYPE: throw_line = __LINE__; throw(invalid_type);
	default: throw_line = __LINE__; panic("a message");
	}
	pbt_fail("throw returned");
}
static __attribute__((noinline)) void run_prot(int i) {
	void *p = N[i].mem == 0 ? (heapblk[i] ? heapblk[i] : (heapblk[i] = malloc(8))) : N[i].mem == 1 ? (void *)&blocks[i] : NULL;
	protected(p, release);
	run_seq(N[i].first, NULL);
	unprotected(p);
}
#define ENTER(x) do { \
	const char *_n = err.name; int _k = kidx(_n); \
	G('h', i, _k); \
	if (_k >= 0) { \
		pbt_check(err.line == ex_err.line, "err.line differs from the context's"); \
	} } while (0)
#define BODY run_seq(N[i].first, NULL);
#define H1 { ENTER(0); run_seq(N[i].h1, &ex_err); }
#define H2 { ENTER(0); run_seq(N[i].h2, &ex_err); }
#define F1 { G('f', i, -1); run_seq(N[i].f, NULL); }
#define KX(X) X(0, range_error) X(1, logic_error) X(2, out_of_memory) X(3, invalid_type) X(4, sig_ill) X(5, sig_segv) X(6, sig_int) X(7, sig_fpe) X(8, sig_term) X(9, _panic)
#define ONE(n, E) \
	static void one_##n(int i) { try { BODY } catch (E) H1 } \
	static void onef_##n(int i) { try { BODY } catch (E) H1 finally F1 } \
	static void any_##n(int i) { try { BODY } catch (E) H1 catch_any H2 } \
	static void anyf_##n(int i) { try { BODY } catch (E) H1 catch_any H2 finally F1 } \
	static void if_##n(int i) { try { BODY } catch_if { G('i', i, kidx(err.name)); if (caught(E)) H1 } } \
	static void iff_##n(int i) { try { BODY } catch_if { G('i', i, kidx(err.name)); if (caught(E)) H1 } finally F1 }
KX(ONE)
/* two handlers: the pair is chosen from a table of adjacent kinds to keep the code small */
#define TWO(n, E) \
	static void two_##n(int i) { try { BODY } catch (E) H1 else if (try_catching((char *)kname[N[i].e2], &err, &ex_err)) H2 } \
	static void twof_##n(int i) { try { BODY } catch (E) H1 else if (try_catching((char *)kname[N[i].e2], &err, &ex_err)) H2 finally F1 }
KX(TWO)
static void catchany(int i) { try { BODY } catch_any H1 }
static void catchanyf(int i) { try { BODY } catch_any H1 finally F1 }
static void msg_check(const char *name) {
	const char *m = try_message(), *w = name && !strcmp(name, "_panic") ? "a message" : name;
	pbt_check(m && w && !strcmp(m, w), "try_message is \"%.60s\", expected \"%.60s\"", m ? m : "(null)", w ? w : "(null)");
}
static void ifmsg(int i) { try { BODY } catch_if { G('i', i, kidx(err.name)); msg_check(err.name); if (try_caught(try_message())) H1 } }
static void ifmsgf(int i) { try { BODY } catch_if { G('i', i, kidx(err.name)); msg_check(err.name); if (try_caught(try_message())) H1 } finally F1 }
static void finonly(int i) { try { BODY } finally F1 }
#define TAB(name) static void (*const t_##name[])(int) = { name##_0, name##_1, name##_2, name##_3, name##_4, name##_5, name##_6, name##_7, name##_8, name##_9 };
TAB(one) TAB(onef) TAB(any) TAB(anyf) TAB(if) TAB(iff) TAB(two) TAB(twof)

static __attribute__((noinline)) void run_try(int i) {
	node *x = &N[i];
	switch (x->shape) {
	case H_NONE: finonly(i); break;
	case H_ONE: (x->fin ? t_onef : t_one)[x->e1](i); break;
	case H_TWO: (x->fin ? t_twof : t_two)[x->e1](i); break;
	case H_ONE_ANY: (x->fin ? t_anyf : t_any)[x->e1](i); break;
	case H_ANY: (x->fin ? catchanyf : catchany)(i); break;
	case H_IFMSG: (x->fin ? ifmsgf : ifmsg)(i); break;
	case H_IF: (x->fin ? t_iff : t_if)[x->e1](i); break;
	}
	G('e', i, -1);
}
static void run_seq(int i, ex_context_t *cur) {
	for (; i >= 0; i = N[i].next) {
		node *x = &N[i]; int r;
		switch (x->kind) {
		case N_LOG: G('l', i, -1); break;
		case N_THROW: do_throw(x->k, i & 1); break;
		case N_RETHROW: if (cur) { try_rethrow(cur); pbt_fail("rethrow returned"); } break;
		case N_TRY: run_try(i); break;
		case N_CALL: { volatile char pad[64]; pad[0] = 1; run_seq(x->first, NULL); (void)pad; break; }
		case N_LOOP: for (r = 0; r < x->k; r++) run_seq(x->first, NULL); break;
		case N_PROT: run_prot(i); break;
		case N_SCOPE: scope_init(); break;
		case N_YIELD: { prog *me = cur_prog; if (i & 1) yield(); else delay(0); cur_prog = me; break; }
		}
	}
}

static void outer(int head, int outer_kind) {
	volatile int done = 0;
	if (outer_kind == 0) {
		try { run_seq(head, NULL); G('Z', -1, -1); done = 1; }
		catch_any { G('X', -1, kidx(err.name)); done = 1; }
	} else {
		try { run_seq(head, NULL); G('Z', -1, -1); done = 1; }
		catch_any { G('X', -1, kidx(err.name)); done = 1; }
		finally { done |= 2; }
		pbt_check(done == 3, "the outermost finally was skipped");
	}
	pbt_check(done & 1, "the program neither ended nor reached the outermost handler");
}

static void nested(void) {
	int budget = 60, round, rounds = 1 + (int)pbt_below(3);
	for (round = 0; round < rounds; round++) {
		nn = nw = ng = np = 0; overflow = throws = released = maxdepth = depth_now = 0;
		int head = gen_seq(4, 0, &budget), ok = (int)pbt_below(2);
		memset(heapblk, 0, sizeof heapblk);
		pbt_note("program: "); show(head, 0); pbt_note("\n");
		P[np++].n = 0; m_unwind();
		int e = m_seq(head, -1);
		if (overflow) { pbt_label("too long"); return; }
		if (e >= 0) W('X', -1, e); else W('Z', -1, -1);
		outer(head, ok);
		pbt_check(ng == nw, "the program stopped after %d of %d expected steps, next: %s", ng, nw, ng < nw ? evs(&want[ng]) : "");
		ex_context_t *c = ex_local();
		for (int i = 0; i < nn; i++) free(heapblk[i]);
		(void)c;
		if (throws && maxdepth >= 2) pbt_nontrivial();
		pbt_label(throws == 0 ? "no throw" : throws == 1 ? "one throw" : "several throws");
		if (released) pbt_label("protected memory released");
		if (e >= 0) pbt_label("escapes to the outermost handler");
		budget = 60;
	}
}

static void u_nested(void) { scoped = 0; nested(); }
static void u_nested_scope(void) { scoped = 1; ex_memory_t *s = scope_init(); s->err = NULL; s->_panic = NULL; nested(); }
static void u_nested_first(void) { scoped = 2; nested(); pbt_done(); }

/* every thread has its own exception context: programs run on several threads at once */
static pthread_barrier_t bar;
static void *thr(void *a) {
	cur_prog = a; int r;
	for (r = 0; r < 20; r++) {
		ng = 0; pthread_barrier_wait(&bar);
		outer(cur_prog->head, cur_prog->outer_kind);
		pbt_check(ng == nw, "a thread's program stopped after %d of %d expected steps, next: %s", ng, nw, ng < nw ? evs(&want[ng]) : "");
	}
	return NULL;
}
static void u_threads(void) {
	static prog pr[4]; pthread_t t[4]; int i, n = (int)pbt_int(2, 4), nt = 0;
	for (i = 0; i < n; i++) {
		int budget = 40; cur_prog = &pr[i];
		nn = nw = ng = np = 0; overflow = throws = released = maxdepth = depth_now = 0;
		memset(heapblk, 0, sizeof heapblk); scoped = 0;
		cur_prog->head = gen_seq(4, 0, &budget); cur_prog->outer_kind = (int)pbt_below(2);
		pbt_note("thread %d: ", i); show(cur_prog->head, 0); pbt_note("\n");
		P[np++].n = 0;
		int e = m_seq(cur_prog->head, -1);
		if (overflow) { cur_prog = NULL; return; }
		if (e >= 0) W('X', -1, e); else W('Z', -1, -1);
		if (throws) nt++;
	}
	cur_prog = NULL;
	ex_signal_setup();
	pthread_barrier_init(&bar, NULL, (unsigned)n);
	for (i = 0; i < n; i++) if (pthread_create(&t[i], NULL, thr, &pr[i])) return;
	for (i = 0; i < n; i++) pthread_join(t[i], NULL);
	if (nt > 1) pbt_nontrivial();
	pbt_label("%d throwing threads", nt);
}

/* programs in several tasks that take turns inside their blocks */
static prog PT[4]; static int ended;
static void task_body(param_t a) {
	int i; prog *me = &PT[a[0].integer];
	cur_prog = me; outer(me->head, me->outer_kind); cur_prog = me;
	pbt_check(ng == nw, "a task's program stopped after %d of %d expected steps, next: %s", ng, nw, ng < nw ? evs(&want[ng]) : "");
	for (i = 0; i < nn; i++) free(heapblk[i]);
	ended++;
}
static void u_tasks(void) {
	int i, n = (int)pbt_int(2, 4), nt = 0; in_tasks = 1; scoped = 0;
	for (i = 0; i < n; i++) {
		int budget = 40; cur_prog = &PT[i];
		nn = nw = ng = np = 0; overflow = throws = released = maxdepth = depth_now = 0;
		memset(heapblk, 0, sizeof heapblk);
		cur_prog->head = gen_seq(4, 0, &budget); cur_prog->outer_kind = (int)pbt_below(2);
		pbt_note("task %d: ", i); show(cur_prog->head, 0); pbt_note("\n");
		P[np++].n = 0;
		int e = m_seq(cur_prog->head, -1);
		if (overflow) { cur_prog = NULL; return; }
		if (e >= 0) W('X', -1, e); else W('Z', -1, -1);
		if (throws && maxdepth) nt++;
	}
	cur_prog = NULL;
	events_init(64); events_t *l = events_create(60);
	for (i = 0; i < n; i++) async_ex(Kb(256), task_body, 1, casting(i));
	async_run(l);
	pbt_check(ended == n, "%d of %d tasks ended", ended, n);
	if (nt > 1) pbt_nontrivial();
	pbt_label("%d throwing tasks", nt); pbt_done();
}

/* ------------------------------------------------------------------ uncaught */
static int tpipe[2];
static void on_term(void) { char c = 't'; if (write(tpipe[1], &c, 1) != 1) {} }
static void on_exit_cb(void) { char c = 'x'; if (write(tpipe[1], &c, 1) != 1) {} }
static void rel_pipe(void *p) { if (write(tpipe[1], p, 1) != 1) {} }
static void u_uncaught(void) {
	int k, st, prot = (int)pbt_below(3), cb = pbt_chance(1, 2);
	do k = (int)pbt_below(KINDS); while (0);
	pbt_note("uncaught %s with %d protected pointers\n", kname[k], prot);
	if (pipe(tpipe)) return;
	pid_t p = fork();
	if (!p) {
		char a[2] = { 'a', 'b' }; void *pa = &a[0], *pb = &a[1];
		freopen("/dev/null", "w", stderr);
		ex_signal_setup();
		atexit(on_exit_cb);
		if (cb) exception_terminate_func = on_term;
		ex_ptr_t x1, x2;
		if (prot > 0) x1 = ex_protect_ptr(&x1, &pa, rel_pipe);
		if (prot > 1) x2 = ex_protect_ptr(&x2, &pb, rel_pipe);
		do_throw(k, prot & 1);
		_exit(77);
	}
	close(tpipe[1]);
	char b[64]; int n = 0, r; while ((r = (int)read(tpipe[0], b + n, sizeof b - 1 - n)) > 0) n += r;
	b[n] = 0; close(tpipe[0]);
	waitpid(p, &st, 0);
	char w[16] = ""; if (prot > 1) strcat(w, "b"); if (prot > 0) strcat(w, "a"); if (cb) strcat(w, "t"); if (!ksig[k]) strcat(w, "x");
	pbt_check(WIFEXITED(st) && WEXITSTATUS(st) == EXIT_FAILURE, "the process ended with status 0x%x instead of exit(%d)", st, EXIT_FAILURE);
	pbt_check(!strcmp(b, w), "observed actions \"%s\", expected \"%s\" (a,b: release, t: terminate callback, x: atexit)", b, w);
	pbt_nontrivial(); pbt_label("%s", kname[k]);
}

const pbt_unit pbt_units[] = {
	{ "nested", u_nested, 100, 60000, 0, "at least one exception inside two nested try blocks" },
	{ "nested_scope", u_nested_scope, 100, 60000, 0, "at least one exception inside two nested try blocks, in a thread with a scope" },
	{ "nested_first", u_nested_first, 1, 20000, 0, "at least one exception inside two nested try blocks, the scope is created along the way" },
	{ "threads", u_threads, 20, 60000, PBT_FLAKY, "at least two threads throw" },
	{ "tasks", u_tasks, 1, 60000, 0, "at least two tasks throw in a try block" },
	{ "uncaught", u_uncaught, 20, 60000, 0, "every case" },
	{ 0 }
};
