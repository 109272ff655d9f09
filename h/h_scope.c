/* guard/guarded, defer, fence, scope exit: deferred work runs last-in first-out, exactly
 * once, on every way out. Random programs against a small interpreter; logs must be equal. */
#include "events_internal.h"
#include "pbt.h"
#include <stdio.h>
#include <sched.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <sys/wait.h>
#include <sys/mman.h>
#include "posix_names.h"

enum { N_LOG, N_DEFER, N_FENCE, N_RECOVER, N_RECOVER_E, N_GUARD, N_CALL, N_THROW, N_BREAK, N_TRY, N_PROT, N_YIELD, N_KINDS };
enum { K_RANGE, K_LOGIC, K_OOM, K_ILL, K_PANIC, KINDS };
static const char *kname[KINDS] = { "range_error", "logic_error", "out_of_memory", "sig_ill", "a message" };
#define MAXN 300
typedef struct { int kind, k, first, next, h, direct; } node;
#define MAXL 4000
typedef struct { char op; int id; int k; } ev;
typedef struct { int d[200], n, stale; } scope;
/* one program; several run at once in the tasks and threads units */
typedef struct {
	node N[MAXN]; int nn; ev want[MAXL]; volatile int nw, ng; int overflow, guards, thrown, ran, recovered, fences;
	scope S[100]; int ns, relw[MAXN], relg[MAXN], ids[MAXN], head;
} prog;
static prog main_prog; static __thread prog *cur_prog;
static __attribute__((noinline)) prog *curp(void) { return cur_prog ? cur_prog : &main_prog; }
#define N (curp()->N)
#define nn (curp()->nn)
#define want (curp()->want)
#define nw (curp()->nw)
#define ng (curp()->ng)
#define overflow (curp()->overflow)
#define guards (curp()->guards)
#define thrown (curp()->thrown)
#define ran (curp()->ran)
#define recovered (curp()->recovered)
#define fences (curp()->fences)
#define S (curp()->S)
#define ns (curp()->ns)
#define relw (curp()->relw)
#define relg (curp()->relg)
#define ids (curp()->ids)
static int allow_fence, allow_try, allow_break, allow_yield;

static int gen_seq(int depth, int inguard, int direct, int *budget);
static int gen_node(int depth, int inguard, int direct, int *budget) {
	if (nn >= MAXN - 1) return -1;
	int i = nn++; node *x = &N[i]; memset(x, 0, sizeof *x); x->first = x->next = x->h = -1;
	int w[N_KINDS] = { 3, inguard ? 6 : 0, inguard && allow_fence ? 3 : 0, inguard ? 2 : 0, inguard ? 1 : 0, 4, 2, 3, direct && allow_break ? 1 : 0, allow_try ? 2 : 0, inguard && !allow_try ? 1 : 0, allow_yield ? 5 : 0 };
	if (depth <= 0 || *budget <= 0) w[N_GUARD] = w[N_CALL] = w[N_TRY] = w[N_PROT] = 0;
	x->kind = pbt_weighted(w, N_KINDS); (*budget)--;
	switch (x->kind) {
	case N_THROW: case N_RECOVER_E: x->k = (int)pbt_below(KINDS); break;
	case N_GUARD: x->first = gen_seq(depth - 1, 1, 1, budget); break;
	case N_CALL: case N_PROT: x->first = gen_seq(depth - 1, inguard, 0, budget); break;
	case N_TRY: x->first = gen_seq(depth - 1, inguard, 0, budget); x->h = gen_seq(depth - 1, inguard, 0, budget); break;
	}
	return i;
}
static int gen_seq(int depth, int inguard, int direct, int *budget) {
	int n = (int)pbt_size(0, 5), head = -1, last = -1;
	while (n-- > 0) { int i = gen_node(depth, inguard, direct, budget); if (i < 0) break; if (last < 0) head = i; else N[last].next = i; last = i; }
	return head;
}
static void show(int i) {
	for (; i >= 0; i = N[i].next) {
		node *x = &N[i];
		switch (x->kind) {
		case N_LOG: pbt_note("log%d; ", i); break;
		case N_DEFER: pbt_note("defer%d; ", i); break;
		case N_FENCE: pbt_note("fence%d; ", i); break;
		case N_RECOVER: pbt_note("defer%d(recover any); ", i); break;
		case N_RECOVER_E: pbt_note("defer%d(recover %s); ", i, kname[x->k]); break;
		case N_GUARD: pbt_note("guard{ "); show(x->first); pbt_note("} "); break;
		case N_PROT: pbt_note("protect%d{ ", i); show(x->first); pbt_note("} "); break;
		case N_CALL: pbt_note("call{ "); show(x->first); pbt_note("} "); break;
		case N_THROW: pbt_note("throw(%s); ", kname[x->k]); break;
		case N_YIELD: pbt_note("yield; "); break;
		case N_BREAK: pbt_note("break; "); break;
		case N_TRY: pbt_note("try{ "); show(x->first); pbt_note("} catch_any{ "); show(x->h); pbt_note("} "); break;
		}
	}
}

/* ------------------------------------------------------------------ logs */
static __thread const char *lastname;
static void W(char op, int id, int k) { if (nw < MAXL) want[nw] = (ev){ op, id, k }, nw++; else overflow = 1; }
static const char *evs(const ev *e) {
	static __thread char b[4][100]; static __thread int r; char *p = b[r++ & 3]; const char *n = e->k >= 0 && e->k < KINDS ? kname[e->k] : e->k == -1 ? "no error" : lastname;
	switch (e->op) {
	case 'l': sprintf(p, "log%d", e->id); break; case 'd': sprintf(p, "deferred %d runs", e->id); break;
	case 'r': sprintf(p, "deferred %d runs, recovering from %s", e->id, n); break;
	case 'g': sprintf(p, "execution continues after guard %d", e->id); break;
	case 'c': sprintf(p, "catch_any of %d with %s", e->id, n); break; case 't': sprintf(p, "execution continues after try %d", e->id); break;
	case 'X': sprintf(p, "outermost handler with %s", n); break; default: sprintf(p, "program ends");
	}
	return p;
}
static void G(char op, int id, int k) {
	ev e = { op, id, k };
	if (ng >= nw) pbt_fail("after the expected log: %s", evs(&e));
	if (want[ng].op != op || want[ng].id != id || want[ng].k != k) pbt_fail("step %d: %s, expected: %s", ng, evs(&e), evs(&want[ng]));
	ng++;
}
static __thread const char *lastname;
static int kidx(const char *n) { lastname = n; if (!n) return -1; if (!strcmp(n, "_panic")) return K_PANIC; for (int i = 0; i < KINDS; i++) if (!strcmp(n, kname[i])) return i; return -2; }

/* ------------------------------------------------------------------ model */
#define BRK 1000
static int m_unwind(scope *s, int e) {
	int rec = 0;
	while (s->n > 0) {
		int id = s->d[--s->n]; node *x = &N[id]; ran++;
		if (x->kind == N_RECOVER && e >= 0 && !rec) { W('r', id, e); rec = 1; recovered++; }
		else if (x->kind == N_RECOVER_E && e == x->k && !rec) { W('r', id, e); rec = 1; recovered++; }
		else W('d', id, -1);
	}
	return rec;
}
static int m_seq(int i) {
	for (; i >= 0; i = N[i].next) {
		node *x = &N[i]; int e = -1;
		if (overflow) return -1;
		switch (x->kind) {
		case N_LOG: W('l', i, -1); break;
		case N_FENCE: fences++; /* fall through */
		case N_DEFER: case N_RECOVER: case N_RECOVER_E: S[ns - 1].d[S[ns - 1].n++] = i; break;
		case N_THROW: thrown++; return x->k;
		case N_BREAK: return BRK;
		case N_CALL: e = m_seq(x->first); break;
		case N_PROT: e = m_seq(x->first); relw[i] = e >= 0 && e != BRK; break;
		case N_GUARD:
			guards++; S[ns++].n = 0; e = m_seq(x->first); if (e == BRK) e = -1;
			if (m_unwind(&S[--ns], e)) e = -1;
			if (e < 0) W('g', i, -1);
			break;
		case N_TRY:
			e = m_seq(x->first);
			if (e >= 0 && e != BRK) { W('c', i, e); e = m_seq(x->h); }
			if (e < 0) W('t', i, -1);
			break;
		}
		if (e >= 0) return e;
	}
	return -1;
}

/* ------------------------------------------------------------------ the real thing */
static void on_defer(void *a) {
	int i = (int)((int *)a - ids); node *x;
	if (i < 0 || i >= nn) pbt_fail("a deferred function got a foreign argument");
	x = &N[i];
	if (x->kind == N_RECOVER || x->kind == N_RECOVER_E) {
		int expect = ng < nw && want[ng].op == 'r';
		const char *m = guard_message();
		if (expect) {
			int k = kidx(m);
			if (!guard_caught(x->kind == N_RECOVER ? m : kname[x->k])) pbt_fail("guard_caught refuses the current error (message %s)", m ? m : "(null)");
			G('r', i, k); return;
		}
		/* recovering when there is nothing (more) to recover from must do no harm */
		if (x->kind == N_RECOVER_E) guard_caught(kname[x->k]);
	}
	G('d', i, -1);
}
static void run_seq(int i, int *brk);
static __attribute__((noinline)) void do_throw(int k) {
	switch (k) {
	case K_RANGE: throw(range_error);
	case K_LOGIC: throw(logic_error);
	case K_OOM: throw(out_of_memory);
	case K_ILL: raise(SIGILL); break;
	default: panic("a message");
	}
	pbt_fail("throw returned");
}
static __attribute__((noinline)) void run_guard(int i) {
	guard {
		int brk = 0;
		run_seq(N[i].first, &brk);
		if (brk) break;
	} guarded;
	G('g', i, -1);
}
static __attribute__((noinline)) void run_try(int i) {
	try { run_seq(N[i].first, NULL); }
	catch_any { G('c', i, kidx(err.name)); run_seq(N[i].h, NULL); }
	G('t', i, -1);
}
static void release(void *a) { relg[(int *)a - ids]++; }
static __attribute__((noinline)) void run_prot(int i) {
	int *p = &ids[i];
	protected(p, release);
	run_seq(N[i].first, NULL);
	unprotected(p);
}
static void run_seq(int i, int *brk) {
	for (; i >= 0; i = N[i].next) {
		node *x = &N[i];
		switch (x->kind) {
		case N_LOG: G('l', i, -1); break;
		case N_DEFER: case N_RECOVER: case N_RECOVER_E: if (defer(on_defer, &ids[i]) < 0) pbt_fail("defer is refused"); break;
		case N_FENCE: if (fence(&ids[i], on_defer) != &ids[i]) pbt_fail("fence does not return its pointer"); break;
		case N_GUARD: run_guard(i); break;
		case N_CALL: { volatile char pad[100]; pad[0] = 1; run_seq(x->first, NULL); break; }
		case N_PROT: run_prot(i); break;
		case N_THROW: do_throw(x->k); break;
		case N_YIELD: { prog *me = cur_prog; allow_yield == 2 ? (void)sched_yield() : yield(); cur_prog = me; break; }
		case N_BREAK: *brk = 1; return;
		case N_TRY: run_try(i); break;
		}
	}
}

static long live;
static void *cm(size_t n) { void *p = rp_malloc(n); if (p) live++; return p; }
static void *cc(size_t a, size_t b) { void *p = rp_calloc(a, b); if (p) live++; return p; }
static void *cr(void *q, size_t n) { void *p = rp_realloc(q, n); if (p && !q) live++; return p; }
static void cf(void *p) { if (p) live--; rpfree(p); }

static void prepare(int head) {
	memset(relw, 0, sizeof relw); S[0].n = 0; ns = 1; nw = ng = 0; overflow = guards = thrown = ran = recovered = fences = 0;
	int e = m_seq(head);
	if (e >= 0) W('X', -1, e); else W('Z', -1, -1);
}
static void label(void) {
	pbt_label(thrown == 0 ? "no throw" : recovered ? "recovered" : "thrown");
	if (fences) pbt_label("with fences");
	if (guards >= 2 && ran >= 3) pbt_nontrivial();
}
static __attribute__((noinline)) void outer(int head) {
	volatile int done = 0;
	try { run_seq(head, NULL); G('Z', -1, -1); done = 1; }
	catch_any { G('X', -1, kidx(err.name)); done = 1; }
	pbt_check(done, "neither the end nor the outermost handler was reached");
}
static void guard_case(void) {
	int budget = 50, rounds = 1 + (int)pbt_below(2);
	ex_signal_setup(); events_set_allocator(cm, cr, cc, cf);
	scope_init();
	while (rounds--) {
		nn = 0; int head = gen_seq(5, 0, 0, &budget); budget = 50;
		pbt_note("program: "); show(head); pbt_note("\n");
		prepare(head);
		if (overflow) return;
		live = 0; memset(relg, 0, sizeof relg);
		outer(head);
		pbt_check(ng == nw, "stopped after %d of %d expected steps, next: %s", ng, nw, ng < nw ? evs(&want[ng]) : "");
		for (int i = 0; i < nn; i++) pbt_check(relg[i] == relw[i], "protected pointer %d was released %d times, expected %d", i, relg[i], relw[i]);
		pbt_check(live == 0, "%ld blocks left after the last guard", live);
		pbt_check(guard_setup_func == NULL && guard_unwind_func == NULL, "guard hooks still set after the last guard");
		label();
	}
}
static void u_guard(void) { allow_fence = 0; allow_try = 0; allow_break = 1; guard_case(); }
static void u_fence(void) { allow_fence = 1; allow_try = 0; allow_break = 1; guard_case(); }
static void u_mixed(void) { allow_fence = 0; allow_try = 1; allow_break = 0; guard_case(); }

/* ------------------------------------------------------------------ the scope of a thread, to the end of the process */
static int logfd; static int xids[64] = { 77, 78, 79 };
static void say(const char *f, int i) { char b[64]; int n = snprintf(b, sizeof b, f, i); if (write(logfd, b, n) < 0) _exit(9); }
static void x_defer(void *a) { say("d%d ", (int)((int *)a - xids)); }
static __attribute__((noinline)) void x_throw(int k) { do_throw(k); }
enum { X_DEFER, X_FENCE, X_FREE, X_LOG, X_SCOPE, X_TRY, X_GUARD, X_TRYF, X_TRYT, X_KINDS };
static void u_exit(void) {
	char w[4000]; int wn = 0, op[64], st[64], n = (int)pbt_size(0, 12), sn = 0, i, ending = (int)pbt_below(4), k = (int)pbt_below(4), total = 0; static const char *on[X_KINDS] = { "defer", "fence", "defer_free(malloc)", "log", "exit_scope()", "try/catch", "guard", "fence in try", "fence and throw in try" };
	static const char *en[] = { "exit(0)", "return from main", "uncaught throw", "uncaught throw inside nested calls" };
	for (i = 0; i < n; i++) {
		static const int wt[X_KINDS] = { 6, 4, 2, 2, 2, 1, 2, 1, 2 };
		op[i] = pbt_weighted(wt, X_KINDS); if (op[i] == X_TRYT && sn) op[i] = X_TRYF; pbt_note("%s %d; ", on[op[i]], i);
		switch (op[i]) {
		case X_DEFER: case X_FENCE: case X_TRYF: st[sn++] = i; break;
		case X_TRYT: wn += sprintf(w + wn, "d%d c%d ", i, i); total++; break;
		case X_LOG: wn += sprintf(w + wn, "l%d ", i); break;
		case X_TRY: wn += sprintf(w + wn, "c%d ", i); break;
		case X_GUARD: wn += sprintf(w + wn, "d%d e%d ", i, i); total++; break;
		case X_SCOPE: total += sn; while (sn) wn += sprintf(w + wn, "d%d ", st[--sn]); break;
		}
	}
	pbt_note("then %s\n", en[ending]);
	total += sn; while (sn) wn += sprintf(w + wn, "d%d ", st[--sn]);
	w[wn] = 0;
	int p[2]; if (pipe(p)) return;
	pid_t c = fork();
	if (c == 0) {
		logfd = p[1]; close(p[0]);
		if (freopen("/dev/null", "w", stderr) == NULL || freopen("/dev/null", "w", stdout) == NULL) _exit(9);
		scope_init();
		for (i = 0; i < n; i++) switch (op[i]) {
			case X_DEFER: defer(x_defer, &xids[i]); break;
			case X_FENCE: fence(&xids[i], x_defer); break;
			case X_FREE: defer_free(events_calloc(1, 40)); break;
			case X_LOG: say("l%d ", i); break;
			case X_SCOPE: exit_scope(); break;
			case X_TRY: { try { x_throw(K_LOGIC); } catch_any { say("c%d ", i); } } break;
			case X_TRYF: { try { fence(&xids[i], x_defer); } catch_any { say("bad%d ", i); } } break;
			case X_TRYT: { try { fence(&xids[i], x_defer); x_throw(K_LOGIC); } catch_any { say("c%d ", i); } } break;
			case X_GUARD: { guard { defer(x_defer, &xids[i]); } guarded; say("e%d ", i); } break;
		}
		if (ending >= 2) x_throw(k);
		exit(0);
	}
	close(p[1]);
	char g[4000]; int gn = 0, r; while (gn < (int)sizeof g - 1 && (r = (int)read(p[0], g + gn, sizeof g - 1 - gn)) > 0) gn += r;
	g[gn] = 0; close(p[0]); int ws; waitpid(c, &ws, 0);
	pbt_check(!strcmp(g, w), "log of the process: %s, expected: %s", g, w);
	pbt_check(WIFEXITED(ws) && WEXITSTATUS(ws) == (ending >= 2), "process ended with status %x", ws);
	pbt_label(en[ending]); if (total >= 2) pbt_nontrivial();
}

/* ------------------------------------------------------------------ an allocator that returns low addresses (known finding) */
static char *low_p, *low_e;
static void *lm(size_t n) {
	if (!low_p) for (uintptr_t a = 0x18000000; a >= 0x08000000 && !low_p; a -= 0x1000000) { void *p = mmap((void *)a, 1 << 22, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE, -1, 0); if (p == (void *)a) low_p = p, low_e = low_p + (1 << 22); }
	n = (n + 31) & ~15ul; if (!low_p || low_p + n > low_e) return NULL;
	char *r = low_p + 16; low_p += n; *(size_t *)(r - 16) = n - 16; return r;
}
static void *lc(size_t a, size_t b) { return lm(a * b); }
static void *lr(void *q, size_t n) { void *p = lm(n); if (q) memcpy(p, q, *(size_t *)((char *)q - 16) < n ? *(size_t *)((char *)q - 16) : n); return p; }
static void lf(void *p) { (void)p; }
static int low_ran;
static void low_defer(void *a) { low_ran += a == &low_ran; }
static void u_low(void) {
	ex_signal_setup(); events_set_allocator(lm, lr, lc, lf);
	pbt_note("events_set_allocator(blocks below 512 MB); guard { defer(f) } guarded\n");
	guard { defer(low_defer, &low_ran); } guarded;
	pbt_check(low_ran == 1, "the deferred function ran %d times", low_ran);
	pbt_nontrivial();
}

/* ------------------------------------------------------------------ the same programs in several tasks that take turns inside their blocks */
static prog PR[5]; static int npr;
static int draw_programs(int max) {
	int i, some = 0;
	npr = 2 + (int)pbt_below((uint64_t)(max - 1));
	for (i = 0; i < npr; i++) {
		int budget = 30; cur_prog = &PR[i];
		nn = 0;
		if (pbt_chance(3, 4)) { int h = nn++; memset(&N[h], 0, sizeof(node)); N[h].kind = N_GUARD; N[h].next = N[h].h = -1; int f = gen_seq(3, 1, 1, &budget); N[h].first = f; cur_prog->head = h; }
		else cur_prog->head = gen_seq(4, 0, 0, &budget);
		pbt_note("program %d: ", i); show(cur_prog->head); pbt_note("\n");
		prepare(cur_prog->head);
		if (overflow) { cur_prog = NULL; return 0; }
		memset(relg, 0, sizeof relg);
		if (guards && ran) some++;
		if (thrown) pbt_label("thrown"); if (recovered) pbt_label("recovered"); if (fences) pbt_label("with fences");
	}
	cur_prog = NULL;
	if (some >= 2) pbt_nontrivial();
	return 1;
}
static void run_prog(prog *p) {
	int i;
	cur_prog = p; outer(p->head); cur_prog = p;
	pbt_check(ng == nw, "stopped after %d of %d expected steps, next: %s", ng, nw, ng < nw ? evs(&want[ng]) : "");
	for (i = 0; i < nn; i++) pbt_check(relg[i] == relw[i], "protected pointer %d was released %d times, expected %d", i, relg[i], relw[i]);
}
static int finished;
static void task_body(param_t a) { run_prog(&PR[a[0].integer]); finished++; }
static void u_tasks(void) {
	int i; allow_yield = 1; allow_try = pbt_chance(1, 2); allow_fence = !allow_try && pbt_chance(1, 2);
	if (!draw_programs(5)) { pbt_label("too long"); return; }
	events_init(64); events_t *l = events_create(60);
	finished = 0;
	for (i = 0; i < npr; i++) async_ex(Kb(256), task_body, 1, casting(i));
	async_run(l);
	pbt_check(finished == npr, "%d of %d tasks ended", finished, npr);
	pbt_check(guard_setup_func == NULL && guard_unwind_func == NULL, "guard hooks still set after the last guard");
	pbt_done();
}
/* and in several threads */
static pthread_barrier_t bar;
static void *thread_body(void *a) {
	int r;
	for (r = 0; r < 12; r++) {
		prog *p = a; cur_prog = p; ng = 0; memset(relg, 0, sizeof relg); pthread_barrier_wait(&bar);
		run_prog(p);
		pbt_check(guard_setup_func == NULL && guard_unwind_func == NULL, "guard hooks still set after the last guard");
	}
	return NULL;
}
static void u_threads(void) {
	int i; pthread_t t[5]; allow_yield = 2; allow_try = pbt_chance(1, 2); allow_fence = !allow_try && pbt_chance(1, 2);
	if (!draw_programs(4)) { pbt_label("too long"); return; }
	static int once; if (!once++) { events_init(64); }
	pthread_barrier_init(&bar, NULL, (unsigned)npr);
	for (i = 0; i < npr; i++) if (pthread_create(&t[i], NULL, thread_body, &PR[i])) return;
	for (i = 0; i < npr; i++) pthread_join(t[i], NULL);
	pthread_barrier_destroy(&bar);
}

const pbt_unit pbt_units[] = {
	{ "guard", u_guard, 50, 60000, 0, "at least two guards and three deferred functions" },
	{ "fence", u_fence, 50, 60000, 0, "at least two guards and three deferred functions, some from fence()" },
	{ "mixed", u_mixed, 50, 60000, 0, "at least two guards and three deferred functions, among try blocks" },
	{ "exit", u_exit, 20, 60000, 0, "at least two deferred functions" },
	{ "tasks", u_tasks, 1, 60000, 0, "at least two tasks with guards and deferred functions" },
	{ "threads", u_threads, 20, 60000, PBT_FLAKY, "at least two threads with guards and deferred functions" },
	{ "low", u_low, 1, 60000, 0, "all" },
	{ 0 }
};
