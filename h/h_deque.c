/* The work-stealing deque: owner pushes and takes, others steal. In order against a model,
 * under generated schedules (every atomic access is a scheduling point, with x86-like store
 * buffers), and on real threads. */
#include "events_internal.h"
#include "pbt.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sched.h>
#include <ucontext.h>
#include <pthread.h>
#include "posix_names.h"

/* ---------------------------------------------- the deque's source under our own atomics */
static uint64_t mc_load(volatile void *p);
static void mc_store(volatile void *p, uint64_t v, int order);
static int mc_cas(volatile void *p, void *expect, uint64_t v);
static uint64_t mc_add(volatile void *p, uint64_t v);
static uint64_t mc_swap(volatile void *p, uint64_t v);
static void mc_fence(int order);
static void *mc_calloc(size_t a, size_t b);
static void mc_free(void *p);
#define deque_init mc_deque_init
#define deque_resize mc_deque_resize
#define deque_take mc_deque_take
#define deque_push mc_deque_push
#define deque_steal mc_deque_steal
#define deque_free mc_deque_free
#define deque_destroy mc_deque_destroy
#define deque_peek mc_deque_peek
#define TASK_EMPTY_T MC_EMPTY
#define TASK_ABORT_T MC_ABORT
#define deque_thread_set mc_thread_set
#pragma push_macro("atomic_load_explicit")
#pragma push_macro("atomic_store_explicit")
#pragma push_macro("atomic_compare_exchange_strong_explicit")
#pragma push_macro("atomic_compare_exchange_weak_explicit")
#pragma push_macro("atomic_exchange_explicit")
#pragma push_macro("atomic_fetch_add_explicit")
#pragma push_macro("atomic_fetch_sub_explicit")
#pragma push_macro("atomic_thread_fence")
#pragma push_macro("atomic_init")
#undef atomic_load_explicit
#undef atomic_store_explicit
#undef atomic_compare_exchange_strong_explicit
#undef atomic_compare_exchange_weak_explicit
#undef atomic_exchange_explicit
#undef atomic_fetch_add_explicit
#undef atomic_fetch_sub_explicit
#undef atomic_thread_fence
#undef atomic_init
#define atomic_load_explicit(p, o) (mc_load((volatile void *)(p)))
#define atomic_store_explicit(p, v, o) mc_store((volatile void *)(p), (uint64_t)(v), o)
#define atomic_compare_exchange_strong_explicit(p, e, v, o, f) mc_cas((volatile void *)(p), (void *)(e), (uint64_t)(v))
#define atomic_compare_exchange_weak_explicit(p, e, v, o, f) mc_cas((volatile void *)(p), (void *)(e), (uint64_t)(v))
#define atomic_exchange_explicit(p, v, o) mc_swap((volatile void *)(p), (uint64_t)(v))
#define atomic_fetch_add_explicit(p, v, o) mc_add((volatile void *)(p), (uint64_t)(v))
#define atomic_fetch_sub_explicit(p, v, o) mc_add((volatile void *)(p), -(uint64_t)(v))
#define atomic_thread_fence(o) mc_fence(o)
#define atomic_init(p, v) mc_store((volatile void *)(p), (uint64_t)(v), memory_order_seq_cst)
#define events_calloc mc_calloc
#define events_free mc_free
#include "deque.c"
#undef events_calloc
#undef events_free
#undef deque_init
#undef deque_resize
#undef deque_take
#undef deque_push
#undef deque_steal
#undef deque_free
#undef deque_destroy
#undef deque_peek
#pragma pop_macro("atomic_load_explicit")
#pragma pop_macro("atomic_store_explicit")
#pragma pop_macro("atomic_compare_exchange_strong_explicit")
#pragma pop_macro("atomic_compare_exchange_weak_explicit")
#pragma pop_macro("atomic_exchange_explicit")
#pragma pop_macro("atomic_fetch_add_explicit")
#pragma pop_macro("atomic_fetch_sub_explicit")
#pragma pop_macro("atomic_thread_fence")
#pragma pop_macro("atomic_init")

#define BASE 0x10000           /* items are BASE + number * 16, never one of the two markers */
static tasks_t *item(int n) { return (tasks_t *)(intptr_t)(BASE + n * 16); }
static int number(tasks_t *t) { intptr_t v = (intptr_t)t - BASE; return v >= 0 && v % 16 == 0 ? (int)(v / 16) : -1; }

/* ---------------------------------------------- generated schedules */
#define NT 4
#define SB 8
typedef struct { volatile void *p; uint64_t v; } sbent;
static ucontext_t ctx[NT + 1]; static char *stk; static int cur = -1, alive[NT], nthr, steps, tso; static long switches;
static sbent sb[NT][SB]; static int nsb[NT];
#define STK 131072
static struct { char *p; size_t n; int freed; } blk[64]; static int nblk;
static void *mc_calloc(size_t a, size_t b) {
	void *p = calloc(a, b); if (nblk < 64) { blk[nblk].p = p; blk[nblk].n = a * b; blk[nblk].freed = 0; nblk++; } return p;
}
static void mc_free(void *p) {
	int i; for (i = 0; i < nblk; i++) if (blk[i].p == p) { if (blk[i].freed) pbt_fail("the same array is freed twice"); blk[i].freed = 1; return; }
	if (p) pbt_fail("an unknown block is freed");
}
static void live(volatile void *p) { int i; for (i = 0; i < nblk; i++) if (blk[i].freed && (char *)p >= blk[i].p && (char *)p < blk[i].p + blk[i].n) pbt_fail("thread %d accesses an array that was freed", cur); }
static void flush1(int t) { if (nsb[t]) { *(volatile uint64_t *)sb[t][0].p = sb[t][0].v; memmove(&sb[t][0], &sb[t][1], sizeof(sbent) * SB - sizeof(sbent)); nsb[t]--; } }
static void flush(int t) { while (nsb[t]) flush1(t); }
static void sp(void) {
	if (cur < 0) return;
	if (++steps > 4000) pbt_fail("no end after %d steps: an operation does not return", steps);
	if (tso) { int t; for (t = 0; t < nthr; t++) if (nsb[t] && pbt_chance(1, 4)) flush1(t); }
	if (!pbt_chance(2, 5)) return;
	int n = 0, c[NT], i, me = cur; for (i = 0; i < nthr; i++) if (alive[i] && i != me) c[n++] = i;
	if (!n) return;
	int to = c[pbt_below((uint64_t)n)]; switches++; cur = to; swapcontext(&ctx[me], &ctx[to]);
}
static uint64_t mc_load(volatile void *p) {
	sp(); live(p);
	if (cur >= 0) { int i; for (i = nsb[cur] - 1; i >= 0; i--) if (sb[cur][i].p == p) return sb[cur][i].v; }
	return *(volatile uint64_t *)p;
}
static void mc_store(volatile void *p, uint64_t v, int order) {
	sp(); live(p);
	if (cur < 0 || !tso) { *(volatile uint64_t *)p = v; return; }
	if (nsb[cur] == SB) flush1(cur);
	sb[cur][nsb[cur]].p = p; sb[cur][nsb[cur]].v = v; nsb[cur]++;
	if (order == memory_order_seq_cst) flush(cur);
}
static int mc_cas(volatile void *p, void *e, uint64_t v) {
	sp(); live(p); if (cur >= 0) flush(cur);
	if (*(volatile uint64_t *)p == *(uint64_t *)e) { *(volatile uint64_t *)p = v; return 1; }
	*(uint64_t *)e = *(volatile uint64_t *)p; return 0;
}
static uint64_t mc_add(volatile void *p, uint64_t v) { sp(); live(p); if (cur >= 0) flush(cur); uint64_t o = *(volatile uint64_t *)p; *(volatile uint64_t *)p = o + v; return o; }
static uint64_t mc_swap(volatile void *p, uint64_t v) { sp(); live(p); if (cur >= 0) flush(cur); uint64_t o = *(volatile uint64_t *)p; *(volatile uint64_t *)p = v; return o; }
static void mc_fence(int order) { sp(); if (order == memory_order_seq_cst && cur >= 0) flush(cur); }

typedef struct { int th, kind, start, end, got; } opr;   /* kind 0 push, 1 take, 2 steal; got: number, -1 empty, -2 abort */
static opr H[200]; static int nh, now_;
static events_deque_t *Q; static int plan[NT][24], nplan[NT], pushed;
static void op_run(int th, int kind) {
	int me = nh++; opr *o = &H[me]; o->th = th; o->kind = kind; o->start = now_++; o->end = 1 << 30; o->got = -3;
	if (kind == 0) { int n = pushed++; o->got = n; mc_deque_push(Q, item(n)); }
	else {
		tasks_t *t = kind == 1 ? mc_deque_take(Q) : mc_deque_steal(Q);
		o = &H[me]; o->got = t == MC_EMPTY ? -1 : t == MC_ABORT ? -2 : number(t);
		if (o->got == -1 && t != MC_EMPTY) o->got = -4;
		if (o->got < -2 || o->got >= pushed) pbt_fail("thread %d obtains %p, which was never pushed", th, (void *)t);
		if (o->got == -2 && kind == 1) pbt_fail("take by the owner gives up");
	}
	H[me].end = now_++;
}
static void thread_main(int th) {
	int i; for (i = 0; i < nplan[th]; i++) op_run(th, plan[th][i]);
	alive[th] = 0; flush(th);
	for (i = 0; i < nthr; i++) if (alive[i]) break;
	if (i == nthr) { cur = -1; setcontext(&ctx[NT]); }
	int n = 0, c[NT]; for (i = 0; i < nthr; i++) if (alive[i]) c[n++] = i;
	cur = c[pbt_below((uint64_t)n)]; setcontext(&ctx[cur]);
}
static void judge(void) {
	int i, j, who[200]; memset(who, -1, sizeof who);
	for (i = 0; i < nh; i++) if (H[i].kind && H[i].got >= 0) {
		if (who[H[i].got] >= 0) pbt_fail("item %d is handed out twice (threads %d and %d)", H[i].got, H[who[H[i].got]].th, H[i].th);
		who[H[i].got] = i;
	}
	for (i = 0; i < pushed; i++) if (who[i] < 0) pbt_fail("item %d is lost", i);
	for (i = 0; i < nh; i++) for (j = 0; j < nh; j++) {
		if (H[i].kind == 2 && H[j].kind == 2 && H[i].th == H[j].th && H[i].end < H[j].start && H[i].got >= 0 && H[j].got >= 0 && H[j].got < H[i].got) pbt_fail("thread %d steals item %d after item %d", H[i].th, H[j].got, H[i].got);
		if (H[i].kind == 1 && H[i].got >= 0 && H[j].kind == 0 && H[j].end < H[i].start && H[j].got > H[i].got) { opr *g = &H[who[H[j].got]]; if (g->start > H[i].start) pbt_fail("the owner takes item %d while the newer item %d is there", H[i].got, H[j].got); }
	}
	for (i = 0; i < nh; i++) if (H[i].got == -1 && !tso) { /* with store buffers a push may not be visible yet */
		int inn = 0; for (j = 0; j < nh; j++) { if (H[j].kind == 0 && H[j].end < H[i].start) inn++; if (H[j].kind && H[j].got >= 0 && H[j].start < H[i].end) inn--; }
		if (inn > 0) pbt_fail("thread %d is told the deque is empty while it holds at least %d items", H[i].th, inn);
	}
}
static void u_sched(void) {
	int i, k, size = 1 << pbt_below(4); static const char *on[] = { "push", "take", "steal" };
	nthr = 2 + (int)pbt_below(NT - 1); tso = pbt_chance(1, 2);
	nblk = nh = now_ = pushed = steps = 0; switches = 0; memset(nsb, 0, sizeof nsb);
	if (!stk) stk = malloc(STK * NT);
	int np = 0, nt = 0, ns = 0, prefill = (int)pbt_size(0, 6);
	for (i = 0; i < nthr; i++) {
		nplan[i] = (int)pbt_size(1, i ? 6 : 14);
		for (k = 0; k < nplan[i]; k++) { plan[i][k] = i ? 2 : pbt_chance(2, 5) ? 1 : 0; if (plan[i][k] == 0) np++; else if (plan[i][k] == 1) nt++; else ns++; }
		pbt_note("%s%d: ", i ? "thief " : "owner ", i); for (k = 0; k < nplan[i]; k++) pbt_note("%s ", on[plan[i][k]]); pbt_note("\n");
	}
	pbt_note("initial size %d, %d items to begin with, store buffers %s\n", size, prefill, tso ? "on" : "off");
	events_deque_t *q = calloc(1, sizeof *q); Q = q; cur = -1;
	mc_deque_init(q, size);
	for (i = 0; i < prefill; i++) op_run(0, 0);
	for (i = 0; i < nthr; i++) {
		alive[i] = 1; getcontext(&ctx[i]); ctx[i].uc_stack.ss_sp = stk + STK * i; ctx[i].uc_stack.ss_size = STK; ctx[i].uc_link = NULL;
		makecontext(&ctx[i], (void (*)(void))thread_main, 1, i);
	}
	cur = 0; swapcontext(&ctx[NT], &ctx[0]); cur = -1;
	for (i = 0; i < nthr; i++) flush(i);
	for (i = 0; i < 60; i++) { op_run(0, i & 1 ? 2 : 1); if (H[nh - 1].got < 0) break; }
	judge();
	for (i = 0; i < nblk; i++) free(blk[i].p);
	free(q);
	if (np + prefill >= 2 && ns && switches >= 2) pbt_nontrivial();
	pbt_label("%d threads", nthr); if (pushed > size) pbt_label("grown"); if (nt) pbt_label("with takes");
	for (i = 0; i < nh; i++) if (H[i].got == -2) { pbt_label("contended"); break; }
}

/* ---------------------------------------------- one thread, against a model */
static long live_;
static void *cm(size_t n) { void *p = rp_malloc(n); if (p) live_++; return p; }
static void *cc(size_t a, size_t b) { void *p = rp_calloc(a, b); if (p) live_++; return p; }
static void *cr(void *q, size_t n) { void *p = rp_realloc(q, n); if (p && !q) live_++; return p; }
static void cf(void *p) { if (p) live_--; rpfree(p); }
static void u_seq(void) {
	events_set_allocator(cm, cr, cc, cf); live_ = 0;
	int i, n = (int)pbt_size(1, 60), size = 1 + (int)pbt_below(9), lo = 0, hi = 0, next = 0, m[200], grown = 0, wraps = 0;
	events_deque_t *q = events_calloc(1, sizeof *q); deque_init(q, size);
	pbt_note("initial size %d: ", size);
	for (i = 0; i < n; i++) {
		static const int w[] = { 5, 3, 3 }; int op = pbt_weighted(w, 3); tasks_t *t; int want;
		switch (op) {
		case 0: pbt_note("push "); deque_push(q, item(next)); m[hi++] = next++; if (hi - lo > size) grown = 1; if (hi > size) wraps = 1; break;
		case 1: case 2:
			pbt_note(op == 1 ? "take " : "steal "); t = op == 1 ? deque_take(q) : deque_steal(q);
			want = lo == hi ? -1 : op == 1 ? m[--hi] : m[lo++];
			if (want < 0 ? t != (tasks_t *)MC_EMPTY : t != item(want)) pbt_fail("step %d: %s gives %p, expected %s %d", i, op == 1 ? "take" : "steal", (void *)t, want < 0 ? "empty" : "item", want);
			break;
		}
	}
	deque_free(q);
	pbt_check(live_ == 0, "%ld blocks are left after deque_free", live_);
	if (n > 10 && next > 3) pbt_nontrivial();
	if (grown) pbt_label("grown"); if (wraps) pbt_label("wrapped");
}

/* ---------------------------------------------- real threads */
#define RI 4000
static events_deque_t *RQ; static unsigned char seen_[8][RI]; static volatile int stop_; static int rn, rthieves, rtake, rburst;
static pthread_barrier_t rb;
static void *thief(void *a) {
	int me = (int)(intptr_t)a, last = -1; pthread_barrier_wait(&rb);
	for (;;) {
		int s = __atomic_load_n(&stop_, __ATOMIC_SEQ_CST);
		tasks_t *t = deque_steal(RQ);
		if (t == (tasks_t *)MC_ABORT) continue;
		if (t == (tasks_t *)MC_EMPTY) { if (s) return NULL; continue; }
		int n = number(t); if (n < 0 || n >= rn) pbt_fail("a thief obtains %p, which was never pushed", (void *)t);
		if (n <= last) pbt_fail("a thief steals item %d after item %d", n, last);
		last = n; seen_[me][n]++;
	}
}
static void u_threads(void) {
	int i, k; pthread_t th[4]; rthieves = 1 + (int)pbt_below(4); rn = 200 + (int)pbt_below(RI - 200); rtake = (int)pbt_below(4); rburst = 1 + (int)pbt_below(8);
	int size = 1 << pbt_below(8);
	pbt_note("%d items in bursts of %d, %d thieves, initial size %d, owner takes %d of 4\n", rn, rburst, rthieves, size, rtake);
	memset(seen_, 0, sizeof seen_); stop_ = 0;
	events_init(64);
	RQ = events_calloc(1, sizeof *RQ); deque_init(RQ, size);
	pthread_barrier_init(&rb, NULL, (unsigned)rthieves + 1);
	for (i = 0; i < rthieves; i++) pthread_create(&th[i], NULL, thief, (void *)(intptr_t)i);
	pthread_barrier_wait(&rb);
	for (i = 0; i < rn;) {
		for (k = 0; k < rburst && i < rn; k++) deque_push(RQ, item(i++));
		for (k = 0; k < rburst; k++) if (k % 4 < rtake) { tasks_t *t = deque_take(RQ); if (t != (tasks_t *)MC_EMPTY) { int n = number(t); if (n < 0 || n >= i) pbt_fail("the owner takes %p, which was never pushed", (void *)t); seen_[7][n]++; } }
	}
	__atomic_store_n(&stop_, 1, __ATOMIC_SEQ_CST);
	for (i = 0; i < rthieves; i++) pthread_join(th[i], NULL);
	for (i = 0; i < rn; i++) { int c = 0; for (k = 0; k < 8; k++) c += seen_[k][i]; if (c != 1) pbt_fail("item %d was handed out %d times", i, c); }
	deque_free(RQ); pthread_barrier_destroy(&rb);
	pbt_nontrivial(); pbt_label("%d thieves", rthieves);
	pbt_done();
}

const pbt_unit pbt_units[] = {
	{ "seq", u_seq, 200, 60000, 0, "more than ten operations, at least four pushes" },
	{ "sched", u_sched, 100, 60000, 0, "at least two items, one thief and two task switches" },
	{ "threads", u_threads, 1, 60000, PBT_FLAKY, "every case" },
	{ 0 }
};
