/* The allocator (rpmalloc as shipped, and events_malloc() & co on top of it): random histories of
 * allocations against an interval model, over a memory map of our own that knows what is mapped and
 * can fail; and the same over several threads that hand blocks to each other, come and go. */
#include "events_internal.h"
#include "rpmalloc.h"
#include "pbt.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <pthread.h>
#include <sched.h>
#include <sys/mman.h>
#include "posix_names.h"

#define SPAN 65536u
#define PAGE 4096u

/* ------------------------------------------------------------------ blocks and their contents */
typedef struct { unsigned char *p; size_t size, usable, align; uint32_t id; } blk;

static unsigned char pat(uint32_t id, size_t i) { uint32_t x = (uint32_t)(i >> 3) * 2654435761u + id * 40503u; return (unsigned char)((x >> 13) ^ x ^ (i & 7) * 29); }
/* every byte of small blocks; head, tail and samples of the large ones */
static size_t after(size_t i, size_t n) {
	if (n <= 70000 || i + 1 < 300 || i + 1 >= n - 300) return i + 1;
	i = i / 509 * 509 + 509;
	return i < n - 300 ? i : n - 300;
}
static void fill(blk *b) { size_t i; for (i = 0; i < b->usable; i = after(i, b->usable)) b->p[i] = pat(b->id, i); }
/* what was filled in when it had usable bytes */
static void verify_as(blk *b, size_t usable, size_t n, const char *when) {
	size_t i;
	for (i = 0; i < usable && i < n; i = after(i, usable)) if (b->p[i] != pat(b->id, i)) pbt_fail("%s: byte %zu of %zu (%zu asked for) of block %p changed", when, i, usable, b->size, (void *)b->p);
}
static void verify(blk *b, size_t n, const char *when) { verify_as(b, b->usable, n, when); }

/* -------------------------------------------------------------- what is mapped, and failing maps */
typedef struct { char *base; size_t raw; char *p; size_t size, offset; } mapping;
#define MAPS 4096
static mapping maps[MAPS]; static int nmaps;
static int fail_in, failed, map_calls;        /* fail_in: calls until the first failure, -1 never */
static int fail_len;
static pthread_mutex_t maplock = PTHREAD_MUTEX_INITIALIZER;
#define SLOTS 1500
static blk S[SLOTS]; static int threaded;

static void *my_map(size_t size, size_t *offset) {
	void *r = NULL;
	pthread_mutex_lock(&maplock);
	map_calls++;
	if (size % PAGE) pbt_fail("memory_map asked for %zu bytes, not whole pages", size);
	if (fail_in >= 0 && map_calls > fail_in && map_calls <= fail_in + fail_len) { failed++; goto out; }
	if (size > ((size_t)1 << 30)) { failed++; goto out; }
	size_t raw = size + SPAN; int i;
	char *b = mmap(NULL, raw, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if (b == MAP_FAILED) { failed++; goto out; }
	char *p = (char *)(((uintptr_t)b + SPAN) & ~(uintptr_t)(SPAN - 1));
	for (i = 0; i < nmaps && maps[i].base; i++) ;
	if (i == MAPS) { munmap(b, raw); failed++; goto out; }
	if (i == nmaps) nmaps++;
	*offset = ((size_t)(p - b)) & ~(size_t)(PAGE - 1);
	if (*offset > 65535) *offset = 4096;   /* only handed back to us */
	maps[i] = (mapping){ b, raw, p, size, *offset };
	r = p;
out:
	pthread_mutex_unlock(&maplock);
	return r;
}
static void my_unmap(void *addr, size_t size, size_t offset, size_t release) {
	int i, k; char *a = addr;
	pthread_mutex_lock(&maplock);
	for (i = 0; i < nmaps && !(maps[i].base && a >= maps[i].p && a + size <= maps[i].p + maps[i].size); i++) ;
	if (i == nmaps) pbt_fail("unmapping %zu bytes at %p, which are not mapped", size, addr);
	if (!threaded) for (k = 0; k < SLOTS; k++) {
		char *lo = (char *)S[k].p;
		if (lo && lo < a + size && lo + S[k].usable > a) pbt_fail("memory of a live block (%zu bytes at %p) is given back (%zu bytes at %p)", S[k].size, (void *)lo, size, addr);
		if (lo && release && lo >= maps[i].p && lo < maps[i].p + maps[i].size) pbt_fail("the mapping of a live block (%zu bytes at %p) is released", S[k].size, (void *)lo);
	}
	if (release) {
		if (a != maps[i].p || release != maps[i].size || offset != maps[i].offset) pbt_fail("released mapping (%p, %zu, offset %zu) was mapped as (%p, %zu, offset %zu)", addr, release, offset, (void *)maps[i].p, maps[i].size, maps[i].offset);
		munmap(maps[i].base, maps[i].raw); memset(&maps[i], 0, sizeof maps[i]);
	} else madvise(a, size, MADV_DONTNEED);
	pthread_mutex_unlock(&maplock);
}
static int mapped_at(const char *p, size_t n) { int i; for (i = 0; i < nmaps; i++) if (maps[i].base && p >= maps[i].p && p + n <= maps[i].p + maps[i].size) return 1; return 0; }

static void start_heap(void) {
	rpmalloc_config_t c; memset(&c, 0, sizeof c);
	c.memory_map = my_map; c.memory_unmap = my_unmap;
	c.span_map_count = (size_t[]){ 0, 0, 1, 2, 3, 5, 64, 100 }[pbt_below(8)];
	pbt_note("%zu spans per mapping. ", c.span_map_count ? c.span_map_count : 64);
	if (!c.span_map_count) c.span_map_count = 64;
	nmaps = 0; map_calls = 0; failed = 0; memset(maps, 0, sizeof maps);
	rpmalloc_finalize();
	if (rpmalloc_initialize_config(&c)) pbt_fail("rpmalloc_initialize_config failed");
}
static void end_heap(void) {
	int i; size_t n = 0;
	rpmalloc_finalize();
	for (i = 0; i < nmaps; i++) n += maps[i].base ? maps[i].size : 0;
	if (n) pbt_fail("%zu bytes are still mapped after rpmalloc_finalize, with everything freed", n);
}

/* ---------------------------------------------------------------------------- sizes to ask for */
static size_t draw_size(int big) {
	static const size_t edge[] = { 1024, 32256, 32768, 65408, 65536, 131072, 131072 - 128, 1048576, 1048576 - 128, 4194304 - 65536, 4128640, 4128768, 4194304 };
	int w[] = { 12, 10, 6, 4, 3, 2, 1 };
	switch (pbt_weighted(w, big ? 7 : 5)) {
	case 0: return (size_t)pbt_below(1100);
	case 1: return (size_t)pbt_below(70) * 16 + (size_t)pbt_below(3);
	case 2: return (size_t)pbt_below(34000);
	case 3: { size_t e = edge[pbt_below(6)]; return e - 20 + (size_t)pbt_below(40); }
	case 4: return (size_t)pbt_below(400000);
	case 5: { size_t e = edge[pbt_below(13)]; return e - 130 + (size_t)pbt_below(260); }
	default: return (size_t)pbt_below(12 << 20);
	}
}
static size_t draw_align(void) { return (size_t)8 << pbt_below(13); }

/* ------------------------------------------------------------------------ one heap, one thread */
static uint32_t next_id;
static void check_new(blk *b, size_t size, size_t align, const char *by, int fails) {
	int k; char *lo = (char *)b->p;
	if (!lo) { if (failed == fails) pbt_fail("%s(%zu) gave nothing, though memory was there", by, size); return; }
	if ((uintptr_t)lo % (align < 16 ? 16 : align)) pbt_fail("%s(%zu) gave %p, not aligned to %zu", by, size, (void *)lo, align < 16 ? 16 : align);
	b->size = size; b->align = align; b->usable = rpmalloc_usable_size(lo);
	if (b->usable < size) pbt_fail("%s(%zu) gave a block of %zu bytes", by, size, b->usable);
	if (!mapped_at(lo, b->usable)) pbt_fail("%s(%zu) gave %p, of which not all %zu bytes are mapped", by, size, (void *)lo, b->usable);
	for (k = 0; k < SLOTS; k++) if (&S[k] != b && S[k].p && (char *)S[k].p < lo + b->usable && (char *)S[k].p + S[k].usable > lo)
		pbt_fail("%s(%zu) gave %p, inside a live block of %zu bytes at %p", by, size, (void *)lo, S[k].usable, (void *)S[k].p);
	b->id = ++next_id;
}
static void check_zero(blk *b, size_t n, const char *by) { size_t i; if (b->p) for (i = 0; i < n; i++) if (b->p[i]) pbt_fail("%s(%zu) gave a block with byte %zu not zero", by, n, i); }

enum { A_MALLOC, A_CALLOC, A_ALIGNED, A_ALIGNED_CALLOC, A_KINDS };
static void make(blk *b, int kind, size_t size, size_t align, int api) {
	int f = failed; size_t n, m; void *r = NULL;
	b->p = NULL;
	if (api || kind == A_ALIGNED_CALLOC) rpmalloc_init();   /* rp_malloc & co see to that themselves */
	switch (kind) {
	case A_MALLOC: r = api == 0 ? rp_malloc(size) : api == 1 ? rpmalloc(size) : events_malloc(size); b->p = r; check_new(b, size, 16, "malloc", f); break;
	case A_CALLOC: n = 1 + size % 7; m = size / n; r = api == 0 ? rp_calloc(n, m) : api == 1 ? rpcalloc(m, n) : events_calloc(n, m); b->p = r; check_new(b, n * m, 16, "calloc", f); check_zero(b, n * m, "calloc"); break;
	case A_ALIGNED: if (api == 0) r = rp_memalign(align, size); else if (api == 1) r = rpaligned_alloc(align, size); else { int e = rpposix_memalign(&r, align, size); if (!e != !!r) pbt_fail("rpposix_memalign gave %d and %p", e, r); } b->p = r; check_new(b, size, align, "aligned_alloc", f); break;
	default: n = 1 + size % 5; m = size / n; r = rpaligned_calloc(align, n, m); b->p = r; check_new(b, n * m, align, "aligned_calloc", f); check_zero(b, n * m, "aligned_calloc"); break;
	}
	if (b->p) fill(b);
}
static void drop(blk *b, int how) {
	verify(b, b->usable, "when freed");
	unsigned char *p = b->p; b->p = NULL;
	if (how == 0) rpfree(p); else if (how == 1) events_free(p); else rp_free(p);
}
static void resize(blk *b, size_t size, int kind, size_t align) {
	int f = failed; unsigned char *old = b->p, *p; blk o = *b; size_t keep; unsigned fl = 0;
	verify(b, b->usable, "before realloc");
	if (kind) rpmalloc_init();
	b->p = NULL;
	switch (kind) {
	case 0: p = rp_realloc(old, size); align = 16; break;
	case 1: p = rprealloc(old, size); align = 16; break;
	case 2: p = events_realloc(old, size); align = 16; break;
	case 3: p = rpaligned_realloc(old, align, size, 0, 0); break;
	case 4: p = rpaligned_realloc(old, align, size, b->size, 0); break;
	case 5: fl = RPMALLOC_NO_PRESERVE; p = rpaligned_realloc(old, align, size, 0, fl); break;
	default: fl = RPMALLOC_GROW_OR_FAIL; p = rpaligned_realloc(old, align, size, 0, fl); break;
	}
	if (!p) {
		b->p = old;
		if (failed == f && !(fl & RPMALLOC_GROW_OR_FAIL)) pbt_fail("realloc(%zu to %zu) gave nothing, though memory was there", b->size, size);
		verify(b, b->usable, "after a realloc that failed"); return;
	}
	if ((fl & RPMALLOC_GROW_OR_FAIL) && p != old && align > 16) pbt_fail("RPMALLOC_GROW_OR_FAIL moved the block");
	b->p = p; check_new(b, size, align, "realloc", f);
	keep = o.usable < b->usable ? o.usable : b->usable;
	if (kind == 4 && keep > o.size) keep = o.size;
	if (keep > size) keep = size;
	if (!(fl & RPMALLOC_NO_PRESERVE)) { blk t = *b; t.id = o.id; verify_as(&t, o.usable, keep, "after realloc"); }
	fill(b);
}
static const char *an[] = { "malloc", "calloc", "aligned", "aligned_calloc" };
static int draw_slot(int used, int live) { int k, n = 0, pick; if (used && !live) return -1; (void)n; pick = (int)pbt_below(SLOTS); for (k = 0; k < SLOTS; k++) if (!!S[(pick + k) % SLOTS].p == used) return (pick + k) % SLOTS; return -1; }
static int count_live(void) { int k, n = 0; for (k = 0; k < SLOTS; k++) n += !!S[k].p; return n; }

static void unit_heap(void) {
	int n = (int)pbt_size(1, 60), i, k, live = 0, news = 0, frees = 0, reused = 0, big = pbt_chance(1, 4), huge = 0;
	memset(S, 0, sizeof S); threaded = 0; next_id = 0;
	if (pbt_chance(1, 3)) { fail_in = (int)pbt_size(1, 30); fail_len = (int)(pbt_chance(1, 2) ? 1 : pbt_size(1, 40)); pbt_note("Mappings %d to %d fail. ", fail_in + 1, fail_in + fail_len); }
	else fail_in = -1;
	start_heap();
	events_set_allocator(rp_malloc, rp_realloc, rp_calloc, rpfree);
	for (i = 0; i < n; i++) {
		int w[] = { 8, 6, 5, 4, 4, 1, 1 }, op = pbt_weighted(w, 7);
		live = count_live();
		switch (op) {
		case 0: { int kind = (int)pbt_below(A_KINDS); size_t s = draw_size(big), a = draw_align(); int api = (int)pbt_below(3);
			k = draw_slot(0, live); if (k < 0) break; pbt_note("%s(%zu", an[kind], s); if (kind >= A_ALIGNED) pbt_note(", aligned to %zu", a); pbt_note(") #%d; ", k);
			make(&S[k], kind, s, a, api); news++; huge += s > 4000000; if (frees) reused++; } break;
		case 1: k = draw_slot(1, live); if (k < 0) break; { int h = pbt_chance(1, 8) ? 2 : (int)pbt_below(2); pbt_note("%s #%d; ", h == 2 ? "rp_free" : "free", k); drop(&S[k], h); frees++; } break;
		case 2: { size_t s = draw_size(big), a = draw_align(); int kind = (int)pbt_below(7); k = draw_slot(1, live); if (k < 0) break;
			if (!s && kind > 2) s = 1;
			if (pbt_chance(1, 2)) { size_t d = (size_t)pbt_below(200); s = S[k].size + d > 100 ? S[k].size + d - 100 : 1; }
			pbt_note("realloc%d #%d %zu to %zu", kind, k, S[k].size, s); if (kind > 2) pbt_note(" aligned to %zu", a); pbt_note("; "); resize(&S[k], s, kind, a); news++; } break;
		case 3: { int c = (int)pbt_size(1, 400), j, api = (int)pbt_below(3); size_t s = draw_size(0); if (big && pbt_chance(1, 6)) { c = 300 + 3 * c; s = 60000 + s % 5400; } else if (s > 4000) c = 1 + c / 10; pbt_note("%d times malloc(%zu); ", c, s);
			for (j = 0; j < c; j++) { k = draw_slot(0, live + j); if (k < 0) break; make(&S[k], A_MALLOC, s, 16, api); } news += c; if (frees) reused++; } break;
		case 4: { int m = (int)pbt_size(1, 4), r = (int)pbt_below(4); pbt_note("free one of %d; ", m); for (k = 0; k < SLOTS; k++) if (S[k].p && k % m == r % m) { drop(&S[k], (int)pbt_below(2)); frees++; } } break;
		case 5: pbt_note("rpmalloc_thread_finalize, again initialize; "); rpmalloc_thread_finalize((int)pbt_below(2)); if (rpmalloc_is_thread_initialized()) pbt_fail("the thread is still initialized"); rpmalloc_thread_initialize(); if (!rpmalloc_is_thread_initialized() && !failed) pbt_fail("the thread is not initialized"); while (!rpmalloc_is_thread_initialized()) { fail_in = -1; rpmalloc_thread_initialize(); } break;
		case 6: { rpmalloc_thread_statistics_t t; rpmalloc_global_statistics_t g; rpmalloc_thread_collect(); rpmalloc_thread_statistics(&t); rpmalloc_global_statistics(&g); for (k = 0; k < SLOTS; k++) if (S[k].p) verify(&S[k], S[k].usable, "in between"); } break;
		}
	}
	for (k = 0; k < SLOTS; k++) if (S[k].p) { drop(&S[k], 0); frees++; }
	end_heap();
	if (news > 5 && reused) pbt_nontrivial();
	if (failed) pbt_label("with failed mappings");
	if (huge) pbt_label("huge blocks");
}

/* --------------------------------------------- requests no memory can satisfy must be refused */
static void unit_refuse(void) {
	static const size_t top[] = { SIZE_MAX, SIZE_MAX / 2, SIZE_MAX / 4, (size_t)1 << 63, (size_t)1 << 62, (size_t)1 << 48, (size_t)1 << 47, SIZE_MAX - 4096, SIZE_MAX - 65536, SIZE_MAX - 127 };
	int n = (int)pbt_size(1, 12), i; blk a = { 0 };
	memset(S, 0, sizeof S); threaded = 0; fail_in = -1; start_heap();
	make(&S[0], A_MALLOC, draw_size(1), 16, 0);
	for (i = 0; i < n; i++) {
		size_t s = pbt_pick(top) - (size_t)pbt_below(300), m = 2 + (size_t)pbt_below(1 << 20), al = draw_align(); void *p; int kind = (int)pbt_below(5);
		if (kind == 2 || kind == 4) { unsigned __int128 t = (unsigned __int128)s * m; if (t >> 64 == 0) s = SIZE_MAX / m + 1 + (size_t)pbt_below(100); }
		pbt_note("%s(%zu); ", ((const char *[]){ "malloc", "realloc", "calloc", "aligned", "aligned_calloc" })[kind], s);
		p = kind == 0 ? rp_malloc(s) : kind == 1 ? rp_realloc(S[0].p, s) : kind == 2 ? rp_calloc(s, m) : kind == 3 ? rp_memalign(al, s) : rpaligned_calloc(al, m, s);
		if (p) pbt_fail("a request of %zu%s bytes was granted", s, kind == 2 || kind == 4 ? " times many" : "");
		verify(&S[0], S[0].usable, "after a refused request");
	}
	(void)a; drop(&S[0], 0); end_heap(); pbt_nontrivial();
}

/* ------------------------------------------------------------------------------ several threads */
enum { O_NEW, O_FREE, O_RESIZE, O_PUT, O_TAKE, O_BURST, O_CLEAR, O_YIELD, O_AGAIN, O_KINDS };
typedef struct { int kind; size_t size, align; int a, b; } top_;
#define TOPS 60
#define OWN 220
typedef struct { int n, life, fin; top_ o[TOPS]; } tprog;
static tprog P[6]; static int np;
static blk box[64]; static pthread_mutex_t boxlock = PTHREAD_MUTEX_INITIALIZER;   /* blocks on their way */
static uint32_t tid_next;
static blk made(int kind, size_t size, size_t align) {
	blk b; size_t i; memset(&b, 0, sizeof b);
	b.size = size; b.align = align;
	b.p = kind == A_MALLOC ? rp_malloc(size) : kind == A_CALLOC ? rp_calloc(1, size) : kind == A_ALIGNED ? rp_memalign(align, size) : (rpmalloc_init(), (unsigned char *)rpmalloc(size));
	if (!b.p) pbt_fail("an allocation of %zu bytes failed", size);
	if ((uintptr_t)b.p % (kind == A_ALIGNED && align > 16 ? align : 16)) pbt_fail("a block is not aligned");
	b.usable = rpmalloc_usable_size(b.p); if (b.usable < size) pbt_fail("a block of %zu bytes for %zu", b.usable, size);
	if (kind == A_CALLOC) for (i = 0; i < size; i++) if (b.p[i]) pbt_fail("calloc gave a block with byte %zu of %zu not zero", i, size);
	b.id = __sync_add_and_fetch(&tid_next, 1); fill(&b); return b;
}
static void unmade(blk *b, int how) { unsigned char *p = b->p; verify(b, b->usable, "when freed"); b->p = NULL; if (how) rp_free(p); else rpfree(p); }
static void *tmain(void *arg) {
	tprog *t = arg; blk *own = calloc(OWN, sizeof *own); int i, k, life;
	for (life = 0; life < t->life; life++) for (i = 0; i < t->n; i++) {
		top_ *o = &t->o[i];
		switch (o->kind) {
		case O_NEW: k = o->a % OWN; if (!own[k].p) own[k] = made(o->b % A_KINDS, o->size, o->align); break;
		case O_FREE: k = o->a % OWN; if (own[k].p) unmade(&own[k], o->b % 9 == 8); break;
		case O_RESIZE: k = o->a % OWN; if (own[k].p) { blk b = own[k]; verify(&b, b.usable, "before realloc"); unsigned char *p = rp_realloc(b.p, o->size); if (!p) pbt_fail("a realloc to %zu bytes failed", o->size); size_t u = rpmalloc_usable_size(p); if (u < o->size) pbt_fail("realloc to %zu gave %zu bytes", o->size, u); size_t keep = b.usable < o->size ? b.usable : o->size; b.p = p; verify_as(&b, b.usable, keep, "after realloc"); b.usable = u; b.size = o->size; fill(&b); own[k] = b; } break;
		case O_PUT: k = o->a % OWN; if (own[k].p) { blk b = own[k]; int s = o->b % 64; pthread_mutex_lock(&boxlock); blk x = box[s]; box[s] = b; pthread_mutex_unlock(&boxlock); own[k] = x; } break;
		case O_TAKE: { int s = o->b % 64; pthread_mutex_lock(&boxlock); blk x = box[s]; box[s].p = NULL; pthread_mutex_unlock(&boxlock); if (x.p) unmade(&x, 0); } break;
		case O_BURST: { int c = o->b, j; for (j = 0; j < c; j++) { k = (o->a + j) % OWN; if (own[k].p) unmade(&own[k], 0); own[k] = made(A_MALLOC, o->size, 16); }
			if (o->a % 2) for (j = 0; j < c && j < 64; j++) { k = (o->a + j) % OWN; pthread_mutex_lock(&boxlock); blk x = box[j]; box[j] = own[k]; pthread_mutex_unlock(&boxlock); own[k] = x; } } break;
		case O_CLEAR: for (k = 0; k < OWN; k++) if (own[k].p && k % (1 + o->a % 3) == 0) unmade(&own[k], 0); break;
		case O_YIELD: sched_yield(); break;
		case O_AGAIN: rpmalloc_thread_finalize(o->a % 2); rpmalloc_thread_initialize(); break;
		}
	}
	for (k = 0; k < OWN; k++) if (own[k].p) { int s = k % 64; if (t->fin % 2) { pthread_mutex_lock(&boxlock); blk x = box[s]; box[s] = own[k]; pthread_mutex_unlock(&boxlock); if (x.p) unmade(&x, 0); } else unmade(&own[k], 0); }
	free(own);
	if (t->fin / 2 == 1) rpmalloc_thread_finalize(1); else if (t->fin / 2 == 2) rpmalloc_thread_finalize(0);
	return NULL;
}
static void draw_threads(int first) {
	int i, k;
	np = (int)pbt_int(2, 5); memset(box, 0, sizeof box); tid_next = 0; memset(S, 0, sizeof S); threaded = 1; fail_in = -1;
	for (i = 0; i < np; i++) {
		P[i].n = (int)pbt_size(1, TOPS); P[i].life = 1 + (int)pbt_below(4); P[i].fin = (int)pbt_below(6);
		pbt_note("thread %d, %d times: ", i, P[i].life);
		for (k = 0; k < P[i].n; k++) {
			int w[] = { 8, 6, 3, 6, 5, 4, 2, 1, 1 }; top_ *o = &P[i].o[k];
			o->kind = pbt_weighted(w, O_KINDS); o->size = draw_size(pbt_chance(1, 20)); o->align = draw_align(); o->a = (int)pbt_below(pbt_chance(1, 2) ? 12 : OWN); o->b = (int)pbt_size(0, 200);
			if (o->kind == O_BURST && o->size > 4000) o->size = pbt_chance(1, 10) ? 60000 + o->size % 5400 : 16 + o->size % 3000;
			if (first && k == 0) o->kind = O_NEW;
			static const char *kn[] = { "new", "free", "realloc", "put", "take", "burst", "clear", "yield", "reinit" };
			pbt_note("%s(%zu, %d, %d) ", kn[o->kind], o->size, o->a, o->b);
		}
	}
}
static pthread_barrier_t gate;
static void *tgate(void *arg) { pthread_barrier_wait(&gate); return tmain(arg); }
static void run_threads(void) {
	pthread_t t[6]; int i, k, r;
	pthread_barrier_init(&gate, NULL, (unsigned)np);
	for (i = 0; i < np; i++) if ((r = pthread_create(&t[i], NULL, tgate, &P[i]))) pbt_fail("pthread_create: %d", r);
	for (i = 0; i < np; i++) pthread_join(t[i], NULL);
	for (k = 0; k < 64; k++) if (box[k].p) unmade(&box[k], 0);
	pthread_barrier_destroy(&gate);
}
static void unit_threads(void) {
	draw_threads(0); start_heap(); run_threads(); end_heap(); pbt_nontrivial();
}
/* the very first allocations of the process, by several threads at once */
static void unit_first(void) {
	draw_threads(1);
	rpmalloc_finalize();
	run_threads(); pbt_nontrivial();
	rpmalloc_finalize();
}

/* ---------------------------------------------------- memory given back is memory to use again */
#define LAPS 24
#define WINDOWS 4
#define LAP0 5
typedef struct { int n, kind, order; size_t size, align; } batch;
static batch B[4]; static int nb; static void **held; static int nheld; static size_t peak;
static void look(void) { int i; size_t n = 0; pthread_mutex_lock(&maplock); for (i = 0; i < nmaps; i++) n += maps[i].base ? maps[i].size : 0; pthread_mutex_unlock(&maplock); if (n > peak) peak = n; }
static void lap_make(void) {
	int i, j; nheld = 0;
	for (i = 0; i < nb; i++) for (j = 0; j < B[i].n; j++) {
		char *p = B[i].kind == 0 ? rp_malloc(B[i].size) : B[i].kind == 1 ? rp_memalign(B[i].align, B[i].size) : rp_realloc(rp_malloc(B[i].size / 2), B[i].size);
		if (!p) pbt_fail("an allocation of %zu bytes failed", B[i].size);
		*p = 1; held[nheld++] = p;
	}
	look();
}
static void lap_free(void) {
	int i, k = 0, n, o;
	for (i = 0; i < nb; i++) { n = B[i].n; o = B[i].order; int j; for (j = 0; j < n; j++) rpfree(held[k + (o == 0 ? j : o == 1 ? n - 1 - j : (int)((j * 7919ll) % n))]); k += n; }
	nheld = 0;
}
static volatile int enough;
static void *free_loop(void *arg) { (void)arg; for (;;) { pthread_barrier_wait(&gate); if (enough) return NULL; lap_free(); pthread_barrier_wait(&gate); } }
static void *make_once(void *arg) { lap_make(); if (!arg) lap_free(); return NULL; }
static void *free_once(void *arg) { (void)arg; lap_free(); return NULL; }
static void unit_reuse(void) {
	int mode = (int)pbt_below(5), i, l; size_t first = 0, was = 0, bytes = 0; pthread_t t;
	memset(S, 0, sizeof S); threaded = 1; fail_in = -1; nb = (int)pbt_int(1, 4);
	static const char *mn[] = { "freed by the same thread", "freed by another thread", "by threads that end, freed by the main thread", "by threads that end and free", "freed by threads that end" };
	start_heap(); pbt_note("%s: ", mn[mode]);
	for (i = 0; i < nb; i++) {
		int w[] = { 4, 4, 3, 2, 1 }; size_t s, lo[] = { 1, 500, 2000, 33000, 300000 }, hi[] = { 500, 2000, 33000, 300000, 5000000 }; int c = pbt_weighted(w, 5);
		s = lo[c] + (size_t)pbt_below(hi[c] - lo[c]);
		if (pbt_chance(1, 4)) { static const size_t edge[] = { 1024, 32256, 32768, 65408, 65536, 131072, 1048576, 2097152, 4128768 }; s = pbt_pick(edge); }
		B[i] = (batch){ (int)(s < 200 ? pbt_int(200, 6000) : 1 + (int64_t)(pbt_below(2000000) / s)), (int)pbt_below(3), (int)pbt_below(3), s, draw_align() };
		if (B[i].align > PAGE && B[i].n > 700) B[i].align = PAGE;   /* each is a mapping of its own */
		if (B[i].order == 2 && B[i].n % 7919 == 0) B[i].order = 0;
		pbt_note("%d of %zu bytes (kind %d, order %d) ", B[i].n, B[i].size, B[i].kind, B[i].order); bytes += (size_t)B[i].n * s;
	}
	for (i = 0, l = 0; i < nb; i++) l += B[i].n;
	held = malloc(sizeof *held * (size_t)l);
	pthread_barrier_init(&gate, NULL, 2);
	if (mode == 1) pthread_create(&t, NULL, free_loop, NULL);
	enough = 0; peak = 0;
	for (l = 0, i = -1; i < WINDOWS; l++) { /* it may grow now and then, but not again and again */
		switch (mode) {
		case 0: lap_make(); lap_free(); break;
		case 1: lap_make(); pthread_barrier_wait(&gate); pthread_barrier_wait(&gate); break;
		case 2: pthread_create(&t, NULL, make_once, &t); pthread_join(t, NULL); lap_free(); break;
		case 3: pthread_create(&t, NULL, make_once, NULL); pthread_join(t, NULL); break;
		default: lap_make(); pthread_create(&t, NULL, free_once, NULL); pthread_join(t, NULL); break;
		}
		look();
		if (l + 1 == (i < 0 ? LAP0 : LAPS)) {
			if (i >= 0 && peak <= was + was / 4 + (2 << 20)) break;
			if (i > 0) pbt_label("grew %d times", i);
			if (i < 0) first = peak;
			was = peak; i++; l = -1;
		}
	}
	if (mode == 1) { enough = 1; pthread_barrier_wait(&gate); pthread_join(t, NULL); }
	pthread_barrier_destroy(&gate); free(held);
	if (i == WINDOWS) pbt_fail("repeating the same allocations and frees, %zu bytes, %d times, maps %zu bytes, it was %zu after %d times, and grew all the time", bytes, LAP0 + LAPS * WINDOWS, peak, first, LAP0);
	end_heap(); pbt_label("%s", mn[mode]); if (bytes > 300000) pbt_nontrivial();
}

const pbt_unit pbt_units[] = {
	{ "reuse", unit_reuse, 10, 60000, PBT_SERIAL, "more than 300000 bytes each time" },
	{ "heap", unit_heap, 50, 60000, 0, "more than five allocations, some after blocks were freed" },
	{ "refuse", unit_refuse, 50, 60000, 0, "at least one request too large" },
	{ "threads", unit_threads, 10, 60000, PBT_FLAKY | PBT_SERIAL, "two or more threads" },
	{ "first", unit_first, 20, 60000, PBT_FLAKY | PBT_SERIAL, "two or more threads" },
	{ 0 }
};
