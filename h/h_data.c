/* Arrays, strings, base64, URIs, formatting, sorting, options: pure data units.
 * Built with the address sanitizer; every input string sits inp an exactly sized block. */
#include "events_internal.h"
#include "pbt.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

/* ------------------------------------------------------------------ helpers */
#define XP 64
static void *xp[4096]; static int nxp;
static void *xkeep(void *p) { if (nxp < 4096) xp[nxp++] = p; return p; }
static void xfree_all(void) { while (nxp > 0) free(xp[--nxp]); }
static char *xdup(const char *s) { size_t n = strlen(s); char *p = malloc(n + 1); memcpy(p, s, n + 1); return xkeep(p); }
static char *xmem(const void *s, size_t n) { char *p = malloc(n ? n : 1); memcpy(p, s, n); return xkeep(p); }

/* Deferred releases pile up until the child exits: what happens at scope exit is judged
 * by h_scope.c. An escaping exception ends the child, which is a failure. */
#define SCOPED(body) do { body; xfree_all(); } while (0)

static char *genstr(int max, const char *alpha) { char b[8192]; pbt_str(b, max, alpha); return xdup(b); }
static char *genstr1(int max, const char *alpha) {
	char b[8192]; int n = (int)pbt_size(1, max), k = (int)strlen(alpha);
	for (int i = 0; i < n; i++) b[i] = alpha[pbt_below((uint64_t)k)];
	b[n] = 0; return xdup(b);
}
static const char *alphas[] = { "ab", "ab,", "a b", "abc;, ", "aA bB\t\n", "xyz0189._-/", "aab" };
static char anyalpha[256];
static const char *any_alpha(void) {
	if (pbt_chance(3, 4)) return pbt_pick(alphas);
	if (!anyalpha[0]) for (int i = 1; i < 256; i++) anyalpha[i - 1] = (char)i;
	return anyalpha;
}

/* allocator stand-in: counts live blocks */
static long live;
static void *cm(size_t n) { void *p = malloc(n); if (p) live++; return p; }
static void *cc(size_t a, size_t b) { void *p = calloc(a, b); if (p) live++; return p; }
static void *cr(void *q, size_t n) { void *p = realloc(q, n); if (p && !q) live++; return p; }
static void cf(void *p) { if (p) live--; free(p); }
static void count_allocs(void) { live = 0; events_set_allocator(cm, cr, cc, cf); }

/* ------------------------------------------------------------------ arrays */
typedef struct { array_t a; uint64_t *m; size_t n, cap; int type; bool deferred; } av;
static void mpush(av *v, uint64_t x) { if (v->n == v->cap) v->m = realloc(v->m, (v->cap = v->cap ? v->cap * 2 : 8) * 8); v->m[v->n++] = x; }

static void av_check(av *v, const char *op) {
	size_t i;
	pbt_check(is_data(v->a), "%s: is_data is false for a live array", op);
	pbt_check($size(v->a) == v->n, "%s: size %zu, expected %zu", op, $size(v->a), v->n);
	pbt_check($capacity(v->a) >= v->n, "%s: capacity %zu below size %zu", op, $capacity(v->a), v->n);
	for (i = 0; i < v->n; i++)
		pbt_check(v->a[i].max_size == v->m[i], "%s: [%zu] is %llx, expected %llx", op, i, (long long)v->a[i].max_size, (long long)v->m[i]);
	i = 0;
	foreach(x in v->a) {
		pbt_check((size_t)ix == i && x.max_size == v->m[i], "%s: foreach step %zu saw index %d value %llx", op, i, ix, (long long)x.max_size);
		i++;
	}
	pbt_check(i == v->n, "%s: foreach visited %zu of %zu", op, i, v->n);
	i = v->n;
	foreach_back(y in v->a) { i--; pbt_check((size_t)iy == i && y.max_size == v->m[i], "%s: foreach_back at %zu saw %llx", op, i, (long long)y.max_size); }
	pbt_check(i == 0, "%s: foreach_back stopped at %zu", op, i);
}

#define EXPECT_LOGIC(what, stmt) do { volatile int got__ = 0; \
	try { stmt; } catch (logic_error) { got__ = 1; } finally { } \
	pbt_check(got__, "%s on a tuple did not raise logic_error", what); } while (0)

static void arrays_body(void) {
	av v[4]; int nv = 0, i, steps = (int)pbt_size(1, 60), mutations = 0, moved = 0;
	memset(v, 0, sizeof v);
	for (i = 0; i < steps; i++) {
		static const int w[] = { 12, 30, 8, 10, 8, 10, 4, 6, 6, 3, 4, 5 };
		int op = nv == 0 ? 0 : pbt_weighted(w, 12);
		int k = nv ? (int)pbt_below((uint64_t)nv) : 0;
		av *x = &v[k];
		uint64_t e = (uint64_t)pbt_wild();
		if (op == 0 || op == 9) {
			if (nv == 4) continue;
			x = &v[nv++]; memset(x, 0, sizeof *x); x->type = DATA_ARRAY;
			int n = (int)pbt_below(9);
			if (op == 9 && pbt_chance(3, 4)) {
				int s = (int)pbt_int(-100, 100), t = s + (int)pbt_int(-5, 150);
				if (pbt_chance(1, 3)) { char *txt = genstr(90, "hello world\xe9"); x->a = range_char(txt); x->type = DATA_RANGE_CHAR;
					for (char *c = txt; *c; c++) mpush(x, (uint64_t)(uintptr_t)*c); pbt_note("range_char(%zu) ", strlen(txt)); pbt_label("range_char");
				} else if (pbt_chance(1, 2)) { int st = (int)pbt_int(1, 9); x->a = rangeing(s, t, st); x->type = DATA_RANGE;
					for (int q = s; q < t; q += st) mpush(x, (uint64_t)(int64_t)q); pbt_note("rangeing(%d,%d,%d) ", s, t, st); pbt_label("rangeing");
				} else { x->a = range(s, t); x->type = DATA_RANGE; for (int q = s; q < t; q++) mpush(x, (uint64_t)(int64_t)q); pbt_note("range(%d,%d) ", s, t); pbt_label("range"); }
				x->deferred = true;
				av_check(x, "range");
				continue;
			}
			uint64_t g[8]; for (int j = 0; j < 8; j++) g[j] = j < n ? (uint64_t)pbt_wild() : 0;
			switch (n) {
			case 0: x->a = array(); break;
			case 1: x->a = arrays(1, g[0]); break;
			case 2: x->a = arrays(2, g[0], g[1]); break;
			case 3: x->a = arrays(3, g[0], g[1], g[2]); break;
			case 4: x->a = arrays(4, g[0], g[1], g[2], g[3]); break;
			case 5: x->a = arrays(5, g[0], g[1], g[2], g[3], g[4]); break;
			case 6: x->a = arrays(6, g[0], g[1], g[2], g[3], g[4], g[5]); break;
			case 7: x->a = arrays(7, g[0], g[1], g[2], g[3], g[4], g[5], g[6]); break;
			default: x->a = arrays(8, g[0], g[1], g[2], g[3], g[4], g[5], g[6], g[7]);
			}
			for (int j = 0; j < n; j++) mpush(x, g[j]);
			pbt_note("arrays(%d) ", n);
			av_check(x, "arrays"); continue;
		}
		if (x->type == DATA_TUPLE && (op <= 6)) {
			pbt_label("tuple mutation refused");
			switch (op) {
			case 1: EXPECT_LOGIC("append", $append(x->a, e)); break;
			case 2: EXPECT_LOGIC("append item", $append_signed(x->a, e)); break;
			case 3: EXPECT_LOGIC("pop", $pop(x->a)); break;
			case 4: EXPECT_LOGIC("shift", $shift(x->a)); break;
			case 5: EXPECT_LOGIC("remove", $remove(x->a, 0)); break;
			case 6: EXPECT_LOGIC("reset", $reset(x->a)); break;
			}
			pbt_note("tuple-op%d[%d] ", op, k);
			av_check(x, "tuple refusal"); continue;
		}
		if (x->deferred && (op == 1 || op == 2 || op == 7)) continue;   /* a range's release is already scheduled at its address */
		switch (op) {
		case 1: {
			int n = pbt_chance(1, 5) ? (int)pbt_size(1, 300) : 1; array_t before = x->a;
			for (int j = 0; j < n; j++) { uint64_t y = e + (uint64_t)j; $append(x->a, y); mpush(x, y); }
			if (x->a != before) { moved++; pbt_label("array moved"); }
			if (x->n > 64) pbt_label("above the default capacity");
			pbt_note("append(%d,%d) ", k, n); mutations++; break; }
		case 2: {
			values_t u; memset(&u, 0, sizeof u); int kind = (int)pbt_below(8);
			switch (kind) {
			case 0: u.precision = (double)(int64_t)e / 3.0; $append_double(x->a, u.precision); break;
			case 1: u.max_size = e; $append_unsigned(x->a, e); break;
			case 2: u.long_long = (int64_t)e; $append_signed(x->a, e); break;
			case 3: u.char_ptr = (char *)"lit"; $append_string(x->a, "lit"); u.char_ptr = x->a[x->n].char_ptr; pbt_check(str_is(u.char_ptr, "lit"), "string item"); break;
			case 4: u.object = (void *)arrays_body; $append_func(x->a, arrays_body); break;
			case 5: $append_char(x->a, (char)e); pbt_check(x->a[x->n].schar == (signed char)e, "append_char %d stored %d", (signed char)e, x->a[x->n].schar); u = x->a[x->n]; break;
			case 6: $append_bool(x->a, (e & 1)); pbt_check(x->a[x->n].boolean == (bool)(e & 1), "append_bool stored wrongly"); u = x->a[x->n]; break;
			default: $append_short(x->a, (short)e); pbt_check(x->a[x->n].s_short == (short)e, "append_short %d stored %d", (short)e, x->a[x->n].s_short); u = x->a[x->n];
			}
			mpush(x, u.max_size); pbt_note("append_item(%d,%d) ", k, kind); mutations++; break; }
		case 3: {
			values_t r = $pop(x->a);
			uint64_t want = x->n ? x->m[x->n - 1] : 0; if (x->n) x->n--; else pbt_label("pop of empty");
			pbt_check(r.max_size == want, "pop returned %llx, expected %llx", (long long)r.max_size, (long long)want);
			pbt_note("pop(%d) ", k); mutations++; break; }
		case 4: {
			values_t r = $shift(x->a);
			uint64_t want = x->n ? x->m[0] : 0; if (x->n) { memmove(x->m, x->m + 1, (x->n - 1) * 8); x->n--; } else pbt_label("shift of empty");
			pbt_check(r.max_size == want, "shift returned %llx, expected %llx", (long long)r.max_size, (long long)want);
			pbt_note("shift(%d) ", k); mutations++; break; }
		case 5: {
			size_t at = pbt_below(x->n + 3);
			$remove(x->a, at);
			if (at < x->n) { memmove(x->m + at, x->m + at + 1, (x->n - at - 1) * 8); x->n--; } else pbt_label("remove out of range");
			pbt_note("remove(%d,%zu) ", k, at); mutations++; break; }
		case 6: $reset(x->a); x->n = 0; pbt_note("reset(%d) ", k); mutations++; break;
		case 7: { size_t c = (size_t)pbt_size(0, 400); $reserve(x->a, c); pbt_check($capacity(x->a) >= c, "reserve(%zu) left capacity %zu", c, $capacity(x->a)); pbt_note("reserve(%d,%zu) ", k, c); break; }
		case 8: {
			if (nv == 4) continue;
			av *y = &v[nv++]; memset(y, 0, sizeof *y); y->type = x->type;
			y->a = NULL; y->a = $copy(y->a, x->a);
			for (size_t j = 0; j < x->n; j++) mpush(y, x->m[j]);
			pbt_check(y->a != x->a, "copy returned its source");
			av_check(y, "copy"); pbt_note("copy(%d) ", k); pbt_label("copy"); break; }
		case 10: if (x->type == DATA_ARRAY) { tuple_t t = $tuple(x->a); pbt_check((array_t)t == x->a, "tuple moved"); x->type = DATA_TUPLE; pbt_note("tuple(%d) ", k); } break;
		case 11: if (!x->deferred) { $delete(x->a); free(x->m); *x = v[--nv]; memset(&v[nv], 0, sizeof v[nv]); pbt_note("delete(%d) ", k); x = NULL; } break;
		}
		for (int j = 0; j < nv; j++) av_check(&v[j], "after step");
	}
	pbt_check($copy(NULL, NULL) == NULL, "copy of nothing");
	pbt_check(!is_data(NULL), "is_data(NULL)");
	for (i = 0; i < nv; i++) { if (!v[i].deferred) $delete(v[i].a); free(v[i].m); }
	if (mutations >= 4) pbt_nontrivial();
}
static void u_arrays(void) { SCOPED(arrays_body()); }

/* ------------------------------------------------------------------ split / explode */
static int ref_split(const char *s, size_t n, const char *d, size_t dl, size_t *off, size_t *len, int max) {
	int k = 0; size_t i = 0, start = 0;
	while (i + dl <= n) {
		if (memcmp(s + i, d, dl) == 0) { if (k < max) { off[k] = start; len[k] = i - start; } k++; i += dl; start = i; }
		else i++;
	}
	if (k < max) { off[k] = start; len[k] = n - start; }
	return k + 1;
}
static size_t roff[9000], rlen[9000];
static void split_body(void) {
	count_allocs();
	const char *al = any_alpha();
	char *s = genstr(pbt_chance(1, 8) ? 3000 : 40, al);
	char *d = genstr1(pbt_chance(1, 2) ? 1 : 3, al);
	int cnt = -7, n, i; bool nulldelim = pbt_chance(1, 12);
	const char *dd = nulldelim ? " " : d;
	size_t sl = strlen(s);
	pbt_note_str("s", s, sl); pbt_note_str("delim", dd, strlen(dd));
	n = ref_split(s, sl, dd, strlen(dd), roff, rlen, 9000);
	if (n > 2) pbt_nontrivial();
	pbt_label(n == 1 ? "no delimiter" : n < 6 ? "few parts" : "many parts");
	int which = (int)pbt_below(3);
	if (which == 0) {
		char **r = str_split_ex(s, nulldelim ? NULL : d, pbt_chance(7, 8) ? &cnt : NULL);
		if (sl == 0) { pbt_check(r == NULL, "split of the empty string is not NULL"); return; }
		pbt_check(r != NULL, "split returned NULL");
		pbt_check(cnt == -7 || cnt == n, "split counted %d parts, expected %d", cnt, n);
		for (i = 0; i < n; i++) pbt_check(r[i] && strlen(r[i]) == rlen[i] && !memcmp(r[i], s + roff[i], rlen[i]), "part %d is \"%.60s\"", i, r[i] ? r[i] : "(null)");
		pbt_check(r[n] == NULL, "split is not NULL terminated");
		str_free(r);
		pbt_check(live == 0, "%ld blocks left after split and str_free", live);
	} else if (which == 1) {
		/* bytes, possibly with NULs inside */
		size_t bl = (size_t)pbt_size(0, 60); char b[64]; int k = (int)strlen(al);
		for (size_t j = 0; j < bl; j++) b[j] = pbt_chance(1, 6) ? 0 : al[pbt_below((uint64_t)k)];
		char *src = xmem(b, bl);
		n = ref_split(src, bl, dd, strlen(dd), roff, rlen, 9000);
		void **r = mem_split_ex(src, bl, nulldelim ? NULL : d, &cnt);
		pbt_note_str("bytes", src, bl);
		if (bl == 0) { pbt_check(r == NULL, "mem split of nothing is not NULL"); return; }
		pbt_check(r != NULL && cnt == n, "mem split counted %d parts, expected %d", cnt, n);
		for (i = 0; i < n; i++) {
			char *e = (char *)r[i];
			pbt_check(!memcmp(e, src + roff[i], rlen[i]) && e[rlen[i]] == 0, "mem part %d differs", i);
		}
		pbt_check(r[n] == NULL, "mem split is not NULL terminated");
		str_free(r);
		pbt_check(live == 0, "%ld blocks left after mem split and str_free", live);
		pbt_label("mem_split");
	} else {
		array_t r = str_explode(s, nulldelim ? NULL : d);
		pbt_label("explode");
		if (sl == 0) { pbt_check(r == NULL, "explode of the empty string is not NULL"); return; }
		pbt_check(r != NULL, "explode returned NULL");
		if (n == 1) { $delete(r); return; }   /* without a delimiter the result is not specified here */
		pbt_check((int)$size(r) == n, "explode made %zu parts, expected %d", $size(r), n);
		for (i = 0; i < n; i++) pbt_check(strlen(r[i].char_ptr) == rlen[i] && !memcmp(r[i].char_ptr, s + roff[i], rlen[i]), "explode part %d is \"%.60s\"", i, r[i].char_ptr);
		if (n > 64) pbt_label("explode above the default capacity");
		$delete(r);
	}
}
static void u_split(void) { SCOPED(split_body()); }

/* ------------------------------------------------------------------ string building */
static char *ref_swap(const char *h, const char *n, const char *s, int *hits) {
	size_t nl = strlen(n), sl = strlen(s), cap = strlen(h) * (sl + 1) + 1, j = 0; char *o = malloc(cap); *hits = 0;
	while (*h) { if (!strncmp(h, n, nl)) { memcpy(o + j, s, sl); j += sl; h += nl; ++*hits; } else o[j++] = *h++; }
	o[j] = 0; return o;
}
static void build_body(void) {
	const char *al = any_alpha(); int which = (int)pbt_below(7), i;
	if (which == 0) {
		char *h = genstr(pbt_chance(1, 8) ? 1500 : 40, al), *n = genstr1(3, al), *s = genstr(6, al); int hits;
		pbt_note_str("swap h", h, strlen(h)); pbt_note_str("needle", n, strlen(n)); pbt_note_str("with", s, strlen(s));
		char *want = ref_swap(h, n, s, &hits), *got = str_swap_ex(h, n, s);
		if (!hits) pbt_check(got == NULL, "swap without a match returned \"%.60s\"", got);
		else { pbt_check(got && !strcmp(got, want), "swap gave \"%.200s\" expected \"%.200s\"", got ? got : "(null)", want); if (hits > 1) pbt_nontrivial(); }
		pbt_check(str_swap_ex(NULL, n, s) == NULL && str_swap_ex(h, NULL, s) == NULL && str_swap_ex(h, n, NULL) == NULL, "swap accepts NULL");
		str_free(got); free(want); pbt_label("swap");
	} else if (which == 1) {
		char *p[6], want[4096] = ""; int n = (int)pbt_int(1, 6);
		for (i = 0; i < 6; i++) p[i] = genstr(30, al);
		for (i = 0; i < n; i++) strcat(want, p[i]);
		char *g = n == 1 ? str_cat_ex(1, p[0]) : n == 2 ? str_cat_ex(2, p[0], p[1]) : n == 3 ? str_cat_ex(3, p[0], p[1], p[2]) : n == 4 ? str_cat_ex(4, p[0], p[1], p[2], p[3])
			: n == 5 ? str_cat_ex(5, p[0], p[1], p[2], p[3], p[4]) : str_cat_ex(6, p[0], p[1], p[2], p[3], p[4], p[5]);
		pbt_note_str("cat", want, strlen(want));
		pbt_check(g && !strcmp(g, want), "cat gave \"%.200s\"", g ? g : "(null)");
		str_free(g); if (n > 1) pbt_nontrivial(); pbt_label("cat");
	} else if (which == 2) {
		/* several calls inp one process: each result stands alone */
		int calls = (int)pbt_int(1, 3);
		while (calls--) {
			int argc = (int)pbt_int(1, 8), start = (int)pbt_below((uint64_t)argc); char *argv[8], want[4096] = "", dl[2] = { 0 };
			dl[0] = " ,;"[pbt_below(3)];
			for (i = 0; i < argc; i++) argv[i] = genstr(12, al);
			for (i = start; i < argc; i++) { if (i > start) strcat(want, dl); strcat(want, argv[i]); }
			pbt_note("cat_argv start=%d ", start); pbt_note_str("want", want, strlen(want));
			char *g = str_cat_argv(argc, argv, start, dl);
			pbt_check(g && !strcmp(g, want), "cat_argv gave \"%.200s\" expected \"%.200s\"", g ? g : "(null)", want);
			if (argc - start > 1) pbt_nontrivial();
		}
		pbt_label("cat_argv");
	} else if (which == 3) {
		char *s = genstr(12, al); int n = (int)pbt_size(0, 200); size_t l = strlen(s);
		pbt_note_str("repeat", s, l); pbt_note("x%d ", n);
		char *g = str_repeat(s, n);
		pbt_check(strlen(g) == l * (size_t)n, "repeat has length %zu, expected %zu", strlen(g), l * (size_t)n);
		for (i = 0; i < n; i++) pbt_check(!memcmp(g + (size_t)i * l, s, l), "repeat differs in copy %d", i);
		if (l > 1 && n > 1) pbt_nontrivial();
		pbt_label("repeat");
		volatile int got = 0;
		try { str_repeat(s, -1 - (int)pbt_below(5)); } catch_any { got = 1; } finally { }
		pbt_check(got, "a negative repeat count did not raise");
	} else if (which == 4) {
		char *s = genstr(20, al), *p = pbt_chance(1, 6) ? NULL : genstr1(4, al); int len = (int)pbt_int(-3, 60);
		static const int ty[] = { 0, STR_PAD_LEFT, STR_PAD_RIGHT, STR_PAD_BOTH }; int t = pbt_pick(ty);
		const char *pp = p ? p : " "; size_t pl = strlen(pp), sl = strlen(s), k;
		pbt_note_str("pad", s, sl); pbt_note_str("with", pp, pl); pbt_note("len=%d type=%d ", len, t);
		char *g = str_pad(s, len, p, (str_pad_type)t);
		if (len < 0 || (size_t)len <= sl) { pbt_check(!strcmp(g, s), "pad changed a string that is long enough"); return; }
		size_t add = (size_t)len - sl, left = t == STR_PAD_LEFT ? add : t == STR_PAD_BOTH ? add / 2 : 0, right = add - left;
		pbt_check(strlen(g) == (size_t)len, "pad has length %zu", strlen(g));
		for (k = 0; k < left; k++) pbt_check(g[k] == pp[k % pl], "left pad differs at %zu", k);
		pbt_check(!memcmp(g + left, s, sl), "pad lost the text");
		for (k = 0; k < right; k++) pbt_check(g[left + sl + k] == pp[k % pl], "right pad differs at %zu", k);
		if (add > pl) pbt_nontrivial(); pbt_label("pad");
		volatile int got = 0;
		char *empty = xdup("");
		try { str_pad(s, len, empty, (str_pad_type)t); } catch_any { got = 1; } finally { }
		pbt_check(got, "an empty pad did not raise");
	} else if (which == 5) {
		char *s = genstr(40, pbt_chance(1, 2) ? " \t\na" : al); size_t l = strlen(s), a = 0, b = l;
		char want[64]; while (a < b && isspace((unsigned char)s[a])) a++; while (b > a && isspace((unsigned char)s[b - 1])) b--;
		memcpy(want, s + a, b - a); want[b - a] = 0;
		for (size_t k = 0; k < l; k++) if ((unsigned char)s[k] > 127) return;   /* classification of such bytes is locale business */
		pbt_note_str("trim", s, l);
		char *g = trim(s);
		pbt_check(!strcmp(g, want), "trim gave \"%.60s\"", g);
		if (b - a < l) pbt_nontrivial(); if (!want[0]) pbt_label("trim to nothing"); pbt_label("trim");
	} else {
		char *s = genstr(40, al); size_t l = strlen(s), k; char up[64], lo[64];
		for (k = 0; k <= l; k++) { up[k] = (char)toupper((unsigned char)s[k]); lo[k] = (char)tolower((unsigned char)s[k]); }
		pbt_note_str("dup", s, l);
		size_t at = pbt_below(l + 1), m = pbt_below(l - at + 1);
		char *d1 = str_dup(s), *d2 = str_dup_ex(s), *d3 = str_trim(s, at), *d4 = str_trim_at(s, (int)at, m);
		pbt_check(!strcmp(d1, s) && !strcmp(d2, s) && d1 != s && d2 != s, "dup differs");
		pbt_check(strlen(d3) == at && !memcmp(d3, s, at), "str_trim differs");
		pbt_check(strlen(d4) == m && !memcmp(d4, s + at, m), "str_trim_at differs");
		pbt_check(!strcmp(str_toupper(d1), up), "toupper gave \"%.60s\"", d1);
		pbt_check(!strcmp(str_tolower(d2), lo), "tolower gave \"%.60s\"", d2);
		str_free(d2);
		size_t cap = pbt_below(l + 4); char *dst = malloc(cap ? cap : 1); memset(dst, 'Z', cap ? cap : 1);
		str_lcpy(dst, s, cap);
		if (cap) { size_t w = l < cap - 1 ? l : cap - 1; pbt_check(!memcmp(dst, s, w) && dst[w] == 0, "lcpy(%zu) wrong", cap); }
		free(dst);
		if (l > 1) pbt_nontrivial(); pbt_label("dup/case/lcpy");
	}
}
static void u_build(void) { SCOPED(build_body()); }

/* ------------------------------------------------------------------ searching and comparing */
static void search_body(void) {
	const char *al = any_alpha();
	char *s = genstr(pbt_chance(1, 10) ? 900 : 30, al), *p = genstr(4, al), *q;
	size_t sl = strlen(s), pl = strlen(p), i; int want = -1, cnt = 0;
	if (sl && pbt_chance(1, 3)) { size_t at = pbt_below(sl), n = pbt_below(sl - at) + 1; char b[1024]; memcpy(b, s + at, n); b[n] = 0; p = xdup(b); pl = n; }
	pbt_note_str("text", s, sl); pbt_note_str("pattern", p, pl);
	for (i = 0; pl <= sl && i <= sl - pl; i++) if (!memcmp(s + i, p, pl)) { want = (int)i; break; }
	if (pl) for (i = 0; i + pl <= sl;) { if (!memcmp(s + i, p, pl)) { cnt++; i += pl; } else i++; }
	if (pl && want > 0) pbt_nontrivial();
	pbt_label(want < 0 ? "absent" : cnt > 1 ? "several" : "once");
	pbt_check(str_pos(s, p) == want, "str_pos is %d, expected %d", str_pos(s, p), want);
	pbt_check(str_has(s, p) == (want >= 0), "str_has disagrees");
	pbt_check(str_subcount(s, p) == cnt, "str_subcount is %d, expected %d", str_subcount(s, p), cnt);
	char *bytes = xmem(s, sl);   /* no terminator behind it */
	pbt_check(mempos((unsigned char *)bytes, sl, (unsigned char *)p, pl) == want, "mempos is %d, expected %d", mempos((unsigned char *)bytes, sl, (unsigned char *)p, pl), want);
	pbt_check(mempos_str(bytes, sl, p) == want, "mempos_str disagrees");
	pbt_check(mem_subcount(bytes, sl, p) == cnt, "mem_subcount is %d, expected %d", mem_subcount(bytes, sl, p), cnt);
	pbt_check(str_pos(NULL, p) == -1 && str_pos(s, NULL) == -1, "str_pos with NULL");
	/* match or match2 of the same length, decided position by position */
	if (pl) {
		char b[1024]; for (i = 0; i < pl; i++) b[i] = al[pbt_below(strlen(al))]; b[pl] = 0; q = xdup(b);
		if (pbt_chance(1, 2)) { for (i = 0; i < pl; i++) b[i] = (char)(isupper((unsigned char)p[i]) ? tolower((unsigned char)p[i]) : toupper((unsigned char)p[i])); q = xdup(b); }
		bool any = false; for (i = 0; pl <= sl && i <= sl - pl && !any; i++) { size_t k; for (k = 0; k < pl; k++) if (s[i + k] != p[k] && s[i + k] != q[k]) break; any = k == pl; }
		pbt_check(str_has_either(s, p, q) == any, "str_has_either is %d", !any);
	}
	/* equality */
	char b[1024]; size_t k; strcpy(b, s); int edits = (int)pbt_below(3);
	for (k = 0; k < sl; k++) if (pbt_chance(1, 3)) b[k] = (char)(isupper((unsigned char)b[k]) ? tolower((unsigned char)b[k]) : toupper((unsigned char)b[k]));
	while (edits-- && sl) b[pbt_below(sl)] = al[pbt_below(strlen(al))];
	if (sl && pbt_chance(1, 6)) b[pbt_below(sl)] = 0;
	char *t = xdup(b);
	size_t n = pbt_below(sl + 3);
	pbt_check(str_is(s, t) == !strcmp(s, t) && str_is(s, s), "str_is disagrees");
	pbt_check(str_is_case(s, t) == !strcasecmp(s, t), "str_is_case is %d for \"%.60s\"", str_is_case(s, t), t);
	pbt_check(str_case_equal(s, t, n) == (n && !strncasecmp(s, t, n)), "str_case_equal(%zu) is %d for \"%.60s\"", n, str_case_equal(s, t, n), t);
	pbt_check(!str_is(NULL, t) && !str_is_case(s, NULL) && !str_case_equal(NULL, NULL, 3), "comparison with NULL");
	pbt_check(str_is_empty(s) == (sl == 0) && str_is_empty(NULL), "str_is_empty disagrees");
}
static void u_search(void) { SCOPED(search_body()); }

/* ------------------------------------------------------------------ numbers and printf */
static void number_body(void) {
	int64_t x = pbt_wild(); char want[64], fmtd[700]; int cnt = -3;
	sprintf(want, "%lld", (long long)x);
	pbt_note("itoa %s ", want);
	char *g = str_itoa(x);
	pbt_check(!strcmp(g, want), "str_itoa(%s) is \"%.40s\"", want, g);
	if (x < 0 || x > 99) pbt_nontrivial();
	pbt_label(x < 0 ? "negative" : "positive"); if (x > INT32_MAX || x < INT32_MIN) pbt_label("beyond int");
	if (pbt_chance(1, 2)) {
		char *s = genstr(300, any_alpha());
		sprintf(fmtd, "<%s|%lld|%5.2f>", s, (long long)x, (double)(x % 1000) / 7);
		char *r = mem_printf(&cnt, "<%s|%lld|%5.2f>", s, (long long)x, (double)(x % 1000) / 7);
		pbt_check(r && !strcmp(r, fmtd) && cnt == (int)strlen(fmtd), "mem_printf gave \"%.200s\" (%d)", r ? r : "(null)", cnt);
		pbt_label("mem_printf");
	}
}
static void u_number(void) { SCOPED(number_body()); }

/* ------------------------------------------------------------------ memsort */
typedef struct { const unsigned char *lo, *hi; size_t size; int keyoff, desc; uint64_t calls; } sortarg;
static int sort_cmp(const void *a, const void *b, void *u) {
	sortarg *s = u; int32_t x, y; s->calls++;
	memcpy(&x, (const char *)a + s->keyoff, 4); memcpy(&y, (const char *)b + s->keyoff, 4);
	int r = x < y ? -1 : x > y; return s->desc ? -r : r;
}
static int cmp_bytes(const void *a, const void *b, void *u) { return memcmp(a, b, *(size_t *)u); }
static void sort_body(void) {
	size_t n = (size_t)pbt_size(0, pbt_chance(1, 30) ? 5000 : 160), sz = (size_t)pbt_pick(((int[]){ 4, 8, 12, 16, 24, 40 })), i;
	if (pbt_thorough() && pbt_chance(1, 40)) n = (size_t)pbt_int(1000, 9000);
	sortarg sa = { 0 }; sa.size = sz; sa.desc = pbt_chance(1, 3); sa.keyoff = (int)pbt_below(sz - 3);
	int64_t span = pbt_pick(((int64_t[]){ 2, 10, 1000, INT32_MAX }));
	int shape = (int)pbt_below(4);
	char *d = malloc(n * sz + 1), *o = malloc(n * sz + 1);
	uint64_t h = (uint64_t)pbt_below(1ull << 40);
	for (i = 0; i < n; i++) {
		for (size_t k = 0; k < sz; k++) { h = h * 6364136223846793005ull + 1442695040888963407ull; d[i * sz + k] = (char)(h >> 56); }
		int32_t v = (int32_t)(shape == 1 ? (int64_t)i : shape == 2 ? (int64_t)(n - i) : (int64_t)((h >> 20) % (uint64_t)span) - span / 2);
		if (shape == 3 && n > 3) v = (int32_t)(i == n - 1 - (h >> 9) % 3 ? INT32_MIN : (int64_t)i);
		memcpy(d + i * sz + sa.keyoff, &v, 4);
	}
	memcpy(o, d, n * sz);
	pbt_note("memsort n=%zu size=%zu shape=%d desc=%d ", n, sz, shape, sa.desc);
	memsort(d, n, sz, sort_cmp, &sa);
	for (i = 1; i < n; i++) pbt_check(sort_cmp(d + (i - 1) * sz, d + i * sz, &sa) <= 0, "elements %zu and %zu are out of order (n=%zu)", i - 1, i, n);
	qsort_r(o, n, sz, cmp_bytes, &sz); qsort_r(d, n, sz, cmp_bytes, &sz);
	pbt_check(!memcmp(o, d, n * sz), "memsort changed the set of elements (n=%zu size=%zu)", n, sz);
	if (n > 2) pbt_nontrivial();
	pbt_label(n < 8 ? "n<8" : n < 114 ? "n<114" : n < 602 ? "n<602" : "n>=602");
	free(d); free(o);
}
static void u_sort(void) { SCOPED(sort_body()); }

/* ------------------------------------------------------------------ base64 */
static const char B64[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
static size_t ref_enc(const unsigned char *s, size_t n, char *o) {
	size_t j = 0, i;
	for (i = 0; i < n; i += 3) {
		unsigned v = (unsigned)s[i] << 16 | (i + 1 < n ? (unsigned)s[i + 1] << 8 : 0) | (i + 2 < n ? s[i + 2] : 0);
		o[j++] = B64[v >> 18]; o[j++] = B64[v >> 12 & 63]; o[j++] = i + 1 < n ? B64[v >> 6 & 63] : '='; o[j++] = i + 2 < n ? B64[v & 63] : '=';
	}
	o[j] = 0; return j;
}
static void base64_body(void) {
	any_alpha(); if (!anyalpha[0]) for (int i = 1; i < 256; i++) anyalpha[i - 1] = (char)i;
	char *s = genstr1(pbt_chance(1, 8) ? 2000 : 50, pbt_chance(2, 3) ? anyalpha : "abc");
	size_t n = strlen(s), el = (n + 2) / 3 * 4; char *want = xkeep(malloc(el + 1)); ref_enc((unsigned char *)s, n, want);
	pbt_note_str("src", s, n);
	if (n > 1) pbt_nontrivial();
	pbt_label("n%%3=%d", (int)(n % 3));
	size_t cap = el + 5 + pbt_below(8); char *e = xkeep(malloc(cap));
	memset(e, 'Z', cap);
	char *r = str_encode64(s, e, cap);
	pbt_check(r == e && !strcmp(e, want), "encode gave \"%.80s\", expected \"%.80s\"", r ? r : "(null)", want);
	/* too small a buffer is refused, never overrun */
	size_t small = pbt_below(el + 1); char *sb = xkeep(malloc(small ? small : 1));
	pbt_check(str_encode64(s, sb, small) == NULL, "encode into %zu bytes was accepted", small);
	pbt_check(str_is_base64(want), "is_base64 refuses the encoder's output");
	size_t need = (el + 2) / 3 * 4 + 1, dc = need + pbt_below(5); char *d = xkeep(malloc(dc));
	memset(d, 'Z', dc);
	char *q = str_decode64(xdup(want), d, dc);
	pbt_check(q == d && !memcmp(d, s, n) && d[n] == 0, "decode(encode(s)) differs from s: \"%.80s\"", q ? q : "(null)");
	size_t ds = pbt_below(n + 1); char *db = xkeep(malloc(ds ? ds : 1));
	pbt_check(str_decode64(want, db, ds) == NULL, "decode into %zu bytes was accepted", ds);
	/* damaged text */
	char *bad = xdup(want); size_t at = pbt_below(el); int kind = (int)pbt_below(3);
	if (kind == 0) { unsigned char c; do c = (unsigned char)(pbt_below(255) + 1); while (c == '=' || strchr(B64, c)); bad[at] = (char)c;
		pbt_check(!str_is_base64(bad) && str_decode64(bad, d, dc) == NULL, "text with byte 0x%02x was decoded", c); pbt_label("invalid byte");
	} else if (kind == 1) { size_t cut = el - 1 - pbt_below(3); bad[cut] = 0; pbt_check(str_decode64(bad, d, dc) == NULL, "text of length %zu was decoded", cut); pbt_label("truncated");
	} else if (n >= 3) { char b3[8]; memcpy(b3, want, 4); b3[4] = 0; b3[1] = b3[2] = b3[3] = '='; pbt_check(str_decode64(b3, d, dc) == NULL, "three padding characters were accepted"); pbt_label("over-padded"); }
	pbt_check(!str_is_base64("") && !str_is_base64(NULL) && str_encode64("", e, cap) == NULL && str_decode64("", d, dc) == NULL, "empty input");
}
static void u_base64(void) { SCOPED(base64_body()); }

/* ------------------------------------------------------------------ URIs */
static void ctrl_(char *s) { for (; s && *s; s++) if (iscntrl((unsigned char)*s)) *s = '_'; }
static bool same(const char *a, const char *b) { return a == b || (a && b && !strcmp(a, b)); }
typedef struct { char *scheme, *user, *pass, *host, *path, *query, *fragment; int port; int type; } puri;
static void check_uri(uri_t *u, puri *w, const char *fn) {
	pbt_check(u != NULL, "%s refused a valid URI", fn);
	pbt_check(same(u->scheme, w->scheme), "%s: scheme \"%.60s\", expected \"%.60s\"", fn, u->scheme ? u->scheme : "(null)", w->scheme ? w->scheme : "(null)");
	pbt_check(same(u->user, w->user), "%s: user \"%.60s\"", fn, u->user ? u->user : "(null)");
	pbt_check(same(u->pass, w->pass), "%s: pass \"%.60s\"", fn, u->pass ? u->pass : "(null)");
	pbt_check(same(u->host, w->host), "%s: host \"%.60s\"", fn, u->host ? u->host : "(null)");
	pbt_check(u->port == w->port, "%s: port %d, expected %d", fn, u->port, w->port);
	pbt_check(same(u->path, w->path), "%s: path \"%.60s\", expected \"%.60s\"", fn, u->path ? u->path : "(null)", w->path ? w->path : "(null)");
	pbt_check(same(u->query, w->query), "%s: query \"%.60s\"", fn, u->query ? u->query : "(null)");
	pbt_check(same(u->fragment, w->fragment), "%s: fragment \"%.60s\"", fn, u->fragment ? u->fragment : "(null)");
	if (w->type != -99) pbt_check((int)u->type == w->type, "%s: type %d, expected %d", fn, (int)u->type, w->type);
}
static bool utouched(uri_t *u, const char *inp) { (void)u; (void)inp; return true; }
static void uri_body(void) {
	static const struct { const char *s; int type; } sch[] = { { "http", DATA_TCP }, { "tcp", DATA_TCP }, { "ws", DATA_TCP }, { "ftp", DATA_TCP }, { "https", DATA_TLS }, { "tls", DATA_TLS },
		{ "ssl", DATA_TLS }, { "wss", DATA_TLS }, { "ftps", DATA_TLS }, { "unix", DATA_PIPE }, { "udp", DATA_UDP }, { "zz+q.1-x", -99 }, { "gopher", -99 } };
	puri w; memset(&w, 0, sizeof w); char inp[2048] = "", tmp[256];
	static const char hosta[] = "abcz019-", usera[] = "abz09._-%~!$&'()*+,;=", patha[] = "abz09/._-%=&:@", querya[] = "abz09=&%/?+:@", fraga[] = "abz09=&%/?+:@#";
	int si = (int)pbt_below(13); w.scheme = xdup(sch[si].s); w.type = sch[si].type;
	strcat(inp, w.scheme); strcat(inp, "://");
	if (pbt_chance(1, 3)) {
		w.user = genstr(8, usera); strcat(inp, w.user);
		if (pbt_chance(1, 2)) { strcat(inp, ":"); w.pass = genstr(8, pbt_chance(1, 4) ? "ab:@\x01" : usera); strcat(inp, w.pass); pbt_label("password"); }
		strcat(inp, "@");
	}
	if (pbt_chance(1, 8)) { pbt_str(tmp, 6, "0123456789abcdef:"); sprintf(tmp + strlen(tmp), "::127.0.0.%d", (int)pbt_below(256)); char b[128]; sprintf(b, "[%s]", tmp); w.host = xdup(b); pbt_label("ipv6 literal"); }
	else { pbt_str(tmp, 8, hosta); char b[64]; sprintf(b, "%s.%s", tmp, "dev"); w.host = xdup(b); if (pbt_chance(1, 8)) w.host[pbt_below(strlen(w.host))] = '\x02', pbt_label("control character"); if (!strchr(w.host, '.')) w.host = xdup("x.y"); }
	strcat(inp, w.host);
	if (pbt_chance(1, 2)) { w.port = (int)pbt_pick(((int[]){ 0, 1, 7, 80, 443, 8080, 65535, 999, 10000 })); if (pbt_chance(1, 3)) w.port = (int)pbt_below(65536); sprintf(tmp, ":%d", w.port); strcat(inp, tmp); pbt_label("port"); }
	if (pbt_chance(2, 3)) { char b[64]; b[0] = '/'; pbt_str(b + 1, 30, patha); w.path = xdup(b); strcat(inp, b); }
	if (pbt_chance(1, 2)) { char *q = genstr1(20, querya); w.query = q; strcat(inp, "?"); strcat(inp, q); }
	if (pbt_chance(1, 2)) { char *q = genstr1(20, fraga); w.fragment = q; strcat(inp, "#"); strcat(inp, q); }
	char *s = xdup(inp);
	pbt_note_str("uri", s, strlen(s));
	ctrl_(w.user); ctrl_(w.pass); ctrl_(w.host);
	if ((w.user != NULL) + (w.port != 0) + (w.path != NULL) + (w.query != NULL) + (w.fragment != NULL) >= 2) pbt_nontrivial();
	check_uri(parse_uri(s), &w, "parse_uri");
	count_allocs();
	uri_t *x = parse_uri_ex(s); check_uri(x, &w, "parse_uri_ex"); uri_free(x);
	pbt_check(live == 0, "%ld blocks left after parse_uri_ex and uri_free", live);
	pbt_check(!strcmp(s, inp), "the input string was modified");
	/* malformed variants are refused by both */
	char bad[2200]; int k = (int)pbt_below(5); const char *h = w.host;
	if (h[0] == '[') h = "a.b";
	switch (k) {
	case 0: sprintf(bad, "%s://%s:%lld/x", w.scheme, h, (long long)(pbt_chance(1, 3) ? pbt_int(65536, 65540) : pbt_chance(1, 4) ? 4294967296ll + pbt_int(0, 65535) : pbt_int(65536, 9999999))); break;
	case 1: sprintf(bad, "%s://", w.scheme); break;
	case 2: sprintf(bad, "%s:///%s", strcmp(w.scheme, "file") ? w.scheme : "http", "p.q"); break;
	case 3: sprintf(bad, "%s://%s:1x23456/", w.scheme, h); break;
	default: sprintf(bad, "%s://user@:80/a.b", w.scheme);
	}
	pbt_note_str("bad", bad, strlen(bad));
	char *bs = xdup(bad);
	pbt_check(parse_uri(bs) == NULL, "parse_uri accepted a malformed URI");
	count_allocs();
	pbt_check(parse_uri_ex(bs) == NULL, "parse_uri_ex accepted a malformed URI");
	pbt_check(live == 0, "%ld blocks left after parse_uri_ex refused the text", live);
}
static void u_uri(void) { SCOPED(uri_body()); }

/* any text: both parsers agree, every component is a piece of the input */
static bool piece(const char *c, const char *inp) {
	if (!c) return true;
	char t[4100]; strcpy(t, inp); ctrl_(t); return strstr(t, c) != NULL;
}
static void uri_any_body(void) {
	char inp[1024] = ""; int i, n = (int)pbt_size(0, 14);
	static const char *start[] = { "http://a.b", "//x.y", "a.b:80", "z.q/", "udp://u:p@h.i", "ftp:a.b", "q:/a.b", "http://[::1.2]", "//" , "c.d:8" };
	if (pbt_chance(2, 3)) strcat(inp, pbt_pick(start));
	static const char *frag[] = { "http", "file", "udp", ":", "/", "//", "://", "?", "#", "@", "[", "]", "a.b", "localhost", "80", "65536", "99999", "123456", ".", "-", "+", " ", "\x01", "\xff", "x", "c:", "%20", "user", "::1", ":0", ":80" };
	for (i = 0; i < n; i++) strcat(inp, pbt_pick(frag));
	char *s = xdup(inp);
	pbt_note_str("uri", s, strlen(s));
	uri_t *a = parse_uri(s);
	count_allocs();
	uri_t *b = parse_uri_ex(s);
	pbt_check((a == NULL) == (b == NULL), "parse_uri and parse_uri_ex disagree on acceptance");
	pbt_check(!strcmp(s, inp), "the input string was modified");
	if (!a) { pbt_label("refused"); pbt_check(live == 0, "%ld blocks left after parse_uri_ex refused the text", live); return; }
	pbt_label("accepted");
	pbt_nontrivial();
	puri w = { a->scheme, a->user, a->pass, a->host, a->path, a->query, a->fragment, a->port, (int)a->type };
	check_uri(b, &w, "parse_uri_ex");
	pbt_check(a->host && *a->host, "accepted without a host");
	pbt_check(piece(a->scheme, s) && piece(a->user, s) && piece(a->pass, s) && piece(a->host, s) && piece(a->path, s) && piece(a->query, s) && piece(a->fragment, s), "a component is not part of the input");
	pbt_check(!a->query || !strchr(a->query, '#'), "the query contains a fragment mark");
	pbt_check(!a->path || (!strchr(a->path, '?') && !strchr(a->path, '#')), "the path contains a query or fragment mark");
	pbt_check(!strpbrk(a->host, "/?#"), "the host contains a separator");
	uri_free(b);
	pbt_check(live == 0, "%ld blocks left after uri_free", live);
}
static void u_uri_any(void) { SCOPED(uri_any_body()); }

/* ------------------------------------------------------------------ pathinfo */
static void path_body(void) {
	char p[400] = "", base[80], dir[400] = ""; int i, n = (int)pbt_below(5); bool abs = pbt_chance(1, 2);
	if (abs) strcat(dir, "/");
	for (i = 0; i < n; i++) { char c[20]; int k = pbt_str(c, 8, "abz09._-"); if (!k) strcpy(c, "q"); if (i) strcat(dir, "/"); strcat(dir, c); }
	int k = pbt_str(base, 12, "abz09_-"); if (!k) strcpy(base, "f"), k = 1;
	char ext[12] = ""; bool hasext = pbt_chance(2, 3);
	if (hasext) { pbt_str(ext, 4, "ctxh"); strcat(base, "."); strcat(base, ext); }
	if (n || abs) { strcat(p, dir); if (dir[strlen(dir) - 1] != '/') strcat(p, "/"); strcat(p, base); } else { strcpy(p, base); strcpy(dir, "."); }
	char *s = xdup(p);
	pbt_note_str("path", s, strlen(s));
	fileinfo_t *f = pathinfo(s);
	pbt_check(f && data_type(f) == DATA_FILEINFO, "no result");
	pbt_check(str_is(f->dirname, dir), "dirname \"%.100s\", expected \"%.100s\"", f->dirname ? f->dirname : "(null)", dir);
	pbt_check(str_is(f->filename, base), "filename \"%.100s\", expected \"%.100s\"", f->filename ? f->filename : "(null)", base);
	if (hasext) pbt_check(str_is(f->extension, ext), "extension \"%.20s\", expected \"%s\"", f->extension ? f->extension : "(null)", ext);
	else pbt_check(f->extension == NULL, "extension \"%.20s\" out of nothing", f->extension);
	if (n > 1) { char *lastc = strrchr(dir, '/') + 1; pbt_check(str_is(f->base, lastc), "base \"%.100s\", expected \"%s\"", f->base ? f->base : "(null)", lastc); }
	pbt_check(!strcmp(s, p), "the input string was modified");
	if (n) pbt_nontrivial();
	pbt_label(n ? "directory" : abs ? "root" : "bare name");
}
static void u_path(void) { SCOPED(path_body()); }

/* ------------------------------------------------------------------ network addresses */
#include <netdb.h>
#include <dlfcn.h>
#include <arpa/inet.h>
#include <netinet/in.h>
/* name resolution without a network: the numeric forms, and two names */
int getaddrinfo(const char *node, const char *service, const struct addrinfo *hints, struct addrinfo **res) {
	typedef int (*f)(const char *, const char *, const struct addrinfo *, struct addrinfo **); static f real;
	struct addrinfo h; if (hints) h = *hints; else memset(&h, 0, sizeof h);
	if (!real) real = (f)dlsym(RTLD_NEXT, "getaddrinfo");
	if (node && !strcmp(node, "localhost")) node = "127.0.0.1";
	else if (node && !strcmp(node, "ip6-loopback")) node = "::1";
	h.ai_flags |= AI_NUMERICHOST;
	return real(node, service, &h, res);
}
static bool dec(const char **p, int maxdigits, unsigned long maxv, unsigned long *v, bool *odd) {
	const char *s = *p; int n = 0; *v = 0;
	while (s[n] >= '0' && s[n] <= '9') { if (n < 12) *v = *v * 10 + (unsigned long)(s[n] - '0'); n++; }
	if (!n) return false;
	if (n > 1 && s[0] == '0') *odd = true;
	*p = s + n;
	return n <= maxdigits && *v <= maxv;
}
/* what the text means: 4, 6, 99 (a local socket), 0 refused, -1 no opinion */
static int addr_ref(const char *t, unsigned char ip[16], unsigned long *port) {
	const char *p = t; unsigned long v; bool odd = false; int i; char buf[128]; struct in6_addr a6;
	*port = 0; memset(ip, 0, 16);
	for (i = 0; i < 4; i++) { if (!dec(&p, 3, 255, &v, &odd)) break; ip[i] = (unsigned char)v; if (i < 3) { if (*p != '.') break; p++; } }
	if (i == 4 && *p == 0) return odd ? -1 : 4;
	if (i == 4 && *p == ':') { p++; if (dec(&p, 5, 65535, port, &odd) && !*p) return odd ? -1 : 4; return odd ? -1 : 0; }
	memset(ip, 0, 16);
	if (*t == '[') {
		const char *e = strchr(t, ']');
		if (!e || e - t - 1 > 45 || e - t < 2) return 0;
		memcpy(buf, t + 1, (size_t)(e - t - 1)); buf[e - t - 1] = 0;
		if (inet_pton(AF_INET6, buf, &a6) != 1) return 0;
		memcpy(ip, &a6, 16); p = e + 1;
		if (!*p) return 6;
		if (*p++ != ':') return 0;
		odd = false;
		if (dec(&p, 5, 65535, port, &odd) && !*p) return odd ? -1 : 6;
		return odd ? -1 : 0;
	}
	p = t; odd = false;
	if (dec(&p, 5, 65535, port, &odd) && !*p) return odd ? -1 : 4;
	*port = 0;
	if (odd) return -1;
	const char *c = strchr(t, ':');
	if (c) {
		int k = !strncmp(t, "localhost:", 10) ? 4 : !strncmp(t, "ip6-loopback:", 13) ? 6 : 0;
		/* other spellings of numbers are the resolver's business */
		if (!k) { for (p = t; p < c; p++) if (!strchr("0123456789.abcdefxABCDEFX", *p)) return 0; return -1; }
		p = c + 1; odd = false;
		if (k == 4) { ip[0] = 127; ip[3] = 1; } else ip[15] = 1;
		if (dec(&p, 5, 65535, port, &odd) && !*p) return odd ? -1 : k;
		return odd ? -1 : 0;
	}
	if (*t == 'x') return strchr("0123456789abcdefABCDEFX", t[1]) && t[1] ? 99 : 99;
	for (p = t; *p; p++) if (!strchr("0123456789.abcdefxABCDEFX", *p)) return 0;
	return *t == 0 || strchr(t, '.') ? 0 : -1;
}
static void gen_quad(char *b) { int i; for (i = 0; i < 4; i++) b += sprintf(b, "%s%d", i ? "." : "", pbt_chance(1, 12) ? 250 + (int)pbt_below(12) : (int)pbt_below(256)); }
static void gen_six(char *b) {
	static const char *some[] = { "::", "::1", "fe80::1", "2001:db8::ff00:42:8329", "1:2:3:4:5:6:7:8", "::ffff:1.2.3.4", "1::8", "12345::", "1:2:3:4:5:6:7:8:9", ":::", "1:2", "" };
	if (pbt_chance(1, 2)) { strcpy(b, pbt_pick(some)); return; }
	unsigned char a[16]; int i; for (i = 0; i < 16; i++) a[i] = pbt_chance(1, 2) ? 0 : (unsigned char)pbt_below(256);
	inet_ntop(AF_INET6, a, b, 64);
}
static long gen_port(void) { return pbt_chance(1, 6) ? (long)pbt_int(65530, 65540) : pbt_chance(1, 10) ? 4294967296l + (long)pbt_below(70000) : (long)pbt_below(65536); }
static void addr_body(void) {
	char t[2048] = "", h[700], keep[2048]; int kind = (int)pbt_below(8), i, r, fam = -7, want; unsigned char ip[16]; unsigned long port; u_saddr_t u;
	switch (kind) {
	case 0: gen_quad(t); break;
	case 1: gen_quad(h); sprintf(t, "%s:%ld", h, gen_port()); break;
	case 2: gen_six(h); sprintf(t, "[%s]", h); break;
	case 3: gen_six(h); sprintf(t, "[%s]:%ld", h, gen_port()); break;
	case 4: sprintf(t, "%ld", gen_port()); break;
	case 5: sprintf(t, "%s:%ld", pbt_chance(1, 3) ? "ip6-loopback" : pbt_chance(1, 3) ? "nobody.here" : "localhost", gen_port()); break;
	case 6: { int n = (int)pbt_size(1, 150); t[0] = 'x'; for (i = 1; i < n; i++) t[i] = "/abs.-_1"[pbt_below(8)]; t[n] = 0; } break;
	default: { static const char *f[] = { "1", "2", "255", "256", ".", ":", "[", "]", "::", "0", "65535", "65536", "4294967297", "localhost", "a", "x", "/", "127.0.0.1", ":80", "-" }; int n = (int)pbt_size(0, pbt_chance(1, 10) ? 120 : 8); for (i = 0; i < n; i++) strcat(t, pbt_pick(f)); }
	}
	if (kind < 7 && pbt_chance(1, 4)) { /* damage */
		int n = (int)strlen(t), at = n ? (int)pbt_below((uint64_t)n) : 0; static const char d[] = "0123456789.:[]ax/-";
		switch (pbt_below(4)) { case 0: if (n) memmove(t + at, t + at + 1, (size_t)(n - at)); break; case 1: memmove(t + at + 1, t + at, (size_t)(n - at + 1)); t[at] = d[pbt_below(sizeof d - 1)]; break; case 2: if (n) t[at] = d[pbt_below(sizeof d - 1)]; break; default: sprintf(t + n, "%c", d[pbt_below(sizeof d - 1)]); }
		pbt_label("damaged");
	}
	char *s = xdup(t); strcpy(keep, t);
	pbt_note_str("address", s, strlen(s));
	want = addr_ref(t, ip, &port);
	if (want == 0 && strchr(t, 0x2d)) want = -1; /* signs: not worth an opinion */
	memset(&u, 0x77, sizeof u);
	r = async_parse_addr(s, &u, &fam);
	pbt_check(!strcmp(s, keep), "async_parse_addr changed the text to '%s'", s);
	pbt_check((r != 0) == (fam != 0), "async_parse_addr returned %d with kind %d", r, fam);
	if (want == 99 && strlen(t) >= sizeof u.sun.sun_path) want = 0;
	if (want > 0) { pbt_check(fam == want, "kind is %d, not %d", fam, want); pbt_label("kind %d", want); pbt_nontrivial(); }
	if (want == 0) { pbt_check(fam == 0, "this was accepted as kind %d, port %d", fam, ntohs(u.sin.sin_port)); pbt_label("refused"); }
	if (want == 4) {
		pbt_check(u.sin.sin_family == AF_INET && !memcmp(&u.sin.sin_addr, ip, 4), "the address is %08x, not %d.%d.%d.%d", ntohl(u.sin.sin_addr.s_addr), ip[0], ip[1], ip[2], ip[3]);
		pbt_check(ntohs(u.sin.sin_port) == port, "the port is %d, not %lu", ntohs(u.sin.sin_port), port);
	}
	if (want == 6) {
		pbt_check(u.sin6.sin6_family == AF_INET6 && !memcmp(&u.sin6.sin6_addr, ip, 16), "the IPv6 address is another one");
		pbt_check(ntohs(u.sin6.sin6_port) == port, "the port is %d, not %lu", ntohs(u.sin6.sin6_port), port);
	}
	if (want == 99) pbt_check(u.sun.sun_family == AF_UNIX && !strcmp(u.sun.sun_path, t + 1), "the path is '%s'", u.sun.sun_path);
	if ((want == 4 || want == 6) && pbt_chance(1, 3)) { /* and back to text, into a buffer that may be too small */
		char text[64] = ""; size_t n; u_saddr_t v; memset(&v, 0, sizeof v);
		if (want == 4) { v.sin.sin_family = AF_INET; v.sin.sin_port = u.sin.sin_port; memcpy(&v.sin.sin_addr, ip, 4); inet_ntop(AF_INET, ip, text, sizeof text); }
		else { v.sin6.sin6_family = AF_INET6; v.sin6.sin6_port = u.sin6.sin6_port; memcpy(&v.sin6.sin6_addr, ip, 16); inet_ntop(AF_INET6, ip, text, sizeof text); }
		n = pbt_chance(1, 2) ? 64 : (size_t)pbt_int(1, (int64_t)strlen(text) + 2);
		char *dst = events_malloc(n); memset(dst, 'z', n);
		async_sockaddr_str(dst, n, &v);
		if (n > strlen(text)) pbt_check(!strcmp(dst, text), "the text of the address is '%.63s', not '%s'", dst, text);
		else pbt_check(strlen(text) >= n && memchr(dst, 0, n), "a buffer of %zu bytes has no end of text in it", n);
		events_free(dst); pbt_label("text");
	}
}
static void u_addr(void) { SCOPED(addr_body()); }

/* scheme, host and port taken apart for udp_bind(), udp_connect(), uds_bind() ... */
static void parseip_body(void) {
	static const char *schemes[] = { "", "", "udp://", "unix://", "http://", "tcp+x://" };
	char host[128], t[256], keep[256]; int kind = (int)pbt_below(5), port = -5, wport = -5, hasport = (kind < 3 || kind == 4) && pbt_chance(2, 3), autofree = (int)pbt_below(2), i, p = (int)pbt_below(65536);
	const char *sch = pbt_pick(schemes); uint32_t ip = 0x12345678, wip = 0x12345678; unsigned char a[16];
	switch (kind) {
	case 0: { int o[4]; for (i = 0; i < 4; i++) { o[i] = (int)pbt_below(256); ((unsigned char *)&wip)[i] = (unsigned char)o[i]; } sprintf(host, "%d.%d.%d.%d", o[0], o[1], o[2], o[3]); if (hasport && strlen(host) < 7) hasport = 0; } break;
	case 1: for (i = 0; i < 16; i++) a[i] = pbt_chance(1, 2) ? 0 : (unsigned char)pbt_below(256); a[15] |= 1; host[0] = '['; inet_ntop(AF_INET6, a, host + 1, 60); strcat(host, "]"); hasport = 1; break;
	case 2: { int n = 7 + (int)pbt_below(40); for (i = 0; i < n; i++) host[i] = "abcxyz-."[i ? pbt_below(8) : 0]; host[n] = 0; } break;
	case 4: { /* fewer parts: a network of class A or B, and what is left of the host */
		int n = 2 + (int)pbt_below(2), o[3]; unsigned char *w = (unsigned char *)&wip;
		o[0] = n == 2 ? (int)pbt_below(128) : (int)pbt_below(192); for (i = 1; i < n; i++) o[i] = (int)pbt_below(256);
		if (n == 2) sprintf(host, "%d.%d", o[0], o[1]); else sprintf(host, "%d.%d.%d", o[0], o[1], o[2]);
		w[0] = (unsigned char)o[0]; w[3] = (unsigned char)o[n - 1];
		w[1] = n == 3 && o[0] >= 128 ? (unsigned char)o[1] : 0; w[2] = n == 3 && o[0] < 128 ? (unsigned char)o[1] : 0;
		if (hasport && strlen(host) < 7) hasport = 0;
	} break;
	default: { int n = (int)pbt_size(1, 90); for (i = 0; i < n; i++) host[i] = "abc/.-_s"[pbt_below(8)]; host[n] = 0; if (strstr(host, "//")) host[0] = 'a'; for (i = 1; i < n; i++) if (host[i] == '/' && host[i - 1] == '/') host[i] = 's'; } break;
	}
	if (kind && strstr(host, "//")) return;
	if (hasport) { sprintf(t, "%s%s:%d", sch, host, p); wport = p; } else sprintf(t, "%s%s", sch, host);
	char *s = xdup(t); strcpy(keep, t);
	pbt_note_str("address", s, strlen(s));
	count_allocs();
	char *r = str_parseip(s, &ip, &port, autofree);
	pbt_check(!strcmp(s, keep), "the text given was changed to '%s'", s);
	pbt_check(r != NULL, "no host came back");
	pbt_check(r != s, "the text given came back, and not a copy");
	pbt_check(!strcmp(r, host), "the host is '%s', not '%s'", r, host);
	pbt_check(port == wport, "the port is %d, not %d", port, wport);
	if (kind == 0 || kind == 4) pbt_check(ip == wip, "the numeric address is %08x, not %08x", ip, wip);
	if (!autofree) { events_free(r); pbt_check(live == 0, "%ld blocks are left", live); }
	pbt_nontrivial(); pbt_label(kind == 0 ? "IPv4" : kind == 1 ? "IPv6" : kind == 2 ? "name" : kind == 4 ? "short" : "path");
}
static void u_parseip(void) { SCOPED(parseip_body()); }

/* ------------------------------------------------------------------ options */
static void opt_body(void) {
	static const char *flags[] = { "-a", "-b", "--name", "--size", "-x", "verbose" };
	int argc = (int)pbt_int(2, 9), i, k = 0; char *argv[12]; bool ordered = pbt_chance(1, 3);
	argv[k++] = xdup("prog");
	while (k < argc) {
		int w = (int)pbt_below(4); char b[64];
		if (w <= 1) strcpy(b, pbt_pick(flags)); else if (w == 2) sprintf(b, "v%d", (int)pbt_below(100)); else sprintf(b, "%s=w%d", pbt_pick(flags), (int)pbt_below(100));
		argv[k++] = xdup(b);
	}
	argv[k] = NULL;
	for (i = 0; i < argc; i++) pbt_note("%s ", argv[i]);
	getopt_message_set("usage", 1, ordered);     /* first call inp the process decides */
	getopt_arguments_set(argc, argv);
	int index = 1, calls = ordered ? (int)pbt_int(1, 5) : 3;
	while (calls--) {
		const char *f = pbt_chance(1, 8) ? NULL : pbt_pick(flags); bool single = pbt_chance(1, 2);
		int hit = -1; const char *want = NULL; char vb[64];
		for (i = index; i < argc; i++) {
			if (f == NULL) { hit = i; want = argv[i]; break; }
			if (!strcmp(argv[i], f)) { hit = i; if (single) want = argv[i]; else { if (i + 1 < argc) want = argv[i + 1]; hit = i + 1; } break; }
			size_t fl = strlen(f);
			if (single && !strncmp(argv[i], f, fl) && argv[i][fl] == '=') { hit = i; strcpy(vb, argv[i] + fl + 1); want = vb; break; }
			if (strstr("-h, --h, ?, help", argv[i])) { hit = -1; break; }
		}
		pbt_note("has(%s,%d) ", f ? f : "NULL", single);
		bool r = getopt_has(f, single);
		pbt_check(r == (hit >= 0), "getopt_has(%s,%d) is %d", f ? f : "NULL", single, r);
		if (r) {
			pbt_check(want ? str_is(getopts(), want) : getopts() == NULL, "getopts is \"%.60s\", expected \"%s\"", getopts() ? getopts() : "(null)", want ? want : "(null)");
			pbt_label(f == NULL ? "positional" : single ? "single" : "with value");
			if (ordered) index = hit + 1;
			pbt_nontrivial();
		} else pbt_label("absent");
	}
	pbt_label(ordered ? "ordered" : "unordered");
}
static void u_opt(void) { SCOPED(opt_body()); pbt_done(); }

const pbt_unit pbt_units[] = {
	{ "addr", u_addr, 200, 60000, PBT_NOAS, "an address that must be accepted" },
	{ "parseip", u_parseip, 200, 60000, PBT_NOAS, "every case" },
	{ "arrays", u_arrays, 100, 60000, PBT_NOAS, "at least four mutations in the sequence" },
	{ "split", u_split, 200, 60000, PBT_NOAS, "more than two parts" },
	{ "build", u_build, 200, 60000, PBT_NOAS, "the transformation changes the text" },
	{ "search", u_search, 200, 60000, PBT_NOAS, "the pattern occurs past position 0" },
	{ "number", u_number, 200, 60000, PBT_NOAS, "negative or more than two digits" },
	{ "sort", u_sort, 100, 60000, PBT_NOAS, "three or more elements" },
	{ "base64", u_base64, 200, 60000, PBT_NOAS, "more than one byte" },
	{ "uri", u_uri, 200, 60000, PBT_NOAS, "at least two optional components" },
	{ "uri_any", u_uri_any, 200, 60000, PBT_NOAS, "the text was accepted as a URI" },
	{ "path", u_path, 200, 60000, PBT_NOAS, "the path has a directory" },
	{ "opt", u_opt, 1, 20000, PBT_NOAS, "at least one flag was found" },
	{ 0 }
};
