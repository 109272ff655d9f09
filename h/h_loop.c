/* The event loop itself, without coroutines: descriptors, timeouts, actors and signals.
 * Random histories over one or two loops; the outside world is asked with poll(2), time is virtual. */
#include "events_internal.h"
#include "pbt.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <poll.h>
#include <semaphore.h>
#include "posix_names.h"
#include "vclock.h"

#include <sys/epoll.h>
#include <sys/syscall.h>
/* the kernel may refuse to watch another descriptor */
static int full, refusals;
int epoll_ctl(int ep, int op, int fd, struct epoll_event *ev) { if (op == EPOLL_CTL_ADD && full) { refusals++; errno = full; return -1; } return (int)syscall(SYS_epoll_ctl, ep, op, fd, ev); }
#define RW EVENTS_READWRITE
#define MAXE 48
#define MAXA 40
typedef struct {
	int fd, ch, other, sock, open;      /* the descriptor, its channel, index of the other end */
	int reg, loop, ev, cb, secs, armed, lax, arm_id, must; int64_t t0; void *arg;
	int dirty, called, expect, hup, err; void *td; int has_td;
} end_t;
typedef struct { actor_t *a; int loop, live, queued, n, sticky; int64_t when, asked; } act_t;
static end_t E_[MAXE]; static int ne;
static act_t A_[MAXA]; static int na;
static events_t *L_[2]; static int nl, mt[2], res[2]; static int64_t base_lo[2];
static int maxfd, cur = -1, depth, budget, arm_ids, W_env, W_time, W_actor, fired, calls, timeouts, in_cb_ops;
static int nsig_on[2];
static int args_[64];
static char big[65536];

static void on_event(int which, fds_t fd, int event, void *arg);
static void cb0(fds_t fd, int event, void *arg) { on_event(0, fd, event, arg); }
static void cb1(fds_t fd, int event, void *arg) { on_event(1, fd, event, arg); }
static void cb2(fds_t fd, int event, void *arg) { on_event(2, fd, event, arg); }
static events_cb cbs[] = { cb0, cb1, cb2 };

static int is_signal(int n);
static int64_t now_s(void) { return vc_ns / 1000000000ll; }
static int64_t now_us(void) { return vc_ns / 1000 * 1000; }
static end_t *by_fd(int fd) { for (int i = 0; i < ne; i++) if (E_[i].open && E_[i].fd == fd) return &E_[i]; return NULL; }
static int regs(int l) { int n = 0; for (int i = 0; i < ne; i++) n += E_[i].open && E_[i].reg && E_[i].loop == l; return n; }
static int acts(int l) { int n = 0; for (int i = 0; i < na; i++) n += A_[i].live && A_[i].loop == l; return n; }
static void touch(int ch) { for (int i = 0; i < ne; i++) if (E_[i].ch == ch) E_[i].dirty = 1; }
static const char *evs(int e) { static char b[4][40]; static int k; char *p = b[k++ & 3]; snprintf(p, 40, "%s%s%s(%d)", e & EVENTS_READ ? "R" : "", e & EVENTS_WRITE ? "W" : "", e & EVENTS_TIMEOUT ? "T" : "", e); return p; }

static int place(int fd) { /* a descriptor number drawn over the whole table */
	int lo = 20, hi = maxfd - 1, want = (int)(pbt_chance(1, 2) ? pbt_int(lo, hi) : lo + pbt_below(40)), r;
	if (want > hi) want = hi;
	r = fcntl(fd, F_DUPFD, want);
	if (r < 0 || r >= maxfd) { if (r >= 0) close(r); r = fcntl(fd, F_DUPFD, lo); }
	close(fd);
	return r;
}
static int new_chan(void) {
	static int chans; int p[2], k, slot[2], ns = 0, sock = (int)pbt_below(2);
	for (k = 0; k < MAXE && ns < 2; k++) if (k >= ne || !E_[k].open) slot[ns++] = k;
	if (ns < 2) return 0;
	if (sock ? socketpair(AF_UNIX, SOCK_STREAM | SOCK_NONBLOCK, 0, p) : pipe2(p, O_NONBLOCK)) return 0;
	for (k = 0; k < 2; k++) {
		end_t *e = &E_[slot[k]]; memset(e, 0, sizeof *e);
		e->fd = place(p[k]); e->open = e->fd >= 0; e->sock = sock; e->ch = chans; e->other = slot[1 - k]; e->dirty = 1;
		if (slot[k] >= ne) ne = slot[k] + 1;
		if (!e->open || e->fd >= maxfd) { E_[slot[0]].open = 0; e->open = 0; return 0; }
	}
	chans++;
	pbt_note("%*snew %s: fds %d, %d", depth * 2, "", sock ? "socketpair" : "pipe (read, write)", E_[slot[0]].fd, E_[slot[1]].fd);
	return 1;
}
static void arm(end_t *e, int secs) {
	e->armed = secs != 0; e->secs = secs; e->t0 = now_s(); e->arm_id = ++arm_ids; e->must = 0;
	/* a timeout longer than the loop was made for, or set after a long pause, may end up in the last slot */
	e->lax = secs + (now_s() - base_lo[e->loop]) + 2 * res[e->loop] > 127 * res[e->loop];
}
static int draw_secs(int l) {
	switch (pbt_below(6)) {
	case 0: return 0;
	case 1: return 1;
	case 2: return (int)pbt_int(1, 5);
	case 3: return mt[l];
	case 4: return pbt_chance(1, 4) ? mt[l] + (int)pbt_int(1, 300) : (int)pbt_int(1, mt[l]);
	default: return (int)pbt_int(1, mt[l]);
	}
}
static int draw_ms(void) {
	static const int ms[] = { 0, 1, 2, 5, 10, 100, 500, 999, 1000, 1001, 2000, 2147, 2148, 2500, 4294, 4295, 4296, 10000, 60000, 86400000, 2147483647 };
	return pbt_chance(2, 3) ? (int)pbt_pick(ms) : (int)pbt_size(0, 3000);
}
static void on_actor(actor_t *a, void *args);
static void do_op(void);

static end_t *pick(int want_reg) { /* an open end, registered (1), not (0), or any (-1) */
	int c[MAXE], n = 0;
	for (int i = 0; i < ne; i++) if (E_[i].open && (want_reg < 0 || E_[i].reg == want_reg)) c[n++] = i;
	return n ? &E_[c[pbt_below(n)]] : NULL;
}
static void inspect(end_t *e) {
	void *arg = NULL; int l;
	for (l = 0; l < nl; l++)
		pbt_check(events_is_registered(L_[l], e->fd) == (e->reg && e->loop == l), "events_is_registered(loop %d, fd %d) is wrong: the fd is %s", l, e->fd, e->reg ? "registered" : "not registered");
	pbt_check(events_is_registered(NULL, e->fd) == !!e->reg, "events_is_registered(NULL, fd %d) is wrong: the fd is %s", e->fd, e->reg ? "registered" : "not registered");
	if (e->reg) {
		pbt_check(events_get_event(L_[e->loop], e->fd) == (e->ev & RW), "events_get_event(fd %d) gave %s instead of %s", e->fd, evs(events_get_event(L_[e->loop], e->fd)), evs(e->ev & RW));
		pbt_check(events_get_callback(L_[e->loop], e->fd, &arg) == cbs[e->cb] && arg == e->arg, "events_get_callback(fd %d) does not give what was set", e->fd);
		pbt_check(events_loop(e->fd) == L_[e->loop], "events_loop(fd %d) is not the loop it was added to", e->fd);
	}
	if (e->has_td) pbt_check(events_get_target_data(e->fd) == e->td, "events_get_target_data(fd %d) does not give what was set", e->fd);
}
static void op_add(void) {
	end_t *e = pick(0); int l = (int)pbt_below(nl), ev, secs, cb = (int)pbt_below(3), r;
	static const int evk[] = { EVENTS_READ, EVENTS_WRITE, RW, EVENTS_READ | EVENTS_TIMEOUT, RW | EVENTS_TIMEOUT, EVENTS_TIMEOUT, EVENTS_CLOSED, EVENTS_WRITE | EVENTS_TIMEOUT };
	if (!e) return;
	ev = pbt_pick(evk); secs = pbt_chance(1, 3) ? draw_secs(l) : 0;
	e->arg = &args_[pbt_below(64)];
	pbt_note("%*sadd fd %d to loop %d for %s, timeout %d", depth * 2, "", e->fd, l, evs(ev), secs);
	full = !pbt_chance(1, 24) ? 0 : pbt_chance(1, 2) ? ENOSPC : ENOMEM; refusals = 0;
	if (full) pbt_note(", the kernel takes no more");
	r = events_add(L_[l], e->fd, ev, secs, cbs[cb], e->arg);
	full = 0;
	if (refusals) {
		pbt_label("refused by the kernel");
		pbt_check(r == -1, "events_add(fd %d) gave %d, the kernel refused", e->fd, r);
		inspect(e);
		return;
	}
	pbt_check(r == 0, "events_add(fd %d) failed: %d", e->fd, r);
	e->reg = 1; e->loop = l; e->ev = ev; e->cb = cb; e->dirty = 1; e->must = 0; arm(e, secs);
}
static void op_del(end_t *e) {
	int r;
	pbt_note("%*sdel fd %d", depth * 2, "", e->fd);
	r = events_del(e->fd);
	pbt_check(r == 0, "events_del(fd %d) failed: %d", e->fd, r);
	e->reg = 0; e->armed = 0; e->dirty = 1;
}
static void op_close(end_t *e) {
	if (e->reg) op_del(e);
	/* somebody else may have it too, a child process maybe, then it lives on */
	if (pbt_chance(1, 6) && fcntl(e->fd, F_DUPFD, maxfd + 10) >= 0) { pbt_note("%*sa duplicate of fd %d is kept", depth * 2, "", e->fd); pbt_label("a duplicate lives on"); }
	pbt_note("%*sclose fd %d", depth * 2, "", e->fd);
	close(e->fd); e->open = 0; touch(e->ch);
}
static void do_op(void) {
	int w[] = { 6, 3, 4, 2, W_time * 3, W_env * 5, W_env * 3, W_env * 2, 3, W_time * 3 + W_actor * 3 + 1, W_actor * 4, W_actor * 2, 1, 1, 2, 1 };
	end_t *e; int n, r, l; void *arg;
	if (budget-- <= 0) return;
	if (cur >= 0) in_cb_ops++;
	switch (pbt_weighted(w, 16)) {
	case 0: op_add(); break;
	case 1: if ((e = pick(1))) op_del(e); break;
	case 2:
		if ((e = pick(1))) {
			static const int evk[] = { 0, EVENTS_READ, EVENTS_WRITE, RW, EVENTS_READ | EVENTS_TIMEOUT, EVENTS_TIMEOUT, EVENTS_WRITE | EVENTS_TIMEOUT };
			n = pbt_pick(evk);
			pbt_note("%*sset event of fd %d to %s", depth * 2, "", e->fd, evs(n));
			full = pbt_chance(1, 24) ? ENOSPC : 0; refusals = 0;
			r = events_set_event(e->fd, n); full = 0;
			if (refusals) { pbt_note(", the kernel takes no more"); pbt_label("refused by the kernel"); pbt_check(r == -1, "events_set_event(fd %d) gave %d, the kernel refused", e->fd, r); inspect(e); break; }
			pbt_check(r == 0, "events_set_event(fd %d) failed: %d", e->fd, r);
			e->ev = n; e->dirty = 1;
		}
		break;
	case 3:
		if ((e = pick(1))) {
			e->cb = (int)pbt_below(3); arg = &args_[pbt_below(64)];
			if (pbt_chance(1, 2)) { events_set_callback(L_[e->loop], e->fd, cbs[e->cb], &arg); e->arg = arg; }
			else events_set_callback(L_[e->loop], e->fd, cbs[e->cb], NULL);
			pbt_note("%*sset callback of fd %d", depth * 2, "", e->fd);
		}
		break;
	case 4:
		if ((e = pick(1))) { n = draw_secs(e->loop); pbt_note("%*sset timeout of fd %d to %d", depth * 2, "", e->fd, n); events_set_timeout(e->fd, n); arm(e, n); }
		break;
	case 5:
		if ((e = pick(-1))) {
			n = pbt_chance(1, 4) ? (int)sizeof big : (int)pbt_int(1, 100); r = 0;
			do { l = (int)write(e->fd, big, n); if (l > 0) r += l; } while (l > 0 && n > 100);
			pbt_note("%*swrite to fd %d: %d%s", depth * 2, "", e->fd, r, n > 100 ? " (full)" : ""); touch(e->ch);
		}
		break;
	case 6:
		if ((e = pick(-1))) {
			static char buf[65536]; n = pbt_chance(1, 2) ? (int)sizeof buf : (int)pbt_int(1, 50); r = 0;
			do { l = (int)read(e->fd, buf, n); if (l > 0) r += l; } while (l > 0 && n > 50);
			pbt_note("%*sread from fd %d: %d", depth * 2, "", e->fd, r); touch(e->ch);
		}
		break;
	case 7:
		if ((e = pick(-1))) {
			if (e->sock && pbt_chance(1, 2)) { pbt_note("%*sshutdown fd %d", depth * 2, "", e->fd); shutdown(e->fd, SHUT_WR); touch(e->ch); }
			else op_close(e);
		}
		break;
	case 8: new_chan(); break;
	case 9: {
		static const int64_t d[] = { 1000, 1000000, 7000000, 400000000, 999999000, 1000000000, 2000000000, 3000000000ll };
		int64_t t = pbt_chance(2, 3) ? pbt_pick(d) : (int64_t)pbt_int(0, mt[0] + 5) * 1000000000ll;
		vc_ns += t; pbt_note("%*s%lld.%06lld s pass", depth * 2, "", (long long)t / 1000000000, (long long)t / 1000 % 1000000);
		break; }
	case 10:
		if (na < MAXA) {
			act_t *a = &A_[na]; memset(a, 0, sizeof *a);
			n = draw_ms(); a->loop = (int)pbt_below(nl); a->live = a->queued = 1; a->when = now_us() + (int64_t)n * 1000000;
			pbt_note("%*sactor %d on loop %d in %d ms", depth * 2, "", na, a->loop, n);
			a->a = events_actor(L_[a->loop], n, on_actor, (void *)(intptr_t)na); na++;
			pbt_check(a->a != NULL && events_actor_loop(a->a) == L_[a->loop], "events_actor() gave no usable actor");
		}
		break;
	case 11: {
		int c[MAXA], k = 0; for (int i = 0; i < na; i++) if (A_[i].live && A_[i].queued) c[k++] = i;
		if (k) {
			act_t *a = &A_[c[pbt_below(k)]]; n = draw_ms();
			pbt_note("%*sactor %d again in %d ms", depth * 2, "", (int)(a - A_), n);
			a->when = now_us() + (int64_t)n * 1000000;
			pbt_check(events_repeat_actor(a->a, n) == a->a, "events_repeat_actor() gave another actor");
		}
		break; }
	case 12:
		if ((e = pick(-1))) { e->td = &args_[pbt_below(64)]; e->has_td = 1; events_set_target_data(e->fd, e->td); }
		break;
	case 13: {
		l = (int)pbt_below(nl);
		switch (pbt_below(4)) {
		case 0: n = maxfd + (int)pbt_below(3); break;
		case 1: n = -1 - (int)pbt_below(2); break;
		case 2: n = (int)pbt_int(20, maxfd - 1); if (fcntl(n, F_GETFD) >= 0) return; break;
		default: n = -9; break;
		}
		if (n == -9) { /* what epoll refuses: an ordinary file */
			char p[300]; snprintf(p, sizeof p, "%s/f", pbt_scratch());
			int f = open(p, O_CREAT | O_RDWR, 0600); if (f < 0) return;
			if (f >= maxfd) { close(f); return; }
			r = events_add(L_[l], f, EVENTS_READ, 0, cb0, NULL);
			pbt_note("%*sadd of an ordinary file, fd %d: %d", depth * 2, "", f, r);
			pbt_check(r == -1, "events_add() of a descriptor that cannot be watched reported %d", r);
			pbt_check(!events_is_registered(NULL, f), "a descriptor whose events_add() failed counts as registered");
			close(f);
		} else {
			r = events_add(L_[l], n, EVENTS_READ, 0, cb0, NULL);
			pbt_note("%*sadd of invalid fd %d: %d", depth * 2, "", n, r);
			pbt_check(r == -1, "events_add() of invalid fd %d reported %d", n, r);
		}
		break; }
	case 14: if ((e = pick(-1))) inspect(e); break;
	case 15:
		if ((e = pick(-1))) {
			if (e->reg) {
				if (e->sock) {
					struct timeval tv; socklen_t sl = sizeof tv; n = draw_ms(); int64_t g;
					r = events_tcp_timeout(e->fd, n);
					pbt_note("%*stcp timeout of fd %d: %d ms", depth * 2, "", e->fd, n);
					for (l = 0; l < 2; l++) {
						getsockopt(e->fd, SOL_SOCKET, l ? SO_RCVTIMEO : SO_SNDTIMEO, &tv, &sl);
						g = (int64_t)tv.tv_sec * 1000 + tv.tv_usec / 1000;
						pbt_check(r == 0 && g >= n && g <= (int64_t)n + 10, "events_tcp_timeout(%d ms) returned %d and set %lld ms", n, r, (long long)g);
					}
				}
			} else if (!is_signal(e->fd)) {
				pbt_check((r = events_del(e->fd)) == -1, "events_del() of fd %d, which is not registered, reported %d", e->fd, r);
				inspect(e);
			}
		}
		break;
	}
}
static void nested(void) {
	int n = pbt_chance(1, 2) ? (int)pbt_size(0, 3) : 0;
	depth++; while (n-- > 0) do_op(); depth--;
}
static void on_event(int which, fds_t fd, int event, void *arg) {
	end_t *e = by_fd(fd); int i, x;
	calls++;
	pbt_note("%*s-> callback fd %d %s", depth * 2, "", fd, evs(event));
	pbt_check(cur >= 0, "callback of fd %d outside events_once()", fd);
	pbt_check(e && e->reg, "callback of fd %d with %s, which is not registered", fd, evs(event));
	pbt_check(e->loop == cur, "callback of fd %d of loop %d, while loop %d runs", fd, e->loop, cur);
	pbt_check(e->cb == which && e->arg == arg, "callback of fd %d: wrong function or argument", fd);
	if (event & EVENTS_TIMEOUT) {
		timeouts++;
		pbt_check(event == EVENTS_TIMEOUT, "callback of fd %d mixes a timeout with other events: %s", fd, evs(event));
		pbt_check(e->armed, "timeout of fd %d, which has none set", fd);
		pbt_check(e->lax || now_s() >= e->t0 + e->secs, "timeout of fd %d of %d s came after %lld s", fd, e->secs, (long long)(now_s() - e->t0));
		for (i = 0; i < ne; i++) {
			end_t *o = &E_[i];
			if (o != e && o->open && o->reg && o->loop == cur && o->armed && !o->lax && !e->lax)
				pbt_check(o->t0 + o->secs + res[cur] > e->t0 + e->secs, "the timeout of fd %d came before that of fd %d, due %lld s earlier", fd, o->fd, (long long)(e->t0 + e->secs - o->t0 - o->secs));
		}
		e->armed = 0; e->must = 0;
	} else {
		e->called++;
		pbt_check(e->called == 1, "callback of fd %d twice in one events_once()", fd);
		if (!e->dirty) {
			x = event & RW;
			pbt_check(e->expect || e->hup || e->err, "callback of fd %d with %s, but nothing happened there (registered for %s)", fd, evs(event), evs(e->ev));
			pbt_check((x & e->expect) == e->expect && x != 0, "callback of fd %d with %s instead of %s", fd, evs(event), evs(e->expect));
			if (!e->hup && !e->err) pbt_check(x == e->expect, "callback of fd %d with %s instead of %s", fd, evs(event), evs(e->expect));
		}
	}
	if (pbt_chance(1, 4)) { switch (pbt_below(3)) {
		case 0: op_del(e); break;
		case 1: op_close(e); break;
		case 2: x = draw_secs(e->loop); pbt_note("%*s  set timeout of fd %d to %d", depth * 2, "", fd, x); events_set_timeout(fd, x); arm(e, x); break;
	} }
	nested();
}
static void on_actor(actor_t *a, void *args) {
	int k = (int)(intptr_t)args, i, n, re = 0; act_t *t;
	pbt_note("%*s-> actor %d", depth * 2, "", k);
	pbt_check(k >= 0 && k < na && A_[k].a == a && A_[k].live && A_[k].queued, "an actor came that is not waiting");
	t = &A_[k]; fired++; t->n++;
	pbt_check(t->loop == cur && events_actor_loop(a) == L_[cur], "actor %d of loop %d came on loop %d", k, t->loop, cur);
	pbt_check(now_us() >= t->when, "actor %d came %lld us early", k, (long long)(t->when - now_us()) / 1000);
	for (i = 0; i < na; i++) if (i != k && A_[i].live && A_[i].queued && A_[i].loop == cur)
		pbt_check(A_[i].when >= t->when, "actor %d came before actor %d, due %lld us earlier", k, i, (long long)(t->when - A_[i].when) / 1000);
	t->queued = 0;
	nested();
	switch (pbt_below(4)) {
	case 0: events_clear_actor(a); break;
	case 1: break;
	default: n = draw_ms(); re = 1; pbt_note("%*s  actor %d again in %d ms", depth * 2, "", k, n);
		t->when = now_us() + (int64_t)n * 1000000; t->queued = 1; events_repeat_actor(a, n);
		if (pbt_chance(1, 6)) { n = draw_ms(); t->when = now_us() + (int64_t)n * 1000000; pbt_note("%*s  actor %d again in %d ms", depth * 2, "", k, n); events_repeat_actor(a, n); }
	}
	if (!re) t->live = 0;
	if (pbt_chance(1, 4)) nested();
}
static void begin(int l) {
	int i; struct pollfd p;
	for (i = 0; i < ne; i++) {
		end_t *e = &E_[i];
		e->dirty = e->called = e->expect = e->hup = e->err = e->must = 0;
		if (!e->open || !e->reg || e->loop != l) continue;
		if (e->ev & RW) {
			p.fd = e->fd; p.events = (e->ev & EVENTS_READ ? POLLIN : 0) | (e->ev & EVENTS_WRITE ? POLLOUT : 0); p.revents = 0;
			poll(&p, 1, 0);
			e->expect = (p.revents & POLLIN ? EVENTS_READ : 0) | (p.revents & POLLOUT ? EVENTS_WRITE : 0);
			e->hup = !!(p.revents & POLLHUP); e->err = !!(p.revents & POLLERR);
		}
		e->must = e->armed && now_s() >= e->t0 + e->secs + res[l] ? e->arm_id : 0;
	}
}
static int no_block; /* nothing here must wait forever */
static void once(int l, int wait) {
	int i, r, due = -1, before = fired; int64_t due_id = 0, start = now_s();
	begin(l);
	for (i = 0; i < na; i++) if (A_[i].live && A_[i].queued && A_[i].loop == l && A_[i].when <= now_us()) { due = i; due_id = A_[i].when; }
	pbt_note("once(loop %d, %d) at %lld.%06lld", l, wait, (long long)(vc_ns / 1000000000 - 1700000000), (long long)(vc_ns / 1000 % 1000000));
	cur = l;
	r = events_once(L_[l], wait);
	cur = -1;
	base_lo[l] = start;
	for (i = 0; i < ne; i++) {
		end_t *e = &E_[i];
		if (!e->open || !e->reg || e->loop != l) continue;
		if (!e->dirty) pbt_check(e->called || !(e->expect || e->hup || e->err), "no callback for fd %d, which is ready for %s%s%s (registered for %s)", e->fd, evs(e->expect), e->hup ? " hangup" : "", e->err ? " error" : "", evs(e->ev));
		pbt_check(!e->must || !e->armed || e->arm_id != e->must, "the timeout of fd %d of %d s did not come, %lld s after it was set", e->fd, e->secs, (long long)(now_s() - e->t0));
	}
	pbt_check(due < 0 || fired > before || A_[due].when != due_id, "no actor came, but actor %d is due", due);
	pbt_check(r == regs(l) + acts(l), "events_once() returned %d instead of %d descriptors and %d actors", r, regs(l), acts(l));
	pbt_check(events_is_running(L_[l]) == (regs(l) + acts(l) + nsig_on[l] > 0), "events_is_running() is %d with %d descriptors and %d actors", events_is_running(L_[l]), regs(l), acts(l));
}
static void setup(void) {
	signal(SIGPIPE, SIG_IGN);
	static const int mts[] = { 1, 2, 5, 6, 60, 127, 128, 129, 256, 257, 300, 1000, 4000 };
	int i; budget = 200;
	maxfd = pbt_chance(1, 2) ? 64 + (int)pbt_below(64) : 64 + (int)pbt_below(1936);
	vc_start(); vc_ns += pbt_below(1000000) * 1000;
	pbt_check(events_init(maxfd) == 0, "events_init() failed");
	nl = 1 + (int)pbt_chance(1, 3);
	for (i = 0; i < nl; i++) {
		mt[i] = pbt_pick(mts); res[i] = (mt[i] + 127) / 128;
		L_[i] = events_create(mt[i]);
		pbt_check(L_[i] != NULL, "events_create() failed"); base_lo[i] = now_s();
	}
	pbt_note("table of %d descriptors, %d loop(s), longest timeouts %d, %d", maxfd, nl, mt[0], mt[1]);
	memset(big, 'x', sizeof big);
}
static void history(void) {
	int n, k, rounds;
	setup();
	for (k = 1 + (int)pbt_below(4); k > 0; k--) new_chan();
	for (rounds = pbt_chance(1, 2) ? 1 + (int)pbt_size(0, 40) : (int)pbt_int(4, 30); rounds > 0; rounds--) {
		for (n = (int)pbt_size(0, 6); n > 0; n--) do_op();
		once((int)pbt_below(nl), pbt_chance(1, 3) ? (int)pbt_int(1, 5) : 0);
	}
	for (k = 0; k < ne; k++) if (E_[k].open) inspect(&E_[k]);
	if (calls) pbt_label("callbacks"); if (timeouts) pbt_label("timeouts"); if (fired) pbt_label("actors"); if (in_cb_ops) pbt_label("changes inside callbacks"); if (nl == 2) pbt_label("two loops");
}
static void u_fds(void) {
	W_env = 3; W_time = 1; W_actor = 0;
	history();
	if (calls - timeouts >= 3 && in_cb_ops) pbt_nontrivial();
	pbt_done();
}
static void u_time(void) {
	W_env = (int)pbt_below(2); W_time = 4; W_actor = 2;
	history();
	if (timeouts + fired >= 3) pbt_nontrivial();
	pbt_done();
}

/* ------------------------------------------------------------- signals */
static const int sigs[] = { SIGUSR1, SIGUSR2, SIGINT, SIGTERM, SIGHUP, SIGALRM, SIGCHLD, SIGWINCH, SIGQUIT, SIGIO, SIGCONT, SIGVTALRM };
#define NS ((int)(sizeof sigs / sizeof sigs[0]))
static struct { int on, loop, cb, pend, blocked, got, gone; void *arg; } G[NS];
static int is_signal(int n) { for (int i = 0; i < NS; i++) if (G[i].on && sigs[i] == n) return 1; return 0; }
static int sig_now, in_sig, sig_calls, in_sig_ops, eintr_at = -1, eintr_calls;
static pthread_t helper; static sem_t to_helper, from_helper; static volatile int helper_sig, helper_got; static __thread int is_helper; static int have_helper;
static void on_signal(int which, int sig, int ev, void *arg);
static void s0(int sig, int ev, void *arg) { on_signal(0, sig, ev, arg); }
static void s1(int sig, int ev, void *arg) { on_signal(1, sig, ev, arg); }
static sig_cb scb[] = { (sig_cb)s0, (sig_cb)s1 };
static void *helper_main(void *a) {
	is_helper = 1;
	for (;;) {
		while (sem_wait(&to_helper)) ;
		if (!helper_sig) return NULL;
		raise(sigs[helper_sig - 1]);
		sem_post(&from_helper);
	}
}
static int all_pending(void) { int i, n = 0; for (i = 0; i < NS; i++) n += G[i].pend; return n; }
static void sig_raise(int k) {
	int want = G[k].got;
	pbt_note("%*sraise %d", depth * 2, "", sigs[k]);
	if (in_sig || G[k].blocked) { G[k].pend = 1; raise(sigs[k]); pbt_check(G[k].got == want, "the callback of signal %d came while the signal is blocked", sigs[k]); return; }
	G[k].pend = 1; raise(sigs[k]);
	pbt_check(G[k].got == want + 1 || (G[k].got > want && sig_calls), "signal %d: its callback did not come", sigs[k]);
}
static void sig_settle(void) { for (int i = 0; i < NS; i++) pbt_check(!G[i].pend || G[i].blocked, "signal %d was raised, its callback did not come", sigs[i]); }
static void sig_op(void) {
	int k = (int)pbt_below(NS), l = (int)pbt_below(nl), r, i, n; sigset_t set, old;
	int w[] = { 4, 2, 5, 2, 1, 2, in_sig ? 3 : 0, in_sig ? 0 : 2, 3, in_sig ? 0 : 2 };
	if (budget-- <= 0) return;
	if (in_sig) in_sig_ops++;
	switch (pbt_weighted(w, 10)) {
	case 0:
		G[k].cb = (int)pbt_below(2); G[k].arg = &args_[pbt_below(64)];
		if (G[k].on) l = G[k].loop;
		pbt_note("%*sadd signal %d on loop %d", depth * 2, "", sigs[k], l);
		r = (int)events_add(L_[l], sigs[k], EVENTS_SIGNAL, 0, (events_cb)scb[G[k].cb], G[k].arg);
		pbt_check(r == 0, "events_add(signal %d) failed: %d", sigs[k], r);
		if (!G[k].on) nsig_on[l]++;
		G[k].on = 1; G[k].loop = l;
		break;
	case 1:
		if (G[k].on && !G[k].pend) {
			pbt_note("%*sdel signal %d", depth * 2, "", sigs[k]);
			end_t *e = by_fd(sigs[k]);
			if (e && e->reg) break; /* the number alone does not say which of both is meant */
			r = events_del(sigs[k]);
			pbt_check(r == 0, "events_del(signal %d) failed: %d", sigs[k], r);
			G[k].on = 0; nsig_on[G[k].loop]--; G[k].gone = 1;
			struct sigaction sa; sigaction(sigs[k], NULL, &sa);
			pbt_check(sa.sa_handler == SIG_DFL, "signal %d still has a handler after events_del()", sigs[k]);
		}
		break;
	case 2: if (G[k].on) sig_raise(k); break;
	case 3: /* several at once */
		if (in_sig) break;
		sigfillset(&set); sigprocmask(SIG_BLOCK, &set, &old);
		for (i = n = 0; i < NS; i++) if (G[i].on && pbt_chance(1, 2)) { pbt_note("%*sraise %d, blocked", depth * 2, "", sigs[i]); G[i].blocked = 1; sig_raise(i); n++; }
		for (i = 0; i < NS; i++) G[i].blocked = 0;
		pbt_note("%*sunblock", depth * 2, "");
		sigprocmask(SIG_SETMASK, &old, NULL);
		sig_settle();
		break;
	case 4: for (i = 0; i < NS; i++) if (G[i].on && !(by_fd(sigs[i]) && by_fd(sigs[i])->reg)) pbt_check(events_loop(sigs[i]) == L_[G[i].loop], "events_loop(signal %d) is not the loop it was added to", sigs[i]); break;
	case 5: { /* a descriptor with the number of a signal */
		end_t *e;
		if (sigs[k] < 3 || G[k].pend) break;
		if ((e = by_fd(sigs[k]))) { if (!e->reg && !G[k].on) { op_close(e); } else if (e->reg && !in_sig) { op_del(e); } else if (!e->reg && !G[k].on) op_close(e); }
		else if (ne + 2 < MAXE && fcntl(sigs[k], F_GETFD) < 0) {
			int p[2]; if (socketpair(AF_UNIX, SOCK_STREAM | SOCK_NONBLOCK, 0, p)) break;
			if (p[0] == sigs[k] || p[1] == sigs[k] || fcntl(sigs[k], F_GETFD) >= 0) { close(p[0]); close(p[1]); break; }
			dup2(p[0], sigs[k]); close(p[0]);
			e = &E_[ne]; memset(e, 0, sizeof *e); e->fd = sigs[k]; e->sock = e->open = 1; e->ch = 1000 + ne; e->other = ne + 1; e->dirty = 1;
			ne++; e = &E_[ne]; memset(e, 0, sizeof *e); e->fd = place(p[1]); e->sock = e->open = 1; e->ch = 1000 + ne - 1; e->other = ne - 1; e->dirty = 1; ne++;
			e--; pbt_note("%*snew socketpair: fds %d, %d", depth * 2, "", e->fd, e[1].fd);
			e->arg = &args_[1]; e->cb = 0; e->loop = l; e->ev = EVENTS_READ;
			pbt_check(events_add(L_[l], e->fd, EVENTS_READ, 0, cb0, e->arg) == 0, "events_add(fd %d) failed", e->fd);
			e->reg = 1;
		}
		break; }
	case 6: /* another thread gets one while this callback runs */
		if (have_helper && k != sig_now && !G[k].blocked && G[k].on && !G[k].pend) {
			pbt_note("%*ssignal %d in another thread", depth * 2, "", sigs[k]);
			helper_got = 0; helper_sig = k + 1; sem_post(&to_helper); while (sem_wait(&from_helper)) ;
			pbt_check(helper_got == k + 1, "signal %d in another thread: its callback did not come", sigs[k]);
		}
		break;
	case 7: if (G[k].on) eintr_at = k; break;
	case 8: if (!in_sig) do_op(); break;
	default: for (i = 0; i < 2 && budget > 0; i++) do_op(); break;
	}
}
static int interrupt(void) {
	int k = eintr_at; if (k < 0 || !G[k].on) return 0;
	eintr_at = -1; eintr_calls++; sig_raise(k); return 1;
}
static void on_signal(int which, int sig, int ev, void *arg) {
	int k, n; static int deep;
	for (k = 0; k < NS && sigs[k] != sig; k++) ;
	if (is_helper) { if (k + 1 == helper_sig && G[k].cb == which && G[k].arg == arg && ev == EVENTS_SIGNAL) helper_got = k + 1; return; }
	pbt_check(k < NS, "callback of signal %d, which was never raised", sig);
	pbt_note("%*s-> callback signal %d", depth * 2, "", sig);
	pbt_check(G[k].on, "callback of signal %d, which is not registered", sig);
	pbt_check(G[k].pend, "callback of signal %d, which was not raised", sig);
	pbt_check(ev == EVENTS_SIGNAL && G[k].cb == which && G[k].arg == arg, "callback of signal %d: wrong function, event or argument", sig);
	pbt_check(!in_sig, "callback of signal %d inside that of another one", sig);
	pbt_check(events_loop(sig) == L_[G[k].loop], "events_loop(signal %d) is not the loop it was added to, inside its callback", sig);
	G[k].pend = 0; G[k].got++; sig_calls++;
	in_sig = 1; depth++; G[k].gone = 0; sig_now = k;
	for (n = (int)pbt_size(0, 3); n > 0; n--) sig_op();
	if (G[k].on && !G[k].pend && !(G[k].gone && by_fd(sig) && by_fd(sig)->reg) && pbt_chance(1, 4)) {
		pbt_note("%*sdel signal %d", depth * 2, "", sig);
		pbt_check((n = events_del(sig)) == 0, "events_del(signal %d) failed in its callback: %d", sig, n);
		G[k].on = 0; nsig_on[G[k].loop]--;
	}
	in_sig = 0; depth--;
}
static void u_signals(void) {
	int n, i, rounds;
	W_env = 1; W_time = 0; W_actor = 1;
	setup();
	if (pbt_chance(1, 3)) { sem_init(&to_helper, 0, 0); sem_init(&from_helper, 0, 0); vc_threads = 1; have_helper = pthread_create(&helper, NULL, helper_main, NULL) == 0; vc_threads = 0; }
	vc_interrupt = interrupt;
	if (pbt_chance(1, 2)) new_chan();
	for (rounds = pbt_chance(1, 2) ? 1 + (int)pbt_size(0, 20) : (int)pbt_int(3, 15); rounds > 0; rounds--) {
		for (n = (int)pbt_size(0, 8); n > 0; n--) { sig_op(); sig_settle(); }
		once((int)pbt_below(nl), pbt_chance(1, 2) ? (int)pbt_int(1, 3) : 0);
		sig_settle();
	}
	pbt_check(events_got_signal == 0, "events_got_signal is %d, though every signal had its callback", (int)events_got_signal);
	if (sig_calls) pbt_label("callbacks"); if (in_sig_ops) pbt_label("changes inside callbacks"); if (eintr_calls) pbt_label("interrupted waits"); if (helper_got) pbt_label("signal in another thread");
	if (sig_calls >= 2 && in_sig_ops) pbt_nontrivial();
	pbt_done();
}

const pbt_unit pbt_units[] = {
	{ "fds", u_fds, 1, 4000, PBT_SCRATCH, "three or more descriptor callbacks, and changes made inside callbacks" },
	{ "time", u_time, 1, 4000, PBT_SCRATCH, "three or more timeouts and actors that came" },
	{ "signals", u_signals, 1, 4000, PBT_SCRATCH, "two or more signal callbacks, and changes made inside callbacks" },
	{ 0 }
};
