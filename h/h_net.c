/* Streams and datagrams between tasks: pipes, socket pairs, TCP and Unix sockets, UDP. The data
 * travels over real descriptors of the loopback, the tasks' clock is virtual. */
#include "events_internal.h"
#include "pbt.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <errno.h>
#include <dirent.h>
#include <signal.h>
#include <sys/socket.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#include "posix_names.h"
#undef unlink
#undef access
#include "vclock.h"

#define MAX(a, b) ((a) > (b) ? (a) : (b))
#define MIN(a, b) ((a) < (b) ? (a) : (b))
static const char *host_text(void) { static char b[32]; int p = (int)getpid(); sprintf(b, "127.%d.%d.%d", 1 + (p >> 14) % 250, (p >> 7) % 128, 1 + p % 128); return b; }
static int open_fds(void) {
	int n = 0; DIR *d = opendir("/proc/self/fd"); struct dirent *e;
	while ((e = readdir(d))) n += e->d_name[0] != '.';
	closedir(d);
	return n - 1;
}

/* --------------------------------------------------------------- sleepers */
static int64_t dl[400]; static int ndl;
static int64_t next_deadline(void) { int i; int64_t m = -1; for (i = 0; i < ndl; i++) if (dl[i] && (m < 0 || dl[i] < m)) m = dl[i]; return m; }
static void nap(int ms) {
	int i; for (i = 0; i < ndl && dl[i]; i++); if (i == ndl) ndl++;
	dl[i] = vc_ns + (int64_t)ms * 1000000; delay((uint32_t)ms); dl[i] = 0; vc_active();
}
enum { P_NONE, P_YIELD, P_NAP };
typedef struct { int n, pause, ms; } step;
static void draw_step(step *s, int big) {
	int w[] = { 5, 3, 1 };
	s->n = (int)(big && pbt_chance(1, 4) ? pbt_int(1, big) : pbt_size(1, big ? 3000 : 40));
	s->pause = pbt_weighted(w, 3); s->ms = (int)pbt_size(0, 50);
}
static void do_pause(const step *s) { if (s->pause == P_YIELD) yield(); else if (s->pause == P_NAP) nap(s->ms); }
static char *show_steps(const step *s, int n) {
	static char b[4][600]; static int r; char *p = b[r++ & 3], *q = p; int i;
	for (i = 0; i < n && q < p + 560; i++) { q += sprintf(q, "%s%d", i ? " " : "", s[i].n); if (s[i].pause == P_YIELD) q += sprintf(q, "y"); else if (s[i].pause) q += sprintf(q, "z%d", s[i].ms); }
	*q = 0;
	return p;
}

/* --------------------------------------------------------------- streams */
enum { K_PAIR, K_PIPE, K_TCP, K_UDS, K_KINDS };
static const char *kname[] = { "pair", "pipe", "tcp", "uds" };
#define MAXC 8
#define MAXW 3
#define MAXST 10
typedef struct { step st[MAXST]; int n; long sent; int done, err; } writer;
typedef struct { step st[MAXST]; int n; int done, how; } reader;
typedef struct {
	int nw, nr, wdone, rdone, eof, quit; long total, got, want[MAXW], have[MAXW], stop; int shut;
	writer w[MAXW]; reader r[MAXW];
} dir_t;
typedef struct {
	int kind, fd[2], started[2], closed[2], ping, listener, libclose, port, own; dir_t d[2];
	step pp[MAXST]; int npp, pround[2];
} conn;
typedef struct { int kind, port, fd, quota, acceptors, accepted, late, up, gone, with_addr; char path[32]; } listener;
static conn C_[MAXC]; static int nc;
static listener L_[3]; static int nlst;
static int tasks_left, F_addr;
static uint8_t mix(int c, int d, long pos) { uint32_t h = (uint32_t)(pos * 2654435761u) ^ (uint32_t)(c * 97 + d * 31 + 7) * 40503u; h ^= h >> 15; h *= 2246822519u; h ^= h >> 13; return (uint8_t)h; }
static uint8_t expected(int c, int d, int w, long pos) { return C_[c].d[d].nw > 1 ? (uint8_t)(w << 5 | pos % 31) : mix(c, d, pos); }
static void close_end(int c, int side) {
	conn *k = &C_[c];
	if (k->closed[side]) return;
	k->closed[side] = 1;
	if (k->libclose) os_close(k->fd[side]); else close(k->fd[side]);
}
/* the end is used up once everything is written from it and everything for it is read */
static void maybe_close(int c, int side) {
	conn *k = &C_[c]; dir_t *out = &k->d[side], *inn = &k->d[1 - side];
	if (out->wdone == out->nw && inn->rdone == inn->nr) close_end(c, side);
}
static void *write_task(param_t args) {
	int c = args[0].integer, d = args[1].integer, w = args[2].integer, i, r; conn *k = &C_[c]; dir_t *D = &k->d[d]; writer *W = &D->w[w];
	for (i = 0; i < W->n; i++) {
		int n = W->st[i].n, j; char *b = malloc((size_t)n);
		for (j = 0; j < n; j++) b[j] = (char)expected(c, d, w, W->sent + j);
		errno = 0; vc_active();
		errno = 0; r = async_write(k->fd[d], b, n);
		vc_active(); free(b);
		if (r < 0) {
			if (!D->quit) pbt_fail("connection %d (%s): writing %d bytes after %ld failed with errno %d, its reader is there", c, kname[k->kind], n, W->sent, errno);
			if (errno != EPIPE && errno != ECONNRESET) pbt_fail("connection %d: errno is %d after writing to a closed connection", c, errno);
			pbt_label("write to a closed end"); W->err = 1;
			break;
		}
		if (r != n) pbt_fail("connection %d (%s): async_write of %d bytes returned %d", c, kname[k->kind], n, r);
		W->sent += n; D->want[w] = W->sent; D->total += n;
		do_pause(&W->st[i]);
	}
	W->done = 1;
	if (++D->wdone == D->nw && !D->shut) { D->shut = 1; if (k->kind != K_PIPE && !k->closed[d]) shutdown(k->fd[d], SHUT_WR); }
	maybe_close(c, d);
	tasks_left--; vc_active();
	return casting(1);
}
static void *read_task(param_t args) {
	int c = args[0].integer, d = args[1].integer, i, r, j, w; conn *k = &C_[c]; dir_t *D = &k->d[d]; reader *R = &D->r[args[2].integer];
	for (i = 0;; i++) {
		step *s = &R->st[i % R->n]; uint8_t *b = malloc((size_t)s->n + 8);
		memset(b + s->n, 0x5a, 8);
		vc_active();
		r = R->how ? async_read2(k->fd[1 - d], b, s->n) : async_read(k->fd[1 - d], b, s->n);
		vc_active();
		if (r > s->n || memcmp(b + s->n, "ZZZZZZZZ", 8)) pbt_fail("connection %d: more bytes came than asked for", c);
		if (r < 0) pbt_fail("connection %d (%s): reading failed after %ld bytes, errno %d", c, kname[k->kind], D->got, errno);
		for (j = 0; j < r; j++) {
			w = D->nw > 1 ? b[j] >> 5 : 0;
			if (w >= D->nw || b[j] != expected(c, d, w, D->have[w])) pbt_fail("connection %d (%s), direction %d: byte %ld arrived as %d, it should be %d", c, kname[k->kind], d, D->got, b[j], expected(c, d, w, D->have[w]));
			D->have[w]++; D->got++;
		}
		free(b);
		if (r == 0) {
			D->eof = 1;
			if (D->wdone != D->nw) pbt_fail("connection %d (%s): end of the stream after %ld bytes, but the other end is still writing", c, kname[k->kind], D->got);
			if (D->got != D->total) pbt_fail("connection %d (%s): %ld bytes were written, %ld came", c, kname[k->kind], D->total, D->got);
			break;
		}
		if (D->eof) pbt_fail("connection %d: data after the end of the stream", c);
		if (D->stop >= 0 && D->got > D->stop) { D->quit = 1; break; }
		do_pause(s);
	}
	R->done = 1; D->rdone++;
	maybe_close(c, 1 - d);
	tasks_left--; vc_active();
	return 0;
}
/* one task an end, taking turns: message and answer */
static void *ping_task(param_t args) {
	int c = args[0].integer, side = args[1].integer, i; conn *k = &C_[c];
	for (i = 0; i < k->npp * 2; i++) {
		int n = k->pp[i / 2].n, j, got = 0, r; uint8_t *b = malloc((size_t)n);
		vc_active();
		if ((i & 1) == side) {
			for (j = 0; j < n; j++) b[j] = mix(c, i, j);
			if ((r = async_write(k->fd[side], b, n)) != n) pbt_fail("connection %d (%s): async_write of %d bytes returned %d, errno %d", c, kname[k->kind], n, r, errno);
		} else {
			while (got < n) {
				if ((r = async_read(k->fd[side], b + got, n - got)) <= 0 || r > n - got) pbt_fail("connection %d (%s): read returned %d within a message", c, kname[k->kind], r);
				for (j = 0; j < r; j++) if (b[got + j] != mix(c, i, got + j)) pbt_fail("connection %d (%s): byte %d of message %d arrived as %d", c, kname[k->kind], got + j, i, b[got + j]);
				got += r; vc_active();
			}
		}
		free(b);
		if ((i & 1) == side) do_pause(&k->pp[i / 2]);
	}
	k->pround[side] = 1;
	close_end(c, side);
	tasks_left--; vc_active();
	return 0;
}
static void start_end(int c, int side) {
	conn *k = &C_[c]; int i;
	k->started[side] = 1;
	if (k->ping) { tasks_left++; async_task(ping_task, 2, casting(c), casting(side)); return; }
	dir_t *out = &k->d[side], *inn = &k->d[1 - side];
	for (i = 0; i < MAX(out->nw, inn->nr); i++) {
		if (i < out->nw) { tasks_left++; async_task(write_task, 3, casting(c), casting(side), casting(i)); }
		if (i < inn->nr) { tasks_left++; async_task(read_task, 3, casting(c), casting(1 - side), casting(i)); }
	}
	if (!out->nw && !inn->nr) close_end(c, side);
}
static void small_buffers(int fd, int how) { int n = how == 1 ? 1 : 20000; if (how) { setsockopt(fd, SOL_SOCKET, SO_SNDBUF, &n, sizeof n); } }
static int bufs;

static int udp_first, udp_stays;
/* the numbers of the connections were those of datagram sockets before */
static void *datagrams_before(param_t args) {
	int i, fd[4]; char a[40];
	for (i = 0; i < udp_first; i++) { snprintf(a, sizeof a, "127.0.0.1:%d", 7900 + i); if ((fd[i] = udp_bind(a, 0)) < 0) { if (errno != EADDRINUSE) pbt_fail("udp_bind(%s) failed with errno %d", a, errno); udp_first = i; } }
	for (i = 0; i < udp_first; i++) os_close(fd[i]);
	tasks_left--;
	while (udp_stays && tasks_left) yield();
	return 0;
}
static void met(int c, int side) { /* one end of a connection is there */
	conn *k = &C_[c]; struct sockaddr_in a; socklen_t n = sizeof a; char id = (char)c;
	if (socket_is_udp(k->fd[side]) && k->listener >= 0) pbt_fail("connection %d: socket_is_udp() of its end %d is true", c, side);
	if (k->listener >= 0 && socket_is_uds(k->fd[side]) != (k->kind == K_UDS)) pbt_fail("connection %d (%s): socket_is_uds() of its end %d is wrong", c, kname[k->kind], side);
	small_buffers(k->fd[side], k->kind == K_TCP && bufs == 1 ? 2 : bufs);
	if (side == 0 && k->listener >= 0) { if (k->kind == K_TCP && !getsockname(k->fd[0], (struct sockaddr *)&a, &n)) k->own = ntohs(a.sin_port); if (async_write(k->fd[0], &id, 1) != 1) pbt_fail("connection %d: the first byte cannot be written, errno %d", c, errno); }
	if (k->kind == K_TCP && side == 1 && k->port >= 0) {
		if (getpeername(k->fd[1], (struct sockaddr *)&a, &n)) pbt_fail("connection %d: no peer", c);
		if (ntohs(a.sin_port) != k->port) pbt_fail("connection %d: async_accept() reported port %d, the client has %d", c, k->port, ntohs(a.sin_port));
		if (k->own != k->port) pbt_fail("connection %d: the client's own port is %d, async_accept() reported %d", c, k->own, k->port);
	}
	start_end(c, side);
}
static void *accept_task(param_t args) {
	listener *l = &L_[args[0].integer]; int i, q = args[1].integer, fd, port, c; char id, from[16];
	for (i = 0; i < q; i++) {
		port = -1; memset(from, 0, sizeof from);
		vc_active();
		if (l->kind == K_UDS) fd = uds_accept(l->fd, NULL); else fd = (int)async_accept(l->fd, l->with_addr ? from : NULL, &port);
		vc_active();
		if (fd < 0) pbt_fail("listener %d (%s): accepting failed with errno %d, %d of %d connections are accepted", (int)(l - L_), kname[l->kind], errno, l->accepted, l->quota);
		l->accepted++;
		if (l->with_addr && l->kind == K_TCP && strcmp(from, "127.0.0.1")) pbt_fail("async_accept() reported address '%s' for a local client", from);
		if (async_read(fd, &id, 1) != 1) pbt_fail("the first byte of an accepted connection does not come");
		c = id;
		if (c < 0 || c >= nc || C_[c].listener != l - L_ || C_[c].started[1]) pbt_fail("an accepted connection begins with %d", id);
		C_[c].fd[1] = fd; C_[c].port = port;
		met(c, 1);
	}
	if (l->accepted == l->quota) { os_close(l->fd); l->gone = 1; }
	tasks_left--;
	return 0;
}
static void *listen_task(param_t args) {
	int li = args[0].integer, i, left; listener *l = &L_[li];
	if (l->late) nap(l->late);
	if (l->kind == K_UDS) {
		char a[64]; snprintf(a, sizeof a, li & 1 ? "%s" : "unix://%s", l->path);
		l->fd = uds_bind(a, 16);
	} else l->fd = (int)async_bind((char *)host_text(), l->port, 16, 1);
	if (l->fd < 0) pbt_fail("listening on %s:%d failed with errno %d", l->kind == K_UDS ? l->path : host_text(), l->port, errno);
	l->up = 1; left = l->quota;
	for (i = 0; i < l->acceptors; i++) {
		int q = i == l->acceptors - 1 ? left : left / (l->acceptors - i);
		left -= q; tasks_left++; async_task(accept_task, 2, casting(li), casting(q));
	}
	tasks_left--;
	while (l->kind == K_UDS && !l->gone) yield(); /* its file lives as long as this task */
	return 0;
}
static int connect_to(listener *l) {
	char a[64];
	if (l->kind == K_UDS) { snprintf(a, sizeof a, "unix://%s", l->path); return uds_connect(a); }
	return (int)async_connect((char *)host_text(), l->port, 1);
}
static void *client_task(param_t args) {
	int c = args[0].integer, early = args[1].integer, fd; conn *k = &C_[c]; listener *l = &L_[k->listener];
	if (early && !l->up) {
		vc_active(); errno = 0;
		fd = connect_to(l);
		vc_active();
		if (fd >= 0 && !l->up) pbt_fail("connecting to %s succeeded, nobody listens", l->kind == K_UDS ? l->path : host_text());
		if (fd < 0) {
			if (!l->up && errno != (l->kind == K_UDS ? ENOENT : ECONNREFUSED)) pbt_fail("connecting to nobody (%s) failed with errno %d", kname[k->kind], errno);
			pbt_label("refused connection");
		} else { k->fd[0] = fd; met(c, 0); tasks_left--; return 0; }
	}
	while (!l->up) yield();
	vc_active(); errno = 0;
	k->fd[0] = fd = connect_to(l);
	vc_active();
	if (fd < 0) pbt_fail("connecting to %s:%d failed with errno %d, it listens", l->kind == K_UDS ? l->path : host_text(), l->port, errno);
	met(c, 0);
	tasks_left--;
	return 0;
}
static void draw_conn(int i) {
	conn *k = &C_[i]; int d, w, j; memset(k, 0, sizeof *k);
	static const int kw[] = { 4, 3, 3, 3 };
	k->kind = pbt_weighted(kw, 4); k->listener = -1; k->port = -1; k->libclose = !pbt_chance(1, 4); k->fd[0] = k->fd[1] = -1;
	k->ping = k->kind != K_PIPE && pbt_chance(1, 5);
	int mb = pbt_chance(1, 6) ? 200000 : pbt_chance(1, 2) ? 20000 : 0;
	pbt_note("%s ", kname[k->kind]);
	if (k->ping) {
		k->npp = 1 + (int)pbt_size(0, MAXST - 1);
		for (j = 0; j < k->npp; j++) draw_step(&k->pp[j], mb);
		pbt_note("ping(%s); ", show_steps(k->pp, k->npp));
	} else {
		int both = k->kind != K_PIPE && !pbt_chance(1, 3);
		for (d = 0; d < 2; d++) {
			dir_t *D = &k->d[d]; D->stop = -1;
			if (d && !both) continue;
			D->nw = 1 + (pbt_chance(1, 4) ? (int)pbt_below(MAXW) : 0);
			D->nr = 1 + (pbt_chance(1, 4) ? (int)pbt_below(MAXW) : 0);
			for (w = 0; w < D->nw; w++) { D->w[w].n = (int)pbt_size(0, MAXST); for (j = 0; j < D->w[w].n; j++) draw_step(&D->w[w].st[j], mb); }
			for (w = 0; w < D->nr; w++) { D->r[w].n = 1 + (int)pbt_size(0, 4); D->r[w].how = pbt_chance(1, 4); for (j = 0; j < D->r[w].n; j++) { draw_step(&D->r[w].st[j], mb); if (mb && D->r[w].st[j].n < 200) D->r[w].st[j].n += 1500; } }
			if (!both && D->nr == 1 && pbt_chance(1, 4)) D->stop = pbt_size(0, 20000);
			if (k->kind == K_PIPE && D->nw == 0) D->nw = 1;
			pbt_note("%s[", d ? "<-" : "->");
			for (w = 0; w < D->nw; w++) pbt_note(" w(%s)", show_steps(D->w[w].st, D->w[w].n));
			for (w = 0; w < D->nr; w++) pbt_note(" %s(%s)", D->r[w].how ? "read2" : "read", show_steps(D->r[w].st, D->r[w].n));
			if (D->stop >= 0) pbt_note(" reader leaves after %ld", D->stop);
			pbt_note(" ] ");
		}
	}
	if (k->kind == K_TCP || k->kind == K_UDS) {
		int n = k->kind == K_TCP ? 0 : 1 + (int)pbt_below(2), early = pbt_chance(1, 6); listener *l = &L_[n];
		k->listener = n; l->kind = k->kind; l->quota++;
		pbt_note("%s%s; ", n == 2 ? "second listener" : "", early ? " connects early" : "");
		k->port = early ? -2 : -1;
	}
}
static void u_stream(void) {
	int i, early[MAXC], before, after, dirs = 0;
	sigset_t pipes; sigemptyset(&pipes); sigaddset(&pipes, SIGPIPE); sigprocmask(SIG_BLOCK, &pipes, NULL); /* the library would turn it into an exception */
	if (chdir(pbt_scratch())) pbt_fail("scratch");
	memset(L_, 0, sizeof L_);
	vc_threads = F_addr;
	bufs = (int)pbt_below(3); udp_first = pbt_chance(1, 4) ? 1 + (int)pbt_below(4) : 0; udp_stays = pbt_chance(1, 3);
	nc = 1 + (int)pbt_size(0, 5);
	static const int maxes[] = { 48, 128, 1024 };
	int mx = (int)pbt_pick(maxes);
	pbt_note("%d descriptors, buffers %d: ", mx, bufs);
	for (i = 0; i < nc; i++) { draw_conn(i); early[i] = C_[i].port == -2; C_[i].port = -1; dirs += C_[i].ping ? 2 : (C_[i].d[0].nw > 0) + (C_[i].d[1].nw > 0); pbt_label("%s", kname[C_[i].kind]); if (C_[i].d[0].nw > 1 || C_[i].d[1].nw > 1) pbt_label("several writers"); if (C_[i].d[1].nw) pbt_label("full duplex"); }
	for (i = 0; i < 3; i++) if (L_[i].quota) { L_[i].acceptors = 1 + (int)pbt_below((uint64_t)MIN(L_[i].quota, 3)); L_[i].late = pbt_chance(1, 3) ? (int)pbt_size(1, 30) : 0; L_[i].port = 7000 + i; sprintf(L_[i].path, "s%d.sock", i); L_[i].with_addr = F_addr; pbt_note("[%d acceptors after %d ms] ", L_[i].acceptors, L_[i].late); }
	if (dirs > 1) pbt_nontrivial();
	events_init(mx);
	events_t *loop = events_create(60);
	before = open_fds();
	vc_start(); vc_next = next_deadline; vc_nap = 1000;
	for (i = 0; i < nc; i++) if (C_[i].listener < 0) {
		conn *k = &C_[i];
		if (k->kind == K_PIPE) { int p[2]; if (pipe2(p, O_NONBLOCK)) pbt_fail("pipe"); k->fd[0] = p[1]; k->fd[1] = p[0]; if (bufs) fcntl(p[0], F_SETPIPE_SZ, bufs == 1 ? 4096 : 16384); }
		else { if (socketpair(AF_UNIX, SOCK_STREAM | SOCK_NONBLOCK, 0, k->fd)) pbt_fail("socketpair"); small_buffers(k->fd[0], bufs); small_buffers(k->fd[1], bufs); }
	}
	if (udp_first) { pbt_note("%d datagram sockets before ", udp_first); tasks_left++; async_task(datagrams_before, 0); }
	for (i = 0; i < nc; i++) {
		if (C_[i].listener >= 0) { tasks_left++; async_task(client_task, 2, casting(i), casting(early[i])); }
		else { start_end(i, 0); start_end(i, 1); }
	}
	for (i = 0; i < 3; i++) if (L_[i].quota) { tasks_left++; async_task(listen_task, 1, casting(i)); }
	async_run(loop);
	if (tasks_left) pbt_fail("the run ended with %d tasks unfinished", tasks_left);
	for (i = 0; i < nc; i++) {
		conn *k = &C_[i]; int d;
		if (k->ping) { if (!k->pround[0] || !k->pround[1]) pbt_fail("connection %d did not finish", i); continue; }
		for (d = 0; d < 2; d++) if (k->d[d].wdone != k->d[d].nw || k->d[d].rdone != k->d[d].nr) pbt_fail("connection %d: the run ended, but direction %d is not finished", i, d);
	}
	for (i = 1; i < 3; i++) if (L_[i].quota && !access(L_[i].path, F_OK)) pbt_fail("the file of a Unix socket is still there");
	after = open_fds();
	if (after > before) pbt_fail("%d descriptors are left open", after - before);
	pbt_done();
}

/* --------------------------------------------------------------- datagrams */
#define MAXP 6
#define MAXD 24
enum { M_RECV, M_HANDLER, M_PLAIN };
typedef struct { int to, len, ask; step p; } dgram;
typedef struct {
	int fd, port, mode, connected, nsend, expect, got, buflen, v6, nothing, two; char ip[64];
	dgram s[MAXD]; step r[4]; int nr;
	int seq_in[MAXP], seq_out[MAXP], reply_in[MAXP][MAXD * MAXP], nreply_in, senders, done;
} part;
static part U_[MAXP]; static int nu, F_threads;
typedef struct { uint8_t from, to, kind, pad; uint16_t seq; uint32_t len; } head;
enum { G_TELL, G_ASK, G_ANSWER };
static uint8_t ubyte(const head *h, int i) { return (uint8_t)(mix(h->from * 8 + h->to, h->kind, i) + h->seq * 3); }
static int ufill(uint8_t *b, int from, int to, int kind, int seq, int len) {
	head h = { (uint8_t)from, (uint8_t)to, (uint8_t)kind, 0, (uint16_t)seq, (uint32_t)len }; int i;
	if (len < (int)sizeof h) return 0;
	memcpy(b, &h, sizeof h);
	for (i = (int)sizeof h; i < len; i++) b[i] = ubyte(&h, i);
	return len;
}
static void ucheck(int me, const uint8_t *b, int n, int cut, head *out) {
	head h; int i; part *m = &U_[me];
	if (n < (int)sizeof h) pbt_fail("participant %d: a datagram of %d bytes came, all are longer", me, n);
	memcpy(&h, b, sizeof h); *out = h;
	if (h.to != me || h.from >= nu) pbt_fail("participant %d received a datagram from %d to %d", me, h.from, h.to);
	if (n != (cut && (int)h.len > cut ? cut : (int)h.len)) pbt_fail("participant %d: a datagram of %u bytes from %d arrived with %d", me, h.len, h.from, n);
	for (i = (int)sizeof h; i < n; i++) if (b[i] != ubyte(&h, i)) pbt_fail("participant %d: byte %d of datagram %d from %d is wrong", me, i, h.seq, h.from);
	if (h.kind == G_ANSWER) {
		if (m->reply_in[h.from][h.seq]++) pbt_fail("participant %d got the answer to its datagram %d twice", me, h.seq);
	} else {
		if (h.seq != m->seq_in[h.from]) pbt_fail("participant %d expected datagram %d from %d, %d came", me, m->seq_in[h.from], h.from, h.seq);
		m->seq_in[h.from]++;
	}
	if (++m->got > m->expect) pbt_fail("participant %d got more datagrams than were sent", me);
}
static void from_check(int me, udp_t c, const head *h) {
	part *f = &U_[h->from]; char *ip;
	if (!F_threads) return;
	ip = udp_ip(c); vc_active();
	if (strcmp(ip, f->connected ? (f->v6 ? "::1" : "127.0.0.1") : f->ip)) pbt_fail("participant %d: udp_ip() of a datagram from %s is '%s'", me, f->ip, ip);
}
static void uanswer(int me, udp_t c, const head *h) {
	uint8_t *b = malloc(h->len); int n = ufill(b, me, h->from, G_ANSWER, h->seq, (int)h->len), r;
	if ((r = udp_send(c, b, n)) != n) pbt_fail("udp_send of %d bytes returned %d, errno %d", n, r, errno);
	free(b); vc_active();
}
static int empty(int me, udp_t c) {
	part *m = &U_[me];
	if (udp_length(c) != 0) return 0;
	if (!m->nothing) pbt_fail("participant %d: an empty datagram came, nobody sent one", me);
	m->nothing--; m->got++; pbt_label("empty datagram");
	if (udp_message(c) == NULL) pbt_fail("an empty datagram has no message");
	return 1;
}
static void uhandle(udp_t c) {
	head h; int me; char *t;
	for (me = 0; me < nu && U_[me].fd != c->socket; me++);
	if (me == nu) pbt_fail("the handler got a datagram of nobody");
	vc_active();
	if (empty(me, c)) { tasks_left--; return; }
	t = udp_message(c);
	ucheck(me, (uint8_t *)t, (int)udp_length(c), 0, &h);
	from_check(me, c, &h);
	do_pause(&U_[me].r[h.seq % U_[me].nr]);
	if (h.kind == G_ASK) uanswer(me, c, &h);
	tasks_left--; vc_active();
}
static void *urecv_task(param_t args) {
	int me = args[0].integer, k = 0; part *m = &U_[me]; head h;
	/* several receivers may share the socket: each takes its part */
	int quota = args[1].integer;
	while (quota-- > 0) {
		vc_active();
		if (m->mode == M_PLAIN) {
			uint8_t *b = malloc((size_t)m->buflen + 4); memset(b + m->buflen, 0x5a, 4);
			int n = async_recvfrom(m->fd, b, m->buflen, 0);
			vc_active();
			if (n < 0 || memcmp(b + m->buflen, "ZZZZ", 4)) pbt_fail("participant %d: async_recvfrom returned %d, errno %d", me, n, errno);
			ucheck(me, b, n, m->buflen, &h);
			free(b);
		} else {
			udp_t c = udp_recv(m->fd);
			vc_active();
			if (!c) pbt_fail("participant %d: udp_recv() returned nothing, errno %d", me, errno);
			if (empty(me, c)) { events_free(c); continue; }
			char *t = udp_message(c); ucheck(me, (uint8_t *)t, (int)udp_length(c), 0, &h);
			from_check(me, c, &h);
			do_pause(&m->r[k++ % m->nr]);
			if (h.kind == G_ASK) uanswer(me, c, &h);
			events_free(c);
		}
		do_pause(&m->r[k++ % m->nr]);
	}
	tasks_left--;
	return 0;
}
/* a server as in the documentation: every datagram in its own task */
static void *userve_task(param_t args) {
	int me = args[0].integer, q = args[1].integer; part *m = &U_[me];
	while (q-- > 0) {
		udp_t c;
		vc_active();
		if (!(c = udp_recv(m->fd))) pbt_fail("participant %d: udp_recv() returned nothing, errno %d", me, errno);
		vc_active();
		tasks_left++;
		udp_handler((udp_packet_cb)uhandle, c);
	}
	tasks_left--;
	return 0;
}
static void *usend_task(param_t args) {
	int me = args[0].integer, i, n, r; part *m = &U_[me]; char a[128];
	for (i = 0; i < m->nsend; i++) {
		dgram *d = &m->s[i]; part *t = &U_[d->to]; uint8_t *b = malloc((size_t)d->len + 1);
		if (d->len) n = ufill(b, me, d->to, d->ask ? G_ASK : G_TELL, m->seq_out[d->to]++, d->len);
		else { n = 0; t->nothing++; }
		vc_active();
		if (!m->connected) {
			snprintf(a, sizeof a, t->v6 ? "%s[%s]:%d" : "%s%s:%d", d->p.n & 1 ? "udp://" : "", t->ip, t->port);
			char keep[128]; strcpy(keep, a);
			udp_to(m->fd, a, 0);
			if (strcmp(a, keep)) pbt_fail("udp_to() changed the address given");
		}
		errno = 0;
		if ((r = async_sendto(m->fd, b, n)) != n) pbt_fail("participant %d: async_sendto of %d bytes to %s:%d returned %d, errno %d", me, n, t->ip, t->port, r, errno);
		free(b); vc_active();
		do_pause(&d->p);
	}
	if (!--m->senders) m->done = 1;
	tasks_left--;
	return 0;
}
static int own_port(int fd) { struct sockaddr_storage a; socklen_t n = sizeof a; if (getsockname(fd, (struct sockaddr *)&a, &n)) return -1; return ntohs(a.ss_family == AF_INET6 ? ((struct sockaddr_in6 *)&a)->sin6_port : ((struct sockaddr_in *)&a)->sin_port); }
static void *umain(param_t args) { int i; char a[128]; (void)args; /* the sockets belong to this task's scope */
	for (i = 0; i < nu; i++) { part *m = &U_[i]; if (!m->connected) continue;
		snprintf(a, sizeof a, m->v6 ? "udp://[%s]:%d" : "%s:%d", U_[0].ip, U_[0].port);
		strcpy(m->ip, U_[0].ip);
		m->fd = udp_connect(a); vc_active();
		if (m->fd < 0) pbt_fail("udp_connect(%s) failed with errno %d", a, errno);
		m->port = own_port(m->fd);
	}
	for (i = 0; i < nu; i++) {
		part *m = &U_[i]; int two = m->expect > 1 && m->mode != M_HANDLER && m->two, h = m->expect / 2;
		tasks_left++; m->senders = 1; async_task(usend_task, 1, casting(i));
		if (m->expect && m->mode == M_HANDLER) { tasks_left++; async_task(userve_task, 2, casting(i), casting(m->expect)); }
		else if (m->expect) { tasks_left++; async_task(urecv_task, 2, casting(i), casting(m->expect - (two ? h : 0))); }
		if (two) { tasks_left++; pbt_label("two receivers"); async_task(urecv_task, 2, casting(i), casting(h)); }
	}
	for (;;) { if (tasks_left == 0) break; yield(); }
	for (i = 0; i < nu; i++) os_close(U_[i].fd);
	return 0;
}
static void udp_body(void) {
	int i, j, total = 0, before, after, v6; char a[128];
	v6 = F_threads && pbt_chance(1, 2); vc_threads = F_threads;
	nu = 2 + (int)pbt_size(0, MAXP - 2);
	memset(U_, 0, sizeof U_);
	for (i = 0; i < nu; i++) {
		part *m = &U_[i];
		m->v6 = v6; m->two = pbt_chance(1, 4); m->connected = i > 0 && pbt_chance(1, 5); m->mode = (int)pbt_below(3); m->buflen = pbt_chance(1, 5) ? 16 + (int)pbt_below(100) : 65536;
		if (m->connected && m->mode == M_HANDLER) m->mode = M_RECV;
		m->nsend = (int)pbt_size(0, MAXD); m->nr = 1 + (int)pbt_below(4);
		for (j = 0; j < m->nr; j++) draw_step(&m->r[j], 0);
	}
	for (i = 0; i < nu; i++) {
		part *m = &U_[i];
		pbt_note("%d%s%s:", i, m->connected ? " connected" : "", m->mode == M_PLAIN ? " plain" : m->mode == M_HANDLER ? " handler" : "");
		for (j = 0; j < m->nsend; j++) {
			dgram *d = &m->s[j];
			d->to = m->connected ? 0 : (int)pbt_below((uint64_t)nu);
			if (U_[d->to].connected) d->to = 0; /* has no known port of its own */
			d->len = (int)sizeof(head) + (pbt_chance(1, 40) ? (int)pbt_int(0, 60000) : (int)pbt_size(0, 1400));
			draw_step(&d->p, 0);
			if (U_[d->to].mode != M_PLAIN && pbt_chance(1, 20)) d->len = 0;
			d->ask = d->len && U_[d->to].mode != M_PLAIN && pbt_chance(1, 2);
			if (total + d->len > 60000 && d->len > 100) d->len = (int)sizeof(head);
			total += d->len;
			U_[d->to].expect++; if (d->ask) m->expect++;
			pbt_note(" %s%d/%d", d->ask ? "?" : "", d->to, d->len);
		}
		pbt_note("; ");
	}
	if (v6) pbt_label("IPv6");
	for (i = 0; i < nu; i++) { if (U_[i].expect > 120) U_[i].buflen = 65536; if (U_[i].connected) pbt_label("connected"); if (U_[i].expect > 2) pbt_nontrivial(); }
	events_init(256);
	for (i = 0; i < nu; i++) { part *m = &U_[i]; if (m->connected) continue;
		strcpy(m->ip, v6 ? "::1" : host_text());
		snprintf(a, sizeof a, v6 ? "%s[%s]:%d" : "%s%s:%d", pbt_chance(1, 2) ? "udp://" : "", m->ip, 0);
		if (!v6) snprintf(a, sizeof a, "udp://%s:%d", m->ip, 7100 + i);
		m->fd = v6 ? udp_bind(a, 0) : udp_bind(a, 0);
		if (m->fd < 0) pbt_fail("udp_bind(%s) failed with errno %d", a, errno);
		if (!socket_is_udp(m->fd)) pbt_fail("socket_is_udp() of a bound socket is false");
		m->port = own_port(m->fd);
		if (!v6 && m->port != 7100 + i) pbt_fail("udp_bind(%s) has port %d", a, m->port);
	}
	events_t *loop = events_create(60);
	before = open_fds(); (void)before; (void)after;
	vc_start(); vc_next = next_deadline; vc_nap = 1000;
	async_task(umain, 0);
	async_run(loop);
	if (tasks_left) pbt_fail("the run ended with %d tasks unfinished", tasks_left);
	for (i = 0; i < nu; i++) if (U_[i].got != U_[i].expect) pbt_fail("participant %d got %d of %d datagrams", i, U_[i].got, U_[i].expect);
	pbt_done();
}
static void u_udp(void) { udp_body(); }
static void u_udp_names(void) { F_threads = 1; udp_body(); }

static void u_stream_names(void) { F_addr = 1; u_stream(); }

/* --------------------------------------------------------------- addresses, on real sockets */
static int socket_kind(int fd) { int t = 0; socklen_t n = sizeof t; getsockopt(fd, SOL_SOCKET, SO_TYPE, &t, &n); return t; }
static void u_bind(void) {
	char host[64], text[128], keep[128]; int v6 = pbt_chance(1, 3), proto = (int)pbt_below(4), made_by = 0, port, with, fd, i, any = 0, k = (int)pbt_below(4);
	if (v6) k = 0;
	if (proto == 3) { made_by = 1; proto = 1 + (int)pbt_below(2); k &= ~1; } /* async_socket(), the address is given in binary */
	struct sockaddr_storage a; socklen_t n = sizeof a; struct sockaddr_in *s4 = (void *)&a; struct sockaddr_in6 *s6 = (void *)&a;
	struct in6_addr want6; struct in_addr want4;
	events_init(64);
	/* ports of its own for every process, or any */
	port = k != 1 && pbt_chance(1, 4) ? 0 : 20000 + (int)((getpid() * 7 + (int)pbt_below(7)) % 12000);
	if (v6) {
		static const char *h6[] = { "::1", "::", "0:0:0:0:0:0:0:1", "::ffff:127.0.0.1" };
		strcpy(host, pbt_pick(h6)); inet_pton(AF_INET6, host, &want6);
	} else {
		if (k == 0) strcpy(host, "0.0.0.0"); else if (k == 1) strcpy(host, "localhost"); else sprintf(host, "127.%d.%d.%d", (int)pbt_below(256), (int)pbt_below(256), 1 + (int)pbt_below(250));
		if (k == 1) want4.s_addr = htonl(0x7f000001); else inet_pton(AF_INET, host, &want4);
	}
	with = k == 1 || pbt_chance(1, 2); /* the port in the text, or as a number */
	any = !v6 && k != 1 && proto && !made_by && pbt_chance(1, 8);
	if (any) { want4.s_addr = 0; with = 0; }
	if (with) snprintf(text, sizeof text, v6 ? "[%s]:%d" : "%s:%d", host, port); else snprintf(text, sizeof text, v6 ? "[%s]" : "%s", host);
	strcpy(keep, text);
	pbt_note("%s %s, port %d%s", made_by ? proto == 1 ? "async_socket udp" : "async_socket tcp" : proto == 0 ? "udp_bind" : proto == 1 ? "async_bind udp" : "async_bind tcp", any ? "(null)" : text, port, with ? " in the text" : "");
	for (i = 0; i < 2; i++) {
		if (proto == 0) {
			char t2[128];
			snprintf(text, sizeof text, v6 ? "[%s]:%d" : "%s:%d", host, port);
			snprintf(t2, sizeof t2, "%s%s", pbt_chance(1, 2) ? "udp://" : "", text);
			strcpy(keep, t2);
			fd = udp_bind(t2, 0);
			if (strcmp(t2, keep)) pbt_fail("udp_bind() changed the address given to '%s'", t2);
		} else if (made_by) {
			memset(&a, 0, sizeof a); a.ss_family = v6 ? AF_INET6 : AF_INET;
			if (v6) { s6->sin6_addr = want6; s6->sin6_port = htons((uint16_t)port); } else { s4->sin_addr = want4; s4->sin_port = htons((uint16_t)port); }
			fd = (int)async_socket((struct sockaddr *)&a, text, 8, proto == 2);
		} else {
			fd = (int)async_bind(any ? NULL : text, with ? 0 : port, 8, proto == 2);
			if (strcmp(text, keep)) pbt_fail("async_bind() changed the address given to '%s'", text);
		}
		if (fd < 0 && errno == EADDRINUSE && port) { port = 0; pbt_label("in use"); return; }
		if (fd < 0 && v6 && strstr(host, "ffff") && i == 0) { pbt_label("mapped address refused"); return; }
		if (fd < 0) pbt_fail("binding %s failed with errno %d", text, errno);
		if (getsockname(fd, (struct sockaddr *)&a, &n)) pbt_fail("no name");
		if (a.ss_family != (v6 ? AF_INET6 : AF_INET)) pbt_fail("%s is bound with family %d", text, a.ss_family);
		if (v6 ? memcmp(&s6->sin6_addr, &want6, 16) : s4->sin_addr.s_addr != want4.s_addr) pbt_fail("%s is bound to another address", text);
		if (port && ntohs(v6 ? s6->sin6_port : s4->sin_port) != port) pbt_fail("%s is bound to port %d, not %d", text, ntohs(v6 ? s6->sin6_port : s4->sin_port), port);
		if (socket_kind(fd) != (proto == 2 ? SOCK_STREAM : SOCK_DGRAM)) pbt_fail("wrong kind of socket");
		if (!(fcntl(fd, F_GETFL) & O_NONBLOCK)) pbt_fail("the socket blocks");
		if (made_by) pbt_label("async_socket");
		if (proto == 2) { int l = 0; socklen_t ln = sizeof l; if (getsockopt(fd, SOL_SOCKET, SO_ACCEPTCONN, &l, &ln) || !l) pbt_fail("the socket does not listen"); }
		close(fd);
		break;
	}
	pbt_nontrivial(); pbt_label(v6 ? "IPv6" : k == 1 ? "name" : "IPv4");
}

/* --------------------------------------------------------------- paths of local sockets */
#define NPATH 4
static struct { char path[260], text[280], other[280]; int fd, bound, errno_, up; } P_[NPATH];
static int npaths, paths_bye, paths_kind;
static int made(const char *dir) { /* sockets in the directory */
	int n = 0; DIR *d = opendir(dir); struct dirent *e;
	if (!d) return 0;
	while ((e = readdir(d))) n += e->d_name[0] != '.' || (e->d_name[1] && e->d_name[1] != '.');
	closedir(d);
	return n;
}
static void *pathbind_task(param_t args) {
	int i = args[0].integer; char keep[280]; strcpy(keep, P_[i].text);
	errno = 0;
	P_[i].fd = uds_bind(P_[i].text, 4); P_[i].errno_ = errno;
	if (strcmp(keep, P_[i].text)) pbt_fail("uds_bind() changed the address given");
	P_[i].up = 1;
	while (!paths_bye) yield();
	tasks_left--;
	return 0;
}
static void *path_task(param_t args) {
	int i, j, fd, cfd; struct sockaddr_un a; socklen_t n; char keep[280]; struct stat st; (void)args;
	for (i = 0; i < npaths; i++) {
		int len = (int)strlen(P_[i].path), same;
		for (same = j = 0; j < i; j++) same |= P_[j].bound && !strcmp(P_[j].path, P_[i].path);
		while (!P_[i].up) yield();
		if (len > 107) {
			if (P_[i].fd >= 0) pbt_fail("uds_bind() of a path of %d characters succeeded", len);
			if (P_[i].errno_ != ENAMETOOLONG) pbt_fail("uds_bind() of a path of %d characters failed with errno %d", len, P_[i].errno_);
			pbt_label("too long");
			continue;
		}
		if (P_[i].fd < 0) pbt_fail("uds_bind(\"%s\") failed with errno %d", P_[i].text, P_[i].errno_);
		P_[i].bound = 1;
		if (!socket_is_uds(P_[i].fd)) pbt_fail("socket_is_uds() of a bound socket is false");
		memset(&a, 0, sizeof a); n = sizeof a;
		if (getsockname(P_[i].fd, (struct sockaddr *)&a, &n) || a.sun_family != AF_UNIX) pbt_fail("a bound socket has no name");
		if (strnlen(a.sun_path, 108) != (size_t)len || memcmp(a.sun_path, P_[i].path, (size_t)len)) pbt_fail("\"%s\" is bound to \"%.108s\"", P_[i].text, a.sun_path);
		if (lstat(P_[i].path, &st) || !S_ISSOCK(st.st_mode)) pbt_fail("there is no socket \"%s\"", P_[i].path);
		if (!(fcntl(P_[i].fd, F_GETFL) & O_NONBLOCK)) pbt_fail("the socket blocks");
		if (same) pbt_fail("the same path was bound twice");
	}
	for (i = 0; i < npaths; i++) {
		strcpy(keep, P_[i].other); errno = 0;
		fd = uds_connect(P_[i].other); j = errno;
		if (strcmp(keep, P_[i].other)) pbt_fail("uds_connect() changed the address given");
		if (!P_[i].bound) {
			if (fd >= 0) pbt_fail("uds_connect() to a path of %d characters succeeded", (int)strlen(P_[i].path));
			if (j != ENAMETOOLONG) pbt_fail("uds_connect() to a path of %d characters failed with errno %d", (int)strlen(P_[i].path), j);
			continue;
		}
		if (fd < 0) pbt_fail("uds_connect(\"%s\") failed with errno %d, it listens", P_[i].other, j);
		if (!socket_is_uds(fd)) pbt_fail("socket_is_uds() of a connected socket is false");
		for (j = 0; j < npaths; j++) if (P_[j].bound) {
			cfd = accept(P_[j].fd, NULL, NULL);
			if ((cfd >= 0) != (j == i)) pbt_fail("connecting to \"%s\" %s \"%s\"", P_[i].other, j == i ? "does not reach" : "reaches", P_[j].path);
			if (cfd >= 0) close(cfd);
		}
		close(fd);
	}
	paths_bye = 1;
	tasks_left--;
	return 0;
}
static void draw_path(char *b, int i) {
	static const char *dirs[] = { "", "", "", "./", "q/", "q//", "./q/./", "q:1/", "q//../" }; static const char al[] = "ab01._-:@%[]#x ";
	int d = (int)pbt_below(9), len, k; char *p = b;
	p += sprintf(b, "%s%s", pbt_chance(1, 5) ? pbt_scratch() : "", ""); if (p > b) *p++ = '/';
	p += sprintf(p, "%s", dirs[d]);
	len = pbt_chance(1, 3) ? 100 + (int)pbt_below(14) - (int)(p - b) : pbt_chance(1, 12) ? 100 + (int)pbt_below(100) : 2 + (int)pbt_size(0, 30);
	if (len < 2) len = 2;
	*p++ = "abcd"[i]; /* all different, also when cut or parsed */
	for (k = 1; k < len; k++) *p++ = al[pbt_below(sizeof al - 1)];
	if (p[-1] == ' ') p[-1] = '0';
	*p = 0;
}
static void u_paths(void) {
	int i, before, after;
	if (chdir(pbt_scratch())) pbt_fail("scratch");
	mkdir("q", 0700); mkdir("q:1", 0700);
	memset(P_, 0, sizeof P_); paths_bye = 0;
	npaths = 1 + (int)pbt_below(NPATH);
	for (i = 0; i < npaths; i++) {
		char *o = P_[i].path;
		draw_path(o, i);
		/* the same but for its last characters */
		if (i && pbt_chance(1, 3) && strlen(P_[i - 1].path) < 200) { strcpy(o, P_[i - 1].path); int l = (int)strlen(o); if (pbt_chance(1, 2) && l > 2) sprintf(o + l - 1, "%c", 'm' + i); else sprintf(o + l, ":%d", i); }
		/* as much of it as is before the path is an scheme */
		snprintf(P_[i].text, sizeof P_[i].text, "%s%s", pbt_chance(1, 2) ? "unix://" : "", o);
		snprintf(P_[i].other, sizeof P_[i].other, "%s%s", pbt_chance(1, 2) ? "unix://" : "", o);
		if (strchr(o, ':')) pbt_label("colon");
		if (strstr(o, "//")) pbt_label("//");
		if (strlen(o) > 100 && strlen(o) < 108) { pbt_label("longest"); pbt_nontrivial(); }
		pbt_note("%s '%s'(%d) ", P_[i].text[0] == 'u' ? "unix://" : "", o, (int)strlen(o));
	}
	if (npaths > 1) pbt_nontrivial();
	events_init(128);
	events_t *loop = events_create(60);
	before = open_fds();
	tasks_left = npaths + 1;
	for (i = 0; i < npaths; i++) async_task(pathbind_task, 1, casting(i));
	async_task(path_task, 0);
	async_run(loop);
	if (tasks_left) pbt_fail("the run ended with %d tasks unfinished", tasks_left);
	for (i = 0; i < npaths; i++) if (P_[i].fd >= 0) close(P_[i].fd);
	after = open_fds();
	if (after > before) pbt_fail("%d descriptors are left open", after - before);
	if ((i = made(".") - 2) || (i = made("q") + made("q:1"))) pbt_fail("%d files are left", i);
	pbt_done();
}

const pbt_unit pbt_units[] = {
	{ "stream", u_stream, 1, 40000, PBT_SCRATCH, "at least two directions carry data" },
	{ "stream_names", u_stream_names, 1, 40000, PBT_SCRATCH | PBT_FLAKY, "at least two directions carry data" },
	{ "bind", u_bind, 20, 40000, PBT_SCRATCH, "a socket was bound" },
	{ "paths", u_paths, 1, 40000, PBT_SCRATCH, "several sockets, or a path about as long as any can be" },
	{ "udp", u_udp, 1, 40000, PBT_SCRATCH, "somebody receives more than two datagrams" },
	{ "udp_names", u_udp_names, 1, 40000, PBT_SCRATCH | PBT_FLAKY, "somebody receives more than two datagrams" },
	{ 0 }
};
