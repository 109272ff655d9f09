/* Named pipes: histories of mkfifo(), open(), read(), close() and unlink() over a few names, among
 * other pipes, some on numbers of their own choice, with and without a loop. A model of what is in each pipe says what
 * every read gives: the descriptors of one pipe never give or take what belongs to another. */
#include "events_internal.h"
#include "pbt.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <errno.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <sys/inotify.h>
#include <sys/syscall.h>
#include "posix_names.h"
#undef open
#undef read
#undef close
#undef write
#undef mkfifo
#undef unlink

#define MAXN 6
#define MAXF 60
#define CAP 4000
typedef struct { long wr, rd; int nopen, id; } pipe_t;       /* one pipe of the kernel's */
typedef struct { int fd, r, w, added; pipe_t *p; } des_t;
static struct { char name[300]; int exists, known; pipe_t *p; } N[MAXN];
static des_t F[MAXF];
static int nf, nn, npipes, reads, fifos, loops;
static events_t *loop;

static unsigned char byte_at(pipe_t *p, long i) { return (unsigned char)(p->id * 37 + i * 11 + i / 256); }
static pipe_t *new_pipe(void) { pipe_t *p = calloc(1, sizeof *p); p->id = ++npipes; return p; }
static des_t *add(int fd, pipe_t *p, int r, int w) {
	int i; des_t *d;
	for (i = 0; i < nf; i++) if (F[i].fd == fd) pbt_fail("descriptor %d was given out twice", fd);
	d = &F[nf++]; *d = (des_t){ fd, r, w, 0, p }; p->nopen++; return d;
}
static void gone(des_t *d) { d->p->nopen--; *d = F[--nf]; }
static long fill(pipe_t *p, unsigned char *b, long n) { long i; for (i = 0; i < n; i++) b[i] = byte_at(p, p->wr + i); return n; }
static void expect(des_t *d, const char *how, unsigned char *b, long got, long max, int err) {
	long have = d->p->wr - d->p->rd, want = have < max ? have : max, i; int writers = 0;
	for (i = 0; i < nf; i++) if (F[i].p == d->p && F[i].w) writers = 1;
	reads++;
	if (!have) {
		if (writers ? got != -1 || err != EAGAIN : got != 0) pbt_fail("%s of the empty pipe %d (descriptor %d) gave %ld, errno %d", how, d->p->id, d->fd, got, err);
		return;
	}
	if (got != want) pbt_fail("%s of pipe %d (descriptor %d) gave %ld bytes of %ld, errno %d", how, d->p->id, d->fd, got, want, err);
	for (i = 0; i < got; i++) if (b[i] != byte_at(d->p, d->p->rd + i)) pbt_fail("%s of pipe %d (descriptor %d): byte %ld is another's", how, d->p->id, d->fd, i);
	d->p->rd += got;
}
static int calls;
static void on_read(fds_t fd, int event, void *arg) {
	des_t *d = 0; int i; unsigned char b[CAP]; long n;
	for (i = 0; i < nf; i++) if (F[i].fd == (int)fd) d = &F[i];
	if (!d || arg != d->p) pbt_fail("a callback for descriptor %d with the argument of another", (int)fd);
	if (!(event & EVENTS_READ)) pbt_fail("the callback of descriptor %d was given event %d", (int)fd, event);
	if (d->p->wr == d->p->rd) { for (i = 0; i < nf; i++) if (F[i].p == d->p && F[i].w) pbt_fail("descriptor %d of an empty pipe was said to be readable", (int)fd); }
	calls++; n = os_read((int)fd, (char *)b, sizeof b); expect(d, "read() in a callback", b, n, sizeof b, errno);
}
static des_t *some(int r, int w) { int i, k[MAXF], n = 0; for (i = 0; i < nf; i++) if ((!r || F[i].r) && (!w || F[i].w)) k[n++] = i; return n ? &F[k[pbt_below((uint64_t)n)]] : 0; }

static void u_fifo(void) {
	enum { MK, OPEN, WR, RD, CL, UN, PIPE, DUP, LOOP, TYPE, WATCH, NONBLOCK, KINDS };
	static const int weights[KINDS] = { 4, 6, 9, 9, 5, 2, 3, 3, 3, 2, 1, 1 };
	int i, k, ops, init; unsigned char b[CAP]; char path[400]; des_t *d; long n; struct stat st;
	static const int sizes[] = { 64, 256, 300, 1024 };
	if (chdir(pbt_scratch())) pbt_fail("harness: chdir");
	nn = 1 + (int)pbt_below(MAXN); ops = (int)pbt_size(4, pbt_thorough() ? 500 : 200);
	for (i = 0; i < nn; i++) {
		if (pbt_chance(1, 20)) { snprintf(N[i].name, sizeof N[i].name, "%s/%d", pbt_scratch() + 5, i); memset(path, 'n', 200); path[pbt_below(200)] = 0; strncat(N[i].name, path, 290 - strlen(N[i].name)); }
		else snprintf(N[i].name, sizeof N[i].name, "%s/%.*s", pbt_scratch() + 5, i + 1, "ffffffff");
	}
	init = pbt_chance(3, 4); if (init) events_init(pbt_pick(sizes)); else pbt_label("mkfifo() comes first");
	pbt_note("%d names, %d operations\n", nn, ops);
	for (; ops > 0; ops--) switch (k = pbt_weighted(weights, KINDS)) {
	case MK: {
		mode_t m = pbt_chance(1, 2) ? 0600 : 0644; int r;
		i = (int)pbt_below((uint64_t)nn); pbt_note("mkfifo %d ", i);
		errno = 0; r = os_mkfifo(N[i].name, m); init = 1;
		if (N[i].exists ? r != -1 || errno != EEXIST : r != 0) pbt_fail("mkfifo(%s) gave %d, errno %d%s", N[i].name, r, errno, N[i].exists ? " (it is there)" : "");
		snprintf(path, sizeof path, "/tmp/%s", N[i].name);
		if (strcmp(mkfifo_name(), path)) pbt_fail("mkfifo_name() is %s instead of %s", mkfifo_name(), path);
		if (!N[i].exists) { if (lstat(path, &st) || !S_ISFIFO(st.st_mode) || (st.st_mode & 0777) != (m & ~022)) pbt_fail("mkfifo(%s) made no named pipe of its mode", path); N[i].exists = N[i].known = 1; N[i].p = new_pipe(); fifos++; }
		break; }
	case OPEN:
		if (nf > MAXF - 4) break;
		i = (int)pbt_below((uint64_t)nn); snprintf(path, sizeof path, "/tmp/%s", N[i].name);
		{ int full = pbt_chance(1, 3), fd; pbt_note("open %s%d ", full ? "path " : "", i);
		errno = 0; fd = os_open(full ? path : N[i].name, O_RDWR | O_NONBLOCK, 0);
		if (!N[i].exists) { if (fd != -1 || errno != ENOENT) pbt_fail("open() of a name that is not there gave %d, errno %d", fd, errno); break; }
		if (fd < 0) pbt_fail("open(%s) gave errno %d", full ? path : N[i].name, errno);
		if (mkfifo_fd() != fd) pbt_fail("mkfifo_fd() is %d instead of %d", (int)mkfifo_fd(), fd);
		d = add(fd, N[i].p, 1, 1); if (d->p->nopen == 1) d->p->rd = d->p->wr; }
		break;
	case WR:
		if (!(d = some(0, 1))) break;
		n = pbt_size(1, 600); if (d->p->wr - d->p->rd + n > CAP) break;
		fill(d->p, b, n); pbt_note("write %d:%ld ", d->fd, n);
		for (i = 0; i < nf; i++) if (F[i].p == d->p && F[i].r) break;
		if (i == nf) break;
		if (write(d->fd, b, (size_t)n) != n) pbt_fail("writing %ld bytes to descriptor %d gave errno %d", n, d->fd, errno);
		d->p->wr += n; break;
	case RD:
		if (!(d = some(1, 0))) break;
		n = pbt_size(1, CAP); pbt_note("read %d:%ld ", d->fd, n);
		errno = 0; { long got = os_read(d->fd, (char *)b, (size_t)n); expect(d, "read()", b, got, n, errno); }
		break;
	case CL:
		if (!(d = some(0, 0))) break;
		pbt_note("close %d ", d->fd); if (d->added && events_del(d->fd)) pbt_fail("events_del(%d) gave an error", d->fd);
		if (os_close(d->fd)) pbt_fail("close(%d) gave errno %d", d->fd, errno);
		if (fcntl(d->fd, F_GETFD) != -1) pbt_fail("descriptor %d is still open after close()", d->fd);
		gone(d); for (i = 0; i < nf; i++) if (fcntl(F[i].fd, F_GETFD) == -1) pbt_fail("close() closed descriptor %d too", F[i].fd);
		break;
	case UN:
		i = (int)pbt_below((uint64_t)nn); snprintf(path, sizeof path, "/tmp/%s", N[i].name); pbt_note("unlink %d ", i);
		if (N[i].exists && unlink(path)) pbt_fail("unlink(%s) gave errno %d", path, errno);
		N[i].exists = 0; N[i].p = 0; break;
	case PIPE: {
		int p[2]; pipe_t *q;
		if (nf > MAXF - 4 || pipe2(p, O_NONBLOCK)) break;
		pbt_note("pipe %d,%d ", p[0], p[1]); q = new_pipe(); add(p[0], q, 1, 0); add(p[1], q, 0, 1); break; }
	case DUP: {
		int to = 3 + (int)pbt_below(pbt_chance(1, 2) ? 30 : 1000); des_t s;
		if (nf > MAXF - 4 || !(d = some(0, 0)) || fcntl(to, F_GETFD) != -1) break;
		s = *d; pbt_note("dup %d to %d ", s.fd, to); if (dup2(s.fd, to) != to) break;
		add(to, s.p, s.r, s.w); break; }
	case LOOP:
		if (!init || !(d = some(1, 0)) || d->fd >= 64 || d->added) break;
		for (i = 0; i < nf; i++) if (F[i].p == d->p && F[i].added) break;
		if (i < nf) break;
		if (!loop) loop = events_create(6);
		pbt_note("loop %d ", d->fd); if (events_add(loop, d->fd, EVENTS_READ, 0, on_read, d->p)) pbt_fail("events_add(%d) gave an error", d->fd);
		d->added = 1; loops++;
		{ int due = 0; for (i = 0; i < nf; i++) if (F[i].added && F[i].p->wr > F[i].p->rd) due++;
		calls = 0; for (i = 0; i < 3; i++) events_once(loop, 0);
		if (calls < due) pbt_fail("%d of %d pipes with something to read were told", calls, due); }
		if (pbt_chance(1, 2)) { for (d = F; d < F + nf; d++) if (d->added) { if (events_del(d->fd)) pbt_fail("events_del(%d) gave an error", d->fd); d->added = 0; } }
		break;
	case TYPE:
		if (!(d = some(0, 0))) break;
		if (events_fd_type(d->fd) != FD_FIFO) pbt_fail("events_fd_type() of a pipe gave %d", events_fd_type(d->fd));
		break;
	case WATCH: {
		int ino, wd; if (!init || loop) break;
		if ((ino = inotify_init1(IN_NONBLOCK)) < 0) break;
		pbt_note("inotify %d ", ino); wd = inotify_add_watch(ino, pbt_scratch(), IN_CREATE | IN_DELETE);
		if (wd < 0) pbt_fail("inotify_add_watch() gave errno %d", errno);
		{ int t = open("seen", O_CREAT | O_RDWR, 0600); if (t >= 0) close(t); }
		n = os_read(ino, (char *)b, sizeof b); unlink("seen");
		if (n <= 0 || !(((struct inotify_event *)b)->mask & IN_CREATE)) pbt_fail("the instance %d gave %ld bytes, errno %d", ino, n, errno);
		if (os_close(ino)) pbt_fail("closing the instance gave errno %d", errno);
		break; }
	case NONBLOCK:
		if (!(d = some(0, 0))) break;
		{ int fl = fcntl(d->fd, F_GETFL);
		if (events_set_blocking(d->fd) || fcntl(d->fd, F_GETFL) != (fl & ~O_NONBLOCK)) pbt_fail("events_set_blocking(%d) left the flags %o of %o", d->fd, fcntl(d->fd, F_GETFL), fl);
		if (events_set_nonblocking(d->fd) || fcntl(d->fd, F_GETFL) != (fl | O_NONBLOCK)) pbt_fail("events_set_nonblocking(%d) left the flags %o of %o", d->fd, fcntl(d->fd, F_GETFL), fl); }
		break;
	}
	for (i = 0; i < nf; i++) if (F[i].r) { errno = 0; n = os_read(F[i].fd, (char *)b, sizeof b); expect(&F[i], "the last read()", b, n, sizeof b, errno); }
	for (i = 0; i < nn; i++) { snprintf(path, sizeof path, "/tmp/%s", N[i].name); unlink(path); }
	if (fifos > 1 && reads > 3) pbt_nontrivial();
	if (fifos > 5) pbt_label("more than five named pipes"); if (loops) pbt_label("on a loop");
	pbt_done();
}
const pbt_unit pbt_units[] = {
	{ "fifo", u_fifo, 1, 20000, PBT_SCRATCH, "more than one named pipe was made, and more than three reads" },
	{ 0 }
};
