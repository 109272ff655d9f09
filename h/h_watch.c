/* Directory watching: random trees, watched by events_watch(), fs_events() or the inotify calls
 * themselves, are changed by random operations; a second inotify instance, which the library does
 * not know, watches the same directories and says what must have been reported. */
#include "events_internal.h"
#include "pbt.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <sched.h>
#include <errno.h>
#include <fcntl.h>
#include <dirent.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include "posix_names.h"
#undef unlink
#undef access
#undef open
#undef read
#undef write
#undef rename
#undef mkdir
#undef rmdir
#undef stat
/* close stays the library's */
#define raw_close(fd) syscall(SYS_close, fd)

static int cpus = 4;
int sched_getaffinity(pid_t p, size_t n, cpu_set_t *s) { int i; (void)p; memset(s, 0, n); for (i = 0; i < cpus; i++) CPU_SET(i, s); return 0; }
#define V(x) (void *)(intptr_t)(x)
#define MAXD 14
#define MAXOP 60
#define MAXEV 6000
enum { O_CREATE, O_WRITE, O_CHMOD, O_UNLINK, O_RENAME, O_MKDIR, O_RMDIR, O_BURST, O_LINK, O_READ, O_FDS, O_REMOVE, O_HREMOVE, O_PIPE, O_YIELD, O_FSCALL, O_KINDS };
static const char *oname[] = { "create", "write", "chmod", "unlink", "rename", "mkdir", "rmdir", "burst", "link", "read", "descriptors", "remove", "remove in handler", "pipe", "yield", "fs_writefile" };

typedef struct { char path[300]; int lib, ref, removed, gone, gone_lib; } dir_t;   /* lib: descriptor of the watch, once known */
typedef struct { int d, act; char name[64]; } ev_t;
typedef struct {
	dir_t d[MAXD]; int nd, top; int ref; ev_t want[MAXEV], got[MAXEV]; int nwant; volatile int ngot; int hremove, handled, stopped, last; char filter; pthread_t owner;
} world;
static world W_[4]; static int nw;
typedef struct { int kind, d, n, d2, n2, k, w; } op_t;
static op_t ops[MAXOP]; static int nops; static char root[200];
static char pipe_got[200]; static int pipe_n, pipe_sent, pipefd[2];

static world *world_of(void *filter) { int i; for (i = 0; i < nw; i++) if (filter == &W_[i].filter) return &W_[i]; pbt_fail("the handler got another filter argument"); }
static int act_of(uint32_t m) {
	if (m & (IN_CREATE | IN_MOVED_TO)) return WATCH_ADDED;
	if (m & (IN_DELETE | IN_MOVED_FROM)) return WATCH_REMOVED;
	if (m & (IN_MODIFY | IN_ATTRIB)) return WATCH_MODIFIED;
	return 0;
}
static void handler(int wd, events_monitors mask, const char *name, void *filter) {
	world *w = world_of(filter); int i, act = 0, bits = 0, all[] = { WATCH_ADDED, WATCH_REMOVED, WATCH_MODIFIED, WATCH_MOVED }; const char *path, *p; dir_t *d = NULL; ev_t *e;
	if (w->stopped) pbt_fail("the handler was called for %s after the watch was ended", name);
	for (i = 0; i < 4; i++) if (((int)mask & all[i]) == all[i]) { act = all[i]; bits++; }
	if (bits != 1) pbt_fail("the handler got mask %x, it says %d things happened", (unsigned)mask, bits);
	path = fs_events_path(wd); if (!path) pbt_fail("there is no path for descriptor %d in its handler", wd);
	for (i = 0; i < w->nd; i++) if (!strcmp(w->d[i].path, path) && !w->d[i].gone_lib) d = &w->d[i];
	if (!d) { for (i = 0; i < w->nd; i++) if (!strcmp(w->d[i].path, path)) d = &w->d[i]; }
	if (!d) pbt_fail("descriptor %d has path %s, that is not watched", wd, path);
	if (d->removed) pbt_fail("an event of %s came after events_remove()", path);
	if (d->lib && d->lib != wd) pbt_fail("%s has descriptor %d, then %d", path, d->lib, wd);
	d->lib = wd;
	/* of the directory asked for only the name is told, of those below the whole path */
	if (d - w->d == w->top) p = name; else { size_t n = strlen(path); if (strncmp(name, path, n) || name[n] != '/') pbt_fail("%s in %s is told as %s", "an entry", path, name); p = name + n + 1; }
	if (w->ngot >= MAXEV) pbt_fail("more than %d events", MAXEV);
	e = &w->got[w->ngot]; e->d = (int)(d - w->d); e->act = act; snprintf(e->name, sizeof e->name, "%s", p); w->ngot++;
	w->handled++;
	if (w->hremove == e->d) { w->hremove = -1; d->removed = 1; if (events_remove(wd)) pbt_fail("events_remove(%d) in the handler gave an error", wd); }
}
/* what the other instance has seen */
static void ref_read(world *w) {
	char b[65536]; long n; int i;
	while ((n = syscall(SYS_read, w->ref, b, sizeof b)) > 0) {
		char *p = b;
		while (p < b + n) {
			struct inotify_event *e = (struct inotify_event *)p; p += sizeof *e + e->len;
			if (e->mask & IN_Q_OVERFLOW) pbt_fail("harness: too many events");
			for (i = 0; i < w->nd && w->d[i].ref != e->wd; i++) {}
			if (i == w->nd) continue;
			if (e->mask & IN_IGNORED) { w->d[i].gone = 1; continue; }
			if (!e->len || !act_of(e->mask)) continue;
			if (w->nwant >= MAXEV) pbt_fail("harness: too many events");
			w->want[w->nwant].d = i; w->want[w->nwant].act = act_of(e->mask); snprintf(w->want[w->nwant].name, 64, "%s", e->name); w->nwant++;
		}
	}
}
static int same(ev_t *a, ev_t *b) { return a->d == b->d && a->act == b->act && !strcmp(a->name, b->name); }
static const char *aname(int a) { return a == WATCH_ADDED ? "added" : a == WATCH_REMOVED ? "removed" : a == WATCH_MODIFIED ? "modified" : "moved"; }
/* the kernel merges an event with the same one before it, if that was not read yet; a removed directory may have lost its last ones */
static int all_there(world *w, int report) {
	/* which numbers of told events may belong to the first i that happened */
	static char now[MAXEV + 2], next[MAXEV + 2];
	int i, j, lo = 0, hi = 0, ngot = __atomic_load_n(&w->ngot, __ATOMIC_ACQUIRE);
	memset(now, 0, (size_t)ngot + 2); now[0] = 1;
	for (i = 0; ; i++) {
		int nlo = ngot + 1, nhi = -1;
		for (j = lo; j <= hi; j++) if (now[j] && j > 0 && j < ngot && same(&w->got[j], &w->got[j - 1])) { now[j + 1] = 1; if (j + 1 > hi) hi = j + 1; }
		if (i == w->nwant) break;
		memset(next, 0, (size_t)ngot + 2);
		for (j = lo; j <= hi; j++) if (now[j]) {
			if (j < ngot && same(&w->want[i], &w->got[j])) { next[j + 1] = 1; if (j + 1 < nlo) nlo = j + 1; if (j + 1 > nhi) nhi = j + 1; }
			if ((i > 0 && same(&w->want[i], &w->want[i - 1])) || w->d[w->want[i].d].removed) { next[j] = 1; if (j < nlo) nlo = j; if (j > nhi) nhi = j; }
		}
		if (nhi < 0) {
			ev_t *e = &w->want[i];
			if (hi < ngot) pbt_fail("event %d: %s in %s %s was told, but it was %s in %s %s", hi, w->got[hi].name, w->d[w->got[hi].d].path, aname(w->got[hi].act), e->name, w->d[e->d].path, aname(e->act));
			if (report) pbt_fail("%s in %s %s was never told (%d events were, %d happened)", e->name, w->d[e->d].path, aname(e->act), ngot, w->nwant);
			return 0;
		}
		memcpy(now, next, (size_t)ngot + 2); lo = nlo; hi = nhi;
	}
	if (!now[ngot] && report) pbt_fail("%s in %s %s was told, though it did not happen, or twice", w->got[hi].name, w->d[w->got[hi].d].path, aname(w->got[hi].act));
	return now[ngot];
}
static void put(const char *p, const char *txt, int n, int flags) { int fd = open(p, flags, 0600); if (fd < 0) return; if (n && syscall(SYS_write, fd, txt, n) != n) {} raw_close(fd); }
static void at(char *b, world *w, int d, int n) { sprintf(b, "%s/f%d", w->d[d % w->nd].path, n); }
static int count_fds(void) { int n = 0; DIR *d = opendir("/proc/self/fd"); struct dirent *e; while ((e = readdir(d))) n += e->d_name[0] != '.'; closedir(d); return n - 1; }

static void *pipe_reader(param_t args) {
	(void)args;
	while (pipe_n < (int)sizeof pipe_got - 1) { int r = async_read(pipefd[0], pipe_got + pipe_n, 1); if (r <= 0) break; pipe_n += r; }
	return V(7);
}
static void do_op(op_t *o) {
	world *w = &W_[o->w % nw]; char a[400], b[400]; int i, n;
	at(a, w, o->d, o->n); at(b, w, o->d2, o->n2);
	switch (o->kind) {
	case O_CREATE: put(a, "", 0, O_WRONLY | O_CREAT); break;
	case O_WRITE: put(a, "0123456789", 1 + o->k % 10, O_WRONLY | O_CREAT | (o->k & 1 ? O_TRUNC : O_APPEND)); break;
	case O_CHMOD: chmod(a, 0600 + (unsigned)o->k % 8); break;
	case O_UNLINK: unlink(a); break;
	case O_RENAME: rename(a, b); break;
	case O_LINK: if (o->k & 1) { if (link(a, b)) {} } else if (symlink("x", b)) {} break;
	case O_READ: put(a, "", 0, O_RDONLY); break;
	case O_MKDIR: sprintf(a + strlen(a), "d"); mkdir(a, 0700); strcat(a, "/x"); put(a, "1", 1, O_WRONLY | O_CREAT); break;
	case O_RMDIR: { int d = o->d % w->nd; if (d == w->top && o->k % 3) break; /* files first */
		for (i = 0; i < 6; i++) { at(a, w, d, i); unlink(a); strcat(a, "d/x"); unlink(a); a[strlen(a) - 2] = 0; rmdir(a); }
		rmdir(w->d[d].path); break; }
	case O_BURST: for (i = 0; i < 300 + o->k; i++) { sprintf(a, "%s/a_rather_long_name_%d", w->d[o->d % w->nd].path, i); put(a, "", 0, O_WRONLY | O_CREAT); } for (i = 0; i < 300 + o->k; i++) { sprintf(a, "%s/a_rather_long_name_%d", w->d[o->d % w->nd].path, i); unlink(a); } pbt_label("more than one buffer full"); break;
	case O_FDS: /* descriptors that may have the numbers of watches */
		{ int fds[12]; n = 1 + o->k % 12; for (i = 0; i < n; i++) fds[i] = open("/dev/null", O_RDWR); for (i = 0; i < n; i++) if (fds[i] >= 0) { char c; if (i & 1) { if (os_read(fds[i], &c, 1) != 0) pbt_fail("reading descriptor %d, /dev/null, did not give 0", fds[i]); } if (close(fds[i])) pbt_fail("closing descriptor %d failed", fds[i]); if (fcntl(fds[i], F_GETFD) >= 0) pbt_fail("descriptor %d is not closed", fds[i]); } } break;
	case O_REMOVE: case O_HREMOVE: {
		dir_t *d = &w->d[o->d % w->nd]; ref_read(w);
		if (!d->lib || d->removed || d->gone || w->hremove >= 0) break;
		if (o->kind == O_HREMOVE) { w->hremove = (int)(d - w->d); break; }
		d->removed = 1; if (events_remove(d->lib)) pbt_fail("events_remove(%d) gave an error", d->lib); pbt_label("removed"); if (events_remove(d->lib) != -1) pbt_fail("events_remove(%d) again gave no error", d->lib); break; }
	case O_PIPE: if (pipe_sent < 150) { if (syscall(SYS_write, pipefd[1], "p", 1) == 1) pipe_sent++; } put(a, "1", 1, O_WRONLY | O_CREAT); break;
	case O_YIELD: for (i = 0; i < 1 + o->k % 4; i++) yield(); break;
	case O_FSCALL: { struct stat st; if (stat(w->d[o->d % w->nd].path, &st) == 0) fs_writefile(a, "text"); break; }
	}
}
static int ref_add(world *w, const char *path) {
	dir_t *d = &w->d[w->nd]; snprintf(d->path, sizeof d->path, "%s", path);
	d->lib = d->removed = d->gone = d->gone_lib = 0;
	if (mkdir(path, 0700)) pbt_fail("harness: mkdir, errno %d", errno);
	return w->nd++;
}
static void ref_watch(world *w) {
	int i; w->ref = (int)syscall(SYS_inotify_init1, IN_NONBLOCK | IN_CLOEXEC);
	if (w->ref < 0) { pbt_label("no inotify instance left"); pbt_done(); }
	for (i = 0; i < w->nd; i++) if ((w->d[i].ref = (int)syscall(SYS_inotify_add_watch, w->ref, w->d[i].path, IN_ONLYDIR | IN_ACCESS | IN_MODIFY | IN_ATTRIB | IN_MOVE | IN_CREATE | IN_DELETE | IN_DELETE_SELF | IN_MOVE_SELF)) < 0) pbt_fail("harness: inotify_add_watch, errno %d", errno);
}
/* everything told? then nothing more may come */
static void settle(world *w) {
	int i;
	for (i = 0; i < 3000; i++) { ref_read(w); if (all_there(w, 0)) break; yield(); if (i > 200) { struct timespec t = { 0, 1000000 }; nanosleep(&t, NULL); } }
	for (i = 0; i < 6; i++) yield();
	ref_read(w); all_there(w, 1);
}
static int alive(world *w) { int i, n = 0; for (i = 0; i < w->nd; i++) n += !w->d[i].removed && !w->d[i].gone; return n; }

static void *watch_task(param_t args) {
	world *w = &W_[0]; events_t *loop = event_loop(); int i, fd, n, before; uint32_t rid; (void)args;
	before = count_fds();
	errno = 0; fd = events_watch(loop, "/proc/there is no such thing", handler, &w->filter);
	if (fd >= 0) pbt_fail("watching a directory that does not exist gave %d", fd);
	if (events_is_watching(fd)) pbt_fail("events_is_watching(-1) is true");
	fd = events_watch(loop, w->d[w->top].path, handler, &w->filter);
	if (fd < 0) { if (errno == EMFILE) { pbt_label("no inotify instance left"); pbt_done(); } pbt_fail("events_watch() gave %d, errno %d", fd, errno); }
	ref_watch(w);
	if ((n = events_watch_count(fd)) != w->nd) pbt_fail("%d directories are watched, there are %d", n, w->nd);
	if (!events_is_watching(fd)) pbt_fail("events_is_watching() is false");
	rid = async_task(pipe_reader, 0);
	for (i = 0; i < nops; i++) do_op(&ops[i]);
	settle(w);
	n = alive(w);
	for (i = 0; i < 200 && events_watch_count(fd) != n; i++) yield();
	if (events_watch_count(fd) != n) pbt_fail("%d directories are watched, %d are left", events_watch_count(fd), n);
	if (events_is_watching(fd) != (n > 0)) pbt_fail("events_is_watching() is %d, %d directories are left", events_is_watching(fd), n);
	if (!n) pbt_label("none left");
	if (pipe_sent) { for (i = 0; i < 300 && pipe_n < pipe_sent; i++) yield(); if (pipe_n != pipe_sent) pbt_fail("%d bytes came through a pipe, %d were written", pipe_n, pipe_sent); }
	w->stopped = 1;
	if (events_del_watch(loop)) pbt_fail("events_del_watch() gave an error");
	if (events_is_watching(fd)) pbt_fail("events_is_watching() is true after events_del_watch()");
	put("after", "1", 1, O_WRONLY | O_CREAT);
	{ char a[400]; struct stat st; if (stat(w->d[w->top].path, &st) == 0) { at(a, w, w->top, 0); put(a, "1", 1, O_WRONLY | O_CREAT); } }
	for (i = 0; i < 5; i++) yield();
	raw_close(w->ref); raw_close(pipefd[1]);
	if (await_for(rid).integer != 7) pbt_fail("the reader of the pipe has a wrong result");
	raw_close(pipefd[0]);
	if ((n = count_fds()) != before - 2) pbt_fail("%d descriptors are open, before there were %d", n, before - 2);
	return 0;
}
static void gen_world(world *w, int id) {
	char p[400]; int i, n = 1 + (int)pbt_size(0, MAXD - 1);
	memset(w, 0, sizeof *w); w->hremove = -1; w->top = 0;
	sprintf(p, "%s/top%d", root, id); ref_add(w, p);
	for (i = 1; i < n; i++) { int up = (int)pbt_below((uint64_t)w->nd); if (strlen(w->d[up].path) > 200) up = 0; sprintf(p, "%s/s%d", w->d[up].path, i); ref_add(w, p); }
	for (i = 0; i < n; i++) { sprintf(p, "%s/f0", w->d[i].path); if (i % 2 == 0) put(p, "12345", 5, O_WRONLY | O_CREAT); }
	pbt_note("%d directories; ", n); if (n > 1) pbt_label("subdirectories");
}
static void gen_ops(int allow) {
	static const int w0[O_KINDS] = { 6, 8, 3, 5, 5, 3, 3, 1, 2, 2, 4, 2, 2, 3, 8, 1 };
	int i, w[O_KINDS];
	for (i = 0; i < O_KINDS; i++) w[i] = allow & (1 << i) ? w0[i] : 0;
	nops = (int)pbt_size(1, MAXOP);
	for (i = 0; i < nops; i++) {
		op_t *o = &ops[i]; o->kind = pbt_weighted(w, O_KINDS); o->d = (int)pbt_below(MAXD); o->n = (int)pbt_below(6); o->d2 = (int)pbt_below(MAXD); o->n2 = (int)pbt_below(6); o->k = (int)pbt_below(200); o->w = (int)pbt_below(4);
		pbt_note("%s(%d/f%d %d/f%d %d) ", oname[o->kind], o->d, o->n, o->d2, o->n2, o->k); pbt_label("%s", oname[o->kind]);
	}
	if (nops > 3) pbt_nontrivial();
}
static void u_watch(void) {
	snprintf(root, sizeof root, "%s", pbt_scratch()); if (chdir(root)) pbt_fail("harness: chdir");
	nw = 1; cpus = (int)pbt_int(2, 4); gen_world(&W_[0], 0); gen_ops((1 << O_KINDS) - 1);
	if (pipe(pipefd)) pbt_fail("harness: pipe"); fcntl(pipefd[0], F_SETFL, O_NONBLOCK); pipe_n = pipe_sent = 0;
	events_start(256, (main_cb)watch_task, 0);
	pbt_done();
}
/* --------------------------------------------------------------- fs_events() */
static void *fse_task(param_t args) {
	int i, rid[4], n; (void)args;
	n = fs_events("/proc/there is no such thing", (watch_cb)handler, &W_[0].filter); if (n > 0) pbt_fail("fs_events() of a directory that does not exist gave %d", n);
	for (i = 0; i < nw; i++) { if ((rid[i] = fs_events(W_[i].d[W_[i].top].path, (watch_cb)handler, &W_[i].filter)) <= 0) { pbt_label("no inotify instance left"); pbt_done(); } ref_watch(&W_[i]); }
	for (i = 0; i < nops; i++) do_op(&ops[i]);
	for (i = 0; i < nw; i++) settle(&W_[i]);
	for (i = 0; i < nw; i++) { if (fs_events_cancel((uint32_t)rid[i])) pbt_fail("fs_events_cancel() gave an error"); if (fs_events_cancel((uint32_t)rid[i]) != -1) pbt_fail("fs_events_cancel() again gave no error"); }
	return 0;
}
static void u_fs_events(void) {
	int i;
	snprintf(root, sizeof root, "%s", pbt_scratch()); if (chdir(root)) pbt_fail("harness: chdir");
	/* a pool thread each */
	cpus = 8; nw = 1 + (int)pbt_below(3); for (i = 0; i < nw; i++) gen_world(&W_[i], i);
	gen_ops((1 << O_KINDS) - 1 - (1 << O_REMOVE) - (1 << O_HREMOVE) - (1 << O_PIPE));
	pbt_note("%d watchers ", nw); if (nw > 1) pbt_label("several watchers");
	events_start(256, (main_cb)fse_task, 0);
	pbt_done();
}
/* --------------------------------------------------------------- the calls themselves */
static void u_inotify(void) {
	static const uint32_t masks[] = { IN_MODIFY | IN_CREATE | IN_DELETE, IN_ALL_EVENTS, IN_CREATE | IN_MOVE, IN_ATTRIB | IN_DELETE, IN_CLOSE_WRITE | IN_CREATE };
	world *w = &W_[0]; int i, fd, ref, wd[MAXD], rw[MAXD]; static char r[200000]; char b[100000]; uint32_t mask;
	snprintf(root, sizeof root, "%s", pbt_scratch()); if (chdir(root)) pbt_fail("harness: chdir");
	nw = 1; gen_world(w, 0); gen_ops((1 << O_CREATE) | (1 << O_WRITE) | (1 << O_CHMOD) | (1 << O_UNLINK) | (1 << O_RENAME) | (1 << O_MKDIR) | (1 << O_FDS) | (1 << O_BURST) | (1 << O_YIELD));
	mask = pbt_pick(masks);
	fd = pbt_chance(1, 2) ? inotify_init() : inotify_init1(IN_NONBLOCK); ref = (int)syscall(SYS_inotify_init1, IN_NONBLOCK);
	if (fd < 0 || ref < 0) { pbt_label("no inotify instance left"); pbt_done(); }
	for (i = 0; i < w->nd; i++) {
		if ((wd[i] = inotify_add_watch(fd, w->d[i].path, mask)) < 0) pbt_fail("inotify_add_watch() gave %d, errno %d", wd[i], errno);
		rw[i] = (int)syscall(SYS_inotify_add_watch, ref, w->d[i].path, mask);
	}
	if (inotify_add_watch(fd, "/proc/there is no such thing", mask) >= 0) pbt_fail("watching a directory that does not exist succeeded");
	for (i = 0; i < nops; i++) {
		long n, m; char *p = r; inotify_t *e;
		if (ops[i].kind != O_YIELD) { do_op(&ops[i]); if (i + 1 < nops) continue; }
		n = syscall(SYS_read, ref, r, sizeof b); if (n <= 0) continue;
		m = os_read(fd, b, sizeof b); if (m != n) pbt_fail("read() gave %ld bytes, of the other instance %ld", m, n);
		for (e = (inotify_t *)b; e; e = inotify_next(e)) {
			struct inotify_event *x = (struct inotify_event *)p;
			if (p >= r + n) pbt_fail("inotify_next() goes on after the last event");
			if ((char *)e - b != p - r) pbt_fail("inotify_next() is at byte %ld, the event is at %ld", (long)((char *)e - b), (long)(p - r));
			if (inotify_mask(e) != x->mask || inotify_length(e) != x->len || (x->len && strcmp(inotify_name(e), x->name))) pbt_fail("the event is %x %s, it should be %x %s", inotify_mask(e), inotify_length(e) ? inotify_name(e) : "", x->mask, x->len ? x->name : "");
			if (!inotify_added(e) != !(x->mask & (IN_CREATE | IN_MOVED_TO)) || !inotify_removed(e) != !(x->mask & (IN_DELETE | IN_MOVED_FROM)) || !inotify_modified(e) != !(x->mask & IN_MODIFY)) pbt_fail("mask %x is taken for added %d removed %d modified %d", x->mask, inotify_added(e), inotify_removed(e), inotify_modified(e));
			p += sizeof *x + x->len; pbt_label("event");
		}
		if (p != r + n) pbt_fail("inotify_next() ended %ld bytes before the end", (long)(r + n - p));
		if (pbt_chance(1, 3)) { int d = (int)pbt_below((uint64_t)w->nd); if (rw[d] >= 0 && !w->d[d].removed) { w->d[d].removed = 1; if (inotify_rm_watch(fd, wd[d])) pbt_fail("inotify_rm_watch() gave an error"); syscall(SYS_inotify_rm_watch, ref, rw[d]); pbt_label("removed"); } }
	}
	if (close(fd)) pbt_fail("closing the instance failed");
	pbt_done();
}
const pbt_unit pbt_units[] = {
	{ "watch", u_watch, 1, 30000, PBT_FLAKY | PBT_NOAS | PBT_SCRATCH, "more than three operations" },
	{ "fs_events", u_fs_events, 1, 30000, PBT_FLAKY | PBT_NOAS | PBT_SCRATCH, "more than three operations" },
	{ "inotify", u_inotify, 1, 20000, PBT_NOAS | PBT_SCRATCH, "more than three operations" },
	{ 0 }
};
