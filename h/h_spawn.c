/* Child processes: spawn(), spawn_cgi() with their callbacks, exec() with redirected descriptors.
 * The children are this program itself: with C20CHILD in the environment it follows the script in
 * its arguments before main() and leaves. */
#include "events_internal.h"
#include "pbt.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <errno.h>
#include <dirent.h>
#include <signal.h>
#include <fcntl.h>
#include <sys/wait.h>
#include <sys/syscall.h>
#include <sys/resource.h>
#include <sys/epoll.h>
#include "posix_names.h"
#include <sys/time.h>
#undef unlink
#undef access
#include "vclock.h"

#define BIG 300000
/* what starting a process needs can be refused: the n-th vfork(), pipe2() or eventfd() of a run is */
static int fail_vfork, fail_pipe, fail_eventfd, refused; int vfork_now;
#ifdef __x86_64__
int vfork_count(void);
int vfork_count(void) { vfork_now = fail_vfork && !--fail_vfork; if (vfork_now) refused++; return vfork_now; }
__asm__(".text\n.globl vfork\n.type vfork,@function\nvfork:\n"
	"subq $8,%rsp\ncall vfork_count\naddq $8,%rsp\ntestl %eax,%eax\njnz 2f\n"
	"popq %rdi\nmovl $58,%eax\nsyscall\npushq %rdi\ntestl %eax,%eax\njs 2f\nret\n"
	"2: subq $8,%rsp\ncall __errno_location\nmovl $11,(%rax)\naddq $8,%rsp\nmovq $-1,%rax\nret\n.size vfork,.-vfork\n");
#endif
static int fail_add, outs[64], nouts; /* the read ends of pipes made by spawn() */
int pipe2(int *v, int flags) { int r; if (fail_pipe && !--fail_pipe) { refused++; errno = EMFILE; return -1; } r = (int)syscall(SYS_pipe2, v, flags); if (!r && nouts < 64) outs[nouts++] = v[0]; return r; }
int epoll_ctl(int ep, int op, int fd, struct epoll_event *ev) {
	int i;
	if (op == EPOLL_CTL_ADD && fail_add) for (i = 0; i < nouts; i++) if (outs[i] == fd) { nouts = 0; if (!--fail_add) { refused++; errno = ENOSPC; return -1; } break; }
	return (int)syscall(SYS_epoll_ctl, ep, op, fd, ev);
}
int eventfd(unsigned n, int flags) { if (fail_eventfd && !--fail_eventfd) { refused++; errno = EMFILE; return -1; } return (int)syscall(SYS_eventfd2, n, flags); }
static uint8_t mix(int c, long pos) { uint32_t h = (uint32_t)(pos * 2654435761u) ^ (uint32_t)(c * 97 + 7) * 40503u; h ^= h >> 15; h *= 2246822519u; h ^= h >> 13; return (uint8_t)h; }

/* --------------------------------------------------------------- the child's side
 * script arguments: o<n>.<seed>.<pos> n pattern bytes to stdout     e<n>.<seed> n bytes to stderr
 * r<n> read n bytes of stdin and write them back, inverted          w  wait for one byte of stdin
 * z<ms> sleep   c close stdout   a report arguments   v report the environment   s session leader?
 * n  report blocking modes, working directory   q  echo stdin until its end
 * x<code> exit   k<signal> kill itself; anything else is a plain argument */
static void out(int fd, const void *p, size_t n) { const char *c = p; while (n) { ssize_t r = write(fd, c, n); if (r < 0 && errno == EINTR) continue; if (r < 0 && errno == EBADF) return; if (r <= 0) _exit(201); c += r; n -= (size_t)r; } }
static void in_exact(char *b, long n) { while (n > 0) { ssize_t r = read(0, b, (size_t)n); if (r < 0 && errno == EINTR) continue; if (r < 0) _exit(202); if (r == 0) _exit(203); b += r; n -= r; } }
static char cbuf[BIG + 8];
__attribute__((constructor)) static void child_main(int argc, char **argv, char **envp) {
	int i, j; long n, k; int seed; char *p;
	if (!getenv("C20CHILD")) return;
	if (argc == 1) { out(1, "bare", 4); _exit(77); }
	for (i = 1; i < argc; i++) {
		p = argv[i] + 1;
		switch (argv[i][0]) {
		case 'o': n = strtol(p, &p, 10); seed = (int)strtol(p + 1, &p, 10); k = strtol(p + 1, &p, 10);
			for (j = 0; j < n; j++) cbuf[j] = (char)mix(seed, k + j);
			out(1, cbuf, (size_t)n); break;
		case 'e': n = strtol(p, &p, 10); seed = (int)strtol(p + 1, &p, 10);
			for (j = 0; j < n; j++) cbuf[j] = (char)mix(seed, j);
			out(2, cbuf, (size_t)n); break;
		case 'r': n = atol(p); in_exact(cbuf, n); for (j = 0; j < n; j++) cbuf[j] = (char)~cbuf[j]; out(1, cbuf, (size_t)n); break;
		case 'w': in_exact(cbuf, 1); break;
		case 'q': for (;;) { ssize_t r = read(0, cbuf, 4096); if (r < 0 && errno == EINTR) continue; if (r < 0) _exit(204); if (r == 0) break; for (j = 0; j < r; j++) cbuf[j] = (char)~cbuf[j]; out(1, cbuf, (size_t)r); } break;
		case 'z': usleep((useconds_t)atol(p) * 1000); break;
		case 'c': close(1); break;
		case 'a': for (j = 0; j < argc; j++) { out(1, argv[j], strlen(argv[j])); out(1, "\x01", 1); } break;
		case 'v': for (j = 0; envp[j]; j++) if (*envp[j]) { out(1, envp[j], strlen(envp[j])); out(1, "\x01", 1); } break;
		case 's': out(1, getsid(0) == getpid() ? "S" : "-", 1); break;
		case 'n': out(1, fcntl(0, F_GETFL) & O_NONBLOCK ? "n" : "b", 1); out(1, fcntl(1, F_GETFL) & O_NONBLOCK ? "n" : "b", 1); break;
		case 'x': _exit(atoi(p));
		case 'k': signal(atoi(p), SIG_DFL); raise(atoi(p)); _exit(205);
		}
	}
	_exit(0);
}

/* --------------------------------------------------------------- the parent's side */
static int open_fds(char *what, int room) {
	int n = 0; DIR *d = opendir("/proc/self/fd"); struct dirent *e; char a[64], l[128]; ssize_t r; *what = 0;
	while ((e = readdir(d))) if (e->d_name[0] != '.' && atoi(e->d_name) != dirfd(d)) {
		n++; snprintf(a, sizeof a, "/proc/self/fd/%s", e->d_name);
		if ((r = readlink(a, l, sizeof l - 1)) > 0 && (int)strlen(what) + r + 12 < room) { l[r] = 0; sprintf(what + strlen(what), "%s:%s ", e->d_name, l); }
	}
	closedir(d);
	return n;
}
#define NS 8
#define MAXOP 10
typedef struct {
	char args[9000]; uint8_t *want; long nwant, got;
	char *feed; long nfeed, fed; int feed_cb;            /* what it reads, written by a task or in the first callback */
	int err_n, err_seed; long feed_before_err;
	struct { long at; } dummy;
	int code, sig, with_io, with_exit, env, started, exited, exits, iocalls, bare, missing, at, pause, slept, closed_out, waits_err, order, refused;
	char *envtext; size_t envsize; char envlist[40000]; int nenv;
	execinfo_t *h; pid_t pid; uint32_t ticks0;
} kid;
static kid K_[NS]; static int nk, alive, spawned; static uint32_t ticks;
static int F_long;

static void addop(kid *k, const char *fmt, ...) {
	va_list ap; size_t l = strlen(k->args);
	if (l) k->args[l++] = ',';
	va_start(ap, fmt); vsnprintf(k->args + l, sizeof k->args - l, fmt, ap); va_end(ap);
}
static void expect(kid *k, const void *p, long n) { if (k->closed_out) return; k->want = realloc(k->want, (size_t)(k->nwant + n + 1)); memcpy(k->want + k->nwant, p, (size_t)n); k->nwant += n; }
static void feed(kid *k, long n, int seed) { long i; k->feed = realloc(k->feed, (size_t)(k->nfeed + n + 1)); for (i = 0; i < n; i++) k->feed[k->nfeed + i] = (char)mix(seed, k->nfeed + i); k->nfeed += n; }
static void draw_kid(kid *k, int id, int can_spawn) {
	int i, n = (int)pbt_size(0, MAXOP); char b[600]; long total_feed = 0;
	k->with_io = pbt_chance(7, 8); k->with_exit = pbt_chance(7, 8); k->env = k->with_io && pbt_chance(1, 3);
	k->feed_cb = pbt_chance(1, 3);
	k->order = (int)pbt_below(3);
	if (!k->env && pbt_chance(1, 12)) { k->bare = 1; if (k->with_io) expect(k, "bare", 4); k->code = 77; return; }
	if (pbt_chance(1, 12)) { k->missing = 1; k->code = 255; return; }
	if (!k->with_io) n = n > 2 ? 2 : n;
	if (k->feed_cb && n) { addop(k, "o1.%d.0", id); uint8_t c = mix(id, 0); expect(k, &c, 1); }
	for (i = 0; i < n; i++) {
		int w[] = { 8, 3, 6, 2, 1, 2, 1, 1 }, what = k->with_io ? pbt_weighted(w, 8) : 1; long m, j;
		if (what == 0) {
			m = pbt_chance(1, 6) ? pbt_int(1, pbt_chance(1, 4) ? 280000 : 40000) : pbt_size(0, 3000);
			if (pbt_chance(1, 10)) m = 32767 + pbt_int(0, 2);
			long pos = pbt_int(0, 1000); uint8_t *t = malloc((size_t)m + 1);
			for (j = 0; j < m; j++) t[j] = mix(id, pos + j);
			addop(k, "o%ld.%d.%ld", m, id, pos); expect(k, t, m); free(t);
			if (m > 32000) pbt_label("more than a buffer of output");
			if (m > 65536) pbt_label("more than a pipe of output");
		} else if (what == 1) { m = pbt_size(0, 12); addop(k, "z%ld", m); if (m > 3) k->slept = 1; pbt_label("sleeps"); }
		else if (what == 2) {
			m = pbt_chance(1, 6) ? pbt_int(1, k->feed_cb ? 20000 : 200000) : pbt_size(1, 2000);
			if (k->feed_cb && total_feed + m > 60000) continue;
			total_feed += m;
			feed(k, m, id + 100);
			uint8_t *t = malloc((size_t)m); for (j = 0; j < m; j++) t[j] = (uint8_t)~k->feed[k->nfeed - m + j];
			addop(k, "r%ld", m); expect(k, t, m); free(t);
			pbt_label(k->feed_cb ? "fed in the callback" : "fed by a task");
		} else if (what == 3) {
			addop(k, "n"); expect(k, "bb", 2);
		} else if (what == 4) {
			if (k->closed_out) continue;
			addop(k, "c"); k->closed_out = 1; addop(k, "z%d", (int)pbt_size(0, 6)); pbt_label("closes its output early");
			break;
		} else if (what == 5 && k->env && !k->err_n && !k->feed_cb) {
			k->err_n = (int)(pbt_chance(1, 4) ? pbt_int(1, 60000) : pbt_size(1, 500)); k->err_seed = id + 50; k->feed_before_err = k->nfeed;
			addop(k, "e%d.%d", k->err_n, k->err_seed); addop(k, "w"); feed(k, 1, 3);
			pbt_label("writes to stderr");
		} else if (what == 6 && !strchr(k->args, 1)) {
			int a, na = 1 + (int)pbt_size(0, 4);
			for (a = 0; a < na; a++) { char t[200]; pbt_str(t, 40, "ab =;.-'\"\\/$&|%\t"); addop(k, "-%s", t); }
			addop(k, "a"); addop(k, "\x02"); /* the list of all arguments comes last: known once the script is complete */
		} else if (what == 7 && k->env) { addop(k, "v"); addop(k, "\x03"); }
	}
	if (pbt_chance(1, 2)) { k->code = (int)pbt_int(0, 255); addop(k, "x%d", k->code); }
	else if (pbt_chance(1, 3)) { static const int s[] = { SIGKILL, SIGTERM, SIGUSR1, SIGABRT, SIGINT }; k->sig = pbt_pick(s); addop(k, "k%d", k->sig); }
	else if (!k->args[0]) addop(k, "x0");
	/* the environment of a spawn_cgi() */
	if (k->env) {
		int ne = 1 + (int)pbt_size(0, 5), e; char kb[40], *vb = malloc(20000), *kk[3], *vv[3]; int m = 0;
		kk[0] = strdup("C20CHILD"); vv[0] = strdup("1"); m = 1;
		for (e = 0; e < ne; e++) {
			if (e) {
				sprintf(kb, "%c%d", 'A' + (int)pbt_below(26), e); pbt_str(vb, 30, "ab =,.:/\\\"'\t-%");
				if (pbt_chance(1, 10)) { long l = pbt_int(1000, 9000); memset(vb, 'L', (size_t)l); vb[l] = 0; pbt_label("long environment value"); }
				kk[m] = strdup(kb); vv[m] = strdup(vb); m++;
			}
			if (m == 3 || e == ne - 1 || pbt_chance(1, 2)) {
				int q;
				if (m) {
					k->envtext = m == 1 ? exec_addenv(k->envtext, &k->envsize, 1, kk[0], vv[0]) : m == 2 ? exec_addenv(k->envtext, &k->envsize, 2, kk[0], vv[0], kk[1], vv[1])
						: exec_addenv(k->envtext, &k->envsize, 3, kk[0], vv[0], kk[1], vv[1], kk[2], vv[2]);
					for (q = 0; q < m; q++) { if (strlen(k->envlist) + strlen(vv[q]) + 60 < sizeof k->envlist) sprintf(k->envlist + strlen(k->envlist), "%s=%s%c", kk[q], vv[q], 1); else pbt_fail("harness: room"); free(kk[q]); free(vv[q]); }
					if (strlen(k->envtext) != k->envsize) pbt_fail("exec_addenv(): size %zu, the text has %zu", k->envsize, strlen(k->envtext));
				}
				m = 0;
				if (strlen(k->envlist) > 2500) break;
			}
		}
		free(vb);
		{ size_t i2, j2 = 0; for (i2 = 0; k->envlist[i2]; i2++) { char c = k->envlist[i2] == 1 ? ';' : k->envlist[i2]; if (k->envtext[j2++] != c) pbt_fail("exec_addenv() gave '%s'", k->envtext); } if (j2 != strlen(k->envtext)) pbt_fail("exec_addenv() gave '%s'", k->envtext); }
		pbt_label("own environment");
	}
	(void)b; (void)can_spawn;
}
/* fill in what only the complete script knows */
static void complete(kid *k, const char *command) {
	/* markers \x02 and \x03 in the argument list follow the `a` and `v` they belong to; here the
	   expected output is built anew, in order */
	char *copy = strdup(k->args), *save = NULL, *t; uint8_t *old = k->want; long oldn = k->nwant; long nf = 0; int closed = 0;
	if (k->bare || k->missing) { free(copy); return; }
	k->want = NULL; k->nwant = 0; closed = k->closed_out; k->closed_out = 0;
	for (t = strtok_r(copy, ",", &save); t; t = strtok_r(NULL, ",", &save)) {
		char *p = t + 1; long n, pos, j; int seed;
		if (*t == 'o') { n = strtol(p, &p, 10); seed = (int)strtol(p + 1, &p, 10); pos = strtol(p + 1, &p, 10); uint8_t *b = malloc((size_t)n + 1); for (j = 0; j < n; j++) b[j] = mix(seed, pos + j); expect(k, b, n); free(b); }
		else if (*t == 'r') { n = atol(p); uint8_t *b = malloc((size_t)n + 1); for (j = 0; j < n; j++) b[j] = (uint8_t)~k->feed[nf + j]; nf += n; expect(k, b, n); free(b); }
		else if (*t == 'w') nf++;
		else if (*t == 'n') expect(k, "bb", 2);
		else if (*t == 'c') k->closed_out = 1;
		else if (*t == 'a' && !t[1]) { char *s; expect(k, command, (long)strlen(command) + 1); k->want[k->nwant - 1] = 1; for (s = k->args; *s; s++) { char c = *s == ',' ? 1 : *s; expect(k, &c, 1); } expect(k, "\x01", 1); }
		else if (*t == 'v' && !t[1]) expect(k, k->envlist, (long)strlen(k->envlist));
	}
	free(copy); (void)old; (void)oldn; (void)closed;
	free(old);
}
static void io_cb(int id, fds_t to, size_t n, char *p) {
	kid *k = &K_[id]; size_t i;
	vc_active();
	k->iocalls++;
	if (k->exits) pbt_fail("child %d: output after its exit", id);
	if (k->refused) pbt_fail("child %d: output, it was never started", id);
	if (n == 0) pbt_fail("child %d: a callback without output", id);
	if (p[n]) pbt_fail("child %d: the output text is not ended", id);
	for (i = 0; i < n; i++, k->got++) {
		if (k->got >= k->nwant) pbt_fail("child %d: byte %ld of the output, it wrote %ld", id, k->got, k->nwant);
		if ((uint8_t)p[i] != k->want[k->got]) pbt_fail("child %d: byte %ld of the output is %d, it wrote %d", id, k->got, (uint8_t)p[i], k->want[k->got]);
	}
	if (k->h && (int)to != (int)exec_fdin(k->h)) pbt_fail("child %d: the callback is given descriptor %d for its input, exec_fdin() says %d", id, (int)to, (int)exec_fdin(k->h));
	if (k->feed_cb && k->nfeed && !k->fed) { k->fed = k->nfeed; if (write(to, k->feed, (size_t)k->nfeed) != k->nfeed) pbt_fail("child %d: its input takes less than %ld bytes at once, errno %d", id, k->nfeed, errno); }
	errno = (int)(k->got % 7);
}
static void exit_cb_(int id, int64_t status, int sig) {
	kid *k = &K_[id];
	vc_active();
	if (k->exits++) pbt_fail("child %d: second exit", id);
	if (k->refused) pbt_fail("child %d: an exit, it was never started", id);
	if (k->with_io && k->got != k->nwant) pbt_fail("child %d: its exit is told after %ld of %ld bytes of output", id, k->got, k->nwant);
	if (!k->sig && (status != k->code || sig != 0)) pbt_fail("child %d exited with %d, the callback got status %lld and signal %d", id, k->code, (long long)status, sig);
	if (k->sig && (sig != k->sig || status == 0)) pbt_fail("child %d was killed by signal %d, the callback got status %lld and signal %d", id, k->sig, (long long)status, sig);
	if (k->slept && ticks == k->ticks0) pbt_fail("no other task ran while child %d slept", id);
	if (k->pid && !kill(k->pid, 0)) { /* gone and collected: unless the number is used again */
		char f[64], st[64] = ""; sprintf(f, "/proc/%d/stat", (int)k->pid); FILE *fp = fopen(f, "r"); if (fp) { int pp, par = 0; char c; if (fscanf(fp, "%d %63s %c %d", &pp, st, &c, &par) == 4 && par == getpid()) pbt_fail("child %d exits, but its process is in state %c", id, c); fclose(fp); }
	}
	errno = 5;
}
#define CB(i) static void io##i(fds_t w, size_t n, char *p) { io_cb(i, w, n, p); } static int ex##i(int64_t s, int g) { exit_cb_(i, s, g); return 0; }
CB(0) CB(1) CB(2) CB(3) CB(4) CB(5) CB(6) CB(7)
static const spawn_cb ios[] = { io0, io1, io2, io3, io4, io5, io6, io7 };
static const exit_cb exs[] = { (exit_cb)ex0, (exit_cb)ex1, (exit_cb)ex2, (exit_cb)ex3, (exit_cb)ex4, (exit_cb)ex5, (exit_cb)ex6, (exit_cb)ex7 };
static int tasks_left;
static void *feed_task(param_t args) {
	kid *k = &K_[args[0].integer]; int id = args[0].integer; long got = 0; char *b = malloc(70000);
	while (k->fed < k->nfeed) {
		long upto = k->err_n && k->fed <= k->feed_before_err ? k->feed_before_err : k->nfeed, n;
		if (k->err_n && k->fed == k->feed_before_err) {
			while (got < k->err_n) {
				ssize_t r = read((int)exec_fderr(k->h), b, 70000);
				if (r < 0 && errno == EAGAIN) { yield(); continue; }
				if (r <= 0) pbt_fail("child %d: reading its stderr gave %zd, errno %d", id, r, errno);
				for (ssize_t j = 0; j < r; j++, got++) if (got >= k->err_n || (uint8_t)b[j] != mix(k->err_seed, got)) pbt_fail("child %d: byte %ld of its stderr is wrong", id, got);
				vc_active();
			}
			upto = k->feed_before_err + 1;
		}
		n = upto - k->fed; if (n > 5000 && k->pause) n = 5000;
		errno = 0;
		vc_active();
		int r = async_write((int)exec_fdin(k->h), k->feed + k->fed, (int)n);
		vc_active();
		if (r != n) pbt_fail("child %d: writing %ld bytes to its input gave %d, errno %d", id, n, r, errno);
		k->fed += n;
		if (k->pause && k->fed < k->nfeed) yield();
	}
	free(b); tasks_left--;
	return 0;
}
static void *tick_task(param_t args) { (void)args; while (tasks_left > 1) { ticks++; yield(); } tasks_left--; return 0; }
static int undone; /* spawns that failed */
static int reused; /* spawns so far: a handle may be given again once its process is finished */
static void *spawn_task(param_t args) {
	int id = args[0].integer, i; kid *k = &K_[id]; const char *cmd = k->missing ? "/nonexistent/c20" : "/proc/self/exe"; int gen;
	for (i = 0; i < k->at; i++) yield();
	vc_active();
	k->ticks0 = ticks; k->started = 1; spawned++;
	execinfo_t *h = k->env ? spawn_cgi(cmd, k->bare ? NULL : k->args, k->envtext, k->with_io ? ios[id] : NULL, k->with_exit ? exs[id] : NULL)
		: spawn(cmd, k->bare ? NULL : k->args, k->with_io ? ios[id] : NULL, k->with_exit ? exs[id] : NULL);
	gen = ++reused;
	vc_active();
	if (!h && refused > undone) { /* a child after this one may have been refused meanwhile, but then this one was not */
		undone++; k->refused = 1; pbt_label("not started");
		if (k->exits || k->iocalls) pbt_fail("child %d: %s, it was never started", id, k->exits ? "an exit" : "output");
		k->exited = 1; tasks_left--;
		return 0;
	}
	if (!h) pbt_fail("child %d: spawn() failed, errno %d", id, errno);
	for (i = 0; i < nk; i++) if (i != id && K_[i].h == h && K_[i].with_exit && !K_[i].exits) pbt_fail("children %d and %d have the same handle", i, id);
	k->h = h; k->pid = (pid_t)spawn_pid(h);
	if (k->pid <= 1) pbt_fail("child %d: spawn_pid() is %d", id, (int)k->pid);
	if (!k->exits && kill(k->pid, 0)) pbt_fail("child %d: there is no process %d", id, (int)k->pid);
	if (!k->exits && spawn_is_finish(h)) pbt_fail("child %d: finished, its exit was not told", id);
	if (!k->feed_cb && k->nfeed) { tasks_left++; async_task(feed_task, 1, casting(id)); }
	for (;;) {
		if (k->with_exit ? k->exits : 0) break;
		if (spawn_is_finish(h)) break;
		yield();
	}
	vc_active();
	(void)gen;
	if (k->with_exit) { if (!k->exits) { yield(); yield(); } if (!k->exits) pbt_fail("child %d is finished, its exit is not told", id); }
	if (k->with_io) for (i = 0; i < 2; i++) yield();
	if (k->with_io && k->got != k->nwant) pbt_fail("child %d is finished, %ld of its %ld bytes of output came", id, k->got, k->nwant);
	if (k->nfeed != k->fed) pbt_fail("harness: child %d ended without its input", id);
	k->exited = 1;
	tasks_left--;
	return 0;
}
static void u_spawn(void) {
	int i, before, after, ndup = 0; char wa[4000], wb[4000]; int dups[64]; struct rlimit rl;
	memset(K_, 0, sizeof K_);
	nk = 1 + (int)pbt_size(0, NS - 1);
	rl.rlim_cur = rl.rlim_max = 0; setrlimit(RLIMIT_CORE, &rl);
	sigset_t ss; sigemptyset(&ss); sigaddset(&ss, SIGPIPE); sigprocmask(SIG_BLOCK, &ss, NULL);
	setenv("C20CHILD", "1", 1);
	events_init(1024); /* before exec_addenv(): it decides on the allocator */
	for (i = 0; i < nk; i++) {
		kid *k = &K_[i];
		draw_kid(k, i, 1); k->at = (int)pbt_size(0, 60); k->pause = pbt_chance(1, 2);
		complete(k, k->missing ? "/nonexistent/c20" : "/proc/self/exe");
		if (!k->with_io && k->env) pbt_fail("harness");
		pbt_note("%d: %s%s%s%s at %d%s\n", i, k->env ? "env " : "", k->with_io ? "" : "no io ", k->with_exit ? "" : "no exit ", k->bare ? "(no arguments)" : k->missing ? "(no such program)" : k->args, k->at, k->feed_cb ? " fed in callback" : "");
		if (k->missing) pbt_label("no such program");
		if (k->sig) pbt_label("killed by a signal");
		if (k->nwant > 1 || k->sig || k->code) pbt_nontrivial();
	}
	if (nk > 1) pbt_label("several children");
	events_t *loop = events_create(60);
	if (pbt_chance(1, 2)) { /* descriptors with the numbers the next processes may get */
		int z = open("/dev/null", O_RDONLY), t; struct rlimit r; getrlimit(RLIMIT_NOFILE, &r);
		for (t = getpid() + 1; ndup < 60 && t < (int)r.rlim_cur && t > z; t++) if (fcntl(t, F_GETFD) < 0 && dup3(z, t, O_CLOEXEC) == t) dups[ndup++] = t;
		close(z);
		if (ndup) pbt_label("descriptors numbered like processes");
	}
	if (pbt_chance(1, 12)) for (i = 0; i < 3; i++) if (pbt_chance(1, 2)) { close(i); pbt_note("descriptor %d is closed\n", i); pbt_label("a standard descriptor is closed"); }
	before = open_fds(wa, sizeof wa);
	fail_vfork = fail_pipe = fail_eventfd = fail_add = nouts = refused = undone = 0;
	switch (pbt_chance(1, 3) ? pbt_below(4) : 4) {
	case 0: fail_vfork = 1 + (int)pbt_below((uint64_t)nk); pbt_note("vfork() %d fails\n", fail_vfork); break;
	case 1: fail_pipe = 1 + (int)pbt_below((uint64_t)nk * 2); pbt_note("pipe2() %d fails\n", fail_pipe); break;
	case 2: fail_eventfd = 1 + (int)pbt_below((uint64_t)nk); pbt_note("eventfd() %d fails\n", fail_eventfd); break;
	case 3: fail_add = 1 + (int)pbt_below((uint64_t)nk); pbt_note("epoll_ctl() of output %d fails\n", fail_add); break;
	}
	vc_start(); vc_nap = 500; vc_stuck = 40000;
	tasks_left = nk + 1;
	for (i = 0; i < nk; i++) async_task(spawn_task, 1, casting(i));
	async_task(tick_task, 0);
	async_run(loop);
	if (tasks_left) pbt_fail("the run ended with %d tasks unfinished", tasks_left);
	fail_vfork = fail_pipe = fail_eventfd = fail_add = 0;
	if (undone != refused) pbt_fail("%d processes could not be started, spawn() told of %d", refused, undone);
	for (i = 0; i < nk; i++) {
		kid *k = &K_[i];
		if (k->refused) { if (k->exits || k->iocalls) pbt_fail("child %d: %s, it was never started", i, k->exits ? "an exit" : "output"); continue; }
		if (k->exits != k->with_exit) pbt_fail("child %d: its exit was told %d times", i, k->exits);
		if (k->with_io && k->got != k->nwant) pbt_fail("child %d: %ld of %ld bytes of output came", i, k->got, k->nwant);
	}
	if (waitpid(-1, NULL, WNOHANG) != -1 || errno != ECHILD) pbt_fail("processes are left");
	for (i = 0; i < ndup; i++) if (fcntl(dups[i], F_GETFD) < 0) pbt_fail("descriptor %d of the program was closed", dups[i]);
	for (i = 0; i < ndup; i++) close(dups[i]);
	after = open_fds(wb, sizeof wb) + ndup;
	if (after != before) pbt_fail("%d descriptors are open, before there were %d; before: %s after: %s", after, before, wa, wb);
	pbt_done();
}

/* --------------------------------------------------------------- exec() without callbacks */
typedef struct {
	int ki, out, err;   /* 0 inherited, 1 pipe, 2 file */
	int pin[2], pout[2], perr[2]; char args[600]; uint8_t data[3000]; int ndata; int nout, seed, nerr, code, sig, detached, blocking, storm, done, polls, sleep; process_t ps; execinfo_t *info; pid_t pid;
	char want[7000]; int nwant; int env;
} prog;
static prog P_[6];
static volatile int alarms;
static void on_alarm(int s) { (void)s; alarms++; }
static void scratch(char *b, size_t n, const char *what, int i) { snprintf(b, n, "%s/%s%d", pbt_scratch(), what, i); }
static void slurp(int fd, char *b, int room, int *n) { ssize_t r; *n = 0; while ((r = read(fd, b + *n, (size_t)(room - *n))) > 0) *n += (int)r; }
static void u_exec(void) {
	int n = 1 + (int)pbt_size(0, 5), i, j, left, before, after; char f[300], wa[4000], wb[4000];
	struct rlimit rl; rl.rlim_cur = rl.rlim_max = 0; setrlimit(RLIMIT_CORE, &rl);
	sigset_t ss; sigemptyset(&ss); sigaddset(&ss, SIGPIPE); sigprocmask(SIG_BLOCK, &ss, NULL);
	setenv("C20CHILD", "1", 1);
	events_init(1024);
	before = open_fds(wa, sizeof wa);
	memset(P_, 0, sizeof P_);
	fail_vfork = fail_pipe = fail_eventfd = 0;
	int unstarted = 0, nofork = pbt_chance(1, 5) ? (int)pbt_below((uint64_t)n) : -1;
	for (i = 0; i < n; i++) {
		prog *p = &P_[i]; char *a = p->args;
		p->ki = (int)pbt_below(3); p->out = (int)pbt_below(3); p->err = (int)pbt_below(3); p->detached = pbt_chance(1, 6); p->blocking = pbt_chance(1, 3); p->env = pbt_chance(1, 4);
		p->storm = p->blocking && pbt_chance(1, 2);
		p->seed = i; p->sleep = (int)pbt_size(0, 6);
		a += sprintf(a, "z%d", p->sleep);
		if (p->ki) { p->ndata = (int)pbt_size(0, (int)sizeof p->data); for (j = 0; j < p->ndata; j++) p->data[j] = mix(i + 9, j); }
		if (p->out) {
			if (p->ki) { a += sprintf(a, ",q"); for (j = 0; j < p->ndata; j++) p->want[p->nwant++] = (char)~p->data[j]; }
			j = (int)pbt_size(0, 3000); a += sprintf(a, ",o%d.%d.0", j, p->seed); for (int q = 0; q < j; q++) p->want[p->nwant++] = (char)mix(p->seed, q);
			a += sprintf(a, ",s"); p->want[p->nwant++] = p->detached ? 'S' : '-';
			if (p->env) { a += sprintf(a, ",v"); p->nwant += sprintf(p->want + p->nwant, "C20CHILD=1%cX%d=y=%d%c", 1, i, i, 1); }
		}
		if (p->err) { p->nerr = (int)pbt_size(0, 3000); a += sprintf(a, ",e%d.%d", p->nerr, i + 40); }
		if (pbt_chance(1, 2)) { p->code = (int)pbt_below(256); a += sprintf(a, ",x%d", p->code); }
		else if (pbt_chance(1, 3)) { p->sig = pbt_chance(1, 2) ? SIGKILL : SIGTERM; a += sprintf(a, ",k%d", p->sig); }
		static const char *io[] = { "inherited", "pipe", "file" };
		pbt_note("%d: %s, %s %s %s%s%s%s\n", i, p->args, io[p->ki], io[p->out], io[p->err], p->detached ? " detached" : "", p->storm ? " blocking, signals" : p->blocking ? " blocking" : "", p->env ? " env" : "");
		/* the descriptors */
		p->pin[0] = p->pin[1] = p->pout[0] = p->pout[1] = p->perr[0] = p->perr[1] = -1;
		if (p->ki == 1) { if (pipe2(p->pin, O_CLOEXEC)) pbt_fail("harness: pipe"); }
		if (p->ki == 2) { scratch(f, sizeof f, "in", i); int w = open(f, O_RDWR | O_CREAT | O_TRUNC | O_CLOEXEC, 0600); if (w < 0 || write(w, p->data, (size_t)p->ndata) != p->ndata) pbt_fail("harness: file"); lseek(w, 0, SEEK_SET); p->pin[0] = w; }
		if (p->out == 1 && pipe2(p->pout, O_CLOEXEC)) pbt_fail("harness: pipe");
		if (p->out == 2) { scratch(f, sizeof f, "out", i); p->pout[1] = open(f, O_RDWR | O_CREAT | O_TRUNC | O_CLOEXEC, 0600); p->pout[0] = open(f, O_RDONLY | O_CLOEXEC); }
		if (p->err == 1 && pipe2(p->perr, O_CLOEXEC)) pbt_fail("harness: pipe");
		if (p->err == 2) { scratch(f, sizeof f, "err", i); p->perr[1] = open(f, O_RDWR | O_CREAT | O_TRUNC | O_CLOEXEC, 0600); p->perr[0] = open(f, O_RDONLY | O_CLOEXEC); }
		char *env = NULL; size_t es = 0;
		if (p->env) { char k[12], v[12]; sprintf(k, "X%d", i); sprintf(v, "y=%d", i); env = exec_addenv(NULL, &es, 2, "C20CHILD", "1", k, v); }
		p->info = exec_info(env, p->detached, p->ki ? p->pin[0] : inherit, p->out ? p->pout[1] : inherit, p->err ? p->perr[1] : inherit);
		if (env) events_free(env);
		if (nofork == i) { pbt_note("vfork() fails\n"); fail_vfork = 1; refused = 0; }
		p->ps = exec("/proc/self/exe", p->args, p->info);
		if (nofork == i && !refused) fail_vfork = 0;
		if (nofork == i && refused) {
			if ((int)p->ps >= 0) pbt_fail("program %d: exec() gave %d, vfork() failed", i, (int)p->ps);
			if (errno != EAGAIN) pbt_fail("program %d: exec() failed with errno %d", i, errno);
			if (exec_wait(p->ps, 0, &j) != -1) pbt_fail("program %d was never started, exec_wait() tells its end", i);
			for (j = 0; j < 2; j++) { if (p->pin[j] >= 0) close(p->pin[j]); if (p->pout[j] >= 0) close(p->pout[j]); if (p->perr[j] >= 0) close(p->perr[j]); }
			p->done = 1; unstarted = 1; p->ps = -1; p->pid = -1; pbt_label("not started"); continue;
		}
		p->pid = (pid_t)spawn_pid(p->info);
		if (p->pid <= 1) pbt_fail("program %d: spawn_pid() is %d", i, (int)p->pid);
		for (j = 0; j < i; j++) if (!P_[j].done && (P_[j].ps == p->ps || P_[j].pid == p->pid)) pbt_fail("programs %d and %d have the same handle", i, j);
		if (p->ki == 1) { close(p->pin[0]); if (write(p->pin[1], p->data, (size_t)p->ndata) != p->ndata) { if (errno != EPIPE || p->out) pbt_fail("program %d: its input is closed", i); } close(p->pin[1]); p->pin[0] = p->pin[1] = -1; }
		if (p->pin[0] >= 0) close(p->pin[0]);
		if (p->out) close(p->pout[1]);
		if (p->err) close(p->perr[1]);
		if (p->ki || p->out || p->err) pbt_nontrivial();
		if (p->sig) pbt_label("killed");
		if (p->detached) pbt_label("detached");
	}
	left = n - unstarted;
	while (left) {
		i = (int)pbt_below((uint64_t)n); while (P_[i].done) i = (i + 1) % n;
		prog *p = &P_[i]; int code = -4242, r;
		if (p->detached) {
			int st; siginfo_t si;
			if (waitid(P_PID, (id_t)p->pid, &si, WEXITED | WNOWAIT)) pbt_fail("program %d: its process is gone", i);
			if ((r = exec_wait(p->ps, 0, &code)) != 0) pbt_fail("program %d, detached: exec_wait() gave %d", i, r);
			if (waitpid(p->pid, &st, 0) == p->pid) { if (p->sig ? !WIFSIGNALED(st) || WTERMSIG(st) != p->sig : !WIFEXITED(st) || WEXITSTATUS(st) != p->code) pbt_fail("program %d, detached: status %x", i, st); }
			os_close((int)p->ps);
		} else if (p->blocking) {
			int storm = p->storm; struct itimerval on = { { 0, 700 }, { 0, 300 } }, off = { { 0, 0 }, { 0, 0 } };
			if (storm) { struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = on_alarm; sigaction(SIGALRM, &sa, NULL); setitimer(ITIMER_REAL, &on, NULL); }
			r = exec_wait(p->ps, 100000, pbt_chance(1, 6) ? NULL : &code); j = errno;
			if (storm) { setitimer(ITIMER_REAL, &off, NULL); signal(SIGALRM, SIG_IGN); if (alarms) pbt_label("signals while waiting"); }
			if (r != 0) pbt_fail("program %d: exec_wait() gave %d, errno %d", i, r, j);
		} else {
			if (++p->polls > 60) { siginfo_t si; waitid(P_PID, (id_t)p->pid, &si, WEXITED | WNOWAIT); }
			errno = 0;
			r = exec_wait(p->ps, 0, &code);
			if (r == -1 && errno == ETIMEDOUT) { if (p->polls > 61) pbt_fail("program %d has ended, exec_wait() says it runs", i); usleep(200); continue; }
			if (r != 0) pbt_fail("program %d: exec_wait() gave %d, errno %d", i, r, errno);
		}
		if (code != -4242 && code != (p->sig ? -p->sig : p->code)) pbt_fail("program %d: exec_wait() says %d, it ended with %d", i, code, p->sig ? -p->sig : p->code);
		if (!p->detached && !kill(p->pid, 0)) { siginfo_t si; memset(&si, 0, sizeof si); if (!waitid(P_PID, (id_t)p->pid, &si, WEXITED | WNOWAIT | WNOHANG) && si.si_pid == p->pid) pbt_fail("program %d is a zombie", i); }
		p->done = 1; left--;
		static char b[20000]; int m;
		if (p->out) { slurp(p->pout[0], b, sizeof b, &m); if (m != p->nwant || memcmp(b, p->want, (size_t)m)) { pbt_note_str("output", b, (size_t)(m > 400 ? 400 : m)); pbt_note_str("expected", p->want, (size_t)(p->nwant > 400 ? 400 : p->nwant)); pbt_fail("program %d: its output has %d bytes, it wrote %d", i, m, p->nwant); }; close(p->pout[0]); }
		if (p->err) { slurp(p->perr[0], b, sizeof b, &m); for (j = 0; j < m && (uint8_t)b[j] == mix(i + 40, j); j++); if (m != p->nerr || j != m) pbt_fail("program %d: its stderr has %d bytes, it wrote %d", i, m, p->nerr); close(p->perr[0]); }
	}
	after = open_fds(wb, sizeof wb);
	if (after != before) pbt_fail("%d descriptors are open, before there were %d; before: %s after: %s", after, before, wa, wb);
	if (waitpid(-1, NULL, WNOHANG) != -1 || errno != ECHILD) pbt_fail("processes are left");
	pbt_done();
}
const pbt_unit pbt_units[] = {
	{ "spawn", u_spawn, 1, 60000, PBT_SCRATCH, "a child writes, exits with a code or is killed" },
	{ "exec", u_exec, 1, 60000, PBT_SCRATCH, "a program with redirected descriptors" },
	{ 0 }
};
