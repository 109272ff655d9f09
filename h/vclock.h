/* A virtual clock for everything that runs on the harness' main thread, and a stand-in for the
 * pool thread that events_create() starts (it would spin until shutdown). Time moves only when
 * the scheduler polls: a small step, or a jump to just before the next deadline known here. */
#include <sys/syscall.h>
#include <sys/epoll.h>
#include <errno.h>
#include <time.h>
#include <pthread.h>

static int vc_on, vc_threads;       /* vc_threads: let real threads be created */
static int64_t vc_ns = 1700000000ll * 1000000000ll;
static int64_t vc_step = 20000;     /* per poll */
static uint64_t vc_polls, vc_activity_at;
static uint64_t vc_stuck = 6000;    /* polls without any activity of the program: no progress */
static int64_t (*vc_next)(void);    /* earliest deadline the model knows about, or -1 */
static void (*vc_on_poll)(void);
static int vc_nap;                  /* real microseconds to wait in idle rounds, for what the kernel or a thread still has to do */
static __thread int vc_mine;
static int (*vc_interrupt)(void);   /* would a signal arrive while this wait blocks? */

static void vc_active(void) { vc_activity_at = vc_polls; }
static void vc_start(void) { vc_on = 1; vc_mine = 1; }

int gettimeofday(struct timeval *tv, void *tz) {
	if (!vc_on) return (int)syscall(SYS_gettimeofday, tv, tz);
	tv->tv_sec = vc_ns / 1000000000ll; tv->tv_usec = vc_ns % 1000000000ll / 1000;
	return 0;
}
time_t time(time_t *t) {
	time_t v;
	if (!vc_on) { struct timespec ts; syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts); v = ts.tv_sec; }
	else v = vc_ns / 1000000000ll;
	if (t) *t = v;
	return v;
}
int epoll_wait(int fd, struct epoll_event *e, int n, int ms) {
	int r;
	if (!vc_on || !vc_mine) return (int)syscall(SYS_epoll_pwait, fd, e, n, ms, NULL, 8);
	vc_polls++;
	if (vc_on_poll) vc_on_poll();
	r = (int)syscall(SYS_epoll_pwait, fd, e, n, 0, NULL, 8);
	if (r != 0) { vc_ns += vc_step; return r; }
	if (vc_nap && vc_polls - vc_activity_at > 100) { struct timespec ts = { 0, vc_nap * 1000l }; nanosleep(&ts, NULL); }
	if (vc_polls - vc_activity_at > vc_stuck) pbt_fail("no progress: the program is not finished, but nothing of it ran during %llu rounds of the scheduler", (unsigned long long)vc_stuck);
	int64_t d = vc_next ? vc_next() : -1;
	if (ms != 0 && vc_interrupt && vc_interrupt()) { errno = EINTR; return -1; }
	if (ms > 0) { /* would have blocked that long: nothing can happen before, in this single threaded world */
		vc_ns += (int64_t)ms * 1000000;
	} else if (d > vc_ns + 1000000) vc_ns = d - 300000 - d % 1000;
	else vc_ns += vc_step;
	return 0;
}
typedef int (*vc_pc_t)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
#include <dlfcn.h>
int pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*f)(void *), void *arg) {
	if (vc_threads) { static vc_pc_t real; if (!real) real = (vc_pc_t)dlsym(RTLD_NEXT, "pthread_create"); return real(t, a, f, arg); }
	*t = 1;
	return 0;
}
