#define _GNU_SOURCE
#include "pbt.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <errno.h>
#include <signal.h>
#include <time.h>
#include <fcntl.h>
#include <ftw.h>
#include <grp.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/prctl.h>

#define MAXC 40000
#define MAXLABELS 96
#define NOTESZ 24000
#define MSGSZ 4096
#define HASHCAP 60000
#define MAXSAMPLES 4
#define SAMPLESZ 1500

typedef struct { char name[56]; uint64_t n; } label_t;

typedef struct {
	volatile int pos;          /* case position inside the batch */
	volatile int finished;     /* batch completed */
	volatile int failed;       /* pbt_fail called */
	volatile int drawing_done;
	char msg[MSGSZ];
	char notes[NOTESZ];
	int notes_len;
	uint32_t nc;
	uint64_t c[MAXC];          /* choices of the current case */
	int nontriv;
	uint64_t key;
	uint64_t evals, nontrivs;
	int nlabels;
	label_t labels[MAXLABELS];
	uint64_t caselab[2];       /* labels seen in this case (bitmap) */
	uint32_t nh;
	uint64_t h[HASHCAP];
	int nsamples;
	char samples[MAXSAMPLES][SAMPLESZ];
} shm_t;

typedef struct {
	volatile uint64_t next_batch;
	volatile int stop;
	volatile int fail_lock;
	volatile int have_fail;
	uint64_t fail_batch;
	int fail_pos;
	int fail_kind;             /* 1 assert 2 died 3 hang */
	uint64_t evals, nontrivs;
	char fail_msg[MSGSZ];
} gshm_t;

/* leaks are not what these harnesses judge, and the leak pass changes exit codes */
const char *__asan_default_options(void) { return "detect_leaks=0:allocator_may_return_null=1:abort_on_error=0:exitcode=77:handle_segv=1:detect_stack_use_after_return=0"; }
static shm_t *S;               /* current shared area */
static gshm_t *G;
static const pbt_unit *U;
static uint64_t seed_base;
static uint64_t rng_state;
static const uint64_t *replay_c;
static uint32_t replay_n;
static int replaying, thorough;
static uint64_t cur_index;
static char scratch[256];
static char scratch_root[200];
static pid_t child_pid_self;

static uint64_t splitmix(uint64_t *x) {
	uint64_t z = (*x += 0x9E3779B97F4A7C15ull);
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
	z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
	return z ^ (z >> 31);
}
static uint64_t fnv(const void *p, size_t n, uint64_t h) {
	const unsigned char *b = p;
	while (n--) { h ^= *b++; h *= 0x100000001b3ull; }
	return h;
}

/* Every choice is recorded as a value below a bound; replays take it modulo the bound. */
uint64_t pbt_below(uint64_t n) {
	uint64_t v;
	if (n == 0) return 0;
	if (replaying) {
		v = S->nc < replay_n ? replay_c[S->nc] : 0;
		if (v >= n) v = v % n;
	} else {
		uint64_t lim = -n % n, r;
		do r = splitmix(&rng_state); while (r < lim);
		v = r % n;
		if (S->nc >= MAXC) v = 0;
	}
	if (S->nc < MAXC) S->c[S->nc++] = v;
	return v;
}
int64_t pbt_int(int64_t lo, int64_t hi) {
	if (hi <= lo) return lo;
	uint64_t span = (uint64_t)hi - (uint64_t)lo;
	if (span == UINT64_MAX) { uint64_t a = pbt_below(1ull << 32), b = pbt_below(1ull << 32); return (int64_t)((a << 32) | b); }
	return (int64_t)((uint64_t)lo + pbt_below(span + 1));
}
int64_t pbt_size(int64_t lo, int64_t hi) {
	if (hi <= lo) return lo;
	static const int frac[] = { 16, 8, 8, 4, 2, 1 };
	int64_t span = hi - lo, cut = span / frac[pbt_below(6)];
	if (cut < 4) cut = span < 4 ? span : 4;
	return lo + (int64_t)pbt_below((uint64_t)cut + 1);
}
int64_t pbt_wild(void) {
	static const int64_t edge[] = { 0, 1, -1, 2, 9, 10, -9, -10, 99, 100, 127, 128, -128, 255, 256, 999, 1000,
		32767, 32768, -32768, 65535, 65536, INT32_MAX, (int64_t)INT32_MAX + 1, INT32_MIN, (int64_t)INT32_MIN - 1,
		UINT32_MAX, (int64_t)UINT32_MAX + 1, INT64_MAX, INT64_MAX - 1, INT64_MIN, INT64_MIN + 1,
		1000000000ll, 9999999999ll, -1000000000000ll, 1000000000000000000ll };
	switch (pbt_below(4)) {
	case 0: return pbt_int(-1000, 1000) + 0;
	case 1: return pbt_pick(edge);
	case 2: { int sh = (int)pbt_below(63); uint64_t v = ((uint64_t)1 << sh) | pbt_below((uint64_t)1 << sh); return pbt_chance(1, 2) ? -(int64_t)v : (int64_t)v; }
	default: return pbt_int(INT64_MIN, INT64_MAX);
	}
}
bool pbt_chance(int num, int den) { return pbt_below((uint64_t)den) >= (uint64_t)(den - num); }
int pbt_weighted(const int *w, int n) {
	int i, t = 0;
	for (i = 0; i < n; i++) t += w[i];
	int v = (int)pbt_below((uint64_t)t);
	for (i = 0; i < n; i++) { if (v < w[i]) return i; v -= w[i]; }
	return n - 1;
}
int pbt_str(char *buf, int maxlen, const char *alphabet) {
	int i, n = (int)pbt_size(0, maxlen), k = (int)strlen(alphabet);
	for (i = 0; i < n; i++) buf[i] = alphabet[pbt_below((uint64_t)k)];
	buf[n] = 0;
	return n;
}
uint64_t pbt_index(void) { return cur_index; }

void pbt_label(const char *fmt, ...) {
	char b[56]; va_list ap; int i;
	va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
	for (i = 0; i < S->nlabels; i++) if (!strcmp(S->labels[i].name, b)) break;
	if (i == S->nlabels) {
		if (i >= MAXLABELS) return;
		strcpy(S->labels[i].name, b); S->labels[i].n = 0; S->nlabels++;
	}
	if (S->caselab[i / 64] >> (i % 64) & 1) return;   /* once per case */
	S->caselab[i / 64] |= 1ull << (i % 64);
	S->labels[i].n++;
}
void pbt_nontrivial(void) { S->nontriv = 1; }
void pbt_key(uint64_t k) { S->key = fnv(&k, sizeof k, S->key); }
static void vnote(const char *fmt, va_list ap) {
	int room = NOTESZ - S->notes_len - 1, n;
	if (room <= 1) return;
	n = vsnprintf(S->notes + S->notes_len, (size_t)room, fmt, ap);
	if (n < 0) return;
	S->notes_len += n < room ? n : room - 1;
}
void pbt_note(const char *fmt, ...) { va_list ap; va_start(ap, fmt); vnote(fmt, ap); va_end(ap); }
void pbt_note_str(const char *name, const char *s, size_t n) {
	size_t i; pbt_note("%s=\"", name);
	for (i = 0; i < n && i < 400; i++) {
		unsigned char ch = (unsigned char)s[i];
		if (ch >= 32 && ch < 127 && ch != '"' && ch != '\\') pbt_note("%c", ch); else pbt_note("\\x%02x", ch);
	}
	pbt_note(n > 400 ? "...\"(%zu) " : "\"(%zu) ", n);
}
void pbt_fail(const char *fmt, ...) {
	va_list ap;
	if (!S->failed) {
		va_start(ap, fmt); vsnprintf(S->msg, MSGSZ, fmt, ap); va_end(ap);
		S->failed = 1;
	}
	_exit(3);
}
void pbt_expect_death(const char *what) { snprintf(S->msg, MSGSZ, "[%s] ", what); }
const char *pbt_scratch(void) { return scratch; }
int pbt_thorough(void) { return thorough; }
int pbt_replaying(void) { return replaying; }

static void case_end(void) {
	S->evals++;
	if (S->nontriv) {
		uint64_t hh = fnv(S->c, S->nc * sizeof(uint64_t), 0xcbf29ce484222325ull ^ S->key);
		S->nontrivs++;
		if (S->nh < HASHCAP) S->h[S->nh++] = hh;
		if (S->nsamples < MAXSAMPLES && (S->nontrivs == 1 || S->nontrivs % 37 == 5)) {
			snprintf(S->samples[S->nsamples], SAMPLESZ, "%s", S->notes);
			S->nsamples++;
		}
	}
}
void pbt_done(void) { case_end(); S->pos++; S->finished = 1; _exit(0); }

#ifdef PBT_NOISE
#include "noise.h"
#endif
static void case_begin(uint64_t index) {
	cur_index = index;
	S->nc = 0; S->notes_len = 0; S->notes[0] = 0; S->nontriv = 0; S->key = 0; S->msg[0] = 0;
	S->caselab[0] = S->caselab[1] = 0;
	uint64_t h = fnv(U->name, strlen(U->name), 0xcbf29ce484222325ull);
	rng_state = seed_base * 0x9E3779B97F4A7C15ull ^ h ^ (index * 0xD1342543DE82EF95ull);
	splitmix(&rng_state);
#ifdef PBT_NOISE
	noise_case();
#endif
}

static double now(void) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec / 1e9; }

static int rm_cb(const char *p, const struct stat *st, int f, struct FTW *w) {
	(void)st; (void)f;
	if (w->level > 0) remove(p);
	return 0;
}
static void wipe(const char *dir) { if (strncmp(dir, "/tmp/vpbt.", 10) == 0) nftw(dir, rm_cb, 16, FTW_DEPTH | FTW_PHYS); }

static int errfd = -1;
static void child_setup(void) {
	struct rlimit rl = { 0, 0 };
	setpgid(0, 0);
	prctl(PR_SET_PDEATHSIG, SIGKILL);
	setrlimit(RLIMIT_CORE, &rl);
	rl.rlim_cur = rl.rlim_max = 512u << 20; setrlimit(RLIMIT_FSIZE, &rl);
	if (!(U->flags & PBT_NOAS)) { rl.rlim_cur = rl.rlim_max = 8ull << 30; setrlimit(RLIMIT_AS, &rl); }
	sigset_t e; sigemptyset(&e); sigprocmask(SIG_SETMASK, &e, NULL);
	signal(SIGPIPE, SIG_DFL);
	int n = open("/dev/null", O_RDONLY); if (n >= 0) { dup2(n, 0); if (n > 2) close(n); }
	if (errfd >= 0) { if (ftruncate(errfd, 0)) {} lseek(errfd, 0, SEEK_SET); dup2(errfd, 1); dup2(errfd, 2); close(errfd); errfd = -1; }
	if (chdir(scratch)) {}
	if (!(U->flags & PBT_ROOT) && geteuid() == 0) {
		if (setgroups(0, NULL)) {}
		if (setgid(65534)) {}
		if (setuid(65534)) {}
	}
	prctl(PR_SET_PDEATHSIG, SIGKILL);   /* reset by setuid */
	child_pid_self = getpid();
}

static void read_err(char *out, size_t cap) {
	out[0] = 0;
	if (errfd < 0 || cap < 2) return;
	off_t sz = lseek(errfd, 0, SEEK_END);
	off_t want = 1400;
	char raw[1500]; ssize_t n;
	/* prefer the start when a sanitizer reported */
	n = pread(errfd, raw, sizeof raw - 1, 0);
	if (n > 0) { raw[n] = 0; }
	if (!(n > 0 && (strstr(raw, "Sanitizer") || strstr(raw, "runtime error"))))
		n = pread(errfd, raw, sizeof raw - 1 < (size_t)want ? sizeof raw - 1 : (size_t)want, sz > want ? sz - want : 0);
	if (n < 0) n = 0;
	size_t j = 0;
	for (ssize_t i = 0; i < n && j + 1 < cap; i++) out[j++] = (raw[i] == 27) ? ' ' : raw[i];
	out[j] = 0;
}

/* Runs fn in a child; returns 0 ok, 1 assertion, 2 died, 3 hang. msg gets text. */
static int run_child(void (*body)(void *), void *arg, int timeout_ms, char *msg) {
	sigset_t ss, old; int st, kind = 0;
	sigemptyset(&ss); sigaddset(&ss, SIGCHLD); sigprocmask(SIG_BLOCK, &ss, &old);
	S->finished = 0; S->failed = 0; S->pos = 0;
	if (U->flags & PBT_SCRATCH) wipe(scratch);
	fflush(NULL);
	pid_t p = fork();
	if (p < 0) { perror("fork"); exit(9); }
	if (p == 0) { child_setup(); body(arg); S->finished = 1; _exit(0); }
	setpgid(p, p);
	double end = now() + timeout_ms / 1000.0;
	for (;;) {
		pid_t r = waitpid(p, &st, WNOHANG);
		if (r == p) break;
		double left = end - now();
		if (left <= 0) {
			kind = 3;
			kill(-p, SIGKILL); kill(p, SIGKILL);
			waitpid(p, &st, 0);
			break;
		}
		struct timespec ts = { (time_t)left, (long)((left - (time_t)left) * 1e9) };
		if (ts.tv_sec > 0) { ts.tv_sec = 1; ts.tv_nsec = 0; }
		sigtimedwait(&ss, NULL, &ts);
	}
	kill(-p, SIGKILL);             /* stray grandchildren */
	char err[1500]; read_err(err, sizeof err);
	if (kind == 3) {
		snprintf(msg, MSGSZ, "%sno progress within %d ms (hang)\n%s", S->msg, timeout_ms, err);
	} else if (S->failed) {
		kind = 1; snprintf(msg, MSGSZ, "%.2500s", S->msg);
	} else if (WIFSIGNALED(st)) {
		kind = 2; snprintf(msg, MSGSZ, "%.600s process killed by signal %d (%s)\n%s", S->msg, WTERMSIG(st), strsignal(WTERMSIG(st)), err);
	} else if (WEXITSTATUS(st) != 0 || !S->finished) {
		kind = 2; snprintf(msg, MSGSZ, "%.600s process ended unexpectedly with status %d\n%s", S->msg, WEXITSTATUS(st), err);
	}
	sigprocmask(SIG_SETMASK, &old, NULL);
	return kind;
}

typedef struct { uint64_t first; int n; } batch_arg;
static void batch_body(void *a) {
	batch_arg *b = a; int i;
	for (i = 0; i < b->n; i++) {
		S->pos = i;
		case_begin(b->first + (uint64_t)i);
		U->run();
		case_end();
	}
}
static void replay_body(void *a) { (void)a; case_begin(cur_index); U->run(); case_end(); }

static void worker(int id, uint64_t cases, double deadline) {
	snprintf(scratch, sizeof scratch, "%s/w%d", scratch_root, id);
	mkdir(scratch, 0777); chmod(scratch, 0777);
	if (chown(scratch, 65534, 65534)) {}
	char ef[300]; snprintf(ef, sizeof ef, "%s/err%d", scratch_root, id);
	errfd = open(ef, O_RDWR | O_CREAT | O_TRUNC, 0600);
	char msg[MSGSZ];
	int bs = U->batch > 0 ? U->batch : 1;
	while (!G->stop && now() < deadline) {
		uint64_t b = __sync_fetch_and_add(&G->next_batch, 1);
		if (b * (uint64_t)bs >= cases) break;
		batch_arg ba = { b * (uint64_t)bs, bs };
		if (ba.first + (uint64_t)bs > cases) ba.n = (int)(cases - ba.first);
		int k = run_child(batch_body, &ba, U->timeout_ms, msg);
		if (k == 3 && !G->stop) {   /* a hang candidate must reproduce at once */
			int again = (U->flags & PBT_FLAKY) ? 3 : 1;
			do k = run_child(batch_body, &ba, U->timeout_ms, msg); while (!k && --again);
		}
		if (k) {
			while (__sync_lock_test_and_set(&G->fail_lock, 1)) usleep(100);
			if (!G->have_fail) {
				G->have_fail = 1; G->fail_batch = b; G->fail_pos = S->pos; G->fail_kind = k;
				memcpy(G->fail_msg, msg, MSGSZ);
				/* keep this worker's shm as the witness */
				char wf[300]; snprintf(wf, sizeof wf, "%s/witness", scratch_root);
				FILE *f = fopen(wf, "wb");
				if (f) { fwrite(S, sizeof *S, 1, f); fclose(f); }
			}
			G->stop = 1;
			__sync_lock_release(&G->fail_lock);
			break;
		}
	}
}

static void jstr(FILE *f, const char *s) {
	fputc('"', f);
	for (; *s; s++) {
		unsigned char ch = (unsigned char)*s;
		if (ch == '"' || ch == '\\') fprintf(f, "\\%c", ch);
		else if (ch == '\n') fputs("\\n", f);
		else if (ch < 32 || ch > 126) fprintf(f, "\\u%04x", ch);
		else fputc(ch, f);
	}
	fputc('"', f);
}

static int attempt(const uint64_t *c, uint32_t n, char *msg, int tmo) {
	replaying = 1; replay_c = c; replay_n = n;
	int k = run_child(replay_body, NULL, tmo, msg);
	replaying = 0;
	return k;
}

static uint64_t *best; static uint32_t bestn; static char bestmsg[MSGSZ]; static int bestkind; static char bestnotes[NOTESZ];
static int tries_per = 1; static double shrink_deadline; static uint64_t shrink_runs; static int shrink_tmo;
static bool try_cand(const uint64_t *c, uint32_t n) {
	char msg[MSGSZ]; int i;
	for (i = 0; i < tries_per; i++) {
		if (now() > shrink_deadline) return false;
		shrink_runs++;
		int k = attempt(c, n, msg, shrink_tmo);
		if (k && k == bestkind) {
			/* normalise: keep what was really drawn */
			uint32_t m = S->nc;
			/* accept only if it is smaller (shortlex) */
			bool less = m < bestn || (m == bestn && memcmp(S->c, best, m * 8) != 0);
			if (m == bestn && less) {
				for (uint32_t j = 0; j < m; j++) { if (S->c[j] != best[j]) { less = S->c[j] < best[j]; break; } }
			}
			if (!less) return false;
			memcpy(best, S->c, m * 8); bestn = m; memcpy(bestmsg, msg, MSGSZ);
			memcpy(bestnotes, S->notes, NOTESZ);
			return true;
		}
	}
	return false;
}
static void shrink(void) {
	uint64_t *t = malloc(MAXC * 8); bool any = true;
	while (any && now() < shrink_deadline) {
		any = false;
		for (uint32_t blk = bestn > 64 ? 64 : (bestn ? bestn : 1); blk >= 1 && now() < shrink_deadline; blk /= 2) {
			for (int64_t i = (int64_t)bestn - blk; i >= 0 && now() < shrink_deadline; i -= (blk > 1 ? blk / 2 : 1)) {
				if (i + blk > bestn) continue;
				memcpy(t, best, (size_t)i * 8); memcpy(t + i, best + i + blk, (bestn - blk - (size_t)i) * 8);
				if (try_cand(t, bestn - blk)) { any = true; continue; }
				/* also lower a preceding length-like value while deleting */
				if (i > 0 && t[i - 1] > 0) { t[i - 1]--; if (try_cand(t, bestn - blk)) any = true; }
			}
		}
		for (uint32_t i = 0; i < bestn && now() < shrink_deadline; i++) {
			if (best[i] == 0) continue;
			memcpy(t, best, bestn * 8); t[i] = 0;
			if (try_cand(t, bestn)) { any = true; continue; }
			uint64_t lo = 0, hi = i < bestn ? best[i] : 0;
			while (lo + 1 < hi && i < bestn && now() < shrink_deadline) {
				uint64_t mid = lo + (hi - lo) / 2;
				memcpy(t, best, bestn * 8); t[i] = mid;
				if (try_cand(t, bestn)) { any = true; hi = i < bestn && best[i] < mid ? best[i] : mid; } else lo = mid;
			}
		}
	}
	free(t);
}

static void usage(void) { fprintf(stderr, "usage: h --unit NAME [--seed N] [--cases N] [--workers N] [--budget S] [--out F] [--tier quick|thorough] | --list | --unit NAME --replay FILE\n"); exit(9); }

int main(int argc, char **argv) {
	const char *unit = NULL, *out = NULL, *replay = NULL; uint64_t seed = 1, cases = 1000; int workers = 8, i; double budget = 60;
	for (i = 1; i < argc; i++) {
		if (!strcmp(argv[i], "--list")) { for (U = pbt_units; U->name; U++) puts(U->name); return 0; }
		if (i + 1 >= argc) usage();
		if (!strcmp(argv[i], "--unit")) unit = argv[++i];
		else if (!strcmp(argv[i], "--seed")) seed = strtoull(argv[++i], 0, 0);
		else if (!strcmp(argv[i], "--cases")) cases = strtoull(argv[++i], 0, 0);
		else if (!strcmp(argv[i], "--workers")) workers = atoi(argv[++i]);
		else if (!strcmp(argv[i], "--budget")) budget = atof(argv[++i]);
		else if (!strcmp(argv[i], "--out")) out = argv[++i];
		else if (!strcmp(argv[i], "--replay")) replay = argv[++i];
		else if (!strcmp(argv[i], "--tier")) thorough = !strcmp(argv[++i], "thorough");
		else usage();
	}
	if (!unit) usage();
	for (U = pbt_units; U->name; U++) if (!strcmp(U->name, unit)) break;
	if (!U->name) { fprintf(stderr, "no unit %s\n", unit); return 9; }
	seed_base = seed + 0x51ed270b;
	strcpy(scratch_root, "/tmp/vpbt.XXXXXX");
	if (!mkdtemp(scratch_root)) { perror("mkdtemp"); return 9; }
	chmod(scratch_root, 0711);
	G = mmap(NULL, sizeof *G, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	best = malloc(MAXC * 8);
	if (workers > 64) workers = 64;
	shm_t *all[65];
	for (i = 0; i <= workers; i++) all[i] = mmap(NULL, sizeof(shm_t), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	double t0 = now();
	int rc = 0;

	if (replay) {
		FILE *f = fopen(replay, "r"); if (!f) { perror(replay); return 9; }
		/* file: whitespace separated numbers, '#' comment lines; first number = case index */
		static uint64_t rc_[MAXC]; uint32_t n = 0; char line[64]; int ch; bool first = true; uint64_t idx = 0;
		while ((ch = fgetc(f)) != EOF) {
			if (ch == '#') { while ((ch = fgetc(f)) != EOF && ch != '\n'); continue; }
			if (ch >= '0' && ch <= '9') {
				int k = 0; do { if (k < 60) line[k++] = (char)ch; ch = fgetc(f); } while (ch >= '0' && ch <= '9'); line[k] = 0;
				uint64_t v = strtoull(line, 0, 10);
				if (first) { idx = v; first = false; } else if (n < MAXC) rc_[n++] = v;
			}
		}
		fclose(f);
		S = all[0]; cur_index = idx;
		snprintf(scratch, sizeof scratch, "%s/w0", scratch_root); mkdir(scratch, 0777); chmod(scratch, 0777); if (chown(scratch, 65534, 65534)) {}
		char ef[300]; snprintf(ef, sizeof ef, "%s/err", scratch_root); errfd = open(ef, O_RDWR | O_CREAT | O_TRUNC, 0600);
		int reps = (U->flags & PBT_FLAKY) ? 40 : 3, bad = 0; char msg[MSGSZ], keep[MSGSZ] = "";
		for (i = 0; i < reps; i++) { cur_index = idx; if (attempt(rc_, n, msg, U->timeout_ms)) { bad++; memcpy(keep, msg, MSGSZ); } }
		printf("replayed %d times, failed %d\nnotes: %s\n%s\n", reps, bad, S->notes, keep);
		rc = bad ? 1 : 0;
		goto done;
	}

	for (i = 0; i < workers; i++) {
		fflush(NULL);
		if (fork() == 0) { S = all[i]; prctl(PR_SET_PDEATHSIG, SIGKILL); worker(i, cases, t0 + budget); _exit(0); }
	}
	/* drain hashes while workers run */
	size_t cap = 1 << 20, used = 0; uint64_t *tab = calloc(cap, 8);
	uint32_t drained[65] = { 0 };
	int alive = workers;
	(void)drained;
	while (alive) { int st; pid_t p = waitpid(-1, &st, 0); if (p > 0) alive--; else if (errno == ECHILD) break; }
	uint64_t evals = 0, nontrivs = 0; label_t L[MAXLABELS]; int nl = 0;
	uint64_t hashed = 0;
	for (i = 0; i < workers; i++) {
		shm_t *s = all[i]; evals += s->evals; nontrivs += s->nontrivs; hashed += s->nh;
		for (uint32_t k = 0; k < s->nh; k++) {
			uint64_t hh = s->h[k] ? s->h[k] : 1, q = hh & (cap - 1);
			while (tab[q] && tab[q] != hh) q = (q + 1) & (cap - 1);
			if (!tab[q]) { tab[q] = hh; used++; }
		}
		for (int k = 0; k < s->nlabels; k++) {
			int j; for (j = 0; j < nl; j++) if (!strcmp(L[j].name, s->labels[k].name)) break;
			if (j == nl) { if (nl == MAXLABELS) continue; strcpy(L[nl].name, s->labels[k].name); L[nl++].n = 0; }
			L[j].n += s->labels[k].n;
		}
	}
	double t1 = now();
	int confirmed = 0, reps = 0, mode = 0; uint64_t fail_index = 0;
	if (G->have_fail) {
		int bs = U->batch > 0 ? U->batch : 1;
		shm_t *w = malloc(sizeof *w); char wf[300]; snprintf(wf, sizeof wf, "%s/witness", scratch_root);
		FILE *f = fopen(wf, "rb"); if (!f || fread(w, sizeof *w, 1, f) != 1) { fprintf(stderr, "witness lost\n"); return 9; } fclose(f);
		fail_index = G->fail_batch * (uint64_t)bs + (uint64_t)G->fail_pos;
		S = all[workers]; snprintf(scratch, sizeof scratch, "%s/wr", scratch_root); mkdir(scratch, 0777); chmod(scratch, 0777); if (chown(scratch, 65534, 65534)) {}
		char ef[300]; snprintf(ef, sizeof ef, "%s/errr", scratch_root); errfd = open(ef, O_RDWR | O_CREAT | O_TRUNC, 0600);
		memcpy(best, w->c, w->nc * 8ul); bestn = w->nc; memcpy(bestmsg, G->fail_msg, MSGSZ); bestkind = G->fail_kind; memcpy(bestnotes, w->notes, NOTESZ);
		char msg[MSGSZ]; int want = (U->flags & PBT_FLAKY) ? 30 : 3; double cd = now() + 60;
		cur_index = fail_index;
		for (i = 0; i < want && (i < 3 || now() < cd); i++) {
			reps++; cur_index = fail_index;
			int k = attempt(best, w->nc, msg, U->timeout_ms);
			if (k) { confirmed++; bestkind = k; memcpy(bestmsg, msg, MSGSZ); memcpy(bestnotes, S->notes, NOTESZ); bestn = S->nc; memcpy(best, S->c, bestn * 8ul); }
			if ((U->flags & PBT_FLAKY) && confirmed >= 3) break;
		}
		if ((!(U->flags & PBT_FLAKY) && confirmed == 3) || ((U->flags & PBT_FLAKY) && confirmed >= 1)) {
			mode = 1;
			tries_per = (U->flags & PBT_FLAKY) ? (reps / confirmed + 1) * 2 : 1;
			if (tries_per > 8) tries_per = 8;
			shrink_tmo = bestkind == 3 ? (U->timeout_ms > 4000 ? 4000 : U->timeout_ms) : U->timeout_ms;
			shrink_deadline = now() + 25;
			shrink();
			if (bestkind == 3) { /* a shrunk hang must still hang under the full limit */
				if (attempt(best, bestn, msg, U->timeout_ms) != 3) { memcpy(best, w->c, w->nc * 8ul); bestn = w->nc; memcpy(bestnotes, w->notes, NOTESZ); }
			}
		} else if (confirmed > 0) {
			mode = 1;   /* reproduced at least once in isolation */
		} else if (!(U->flags & PBT_FLAKY) && bs > 1) {
			int again = 0;
			batch_arg ba = { G->fail_batch * (uint64_t)bs, G->fail_pos + 1 };
			for (i = 0; i < 3; i++) { reps++; if (run_child(batch_body, &ba, U->timeout_ms, msg)) again++; }
			if (again == 3) { mode = 2; confirmed = 3; memcpy(bestmsg, msg, MSGSZ); memcpy(bestnotes, S->notes, NOTESZ); }
		}
		free(w);
	}
	FILE *o = out ? fopen(out, "w") : stdout;
	if (!o) { perror(out); return 9; }
	fprintf(o, "{\"unit\":"); jstr(o, U->name);
	fprintf(o, ",\"rule\":"); jstr(o, U->rule ? U->rule : "");
	fprintf(o, ",\"seed\":%llu,\"requested\":%llu,\"evaluations\":%llu,\"nontrivial\":%llu,\"distinct\":%zu,\"hashed\":%llu,\"wall_s\":%.2f,\"labels\":{",
		(unsigned long long)seed, (unsigned long long)cases, (unsigned long long)evals, (unsigned long long)nontrivs, used, (unsigned long long)hashed, t1 - t0);
	for (i = 0; i < nl; i++) { if (i) fputc(',', o); jstr(o, L[i].name); fprintf(o, ":%llu", (unsigned long long)L[i].n); }
	fprintf(o, "},\"samples\":[");
	int ns = 0;
	for (int k = 0; k < MAXSAMPLES && ns < 4; k++) for (i = 0; i < workers && ns < 4; i++) if (k < all[i]->nsamples) { if (ns++) fputc(',', o); jstr(o, all[i]->samples[k]); }
	fprintf(o, "],\"failure\":");
	if (!G->have_fail) fprintf(o, "null");
	else {
		fprintf(o, "{\"index\":%llu,\"kind\":%d,\"confirmed\":%d,\"replays\":%d,\"mode\":%d,\"shrink_runs\":%llu,\"message\":", (unsigned long long)fail_index, bestkind, confirmed, reps, mode, (unsigned long long)shrink_runs);
		jstr(o, bestmsg); fprintf(o, ",\"notes\":"); jstr(o, bestnotes);
		fprintf(o, ",\"batch_first\":%llu,\"choices\":[", (unsigned long long)(G->fail_batch * (uint64_t)(U->batch > 0 ? U->batch : 1)));
		for (uint32_t k = 0; k < bestn; k++) fprintf(o, "%s%llu", k ? "," : "", (unsigned long long)best[k]);
		fprintf(o, "]}");
	}
	fprintf(o, "}\n");
	if (out) fclose(o);
	rc = G->have_fail ? 1 : 0;
done:
	wipe(scratch_root); rmdir(scratch_root);
	return rc;
}

/* ------------------------------------------------------------- memory is never what it happens to be
 * Linked in front of the allocator: what is handed out is not zero, and what was given back is
 * overwritten at once. Code that reads memory before it wrote it, or after it gave it back, works only
 * as long as nobody else asks for that memory; here it never does. */
#ifdef PBT_POISON
int pbt_poison = 1;
void *__real_rp_malloc(size_t); void *__real_rp_realloc(void *, size_t); void __real_rpfree(void *);
size_t rpmalloc_usable_size(void *);
void *__wrap_rp_malloc(size_t n) { void *p = __real_rp_malloc(n); if (p && pbt_poison) memset(p, 0xA5, n); return p; }
void *__wrap_rp_realloc(void *o, size_t n) { size_t was = o ? rpmalloc_usable_size(o) : 0; char *p = __real_rp_realloc(o, n); if (p && pbt_poison && n > was) memset(p + was, 0xA5, n - was); return p; }
void __wrap_rpfree(void *p) { if (p && pbt_poison) memset(p, 0x5A, rpmalloc_usable_size(p)); __real_rpfree(p); }
#endif
