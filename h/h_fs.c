/* Files: every operation of a task is done by the library in one directory tree, and by plain
 * system calls in its twin; results, errno, contents and trees must agree. Pool threads are real. */
#include "events_internal.h"
#include "pbt.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <sched.h>
#include <errno.h>
#include <fcntl.h>
#include <dirent.h>
#include <time.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/sendfile.h>
#include "posix_names.h"
#undef unlink
#undef access
#undef open
#undef read
#undef write
#undef close
#undef rename
#undef mkdir
#undef rmdir
#undef stat

static int cpus = 4;
int sched_getaffinity(pid_t p, size_t n, cpu_set_t *s) { int i; (void)p; memset(s, 0, n); for (i = 0; i < cpus; i++) CPU_SET(i, s); return 0; }
/* the kernel may copy less than asked for */
static volatile int F_short; static volatile unsigned short_n;
ssize_t sendfile(int o, int i, off_t *off, size_t n) {
	/* as the kernel has it: the end has to be an offset too; said before the rest, so that it does not depend on how much a call copies */
	if (off && *off > 0 && n > (size_t)(INT64_MAX - *off)) { errno = EINVAL; return -1; }
	if (F_short && n > 3) { static const int part[] = { 1, 100, 4096, 7, 30000 }; size_t m = (size_t)part[__sync_fetch_and_add(&short_n, 1) % 5]; if (n > m) n = m; }
	return syscall(SYS_sendfile, o, i, off, n);
}
#define V(x) (void *)(intptr_t)(x)
#define MAXT 5
#define MAXOP 24
#define MAXFD 5
enum { F_OPEN, F_READ, F_WRITE, F_CLOSE, F_SEND, F_STAT, F_FSTAT, F_ACCESS, F_EXISTS, F_SIZE, F_WRITEFILE, F_READFILE, F_TOUCH, F_RENAME, F_COPY, F_UNLINK, F_MKDIR, F_RMDIR, F_CHMOD,
	F_AFWRITE, F_AFPRINTF, F_FOPEN, F_FREAD, F_FWRITE, F_FGETC, F_FGETS, F_FCLOSE, F_PROMISE, F_POPEN, F_FIFO, F_ENTROPY, F_RAWOPEN, F_YIELD, F_KINDS };
static const char *fname[] = { "open", "read", "write", "close", "sendfile", "stat", "fstat", "access", "exists", "filesize", "writefile", "readfile", "touch", "rename", "copyfile", "unlink", "mkdir", "rmdir", "chmod",
	"async_fwrite", "async_fprintf", "fopen", "fread", "fwrite", "fgetc", "fgets", "fclose", "promise", "popen", "fifo", "getentropy", "pipe", "yield" };
typedef struct { int kind, name, name2, flags, mode, h, h2, n, seed, variant; } op;
typedef struct { int lib, ref, read_mode; } fdpair;
typedef struct { FILE *lib, *ref; int use; } stpair;
typedef struct { op o[MAXOP]; int n, done; fdpair f[MAXFD]; int nf; stpair s[MAXFD]; int nst; char *rf[MAXOP], *rfwant[MAXOP]; int nrf; long rflen[MAXOP]; } prog;
static prog T_[MAXT]; static int nt; static char root[200];
static const char *names[] = { "f0", "f1", "f2", "d0", "d0/f0", "d0/d1", "missing/x", "link", "secret", "f0/x", "", "d0/f1" };
#define NN 12
static char *path(char *b, int task, char twin, int name) { if (!names[name][0]) { *b = 0; return b; } sprintf(b, "%s/%c%d/%s", root, twin, task, names[name]); return b; }
static char pat(int seed, long i) { uint32_t h = (uint32_t)(i * 2654435761u) ^ (uint32_t)(seed * 97 + 7) * 40503u; h ^= h >> 15; h *= 2246822519u; h ^= h >> 13; return (char)h; }
static const int open_flags[] = { O_RDONLY, O_WRONLY, O_RDWR, O_RDWR | O_CREAT, O_WRONLY | O_CREAT | O_TRUNC, O_RDWR | O_CREAT | O_EXCL, O_WRONLY | O_APPEND | O_CREAT, O_RDWR | O_CREAT | O_APPEND, O_RDONLY | O_DIRECTORY, O_RDONLY | O_NOFOLLOW, O_RDWR | O_TRUNC };
static const char *modes[] = { "r", "w", "a", "r+", "w+", "a+", "rb", "wx", "" };
static const int fmodes[] = { 0600, 0644, 0400, 0666, 0777, 0 , 0200 };

static void check(int t, op *o, long lib, int e, long ref, int re) {
	if (lib != ref) pbt_fail("task %d: %s gave %ld (errno %d), the system call %ld (errno %d)", t, fname[o->kind], lib, e, ref, re);
	if (lib == -1 && e != re) pbt_fail("task %d: %s failed with errno %d, the system call with %d", t, fname[o->kind], e, re);
}
static void same_stat(int t, op *o, struct stat *a, struct stat *b) {
	if (a->st_mode != b->st_mode || a->st_uid != b->st_uid || (S_ISREG(a->st_mode) && (a->st_size != b->st_size || a->st_nlink != b->st_nlink))) pbt_fail("task %d: %s describes mode %o and size %ld, the twin has mode %o and size %ld", t, fname[o->kind], a->st_mode, (long)a->st_size, b->st_mode, (long)b->st_size);
}
/* the whole trees */
static char *slurp(const char *p, long *n) { int fd = open(p, O_RDONLY | O_NONBLOCK); char *b = NULL; ssize_t r; *n = 0; if (fd < 0) { *n = -errno; return NULL; } for (;;) { b = realloc(b, (size_t)*n + 65536); r = read(fd, b + *n, 65536); if (r <= 0) break; *n += r; } close(fd); return b; }
static int by_name(const void *a, const void *b) { return strcmp(*(char *const *)a, *(char *const *)b); }
static int listing(const char *p, char **v) { DIR *d = opendir(p); struct dirent *e; int n = 0; if (!d) return -1; while ((e = readdir(d))) if (strcmp(e->d_name, ".") && strcmp(e->d_name, "..") && n < 60) v[n++] = strdup(e->d_name); closedir(d); qsort(v, (size_t)n, sizeof *v, by_name); return n; }
static void same_tree(int t, const char *a, const char *b, const char *when) {
	char *va[64], *vb[64], pa[600], pb[600]; int na = listing(a, va), nb = listing(b, vb), i;
	if (na < 0 || nb < 0) { if (na != nb) pbt_fail("task %d: %s can be listed, %s cannot", t, a, b); return; }
	for (i = 0; i < na && i < nb; i++) if (strcmp(va[i], vb[i])) pbt_fail("task %d, %s: the library's tree has '%s', its twin '%s'", t, when, va[i], vb[i]);
	if (na != nb) pbt_fail("task %d, %s: the library's tree has %d names in %s, its twin %d", t, when, na, a, nb);
	for (i = 0; i < na; i++) {
		struct stat sa, sb; snprintf(pa, sizeof pa, "%s/%s", a, va[i]); snprintf(pb, sizeof pb, "%s/%s", b, vb[i]);
		lstat(pa, &sa); lstat(pb, &sb);
		if (sa.st_mode != sb.st_mode) pbt_fail("task %d, %s: '%s' has mode %o, in the twin %o", t, when, va[i], sa.st_mode, sb.st_mode);
		if (S_ISDIR(sa.st_mode)) same_tree(t, pa, pb, when);
		else if (S_ISREG(sa.st_mode)) { long la, lb; char *x = slurp(pa, &la), *y = slurp(pb, &lb); if (la != lb || (la > 0 && memcmp(x, y, (size_t)la))) { long k = 0; while (k < la && k < lb && x[k] == y[k]) k++; pbt_fail("task %d, %s: '%s' has %ld bytes, in the twin %ld; they differ at %ld", t, when, va[i], la, lb, k); } free(x); free(y); }
	}
	for (i = 0; i < na; i++) { free(va[i]); free(vb[i]); }
}
static int ref_copy(const char *a, const char *b) {
	int i, o; char buf[4096]; ssize_t r; struct stat sa, sb;
	if ((i = open(a, O_RDONLY)) < 0) return -1;
	if (!fstat(i, &sa) && !stat(b, &sb) && sa.st_dev == sb.st_dev && sa.st_ino == sb.st_ino) { close(i); return -2; }
	if ((o = creat(b, 0660)) < 0) { int e = errno; close(i); errno = e; return -1; }
	while ((r = read(i, buf, sizeof buf)) > 0) if (write(o, buf, (size_t)r) != r) abort();
	close(i); close(o);
	return 0;
}
static void tail_ok(int t, op *o, const char *b, int n) { if (memcmp(b + n, "ZZZZZZZZ", 8)) pbt_fail("task %d: %s wrote beyond its buffer of %d bytes", t, fname[o->kind], n); }
static void *fifo_task(param_t a) { int t = a[0].integer, y = a[1].integer, w; char p[300]; sprintf(p, "%s/fifo%d", root, t);
	while (y--) yield();
	w = open(p, O_RDWR | O_NONBLOCK); if (w < 0) pbt_fail("harness: fifo, errno %d", errno);
	/* hold it open until the reader has it */
	if (write(w, "12345", 5) != 5) pbt_fail("harness: fifo");
	while (!T_[t].done) yield();
	close(w);
	T_[t].done = 0;
	return 0;
}
static void run_op(int t, int k) {
	prog *p = &T_[t]; op *o = &p->o[k]; char a[400], b[400], a2[400], b2[400]; long r, q; int e, f; struct stat sa, sb; fdpair *fp = p->nf ? &p->f[o->h % p->nf] : NULL, *fp2 = p->nf ? &p->f[o->h2 % p->nf] : NULL; stpair *sp = p->nst ? &p->s[o->h % p->nst] : NULL;
	path(a, t, 'A', o->name); path(b, t, 'B', o->name); path(a2, t, 'A', o->name2); path(b2, t, 'B', o->name2);
	switch (o->kind) {
	case F_OPEN:
		if (p->nf == MAXFD) break;
		errno = 0; r = fs_open(a, open_flags[o->flags], fmodes[o->mode]); e = errno;
		errno = 0; q = open(b, open_flags[o->flags], fmodes[o->mode]); f = errno;
		if ((r < 0) != (q < 0)) pbt_fail("task %d: open(%s, %d) gave %ld (errno %d), the system call %ld (errno %d)", t, names[o->name], o->flags, r, e, q, f);
		if (r < 0) { check(t, o, r, e, q, f); break; }
		if (fcntl((int)r, F_GETFL) != fcntl((int)q, F_GETFL)) pbt_fail("task %d: open(%s) has flags %x, the system call's %x", t, names[o->name], fcntl((int)r, F_GETFL), fcntl((int)q, F_GETFL));
		p->f[p->nf].lib = (int)r; p->f[p->nf].ref = (int)q; p->nf++;
		break;
	case F_READ: case F_WRITE: {
		if (!fp) break;
		char *x = malloc((size_t)o->n + 8), *y = malloc((size_t)o->n + 8); int i; memset(x + o->n, 'Z', 8);
		for (i = 0; i < o->n; i++) x[i] = y[i] = pat(o->seed, i);
		errno = 0; r = o->kind == F_READ ? fs_read(fp->lib, x, (uint32_t)o->n) : fs_write(fp->lib, x, (uint32_t)o->n); e = errno;
		errno = 0; q = o->kind == F_READ ? read(fp->ref, y, (size_t)o->n) : write(fp->ref, y, (size_t)o->n); f = errno;
		check(t, o, r, e, q, f); tail_ok(t, o, x, o->n);
		if (memcmp(x, y, (size_t)o->n)) pbt_fail("task %d: %s of %d bytes gave other bytes", t, fname[o->kind], o->n);
		free(x); free(y);
		} break;
	case F_SEND: {
		if (!fp || fp == fp2) break;
		off_t x = o->seed % 100, y = x;
		errno = 0; r = fs_sendfile(fp->lib, fp2->lib, o->variant & 1 ? &x : NULL, (size_t)o->n); e = errno;
		errno = 0; q = syscall(SYS_sendfile, fp->ref, fp2->ref, o->variant & 1 ? &y : NULL, r > 0 ? (size_t)r : (size_t)o->n); f = errno;
		check(t, o, r, e, q, f);
		if (x != y) pbt_fail("task %d: sendfile left the offset %ld instead of %ld", t, (long)x, (long)y);
		} break;
	case F_CLOSE:
		if (!fp) break;
		errno = 0; r = fs_close(fp->lib); e = errno;
		errno = 0; q = close(fp->ref); f = errno;
		check(t, o, r, e, q, f);
		if (nt == 1 && fcntl(fp->lib, F_GETFD) >= 0) pbt_fail("task %d: descriptor %d is still open after fs_close()", t, fp->lib);
		if (nt == 1 && o->variant) { errno = 0; r = fs_close(fp->lib); if (r != -1) pbt_fail("closing a closed descriptor gave %ld", r); pbt_label("closed twice"); }
		p->f[o->h % p->nf] = p->f[p->nf - 1]; p->nf--;
		break;
	case F_STAT: memset(&sa, 0, sizeof sa); errno = 0; r = fs_stat(a, &sa); e = errno; errno = 0; q = stat(b, &sb); f = errno; check(t, o, r, e, q, f); if (!r) same_stat(t, o, &sa, &sb); break;
	case F_FSTAT: if (!fp) break; memset(&sa, 0, sizeof sa); errno = 0; r = fs_fstat(fp->lib, &sa); e = errno; errno = 0; q = fstat(fp->ref, &sb); f = errno; check(t, o, r, e, q, f); if (!r) same_stat(t, o, &sa, &sb); break;
	case F_ACCESS: errno = 0; r = fs_access(a, o->n & 7); e = errno; errno = 0; q = access(b, o->n & 7); f = errno; check(t, o, r, e, q, f); break;
	case F_EXISTS: r = fs_exists(a); q = access(b, F_OK) == 0; check(t, o, r, 0, q, 0); break;
	case F_SIZE: r = (long)fs_filesize(a); q = stat(b, &sb) ? 0 : sb.st_size; if (stat(b, &sb) || !S_ISDIR(sb.st_mode)) check(t, o, r, 0, q, 0); break;
	case F_WRITEFILE: {
		char *x = malloc((size_t)o->n + 1); int i; for (i = 0; i < o->n; i++) if (!(x[i] = pat(o->seed, i))) x[i] = 1; x[o->n] = 0;
		if (!stat(b, &sb) && sb.st_size > o->n) { free(x); break; } /* whether what is behind the text stays is not said */
		errno = 0; r = fs_writefile(a, x); e = errno;
		errno = 0; q = open(b, O_WRONLY | O_CREAT, 0600); f = errno;
		if (q >= 0) { int fd = (int)q; q = write(fd, x, (size_t)o->n); close(fd); if (r != q) pbt_fail("task %d: fs_writefile() of %d bytes gave %ld", t, o->n, r); }
		else if (r >= 0) pbt_fail("task %d: fs_writefile(%s) gave %ld, open() fails with %d", t, names[o->name], r, f);
		free(x);
		} break;
	case F_READFILE: {
		long n; char *w = slurp(b, &n); char *x = fs_readfile(a);
		if (!stat(b, &sb) && S_ISDIR(sb.st_mode)) { free(w); break; }
		if (n <= 0 ? x != NULL : !x || memcmp(x, w, (size_t)n) || x[n]) pbt_fail("task %d: fs_readfile(%s) gave %s, the file has %ld bytes", t, names[o->name], x ? "other bytes" : "nothing", n);
		if (x) { p->rf[p->nrf] = x; p->rfwant[p->nrf] = w; p->rflen[p->nrf++] = n; } else free(w);
		} break;
	case F_TOUCH: { r = fs_touch(a); int fd = open(b, O_WRONLY | O_CREAT, 0600); q = fd >= 0; if (q) close(fd); check(t, o, r, 0, q, 0); } break;
	case F_RENAME: errno = 0; r = fs_rename(a, a2); e = errno; errno = 0; q = rename(b, b2); f = errno; check(t, o, r, e, q, f); break;
	case F_COPY:
		if (!stat(b, &sb) && S_ISDIR(sb.st_mode)) break;
		__sync_fetch_and_add(&F_short, o->variant != 0); errno = 0; r = fs_copyfile(a, a2); e = errno; __sync_fetch_and_sub(&F_short, o->variant != 0);
		errno = 0; q = ref_copy(b, b2); f = errno;
		if (q == -2) { pbt_label("copied onto itself"); break; }
		check(t, o, r, e, q, f);
		break;
	case F_UNLINK: errno = 0; r = fs_unlink(a); e = errno; errno = 0; q = unlink(b); f = errno; check(t, o, r, e, q, f); break;
	case F_MKDIR: errno = 0; r = fs_mkdir(a, (mode_t)(fmodes[o->mode] | (o->variant ? 0700 : 0))); e = errno; errno = 0; q = mkdir(b, (mode_t)(fmodes[o->mode] | (o->variant ? 0700 : 0))); f = errno; check(t, o, r, e, q, f); break;
	case F_RMDIR: errno = 0; r = fs_rmdir(a); e = errno; errno = 0; q = rmdir(b); f = errno; check(t, o, r, e, q, f); break;
	case F_CHMOD: errno = 0; r = fs_chmod(a, (mode_t)fmodes[o->mode]); e = errno; errno = 0; q = chmod(b, (mode_t)fmodes[o->mode]); f = errno; check(t, o, r, e, q, f); break;
	case F_AFWRITE: case F_AFPRINTF: {
		const char *m = modes[o->mode % 8]; char *x = malloc((size_t)o->n + 1); int i, size = 1 + o->variant * 3, cnt = o->n / size; FILE *fi;
		for (i = 0; i < o->n; i++) if (!(x[i] = pat(o->seed, i)) && o->kind == F_AFPRINTF) x[i] = '%';
		x[o->n] = 0;
		r = o->kind == F_AFWRITE ? async_fwrite(a, m, x, (size_t)size, (size_t)cnt) : async_fprintf(a, m, x);
		q = 0; fi = *b ? fopen(b, m) : NULL;
		if (fi) { q = o->kind == F_AFWRITE ? (long)fwrite(x, (size_t)size, (size_t)cnt, fi) : fprintf(fi, "%s", x); if (fclose(fi)) q = q > 0 ? q : 0; if (q < 0) q = 0; }
		check(t, o, r, 0, q, 0); free(x);
		} break;
	case F_FOPEN: {
		if (p->nst == MAXFD) break;
		const char *m = modes[o->mode % 9]; FILE *x, *y;
		if (!stat(b, &sb) && S_ISDIR(sb.st_mode)) break;
		errno = 0; x = fs_fopen(a, m); e = errno; errno = 0; y = *b && *m ? fopen(b, m) : NULL; f = errno;
		if (!x != !y) pbt_fail("task %d: fs_fopen(%s, %s) gave %p, fopen() %p", t, names[o->name], m, (void *)x, (void *)y);
		if (x) { p->s[p->nst].lib = x; p->s[p->nst].ref = y; p->s[p->nst].use = 0; p->nst++; }
		} break;
	case F_FREAD: case F_FWRITE: case F_FGETC: case F_FGETS: {
		if (!sp) break;
		int dir = o->kind == F_FWRITE ? 2 : 1; if (sp->use && sp->use != dir) break;
		sp->use = dir;
		int size = 1 + o->variant * 6, n = o->n, i; char *x = malloc((size_t)n * (size_t)size + 8), *y = malloc((size_t)n * (size_t)size + 8), *rx, *ry;
		for (i = 0; i < n * size; i++) { x[i] = y[i] = pat(o->seed, i); if (i % 37 == 36 && o->kind == F_FWRITE) x[i] = y[i] = '\n'; }
		memset(x + n * size, 'Z', 8);
		if (o->kind == F_FREAD) { r = (long)fs_fread(x, (size_t)size, (size_t)n, sp->lib); q = (long)fread(y, (size_t)size, (size_t)n, sp->ref); }
		else if (o->kind == F_FWRITE) { r = (long)fs_fwrite(x, (size_t)size, (size_t)n, sp->lib); q = (long)fwrite(y, (size_t)size, (size_t)n, sp->ref); if (q > 0) fflush(sp->ref); }
		else if (o->kind == F_FGETC) { r = fs_fgetc(sp->lib); q = fgetc(sp->ref); }
		else { rx = n * size > 1 ? fs_fgets(x, n * size, sp->lib) : x; ry = n * size > 1 ? fgets(y, n * size, sp->ref) : y; r = rx == x; q = ry == y; if (rx && rx != x) pbt_fail("task %d: fs_fgets() gave another pointer", t); }
		if (r != q) pbt_fail("task %d: %s gave %ld, the C library's %ld", t, fname[o->kind], r, q);
		tail_ok(t, o, x, n * size);
		if (memcmp(x, y, (size_t)(n * size))) pbt_fail("task %d: %s gave other bytes", t, fname[o->kind]);
		free(x); free(y);
		} break;
	case F_FCLOSE: if (!sp) break; r = fs_fclose(sp->lib); q = fclose(sp->ref); check(t, o, r, 0, q, 0); p->s[o->h % p->nst] = p->s[p->nst - 1]; p->nst--; break;
	case F_PROMISE: {
		const char *m = modes[o->mode % 8]; promise *pr; FILE *x, *y; int i, j; char ba[200], bb[200];
		if (!*b || (!stat(b, &sb) && S_ISDIR(sb.st_mode))) break;
		pr = promise_fopen(a, m); if (!is_promise(pr)) pbt_fail("promise_fopen() gave no promise");
		if (o->variant) yield();
		x = promise_wait(pr).object; y = fopen(b, m);
		if (!x != !y) pbt_fail("task %d: promise_fopen(%s, %s) gave %p, fopen() %p", t, names[o->name], m, (void *)x, (void *)y);
		for (i = 0; x && i < o->n % 5; i++) {
			memset(ba, 0, sizeof ba); memset(bb, 0, sizeof bb);
			if (m[0] == 'r') {
				if (i % 3 == 2) { r = promise_fgetc(pr, x); q = fgetc(y); }
				else if (i % 3 == 1) { r = promise_read(pr, fileno(x), ba, 5); q = read(fileno(y), bb, 5); }
				else { j = 2 + o->seed % 190; r = promise_fgets(pr, ba, j, x) != NULL; q = fgets(bb, j, y) != NULL; }
			} else {
				for (j = 0; j < o->seed % 150; j++) ba[j] = (char)(pat(o->seed + i, j) | 1);
				if (i & 1) { r = (long)promise_fwrite(pr, ba, 1, (size_t)j, x); q = (long)fwrite(ba, 1, (size_t)j, y); fflush(y); }
				else { r = promise_fprintf(pr, x, ba); q = fprintf(y, "%s", ba); }
				memset(ba, 0, sizeof ba);
			}
			if (r != q) pbt_fail("task %d: step %d on the promise gave %ld, the C library's %ld", t, i, r, q);
			if (memcmp(ba, bb, sizeof ba)) pbt_fail("task %d: step %d on the promise gave other bytes", t, i);
		}
		r = promise_fclose(pr, x); q = y ? fclose(y) : -1;
		check(t, o, r, errno, q, errno);
		} break;
	case F_POPEN: {
		char c[200], w[64], g[64]; int code = o->seed % 200; promise *pr; FILE *x;
		sprintf(w, "line %d\n", o->seed); sprintf(c, "echo line %d; exit %d", o->seed, code);
		pr = promise_popen(c, "r"); x = promise_wait(pr).object;
		if (!x) pbt_fail("task %d: promise_popen() gave nothing", t);
		if (promise_fgets(pr, g, 64, x) != g || strcmp(g, w)) pbt_fail("task %d: the command's output is wrong", t);
		r = promise_pclose(pr, x); if (r != code << 8) pbt_fail("task %d: promise_pclose() gave %ld instead of %d", t, r, code << 8);
		} break;
	case F_FIFO: {
		char x[16]; int fd; sprintf(a, "%s/fifo%d", root, t);
		if (mkfifo(a, 0600)) break;
		T_[t].done = 0; async_task(fifo_task, 2, V(t), V(o->seed % 50));
		fd = fs_open(a, O_RDONLY, 0); if (fd < 0) pbt_fail("task %d: fs_open() of a fifo gave %d", t, fd);
		if ((r = fs_read(fd, x, 16)) != 5 || memcmp(x, "12345", 5)) pbt_fail("task %d: fs_read() of a fifo gave %ld", t, r);
		T_[t].done = 1; while (T_[t].done) yield();
		if (fs_close(fd)) pbt_fail("task %d: fs_close() of a fifo failed", t);
		unlink(a); pbt_label("blocking open");
		} break;
	case F_ENTROPY: {
		char x[600]; int n = o->n % 300, i, nz = 0; memset(x, 0, sizeof x); errno = 0; r = async_getentropy(x, (size_t)n); e = errno;
		if (n <= 256 ? r != 0 : r != -1 || e != EIO) pbt_fail("task %d: async_getentropy(%d) gave %ld, errno %d", t, n, r, e);
		for (i = 0; i < n; i++) nz += x[i] != 0;
		if (n >= 16 && n <= 256 && nz < n / 4) pbt_fail("task %d: async_getentropy(%d) left its buffer empty", t, n);
		for (i = n; i < 600; i++) if (x[i]) pbt_fail("task %d: async_getentropy() wrote beyond its buffer", t);
		} break;
	case F_RAWOPEN: { /* descriptors from elsewhere, closed by fs_close() */
		int z[2], i; if (pipe(z)) break;
		for (i = 0; i < 2; i++) { if (nt > 1) { struct stat s1, s2; fstat(z[i], &s1); if (fs_close(z[i])) pbt_fail("task %d: fs_close() of a pipe failed", t); if (!fstat(z[i], &s2) && s1.st_ino == s2.st_ino) pbt_fail("task %d: fs_close() left the pipe open", t); }
			else { if (fs_close(z[i])) pbt_fail("fs_close() of a pipe gave -1, errno %d", errno); if (fcntl(z[i], F_GETFD) >= 0) pbt_fail("fs_close() left the pipe open"); } }
		} break;
	case F_YIELD: yield(); break;
	}
}
static void *body(param_t args) {
	int t = args[0].integer, k; prog *p = &T_[t]; char a[300], b[300];
	for (k = 0; k < p->n; k++) { run_op(t, k); sprintf(a, "%s/A%d", root, t); sprintf(b, "%s/B%d", root, t); if (k % 4 == 3) same_tree(t, a, b, "while it runs"); }
	while (p->nf) { p->nf--; if (fs_close(p->f[p->nf].lib)) pbt_fail("task %d: fs_close() failed", t); close(p->f[p->nf].ref); }
	while (p->nst) { p->nst--; if (fs_fclose(p->s[p->nst].lib)) pbt_fail("task %d: fs_fclose() failed", t); fclose(p->s[p->nst].ref); }
	for (k = 0; k < p->nrf; k++) if (memcmp(p->rf[k], p->rfwant[k], (size_t)p->rflen[k] + 0)) pbt_fail("task %d: what fs_readfile() gave has changed", t);
	return V(t + 1);
}
static int count_fds(void) { int n = 0; DIR *d = opendir("/proc/self/fd"); struct dirent *e; while ((e = readdir(d))) n += e->d_name[0] != '.'; closedir(d); return n - 1; }
static void *main_task(param_t args) {
	uint32_t rid[MAXT]; int i, before, after; (void)args;
	/* the pool thread's own descriptors come first */
	fs_exists("/"); before = count_fds();
	for (i = 0; i < nt; i++) rid[i] = async_task(body, 1, V(i));
	for (i = 0; i < nt; i++) if (await_for(rid[i]).integer != i + 1) pbt_fail("task %d has a wrong result", i);
	after = count_fds();
	if (after != before) pbt_fail("%d descriptors are open, before there were %d", after, before);
	return 0;
}
static void u_files(void) {
	int i, k; char a[400], b[400];
	static const int w[F_KINDS] = { [F_OPEN] = 10, [F_READ] = 6, [F_WRITE] = 8, [F_CLOSE] = 6, [F_SEND] = 4, [F_STAT] = 2, [F_FSTAT] = 2, [F_ACCESS] = 2, [F_EXISTS] = 1, [F_SIZE] = 2, [F_WRITEFILE] = 5, [F_READFILE] = 4, [F_TOUCH] = 2, [F_RENAME] = 3, [F_COPY] = 5, [F_UNLINK] = 2, [F_MKDIR] = 2, [F_RMDIR] = 2, [F_CHMOD] = 2,
		[F_AFWRITE] = 3, [F_AFPRINTF] = 2, [F_FOPEN] = 6, [F_FREAD] = 3, [F_FWRITE] = 3, [F_FGETC] = 2, [F_FGETS] = 3, [F_FCLOSE] = 2, [F_PROMISE] = 2, [F_POPEN] = 0, [F_FIFO] = 1, [F_ENTROPY] = 1, [F_RAWOPEN] = 2, [F_YIELD] = 2 };
	int pop = pbt_chance(1, 20);
	cpus = (int)pbt_int(2, 5);
	umask(022); memset(T_, 0, sizeof T_);
	snprintf(root, sizeof root, "%s", pbt_scratch());
	nt = 1 + (int)pbt_size(0, MAXT - 1);
	pbt_note("%d processors. ", cpus);
	for (i = 0; i < nt; i++) {
		prog *p = &T_[i]; p->n = (int)pbt_size(1, MAXOP); pbt_note("task %d: ", i);
		for (k = 0; k < p->n; k++) {
			op *o = &p->o[k];
			o->kind = pop && pbt_chance(1, 6) ? F_POPEN : pbt_weighted(w, F_KINDS);
			o->name = (int)pbt_size(0, NN - 1); o->name2 = (int)pbt_size(0, NN - 1); o->flags = (int)pbt_below(11); o->mode = (int)pbt_below(7); o->h = (int)pbt_below(20); o->h2 = (int)pbt_below(20);
			o->n = (int)(pbt_chance(1, 6) ? pbt_int(1, 100000) : pbt_size(0, 2000)); o->seed = (int)pbt_below(1000); o->variant = (int)pbt_below(2);
			if (o->kind == F_AFWRITE || o->kind == F_AFPRINTF || o->kind == F_FOPEN || o->kind == F_PROMISE) o->mode = (int)pbt_below(9);
			if (o->kind == F_PROMISE) o->n = (int)pbt_below(50);
			if (o->kind == F_FREAD || o->kind == F_FWRITE || o->kind == F_FGETS) o->n %= 9000;
			pbt_note("%s(%s%s%s, %d, %d, h%d) ", fname[o->kind], names[o->name], o->kind == F_RENAME || o->kind == F_COPY ? " -> " : "", o->kind == F_RENAME || o->kind == F_COPY ? names[o->name2] : "", o->n, o->kind == F_OPEN ? o->flags : o->mode, o->h);
			pbt_label("%s", fname[o->kind]);
		}
		pbt_note("\n");
		for (char c = 'A'; c <= 'B'; c++) {
			sprintf(a, "%s/%c%d", root, c, i); mkdir(a, 0755);
			path(b, i, c, 7); if (symlink("f0", b)) pbt_fail("harness: symlink, errno %d", errno);
			path(b, i, c, 8); int fd = open(b, O_RDWR | O_CREAT, 0600); if (write(fd, "secret", 6) != 6) pbt_fail("harness"); fchmod(fd, 0); close(fd);
			path(b, i, c, 1); fd = open(b, O_RDWR | O_CREAT, 0600); for (k = 0; k < 5000; k++) { char ch = k % 41 == 40 ? '\n' : pat(9, k); if (write(fd, &ch, 1) != 1) pbt_fail("harness"); } close(fd);
		}
		if (p->n > 3) pbt_nontrivial();
	}
	if (nt > 1) pbt_label("several tasks");
	events_start(256, (main_cb)main_task, 0);
	for (i = 0; i < nt; i++) { sprintf(a, "%s/A%d", root, i); sprintf(b, "%s/B%d", root, i); same_tree(i, a, b, "at the end"); }
	pbt_done();
}
const pbt_unit pbt_units[] = {
	{ "files", u_files, 1, 30000, PBT_FLAKY | PBT_NOAS | PBT_SCRATCH, "a task with more than three operations" },
	{ 0 }
};
