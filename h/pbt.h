/* Small property-based testing core: integrated shrinking over the sequence of
 * choices a case draws, one forked child per batch of cases, structured report.
 * See pbt.c. Harnesses (h_*.c) define pbt_units[]. */
#ifndef PBT_H
#define PBT_H
#include <stdint.h>
#include <stdbool.h>
#include <stddef.h>
#include <stdarg.h>

#ifdef __cplusplus
extern "C" {
#endif

enum {
	PBT_FLAKY = 1,    /* outcome depends on real thread schedules: confirm by repeated replays */
	PBT_SCRATCH = 2,  /* wipe the scratch directory before every batch */
	PBT_ROOT = 4,     /* do not drop privileges in the child */
	PBT_SERIAL = 8,   /* run with few workers (timing or thread heavy) */
	PBT_NOAS = 16,    /* no address space limit (sanitizers) */
	PBT_ENUM = 32     /* cases are enumerated by index (pbt_index()), not sampled */
};

typedef struct {
	const char *name;
	void (*run)(void);
	int batch;          /* cases per forked child */
	int timeout_ms;     /* wall-clock limit for ONE batch; exceeding it is a hang candidate */
	unsigned flags;
	const char *rule;   /* what makes a case non-trivial */
} pbt_unit;

extern const pbt_unit pbt_units[];

uint64_t pbt_below(uint64_t n);                 /* [0,n) uniform, shrinks to 0 */
int64_t pbt_int(int64_t lo, int64_t hi);        /* [lo,hi] uniform, shrinks to lo */
int64_t pbt_size(int64_t lo, int64_t hi);       /* [lo,hi] biased to small, shrinks to lo */
int64_t pbt_wild(void);                         /* any int64, biased to boundaries */
bool pbt_chance(int num, int den);              /* true with num/den; shrinks to false */
int pbt_weighted(const int *w, int n);          /* index by weight; shrinks to 0 */
#define pbt_pick(arr) ((arr)[pbt_below(sizeof(arr) / sizeof((arr)[0]))])
int pbt_str(char *buf, int maxlen, const char *alphabet);  /* NUL-terminated, returns length */
uint64_t pbt_index(void);                       /* index of this case */

void pbt_label(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
void pbt_nontrivial(void);
void pbt_key(uint64_t k);                       /* extra identity for distinctness */
void pbt_note(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
void pbt_note_str(const char *name, const char *s, size_t n); /* escaped */
void pbt_fail(const char *fmt, ...) __attribute__((format(printf, 1, 2), noreturn));
void pbt_expect_death(const char *what);        /* label the next crash (diagnostics only) */
void pbt_done(void) __attribute__((noreturn));  /* end the case and the child now, successfully */
const char *pbt_scratch(void);
int pbt_thorough(void);
int pbt_replaying(void);

#define pbt_check(cond, ...) do { if (!(cond)) pbt_fail(__VA_ARGS__); } while (0)

#ifdef __cplusplus
}
#endif
#endif
