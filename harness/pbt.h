/*
 * pbt.h -- a small property-based-testing core.
 *
 * A test case is plain data: an array of named configuration numbers and a
 * list of operations with four numeric arguments each.  Generators build cases
 * from a seeded PRNG only; executing a case is a function of the case alone
 * (properties flagged `nondet` additionally depend on the thread schedule).
 * Every case runs in a forked child, so crashes and hangs are contained.
 * Failing cases are shrunk (delta debugging on the operation list, then on the
 * numeric arguments and configuration values) and written to a text file that
 * `replay` executes.
 */
#ifndef PBT_H
#define PBT_H
#include <stdint.h>
#include <stddef.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

#define PBT_NCFG 40
#define PBT_NCOUNT 48

typedef struct {
   uint32_t kind;
   uint32_t a[5];
} pbt_op;

typedef struct {
   uint64_t cfg[PBT_NCFG];
   int      nops, cap;
   pbt_op  *ops;
} pbt_case;

typedef struct {
   uint64_t s[4];
} pbt_rng;

uint64_t
pbt_mix(uint64_t x);
void
pbt_seed(pbt_rng *r, uint64_t seed);
uint64_t
pbt_u64(pbt_rng *r);
/* uniform in [lo,hi] */
uint64_t
pbt_range(pbt_rng *r, uint64_t lo, uint64_t hi);
/* true with probability pct/100 */
int
pbt_pct(pbt_rng *r, int pct);
/* pick index by integer weights (n of them) */
int
pbt_weighted(pbt_rng *r, const int *w, int n);
/* a size with log-uniform distribution in [lo,hi] */
uint64_t
pbt_logrange(pbt_rng *r, uint64_t lo, uint64_t hi);

void
pbt_add(pbt_case *c,
        uint32_t  kind,
        uint32_t  a,
        uint32_t  b,
        uint32_t  d,
        uint32_t  e,
        uint32_t  f);

/* shared between the child running a case and the explorer */
typedef struct {
   volatile int      status; /* 0 running, 1 ok, 2 fail, 3 discard */
   volatile uint64_t progress; /* op index; used by the hang watchdog */
   char              msg[2048];
   uint64_t          count[PBT_NCOUNT];
   int               nontrivial;
} pbt_result;

extern pbt_result *pbt_res;
#define PBT_COUNT(i, n)                                                        \
   __atomic_fetch_add(&pbt_res->count[i], (n), __ATOMIC_RELAXED)
#define PBT_PROGRESS()                                                         \
   __atomic_fetch_add(&pbt_res->progress, 1, __ATOMIC_RELAXED)

/* Terminates the child reporting a property violation. */
void
pbt_fail(const char *fmt, ...) __attribute__((noreturn, format(printf, 1, 2)));
/* Terminates the child: the case is not a legal input. */
void
pbt_discard(const char *fmt, ...)
   __attribute__((noreturn, format(printf, 1, 2)));

typedef struct {
   const char  *id;   /* property id, e.g. "C01" */
   const char  *desc; /* one line */
   void (*gen)(pbt_case *c, pbt_rng *r, int thorough);
   void (*run)(const pbt_case *c);
   int          nondet;     /* schedule-dependent */
   int (*racy)(const pbt_case *c); /* is this case schedule-dependent? */
   int          hang_secs;  /* no progress for that long => hang */
   const char **opnames;    /* NULL terminated */
   const char **cfgnames;   /* NULL terminated */
   const char **countnames; /* NULL terminated */
   const char  *rule;       /* what makes a case non-trivial */
   /* lower bounds for configuration values when shrinking (may be NULL) */
   const uint8_t *cfg_shrinkable;
} pbt_prop;

extern const pbt_prop *pbt_props[];

/* per-case scratch file path (removed by the explorer after each case) */
const char *
pbt_scratch(const char *suffix);

int
pbt_main(int argc, char **argv);
#endif
