/*
 * db_conc.c -- several client threads on one store (public API only).
 *
 * Three classes of keys, each with its own way of knowing which answers a
 * concurrent read may give:
 *  owned   one writer per key; the versions of a key form a line whose states
 *          are a function of (key, version).  A read may return any version
 *          between the newest one known to be complete (or already seen by
 *          anybody) when it started and the newest one begun when it ended.
 *  counter written by all threads with "add d" updates; a read lies between
 *          the adds complete before it and the adds begun before its end, and
 *          never goes back.
 *  shared  inserted and deleted by all threads; every operation is logged with
 *          start and end stamps and the history of each key must be that of an
 *          atomic register.
 * Scans are held to the same rules with the interval [start of scan, visit].
 */
#define _GNU_SOURCE
#include "dbcommon.h"
#include <errno.h>
#include <pthread.h>
#include <sched.h>
#include <unistd.h>

enum { OP_LOAD, OP_MIX, OP_BULK, OP_SCAN, OP_PHASE };
static const char *opnames[]  = {"LOAD", "MIX", "BULK", "SCAN", "PHASE", NULL};
static const char *cfgnames[] = {DB_CFGNAMES, NULL};
#define CF_T CF_X0
enum { N_WRITES, N_LOOKUPS, N_OVERLAP, N_SCANS, N_SCANNED, N_SCAN_OVERLAP, N_COUNTER_ADDS, N_SHARED_OPS, N_PHASES, N_REOPENS, N_FILLS };
static const char *countnames[] = {"writes", "lookups", "lookups_overlapping_a_write", "scans", "scanned_tuples", "scanned_keys_overlapping_a_write", "counter_adds", "shared_key_operations", "phases", "reopens", "memtable_fills", NULL};

#define MAXT 8
enum { OWNED, COUNTER, SHARED };
typedef struct {
   uint32_t started, committed, seen; /* versions (owned) or sums (counter) */
} kst;

static uint64_t          cf[PBT_NCFG];
static uint32_t          K, T;
static uint8_t          *kb;
static uint16_t         *kl;
static uint32_t         *kh, *order;
static kst              *ks;
static splinterdb       *db;
static splinterdb_config scfg;
static my_data_config    dcfg;
static char              dbfile[600];
static uint64_t          written;
static uint64_t          stamp;

typedef struct {
   uint32_t key, x; /* x = 0: delete / absent */
   uint64_t s, e;
   int      write;
} lrec;
typedef struct {
   int                      t;
   const pbt_case          *c;
   int                      from, to;
   splinterdb_lookup_result res;
   char                     lbuf[1600];
   lrec                    *log;
   int                      nlog, clog;
   uint32_t                 xn;
   uint32_t                *lo; /* scratch for scans */
   uint32_t                 wr;
} thr;
static thr TH[MAXT];

#define LD(p) __atomic_load_n(&(p), __ATOMIC_SEQ_CST)
#define STO(p, v) __atomic_store_n(&(p), (v), __ATOMIC_SEQ_CST)

static inline slice
kslice(uint32_t i)
{
   return slice_create(kl[i], kb + (size_t)i * cf[CF_MAXKEY]);
}
static int
order_cmp(const void *a, const void *b)
{
   uint32_t x = *(const uint32_t *)a, y = *(const uint32_t *)b;
   return keycmp_raw(cf[CF_CMP], kb + (size_t)x * cf[CF_MAXKEY], kl[x], kb + (size_t)y * cf[CF_MAXKEY], kl[y]);
}
static int
kclass(uint32_t i)
{
   uint32_t h = i % 16;
   return h == 3 && cf[CF_MERGE] ? COUNTER : h == 7 || (h == 11 && i % 5 == 0) ? SHARED : OWNED;
}
static uint32_t
owner(uint32_t i)
{
   return (uint32_t)(pbt_mix(i * 977 + 5) % T);
}
static void
smax(uint32_t *p, uint32_t v)
{
   uint32_t o = LD(*p);
   while (o < v && !__atomic_compare_exchange_n(p, &o, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST)) {
   }
}

/* ------------------------------------------- versions of the owned keys */
enum { K_INS, K_DEL, K_UPD };
static int
vkind(uint32_t i, uint32_t v, uint32_t *a, uint32_t *b)
{
   uint64_t h = pbt_mix(((uint64_t)i << 32 ^ v) + cf[CF_KSEED]);
   int      p = h % 100;
   *a         = (h >> 8) % MERGE_P;
   *b         = (h >> 30) % MERGE_P;
   if (p < (int)cf[CF_X1]) {
      return K_DEL;
   }
   if (cf[CF_MERGE] && p < (int)(cf[CF_X1] + cf[CF_X2])) {
      if (h >> 60 == 3) {
         *a = *b = 0;
      }
      return K_UPD;
   }
   return K_INS;
}
/* register of owned key i at version v; 0 = absent */
static uint32_t
vstate(uint32_t i, uint32_t v)
{
   uint32_t a, b, w = v, x = 0;
   while (w > 0 && vkind(i, w, &a, &b) == K_UPD) {
      w--;
   }
   if (w > 0 && vkind(i, w, &a, &b) == K_INS) {
      x = cf[CF_MERGE] ? 1 + a % (MERGE_P - 1) : w;
   }
   while (w < v) {
      w++;
      vkind(i, w, &a, &b);
      x = affine(a, b, x);
   }
   return x;
}
static int
same(uint32_t i, uint32_t x, slice v)
{
   uint8_t  e[DB_MAXVAL + 8];
   unsigned n = db_value(cf[CF_VCLASS], cf[CF_MERGE] || kclass(i) == SHARED, kh[i], x, e);
   return slice_length(v) == n && !memcmp(slice_data(v), e, n);
}
/* smallest version in [lo,hi] that explains the answer, or -1 */
static int64_t
explain(uint32_t i, uint32_t lo, uint32_t hi, int found, slice v)
{
   for (uint32_t w = lo; w <= hi; w++) {
      uint32_t x = vstate(i, w);
      if (found ? x != 0 && same(i, x, v) : x == 0) {
         return w;
      }
   }
   return -1;
}
static const char *
kstr(uint32_t i)
{
   static __thread char b[200];
   int                  k = snprintf(b, 200, "#%u[", i);
   for (int j = 0; j < kl[i] && j < 24; j++) {
      k += snprintf(b + k, 200 - k, "%02x", kb[(size_t)i * cf[CF_MAXKEY] + j]);
   }
   snprintf(b + k, 200 - k, "]");
   return b;
}
static uint32_t
counter_val(const char *what, uint32_t i, int found, slice v)
{
   uint32_t x = 0;
   if (!found) {
      return 0;
   }
   if (slice_length(v) >= 8) {
      memcpy(&x, slice_data(v), 4);
   }
   if (x == 0 || !same(i, x, v)) {
      pbt_fail("%s: counter key %s: the value (%lu bytes, head %u) was never computed for it", what, kstr(i), (unsigned long)slice_length(v), x);
   }
   return x;
}
/* judge one answer for key i, begun when (lo) was known, now over */
static void
judge(thr *h, const char *what, uint32_t i, uint32_t lo, uint64_t s, int found, slice v, int scan)
{
   switch (kclass(i)) {
      case OWNED: {
         uint32_t hi = LD(ks[i].started);
         int64_t  w  = explain(i, lo, hi, found, v);
         if (w < 0) {
            uint32_t head = 0;
            if (found && slice_length(v) >= 4) {
               memcpy(&head, slice_data(v), 4);
            }
            pbt_fail("%s of key %s by thread %d: %s (%lu bytes, head %08x), but only versions %u..%u are possible", what, kstr(i), h->t, found ? "found" : "not found", (unsigned long)(found ? slice_length(v) : 0), head, lo, hi);
         }
         if (lo != hi) {
            PBT_COUNT(scan ? N_SCAN_OVERLAP : N_OVERLAP, 1);
         }
         smax(&ks[i].seen, (uint32_t)w);
         break;
      }
      case COUNTER: {
         uint32_t hi = LD(ks[i].started);
         uint32_t x  = counter_val(what, i, found, v);
         if (x < lo || x > hi) {
            pbt_fail("%s of counter key %s by thread %d: %u, but the completed additions give %u and those begun %u", what, kstr(i), h->t, x, lo, hi);
         }
         if (lo != hi) {
            PBT_COUNT(scan ? N_SCAN_OVERLAP : N_OVERLAP, 1);
         }
         smax(&ks[i].seen, x);
         break;
      }
      case SHARED: {
         uint32_t x = 0;
         if (found) {
            if (slice_length(v) >= 4) {
               memcpy(&x, slice_data(v), 4);
            }
            if (x == 0 || !same(i, x, v)) {
               pbt_fail("%s of shared key %s by thread %d: value (%lu bytes, head %08x) was never written for it", what, kstr(i), h->t, (unsigned long)slice_length(v), x);
            }
         }
         if (h->nlog == h->clog) {
            h->clog = h->clog ? h->clog * 2 : 256;
            h->log  = realloc(h->log, h->clog * sizeof(lrec));
         }
         h->log[h->nlog++] = (lrec){i, x, s, __atomic_fetch_add(&stamp, 1, __ATOMIC_SEQ_CST), 0};
         PBT_COUNT(N_SHARED_OPS, 1);
         break;
      }
   }
}
static uint32_t
known_lo(uint32_t i)
{
   uint32_t a = LD(ks[i].committed), b = LD(ks[i].seen);
   return a > b ? a : b;
}
static void
do_read(thr *h, uint32_t i)
{
   uint32_t lo = known_lo(i);
   uint64_t s  = kclass(i) == SHARED ? __atomic_fetch_add(&stamp, 1, __ATOMIC_SEQ_CST) : 0;
   int      rc = splinterdb_lookup(db, kslice(i), &h->res);
   if (rc) {
      pbt_fail("lookup of key %s returned %d", kstr(i), rc);
   }
   int   f = splinterdb_lookup_found(&h->res);
   slice v = NULL_SLICE;
   if (f && splinterdb_lookup_result_value(&h->res, &v)) {
      pbt_fail("lookup_result_value failed on a found key");
   }
   judge(h, "lookup", i, lo, s, f, v, 0);
   PBT_COUNT(N_LOOKUPS, 1);
}
static void
account(uint32_t i, unsigned n)
{
   uint64_t unit = (cf[CF_MEM_KB] - 620) << 10; /* what fits besides the fixed part */
   uint64_t o    = __atomic_fetch_add(&written, n + kl[i] + 8, __ATOMIC_RELAXED);
   if (o / unit != (o + n + kl[i] + 8) / unit) {
      PBT_COUNT(N_FILLS, 1);
   }
   PBT_COUNT(N_WRITES, 1);
}
static void
own_write(uint32_t i)
{
   uint8_t  d[DB_MAXVAL + 8];
   uint32_t a, b, v = ks[i].started + 1;
   unsigned n  = 0;
   int      rc, k = vkind(i, v, &a, &b);
   STO(ks[i].started, v);
   if (k == K_DEL) {
      rc = splinterdb_delete(db, kslice(i));
   } else if (k == K_UPD) {
      n  = db_delta(cf[CF_VCLASS], kh[i], a, b, d);
      rc = splinterdb_update(db, kslice(i), slice_create(n, d));
   } else {
      n  = db_value(cf[CF_VCLASS], cf[CF_MERGE], kh[i], cf[CF_MERGE] ? 1 + a % (MERGE_P - 1) : v, d);
      rc = splinterdb_insert(db, kslice(i), slice_create(n, d));
   }
   if (rc) {
      pbt_fail("write of key %s returned %d", kstr(i), rc);
   }
   STO(ks[i].committed, v);
   account(i, n);
}
static void
add_write(uint32_t i, uint32_t d)
{
   uint8_t buf[DB_MAXVAL + 8];
   uint32_t o = __atomic_fetch_add(&ks[i].started, d, __ATOMIC_SEQ_CST);
   if (o > 65000) {
      __atomic_fetch_sub(&ks[i].started, d, __ATOMIC_SEQ_CST);
      return;
   }
   unsigned n  = db_delta(cf[CF_VCLASS], kh[i], 1, d, buf);
   int      rc = splinterdb_update(db, kslice(i), slice_create(n, buf));
   if (rc) {
      pbt_fail("update of key %s returned %d", kstr(i), rc);
   }
   __atomic_fetch_add(&ks[i].committed, d, __ATOMIC_SEQ_CST);
   account(i, n);
   PBT_COUNT(N_COUNTER_ADDS, 1);
}
static void
shared_write(thr *h, uint32_t i, int del)
{
   uint8_t  buf[DB_MAXVAL + 8];
   uint32_t x = 0;
   unsigned n = 0;
   int      rc;
   if (h->nlog == h->clog) {
      h->clog = h->clog ? h->clog * 2 : 256;
      h->log  = realloc(h->log, h->clog * sizeof(lrec));
   }
   if (!del) {
      x = cf[CF_MERGE] ? ((h->xn++ % 8000) * MAXT + h->t) + 1 : (h->xn++) * MAXT + h->t + 1;
      n = db_value(cf[CF_VCLASS], 1, kh[i], x, buf);
   }
   lrec *l = &h->log[h->nlog];
   l->s    = __atomic_fetch_add(&stamp, 1, __ATOMIC_SEQ_CST);
   rc      = del ? splinterdb_delete(db, kslice(i)) : splinterdb_insert(db, kslice(i), slice_create(n, buf));
   l->e    = __atomic_fetch_add(&stamp, 1, __ATOMIC_SEQ_CST);
   l->key = i, l->x = x, l->write = 1;
   h->nlog++;
   if (rc) {
      pbt_fail("write of key %s returned %d", kstr(i), rc);
   }
   account(i, n);
   PBT_COUNT(N_SHARED_OPS, 1);
}
static void
do_write(thr *h, uint32_t i, pbt_rng *r)
{
   switch (kclass(i)) {
      case COUNTER:
         add_write(i, 1 + pbt_u64(r) % 3);
         break;
      case SHARED:
         shared_write(h, i, pbt_u64(r) % 100 < cf[CF_X1]);
         break;
      default:
         /* the next key this thread owns */
         for (uint32_t n = 0; n < 4 * T + 64; n++, i = (i + 1) % K) {
            if (kclass(i) == OWNED && owner(i) == (uint32_t)h->t) {
               own_write(i);
               return;
            }
         }
   }
}
static uint32_t
lower_bound(const uint8_t *k, size_t n)
{
   uint32_t lo = 0, hi = K;
   while (lo < hi) {
      uint32_t m = (lo + hi) / 2, x = order[m];
      if (keycmp_raw(cf[CF_CMP], kb + (size_t)x * cf[CF_MAXKEY], kl[x], k, n) < 0) {
         lo = m + 1;
      } else {
         hi = m;
      }
   }
   return lo;
}
/* which key of the population is this, looking from pos on; K if none */
static uint32_t
find_from(uint32_t pos, slice k)
{
   uint32_t p = lower_bound(slice_data(k), slice_length(k));
   if (p >= K) {
      return K;
   }
   uint32_t x = order[p];
   if (kl[x] != slice_length(k) || memcmp(kb + (size_t)x * cf[CF_MAXKEY], slice_data(k), kl[x])) {
      return K;
   }
   return p;
}
static void
do_scan(thr *h, uint32_t mode, uint32_t start, uint32_t max, uint64_t seed)
{
   uint32_t pos = 0, n = 0, yield = seed % 5 == 0 ? 1 + (seed >> 8) % 200 : 0;
   slice    s   = NULL_SLICE;
   if (mode % 4) {
      s   = kslice(start);
      pos = lower_bound(slice_data(s), slice_length(s));
   }
   uint32_t end = pos + 2 * (uint64_t)max + 100 > K ? K : pos + 2 * max + 100;
   /* the lower limits are recorded before the scan starts */
   uint64_t st = __atomic_fetch_add(&stamp, 1, __ATOMIC_SEQ_CST);
   for (uint32_t p = pos; p < end; p++) {
      h->lo[p] = known_lo(order[p]);
   }
   splinterdb_iterator *it = NULL;
   int                  rc = splinterdb_iterator_init(db, &it, s);
   if (rc) {
      pbt_fail("iterator_init returned %d", rc);
   }
   while (n < max) {
      if (!splinterdb_iterator_valid(it)) {
         if ((rc = splinterdb_iterator_status(it))) {
            pbt_fail("scan ended with status %d", rc);
         }
         break;
      }
      slice k, v;
      splinterdb_iterator_get_current(it, &k, &v);
      uint32_t p = find_from(pos, k);
      if (p == K) {
         pbt_fail("scan by thread %d shows a key that was never written (%lu bytes) after %u tuples", h->t, (unsigned long)slice_length(k), n);
      }
      if (p < pos) {
         pbt_fail("scan by thread %d goes back: key %s after %u tuples, already past it", h->t, kstr(order[p]), n);
      }
      for (; pos < p && pos < end; pos++) {
         judge(h, "scan", order[pos], h->lo[pos], st, 0, NULL_SLICE, 1);
      }
      if (p >= end) {
         break;
      }
      judge(h, "scan", order[p], h->lo[p], st, 1, v, 1);
      pos = p + 1;
      n++;
      splinterdb_iterator_next(it);
      if (yield && n % yield == 0) {
         usleep(seed % 900);
      }
      if ((n & 1023) == 0) {
         PBT_PROGRESS();
      }
   }
   if (n < max && !splinterdb_iterator_valid(it)) {
      for (; pos < end; pos++) {
         judge(h, "scan", order[pos], h->lo[pos], st, 0, NULL_SLICE, 1);
      }
   }
   splinterdb_iterator_deinit(it);
   PBT_COUNT(N_SCANS, 1);
   PBT_COUNT(N_SCANNED, n);
}
static void
thr_op(thr *h, const pbt_op *o)
{
   uint32_t cnt = o->a[1];
   pbt_rng  r;
   pbt_seed(&r, ((uint64_t)o->a[3] << 8) + o->kind);
   switch (o->kind) {
      case OP_BULK: /* a2 = first key */
         for (uint32_t j = 0, i = o->a[2] % K; j < cnt; j++, i = (i + 1 + T / 2) % K) {
            do_write(h, i, &r);
            if ((j & 127) == 0) {
               PBT_PROGRESS();
            }
         }
         break;
      case OP_MIX: { /* a2 = window, a4 = read% + 100*scan per mille + 100000*hot keys */
         uint32_t rd = o->a[4] % 100, sc = o->a[4] / 100 % 1000, hot = o->a[4] / 100000 % 1000;
         uint32_t win = o->a[2] ? o->a[2] : 1, base = (uint32_t)(pbt_mix(o->a[3] >> 3) % K);
         for (uint32_t j = 0; j < cnt; j++) {
            uint32_t i = (uint32_t)((base + pbt_u64(&r) % win) % K);
            if (hot && pbt_u64(&r) % 3 == 0) {
               i = (uint32_t)(pbt_mix(pbt_u64(&r) % hot + 17) % K);
            }
            if (pbt_u64(&r) % 1000 < sc) {
               do_scan(h, pbt_u64(&r), i, pbt_logrange(&r, 1, 500), pbt_u64(&r));
            } else if (pbt_u64(&r) % 100 < rd) {
               do_read(h, i);
            } else {
               do_write(h, i, &r);
            }
            if ((j & 127) == 0) {
               PBT_PROGRESS();
            }
         }
         break;
      }
      case OP_SCAN: /* a1 scans of up to a2 tuples */
         for (uint32_t j = 0; j < cnt; j++) {
            do_scan(h, pbt_u64(&r), pbt_u64(&r) % K, o->a[2] ? o->a[2] : K, pbt_u64(&r));
            PBT_PROGRESS();
         }
         break;
   }
}
static pthread_barrier_t bar;
static void *
thr_main(void *p)
{
   thr *h = p;
   splinterdb_register_thread(db);
   splinterdb_lookup_result_init(db, &h->res, h->t & 1 ? sizeof h->lbuf : 0, h->t & 1 ? h->lbuf : NULL);
   pthread_barrier_wait(&bar);
   for (int i = h->from; i < h->to; i++) {
      const pbt_op *o = &h->c->ops[i];
      if (o->kind != OP_LOAD && o->kind != OP_PHASE && o->a[0] % T == (uint32_t)h->t) {
         thr_op(h, o);
      }
   }
   pthread_barrier_wait(&bar);
   splinterdb_lookup_result_deinit(&h->res);
   splinterdb_deregister_thread(db);
   return NULL;
}
/* -------------------------------------- histories of the shared keys */
static int
lrec_cmp(const void *a, const void *b)
{
   const lrec *x = a, *y = b;
   return x->key != y->key ? (x->key < y->key ? -1 : 1) : x->x != y->x ? (x->x < y->x ? -1 : 1) : x->s < y->s ? -1 : 1;
}
typedef struct {
   uint64_t k, v; /* sort key; running extreme of the other end */
} pr;
static int
pr_cmp(const void *a, const void *b)
{
   const pr *x = a, *y = b;
   return x->k < y->k ? -1 : x->k > y->k;
}
/* number of entries with k < x */
static uint64_t
pr_below(const pr *p, uint64_t n, uint64_t x)
{
   uint64_t lo = 0, hi = n;
   while (lo < hi) {
      uint64_t m = (lo + hi) / 2;
      if (p[m].k < x) {
         lo = m + 1;
      } else {
         hi = m;
      }
   }
   return lo;
}
typedef struct {
   uint32_t x;
   uint64_t minf, maxs; /* first end, last start of the operations with this value */
   uint64_t ws, we;
} cluster;
static void
check_key(const lrec *L, uint64_t n, cluster *C, pr *D, pr *W, pr *F)
{
   uint32_t key  = L[0].key;
   uint64_t dels = 0, nd = 0, nw = 0, nc = 0, nf = 0, m;
   while (dels < n && L[dels].x == 0) {
      dels++;
   }
   for (m = 0; m < n; m++) {
      if (L[m].write && L[m].x == 0) {
         D[nd++] = (pr){L[m].s, L[m].e};
      } else if (L[m].write) {
         W[nw++] = (pr){L[m].e, L[m].s};
      }
   }
   /* W: by end, v = latest start of a write that ended by then */
   qsort(W, nw, sizeof *W, pr_cmp);
   for (m = 1; m < nw; m++) {
      W[m].v = W[m].v < W[m - 1].v ? W[m - 1].v : W[m].v;
   }
   /* D: by start, v = latest end of a delete begun by then */
   qsort(D, nd, sizeof *D, pr_cmp);
   pr *E = malloc((nd + 1) * sizeof *E);
   memcpy(E, D, nd * sizeof *D);
   for (m = 1; m < nd; m++) {
      D[m].v = D[m].v < D[m - 1].v ? D[m - 1].v : D[m].v;
   }
   /* E: by start, v = earliest end of a delete begun from then on */
   for (m = nd; m-- > 1;) {
      E[m - 1].v = E[m - 1].v > E[m].v ? E[m].v : E[m - 1].v;
   }
   /* an absent answer needs a delete, or nothing at all, not yet overwritten */
   for (m = 0; m < dels; m++) {
      if (!L[m].write) {
         uint64_t i = pr_below(D, nd, L[m].e), de = i ? D[i - 1].v : 0;
         uint64_t j = pr_below(W, nw, L[m].s), ws = j ? W[j - 1].v : 0;
         if (ws > de) {
            pbt_fail("shared key %s was reported absent although a write after every delete had completed", kstr(key));
         }
      }
   }
   for (m = dels; m < n;) {
      cluster c = {.x = L[m].x, .minf = UINT64_MAX};
      int     w = 0;
      for (; m < n && L[m].x == c.x; m++) {
         if (L[m].write) {
            w++;
            c.ws = L[m].s;
            c.we = L[m].e;
         }
         c.minf = L[m].e < c.minf ? L[m].e : c.minf;
         c.maxs = L[m].s > c.maxs ? L[m].s : c.maxs;
      }
      if (w == 0) {
         pbt_fail("shared key %s: a read returned value %u, which nobody wrote to it", kstr(key), c.x);
      }
      if (w > 1) {
         free(E); /* value numbers wrapped: ambiguous */
         return;
      }
      if (c.minf < c.ws) {
         pbt_fail("shared key %s: value %u was read before its write began", kstr(key), c.x);
      }
      /* deleted for good before a read of it began */
      uint64_t i = pr_below(E, nd, c.we);
      if (i < nd && E[i].v < c.maxs) {
         pbt_fail("shared key %s: value %u was read after a delete that followed its write had completed", kstr(key), c.x);
      }
      C[nc++] = c;
      if (c.minf < c.maxs) {
         F[nf++] = (pr){c.minf, c.maxs};
      }
   }
   free(E);
   /* an atomic register: forward zones are disjoint, and contain no backward one */
   qsort(F, nf, sizeof *F, pr_cmp);
   for (m = 1; m < nf; m++) {
      if (F[m].k < F[m - 1].v) {
         pbt_fail("shared key %s: two values were read and written in an order no single register allows", kstr(key));
      }
   }
   for (m = 0; m < nc; m++) {
      if (C[m].minf >= C[m].maxs) {
         uint64_t i = pr_below(F, nf, C[m].maxs);
         if (i && F[i - 1].v > C[m].minf) {
            pbt_fail("shared key %s: value %u was written and overwritten while an older value was still read later", kstr(key), C[m].x);
         }
      }
   }
}
static void
check_shared(void)
{
   uint64_t n = 0;
   for (uint32_t t = 0; t < T; t++) {
      n += TH[t].nlog;
   }
   lrec    *L = malloc((n + 1) * sizeof(lrec));
   cluster *C = malloc((n + 1) * sizeof(cluster));
   pr      *P = malloc(3 * (n + 1) * sizeof(pr));
   uint64_t N = n;
   n          = 0;
   for (uint32_t t = 0; t < T; t++) {
      if (TH[t].nlog) {
         memcpy(L + n, TH[t].log, TH[t].nlog * sizeof(lrec));
      }
      n += TH[t].nlog;
   }
   qsort(L, n, sizeof(lrec), lrec_cmp);
   for (uint64_t i = 0, j; i < n; i = j) {
      for (j = i; j < n && L[j].key == L[i].key; j++) {
      }
      check_key(L + i, j - i, C, P, P + N + 1, P + 2 * (N + 1));
   }
   PBT_PROGRESS();
   free(L);
   free(C);
   free(P);
}
/* everything is quiet: every answer is determined */
static void
verify_all(const char *when)
{
   thr *h = &TH[0];
   splinterdb_lookup_result_init(db, &h->res, 0, NULL);
   for (uint32_t i = 0; i < K; i++) {
      if (kclass(i) != SHARED && ks[i].started != ks[i].committed) {
         pbt_fail("harness: unfinished write");
      }
      do_read(h, i);
      if ((i & 511) == 0) {
         PBT_PROGRESS();
      }
   }
   splinterdb_lookup_result_deinit(&h->res);
   do_scan(h, 0, 0, K, 1);
   check_shared();
}
static void
reopen(void)
{
   splinterdb_close(&db);
   int rc = splinterdb_open(&scfg, &db);
   if (rc) {
      pbt_fail("splinterdb_open failed: %d", rc);
   }
   PBT_COUNT(N_REOPENS, 1);
}
static void
run(const pbt_case *c)
{
   memcpy(cf, c->cfg, sizeof cf);
   T = cf[CF_T] < 2 ? 2 : cf[CF_T] > MAXT ? MAXT : cf[CF_T];
   K = cf[CF_NKEYS] < 1 ? 1 : cf[CF_NKEYS];
   if (cf[CF_MAXKEY] < 16) {
      cf[CF_MAXKEY] = 16;
   }
   if (cf[CF_MEM_KB] < 704 || cf[CF_FANOUT] < 4 || cf[CF_BRANCHES] < 6 || cf[CF_CACHE_MB] < 16) {
      pbt_discard("outside the configuration domain");
   }
   kb    = malloc((size_t)K * cf[CF_MAXKEY] + 64);
   kl    = malloc(K * 2);
   kh    = malloc(K * 4);
   order = malloc(K * 4);
   ks    = calloc(K, sizeof(kst));
   for (uint32_t i = 0; i < K; i++) {
      uint8_t *p = kb + (size_t)i * cf[CF_MAXKEY];
      uint8_t  t[1024];
      kl[i] = db_key(cf[CF_KEYSTYLE], cf[CF_MAXKEY], cf[CF_KSEED], i, t);
      if (kl[i] > cf[CF_MAXKEY]) {
         pbt_discard("key too long");
      }
      memcpy(p, t, kl[i]);
      kh[i]    = bhash(p, kl[i]);
      order[i] = i;
   }
   qsort(order, K, 4, order_cmp);
   snprintf(dbfile, sizeof dbfile, "%s", pbt_scratch("db"));
   db_fill_config(&scfg, &dcfg, cf, dbfile);
   int rc = splinterdb_create(&scfg, &db);
   if (rc) {
      if (rc == EINVAL) {
         pbt_discard("create: EINVAL (node does not fit)");
      }
      pbt_fail("splinterdb_create failed: %d", rc);
   }
   for (uint32_t t = 0; t < T; t++) {
      TH[t].t  = t;
      TH[t].lo = malloc(K * 4);
   }
   for (int i = 0; i < c->nops;) {
      int j = i;
      while (j < c->nops && c->ops[j].kind != OP_PHASE) {
         j++;
      }
      PBT_COUNT(N_PHASES, 1);
      /* sequential loads of the phase come first */
      for (int q = i; q < j; q++) {
         const pbt_op *o = &c->ops[q];
         if (o->kind == OP_LOAD) {
            for (uint32_t n = 0; n < o->a[1]; n++) {
               uint32_t k = (uint32_t)((o->a[0] + (uint64_t)n * (o->a[2] ? o->a[2] : 1)) % K);
               if (kclass(k) == OWNED) {
                  own_write(k);
               }
               if ((n & 255) == 0) {
                  PBT_PROGRESS();
               }
            }
         }
      }
      pthread_t th[MAXT];
      pthread_barrier_init(&bar, NULL, T);
      for (uint32_t t = 0; t < T; t++) {
         TH[t].c = c, TH[t].from = i, TH[t].to = j;
         if (pthread_create(&th[t], NULL, thr_main, &TH[t])) {
            pbt_discard("pthread_create failed");
         }
      }
      for (uint32_t t = 0; t < T; t++) {
         pthread_join(th[t], NULL);
      }
      PBT_PROGRESS();
      if (j >= c->nops || c->ops[j].a[1] % 4) {
         verify_all("after the threads ended");
      }
      if (j < c->nops && c->ops[j].a[0] % 2) {
         reopen();
         if (c->ops[j].a[1] % 3 == 0) {
            verify_all("after reopening");
         }
      }
      i = j + 1;
   }
   verify_all("at the end");
   reopen();
   verify_all("after the final reopen");
   splinterdb_close(&db);
   pbt_res->nontrivial = pbt_res->count[N_FILLS] >= 2 && pbt_res->count[N_OVERLAP] + pbt_res->count[N_SCAN_OVERLAP] + pbt_res->count[N_SHARED_OPS] >= 5;
}

/* ------------------------------------------------------------ generator */
static void
gen(pbt_case *c, pbt_rng *r, int thorough, int scans)
{
   uint64_t *f = c->cfg;
   db_gen_config(c, r, 50);
   f[CF_T]        = pbt_range(r, 2, 6);
   f[CF_FANOUT]   = pbt_range(r, 4, 8);
   f[CF_BRANCHES] = pbt_range(r, 6, 24);
   f[CF_CACHE_MB] = pbt_pct(r, 50) ? pbt_range(r, 20, 40) : 64;
   f[CF_KEYSTYLE] = pbt_pct(r, 50) ? KS_BE : pbt_pct(r, 60) ? KS_MIXBE : KS_CHAIN;
   f[CF_MAXKEY]   = 24;
   f[CF_MERGE]    = pbt_pct(r, 60);
   static const int vc[] = {0, 0, 2, 2, 2, 7, 4, 5};
   f[CF_VCLASS]   = vc[pbt_range(r, 0, 7)];
   if (pbt_pct(r, 30)) {
      f[CF_VCLASS] = pbt_pct(r, 50) ? 1 : 3;
   }
   f[CF_X1] = pbt_pct(r, 30) ? pbt_range(r, 30, 60) : pbt_range(r, 0, 30);
   f[CF_X2] = pbt_range(r, 0, 40);
   uint64_t per = db_vavg[f[CF_VCLASS]] + 12 + 4;
   uint64_t nk  = (2000 << 10) / per;
   f[CF_NKEYS]  = pbt_pct(r, 25) ? pbt_logrange(r, 2, 300) : pbt_logrange(r, 300, nk);
   uint32_t K_  = f[CF_NKEYS];
   uint64_t unit   = (f[CF_MEM_KB] - 620) << 10;
   int      phases = (int)pbt_range(r, 1, 3);
   if (pbt_pct(r, 60)) {
      pbt_add(c, OP_LOAD, 0, K_, pbt_pct(r, 60) ? 1 : (uint32_t)pbt_range(r, 1, K_) | 1, 0, 0);
   }
   for (int p = 0; p < phases; p++) {
      uint64_t total = unit * pbt_range(r, 6, thorough ? 90 : 50) / phases / f[CF_T];
      uint64_t n     = total / (per + 16);
      n              = n < 20 ? 20 : n > 80000 ? 80000 : n;
      for (uint32_t t = 0; t < f[CF_T]; t++) {
         int pieces = (int)pbt_range(r, 1, 3);
         int reader = pbt_pct(r, scans ? 35 : 20);
         for (int q = 0; q < pieces; q++) {
            uint32_t sd = (uint32_t)pbt_u64(r), win = pbt_pct(r, 50) ? K_ : (uint32_t)pbt_logrange(r, 1, K_);
            uint32_t hot = pbt_pct(r, 40) ? (uint32_t)pbt_logrange(r, 1, 60) : 0;
            if (reader && scans) {
               pbt_add(c, OP_SCAN, t, pbt_range(r, 1, 6), pbt_pct(r, 40) ? 0 : (uint32_t)pbt_logrange(r, 1, K_), sd, 0);
            } else if (reader) {
               pbt_add(c, OP_MIX, t, (uint32_t)n * 2, win, sd, 97 + 100000 * hot);
            } else if (pbt_pct(r, 30)) {
               pbt_add(c, OP_BULK, t, (uint32_t)n / pieces, (uint32_t)pbt_range(r, 0, K_ - 1), sd, 0);
            } else {
               pbt_add(c, OP_MIX, t, (uint32_t)n / pieces, win, sd, pbt_range(r, 0, 60) + 100 * (scans ? pbt_range(r, 0, 20) : 0) + 100000 * hot);
            }
         }
      }
      if (p + 1 < phases) {
         pbt_add(c, OP_PHASE, pbt_pct(r, 40), pbt_range(r, 0, 11), 0, 0, 0);
      }
   }
}
static void
gen_conc(pbt_case *c, pbt_rng *r, int t)
{
   gen(c, r, t, 0);
}
static void
gen_scan(pbt_case *c, pbt_rng *r, int t)
{
   gen(c, r, t, 1);
}
static int
racy(const pbt_case *c)
{
   return 1;
}
#define RULE "at least two memtables' worth was written and at least five reads overlapped a write of their key or used a key written by several threads"
static const pbt_prop p_conc = {.id = "conc", .desc = "concurrent clients", .gen = gen_conc, .run = run, .nondet = 1, .racy = racy, .opnames = opnames, .cfgnames = cfgnames, .countnames = countnames, .rule = RULE};
static const pbt_prop p_scan = {.id = "conc_scan", .desc = "scans under concurrent writes", .gen = gen_scan, .run = run, .nondet = 1, .racy = racy, .opnames = opnames, .cfgnames = cfgnames, .countnames = countnames, .rule = RULE};
const pbt_prop *pbt_props[] = {&p_conc, &p_scan, NULL};
int
main(int argc, char **argv)
{
   return pbt_main(argc, argv);
}
