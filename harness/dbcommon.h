/*
 * dbcommon.h -- keys, values, comparators, merge callbacks and configuration
 * shared by the whole-database harnesses.  Uses the public API only.
 */
#ifndef DBCOMMON_H
#define DBCOMMON_H
#include "splinterdb/splinterdb.h"
#include "splinterdb/default_data_config.h"
#include "pbt.h"
#include <stdbool.h>

/* configuration slots shared by all db harnesses */
enum {
   CF_MEM_KB,
   CF_FANOUT,
   CF_BRANCHES,
   CF_CACHE_MB,
   CF_DISK_MB,
   CF_BG_MEM,
   CF_BG_NORM,
   CF_LOG,
   CF_STATS,
   CF_SHMEM,
   CF_QSCALE,
   CF_FREM,   /* filter remainder size */
   CF_FIDX,   /* filter index size */
   CF_ROUGH,  /* btree rough count height */
   CF_RECLAIM,
   CF_KEYSTYLE,
   CF_CMP,
   CF_MAXKEY,
   CF_NKEYS,
   CF_VCLASS,
   CF_MERGE,
   CF_BUFLEN,
   CF_KSEED,
   CF_QDEPTH,
   CF_X0, /* free for the harness */
   CF_X1,
   CF_X2,
   CF_X3,
   CF_NUM
};
#define DB_CFGNAMES                                                            \
   "mem_kb", "fanout", "branches", "cache_mb", "disk_mb", "bg_mem", "bg_norm", \
      "use_log", "use_stats", "use_shmem", "qscale", "filter_rem",             \
      "filter_idx", "rough", "reclaim", "keystyle", "cmp", "maxkey", "nkeys",  \
      "vclass", "merge", "buflen", "kseed", "qdepth", "x0", "x1", "x2", "x3"

#define DB_MAXVAL 1433
#define MERGE_P 65521u

enum { CMP_LEX, CMP_REVLEX, CMP_LENFIRST, CMP_LENUM, NUM_CMP };

static inline uint32_t
bhash(const void *d, size_t n)
{
   const uint8_t *p = d;
   uint64_t       h = 0xcbf29ce484222325ULL ^ n;
   for (size_t i = 0; i < n; i++) {
      h = (h ^ p[i]) * 0x100000001b3ULL;
   }
   return (uint32_t)pbt_mix(h);
}

/* ---------------------------------------------------------------- ordering */
static inline int
lexcmp(const uint8_t *a, size_t na, const uint8_t *b, size_t nb)
{
   int c = memcmp(a, b, na < nb ? na : nb);
   if (c) {
      return c;
   }
   return na < nb ? -1 : na > nb ? 1 : 0;
}
static inline int
lenum(const uint8_t *a, size_t na, const uint8_t *b, size_t nb)
{
   /* little endian numbers; leading (trailing in memory) zeros: tie by len */
   size_t m = na > nb ? na : nb;
   for (size_t i = m; i-- > 0;) {
      uint8_t x = i < na ? a[i] : 0, y = i < nb ? b[i] : 0;
      if (x != y) {
         return x < y ? -1 : 1;
      }
   }
   return na < nb ? -1 : na > nb ? 1 : 0;
}
static inline int
keycmp_raw(int kind, const uint8_t *a, size_t na, const uint8_t *b, size_t nb)
{
   switch (kind) {
      case CMP_REVLEX:
         return lexcmp(b, nb, a, na);
      case CMP_LENFIRST:
         if (na != nb) {
            return na < nb ? -1 : 1;
         }
         return memcmp(a, b, na);
      case CMP_LENUM:
         return lenum(a, na, b, nb);
      default:
         return lexcmp(a, na, b, nb);
   }
}

typedef struct {
   data_config super;
   int         cmp;
   int         vclass;
   uint64_t    nmerge, nfinal;
} my_data_config;

static int
my_cmp(const data_config *cfg, slice k1, slice k2)
{
   const my_data_config *m = (const my_data_config *)cfg;
   int r = keycmp_raw(m->cmp, slice_data(k1), slice_length(k1), slice_data(k2), slice_length(k2));
   /* any negative / positive number is a legal answer: use odd magnitudes */
   return r < 0 ? -7 : r > 0 ? 9 : 0;
}

/* ------------------------------------------------------------------ values */
static inline unsigned
db_vlen(int vclass, uint32_t h, int merge)
{
   unsigned lo = merge ? 8 : 0, l;
   switch (vclass) {
      case 0:
         l = 12 + h % 24;
         break;
      case 1:
         l = h % 65;
         break;
      case 2:
         l = 90 + h % 32;
         break;
      case 3:
         l = h % (DB_MAXVAL + 1);
         break;
      case 4:
         l = (h % 50 == 0) ? DB_MAXVAL - (h / 50) % 3 : 8 + (h / 50) % 40;
         break;
      case 5:
         l = DB_MAXVAL;
         break;
      case 6:
         l = 0;
         break;
      default:
         l = 200 + h % 400;
         break;
   }
   return l < lo ? lo : l;
}
static const unsigned db_vavg[8] = {24, 32, 106, 716, 57, 1433, 1, 400};

static inline void
fill_stream(uint8_t *d, unsigned n, uint64_t s)
{
   uint64_t st = pbt_mix(s);
   unsigned i  = 0;
   while (i < n) {
      st         = st * 6364136223846793005ULL + 1442695040888963407ULL;
      uint64_t w = st ^ (st >> 29);
      unsigned k = n - i < 8 ? n - i : 8;
      memcpy(d + i, &w, k);
      i += k;
   }
}
/* canonical value for (hash of key, x); returns the length */
static inline unsigned
db_value(int vclass, int merge, uint32_t kh, uint32_t x, uint8_t *d)
{
   uint64_t s = ((uint64_t)kh << 32) ^ x ^ 0x5bd1e995;
   unsigned n = db_vlen(vclass, (uint32_t)(pbt_mix(s) >> 7), merge);
   fill_stream(d, n, s);
   if (merge) {
      memcpy(d, &x, 4);
   }
   return n;
}
/* canonical delta for the affine map x -> a*x+b mod P */
static inline unsigned
db_delta(int vclass, uint32_t kh, uint32_t a, uint32_t b, uint8_t *d)
{
   uint64_t s = ((uint64_t)a << 32) ^ b ^ ((uint64_t)kh << 7) ^ 0x77777;
   unsigned n = db_vlen(vclass, (uint32_t)(pbt_mix(s) >> 9), 1);
   fill_stream(d, n, s);
   memcpy(d, &a, 4);
   memcpy(d + 4, &b, 4);
   return n;
}
static inline uint32_t
affine(uint32_t a, uint32_t b, uint32_t x)
{
   return (uint32_t)(((uint64_t)a * x + b) % MERGE_P);
}
static void
put_result(const my_data_config *m, uint32_t kh, uint32_t x, merge_accumulator *ma)
{
   uint8_t buf[DB_MAXVAL + 8];
   if (x == 0) {
      merge_accumulator_set_class(ma, MESSAGE_TYPE_DELETE);
      merge_accumulator_resize(ma, 0);
      return;
   }
   unsigned n = db_value(m->vclass, 1, kh, x, buf);
   if (!merge_accumulator_resize(ma, n)) {
      pbt_fail("merge_accumulator_resize(%u) failed", n);
   }
   memcpy(merge_accumulator_data(ma), buf, n);
   merge_accumulator_set_class(ma, MESSAGE_TYPE_INSERT);
}
static void
get_delta(const my_data_config *m,
          uint32_t              kh,
          const uint8_t        *d,
          uint64_t              n,
          uint32_t             *a,
          uint32_t             *b,
          const char           *who)
{
   uint8_t buf[DB_MAXVAL + 8];
   if (n < 8 || n > DB_MAXVAL) {
      pbt_fail("merge callback: %s delta has length %lu", who, (unsigned long)n);
   }
   memcpy(a, d, 4);
   memcpy(b, d + 4, 4);
   if (db_delta(m->vclass, kh, *a, *b, buf) != n || memcmp(buf, d, n)) {
      pbt_fail("merge callback: %s delta is not a delta ever written for this key", who);
   }
}
/* an operator may append to the message it was given: growing keeps the bytes */
static void
grow_check(merge_accumulator *ma, uint32_t h)
{
   uint8_t  keep[DB_MAXVAL + 8];
   unsigned n = merge_accumulator_length(ma);
   h          = (h ^ h >> 13) * 2654435761u;
   if (h >> 30 || n > DB_MAXVAL) {
      return;
   }
   unsigned more = (h >> 8 & 1) ? 1 + (h >> 10) % 40 : 1 + (h >> 10) % 3000;
   memcpy(keep, merge_accumulator_data(ma), n);
   if (!merge_accumulator_resize(ma, n + more)) {
      pbt_fail("merge_accumulator_resize(%u) failed", n + more);
   }
   if (merge_accumulator_length(ma) != n + more || memcmp(keep, merge_accumulator_data(ma), n)) {
      pbt_fail("growing a message of %u bytes by %u in the merge callback lost its contents", n, more);
   }
   memset((char *)merge_accumulator_data(ma) + n, 0xa5, more);
   if (!merge_accumulator_resize(ma, n) || memcmp(keep, merge_accumulator_data(ma), n)) {
      pbt_fail("shrinking a message in the merge callback changed its contents");
   }
}
static int
my_merge(const data_config *cfg, slice k, message old, merge_accumulator *new)
{
   my_data_config *m  = (my_data_config *)cfg;
   uint32_t        kh = bhash(slice_data(k), slice_length(k));
   uint32_t        a, b;
   __atomic_fetch_add(&m->nmerge, 1, __ATOMIC_RELAXED);
   if (merge_accumulator_message_class(new) != MESSAGE_TYPE_UPDATE) {
      pbt_fail("merge callback: newer message is of class %d", merge_accumulator_message_class(new));
   }
   get_delta(m, kh, merge_accumulator_data(new), merge_accumulator_length(new), &a, &b, "newer");
   grow_check(new, a ^ b ^ kh);
   const uint8_t *od = message_data(old);
   if (message_class(old) == MESSAGE_TYPE_INSERT) {
      uint8_t  buf[DB_MAXVAL + 8];
      uint32_t x;
      if (message_length(old) < 8) {
         pbt_fail("merge callback: older value has length %lu", (unsigned long)message_length(old));
      }
      memcpy(&x, od, 4);
      if (db_value(m->vclass, 1, kh, x, buf) != message_length(old) || memcmp(buf, od, message_length(old))) {
         pbt_fail("merge callback: older value was never written for this key");
      }
      put_result(m, kh, affine(a, b, x), new);
   } else if (message_class(old) == MESSAGE_TYPE_UPDATE) {
      uint32_t a1, b1;
      uint8_t  buf[DB_MAXVAL + 8];
      get_delta(m, kh, od, message_length(old), &a1, &b1, "older");
      uint32_t na = (uint32_t)((uint64_t)a * a1 % MERGE_P);
      uint32_t nb = affine(a, b, b1);
      unsigned n  = db_delta(m->vclass, kh, na, nb, buf);
      if (!merge_accumulator_resize(new, n)) {
         pbt_fail("merge_accumulator_resize(%u) failed", n);
      }
      memcpy(merge_accumulator_data(new), buf, n);
   } else {
      pbt_fail("merge callback: older message is of class %d", message_class(old));
   }
   return 0;
}
static int
my_merge_final(const data_config *cfg, slice k, merge_accumulator *ma)
{
   my_data_config *m  = (my_data_config *)cfg;
   uint32_t        kh = bhash(slice_data(k), slice_length(k));
   uint32_t        a, b;
   __atomic_fetch_add(&m->nfinal, 1, __ATOMIC_RELAXED);
   if (merge_accumulator_message_class(ma) != MESSAGE_TYPE_UPDATE) {
      pbt_fail("final merge callback: message is of class %d", merge_accumulator_message_class(ma));
   }
   get_delta(m, kh, merge_accumulator_data(ma), merge_accumulator_length(ma), &a, &b, "final");
   put_result(m, kh, b, ma);
   return 0;
}

/* -------------------------------------------------------------------- keys */
enum {
   KS_BE,      /* 8 byte big-endian counter */
   KS_MIXBE,   /* hashed counter, 4..24 bytes */
   KS_CHAIN,   /* bijective base-3 strings over {00,'a',ff}: prefix chains */
   KS_LONG,    /* all of maximal length, shared prefix, counter at the end */
   KS_LE,      /* 4-8 byte little-endian */
   KS_SHARED,  /* shared prefix of half the max size, hashed tail, var length */
   KS_TEXT,    /* decimal text, no padding: "7" "70" "700" */
   KS_RUN,     /* groups of keys that are prefixes of one another, 3..max bytes */
   NUM_KS
};
static inline unsigned
db_key(int style, unsigned maxkey, uint64_t kseed, uint32_t i, uint8_t *d)
{
   uint32_t h = i * 2654435761u;
   switch (style) {
      default:
      case KS_BE:
      {
         uint64_t v = (uint64_t)i + (kseed & 0xffff0000ull);
         for (int j = 0; j < 8; j++) {
            d[j] = (uint8_t)(v >> (56 - 8 * j));
         }
         return 8;
      }
      case KS_MIXBE:
      {
         for (int j = 0; j < 4; j++) {
            d[j] = (uint8_t)(h >> (24 - 8 * j));
         }
         unsigned max = maxkey < 24 ? maxkey : 24;
         unsigned n   = 4 + (uint32_t)(pbt_mix(kseed + i)) % (max - 4 + 1);
         fill_stream(d + 4, n - 4, kseed + i);
         return n;
      }
      case KS_CHAIN:
      {
         static const uint8_t dig[3] = {0x00, 'a', 0xff};
         uint32_t             v      = i + 1;
         unsigned             n      = 0;
         uint8_t              t[40];
         while (v > 0) {
            v--;
            t[n++] = dig[v % 3];
            v /= 3;
         }
         for (unsigned j = 0; j < n; j++) {
            d[j] = t[n - 1 - j];
         }
         return n;
      }
      case KS_LONG:
      {
         unsigned n = maxkey;
         fill_stream(d, n - 4, kseed);
         for (int j = 0; j < 4; j++) {
            d[n - 4 + j] = (uint8_t)(h >> (24 - 8 * j));
         }
         return n;
      }
      case KS_LE:
      {
         uint32_t v = i;
         unsigned n = 4 + i % 5;
         memset(d, 0, n);
         memcpy(d, &v, 4);
         return n;
      }
      case KS_SHARED:
      {
         unsigned p   = (maxkey - 4) / 2;
         unsigned var = (uint32_t)pbt_mix(kseed ^ i) % (maxkey - p - 4 + 1);
         fill_stream(d, p, kseed);
         for (int j = 0; j < 4; j++) {
            d[p + j] = (uint8_t)(h >> (24 - 8 * j));
         }
         fill_stream(d + p + 4, var, kseed + i * 77);
         return p + 4 + var;
      }
      case KS_RUN:
      {
         unsigned per = maxkey - 2, g = i / per, n = 3 + i % per;
         uint8_t  t[1024];
         t[0] = (uint8_t)(g * 151);
         t[1] = (uint8_t)(g >> 8);
         fill_stream(t + 2, n - 2, kseed + (g & 3) * 7);
         memcpy(d, t, n);
         return n;
      }
      case KS_TEXT:
      {
         char t[16];
         int  n = snprintf(t, sizeof t, "%u", i);
         memcpy(d, t, n);
         return n;
      }
   }
}

/* ------------------------------------------------------------------ config */
static inline void
db_fill_config(splinterdb_config *cfg, my_data_config *m, const uint64_t *cf, const char *file)
{
   memset(cfg, 0, sizeof *cfg);
   memset(m, 0, sizeof *m);
   default_data_config_init(cf[CF_MAXKEY], &m->super);
   m->cmp    = cf[CF_CMP];
   m->vclass = cf[CF_VCLASS];
   if (m->cmp != CMP_LEX) {
      m->super.key_compare = my_cmp;
   }
   if (cf[CF_MERGE]) {
      m->super.merge_tuples       = my_merge;
      m->super.merge_tuples_final = my_merge_final;
   }
   cfg->filename                 = file;
   cfg->data_cfg                 = &m->super;
   cfg->cache_size               = cf[CF_CACHE_MB] << 20;
   cfg->disk_size                = cf[CF_DISK_MB] << 20;
   cfg->memtable_capacity        = cf[CF_MEM_KB] << 10;
   cfg->fanout                   = cf[CF_FANOUT];
   cfg->max_branches_per_node    = cf[CF_BRANCHES];
   cfg->num_memtable_bg_threads  = cf[CF_BG_MEM];
   cfg->num_normal_bg_threads    = cf[CF_BG_NORM];
   cfg->use_log                  = cf[CF_LOG];
   cfg->use_stats                = cf[CF_STATS];
   cfg->use_shmem                = cf[CF_SHMEM];
   cfg->queue_scale_percent      = cf[CF_QSCALE];
   cfg->filter_remainder_size    = cf[CF_FREM];
   cfg->filter_index_size        = cf[CF_FIDX];
   cfg->btree_rough_count_height = cf[CF_ROUGH];
   cfg->reclaim_threshold        = cf[CF_RECLAIM] << 20;
   cfg->io_async_queue_depth     = cf[CF_QDEPTH];
   if (cf[CF_SHMEM]) {
      cfg->shmem_size = 1024ull << 20;
   }
}
/* background threads are all-or-nothing across the two groups */
static inline void
db_gen_config(pbt_case *c, pbt_rng *r, int bgpct)
{
   static const int mems[] = {704, 768, 832, 1024, 1536, 2048};
   static const int w[]    = {40, 15, 10, 15, 10, 10};
   uint64_t        *cf     = c->cfg;
   cf[CF_MEM_KB]           = mems[pbt_weighted(r, w, 6)];
   cf[CF_FANOUT]           = pbt_range(r, 2, 8);
   cf[CF_BRANCHES]         = pbt_pct(r, 60) ? pbt_range(r, 2, 6) : pbt_range(r, 4, 24);
   cf[CF_CACHE_MB]         = pbt_pct(r, 50) ? pbt_range(r, 10, 24) : 64;
   cf[CF_DISK_MB]          = 2048;
   if (pbt_pct(r, bgpct)) {
      cf[CF_BG_MEM]  = 1;
      cf[CF_BG_NORM] = pbt_range(r, 1, 3);
   }
   cf[CF_LOG]    = pbt_pct(r, 15);
   cf[CF_STATS]  = pbt_pct(r, 15);
   cf[CF_QSCALE] = pbt_pct(r, 70) ? 0 : pbt_range(r, 50, 300);
   cf[CF_KSEED]  = pbt_u64(r) >> 8;
}
#endif
