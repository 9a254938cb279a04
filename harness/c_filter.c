/*
 * c_filter.c -- routing filters on their own: incremental construction from
 * an old filter, lookups (plain and asynchronous), unique estimates, space;
 * against the exact sets of keys added.
 */
#define _GNU_SOURCE
#include "comp.h"
#include "routing_filter.h"
#include "xxhash.h"

enum { X_CAP, X_KEYLEN, X_KSEED, X_IDXLOG, X_REM, X_VALBITS, X_HSEED, X_CACHE_MB, X_STATS };
static const char *cfgnames[] = {"max_keys", "keylen", "kseed", "log_index_size", "remainder_size", "value_bits", "hash_seed", "cache_mb", "stats", NULL};
enum { OP_ADD, OP_FRESH, OP_CHECK, OP_ASYNC, OP_EST, OP_EVICT, OP_DROP };
static const char *opnames[] = {"ADD", "FRESH", "CHECK", "ASYNC", "EST", "EVICT", "DROP", NULL};
enum { N_BUILDS, N_KEYS, N_MEMBER, N_ABSENT, N_FALSEPOS, N_ASYNC, N_ASYNC_IO, N_EST, N_MULTIIDX, N_GREW, N_RESIZED_VALUE };
static const char *countnames[] = {"filters_built", "keys_added", "member_lookups", "absent_lookups", "false_positives", "async_lookups", "async_lookups_with_io", "unique_estimates", "filters_with_many_index_blocks", "index_grew_over_old_filter", "value_width_changed", NULL};

#define MAXF 8
typedef struct {
   routing_filter f;
   uint32_t       n;   /* key occurrences added in total */
   uint32_t      *k;   /* key ids */
   uint8_t       *v;   /* their values */
   int            lastv;
} filt;
static stack          ST;
static cache         *cc;
static routing_config RC;
static filt           F[MAXF];
static int            nF;
static unsigned       keylen;
static uint64_t       kseed;
static uint32_t       cap;

static void
mkkey(uint64_t i, uint8_t *b)
{
   /* distinct by the trailing 8 bytes */
   for (unsigned j = 0; j + 8 < keylen; j++) {
      b[j] = pbt_mix(kseed + j / 16) >> (8 * (j & 7));
   }
   uint64_t x = kseed & 1 ? i : (i * 0x9E3779B97F4A7C15ull) ^ kseed;
   memcpy(b + keylen - 8, &x, 8);
}
static uint32_t
fphash(uint64_t i)
{
   uint8_t b[128];
   mkkey(i, b);
   return RC.hash(b, keylen, RC.seed);
}
static uint32_t
log_buckets(uint32_t nfp)
{
   uint32_t l = 31 - __builtin_clz(nfp);
   return l < RC.log_index_size ? RC.log_index_size : l;
}
static uint64
in_use(void)
{
   return allocator_in_use((allocator *)&ST.al);
}
static void
check(filt *t, uint64_t seed, uint32_t sample)
{
   uint8_t b[128];
   if (!t->n) {
      return;
   }
   for (uint32_t i = 0; i < t->n; i++) {
      if (sample && pbt_mix(seed + i) % sample) {
         continue;
      }
      uint64 found = 0x5555;
      mkkey(t->k[i], b);
      OKRC(routing_filter_lookup(cc, &RC, &t->f, key_create(keylen, b), &found), "routing_filter_lookup");
      PBT_COUNT(N_MEMBER, 1);
      if (!(found >> t->v[i] & 1) || !routing_filter_is_value_found(found, t->v[i])) {
         pbt_fail("key %u was added with value %u, but a lookup in the filter of %u keys finds the values %lx", t->k[i], t->v[i], t->n, found);
      }
      if (t->lastv < 63 && found >> (t->lastv + 1)) {
         pbt_fail("lookup finds values %lx, but none above %d was ever added", found, t->lastv);
      }
      /* walking the values, newest first, must visit the one looked for */
      uint16 x = ROUTING_NOT_FOUND, last = ROUTING_NOT_FOUND;
      uint64 walked = 0;
      while ((x = routing_filter_get_next_value(found, x)) != ROUTING_NOT_FOUND) {
         if (last != ROUTING_NOT_FOUND && x >= last) {
            pbt_fail("walking the found values %lx visits %u after %u", found, x, last);
         }
         walked |= 1ull << x;
         last = x;
      }
      if (walked != found) {
         pbt_fail("walking the found values %lx visits %lx", found, walked);
      }
      PBT_PROGRESS();
   }
   /* keys never added: at most a small multiple of the designed error rate */
   uint32_t q = 1500, fpos = 0;
   for (uint32_t i = 0; i < q; i++) {
      uint64 found = 0;
      mkkey(0x40000000ull + pbt_mix(seed ^ i) % 0x3fffffff, b);
      OKRC(routing_filter_lookup(cc, &RC, &t->f, key_create(keylen, b), &found), "routing_filter_lookup");
      fpos += found != 0;
   }
   PBT_COUNT(N_ABSENT, q);
   PBT_COUNT(N_FALSEPOS, fpos);
   double rate = (double)t->n / (double)(1ull << RC.fingerprint_size);
   if (fpos > 12 + 4 * rate * q) {
      pbt_fail("%u of %u absent keys look present; at most about %.2f expected", fpos, q, rate * q);
   }
}
static void
drop(int i)
{
   if (F[i].n) {
      routing_filter_zap(cc, &F[i].f);
   }
   free(F[i].k);
   free(F[i].v);
   memmove(F + i, F + i + 1, (nF - i - 1) * sizeof *F);
   nF--;
}
static int
cmpu(const void *a, const void *b)
{
   uint32_t x = *(const uint32_t *)a, y = *(const uint32_t *)b;
   return x < y ? -1 : x > y;
}
static int
cmp64(const void *a, const void *b)
{
   uint64_t x = *(const uint64_t *)a, y = *(const uint64_t *)b;
   return x < y ? -1 : x > y;
}
/* new filter = old filter (or none) + n keys with one value */
static void
build(int oi, uint32_t first, uint32_t n, uint32_t stride, int value_step, int keep_old, uint64_t seed, uint32_t start)
{
   filt *old = oi >= 0 ? &F[oi] : NULL;
   int   v   = old ? old->lastv + value_step : (int)start;
   int   maxv = 32 - RC.fingerprint_size >= 6 ? 63 : (1 << (32 - RC.fingerprint_size)) - 1;
   uint32_t have = old ? old->n : 0;
   if (v > maxv) {
      v = maxv;
   }
   if (have + n > cap) {
      n = cap - have;
   }
   if (!n || have >= cap) {
      return;
   }
   filt nf = {0};
   nf.n    = have + n;
   nf.k    = malloc(4ull * nf.n);
   nf.v    = malloc(nf.n);
   if (old) {
      memcpy(nf.k, old->k, 4ull * have);
      memcpy(nf.v, old->v, have);
   }
   /* the array of fingerprints must have room for the radix sort */
   uint32 *fp = malloc(4ull * n);
   for (uint32_t j = 0; j < n; j++) {
      uint32_t k     = (first + j * (uint64_t)stride) % 0x3fffffff;
      nf.k[have + j] = k;
      nf.v[have + j] = v;
      fp[j]          = fphash(k);
   }
   nf.lastv                 = v;
   routing_filter none      = {0};
   routing_filter old_copy  = old ? old->f : none;
   OKRC(routing_filter_add(cc, &RC, &old_copy, &nf.f, fp, n, v), "routing_filter_add");
   free(fp);
   PBT_COUNT(N_BUILDS, 1);
   PBT_COUNT(N_KEYS, n);
   if (nf.f.addr == 0 || nf.f.num_fingerprints != nf.n) {
      pbt_fail("a filter of %u keys says it has %u", nf.n, nf.f.num_fingerprints);
   }
   uint32_t nidx = 1u << (log_buckets(nf.n) - RC.log_index_size);
   PBT_COUNT(N_MULTIIDX, nidx > 1);
   if (old) {
      PBT_COUNT(N_GREW, log_buckets(nf.n) > log_buckets(old->n));
      PBT_COUNT(N_RESIZED_VALUE, old->f.value_size != nf.f.value_size);
   }
   /* number of distinct fingerprints, up to one per index block too many */
   uint32_t *s = malloc(4ull * nf.n), u = 0;
   for (uint32_t j = 0; j < nf.n; j++) {
      s[j] = fphash(nf.k[j]) >> (32 - RC.fingerprint_size);
   }
   qsort(s, nf.n, 4, cmpu);
   for (uint32_t j = 0; j < nf.n; j++) {
      u += !j || s[j] != s[j - 1];
   }
   free(s);
   if (nf.f.num_unique + 1 < u || nf.f.num_unique > u + nidx) {
      pbt_fail("a filter of %u distinct fingerprints in %u blocks says it has %u", u, nidx, nf.f.num_unique);
   }
   check(&nf, seed, nf.n > 4000 ? 4 : 0);
   if (old && keep_old) {
      check(old, seed, 8);
   }
   if (old && !keep_old) {
      drop(oi);
   }
   if (nF == MAXF) {
      drop(seed % MAXF);
   }
   F[nF++] = nf;
}
static volatile int ready;
static void
async_cb(routing_async_ctxt *ctxt)
{
   __atomic_fetch_add(&ready, 1, __ATOMIC_SEQ_CST);
}
static void
do_async(filt *t, uint64_t seed, int n)
{
   uint8_t b[128];
   if (!t->n) {
      return;
   }
   for (int i = 0; i < n; i++) {
      uint64_t h = pbt_mix(seed + i);
      uint64_t k = h % 3 ? t->k[(h >> 8) % t->n] : 0x40000000ull + (h >> 8) % 0x3fffffff;
      mkkey(k, b);
      routing_async_ctxt rctx;
      cache_async_ctxt   cctx;
      memset(&rctx, 0, sizeof rctx);
      memset(&cctx, 0, sizeof cctx);
      routing_filter_ctxt_init(&rctx, &cctx, async_cb);
      uint64 got = 0x77, want = 0;
      ready      = 0;
      int io     = 0;
      if (i % (1 + seed % 24) == 0) {
         cache_flush(cc);
         cache_evict(cc, TRUE);
      }
      for (;;) {
         int                seen = ready;
         cache_async_result r    = routing_filter_lookup_async(cc, &RC, &t->f, key_create(keylen, b), &got, &rctx);
         if (r == async_success) {
            break;
         }
         if (r == async_io_started) {
            io = 1;
            while (ready == seen) {
               cache_cleanup(cc);
            }
         } else {
            cache_cleanup(cc);
         }
      }
      OKRC(routing_filter_lookup(cc, &RC, &t->f, key_create(keylen, b), &want), "routing_filter_lookup");
      if (got != want) {
         pbt_fail("asynchronous lookup finds the values %lx, the plain one %lx", got, want);
      }
      PBT_COUNT(N_ASYNC, 1);
      PBT_COUNT(N_ASYNC_IO, io);
      PBT_PROGRESS();
   }
}
/* the sampled estimate is exact over the sampled sixteenth of the hash range */
static void
estimate(void)
{
   routing_filter arr[MAXF];
   uint64_t       total = 0, entries = 0, cnt = 0;
   for (int i = 0; i < nF; i++) {
      arr[i] = F[i].f;
      total += F[i].n;
   }
   uint32_t *s = malloc(4 * total + 4);
   for (int i = 0; i < nF; i++) {
      if (log_buckets(F[i].n) - RC.log_index_size < 4) {
         continue;
      }
      /* entries held: distinct (fingerprint, value) pairs */
      uint64_t *e = malloc(8ull * F[i].n), m = 0;
      for (uint32_t j = 0; j < F[i].n; j++) {
         uint32_t fp = fphash(F[i].k[j]) >> (32 - RC.fingerprint_size);
         if (fp < (1u << RC.fingerprint_size) / 16) {
            e[m++]   = (uint64_t)fp << 8 | F[i].v[j];
            s[cnt++] = fp;
         }
      }
      qsort(e, m, 8, cmp64);
      free(e);
      entries += m;
   }
   if (!total || entries + 64 > total / 12) {
      free(s);
      return; /* unevenly spread hashes: the buffer is sized for even ones */
   }
   qsort(s, cnt, 4, cmpu);
   uint32_t u = 0;
   for (uint64_t j = 0; j < cnt; j++) {
      u += !j || s[j] != s[j - 1];
   }
   free(s);
   uint32 got = routing_filter_estimate_unique_fp(cc, &RC, ST.hid, arr, nF);
   if (got != u * 16) {
      pbt_fail("estimate of unique fingerprints is %u, expected 16 x %u", got, u);
   }
   PBT_COUNT(N_EST, u > 0);
}
static void
run(const pbt_case *c)
{
   keylen = c->cfg[X_KEYLEN];
   kseed  = c->cfg[X_KSEED];
   cap    = c->cfg[X_CAP];
   my_data_config D;
   comp_data_config(&D, 128, 0, 0);
   stack_up(&ST, pbt_scratch("db"), c->cfg[X_CACHE_MB] << 20, 512ull << 20, 4096, c->cfg[X_STATS], 0);
   cc                  = (cache *)&ST.cc;
   RC.cache_cfg        = &ST.cc_cfg.super;
   RC.data_cfg         = &D.super;
   RC.index_size       = 1u << c->cfg[X_IDXLOG];
   RC.log_index_size   = c->cfg[X_IDXLOG];
   RC.hash             = D.super.key_hash;
   RC.seed             = c->cfg[X_HSEED];
   uint32_t q          = 64 - __builtin_clzll(cap);
   RC.fingerprint_size = c->cfg[X_REM] + (q > RC.log_index_size ? q : RC.log_index_size);
   if (RC.fingerprint_size > 32 - c->cfg[X_VALBITS]) {
      RC.fingerprint_size = 32 - c->cfg[X_VALBITS];
   }
   uint64 used = in_use();
   for (int i = 0; i < c->nops; i++) {
      const uint32_t *a = c->ops[i].a;
      PBT_PROGRESS();
      switch (c->ops[i].kind) {
         case OP_ADD:
            build(nF ? (int)(a[0] % nF) : -1, a[1], a[2], a[3], a[4] & 3, a[4] & 4, a[1] * 7 + a[2], a[4] >> 3);
            break;
         case OP_FRESH:
            build(-1, a[1], a[2], a[3], a[4] & 1, 0, a[1] * 7 + a[2], a[4] >> 3);
            break;
         case OP_CHECK:
            if (nF) {
               check(&F[a[0] % nF], a[1], 3);
            }
            break;
         case OP_ASYNC:
            if (nF) {
               do_async(&F[a[0] % nF], a[1], a[2]);
            }
            break;
         case OP_EST:
            estimate();
            break;
         case OP_EVICT:
            cache_flush(cc);
            cache_evict(cc, TRUE);
            break;
         case OP_DROP:
            if (nF) {
               drop(a[0] % nF);
            }
            break;
      }
   }
   estimate();
   for (int i = 0; i < nF; i++) {
      check(&F[i], 99, 2);
   }
   while (nF) {
      drop(0);
   }
   if (in_use() != used) {
      pbt_fail("all filters were dropped, but %ld extents remain allocated", (long)(in_use() - used));
   }
   cache_flush(cc);
   stack_down(&ST);
   pbt_res->nontrivial = pbt_res->count[N_MEMBER] > 200 && pbt_res->count[N_BUILDS] > 1;
}
static void
gen(pbt_case *c, pbt_rng *r, int thorough)
{
   uint64_t *f = c->cfg;
   f[X_IDXLOG] = pbt_range(r, 4, 9);
   f[X_CAP]    = pbt_logrange(r, 200, thorough ? 400000 : 60000);
   if (f[X_CAP] > (512ull * 32) << f[X_IDXLOG]) {
      f[X_CAP] = (512ull * 32) << f[X_IDXLOG];
   }
   f[X_KEYLEN]   = pbt_range(r, 8, 120);
   f[X_KSEED]    = pbt_u64(r) >> 8;
   f[X_REM]      = pbt_range(r, 2, 14);
   f[X_VALBITS]  = pbt_range(r, 2, 6);
   f[X_HSEED]    = pbt_pct(r, 60) ? 42 : pbt_u64(r) & 0xffffffff;
   f[X_CACHE_MB] = pbt_range(r, 8, 24);
   f[X_STATS]    = pbt_pct(r, 15);
   int rounds    = pbt_range(r, 2, 14);
   for (int i = 0; i < rounds; i++) {
      pbt_add(c, pbt_pct(r, 25) ? OP_FRESH : OP_ADD, pbt_u64(r) % 64, pbt_range(r, 0, 100000), pbt_logrange(r, 1, f[X_CAP]), pbt_pct(r, 60) ? 1 : pbt_range(r, 1, 90000), (pbt_pct(r, 85) ? 1 : pbt_range(r, 0, 3)) | (pbt_pct(r, 40) ? 4 : 0) | (pbt_pct(r, 70) ? pbt_range(r, 0, 1) : pbt_range(r, 0, 63)) << 3);
      if (pbt_pct(r, 25)) {
         pbt_add(c, OP_EVICT, 0, 0, 0, 0, 0);
      }
      if (pbt_pct(r, 30)) {
         pbt_add(c, OP_ASYNC, pbt_u64(r) % 64, pbt_u64(r), pbt_logrange(r, 1, 150), 0, 0);
      }
      if (pbt_pct(r, 20)) {
         pbt_add(c, OP_EST, 0, 0, 0, 0, 0);
      }
      if (pbt_pct(r, 15)) {
         pbt_add(c, OP_CHECK, pbt_u64(r) % 64, pbt_u64(r), 0, 0, 0);
      }
      if (pbt_pct(r, 10)) {
         pbt_add(c, OP_DROP, pbt_u64(r) % 64, 0, 0, 0, 0);
      }
   }
}
static const pbt_prop p_filter = {.id = "filter", .desc = "routing filter", .gen = gen, .run = run, .opnames = opnames, .cfgnames = cfgnames, .countnames = countnames, .rule = "two or more filters were built and over 200 members looked up"};
const pbt_prop *pbt_props[] = {&p_filter, NULL};
int
main(int argc, char **argv)
{
   return pbt_main(argc, argv);
}
