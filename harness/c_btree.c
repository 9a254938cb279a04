/*
 * c_btree.c -- the B-tree on its own: memtable trees built by inserts, branch
 * trees built by packing and by merging branches, range reference counts,
 * bounded iterators, exact counts, asynchronous lookups; against sorted arrays.
 */
#define _GNU_SOURCE
#include "comp.h"
#include "btree.h"
#include "merge.h"
#include "mini_allocator.h"

enum { X_K, X_STYLE, X_CMP, X_MAXKEY, X_VCLASS, X_KSEED, X_CACHE_MB, X_STATS };
static const char *cfgnames[] = {"nkeys", "style", "cmp", "maxkey", "vclass", "kseed", "cache_mb", "stats", NULL};
enum { OP_PUT, OP_BPUT, OP_PACK, OP_MERGE, OP_CHECK, OP_ITER, OP_COUNT, OP_LIMIT, OP_RANGES, OP_ASYNC, OP_DROP, OP_EVICT };
static const char *opnames[] = {"PUT", "BPUT", "PACK", "MERGE", "CHECK", "ITER", "COUNT", "LIMIT", "RANGES", "ASYNC", "DROP", "EVICT", NULL};
enum { N_INSERTS, N_OVERWRITES, N_LOOKUPS, N_FOUND, N_PACKS, N_PACKED, N_MERGES, N_ITERS, N_MOVES, N_COUNTS, N_LIMITS, N_RANGES, N_ASYNC, N_ASYNC_IO };
static const char *countnames[] = {"inserts", "overwrites", "lookups", "found", "packs", "packed_tuples", "branch_merges", "iterators", "iterator_moves", "range_counts", "packs_over_limit", "range_refcount_rounds", "async_lookups", "async_lookups_with_io", NULL};

#define MAXT 12
typedef struct {
   uint64    root;
   page_type type;
   amsg     *m; /* per key */
} tree;

static universe        U;
static my_data_config  D;
static stack           ST;
static cache          *cc;
static btree_config    BC;
static btree_scratch  *scratch;
static mini_allocator  mini;
static tree            T[MAXT]; /* T[0] is the memtable, the rest branches, old to new */
static int             nT;
static uint64         *lastgen;
static uint64          mem_bytes;

static uint64
in_use(void)
{
   return allocator_in_use((allocator *)&ST.al);
}
static void
mem_new(void)
{
   T[0].root = btree_create(cc, &BC, &mini, PAGE_TYPE_MEMTABLE);
   T[0].type = PAGE_TYPE_MEMTABLE;
   memset(T[0].m, 0, U.K * sizeof(amsg));
   memset(lastgen, 0xff, U.K * sizeof *lastgen);
   mem_bytes = 0;
}
static void
mem_drop(void)
{
   mini_release(&mini, NULL_KEY);
   if (!btree_dec_ref(cc, &BC, T[0].root, PAGE_TYPE_MEMTABLE)) {
      pbt_fail("dropping the only reference to a memtable tree did not free it");
   }
}
static void
branch_drop(int i)
{
   if (T[i].root && !btree_dec_ref_range(cc, &BC, T[i].root, NEGATIVE_INFINITY_KEY, POSITIVE_INFINITY_KEY)) {
      pbt_fail("dropping the only reference to a branch did not free it");
   }
   free(T[i].m);
   memmove(T + i, T + i + 1, (nT - i - 1) * sizeof *T);
   nT--;
}
static void
put(uint32_t k, amsg m)
{
   uint8_t  buf[DB_MAXVAL + 16];
   unsigned n = amsg_bytes(&D, U.kh[k], m, buf);
   uint64   gen;
   bool32   uniq = 77;
   if (mem_bytes + n + U.kl[k] + 64 > (2u << 20)) {
      return;
   }
   mem_bytes += n + U.kl[k] + 64;
   /* hand over the key and message in buffers that change right afterwards */
   uint8_t kb[600];
   memcpy(kb, U.kb + (size_t)k * U.maxkey, U.kl[k]);
   platform_status rc = btree_insert(cc, &BC, ST.hid, scratch, T[0].root, &mini, key_create(U.kl[k], kb), message_create(m.cls, slice_create(n, buf)), &gen, &uniq);
   OKRC(rc, "btree_insert");
   memset(kb, 0xcc, sizeof kb);
   memset(buf, 0xcc, sizeof buf);
   if (!!uniq != (T[0].m[k].cls == 0)) {
      pbt_fail("btree_insert says was_unique=%d for a key that was %s", uniq, T[0].m[k].cls ? "present" : "absent");
   }
   if (T[0].m[k].cls && lastgen[k] >= gen) {
      pbt_fail("two inserts of one key got generations %lu and %lu", (unsigned long)lastgen[k], (unsigned long)gen);
   }
   lastgen[k] = gen;
   PBT_COUNT(T[0].m[k].cls ? N_OVERWRITES : N_INSERTS, 1);
   T[0].m[k] = T[0].m[k].cls ? amsg_merge(m, T[0].m[k]) : m;
}
static void
check_lookup(tree *t, uint32_t k, int bufstart, amsg newer)
{
   merge_accumulator ma;
   PBT_COUNT(N_LOOKUPS, 1);
   if (!newer.cls) {
      merge_accumulator_init(&ma, ST.hid);
      OKRC(btree_lookup(cc, &BC, t->root, t->type, uni_key(&U, k), &ma), "btree_lookup");
      if (merge_accumulator_is_null(&ma) != (t->m[k].cls == 0)) {
         pbt_fail("lookup of key %u in a %s tree: %s, but it is %s", k, t->type == PAGE_TYPE_MEMTABLE ? "memtable" : "branch", merge_accumulator_is_null(&ma) ? "not found" : "found", t->m[k].cls ? "there" : "not there");
      }
      if (t->m[k].cls) {
         PBT_COUNT(N_FOUND, 1);
         amsg_check(&D, U.kh[k], t->m[k], merge_accumulator_to_message(&ma), "btree_lookup");
      }
   } else {
      uint8_t  buf[DB_MAXVAL + 16];
      unsigned n = amsg_bytes(&D, U.kh[k], newer, buf);
      bool32   found;
      merge_accumulator_init_from_message(&ma, ST.hid, message_create(newer.cls, slice_create(n, buf)));
      OKRC(btree_lookup_and_merge(cc, &BC, t->root, t->type, uni_key(&U, k), &ma, &found), "btree_lookup_and_merge");
      if (!!found != (t->m[k].cls != 0)) {
         pbt_fail("lookup_and_merge of key %u: local_found=%d", k, found);
      }
      amsg_check(&D, U.kh[k], t->m[k].cls ? amsg_merge(newer, t->m[k]) : newer, merge_accumulator_to_message(&ma), "btree_lookup_and_merge");
   }
   merge_accumulator_deinit(&ma);
}
static void
check_tree(tree *t, uint32_t h)
{
   if (!t->root) {
      return;
   }
   for (uint32_t k = 0; k < U.K; k++) {
      check_lookup(t, k, 0, (amsg){0});
      PBT_PROGRESS();
      if (pbt_mix(h + k) % 8 == 0 && t->m[k].cls) {
         check_lookup(t, k, 0, (amsg){.cls = MESSAGE_TYPE_UPDATE, .a = 5, .b = 1 + k % 97});
      }
   }
   if (!btree_verify_tree(cc, &BC, t->root, t->type)) {
      pbt_fail("btree_verify_tree reports a malformed tree");
   }
}
static key
bound(uint32_t i)
{
   return i == 0 ? NEGATIVE_INFINITY_KEY : i > U.K ? POSITIVE_INFINITY_KEY : uni_key(&U, i - 1);
}
/* bounded iterator; bounds are 0 = -inf, 1..K = key, K+1 = +inf */
static void
do_iter(tree *t, uint32_t lo, uint32_t hi, uint32_t start, int type, int prefetch, uint64_t mseed, int nmoves)
{
   if (!t->root) {
      return;
   }
   if (hi < lo) {
      uint32_t x = lo;
      lo         = hi;
      hi         = x;
   }
   start = start < lo ? lo : start > hi ? hi : start;
   uint32_t *L = malloc((U.K + 1) * 4);
   int       n = 0, pos;
   for (uint32_t k = 0; k < U.K; k++) {
      if (k + 1 >= lo && k + 1 < hi && t->m[k].cls) {
         L[n++] = k;
      }
   }
   int below = 0, at = 0;
   for (int i = 0; i < n; i++) {
      below += L[i] + 1 < start;
      at |= L[i] + 1 == start;
   }
   comparison cmps[] = {greater_than_or_equal, greater_than, less_than_or_equal, less_than};
   comparison ct     = cmps[type & 3];
   if (start == hi && ct == greater_than) {
      ct = greater_than_or_equal; /* beyond the (exclusive) end */
   }
   switch (ct) {
      case greater_than_or_equal:
         pos = below;
         break;
      case greater_than:
         pos = below + at;
         break;
      case less_than_or_equal:
         pos = below + at - 1;
         if (start == hi && hi >= 1 && hi <= U.K && t->m[hi - 1].cls) {
            pos = n; /* that key is the (exclusive) end */
         }
         break;
      default:
         pos = below - 1;
   }
   btree_iterator it;
   btree_iterator_init(cc, &BC, &it, t->root, t->type, bound(lo), bound(hi), bound(start), ct, prefetch, 0);
   PBT_COUNT(N_ITERS, 1);
   iterator *b = &it.super;
   int       run = 0, dir = type & 4 ? -1 : 1;
   for (int i = 0;; i++) {
      int cn = n > 0 && pos < n, cp = n > 0 && pos >= 0;
      if (n == 0) {
         /* an empty range may think that one more step is possible, but must
          * never show an entry */
         if (iterator_can_curr(b)) {
            pbt_fail("iterator over the empty range [%u,%u) shows an entry", lo, hi);
         }
         break;
      }
      if (!!iterator_can_next(b) != cn || !!iterator_can_prev(b) != cp) {
         pbt_fail("iterator [%u,%u) start %u type %d on a %s tree, step %d: position %d of %d, can_next=%d can_prev=%d", lo, hi, start, type & 3, t->type == PAGE_TYPE_MEMTABLE ? "memtable" : "branch", i, pos, n, iterator_can_next(b), iterator_can_prev(b));
      }
      if (cn && cp) {
         key     k;
         message m;
         iterator_curr(b, &k, &m);
         if (!uni_is(&U, L[pos], k)) {
            pbt_fail("iterator [%u,%u) start %u type %d, step %d: position %d of %d shows key %ld instead of %u", lo, hi, start, type & 3, i, pos, n, (long)uni_find(&U, k), L[pos]);
         }
         amsg_check(&D, U.kh[L[pos]], t->m[L[pos]], m, "iterator");
      }
      if (i >= nmoves) {
         break;
      }
      if (run-- == 0) {
         uint64_t h = pbt_mix(mseed + i);
         dir        = h & 1 ? 1 : -1;
         run        = (h >> 8) % 5 ? (h >> 16) % 6 : (h >> 16) % 400;
      }
      if (dir > 0 && !cn) {
         dir = -1;
      } else if (dir < 0 && !cp) {
         dir = 1;
      }
      if (dir > 0 ? !cn : !cp) {
         break;
      }
      OKRC(dir > 0 ? iterator_next(b) : iterator_prev(b), "btree iterator step");
      pos += dir;
      PBT_COUNT(N_MOVES, 1);
      PBT_PROGRESS();
   }
   btree_iterator_deinit(&it);
   free(L);
}
static void
do_count(tree *t, uint32_t lo, uint32_t hi)
{
   if (!t->root || t->type != PAGE_TYPE_BRANCH) {
      return;
   }
   if (hi < lo) {
      uint32_t x = lo;
      lo         = hi;
      hi         = x;
   }
   uint64   kv = 0, kbytes = 0, mbytes = 0;
   uint8_t  buf[DB_MAXVAL + 16];
   for (uint32_t k = 0; k < U.K; k++) {
      if (k + 1 >= lo && k + 1 < hi && t->m[k].cls) {
         kv++;
         kbytes += U.kl[k];
         mbytes += amsg_bytes(&D, U.kh[k], t->m[k], buf);
      }
   }
   btree_pivot_stats s;
   btree_count_in_range(cc, &BC, t->root, bound(lo), bound(hi), &s);
   if (s.num_kvs != kv || s.key_bytes != kbytes || s.message_bytes != mbytes) {
      pbt_fail("count_in_range [%u,%u) says %u tuples, %u key bytes, %u message bytes; there are %lu, %lu, %lu", lo, hi, s.num_kvs, s.key_bytes, s.message_bytes, kv, kbytes, mbytes);
   }
   PBT_COUNT(N_COUNTS, 1);
}
/* pack [lo,hi) of an iterator; expected messages in want */
static uint64
do_pack(iterator *it, amsg *want, uint64 limit, uint64 expect_n, int with_hash)
{
   btree_pack_req *req = calloc(1, sizeof *req);
   OKRC(btree_pack_req_init(req, cc, &BC, it, limit, with_hash ? D.super.key_hash : NULL, 42, ST.hid), "btree_pack_req_init");
   platform_status rc   = btree_pack(req);
   uint64          root = 0;
   if (expect_n > limit) {
      if (!STATUS_IS_EQ(rc, STATUS_LIMIT_EXCEEDED)) {
         pbt_fail("packing %lu tuples with a limit of %lu returned %s", expect_n, limit, platform_status_to_string(rc));
      }
   } else {
      OKRC(rc, "btree_pack");
      root = req->root_addr;
      uint64  n = 0, kbytes = 0, mbytes = 0;
      uint8_t buf[DB_MAXVAL + 16];
      for (uint32_t k = 0; k < U.K; k++) {
         if (want[k].cls) {
            if (with_hash && n < req->num_tuples && req->fingerprint_arr[n] != D.super.key_hash(U.kb + (size_t)k * U.maxkey, U.kl[k], 42)) {
               pbt_fail("pack: fingerprint %lu is not the hash of tuple %lu", n, n);
            }
            n++;
            kbytes += U.kl[k];
            mbytes += amsg_bytes(&D, U.kh[k], want[k], buf);
         }
      }
      if (n != req->num_tuples || kbytes != req->key_bytes || mbytes != req->message_bytes) {
         pbt_fail("pack reports %lu tuples, %lu key bytes, %lu message bytes; given were %lu, %lu, %lu", req->num_tuples, req->key_bytes, req->message_bytes, n, kbytes, mbytes);
      }
      if ((root == 0) != (n == 0)) {
         pbt_fail("pack of %lu tuples returned root %lu", n, root);
      }
      PBT_COUNT(N_PACKS, 1);
      PBT_COUNT(N_PACKED, n);
   }
   btree_pack_req_deinit(req, ST.hid);
   free(req);
   return root;
}
static uint64
count_m(const amsg *m)
{
   uint64 n = 0;
   for (uint32_t k = 0; k < U.K; k++) {
      n += m[k].cls != 0;
   }
   return n;
}
static void
pack_memtable(uint32_t slack, int with_hash)
{
   if (nT >= MAXT) {
      branch_drop(1);
   }
   uint64 n = count_m(T[0].m);
   if (n == 0) {
      return;
   }
   btree_iterator it;
   btree_iterator_init(cc, &BC, &it, T[0].root, PAGE_TYPE_MEMTABLE, NEGATIVE_INFINITY_KEY, POSITIVE_INFINITY_KEY, NEGATIVE_INFINITY_KEY, greater_than_or_equal, FALSE, 0);
   uint64 root = do_pack(&it.super, T[0].m, n + slack, n, with_hash);
   btree_iterator_deinit(&it);
   T[nT].root = root;
   T[nT].type = PAGE_TYPE_BRANCH;
   T[nT].m    = malloc(U.K * sizeof(amsg));
   memcpy(T[nT].m, T[0].m, U.K * sizeof(amsg));
   nT++;
   check_tree(&T[nT - 1], slack);
   mem_drop();
   mem_new();
}
/* merge branches i..j into one, within key bounds; keep or drop the inputs */
static void
merge_branches(int i, int j, uint32_t lo, uint32_t hi, int full, int limit_short, int keep)
{
   int n = j - i + 1;
   if (hi < lo) {
      uint32_t x = lo;
      lo         = hi;
      hi         = x;
   }
   btree_iterator *its = calloc(n, sizeof *its);
   iterator       *arr[MAXT];
   amsg           *want = calloc(U.K, sizeof(amsg));
   for (int x = 0; x < n; x++) {
      btree_iterator_init(cc, &BC, &its[x], T[i + x].root, PAGE_TYPE_BRANCH, bound(lo), bound(hi), bound(lo), greater_than_or_equal, TRUE, 0);
      arr[x] = &its[x].super;
   }
   for (uint32_t k = 0; k < U.K; k++) {
      if (k + 1 < lo || k + 1 >= hi) {
         continue;
      }
      amsg acc = {0};
      for (int x = n - 1; x >= 0; x--) {
         if (T[i + x].m[k].cls) {
            acc = acc.cls ? amsg_merge(acc, T[i + x].m[k]) : T[i + x].m[k];
         }
      }
      if (full && acc.cls) {
         acc = amsg_final(acc);
         if (acc.cls == MESSAGE_TYPE_DELETE) {
            acc.cls = 0;
         }
      }
      want[k] = acc;
   }
   uint64          cnt = count_m(want);
   merge_iterator *mi;
   uint64          used0 = in_use();
   OKRC(merge_iterator_create(ST.hid, &D.super, n, arr, full ? MERGE_FULL : MERGE_INTERMEDIATE, &mi), "merge_iterator_create");
   uint64 limit = limit_short && cnt > 1 ? cnt - 1 - limit_short % cnt / 2 : cnt + 3;
   uint64 root  = do_pack(&mi->super, want, limit, cnt, 1);
   merge_iterator_destroy(ST.hid, &mi);
   for (int x = 0; x < n; x++) {
      btree_iterator_deinit(&its[x]);
   }
   free(its);
   PBT_COUNT(N_MERGES, 1);
   if (cnt > limit || cnt == 0) {
      PBT_COUNT(N_LIMITS, cnt > limit);
      if (in_use() != used0) {
         pbt_fail("a pack that %s left %ld extents behind", cnt ? "exceeded its limit" : "produced nothing", (long)(in_use() - used0));
      }
      free(want);
      return;
   }
   tree nt = {.root = root, .type = PAGE_TYPE_BRANCH, .m = want};
   check_tree(&nt, lo);
   if (keep) {
      /* only the new branch is temporary */
      if (!btree_dec_ref_range(cc, &BC, root, NEGATIVE_INFINITY_KEY, POSITIVE_INFINITY_KEY)) {
         pbt_fail("dropping the only reference to a merged branch did not free it");
      }
      free(want);
      if (in_use() != used0) {
         pbt_fail("a merged branch that was dropped left %ld extents behind", (long)(in_use() - used0));
      }
      for (int x = i; x <= j; x++) {
         check_tree(&T[x], hi);
      }
      return;
   }
   for (int x = j; x >= i; x--) {
      branch_drop(x);
   }
   memmove(T + i + 1, T + i, (nT - i) * sizeof *T);
   T[i] = nt;
   nT++;
}
/* references to key ranges of a branch, dropped in random order */
static void
do_ranges(int bi, uint64_t seed, int nr)
{
   tree    *t = &T[bi];
   uint32_t lo[16], hi[16];
   for (int i = 0; i < nr; i++) {
      lo[i] = pbt_mix(seed + 2 * i) % (U.K + 2);
      hi[i] = pbt_mix(seed + 2 * i + 1) % (U.K + 2);
      if (hi[i] < lo[i]) {
         uint32_t x = lo[i];
         lo[i]      = hi[i];
         hi[i]      = x;
      }
      if (lo[i] == hi[i]) {
         hi[i] = lo[i] + 1 > U.K + 1 ? U.K + 1 : lo[i] + 1;
         lo[i] = hi[i] - 1;
      }
      btree_inc_ref_range(cc, &BC, t->root, bound(lo[i]), bound(hi[i]));
   }
   /* drop the reference to everything first */
   if (btree_dec_ref_range(cc, &BC, t->root, NEGATIVE_INFINITY_KEY, POSITIVE_INFINITY_KEY)) {
      pbt_fail("a branch was freed although %d ranges of it are referenced", nr);
   }
   for (int i = 0; i < nr; i++) {
      for (int j = i; j < nr; j++) {
         do_iter(t, lo[j], hi[j], pbt_mix(seed ^ j) % (U.K + 2), 0, 0, seed + j, 60);
         for (int q = 0; q < 12; q++) {
            uint32_t k = pbt_mix(seed * 3 + q * 7 + j) % U.K;
            if (k + 1 >= lo[j] && k + 1 < hi[j]) {
               check_lookup(t, k, 0, (amsg){0});
            }
         }
      }
      bool32 freed = btree_dec_ref_range(cc, &BC, t->root, bound(lo[i]), bound(hi[i]));
      if (!!freed != (i == nr - 1)) {
         pbt_fail("dropping range reference %d of %d: freed=%d", i + 1, nr, freed);
      }
   }
   PBT_COUNT(N_RANGES, 1);
   t->root = 0;
   branch_drop(bi);
}
/* --------------------------------------------------------- async lookups */
static volatile int ready;
static void
async_cb(btree_async_ctxt *ctxt)
{
   __atomic_fetch_add(&ready, 1, __ATOMIC_SEQ_CST);
}
static void
do_async(tree *t, uint64_t seed, int n)
{
   if (!t->root || t->type != PAGE_TYPE_BRANCH) {
      return;
   }
   for (int i = 0; i < n; i++) {
      uint32_t          k = pbt_mix(seed + i) % U.K;
      btree_async_ctxt  bctx;
      cache_async_ctxt  cctx;
      merge_accumulator ma;
      memset(&bctx, 0, sizeof bctx);
      memset(&cctx, 0, sizeof cctx);
      btree_ctxt_init(&bctx, &cctx, async_cb);
      merge_accumulator_init(&ma, ST.hid);
      ready  = 0;
      int io = 0;
      if (i % (1 + seed % 24) == 0) {
         cache_flush(cc);
         cache_evict(cc, TRUE);
      }
      for (;;) {
         int                seen = ready;
         cache_async_result r    = btree_lookup_async(cc, &BC, t->root, uni_key(&U, k), &ma, &bctx);
         if (r == async_success) {
            break;
         }
         if (r == async_io_started) {
            io = 1;
            while (ready == seen) {
               cache_cleanup(cc);
            }
         } else {
            cache_cleanup(cc);
         }
      }
      PBT_PROGRESS();
      PBT_COUNT(N_ASYNC, 1);
      PBT_COUNT(N_ASYNC_IO, io);
      if (merge_accumulator_is_null(&ma) != (t->m[k].cls == 0)) {
         pbt_fail("asynchronous lookup of key %u: %s, but it is %s", k, merge_accumulator_is_null(&ma) ? "not found" : "found", t->m[k].cls ? "there" : "not there");
      }
      if (t->m[k].cls) {
         amsg_check(&D, U.kh[k], t->m[k], merge_accumulator_to_message(&ma), "asynchronous lookup");
      }
      merge_accumulator_deinit(&ma);
   }
}
static int
pick(uint32_t a)
{
   return a % nT;
}
static void
run(const pbt_case *c)
{
   uni_init(&U, c->cfg[X_K], c->cfg[X_STYLE], c->cfg[X_CMP], c->cfg[X_MAXKEY], c->cfg[X_KSEED]);
   comp_data_config(&D, c->cfg[X_MAXKEY], c->cfg[X_CMP], c->cfg[X_VCLASS]);
   stack_up(&ST, pbt_scratch("db"), c->cfg[X_CACHE_MB] << 20, 512ull << 20, sizeof(btree_scratch), c->cfg[X_STATS], 0);
   cc = (cache *)&ST.cc;
   btree_config_init(&BC, &ST.cc_cfg.super, &D.super);
   scratch     = calloc(1, sizeof *scratch);
   lastgen     = malloc(U.K * sizeof *lastgen);
   T[0].m      = malloc(U.K * sizeof(amsg));
   nT          = 1;
   uint64 used = in_use();
   mem_new();
   for (int i = 0; i < c->nops; i++) {
      const pbt_op   *o = &c->ops[i];
      const uint32_t *a = o->a;
      PBT_PROGRESS();
      switch (o->kind) {
         case OP_PUT:
            put(a[0] % U.K, amsg_gen(a[1], a[2]));
            break;
         case OP_BPUT:
            for (uint32_t j = 0; j < a[1]; j++) {
               uint32_t k = a[4] == 0 ? (a[0] + j) % U.K : a[4] == 1 ? (a[0] + U.K - j % U.K) % U.K : pbt_mix(a[0] + j) % U.K;
               uint64_t h = pbt_mix(((uint64_t)a[2] << 32) ^ j);
               put(k, a[3] ? amsg_insert(1 + h % 60000) : amsg_gen(h, h >> 20));
               PBT_PROGRESS();
            }
            break;
         case OP_PACK:
            pack_memtable(a[0], a[1] & 1);
            break;
         case OP_MERGE:
            if (nT > 1) {
               int x = 1 + a[0] % (nT - 1), y = 1 + a[1] % (nT - 1);
               int whole = a[4] & 1;
               if (x > y) {
                  int z = x;
                  x     = y;
                  y     = z;
               }
               if (whole) {
                  merge_branches(x, y, 0, U.K + 1, a[4] & 2, 0, 0);
               } else {
                  merge_branches(x, y, a[2] % (U.K + 2), a[3] % (U.K + 2), a[4] & 2, 0, 1);
               }
            }
            break;
         case OP_LIMIT:
            if (nT > 1) {
               int x = 1 + a[0] % (nT - 1);
               merge_branches(x, nT - 1, 0, U.K + 1, a[1] & 1, 1 + a[2], 1);
            }
            break;
         case OP_CHECK:
            check_tree(&T[pick(a[0])], a[1]);
            break;
         case OP_ITER:
            do_iter(&T[pick(a[0])], (a[4] >> 8) & 3 ? a[1] % (U.K + 2) : 0, (a[4] >> 10) & 3 ? a[2] % (U.K + 2) : U.K + 1, a[3] % (U.K + 2), a[4] & 7, a[4] & 8, a[3] * 31 + a[1], (a[4] >> 16) & 0xfff);
            break;
         case OP_COUNT:
            do_count(&T[pick(a[0])], a[1] % (U.K + 2), a[2] % (U.K + 2));
            break;
         case OP_RANGES:
            if (nT > 1) {
               do_ranges(1 + a[0] % (nT - 1), a[1], 1 + a[2] % 15);
            }
            break;
         case OP_ASYNC:
            do_async(&T[pick(a[0])], a[1], a[2]);
            break;
         case OP_EVICT:
            cache_flush(cc);
            cache_evict(cc, TRUE);
            break;
         case OP_DROP:
            if (nT > 1) {
               branch_drop(1 + a[0] % (nT - 1));
            }
            break;
      }
   }
   for (int i = 0; i < nT; i++) {
      check_tree(&T[i], 7);
      do_iter(&T[i], 0, U.K + 1, 0, 0, 1, 3, 2 * U.K);
   }
   while (nT > 1) {
      branch_drop(1);
   }
   mem_drop();
   if (in_use() != used) {
      pbt_fail("all trees were dropped, but %ld extents remain allocated", (long)(in_use() - used));
   }
   cache_flush(cc);
   stack_down(&ST);
   pbt_res->nontrivial = pbt_res->count[N_PACKED] > 200;
}
static void
gen(pbt_case *c, pbt_rng *r, int thorough)
{
   uint64_t *f   = c->cfg;
   f[X_K]        = pbt_logrange(r, 2, thorough ? 12000 : 5000);
   f[X_STYLE]    = pbt_range(r, 0, NUM_KS - 1);
   f[X_CMP]      = pbt_pct(r, 60) ? 0 : pbt_range(r, 0, NUM_CMP - 1);
   f[X_MAXKEY]   = pbt_pct(r, 70) ? pbt_range(r, 24, 60) : pbt_range(r, 24, 500);
   f[X_VCLASS]   = pbt_pct(r, 50) ? pbt_range(r, 0, 2) : pbt_range(r, 0, 7);
   f[X_KSEED]    = pbt_u64(r) >> 8;
   f[X_CACHE_MB] = pbt_pct(r, 50) ? pbt_range(r, 6, 10) : 32;
   f[X_STATS]    = pbt_pct(r, 15);
   uint32_t K    = f[X_K];
   int      rounds = pbt_range(r, 1, 7);
   for (int q = 0; q < rounds; q++) {
      int nb = pbt_range(r, 1, 4);
      for (int j = 0; j < nb; j++) {
         pbt_add(c, OP_BPUT, pbt_u64(r) % K, pbt_logrange(r, 1, K + 50), pbt_u64(r), pbt_pct(r, 30), pbt_range(r, 0, 2));
         if (pbt_pct(r, 30)) {
            pbt_add(c, OP_PUT, pbt_u64(r) % K, pbt_range(r, 0, 7), pbt_u64(r), 0, 0);
         }
         if (pbt_pct(r, 30)) {
            pbt_add(c, OP_ITER, 0, pbt_u64(r) % (K + 2), pbt_u64(r) % (K + 2), pbt_u64(r) % (K + 2), pbt_u64(r) & 0x3ffffff);
         }
         if (pbt_pct(r, 15)) {
            pbt_add(c, OP_CHECK, 0, pbt_u64(r), 0, 0, 0);
         }
      }
      if (pbt_pct(r, 90)) {
         pbt_add(c, OP_PACK, pbt_pct(r, 50) ? 0 : pbt_range(r, 0, 100), pbt_range(r, 0, 3), 0, 0, 0);
      }
      int ne = pbt_range(r, 0, 6);
      static const int w[] = {14, 10, 34, 24, 8, 8, 8, 3, 5};
      static const int kd[] = {OP_MERGE, OP_CHECK, OP_ITER, OP_COUNT, OP_LIMIT, OP_RANGES, OP_ASYNC, OP_DROP, OP_EVICT};
      for (int j = 0; j < ne; j++) {
         int k = kd[pbt_weighted(r, w, 9)];
         switch (k) {
            case OP_MERGE:
               pbt_add(c, k, pbt_u64(r) % 64, pbt_u64(r) % 64, pbt_u64(r) % (K + 2), pbt_u64(r) % (K + 2), pbt_range(r, 0, 3));
               break;
            case OP_ITER:
               pbt_add(c, k, pbt_u64(r) % 64, pbt_u64(r) % (K + 2), pbt_u64(r) % (K + 2), pbt_u64(r) % (K + 2), pbt_u64(r) & 0x3ffffff);
               break;
            case OP_ASYNC:
               pbt_add(c, k, pbt_u64(r) % 64, pbt_u64(r), pbt_logrange(r, 1, 200), 0, 0);
               break;
            default:
               pbt_add(c, k, pbt_u64(r) % 64, pbt_u64(r) % 100000, pbt_u64(r) % 100000, 0, 0);
         }
      }
   }
}
static const pbt_prop p_btree = {.id = "btree", .desc = "B-tree", .gen = gen, .run = run, .opnames = opnames, .cfgnames = cfgnames, .countnames = countnames, .rule = "more than 200 tuples were packed into branches"};
const pbt_prop *pbt_props[] = {&p_btree, NULL};
int
main(int argc, char **argv)
{
   return pbt_main(argc, argv);
}
