/*
 * c_alloc.c -- extent allocator (reference counts, superblock slots, mount)
 * and mini allocators (page hand-out, keyed range references, unkeyed
 * references), against simple counting models.  Suite "alloc" is sequential,
 * suite "alloc_mt" runs threads over one allocator.
 */
#define _GNU_SOURCE
#include "comp.h"
#include "mini_allocator.h"
#include <pthread.h>

enum { X_EXTENTS, X_CACHE_MB, X_K, X_KSEED, X_MAXKEY, X_CMP, X_STATS, X_THREADS };
static const char *cfgnames[] = {"extents", "cache_mb", "nkeys", "kseed", "maxkey", "cmp", "stats", "threads", NULL};
enum { OP_RALLOC, OP_RFREE, OP_RINC, OP_SALLOC, OP_SREM, OP_SGET, OP_REMOUNT, OP_MNEW, OP_MALLOC, OP_MREL, OP_UINC, OP_UDEC, OP_KINC, OP_KDEC, OP_KCOUNT, OP_BLOCK, OP_VERIFY, OP_WORK };
static const char *opnames[] = {"RALLOC", "RFREE", "RINC", "SALLOC", "SREM", "SGET", "REMOUNT", "MNEW", "MALLOC", "MREL", "UINC", "UDEC", "KINC", "KDEC", "KCOUNT", "BLOCK", "VERIFY", "WORK", NULL};
enum { N_RALLOC, N_NOSPACE, N_RFREE, N_SUPER, N_SUPERFULL, N_REMOUNT, N_MINIS, N_PAGES, N_MULTIMETA, N_RANGEREF, N_RANGEDROP, N_PARTIAL, N_BLOCKED, N_VERIFY, N_MTALLOC };
static const char *countnames[] = {"extents_allocated", "allocations_refused_for_space", "extents_freed", "superblock_slots", "superblock_full", "remounts", "mini_allocators", "pages_allocated", "minis_with_over_100_extents", "range_references", "range_references_dropped", "drops_that_freed_part", "drops_made_to_wait", "pages_verified", "threaded_allocations", NULL};

static stack     ST;
static cache    *cc;
static allocator *al;
static universe  U;
static my_data_config D;
static uint64    NE; /* extents on the device */
static uint64    base_used;

/* raw extents: external references held on each */
#define MAXRAW 4096
static uint64_t raw_addr[MAXRAW];
static uint8_t  raw_refs[MAXRAW], raw_type[MAXRAW];
static int      nraw;

static uint64_t super_id[64], super_addr[64];
static int      nsuper;

#define MAXPG 8000
#define MAXREF 24
typedef struct {
   mini_allocator mini;
   int            keyed, nb, type, released, freed_some;
   uint64_t       meta_head;
   int            npg;
   uint64_t       pg[MAXPG];
   uint32_t       pgkey[MAXPG]; /* 0 .. K-1 */
   uint8_t        pgb[MAXPG];
   uint8_t        gone[MAXPG]; /* its extent was freed by a dropped range */
   uint64_t       expect_next[MINI_MAX_BATCHES];
   uint32_t       lastkey[MINI_MAX_BATCHES];
   uint64_t       stamp;
   int            refs; /* unkeyed */
   int            nref; /* keyed: outstanding ranges, bounds as in bound() */
   uint32_t       lo[MAXREF], hi[MAXREF];
} mini_t;
#define MAXMINI 6
static mini_t *M[MAXMINI];
static int     nM;

static key
bound(uint32_t i)
{
   return i == 0 ? NEGATIVE_INFINITY_KEY : i > U.K ? POSITIVE_INFINITY_KEY : uni_key(&U, i - 1);
}
static uint64_t
ext(uint64_t a)
{
   return a / EXTENT;
}
static uint64_t
model_raw_used(void)
{
   return base_used + nraw;
}
/* extents of a mini that must still be allocated */
static uint64_t
mini_used(mini_t *m)
{
   return mini_num_extents(&m->mini) - (m->released ? m->nb : 0) - m->freed_some;
}
/* notes which data extents a dropped range has just freed */
static void
mini_note_freed(mini_t *m)
{
   for (int i = 0; i < m->npg; i++) {
      if (!m->gone[i] && allocator_get_refcount(al, ext(m->pg[i]) * EXTENT) == AL_FREE) {
         for (int j = 0; j < m->npg; j++) {
            if (!m->gone[j] && ext(m->pg[j]) == ext(m->pg[i])) {
               m->gone[j] = 1;
            }
         }
         m->freed_some++;
      }
   }
}
static void
check_used(const char *when)
{
   uint64_t want = model_raw_used();
   for (int i = 0; i < nM; i++) {
      want += mini_used(M[i]);
   }
   if (allocator_in_use(al) != want) {
      pbt_fail("%s: %lu extents in use, the model has %lu", when, allocator_in_use(al), want);
   }
}
/* ------------------------------------------------------------------ raw */
static void
owner_check(uint64_t e, const char *what)
{
   for (int i = 0; i < nraw; i++) {
      if (raw_addr[i] / EXTENT == e) {
         pbt_fail("%s was given extent %lu, which is already allocated", what, e);
      }
   }
   for (int i = 0; i < nM; i++) {
      if (ext(M[i]->meta_head) == e) {
         pbt_fail("%s was given extent %lu, which holds allocator metadata", what, e);
      }
      for (int j = 0; j < M[i]->npg; j++) {
         /* freed ranges may be handed out again */
         if (ext(M[i]->pg[j]) == e && !M[i]->gone[j]) {
            pbt_fail("%s was given extent %lu, which is already allocated to a mini allocator", what, e);
         }
      }
   }
   if (e <= (NE + EXTENT - 1) / EXTENT || e >= NE) {
      pbt_fail("%s was given extent %lu of %lu", what, e, NE);
   }
}
static void
raw_alloc(int n, int type)
{
   for (int i = 0; i < n && nraw < MAXRAW; i++) {
      uint64          a  = 12345;
      platform_status rc = allocator_alloc(al, &a, type);
      uint64          used = allocator_in_use(al);
      if (STATUS_IS_EQ(rc, STATUS_NO_SPACE)) {
         if (used < NE) {
            pbt_fail("allocation refused for lack of space with %lu of %lu extents in use", used, NE);
         }
         PBT_COUNT(N_NOSPACE, 1);
         return;
      }
      OKRC(rc, "allocator_alloc");
      if (a % EXTENT) {
         pbt_fail("allocated extent at unaligned address %lu", a);
      }
      owner_check(a / EXTENT, "allocation");
      if (allocator_get_refcount(al, a) != AL_ONE_REF) {
         pbt_fail("a fresh extent has reference count %u", allocator_get_refcount(al, a));
      }
      raw_addr[nraw] = a;
      raw_refs[nraw] = 1;
      raw_type[nraw] = type;
      nraw++;
      PBT_COUNT(N_RALLOC, 1);
   }
}
static void
raw_drop(int i)
{
   uint8 r = allocator_dec_ref(al, raw_addr[i], raw_type[i]);
   raw_refs[i]--;
   if (r != raw_refs[i] + 1) {
      pbt_fail("dropping a reference left count %u, expected %u", r, raw_refs[i] + 1);
   }
   if (raw_refs[i] == 0) {
      r = allocator_dec_ref(al, raw_addr[i], raw_type[i]);
      if (r != AL_FREE) {
         pbt_fail("freeing an extent left count %u", r);
      }
      raw_addr[i] = raw_addr[nraw - 1];
      raw_refs[i] = raw_refs[nraw - 1];
      raw_type[i] = raw_type[nraw - 1];
      nraw--;
      PBT_COUNT(N_RFREE, 1);
   }
}
/* ---------------------------------------------------------------- super */
static void
super_alloc(uint64_t id)
{
   for (int i = 0; i < nsuper; i++) {
      if (super_id[i] == id) {
         return;
      }
   }
   uint64          a  = 0;
   platform_status rc = allocator_alloc_super_addr(al, id, &a);
   if (nsuper == RC_ALLOCATOR_MAX_ROOT_IDS) {
      if (SUCCESS(rc)) {
         pbt_fail("a superblock slot was given out beyond the last");
      }
      PBT_COUNT(N_SUPERFULL, 1);
      return;
   }
   OKRC(rc, "alloc_super_addr");
   if (a % PAGE || a < PAGE || a + PAGE > EXTENT) {
      pbt_fail("superblock at address %lu", a);
   }
   for (int i = 0; i < nsuper; i++) {
      if (super_addr[i] == a) {
         pbt_fail("two superblocks share address %lu", a);
      }
   }
   super_id[nsuper]   = id;
   super_addr[nsuper] = a;
   nsuper++;
   PBT_COUNT(N_SUPER, 1);
}
static void
super_check(void)
{
   for (int i = 0; i < nsuper; i++) {
      uint64 a = 0;
      OKRC(allocator_get_super_addr(al, super_id[i], &a), "get_super_addr");
      if (a != super_addr[i]) {
         pbt_fail("superblock of table %lx moved from %lu to %lu", super_id[i], super_addr[i], a);
      }
   }
   uint64 a;
   if (SUCCESS(allocator_get_super_addr(al, 0xabcdef0123ull, &a))) {
      pbt_fail("a superblock was found for an unknown table");
   }
}
static void
remount(void)
{
   uint8_t *before = malloc(NE);
   for (uint64_t e = 0; e < NE; e++) {
      before[e] = allocator_get_refcount(al, e * EXTENT);
   }
   uint64 used = allocator_in_use(al);
   /* an extent nobody refers to any more, but which was not freed yet */
   int half = nraw && raw_refs[nraw - 1] == 1 ? nraw - 1 : -1;
   if (half >= 0) {
      before[raw_addr[half] / EXTENT] = allocator_dec_ref(al, raw_addr[half], raw_type[half]);
   }
   cache_flush(cc);
   rc_allocator_unmount(&ST.al);
   OKRC(rc_allocator_mount(&ST.al, &ST.al_cfg, (io_handle *)&ST.io, ST.hid, platform_get_module_id()), "rc_allocator_mount");
   for (uint64_t e = 0; e < NE; e++) {
      if (before[e] != allocator_get_refcount(al, e * EXTENT)) {
         pbt_fail("after unmount and mount, extent %lu has reference count %u instead of %u", e, allocator_get_refcount(al, e * EXTENT), before[e]);
      }
   }
   if (allocator_in_use(al) != used) {
      pbt_fail("after unmount and mount, %lu extents are in use instead of %lu", allocator_in_use(al), used);
   }
   if (allocator_get_capacity(al) != NE * EXTENT) {
      pbt_fail("capacity %lu", allocator_get_capacity(al));
   }
   if (half >= 0) {
      if (allocator_dec_ref(al, raw_addr[half], raw_type[half]) != AL_FREE || allocator_in_use(al) != used - 1) {
         pbt_fail("freeing an extent after a mount left it in use");
      }
      nraw--;
      PBT_COUNT(N_RFREE, 1);
   }
   free(before);
   super_check();
   PBT_COUNT(N_REMOUNT, 1);
}
/* ----------------------------------------------------------------- mini */
static void
stamp(mini_t *m, uint64_t addr, page_handle *p)
{
   uint64_t *w = (uint64_t *)p->data;
   for (int i = 0; i < PAGE / 8; i++) {
      w[i] = m->stamp ^ addr ^ i;
   }
}
static void
verify_page(mini_t *m, int i)
{
   page_handle *p = cache_get(cc, m->pg[i], TRUE, m->type);
   uint64_t    *w = (uint64_t *)p->data;
   for (int j = 0; j < PAGE / 8; j++) {
      if (w[j] != (m->stamp ^ m->pg[i] ^ j)) {
         pbt_fail("page %lu of a mini allocator lost its contents", m->pg[i]);
      }
   }
   cache_unget(cc, p);
   PBT_COUNT(N_VERIFY, 1);
   PBT_PROGRESS();
}
static int
room(uint64_t n)
{
   return allocator_in_use(al) + n + 4 < NE;
}
static uint64_t
one_page(mini_t *m, int b, uint32_t k)
{
   uint64 next = 1;
   uint64 a    = mini_alloc(&m->mini, b, m->keyed ? uni_key(&U, k) : NULL_KEY, &next);
   if (a % PAGE || a >= NE * EXTENT) {
      pbt_fail("mini allocator gave out address %lu", a);
   }
   int fresh = a % EXTENT == 0;
   /* consecutive pages of an extent, then the announced next extent */
   int last = -1;
   for (int i = m->npg - 1; i >= 0; i--) {
      if (m->pg[i] == a) {
         pbt_fail("page %lu was given out twice", a);
      }
      if (last < 0 && m->pgb[i] == b) {
         last = i;
      }
   }
   if (last < 0 ? !fresh : (fresh ? a != m->expect_next[b] : a != m->pg[last] + PAGE)) {
      pbt_fail("batch %d: page %lu follows page %lu, next extent was announced as %lu", b, a, last < 0 ? 0 : m->pg[last], m->expect_next[b]);
   }
   if (fresh) {
      owner_check(ext(a), "a mini allocator");
   }
   if (next % EXTENT || next == 0 || ext(next) == ext(a)) {
      pbt_fail("next extent announced as %lu for page %lu", next, a);
   }
   m->expect_next[b] = next;
   m->pg[m->npg]     = a;
   m->pgkey[m->npg]  = k;
   m->pgb[m->npg++]  = b;
   page_handle *p    = cache_alloc(cc, a, m->type);
   stamp(m, a, p);
   cache_unlock(cc, p);
   cache_unclaim(cc, p);
   cache_unget(cc, p);
   PBT_COUNT(N_PAGES, 1);
   PBT_PROGRESS();
   return a;
}
static void
mini_new(int keyed, int nb, int type, uint64_t seed)
{
   if (nM == MAXMINI || !room(2 * nb + 4)) {
      return;
   }
   mini_t *m  = calloc(1, sizeof *m);
   m->keyed   = keyed;
   m->nb      = nb;
   m->type    = type;
   m->stamp   = pbt_mix(seed);
   uint64 mh;
   OKRC(allocator_alloc(al, &mh, type), "allocator_alloc");
   m->meta_head = mh;
   uint64 first = mini_init(&m->mini, cc, &D.super, mh, 0, nb, type, keyed);
   m->expect_next[0] = first;
   m->refs           = 1;
   m->nref           = 1;
   m->lo[0]          = 0;
   m->hi[0]          = U.K + 1;
   M[nM++]           = m;
   /* as in a branch: the last batch (the root's) has a single extent */
   if (first != mini_alloc(&m->mini, 0, keyed ? uni_key(&U, 0) : NULL_KEY, NULL)) {
      pbt_fail("the first page of a mini allocator is not the one announced");
   }
   m->pg[0]    = first;
   m->npg      = 1;
   uint64 next = m->mini.next_extent[0];
   m->expect_next[0] = next;
   page_handle *p    = cache_alloc(cc, first, type);
   stamp(m, first, p);
   cache_unlock(cc, p);
   cache_unclaim(cc, p);
   cache_unget(cc, p);
   for (int b = 1; b < nb; b++) {
      m->expect_next[b] = m->mini.next_extent[b];
      one_page(m, b, 0);
   }
   PBT_COUNT(N_MINIS, 1);
}
static void
mini_pages(mini_t *m, int b, int n, uint32_t step)
{
   if (m->released) {
      return;
   }
   b %= m->nb;
   if (m->keyed && b == m->nb - 1 && m->nb > 1) {
      b = 0;
   }
   for (int i = 0; i < n && m->npg < MAXPG && room(3); i++) {
      if (m->keyed && m->nb == 1 && m->npg >= 32) {
         break; /* one batch only: it is the root's, one extent */
      }
      uint32_t k = m->lastkey[b] + step % 5;
      if (k >= U.K) {
         k = U.K - 1;
      }
      m->lastkey[b] = k;
      one_page(m, b, k);
   }
}
static void
mini_rel(mini_t *m)
{
   if (!m->released) {
      mini_release(&m->mini, m->keyed ? uni_key(&U, U.K - 1) : NULL_KEY);
      m->released = 1;
      PBT_COUNT(N_MULTIMETA, mini_num_extents(&m->mini) > 100);
   }
}
static void
mini_gone(int i)
{
   free(M[i]);
   memmove(M + i, M + i + 1, (nM - i - 1) * sizeof *M);
   nM--;
}
static void
udec(int i)
{
   mini_t *m = M[i];
   mini_rel(m);
   uint8 r = mini_unkeyed_dec_ref(cc, m->meta_head, m->type, FALSE);
   m->refs--;
   if (r != m->refs) {
      pbt_fail("dropping an unkeyed reference returned %u, %d remain", r, m->refs);
   }
   if (m->refs == 0) {
      for (int j = 0; j < m->npg; j++) {
         if (allocator_get_refcount(al, ext(m->pg[j]) * EXTENT) != AL_FREE) {
            pbt_fail("extent %lu is still allocated after the last reference went", ext(m->pg[j]));
         }
      }
      if (allocator_get_refcount(al, m->meta_head) != AL_FREE) {
         pbt_fail("metadata is still allocated after the last reference went");
      }
      mini_gone(i);
   }
}
/* pages whose key lies in a referenced range must be intact */
static void
verify_mini(mini_t *m, uint64_t seed, int every)
{
   for (int i = 0; i < m->npg; i++) {
      if (every > 1 && pbt_mix(seed + i) % every) {
         continue;
      }
      int need = !m->keyed;
      for (int r = 0; r < m->nref && !need; r++) {
         need = m->pgkey[i] + 1 >= m->lo[r] && m->pgkey[i] + 1 <= m->hi[r];
      }
      if (!need) {
         continue;
      }
      if (allocator_get_refcount(al, ext(m->pg[i]) * EXTENT) < AL_ONE_REF) {
         pbt_fail("the extent of page %lu is not referenced although its key is in a referenced range", m->pg[i]);
      }
      verify_page(m, i);
   }
}
static void
kinc(mini_t *m, uint32_t lo, uint32_t hi)
{
   mini_rel(m);
   /* a reference to a sub-range of one that is held */
   uint32_t r = lo % m->nref;
   uint32_t w = m->hi[r] - m->lo[r];
   lo         = m->lo[r] + lo % (w + 1);
   hi         = m->lo[r] + hi % (w + 1);
   if (hi < lo) {
      uint32_t x = lo;
      lo         = hi;
      hi         = x;
   }
   if (m->nref == MAXREF) {
      return;
   }
   mini_keyed_inc_ref(cc, &D.super, m->type, m->meta_head, bound(lo), bound(hi));
   m->lo[m->nref]   = lo;
   m->hi[m->nref++] = hi;
   PBT_COUNT(N_RANGEREF, 1);
}
static void
kdec(int i, uint32_t which)
{
   mini_t *m = M[i];
   mini_rel(m);
   which       = which % m->nref;
   uint32_t lo = m->lo[which], hi = m->hi[which];
   uint64   used = allocator_in_use(al);
   bool32   gone = mini_keyed_dec_ref(cc, &D.super, m->type, m->meta_head, bound(lo), bound(hi));
   m->lo[which]  = m->lo[m->nref - 1];
   m->hi[which]  = m->hi[m->nref - 1];
   m->nref--;
   PBT_COUNT(N_RANGEDROP, 1);
   if (!!gone != (m->nref == 0)) {
      pbt_fail("dropping the range [%u,%u] freed everything: %d; %d ranges are still held", lo, hi, gone, m->nref);
   }
   if (gone) {
      for (int j = 0; j < m->npg; j++) {
         if (!m->gone[j] && allocator_get_refcount(al, ext(m->pg[j]) * EXTENT) != AL_FREE) {
            pbt_fail("extent %lu is still allocated after the last range went", ext(m->pg[j]));
         }
      }
      mini_gone(i);
   } else {
      mini_note_freed(m);
      PBT_COUNT(N_PARTIAL, allocator_in_use(al) < used);
      verify_mini(m, lo, 4);
   }
}
static uint32_t
widest(mini_t *m)
{
   int b = 0;
   for (int i = 1; i < m->nref; i++) {
      if (m->hi[i] - m->lo[i] > m->hi[b] - m->lo[b]) {
         b = i;
      }
   }
   return b;
}
static void
kcount(mini_t *m, uint32_t lo, uint32_t hi)
{
   mini_rel(m);
   if (hi < lo) {
      uint32_t x = lo;
      lo         = hi;
      hi         = x;
   }
   /* extents that hold a page with a key in the range must be counted, ones
    * whose whole key interval lies outside must not */
   uint64_t must = 0, may = 0;
   for (int b = 0; b < m->nb; b++) {
      int64_t start = -1;
      for (int i = 0; i < m->npg;) {
         if (m->pgb[i] != b) {
            i++;
            continue;
         }
         uint64_t e = ext(m->pg[i]);
         start      = start < 0 ? 0 : m->pgkey[i] + 1;
         int in = 0, j = i;
         int64_t end = U.K + 1;
         for (; j < m->npg; j++) {
            if (m->pgb[j] != b) {
               continue;
            }
            if (ext(m->pg[j]) != e) {
               end = m->pgkey[j] + 1;
               break;
            }
            in |= m->pgkey[j] + 1 >= lo && m->pgkey[j] + 1 <= hi;
         }
         must += in;
         may += start <= (int64_t)hi && end >= (int64_t)lo;
         i = j;
      }
   }
   uint64_t n = mini_keyed_extent_count(cc, &D.super, m->type, m->meta_head, bound(lo), bound(hi));
   if (n < must || n > may) {
      pbt_fail("extent count for [%u,%u] is %lu; between %lu and %lu expected", lo, hi, n, must, may);
   }
}
static volatile int block_done;
static uint32_t     block_which;
static int          block_i;
static void *
dec_thread(void *x)
{
   OKRC(task_register_this_thread(ST.ts, 4096), "task_register_this_thread");
   mini_t *m = M[block_i];
   bool32  gone = mini_keyed_dec_ref(cc, &D.super, m->type, m->meta_head, bound(m->lo[block_which]), bound(m->hi[block_which]));
   __atomic_store_n(&block_done, 1 + !!gone, __ATOMIC_SEQ_CST);
   task_deregister_this_thread(ST.ts);
   return NULL;
}
/* while dec_ref is blocked, a dropped range stays readable */
static void
do_block(int i, uint32_t which)
{
   mini_t *m = M[i];
   if (!m->keyed) {
      return;
   }
   mini_rel(m);
   mini_block_dec_ref(cc, m->meta_head);
   block_i     = i;
   block_which = which % m->nref;
   block_done  = 0;
   pthread_t t;
   pthread_create(&t, NULL, dec_thread, NULL);
   usleep(500);
   verify_mini(m, which, 3);
   usleep(500);
   if (block_done) {
      pbt_fail("a blocked drop of a range completed");
   }
   verify_mini(m, which + 1, 3);
   mini_unblock_dec_ref(cc, m->meta_head);
   pthread_join(t, NULL);
   if ((block_done == 2) != (m->nref == 1)) {
      pbt_fail("dropping a range freed everything: %d, %d ranges still held", block_done == 2, m->nref - 1);
   }
   m->lo[block_which] = m->lo[m->nref - 1];
   m->hi[block_which] = m->hi[m->nref - 1];
   m->nref--;
   mini_note_freed(m);
   PBT_COUNT(N_BLOCKED, 1);
   if (m->nref == 0) {
      mini_gone(i);
   } else {
      verify_mini(m, which, 3);
   }
}
static void
common_up(const pbt_case *c)
{
   uni_init(&U, c->cfg[X_K], KS_MIXBE, c->cfg[X_CMP], c->cfg[X_MAXKEY], c->cfg[X_KSEED]);
   comp_data_config(&D, c->cfg[X_MAXKEY], c->cfg[X_CMP], 0);
   NE = c->cfg[X_EXTENTS];
   stack_up(&ST, pbt_scratch("db"), c->cfg[X_CACHE_MB] << 20, NE * EXTENT, 4096, c->cfg[X_STATS], 0);
   cc        = (cache *)&ST.cc;
   al        = (allocator *)&ST.al;
   base_used = allocator_in_use(al);
}
static void
run(const pbt_case *c)
{
   common_up(c);
   for (int i = 0; i < c->nops; i++) {
      const uint32_t *a = c->ops[i].a;
      PBT_PROGRESS();
      switch (c->ops[i].kind) {
         case OP_RALLOC:
            raw_alloc(a[0], PAGE_TYPE_FIRST + a[1] % (NUM_PAGE_TYPES - PAGE_TYPE_FIRST));
            break;
         case OP_RFREE:
            for (uint32_t j = 0; j < a[1] && nraw; j++) {
               raw_drop(pbt_mix(a[0] + j) % nraw);
            }
            break;
         case OP_RINC:
            if (nraw && raw_refs[a[0] % nraw] < 200) {
               int   x = a[0] % nraw;
               uint8 r = allocator_inc_ref(al, raw_addr[x]);
               raw_refs[x]++;
               if (r != raw_refs[x] + 1 || allocator_get_refcount(al, raw_addr[x]) != r) {
                  pbt_fail("taking a reference gave count %u, expected %u", r, raw_refs[x] + 1);
               }
            }
            break;
         case OP_SALLOC:
            for (uint32_t j = 0; j < a[1]; j++) {
               super_alloc(1 + pbt_mix(a[0] + j) % 100000);
            }
            break;
         case OP_SREM:
            if (nsuper) {
               int x = a[0] % nsuper;
               allocator_remove_super_addr(al, super_id[x]);
               uint64 y;
               if (SUCCESS(allocator_get_super_addr(al, super_id[x], &y))) {
                  pbt_fail("a removed superblock is still found");
               }
               super_id[x]   = super_id[nsuper - 1];
               super_addr[x] = super_addr[nsuper - 1];
               nsuper--;
            }
            break;
         case OP_SGET:
            super_check();
            break;
         case OP_REMOUNT:
            if (nsuper == 0) {
               super_alloc(77); /* the meta page is first written with a table */
            }
            remount();
            break;
         case OP_MNEW: {
            static const int types[] = {PAGE_TYPE_BRANCH, PAGE_TYPE_FILTER, PAGE_TYPE_LOG, PAGE_TYPE_TRUNK, PAGE_TYPE_MISC};
            mini_new(a[0] & 1, 1 + a[1] % MINI_MAX_BATCHES, types[a[2] % 5], a[3]);
            break;
         }
         case OP_MALLOC:
            if (nM) {
               mini_pages(M[a[0] % nM], a[1], a[2], a[3]);
            }
            break;
         case OP_MREL:
            if (nM) {
               mini_rel(M[a[0] % nM]);
            }
            break;
         case OP_UINC:
            if (nM && !M[a[0] % nM]->keyed && M[a[0] % nM]->refs < 200) {
               mini_t *m = M[a[0] % nM];
               uint8   r = mini_unkeyed_inc_ref(cc, m->meta_head);
               m->refs++;
               if (r != m->refs) {
                  pbt_fail("taking an unkeyed reference returned %u, %d are held", r, m->refs);
               }
            }
            break;
         case OP_UDEC:
            if (nM && !M[a[0] % nM]->keyed) {
               udec(a[0] % nM);
            }
            break;
         case OP_KINC:
            if (nM && M[a[0] % nM]->keyed) {
               for (uint32_t j = 0; j <= a[3] % 7; j++) {
                  kinc(M[a[0] % nM], pbt_mix(a[1] + 2 * j), pbt_mix(a[2] + 2 * j));
               }
            }
            break;
         case OP_KDEC:
            if (nM && M[a[0] % nM]->keyed) {
               kdec(a[0] % nM, a[2] & 3 ? widest(M[a[0] % nM]) : a[1]);
            }
            break;
         case OP_KCOUNT:
            if (nM && M[a[0] % nM]->keyed) {
               kcount(M[a[0] % nM], a[1] % (U.K + 2), a[2] % (U.K + 2));
            }
            break;
         case OP_BLOCK:
            if (nM) {
               do_block(a[0] % nM, a[1]);
            }
            break;
         case OP_VERIFY:
            if (a[1] & 1) {
               cache_flush(cc);
               cache_evict(cc, TRUE);
            }
            for (int j = 0; j < nM; j++) {
               verify_mini(M[j], a[0], 2);
            }
            break;
      }
      check_used(opnames[c->ops[i].kind]);
   }
   for (int j = 0; j < nM; j++) {
      verify_mini(M[j], 0, 1);
   }
   while (nM) {
      if (M[0]->keyed) {
         kdec(0, M[0]->nref / 2);
      } else {
         udec(0);
      }
      check_used("final drop");
   }
   while (nraw) {
      raw_drop(0);
   }
   check_used("end");
   super_check();
   cache_flush(cc);
   stack_down(&ST);
   pbt_res->nontrivial = pbt_res->count[N_PAGES] > 50 && pbt_res->count[N_RANGEREF] + pbt_res->count[N_RALLOC] > 5;
}
static void
gen(pbt_case *c, pbt_rng *r, int thorough)
{
   uint64_t *f   = c->cfg;
   f[X_EXTENTS]  = pbt_pct(r, 40) ? pbt_logrange(r, 16, 300) : pbt_logrange(r, 300, 3000);
   f[X_CACHE_MB] = pbt_range(r, 6, 16);
   f[X_K]        = pbt_logrange(r, 2, 2000);
   f[X_KSEED]    = pbt_u64(r) >> 8;
   f[X_MAXKEY]   = pbt_pct(r, 60) ? pbt_range(r, 24, 60) : pbt_range(r, 24, 500);
   f[X_CMP]      = pbt_pct(r, 70) ? 0 : pbt_range(r, 0, NUM_CMP - 1);
   f[X_STATS]    = pbt_pct(r, 15);
   int n         = pbt_logrange(r, 25, thorough ? 400 : 160);
   static const int w[]  = {6, 6, 3, 2, 1, 1, 2, 10, 26, 3, 4, 4, 22, 9, 8, 2, 4};
   for (int i = 0; i < n; i++) {
      int k = pbt_weighted(r, w, 17);
      switch (k) {
         case OP_RALLOC:
            pbt_add(c, k, pbt_pct(r, 12) ? 3000 : pbt_logrange(r, 1, 60), pbt_range(r, 0, 20), 0, 0, 0);
            break;
         case OP_RFREE:
            pbt_add(c, k, pbt_u64(r), pbt_pct(r, 15) ? 3000 : pbt_logrange(r, 1, 60), 0, 0, 0);
            break;
         case OP_SALLOC:
            pbt_add(c, k, pbt_u64(r), pbt_pct(r, 10) ? 32 : pbt_range(r, 1, 4), 0, 0, 0);
            break;
         case OP_MNEW:
            pbt_add(c, k, pbt_pct(r, 65), pbt_range(r, 0, 20), pbt_range(r, 0, 9), pbt_u64(r), 0);
            break;
         case OP_MALLOC:
            pbt_add(c, k, pbt_u64(r) % 64, pbt_range(r, 0, 7), pbt_logrange(r, 8, 3000), pbt_range(r, 0, 9), 0);
            break;
         default:
            pbt_add(c, k, pbt_u64(r) % 100000, pbt_u64(r) % 100000, pbt_u64(r) % 100000, pbt_u64(r) % 100, 0);
      }
   }
}
/* ------------------------------------------------------------- threads */
static uint8_t *owner;      /* per extent */
static uint8_t *page_owner; /* per page of the shared mini allocator */
static mini_allocator shared;
static pthread_barrier_t bar;
typedef struct {
   const pbt_case *c;
   int             t, T;
} targ;
static void *
mt_thread(void *x)
{
   targ *A = x;
   OKRC(task_register_this_thread(ST.ts, 4096), "task_register_this_thread");
   uint64_t held[512];
   int      n = 0;
   pthread_barrier_wait(&bar);
   for (int i = 0; i < A->c->nops; i++) {
      const pbt_op *o = &A->c->ops[i];
      if ((int)(o->a[4] % A->T) != A->t) {
         continue;
      }
      PBT_PROGRESS();
      switch (o->kind) {
         case OP_WORK:
            for (uint32_t j = 0; j < o->a[1]; j++) {
               uint64_t h = pbt_mix(o->a[0] * 1000003ull + j);
               if (n < 512 && h % 5 < 3 && (NE < 1000 || allocator_in_use(al) + 400 < NE)) {
                  uint64          a;
                  platform_status rc = allocator_alloc(al, &a, PAGE_TYPE_MISC);
                  if (SUCCESS(rc)) {
                     PBT_COUNT(N_MTALLOC, 1);
                     uint8_t z = 0;
                     if (!__atomic_compare_exchange_n(&owner[a / EXTENT], &z, A->t + 1, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST)) {
                        pbt_fail("extent %lu was given to two threads", a / EXTENT);
                     }
                     held[n++] = a;
                     for (int q = 0; q < (int)(h >> 20) % 4; q++) {
                        allocator_inc_ref(al, a);
                        allocator_dec_ref(al, a, PAGE_TYPE_MISC);
                     }
                  } else {
                     PBT_COUNT(N_NOSPACE, 1);
                  }
               } else if (n) {
                  int      y = (h >> 8) % n;
                  uint64_t a = held[y];
                  held[y]    = held[--n];
                  uint8_t z  = A->t + 1;
                  if (!__atomic_compare_exchange_n(&owner[a / EXTENT], &z, 0, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST)) {
                     pbt_fail("extent %lu changed hands while allocated", a / EXTENT);
                  }
                  if (allocator_dec_ref(al, a, PAGE_TYPE_MISC) != AL_NO_REFS || allocator_dec_ref(al, a, PAGE_TYPE_MISC) != AL_FREE) {
                     pbt_fail("freeing extent %lu: wrong count", a / EXTENT);
                  }
                  PBT_COUNT(N_RFREE, 1);
               }
            }
            break;
         case OP_MALLOC:
            for (uint32_t j = 0; j < o->a[1]; j++) {
               if (NE < 1000 || allocator_in_use(al) + 300 > NE) {
                  break;
               }
               uint64 a = mini_alloc(&shared, o->a[2] % shared.num_batches, NULL_KEY, NULL);
               PBT_COUNT(N_PAGES, 1);
               uint8_t z = 0;
               if (!__atomic_compare_exchange_n(&page_owner[a / PAGE], &z, A->t + 1, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST)) {
                  pbt_fail("page %lu of a shared mini allocator was given to two threads", a);
               }
               page_handle *p = cache_alloc(cc, a, PAGE_TYPE_MISC);
               for (int q = 0; q < PAGE / 8; q++) {
                  ((uint64_t *)p->data)[q] = a ^ q;
               }
               cache_unlock(cc, p);
               cache_unclaim(cc, p);
               cache_unget(cc, p);
            }
            break;
      }
   }
   pthread_barrier_wait(&bar);
   while (n) {
      uint64_t a = held[--n];
      if (allocator_dec_ref(al, a, PAGE_TYPE_MISC) != AL_NO_REFS || allocator_dec_ref(al, a, PAGE_TYPE_MISC) != AL_FREE) {
         pbt_fail("freeing extent %lu: wrong count", a / EXTENT);
      }
   }
   task_deregister_this_thread(ST.ts);
   return NULL;
}
static void
run_mt(const pbt_case *c)
{
   common_up(c);
   owner      = calloc(NE, 1);
   page_owner = calloc(NE, 32);
   uint64 mh;
   OKRC(allocator_alloc(al, &mh, PAGE_TYPE_MISC), "allocator_alloc");
   mini_init(&shared, cc, &D.super, mh, 0, 3, PAGE_TYPE_MISC, FALSE);
   int T = c->cfg[X_THREADS];
   pthread_t th[16];
   targ      A[16];
   pthread_barrier_init(&bar, NULL, T);
   for (int t = 0; t < T; t++) {
      A[t] = (targ){c, t, T};
      pthread_create(&th[t], NULL, mt_thread, &A[t]);
   }
   for (int t = 0; t < T; t++) {
      pthread_join(th[t], NULL);
   }
   mini_release(&shared, NULL_KEY);
   if (allocator_in_use(al) != base_used + mini_num_extents(&shared) - 3) {
      pbt_fail("all raw extents were freed, %lu in use, expected %lu", allocator_in_use(al), base_used + mini_num_extents(&shared) - 3);
   }
   uint64_t np = 0;
   for (uint64_t p = 0; p < NE * 32; p++) {
      if (page_owner[p]) {
         page_handle *h = cache_get(cc, p * PAGE, TRUE, PAGE_TYPE_MISC);
         for (int q = 0; q < PAGE / 8; q++) {
            if (((uint64_t *)h->data)[q] != (p * PAGE ^ q)) {
               pbt_fail("page %lu lost its contents", p);
            }
         }
         cache_unget(cc, h);
         np++;
         PBT_PROGRESS();
      }
   }
   if (mini_unkeyed_dec_ref(cc, mh, PAGE_TYPE_MISC, FALSE) != 0) {
      pbt_fail("last unkeyed reference did not free");
   }
   if (allocator_in_use(al) != base_used) {
      pbt_fail("everything was freed, but %lu instead of %lu extents are in use", allocator_in_use(al), base_used);
   }
   for (uint64_t e = base_used; e < NE; e++) {
      if (allocator_get_refcount(al, e * EXTENT) != AL_FREE) {
         pbt_fail("extent %lu is still referenced at the end", e);
      }
   }
   cache_flush(cc);
   stack_down(&ST);
   pbt_res->nontrivial = pbt_res->count[N_MTALLOC] > 200;
}
static void
gen_mt(pbt_case *c, pbt_rng *r, int thorough)
{
   uint64_t *f   = c->cfg;
   f[X_EXTENTS]  = pbt_pct(r, 50) ? pbt_logrange(r, 40, 200) : pbt_logrange(r, 1000, 4000);
   f[X_CACHE_MB] = pbt_range(r, 6, 16);
   f[X_K]        = 10;
   f[X_KSEED]    = 5;
   f[X_MAXKEY]   = 24;
   f[X_STATS]    = pbt_pct(r, 15);
   f[X_THREADS]  = pbt_range(r, 2, 8);
   int n         = pbt_range(r, 8, 40);
   for (int i = 0; i < n; i++) {
      if (pbt_pct(r, 65)) {
         pbt_add(c, OP_WORK, pbt_u64(r), pbt_logrange(r, 20, 4000), 0, 0, pbt_u64(r) % 64);
      } else {
         pbt_add(c, OP_MALLOC, 0, pbt_logrange(r, 10, 400), pbt_u64(r) % 3, 0, pbt_u64(r) % 64);
      }
   }
}
static int
always(const pbt_case *c)
{
   return 1;
}
static const pbt_prop p_alloc = {.id = "alloc", .desc = "extent and mini allocators", .gen = gen, .run = run, .opnames = opnames, .cfgnames = cfgnames, .countnames = countnames, .rule = "over 50 pages were handed out and range or raw references were taken"};
static const pbt_prop p_alloc_mt = {.id = "alloc_mt", .desc = "allocators under threads", .gen = gen_mt, .run = run_mt, .nondet = 1, .racy = always, .opnames = opnames, .cfgnames = cfgnames, .countnames = countnames, .rule = "over 200 extents were allocated by racing threads"};
const pbt_prop *pbt_props[] = {&p_alloc, &p_alloc_mt, NULL};
int
main(int argc, char **argv)
{
   return pbt_main(argc, argv);
}
