/*
 * c_cache.c -- the page cache against a model of page versions.
 *
 * Every page's contents are a function of (address, incarnation of its extent,
 * version), so any stale, torn, foreign or lost page is recognised from its
 * bytes alone.  Suite "cache" is sequential and also looks at the device
 * behind the cache; suite "cache_mt" runs threads over shared and private
 * pages.
 */
#define _GNU_SOURCE
#include "comp.h"
#include "slowio.h"
#include <pthread.h>
#include <sched.h>

enum { X_CPAGES, X_EXTENTS, X_STATS, X_THREADS, X_DELAY, X_IOSEED };
static const char *cfgnames[] = {"cache_pages", "extents", "stats", "threads", "delay", "ioseed", NULL};
enum { OP_ALLOC, OP_WRITE, OP_READ, OP_HOLD, OP_RELEASE, OP_PIN, OP_UNPIN, OP_SYNC, OP_ASYNCSYNC, OP_ESYNC, OP_FLUSH, OP_EVICT, OP_PREFETCH, OP_ASYNC, OP_DISCARD, OP_LOSE, OP_VERIFY, OP_WORK, OP_PRIVATE };
static const char *opnames[] = {"ALLOC", "WRITE", "READ", "HOLD", "RELEASE", "PIN", "UNPIN", "SYNC", "ASYNCSYNC", "ESYNC", "FLUSH", "EVICT", "PREFETCH", "ASYNC", "DISCARD", "LOSE", "VERIFY", "WORK", "PRIVATE", NULL};
enum { N_ALLOC, N_WRITE, N_READ, N_MISS, N_HELD, N_PINNED, N_SYNC, N_ESYNC, N_FLUSH, N_PREFETCH, N_ASYNC, N_ASYNCIO, N_DISCARD, N_LOSE, N_OLDER, N_RAW, N_CLAIMBUSY, N_MTREAD, N_MTWRITE, N_MTPRIV, N_DELAYED, N_REORDER };
static const char *countnames[] = {"pages_allocated", "pages_written", "pages_read", "reads_from_the_device", "references_held_over_other_operations", "pages_pinned", "page_syncs", "extent_syncs", "flushes", "prefetches", "async_gets", "async_gets_with_io", "extents_discarded", "cache_losses", "pages_that_lost_unsynced_versions", "device_pages_compared", "claims_refused", "threaded_reads", "threaded_writes", "threaded_private_pages", "polls_with_io_still_in_flight", "completions_out_of_order", NULL};

static stack      ST;
static cache     *cc;
static allocator *al;

typedef struct {
   uint32_t ver;     /* latest version, 0: page not allocated */
   uint32_t durable; /* version known to be on the device at least; 0: none */
} pg_t;
typedef struct {
   uint64_t addr;
   uint32_t inc; /* incarnation */
   int      closed, live;
   page_type type;
   pg_t     pg[32];
} ext_t;
#define MAXE 600
static ext_t    E[MAXE];
static int      nE;
static uint32_t incarnation;

static inline uint64_t
word(uint64_t addr, uint32_t inc, uint32_t ver, int i)
{
   return ((addr + i) * 0x9E3779B97F4A7C15ull) ^ (((uint64_t)inc << 32 | ver) * 0xC2B2AE3D27D4EB4Full);
}
static void
fill(char *d, uint64_t addr, uint32_t inc, uint32_t ver)
{
   uint64_t *w = (uint64_t *)d;
   w[0]        = (uint64_t)inc << 32 | ver;
   for (int i = 1; i < PAGE / 8; i++) {
      w[i] = word(addr, inc, ver, i);
   }
}
/* version held by the bytes, or -1 when they are no version of this page */
static int64_t
version_of(const char *d, uint64_t addr, uint32_t inc)
{
   const uint64_t *w = (const uint64_t *)d;
   if (w[0] >> 32 != inc) {
      return -1;
   }
   uint32_t ver = w[0];
   for (int i = 1; i < PAGE / 8; i++) {
      if (w[i] != word(addr, inc, ver, i)) {
         return -1;
      }
   }
   return ver;
}
static void
must_be(const char *d, ext_t *e, int i, const char *when)
{
   uint64_t a = e->addr + (uint64_t)i * PAGE;
   int64_t  v = version_of(d, a, e->inc);
   if (v != e->pg[i].ver) {
      pbt_fail("%s: page %lu holds %s version %ld, expected %u (word 0 = %lx, incarnation %u)", when, a, v < 0 ? "foreign or torn contents, not" : "", v, e->pg[i].ver, *(uint64_t *)d, e->inc);
   }
}
static int fd_raw = -1;
static int64_t
raw_version(ext_t *e, int i)
{
   char     b[PAGE];
   uint64_t a = e->addr + (uint64_t)i * PAGE;
   PBT_COUNT(N_RAW, 1);
   if (pread(fd_raw, b, PAGE, a) != PAGE) {
      return -1;
   }
   return version_of(b, a, e->inc);
}
static void
must_be_durable(ext_t *e, int i, const char *when)
{
   int64_t v = raw_version(e, i);
   if (v != e->pg[i].ver) {
      pbt_fail("%s: the device holds version %ld of page %lu, expected %u", when, v, e->addr + (uint64_t)i * PAGE, e->pg[i].ver);
   }
   e->pg[i].durable = e->pg[i].ver;
}

/* references and pins held over other operations */
#define MAXHOLD 64
typedef struct {
   int          e, i;
   page_handle *p;
} hold_t;
static hold_t held[MAXHOLD], pins[MAXHOLD];
static int    nheld, npins;

static int
is_in(hold_t *h, int n, int e, int i)
{
   for (int x = 0; x < n; x++) {
      if (h[x].e == e && (i < 0 || h[x].i == i)) {
         return x + 1;
      }
   }
   return 0;
}
static void
release(int x)
{
   must_be(held[x].p->data, &E[held[x].e], held[x].i, "a reference held over other operations");
   cache_unget(cc, held[x].p);
   held[x] = held[--nheld];
}
static void
same_handle(int e, int i, page_handle *p)
{
   int x = is_in(held, nheld, e, i);
   if (x && held[x - 1].p != p) {
      pbt_fail("page %lu moved although a reference was held", E[e].addr + (uint64_t)i * PAGE);
   }
   x = is_in(pins, npins, e, i);
   if (x && pins[x - 1].p != p) {
      pbt_fail("page %lu moved although it was pinned", E[e].addr + (uint64_t)i * PAGE);
   }
}
static void
unpin(int x)
{
   page_handle *p = cache_get(cc, E[pins[x].e].addr + (uint64_t)pins[x].i * PAGE, TRUE, E[pins[x].e].type);
   if (p != pins[x].p) {
      pbt_fail("page %lu moved although it was pinned", E[pins[x].e].addr + (uint64_t)pins[x].i * PAGE);
   }
   must_be(p->data, &E[pins[x].e], pins[x].i, "a pinned page");
   cache_unpin(cc, p);
   cache_unget(cc, p);
   pins[x] = pins[--npins];
}
/* an allocated page, picked by a number; returns 0 if there is none */
static int
pick(uint32_t a, uint32_t b, int *pe, int *pi)
{
   for (int x = 0; x < nE; x++) {
      int e = (a + x) % nE;
      if (!E[e].live) {
         continue;
      }
      for (int y = 0; y < 32; y++) {
         int i = (b + y) % 32;
         if (E[e].pg[i].ver) {
            *pe = e;
            *pi = i;
            return 1;
         }
      }
   }
   return 0;
}
static page_handle *
claim(uint64_t addr, page_type type)
{
   page_handle *p = cache_get(cc, addr, TRUE, type);
   if (p->disk_addr != addr) {
      pbt_fail("cache_get of %lu returned page %lu", addr, p->disk_addr);
   }
   if (!cache_try_claim(cc, p)) {
      pbt_fail("cannot claim page %lu, which nobody else uses", addr);
   }
   cache_lock(cc, p);
   return p;
}
static void
do_alloc(uint32_t a, uint32_t n)
{
   int e = -1;
   if (nE && a % 3) {
      e = a / 3 % nE;
      if (!E[e].live || E[e].closed) {
         e = -1;
      }
   }
   if (e < 0) {
      for (e = 0; e < nE && E[e].live; e++) {
      }
      if (e == MAXE) {
         return;
      }
      uint64 ad;
      if (!SUCCESS(allocator_alloc(al, &ad, PAGE_TYPE_BRANCH))) {
         return;
      }
      if (e == nE) {
         nE++;
      }
      E[e] = (ext_t){.addr = ad, .inc = ++incarnation, .live = 1, .type = PAGE_TYPE_BRANCH};
   }
   for (int i = 0; i < 32 && n; i++) {
      if (E[e].pg[i].ver) {
         continue;
      }
      uint64_t     ad = E[e].addr + (uint64_t)i * PAGE;
      page_handle *p  = cache_alloc(cc, ad, E[e].type);
      if (p->disk_addr != ad) {
         pbt_fail("cache_alloc of %lu returned page %lu", ad, p->disk_addr);
      }
      E[e].pg[i] = (pg_t){.ver = 1};
      fill(p->data, ad, E[e].inc, 1);
      cache_unlock(cc, p);
      cache_unclaim(cc, p);
      cache_unget(cc, p);
      n--;
      PBT_COUNT(N_ALLOC, 1);
   }
}
static void
do_write(int e, int i)
{
   if (is_in(held, nheld, e, i)) {
      return;
   }
   uint64_t     ad = E[e].addr + (uint64_t)i * PAGE;
   page_handle *p  = claim(ad, E[e].type);
   same_handle(e, i, p);
   must_be(p->data, &E[e], i, "before a write");
   cache_mark_dirty(cc, p);
   fill(p->data, ad, E[e].inc, ++E[e].pg[i].ver);
   cache_unlock(cc, p);
   cache_unclaim(cc, p);
   cache_unget(cc, p);
   PBT_COUNT(N_WRITE, 1);
}
static void
do_read(int e, int i, int nonblocking)
{
   uint64_t     ad = E[e].addr + (uint64_t)i * PAGE;
   page_handle *p  = cache_get(cc, ad, !nonblocking, E[e].type);
   if (p == NULL) {
      pbt_fail("a non-blocking get of page %lu, which nobody has locked, was refused", ad);
   }
   same_handle(e, i, p);
   must_be(p->data, &E[e], i, "read");
   cache_unget(cc, p);
   PBT_COUNT(N_READ, 1);
}
typedef struct {
   cache_async_ctxt ctxt;
   volatile int     done;
   int              e, i, started;
} areq;
static void
async_cb(cache_async_ctxt *x)
{
   ((areq *)x->cbdata)->done = 1;
}
static void
do_async(uint32_t a, uint32_t b, int n)
{
   areq q[24];
   int  m = 0;
   for (int k = 0; k < n && k < 24; k++) {
      areq *r = &q[m];
      if (!pick(a + k * (b % 7), b + k, &r->e, &r->i)) {
         return;
      }
      r->done = 0;
      cache_ctxt_init(cc, async_cb, r, &r->ctxt);
      cache_async_result res;
      for (int tries = 0;; tries++) {
         res = cache_get_async(cc, E[r->e].addr + (uint64_t)r->i * PAGE, E[r->e].type, &r->ctxt);
         if (res == async_success || res == async_io_started) {
            break;
         }
         cache_cleanup(cc);
         if (tries > 2000000) {
            pbt_fail("cache_get_async never got page %lu", E[r->e].addr + (uint64_t)r->i * PAGE);
         }
      }
      r->started = res == async_io_started;
      PBT_COUNT(N_ASYNC, 1);
      PBT_COUNT(N_ASYNCIO, r->started);
      m++;
   }
   for (int k = 0; k < m; k++) {
      areq *r = &q[k];
      if (r->started) {
         for (int tries = 0; !r->done; tries++) {
            cache_cleanup(cc);
            if (tries > 50000000) {
               pbt_fail("an asynchronous get was never completed");
            }
         }
         OKRC(r->ctxt.status, "asynchronous get");
         cache_async_done(cc, E[r->e].type, &r->ctxt);
      } else if (r->done) {
         pbt_fail("callback was called for an asynchronous get that had succeeded at once");
      }
      if (r->ctxt.page == NULL) {
         pbt_fail("an asynchronous get returned no page");
      }
      same_handle(r->e, r->i, r->ctxt.page);
      must_be(r->ctxt.page->data, &E[r->e], r->i, "asynchronous get");
   }
   for (int k = 0; k < m; k++) {
      cache_unget(cc, q[k].ctxt.page);
   }
}
static void
all_durable(const char *when)
{
   for (int e = 0; e < nE; e++) {
      for (int i = 0; E[e].live && i < 32; i++) {
         if (E[e].pg[i].ver) {
            must_be_durable(&E[e], i, when);
         }
      }
   }
}
static void
discard(int e)
{
   for (int x = nheld - 1; x >= 0; x--) {
      if (held[x].e == e) {
         release(x);
      }
   }
   for (int x = npins - 1; x >= 0; x--) {
      if (pins[x].e == e) {
         pins[x] = pins[--npins]; /* discarding drops pins */
      }
   }
   if (allocator_dec_ref(al, E[e].addr, E[e].type) != AL_NO_REFS) {
      pbt_fail("dropping the last reference of an extent");
   }
   cache_extent_discard(cc, E[e].addr, E[e].type);
   if (allocator_dec_ref(al, E[e].addr, E[e].type) != AL_FREE) {
      pbt_fail("freeing an extent");
   }
   E[e].live = 0;
   PBT_COUNT(N_DISCARD, 1);
}
static void
lose_cache(void)
{
   while (nheld) {
      release(nheld - 1);
   }
   npins = 0;
   io_wait_all((io_handle *)&ST.io);
   clockcache_deinit(&ST.cc);
   OKRC(clockcache_init(&ST.cc, &ST.cc_cfg, (io_handle *)&ST.io, al, "pbt", ST.hid, platform_get_module_id()), "clockcache_init");
   for (int e = 0; e < nE; e++) {
      for (int i = 0; E[e].live && i < 32; i++) {
         pg_t *p = &E[e].pg[i];
         if (!p->ver) {
            continue;
         }
         int64_t v = raw_version(&E[e], i);
         if (p->durable && (v < p->durable || v > p->ver)) {
            pbt_fail("after losing the cache the device holds version %ld of page %lu; version %u had been written back, %u is the latest", v, E[e].addr + (uint64_t)i * PAGE, p->durable, p->ver);
         }
         if (!p->durable && (v <= 0 || v > p->ver)) {
            *p = (pg_t){0}; /* never reached the device: gone */
            PBT_COUNT(N_OLDER, 1);
            continue;
         }
         if (v < p->ver) {
            PBT_COUNT(N_OLDER, 1);
         }
         p->ver = p->durable = v;
      }
   }
   PBT_COUNT(N_LOSE, 1);
}
static void
common_up(const pbt_case *c)
{
   const uint64_t *f    = c->cfg;
   uint64_t        ne   = f[X_EXTENTS];
   stack_up(&ST, pbt_scratch("dev"), f[X_CPAGES] * PAGE, ne * EXTENT, 65536, f[X_STATS], 0);
   cc = (cache *)&ST.cc;
   al = (allocator *)&ST.al;
   if (truncate(pbt_scratch("dev"), ne * EXTENT) != 0) {
      pbt_fail("truncate");
   }
   slowio_set(f[X_DELAY], f[X_IOSEED]);
   fd_raw = open(pbt_scratch("dev"), O_RDONLY);
}
static void
run(const pbt_case *c)
{
   common_up(c);
   int maxhold = c->cfg[X_CPAGES] / 16;
   if (maxhold > MAXHOLD) {
      maxhold = MAXHOLD;
   }
   for (int k = 0; k < c->nops; k++) {
      const pbt_op *o = &c->ops[k];
      int           e, i;
      PBT_PROGRESS();
      if (o->kind != OP_ALLOC && !pick(o->a[0], o->a[1], &e, &i)) {
         continue;
      }
      switch (o->kind) {
         case OP_ALLOC:
            do_alloc(o->a[0], 1 + o->a[1] % 32);
            break;
         case OP_WRITE:
            for (uint32_t x = 0; x < 1 + o->a[2] % 200; x++) {
               if (pick(o->a[0] + x * (o->a[3] % 5), o->a[1] + x, &e, &i)) {
                  do_write(e, i);
               }
            }
            break;
         case OP_READ:
            for (uint32_t x = 0; x < 1 + o->a[2] % 400; x++) {
               if (pick(o->a[0] + x * (o->a[3] % 5), o->a[1] + x, &e, &i)) {
                  do_read(e, i, o->a[3] / 5 % 2);
               }
            }
            break;
         case OP_HOLD:
            if (nheld < maxhold) {
               page_handle *p = cache_get(cc, E[e].addr + (uint64_t)i * PAGE, TRUE, E[e].type);
               same_handle(e, i, p);
               held[nheld++] = (hold_t){e, i, p};
               must_be(p->data, &E[e], i, "hold");
               PBT_COUNT(N_HELD, 1);
            }
            break;
         case OP_RELEASE:
            if (nheld) {
               release(o->a[2] % nheld);
            }
            break;
         case OP_PIN:
            if (npins < maxhold && !is_in(held, nheld, e, i) && !is_in(pins, npins, e, i)) {
               page_handle *p = claim(E[e].addr + (uint64_t)i * PAGE, E[e].type);
               cache_pin(cc, p);
               cache_unlock(cc, p);
               cache_unclaim(cc, p);
               cache_unget(cc, p);
               pins[npins++] = (hold_t){e, i, p};
               PBT_COUNT(N_PINNED, 1);
            }
            break;
         case OP_UNPIN:
            if (npins) {
               unpin(o->a[2] % npins);
            }
            break;
         case OP_SYNC:
         case OP_ASYNCSYNC:
         {
            int n = o->kind == OP_SYNC ? 1 : 1 + o->a[2] % 20, m = 0;
            int es[20], is[20];
            for (int x = 0; x < n; x++) {
               if (!pick(o->a[0] + x * (o->a[3] % 5), o->a[1] + x, &e, &i)) {
                  continue;
               }
               if (o->a[3] % 3 == 0) {
                  do_write(e, i);
               }
               page_handle *p = cache_get(cc, E[e].addr + (uint64_t)i * PAGE, TRUE, E[e].type);
               cache_page_sync(cc, p, o->kind == OP_SYNC, E[e].type);
               if (o->kind == OP_SYNC) {
                  must_be_durable(&E[e], i, "after a blocking page sync");
               }
               must_be(p->data, &E[e], i, "after a page sync");
               cache_unget(cc, p);
               es[m]   = e;
               is[m++] = i;
            }
            PBT_COUNT(N_SYNC, m);
            if (o->kind == OP_ASYNCSYNC) {
               io_wait_all((io_handle *)&ST.io);
               while (m--) {
                  must_be_durable(&E[es[m]], is[m], "after page syncs completed");
               }
            }
            break;
         }
         case OP_ESYNC:
         {
            volatile uint64 out = 0;
            cache_extent_sync(cc, E[e].addr, (uint64 *)&out);
            if (o->a[2] % 3 == 0) {
               int e2 = (e + 1) % nE;
               if (E[e2].live) {
                  cache_extent_sync(cc, E[e2].addr, (uint64 *)&out);
               }
            }
            for (int tries = 0; out; tries++) {
               cache_cleanup(cc);
               if (tries > 20000000) {
                  pbt_fail("extent sync: %lu pages stay outstanding", out);
               }
            }
            io_wait_all((io_handle *)&ST.io);
            if (out) {
               pbt_fail("extent sync: %lu pages outstanding after the end", out);
            }
            for (int x = 0; x < 32; x++) {
               if (E[e].pg[x].ver) {
                  must_be_durable(&E[e], x, "after an extent sync");
               }
            }
            PBT_COUNT(N_ESYNC, 1);
            break;
         }
         case OP_FLUSH:
            cache_flush(cc);
            all_durable("after a flush");
            if (cache_count_dirty(cc) != 0) {
               pbt_fail("%u pages are dirty after a flush", cache_count_dirty(cc));
            }
            PBT_COUNT(N_FLUSH, 1);
            break;
         case OP_EVICT:
            if (o->a[2] % 2) {
               cache_flush(cc);
            }
            cache_evict(cc, TRUE);
            break;
         case OP_PREFETCH:
            E[e].closed = 1;
            cache_prefetch(cc, E[e].addr, E[e].type);
            PBT_COUNT(N_PREFETCH, 1);
            if (o->a[2] % 3 == 0) {
               do_read(e, i, 0);
            } else if (o->a[2] % 3 == 1) {
               do_async(o->a[0], o->a[1], 5);
            }
            break;
         case OP_ASYNC:
            do_async(o->a[0], o->a[1], 1 + o->a[2] % 24);
            break;
         case OP_DISCARD:
            discard(e);
            break;
         case OP_LOSE:
            lose_cache();
            break;
         case OP_VERIFY:
            for (int x = 0; x < nE; x++) {
               for (int y = 0; E[x].live && y < 32; y++) {
                  if (E[x].pg[y].ver) {
                     do_read(x, y, 0);
                  }
               }
               PBT_PROGRESS();
            }
            break;
      }
   }
   while (nheld) {
      release(nheld - 1);
   }
   while (npins) {
      unpin(npins - 1);
   }
   for (int pass = 0; pass < 2; pass++) {
      for (int x = 0; x < nE; x++) {
         for (int y = 0; E[x].live && y < 32; y++) {
            if (E[x].pg[y].ver) {
               do_read(x, y, 0);
            }
         }
         PBT_PROGRESS();
      }
      cache_flush(cc);
      all_durable("at the end");
      cache_evict(cc, FALSE);
      /* an evicted page is read from the device again */
      int fd = open(pbt_scratch("dev"), O_RDWR);
      for (int x = 0; x < nE; x++) {
         for (int y = 0; E[x].live && y < 32; y++) {
            if (E[x].pg[y].ver) {
               char     b[PAGE];
               uint64_t a = E[x].addr + (uint64_t)y * PAGE;
               fill(b, a, E[x].inc, ++E[x].pg[y].ver);
               if (pwrite(fd, b, PAGE, a) != PAGE) {
                  pbt_fail("pwrite");
               }
            }
         }
      }
      close(fd);
   }
   pbt_res->nontrivial = pbt_res->count[N_WRITE] > 50 && pbt_res->count[N_ALLOC] > c->cfg[X_CPAGES];
   PBT_COUNT(N_DELAYED, slowio.delayed);
   PBT_COUNT(N_REORDER, slowio.reordered);
   stack_down(&ST);
}
static void
gen(pbt_case *c, pbt_rng *r, int thorough)
{
   uint64_t *f  = c->cfg;
   f[X_CPAGES]  = 64 * pbt_range(r, 3, pbt_pct(r, 80) ? 16 : 40);
   uint64_t nx  = pbt_range(r, 4, f[X_CPAGES] / 32 * 3);
   f[X_EXTENTS] = nx + 8;
   f[X_STATS]   = pbt_pct(r, 25);
   f[X_DELAY]   = pbt_pct(r, 30) ? 0 : pbt_range(r, 30, 98);
   f[X_IOSEED]  = pbt_u64(r) % 1000000;
   static const int base[17] = {30, 25, 20, 8, 6, 4, 3, 8, 6, 3, 2, 4, 6, 6, 5, 1, 1};
   int w[17];
   for (int i = 0; i < 17; i++) {
      w[i] = i < 3 || pbt_pct(r, 75) ? base[i] : 0;
   }
   int pre = pbt_range(r, 2, nx);
   for (int i = 0; i < pre; i++) {
      pbt_add(c, OP_ALLOC, 3 * i, pbt_pct(r, 80) ? 31 : pbt_range(r, 0, 31), 0, 0, 0);
   }
   int n = pbt_range(r, 20, thorough ? 400 : 160);
   for (int i = 0; i < n; i++) {
      pbt_add(c, pbt_weighted(r, w, 17), pbt_u64(r) % 100000, pbt_u64(r) % 100000, pbt_logrange(r, 1, 1000), pbt_u64(r) % 1000, 0);
   }
}
/* ------------------------------------------------------------- threads */
#define MAXSH 6144
static struct {
   uint32_t committed; /* version, changed only under the page's write lock */
   int32_t  readers;   /* threads that are between get and unget */
   int32_t  owner;     /* thread that holds the claim */
   int32_t  writing;
} sh[MAXSH];
static int      nsh;
static uint64_t sh_ext[MAXSH / 32];
static pthread_barrier_t bar;
#define LD(x) __atomic_load_n(&(x), __ATOMIC_SEQ_CST)
static inline uint64_t
sh_addr(int s)
{
   return sh_ext[s / 32] + (uint64_t)(s % 32) * PAGE;
}
static void
sh_check(int s, page_handle *p, uint32_t before, const char *what)
{
   if (p->disk_addr != sh_addr(s)) {
      pbt_fail("%s: asked for page %lu, got %lu", what, sh_addr(s), p->disk_addr);
   }
   if (LD(sh[s].writing)) {
      pbt_fail("%s: a reference to a page was given while a writer had it locked", what);
   }
   uint32_t now = LD(sh[s].committed);
   int64_t  v   = version_of(p->data, sh_addr(s), 1);
   if (now < before || v != now) {
      pbt_fail("%s: page %lu holds version %ld, %u is committed (was %u before)", what, sh_addr(s), v, now, before);
   }
}
typedef struct {
   const pbt_case *c;
   int             t, T;
} targ;
static void
mt_read(int s, int spin)
{
   uint32_t     before = LD(sh[s].committed);
   page_handle *p      = cache_get(cc, sh_addr(s), TRUE, PAGE_TYPE_BRANCH);
   __atomic_fetch_add(&sh[s].readers, 1, __ATOMIC_SEQ_CST);
   sh_check(s, p, before, "shared read");
   if (spin) {
      for (int i = 0; i < spin; i++) {
         sched_yield();
      }
      sh_check(s, p, before, "shared read, later");
   }
   __atomic_fetch_sub(&sh[s].readers, 1, __ATOMIC_SEQ_CST);
   cache_unget(cc, p);
   PBT_COUNT(N_MTREAD, 1);
}
static void
mt_write(int s, int t, uint64_t h)
{
   page_handle *p;
   for (;;) {
      p = cache_get(cc, sh_addr(s), TRUE, PAGE_TYPE_BRANCH);
      if (cache_try_claim(cc, p)) {
         break;
      }
      cache_unget(cc, p);
      PBT_COUNT(N_CLAIMBUSY, 1);
      sched_yield();
   }
   int32_t z = 0;
   if (!__atomic_compare_exchange_n(&sh[s].owner, &z, t + 1, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST)) {
      pbt_fail("two threads hold the claim on a page");
   }
   sh_check(s, p, 0, "claimed page");
   if (h % 8 != 0) {
      cache_lock(cc, p);
      __atomic_store_n(&sh[s].writing, 1, __ATOMIC_SEQ_CST);
      if (LD(sh[s].readers)) {
         pbt_fail("a page was locked for writing while another thread held a reference");
      }
      cache_mark_dirty(cc, p);
      fill(p->data, sh_addr(s), 1, sh[s].committed + 1);
      if (h % 5 == 0) {
         sched_yield();
      }
      if (LD(sh[s].readers)) {
         pbt_fail("a reference to a page was given while a writer had it locked");
      }
      __atomic_fetch_add(&sh[s].committed, 1, __ATOMIC_SEQ_CST);
      __atomic_store_n(&sh[s].writing, 0, __ATOMIC_SEQ_CST);
      cache_unlock(cc, p);
      PBT_COUNT(N_MTWRITE, 1);
   }
   __atomic_store_n(&sh[s].owner, 0, __ATOMIC_SEQ_CST);
   cache_unclaim(cc, p);
   cache_unget(cc, p);
}
static void
mt_async(int s)
{
   areq r = {.done = 0};
   cache_ctxt_init(cc, async_cb, &r, &r.ctxt);
   uint32_t           before = LD(sh[s].committed);
   cache_async_result res    = cache_get_async(cc, sh_addr(s), PAGE_TYPE_BRANCH, &r.ctxt);
   if (res == async_locked || res == async_no_reqs) {
      cache_cleanup(cc);
      return;
   }
   if (res == async_io_started) {
      while (!r.done) {
         cache_cleanup(cc);
      }
      cache_async_done(cc, PAGE_TYPE_BRANCH, &r.ctxt);
      PBT_COUNT(N_ASYNCIO, 1);
   }
   __atomic_fetch_add(&sh[s].readers, 1, __ATOMIC_SEQ_CST);
   sh_check(s, r.ctxt.page, before, "shared asynchronous read");
   __atomic_fetch_sub(&sh[s].readers, 1, __ATOMIC_SEQ_CST);
   cache_unget(cc, r.ctxt.page);
   PBT_COUNT(N_ASYNC, 1);
}
static void
must_sync(page_handle *p, uint64_t pa, uint32_t inc)
{
   cache_page_sync(cc, p, TRUE, PAGE_TYPE_MISC);
   char b[PAGE];
   if (pread(fd_raw, b, PAGE, pa) != PAGE || version_of(b, pa, inc) != 1) {
      pbt_fail("a page is not on the device after a blocking page sync");
   }
}
static void *
mt_thread(void *x)
{
   targ *A = x;
   OKRC(task_register_this_thread(ST.ts, 4096), "task_register_this_thread");
   pthread_barrier_wait(&bar);
   for (int i = 0; i < A->c->nops; i++) {
      const pbt_op *o = &A->c->ops[i];
      if ((int)(o->a[4] % A->T) != A->t) {
         continue;
      }
      if (o->kind == OP_WORK) {
         /* hot set: few pages, many threads */
         int base = o->a[3] % 2 ? o->a[3] % nsh : (o->a[3] / 2 % 4) * (nsh / 4), hot = 1 + o->a[2] % (A->c->cfg[X_CPAGES] / (3 * A->T));
         for (uint32_t j = 0; j < o->a[1]; j++) {
            uint64_t h = pbt_mix(o->a[0] * 1000003ull + j);
            int      s = (base + (h >> 20) % hot) % nsh;
            PBT_PROGRESS();
            switch (h % 16) {
               case 0 ... 4:
                  mt_write(s, A->t, h >> 8);
                  break;
               case 5 ... 12:
                  mt_read(s, (h >> 8) % 4 == 0);
                  break;
               case 13 ... 14:
                  mt_async(s);
                  break;
               default:
                  if (h >> 60 == 0) {
                     cache_prefetch(cc, sh_ext[s / 32], PAGE_TYPE_BRANCH);
                     PBT_COUNT(N_PREFETCH, 1);
                  }
            }
         }
      } else {
         /* extents of its own: allocate, write, sync, read, discard */
         uint64   ad[12];
         uint32_t inc[12];
         int      m = 0;
         for (; m < (int)(o->a[1] % 12); m++) {
            if (!SUCCESS(allocator_alloc(al, &ad[m], PAGE_TYPE_MISC))) {
               break;
            }
            inc[m] = 2 + __atomic_fetch_add(&incarnation, 1, __ATOMIC_SEQ_CST);
            int n  = 1 + (o->a[0] + m) % 32;
            for (int k = 0; k < n; k++) {
               uint64_t     pa = ad[m] + (uint64_t)k * PAGE;
               page_handle *p  = cache_alloc(cc, pa, PAGE_TYPE_MISC);
               fill(p->data, pa, inc[m], 1);
               cache_unlock(cc, p);
               cache_unclaim(cc, p);
               if (k % 4 == 0) {
                  sched_yield();
               }
               if ((k + o->a[2]) % 13 == 0) {
                  cache_page_sync(cc, p, FALSE, PAGE_TYPE_MISC);
               } else if ((k + o->a[2]) % 17 == 0) {
                  must_sync(p, pa, inc[m]);
               }
               cache_unget(cc, p);
               PBT_COUNT(N_MTPRIV, 1);
               PBT_PROGRESS();
            }
         }
         for (int j = 0; j < m; j++) {
            int n = 1 + (o->a[0] + j) % 32;
            for (int k = 0; k < n; k++) {
               uint64_t     pa = ad[j] + (uint64_t)k * PAGE;
               page_handle *p  = cache_get(cc, pa, TRUE, PAGE_TYPE_MISC);
               if (version_of(p->data, pa, inc[j]) != 1) {
                  pbt_fail("a page only one thread uses holds foreign contents (word 0 = %lx, expected incarnation %u)", *(uint64_t *)p->data, inc[j]);
               }
               if ((k * 5 + o->a[2] + j) % 4 == 0) {
                  cache_page_sync(cc, p, FALSE, PAGE_TYPE_MISC);
               } else if ((k * 5 + o->a[2] + j) % 8 == 1) {
                  must_sync(p, pa, inc[j]);
               }
               cache_unget(cc, p);
               PBT_PROGRESS();
            }
         }
         for (int j = 0; j < m; j++) {
            if (allocator_dec_ref(al, ad[j], PAGE_TYPE_MISC) != AL_NO_REFS) {
               pbt_fail("dropping the last reference of an extent");
            }
            cache_extent_discard(cc, ad[j], PAGE_TYPE_MISC);
            allocator_dec_ref(al, ad[j], PAGE_TYPE_MISC);
         }
      }
   }
   task_deregister_this_thread(ST.ts);
   return NULL;
}
static void
run_mt(const pbt_case *c)
{
   common_up(c);
   slowio.nap = c->cfg[X_IOSEED] % 3 * 40;
   int T = c->cfg[X_THREADS];
   nsh   = (c->cfg[X_EXTENTS] - 8 - 12 * T) * 32;
   if (nsh > MAXSH) {
      nsh = MAXSH;
   }
   for (int s = 0; s < nsh; s++) {
      if (s % 32 == 0) {
         uint64 a;
         OKRC(allocator_alloc(al, &a, PAGE_TYPE_BRANCH), "allocator_alloc");
         sh_ext[s / 32] = a;
      }
      page_handle *p  = cache_alloc(cc, sh_addr(s), PAGE_TYPE_BRANCH);
      sh[s].committed = 1;
      fill(p->data, sh_addr(s), 1, 1);
      cache_unlock(cc, p);
      cache_unclaim(cc, p);
      cache_unget(cc, p);
   }
   pthread_t th[16];
   targ      A[16];
   pthread_barrier_init(&bar, NULL, T);
   for (int t = 0; t < T; t++) {
      A[t] = (targ){c, t, T};
      pthread_create(&th[t], NULL, mt_thread, &A[t]);
   }
   for (int t = 0; t < T; t++) {
      pthread_join(th[t], NULL);
   }
   for (int pass = 0; pass < 2; pass++) {
      for (int s = 0; s < nsh; s++) {
         mt_read(s, 0);
         PBT_PROGRESS();
      }
      cache_flush(cc);
      for (int s = 0; s < nsh; s++) {
         char b[PAGE];
         if (pread(fd_raw, b, PAGE, sh_addr(s)) != PAGE || version_of(b, sh_addr(s), 1) != sh[s].committed) {
            pbt_fail("after a flush the device does not hold the last version of page %lu", sh_addr(s));
         }
      }
      cache_evict(cc, FALSE);
   }
   PBT_COUNT(N_DELAYED, slowio.delayed);
   PBT_COUNT(N_REORDER, slowio.reordered);
   stack_down(&ST);
   pbt_res->nontrivial = pbt_res->count[N_MTREAD] > 500 && pbt_res->count[N_MTWRITE] > 100;
}
static void
gen_mt(pbt_case *c, pbt_rng *r, int thorough)
{
   uint64_t *f  = c->cfg;
   f[X_THREADS] = pbt_range(r, 2, 6);
   f[X_CPAGES]  = 64 * pbt_range(r, 12, 32);
   f[X_EXTENTS] = 8 + 12 * f[X_THREADS] + pbt_range(r, f[X_CPAGES] / 64, f[X_CPAGES] / 32 * 2);
   f[X_STATS]   = pbt_pct(r, 15);
   f[X_DELAY]   = pbt_pct(r, 20) ? 0 : pbt_range(r, 30, 98);
   f[X_IOSEED]  = pbt_u64(r) % 1000000;
   int n        = pbt_range(r, 6, 24);
   for (int i = 0; i < n; i++) {
      if (pbt_pct(r, 70)) {
         pbt_add(c, OP_WORK, pbt_u64(r), pbt_logrange(r, 50, thorough ? 4000 : 2500), pbt_logrange(r, 1, 3000), pbt_u64(r) % 8192, pbt_u64(r) % 64);
      } else {
         pbt_add(c, OP_PRIVATE, pbt_u64(r) % 4096, pbt_range(r, 1, 11), pbt_u64(r) % 64, 0, pbt_u64(r) % 64);
      }
   }
}
static int
always(const pbt_case *c)
{
   return 1;
}
static const pbt_prop p_cache = {.id = "cache", .desc = "page cache, sequential", .gen = gen, .run = run, .opnames = opnames, .cfgnames = cfgnames, .countnames = countnames, .rule = "over 50 pages were rewritten and more pages were allocated than the cache holds"};
static const pbt_prop p_cache_mt = {.id = "cache_mt", .desc = "page cache under threads", .gen = gen_mt, .run = run_mt, .nondet = 1, .racy = always, .opnames = opnames, .cfgnames = cfgnames, .countnames = countnames, .rule = "threads made over 500 reads and 100 writes of shared pages"};
const pbt_prop *pbt_props[] = {&p_cache, &p_cache_mt, NULL};
int
main(int argc, char **argv)
{
   return pbt_main(argc, argv);
}
