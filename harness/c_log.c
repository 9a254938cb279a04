/*
 * c_log.c -- the sharded write-ahead log: several threads (stepped one at a
 * time, so that the history is part of the case) append entries; reading the
 * log back must give exactly the entries of the completed pages up to the
 * first page still being filled, in generation order, with keys and messages
 * as written, whether or not pages were evicted or the cache was lost.
 */
#define _GNU_SOURCE
#include "comp.h"
#include "shard_log.h"
#include <pthread.h>
#include <semaphore.h>

enum { X_K, X_STYLE, X_MAXKEY, X_VCLASS, X_KSEED, X_CACHE_MB, X_STATS, X_THREADS, X_LOGS, X_DISK_MB };
static const char *cfgnames[] = {"nkeys", "style", "maxkey", "vclass", "kseed", "cache_mb", "stats", "threads", "logs", "disk_mb", NULL};
enum { OP_WRITE, OP_READ, OP_FLUSH, OP_EVICT, OP_CRASH, OP_DROP };
static const char *opnames[] = {"WRITE", "READ", "FLUSH", "EVICT", "CRASH", "DROP", NULL};
enum { N_WRITES, N_READS, N_ENTRIES, N_PAGES, N_EVICTS, N_CRASHES, N_MULTIEXTENT, N_HIDDEN, N_DROPS };
static const char *countnames[] = {"entries_written", "log_reads", "entries_read_back", "pages_used", "evictions", "cache_losses", "logs_of_several_extents", "entries_behind_an_open_page", "logs_dropped_and_recreated", NULL};

static int gmode_case;
#define MAXL 2
typedef struct {
   uint64_t gen;
   uint32_t k;
   amsg     m;
} entry;
typedef struct {
   uint64_t addr;
   int      closed;
   entry   *e;
   int      n, cap;
} lpage;
static stack            ST;
static cache           *cc;
static shard_log_config LC;
static universe         U;
static my_data_config   D;
typedef struct {
   shard_log log;
   lpage    *p; /* in the order in which they were taken */
   int       np, cap;
   int       cur[16]; /* open page of a thread or -1 */
   uint64_t  nw;
} lg;
static lg       L[MAXL];
static uint64_t gen_next = 1;

/* ---------------------------------------------------- stepped threads */
typedef struct {
   pthread_t th;
   sem_t     go, done;
   int       id, quit, li;
   uint32_t  n;
   uint64_t  seed;
   int       tid;
} worker;
static worker W[16];

static void
write_one(lg *l, int w, int tid, uint64_t h, int gmode)
{
   uint8_t  buf[DB_MAXVAL + 16], kb[600];
   uint32_t k = h % U.K;
   amsg     m = amsg_gen(h >> 20, h >> 24);
   unsigned n = amsg_bytes(&D, U.kh[k], m, buf);
   /* generations are unique, but not always given in increasing order */
   uint64_t g = gmode == 0 ? gen_next : (gen_next ^ 0x35);
   gen_next++;
   memcpy(kb, U.kb + (size_t)k * U.maxkey, U.kl[k]);
   if (log_write((log_handle *)&l->log, key_create(U.kl[k], kb), message_create(m.cls, slice_create(n, buf)), g)) {
      pbt_fail("log_write failed");
   }
   memset(buf, 0xee, sizeof buf);
   memset(kb, 0xee, sizeof kb);
   uint64_t a = l->log.thread_data[tid].addr;
   if (l->cur[w] < 0 || l->p[l->cur[w]].addr != a) {
      if (l->cur[w] >= 0) {
         l->p[l->cur[w]].closed = 1;
      }
      if (l->np == l->cap) {
         l->cap = 2 * l->cap + 8;
         l->p   = realloc(l->p, l->cap * sizeof *l->p);
      }
      l->p[l->np] = (lpage){.addr = a};
      l->cur[w]   = l->np++;
      PBT_COUNT(N_PAGES, 1);
   }
   lpage *p = &l->p[l->cur[w]];
   if (p->n == p->cap) {
      p->cap = 2 * p->cap + 16;
      p->e   = realloc(p->e, p->cap * sizeof *p->e);
   }
   p->e[p->n++] = (entry){g, k, m};
   l->nw++;
   PBT_COUNT(N_WRITES, 1);
   PBT_PROGRESS();
}
static void *
work(void *x)
{
   worker *w = x;
   OKRC(task_register_this_thread(ST.ts, 4096), "task_register_this_thread");
   w->tid = platform_get_tid();
   sem_post(&w->done);
   for (;;) {
      sem_wait(&w->go);
      if (w->quit) {
         break;
      }
      for (uint32_t j = 0; j < w->n; j++) {
         write_one(&L[w->li], w->id, w->tid, pbt_mix(w->seed + j), gmode_case);
      }
      sem_post(&w->done);
   }
   task_deregister_this_thread(ST.ts);
   return NULL;
}
static int
ecmp(const void *a, const void *b)
{
   uint64_t x = ((const entry *)a)->gen, y = ((const entry *)b)->gen;
   return x < y ? -1 : x > y;
}
static void
read_back(lg *l)
{
   /* page order: extents as taken, pages within; equal to the order of first use */
   int      upto = 0;
   uint64_t n = 0, hidden = 0;
   while (upto < l->np && l->p[upto].closed) {
      n += l->p[upto++].n;
   }
   for (int i = upto; i < l->np; i++) {
      hidden += l->p[i].closed ? l->p[i].n : 0;
   }
   entry *want = malloc((n + 1) * sizeof *want);
   n           = 0;
   for (int i = 0; i < upto; i++) {
      memcpy(want + n, l->p[i].e, l->p[i].n * sizeof *want);
      n += l->p[i].n;
   }
   qsort(want, n, sizeof *want, ecmp);
   shard_log_iterator it;
   OKRC(shard_log_iterator_init(cc, &LC, ST.hid, log_addr((log_handle *)&l->log), log_magic((log_handle *)&l->log), &it), "shard_log_iterator_init");
   iterator *b = (iterator *)&it;
   for (uint64_t i = 0; i < n; i++) {
      if (!iterator_can_next(b)) {
         pbt_fail("the log returned %lu of the %lu entries of its first %d pages (%lu written, %d pages)", i, n, upto, l->nw, l->np);
      }
      key     k;
      message m;
      iterator_curr(b, &k, &m);
      if (!uni_is(&U, want[i].k, k)) {
         uint64_t g;
         memcpy(&g, it.entries[i], 8);
         pbt_fail("log entry %lu of %lu (generation %lu) has another key than was written (it is of generation %lu; the log has %lu entries)", i, n, want[i].gen, (unsigned long)g, (unsigned long)it.num_entries);
      }
      amsg_check(&D, U.kh[want[i].k], want[i].m, m, "log entry");
      OKRC(iterator_next(b), "iterator_next");
      PBT_PROGRESS();
   }
   if (iterator_can_next(b)) {
      pbt_fail("the log returned more than the %lu entries of its completed pages", n);
   }
   shard_log_iterator_deinit(ST.hid, &it);
   free(want);
   PBT_COUNT(N_READS, 1);
   PBT_COUNT(N_ENTRIES, n);
   PBT_COUNT(N_HIDDEN, hidden);
}
static int
written_later(const pbt_case *c, int i, uint32_t li, int nl)
{
   for (i++; i < c->nops; i++) {
      if (c->ops[i].kind == OP_WRITE && c->ops[i].a[3] % nl == li) {
         return 1;
      }
   }
   return 0;
}
/* drop a log and start a new one, which may get the same extents */
static void
drop(lg *l)
{
   shard_log_zap(&l->log);
   for (int i = 0; i < l->np; i++) {
      free(l->p[i].e);
   }
   l->np = 0;
   l->nw = 0;
   OKRC(shard_log_init(&l->log, cc, &LC), "shard_log_init");
   memset(l->cur, 0xff, sizeof l->cur);
   PBT_COUNT(N_DROPS, 1);
}
static void
run(const pbt_case *c)
{
   uni_init(&U, c->cfg[X_K], c->cfg[X_STYLE], 0, c->cfg[X_MAXKEY], c->cfg[X_KSEED]);
   comp_data_config(&D, c->cfg[X_MAXKEY], 0, c->cfg[X_VCLASS]);
   stack_up(&ST, pbt_scratch("db"), c->cfg[X_CACHE_MB] << 20, (c->cfg[X_DISK_MB] < 32 ? 32 : c->cfg[X_DISK_MB]) << 20, 4096, c->cfg[X_STATS], 0);
   cc         = (cache *)&ST.cc;
   gmode_case = c->cfg[X_KSEED] & 1;
   shard_log_config_init(&LC, &ST.cc_cfg.super, &D.super);
   uint64 used = allocator_in_use((allocator *)&ST.al);
   int    nl   = c->cfg[X_LOGS], T = c->cfg[X_THREADS];
   for (int i = 0; i < nl; i++) {
      OKRC(shard_log_init(&L[i].log, cc, &LC), "shard_log_init");
      memset(L[i].cur, 0xff, sizeof L[i].cur);
   }
   for (int t = 0; t < T; t++) {
      W[t].id = t;
      sem_init(&W[t].go, 0, 0);
      sem_init(&W[t].done, 0, 0);
      pthread_create(&W[t].th, NULL, work, &W[t]);
      sem_wait(&W[t].done);
   }
   for (int i = 0; i < c->nops; i++) {
      const uint32_t *a = c->ops[i].a;
      PBT_PROGRESS();
      switch (c->ops[i].kind) {
         case OP_WRITE: {
            /* stay clear of a full device */
            for (int l = 0; l < nl; l++) {
               if (l == a[3] % nl && L[l].np > 8 * 32 * (c->cfg[X_DISK_MB] < 32 ? 32 : c->cfg[X_DISK_MB]) / 3) {
                  drop(&L[l]);
               }
            }
            worker *w = &W[a[0] % T];
            w->n      = a[1];
            w->seed   = a[2];
            w->li     = a[3] % nl;
            sem_post(&w->go);
            sem_wait(&w->done);
            break;
         }
         case OP_READ:
            /* a log is not read while it is still appended to */
            if (!written_later(c, i, a[0] % nl, nl)) {
               read_back(&L[a[0] % nl]);
            }
            break;
         case OP_DROP:
            drop(&L[a[0] % nl]);
            break;
         case OP_FLUSH:
            cache_flush(cc);
            break;
         case OP_EVICT:
            cache_flush(cc);
            cache_evict(cc, TRUE);
            PBT_COUNT(N_EVICTS, 1);
            break;
         case OP_CRASH:
            /* completed pages are on the device once their writes are */
            io_cleanup((io_handle *)&ST.io, 256);
            io_wait_all((io_handle *)&ST.io);
            break;
      }
   }
   int crash = c->nops && c->ops[c->nops - 1].kind == OP_CRASH;
   if (crash) {
      /* lose the cache: what completed pages held must still be readable */
      io_wait_all((io_handle *)&ST.io);
      clockcache_deinit(&ST.cc);
      OKRC(clockcache_init(&ST.cc, &ST.cc_cfg, (io_handle *)&ST.io, (allocator *)&ST.al, "pbt2", ST.hid, platform_get_module_id()), "clockcache_init");
      PBT_COUNT(N_CRASHES, 1);
   }
   for (int i = 0; i < nl; i++) {
      read_back(&L[i]);
      PBT_COUNT(N_MULTIEXTENT, L[i].np > 32);
   }
   for (int t = 0; t < T; t++) {
      W[t].quit = 1;
      sem_post(&W[t].go);
      pthread_join(W[t].th, NULL);
   }
   if (!crash) {
      for (int i = 0; i < nl; i++) {
         shard_log_zap(&L[i].log);
      }
   }
   if (!crash && allocator_in_use((allocator *)&ST.al) != used) {
      pbt_fail("the logs were dropped, but %ld extents remain allocated", (long)(allocator_in_use((allocator *)&ST.al) - used));
   }
   cache_flush(cc);
   stack_down(&ST);
   pbt_res->nontrivial = pbt_res->count[N_ENTRIES] > 100;
}
static void
gen(pbt_case *c, pbt_rng *r, int thorough)
{
   uint64_t *f   = c->cfg;
   f[X_K]        = pbt_logrange(r, 2, 500);
   f[X_STYLE]    = pbt_range(r, 0, NUM_KS - 1);
   f[X_MAXKEY]   = pbt_pct(r, 70) ? pbt_range(r, 24, 60) : pbt_range(r, 24, 500);
   f[X_VCLASS]   = pbt_pct(r, 60) ? pbt_range(r, 0, 2) : pbt_range(r, 0, 7);
   f[X_KSEED]    = pbt_u64(r) >> 8;
   f[X_CACHE_MB] = pbt_range(r, 5, 12);
   f[X_STATS]    = pbt_pct(r, 15);
   f[X_THREADS]  = pbt_pct(r, 40) ? 1 : pbt_range(r, 2, 6);
   f[X_LOGS]     = pbt_pct(r, 70) ? 1 : 2;
   f[X_DISK_MB]  = pbt_pct(r, 60) ? pbt_range(r, 32, 48) : 256;
   int n         = pbt_logrange(r, 2, 60);
   for (int i = 0; i < n; i++) {
      int q = pbt_range(r, 0, 99);
      if (q < 70) {
         pbt_add(c, OP_WRITE, pbt_u64(r) % 64, pbt_logrange(r, 1, thorough ? 4000 : 1500), pbt_u64(r), pbt_range(r, 0, 1), 0);
      } else {
         pbt_add(c, q < 77 ? OP_READ : q < 83 ? OP_DROP : q < 88 ? OP_FLUSH : OP_EVICT, pbt_u64(r) % 64, 0, 0, 0, 0);
      }
   }
   if (pbt_pct(r, 30)) {
      pbt_add(c, OP_CRASH, 0, 0, 0, 0, 0);
   }
}
static const pbt_prop p_log = {.id = "log", .desc = "sharded log", .gen = gen, .run = run, .opnames = opnames, .cfgnames = cfgnames, .countnames = countnames, .rule = "more than 100 entries were read back"};
const pbt_prop *pbt_props[] = {&p_log, NULL};
int
main(int argc, char **argv)
{
   return pbt_main(argc, argv);
}
