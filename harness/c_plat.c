/*
 * c_plat.c -- the platform layer the store stands on: the shared-memory heap,
 * the task system with its thread ids, the distributed reader/writer locks
 * and the latency histograms.
 *
 * "shm" and "shm_mt" fill every fragment with bytes that are a function of its
 * identity and look at them again before it is given back; the model is the
 * list of live fragments.  "task" knows which tasks were enqueued and in which
 * order; "rwlock" knows who holds what; "histo" counts by itself.
 */
#define _GNU_SOURCE
#include "comp.h"
#include "shmem.h"
#include <pthread.h>
#include <sched.h>

enum { X_SEG_KB, X_THREADS, X_NORM, X_MEMT, X_SHM, X_STATS, X_SCRATCH, X_SEED, X_LOCKS };
static const char *cfgnames[] = {"segment_kb", "threads", "bg_normal", "bg_memtable", "shared_heap", "stats", "scratch", "seed", "locks", NULL};
enum { OP_ALLOC, OP_FREE, OP_REALLOC, OP_FREELAST, OP_CHECK, OP_WORK, OP_ENQ, OP_PERF, OP_ALL, OP_QUIET, OP_REG, OP_CREATE, OP_WAIT, OP_LOCK, OP_DATA, OP_MERGE };
static const char *opnames[] = {"ALLOC", "FREE", "REALLOC", "FREELAST", "CHECK", "WORK", "ENQ", "PERF", "ALL", "QUIET", "REG", "CREATE", "WAIT", "LOCK", "DATA", "MERGE", NULL};
enum { N_ALLOC, N_LARGE, N_RECYCLED, N_LASTFREED, N_FREE, N_REALLOC, N_NOSPACE, N_HANDED, N_TASKS, N_CHILDREN, N_ATHEAD, N_BGRUN, N_QUIET, N_SAMPLED, N_REGS, N_REGBUSY, N_READS, N_WRITES, N_CLAIMBUSY, N_DATA, N_ORDERED };
static const char *countnames[] = {"fragments_allocated", "large_fragments", "recycled_large_fragments", "last_small_fragments_freed", "fragments_freed", "reallocations", "refused_for_space", "fragments_freed_by_another_thread", "tasks_run", "tasks_enqueued_by_tasks", "tasks_enqueued_at_the_head", "tasks_run_by_background_threads", "waits_for_quiescence", "quiescent_answers_checked", "threads_registered", "registrations_refused", "read_sections", "write_sections", "claims_refused", "histogram_data", "task_orders_checked", NULL};

/* ------------------------------------------------- shared-memory heap */
static platform_heap_id hid;
static uint64_t         base, limit, first;
typedef struct {
   uint8_t *p;
   uint64_t n;   /* requested */
   uint64_t cap; /* reserved: what the heap gave or recycled */
   uint32_t tag;
   int      large;
} frag;
#define MAXFRAG 600
#define LARGE (38 * 1024)
static void
frag_fill(frag *f, uint64_t from)
{
   for (uint64_t i = from; i < f->n; i++) {
      f->p[i] = (uint8_t)(pbt_mix(f->tag ^ (i >> 3)) >> (8 * (i & 7)));
   }
}
static void
frag_check(const frag *f, uint64_t n, const char *when)
{
   for (uint64_t i = 0; i < n; i++) {
      if (f->p[i] != (uint8_t)(pbt_mix(f->tag ^ (i >> 3)) >> (8 * (i & 7)))) {
         pbt_fail("%s: byte %lu of a fragment of %lu bytes was changed by somebody else", when, i, f->n);
      }
   }
}
static uint64_t
up64(uint64_t n)
{
   return (n + 63) & ~63ull;
}
static void *
heap_alloc(uint64_t n)
{
   return platform_aligned_malloc(hid, PLATFORM_CACHELINE_SIZE, n, "pbt", __func__, __FILE__, __LINE__);
}
static void
heap_free(void *p)
{
   platform_free_from_heap(hid, p, "pbt", __func__, __FILE__, __LINE__);
}
static void
heap_up(const pbt_case *c)
{
   FILE *nul = fopen("/dev/null", "w");
   platform_set_log_streams(nul, nul);
   hid = NULL;
   OKRC(platform_heap_create(platform_get_module_id(), c->cfg[X_SEG_KB] << 10, TRUE, &hid), "heap create");
   base  = (uint64_t)hid;
   limit = base + (c->cfg[X_SEG_KB] << 10);
   first = base + platform_shm_ctrlblock_size();
   if (platform_shmsize(hid) != c->cfg[X_SEG_KB] << 10 || platform_shmbytes_free(hid) != limit - first) {
      pbt_fail("a new segment of %lu bytes reports size %lu, free %lu", limit - base, platform_shmsize(hid), platform_shmbytes_free(hid));
   }
}
static void
in_heap(const void *p, uint64_t n, const char *what)
{
   if ((uint64_t)p % 64 || (uint64_t)p < first || (uint64_t)p + n > limit) {
      pbt_fail("%s: %lu bytes at offset %ld, outside the segment or not aligned", what, n, (long)((uint64_t)p - base));
   }
   if (!platform_valid_addr_in_heap(hid, p)) {
      pbt_fail("%s: the heap does not know its own address", what);
   }
}
static void
accounts(void)
{
   uint64_t used = platform_shmbytes_used(hid), fr = platform_shmbytes_free(hid), next = (uint64_t)platform_shm_next_free_addr(hid);
   if (used + fr != limit - first || next != first + used) {
      pbt_fail("accounting: %lu used, %lu free of %lu, next free offset %lu", used, fr, limit - first, next - first);
   }
}
static frag     FR[MAXFRAG];
static int      nF;
static frag     freed[MAXFRAG]; /* large fragments given back */
static int      nfreed, ntracked;
static void    *last;           /* the latest fragment taken from fresh space */
static uint32_t tags;

static void
take(frag *f, uint64_t n, uint64_t next0)
{
   *f       = (frag){.p = f->p, .n = n, .cap = up64(n), .tag = ++tags, .large = up64(n) >= LARGE};
   int best = -1;
   for (int i = 0; i < nfreed && best < 0; i++) {
      if (freed[i].p == f->p) {
         best = i;
      }
   }
   in_heap(f->p, n, "allocation");
   if (best >= 0) {
      if (!f->large || freed[best].cap < n) {
         pbt_fail("a request of %lu bytes was given a freed fragment of %lu", n, freed[best].cap);
      }
      f->cap      = freed[best].cap;
      freed[best] = freed[--nfreed];
      PBT_COUNT(N_RECYCLED, 1);
   } else {
      if ((uint64_t)f->p != next0) {
         pbt_fail("a fragment came neither from free space nor from the freed fragments");
      }
      if (f->large) {
         for (int i = 0; i < nfreed; i++) {
            if (freed[i].cap >= up64(n)) {
               pbt_fail("new space was taken for %lu bytes although a freed fragment of %lu bytes was there", n, freed[i].cap);
            }
         }
         ntracked++;
      }
      last = f->p;
   }
   for (int i = 0; i < nF; i++) {
      if (&FR[i] != f && f->p < FR[i].p + FR[i].cap && FR[i].p < f->p + f->cap) {
         pbt_fail("a fragment of %lu bytes overlaps a live one of %lu bytes", n, FR[i].n);
      }
   }
   PBT_COUNT(f->large ? N_LARGE : N_ALLOC, 1);
}
static void
refused(uint64_t n, uint64_t next0)
{
   if (next0 + up64(n) <= limit) {
      pbt_fail("%lu bytes were refused although %lu are free", n, limit - next0);
   }
   for (int i = 0; i < nfreed; i++) {
      if (up64(n) >= LARGE && freed[i].cap >= up64(n)) {
         pbt_fail("%lu bytes were refused although a freed fragment of %lu bytes was there", n, freed[i].cap);
      }
   }
   PBT_COUNT(N_NOSPACE, 1);
}
static void
give(int i)
{
   frag f = FR[i];
   frag_check(&f, f.n, "before free");
   uint64_t used0 = platform_shmbytes_used(hid);
   heap_free(f.p);
   FR[i] = FR[--nF];
   if (f.p == last && !f.large) {
      if (platform_shmbytes_used(hid) != used0 - f.cap) {
         pbt_fail("freeing the last small fragment (%lu bytes) gave back %ld bytes", f.n, (long)(used0 - platform_shmbytes_used(hid)));
      }
      last = NULL;
      PBT_COUNT(N_LASTFREED, 1);
   } else if (platform_shmbytes_used(hid) != used0) {
      pbt_fail("freeing a fragment in the middle changed the space in use");
   }
   if (f.large) {
      freed[nfreed++] = f;
   }
   PBT_COUNT(N_FREE, 1);
}
static void
run_shm(const pbt_case *c)
{
   heap_up(c);
   platform_set_tid(0);
   nF = nfreed = ntracked = 0;
   last                   = NULL;
   for (int k = 0; k < c->nops; k++) {
      const pbt_op *o     = &c->ops[k];
      uint64_t      next0 = (uint64_t)platform_shm_next_free_addr(hid);
      PBT_PROGRESS();
      switch (o->kind) {
         case OP_ALLOC:
            if (nF == MAXFRAG || (ntracked >= 120 && up64(o->a[0]) >= LARGE)) {
               break;
            }
            FR[nF].p = heap_alloc(o->a[0]);
            if (FR[nF].p) {
               take(&FR[nF], o->a[0], next0);
               frag_fill(&FR[nF++], 0);
            } else {
               refused(o->a[0], next0);
            }
            break;
         case OP_FREE:
            if (nF) {
               give(o->a[0] % nF);
            }
            break;
         case OP_FREELAST:
            for (int i = 0; i < nF; i++) {
               if (FR[i].p == last) {
                  give(i);
                  break;
               }
            }
            break;
         case OP_REALLOC:
            if (nF && nF < MAXFRAG) {
               int i = o->a[0] % nF;
               frag_check(&FR[i], FR[i].n, "before realloc");
               uint64_t n = FR[i].n + o->a[1], was = FR[i].n;
               if (ntracked >= 120 && up64(n) >= LARGE) {
                  break;
               }
               uint8_t *p = platform_realloc(hid, FR[i].n, FR[i].p, n);
               if (p == NULL) {
                  refused(n, next0);
                  break;
               }
               frag old = FR[i], g = {.p = p};
               take(&g, n, next0);
               if (old.large) {
                  freed[nfreed++] = old;
               }
               old.p = p;
               frag_check(&old, was, "after realloc");
               FR[i] = g;
               frag_fill(&FR[i], 0);
               PBT_COUNT(N_REALLOC, 1);
            }
            break;
         case OP_CHECK:
            for (int i = 0; i < nF; i++) {
               frag_check(&FR[i], FR[i].n, "check");
            }
            break;
      }
      accounts();
   }
   while (nF) {
      give(nF - 1);
   }
   accounts();
   platform_heap_destroy(&hid);
   if (hid != NULL) {
      pbt_fail("destroying the heap left its handle");
   }
   platform_set_tid(INVALID_TID);
   pbt_res->nontrivial = pbt_res->count[N_RECYCLED] > 0 && pbt_res->count[N_LASTFREED] > 0;
}
static uint64_t
gen_size(pbt_rng *r)
{
   switch (pbt_range(r, 0, 9)) {
      case 0:
      case 1:
      case 2:
      case 3:
         return pbt_logrange(r, 1, 4000);
      case 4:
         return pbt_range(r, LARGE - 130, LARGE + 130);
      case 5:
         return pbt_logrange(r, 64, 38000);
      case 6:
         return pbt_range(r, 1, 40) * 64;
      default:
         return pbt_logrange(r, LARGE, 600000);
   }
}
static void
gen_shm(pbt_case *c, pbt_rng *r, int thorough)
{
   c->cfg[X_SEG_KB] = pbt_pct(r, 40) ? pbt_logrange(r, 64, 2000) : pbt_logrange(r, 2000, 40000);
   int              n   = (int)pbt_logrange(r, 10, thorough ? 1500 : 500);
   static const int w[] = {50, 25, 10, 12, 3};
   int              pct = (int)pbt_range(r, 0, 60);
   for (int i = 0; i < n; i++) {
      int k = pbt_pct(r, pct) ? OP_FREE : pbt_weighted(r, w, 5);
      pbt_add(c, k, k == OP_ALLOC ? gen_size(r) : (uint32_t)pbt_u64(r), k == OP_REALLOC ? pbt_logrange(r, 0, 60000) : 0, 0, 0, 0);
   }
}
/* threads; fragments change hands */
static frag            pool[256];
static int             npool;
static pthread_mutex_t pmu = PTHREAD_MUTEX_INITIALIZER;
static pthread_barrier_t bar;
typedef struct {
   const pbt_case *c;
   int             t, T;
} targ;
static void *
shm_thread(void *x)
{
   targ *A = x;
   platform_set_tid(A->t + 1);
   static __thread frag my[40];
   int                  n = 0;
   uint32_t             tag = (A->t + 1) << 24;
   pthread_barrier_wait(&bar);
   for (int k = 0; k < A->c->nops; k++) {
      const pbt_op *o = &A->c->ops[k];
      if ((int)(o->a[4] % A->T) != A->t) {
         continue;
      }
      pbt_rng r;
      pbt_seed(&r, o->a[0]);
      for (uint32_t j = 0; j < o->a[1]; j++) {
         PBT_PROGRESS();
         int what = (int)pbt_range(&r, 0, 9);
         if (n < 40 && what < 5) {
            frag f = {.n = gen_size(&r), .tag = ++tag};
            f.p    = heap_alloc(f.n);
            if (!f.p) {
               PBT_COUNT(N_NOSPACE, 1);
               what = 7;
            } else {
               in_heap(f.p, f.n, "allocation");
               frag_fill(&f, 0);
               my[n++] = f;
               PBT_COUNT(N_ALLOC, 1);
            }
         } else if (n && what == 5) {
            int      i   = (int)pbt_range(&r, 0, n - 1);
            uint64_t add = pbt_logrange(&r, 0, 40000);
            frag_check(&my[i], my[i].n, "before realloc");
            uint8_t *p = platform_realloc(hid, my[i].n, my[i].p, my[i].n + add);
            if (p) {
               my[i].p = p;
               frag_check(&my[i], my[i].n, "after realloc");
               my[i].n += add;
               in_heap(p, my[i].n, "reallocation");
               frag_fill(&my[i], 0);
               PBT_COUNT(N_REALLOC, 1);
            }
         }
         if (n && what >= 6) {
            int i = what == 6 ? n - 1 : (int)pbt_range(&r, 0, n - 1);
            frag_check(&my[i], my[i].n, "before free");
            pthread_mutex_lock(&pmu);
            frag f = my[i];
            if (what == 9 && npool < 256) {
               pool[npool++] = f; /* somebody else will free it */
               f.p           = NULL;
            } else if (what == 8 && npool) {
               int q   = (int)pbt_range(&r, 0, npool - 1);
               frag g  = pool[q];
               pool[q] = f;
               f       = g;
               PBT_COUNT(N_HANDED, 1);
            }
            pthread_mutex_unlock(&pmu);
            my[i] = my[--n];
            if (f.p) {
               frag_check(&f, f.n, "before free");
               heap_free(f.p);
               PBT_COUNT(N_FREE, 1);
            }
         }
      }
   }
   while (n) {
      frag_check(&my[n - 1], my[n - 1].n, "at the end");
      heap_free(my[--n].p);
   }
   platform_set_tid(INVALID_TID);
   return NULL;
}
static void
spawn(const pbt_case *c, void *(*fn)(void *))
{
   int       T = c->cfg[X_THREADS];
   pthread_t th[64];
   targ      A[64];
   pthread_barrier_init(&bar, NULL, T);
   for (int t = 0; t < T; t++) {
      A[t] = (targ){c, t, T};
      if (pthread_create(&th[t], NULL, fn, &A[t])) {
         pbt_discard("pthread_create");
      }
   }
   for (int t = 0; t < T; t++) {
      pthread_join(th[t], NULL);
   }
}
static void
run_shm_mt(const pbt_case *c)
{
   heap_up(c);
   platform_set_tid(0);
   npool = 0;
   spawn(c, shm_thread);
   for (int i = 0; i < npool; i++) {
      frag_check(&pool[i], pool[i].n, "at the end");
      heap_free(pool[i].p);
   }
   accounts();
   platform_heap_destroy(&hid);
   platform_set_tid(INVALID_TID);
   pbt_res->nontrivial = pbt_res->count[N_FREE] > 100 && pbt_res->count[N_HANDED] > 0;
}
static void
gen_shm_mt(pbt_case *c, pbt_rng *r, int thorough)
{
   c->cfg[X_SEG_KB]  = pbt_pct(r, 30) ? pbt_logrange(r, 300, 4000) : pbt_logrange(r, 4000, 60000);
   c->cfg[X_THREADS] = pbt_range(r, 2, 7);
   int n             = (int)pbt_range(r, 4, 24);
   for (int i = 0; i < n; i++) {
      pbt_add(c, OP_WORK, (uint32_t)pbt_u64(r), pbt_logrange(r, 10, thorough ? 1500 : 500), 0, 0, (uint32_t)pbt_u64(r) % 64);
   }
}

/* ------------------------------------------------------- task system */
typedef struct {
   uint32_t id, kids, seed;
   int      type;
   uint32_t runs;
} tk;
#define MAXTK 60000
static tk           *TK;
static uint32_t      nTK, enqueued, done;
static task_system  *ts;
static uint32_t      scratch_size;
static int           ordered; /* one thread runs everything: the order is known */
static uint32_t     *dq[NUM_TASK_TYPES], dqh[NUM_TASK_TYPES], dqt[NUM_TASK_TYPES];
static uint8_t       tid_held[MAX_THREADS];
static uint8_t       busy[MAX_THREADS];
static __thread int  nested;

static void
task_body(void *arg, void *scratch);
static void
submit(int type, uint32_t kids, uint32_t seed, int head)
{
   uint32_t i = __atomic_fetch_add(&nTK, 1, __ATOMIC_SEQ_CST);
   if (i >= MAXTK) {
      __atomic_fetch_sub(&nTK, 1, __ATOMIC_SEQ_CST);
      return;
   }
   TK[i] = (tk){.id = i, .kids = kids, .seed = seed, .type = type};
   if (ordered) {
      if (head && dqh[type] != dqt[type]) {
         dq[type][--dqh[type]] = i;
      } else {
         dq[type][dqt[type]++] = i;
      }
   }
   PBT_COUNT(N_ATHEAD, head);
   OKRC(task_enqueue(ts, type, task_body, &TK[i], head), "task_enqueue");
   __atomic_fetch_add(&enqueued, 1, __ATOMIC_SEQ_CST);
}
static void
task_body(void *arg, void *scratch)
{
   tk      *k   = arg;
   threadid tid = platform_get_tid();
   if (tid >= MAX_THREADS) {
      pbt_fail("a task runs on a thread without an id");
   }
   if (__atomic_exchange_n(&busy[tid], 1, __ATOMIC_SEQ_CST)) {
      pbt_fail("two tasks run at the same time under thread id %lu", tid);
   }
   if (__atomic_fetch_add(&k->runs, 1, __ATOMIC_SEQ_CST)) {
      pbt_fail("task %u ran twice", k->id);
   }
   if (scratch != task_system_get_thread_scratch(ts, tid) || (scratch_size && scratch == NULL)) {
      pbt_fail("task %u was not given its thread's scratch space", k->id);
   }
   if (ordered) {
      int t = k->type;
      for (int q = TASK_TYPE_FIRST; q < t; q++) {
         if (dqh[q] != dqt[q]) {
            pbt_fail("a task of type %d ran before the waiting ones of type %d", t, q);
         }
      }
      if (dqh[t] == dqt[t] || dq[t][dqh[t]] != k->id) {
         pbt_fail("task %u ran, but task %d is first in the queue", k->id, dqh[t] == dqt[t] ? -1 : (int)dq[t][dqh[t]]);
      }
      dqh[t]++;
      PBT_COUNT(N_ORDERED, 1);
   }
   if (scratch && scratch_size) {
      memset(scratch, (int)k->id & 255, scratch_size);
   }
   for (uint32_t i = 0; i < k->kids; i++) {
      uint32_t s = (uint32_t)pbt_mix(k->seed + i);
      submit(TASK_TYPE_FIRST + s % (NUM_TASK_TYPES - TASK_TYPE_FIRST), (s >> 8) % 5 == 0 ? (s >> 12) % 3 : 0, s, (s >> 16) % 4 == 0);
      PBT_COUNT(N_CHILDREN, 1);
   }
   if (k->seed % 3 == 0) {
      sched_yield();
   }
   for (uint32_t i = 0; scratch && i < scratch_size; i++) {
      if (((uint8_t *)scratch)[i] != (k->id & 255)) {
         pbt_fail("another thread wrote into the scratch space of a running task");
      }
   }
   PBT_COUNT(N_TASKS, 1);
   PBT_PROGRESS();
   __atomic_store_n(&busy[tid], 0, __ATOMIC_SEQ_CST);
   __atomic_fetch_add(&done, 1, __ATOMIC_SEQ_CST);
}
static void
sample_quiet(void)
{
   uint32_t e = __atomic_load_n(&enqueued, __ATOMIC_SEQ_CST);
   if (task_system_is_quiescent(ts)) {
      uint32_t d = __atomic_load_n(&done, __ATOMIC_SEQ_CST);
      if (d < e) {
         pbt_fail("the task system calls itself quiescent with %u of %u tasks finished", d, e);
      }
      PBT_COUNT(N_SAMPLED, 1);
   }
}
static void
hold_tid(void)
{
   threadid tid = platform_get_tid();
   if (tid >= MAX_THREADS) {
      pbt_fail("thread id %lu is out of range", tid);
   }
   if (__atomic_exchange_n(&tid_held[tid], 1, __ATOMIC_SEQ_CST)) {
      pbt_fail("thread id %lu was given to two threads", tid);
   }
   if (task_get_max_tid(ts) <= tid) {
      pbt_fail("thread id %lu is above the reported maximum %lu", tid, task_get_max_tid(ts));
   }
   if (scratch_size && task_system_get_thread_scratch(ts, tid) == NULL) {
      pbt_fail("a registered thread has no scratch space");
   }
   if (scratch_size) {
      memset(task_system_get_thread_scratch(ts, tid), 0xA5, scratch_size);
   }
}
static void
drop_tid(void)
{
   __atomic_store_n(&tid_held[platform_get_tid()], 0, __ATOMIC_SEQ_CST);
}
static pthread_barrier_t rbar;
static uint32_t          rok;
static void *
reg_thread(void *x)
{
   (void)x;
   platform_status rc = task_register_this_thread(ts, scratch_size);
   if (SUCCESS(rc)) {
      hold_tid();
      __atomic_fetch_add(&rok, 1, __ATOMIC_SEQ_CST);
      PBT_COUNT(N_REGS, 1);
   } else {
      PBT_COUNT(N_REGBUSY, 1);
      if (platform_get_tid() != INVALID_TID) {
         pbt_fail("a refused registration left a thread id");
      }
   }
   pthread_barrier_wait(&rbar);
   if (SUCCESS(rc)) {
      drop_tid();
      task_deregister_this_thread(ts);
      if (platform_get_tid() != INVALID_TID) {
         pbt_fail("a deregistered thread kept its id");
      }
   }
   return NULL;
}
static void
do_reg(uint32_t n, uint32_t avail)
{
   pthread_t th[80];
   rok = 0;
   pthread_barrier_init(&rbar, NULL, n + 1);
   for (uint32_t i = 0; i < n; i++) {
      if (pthread_create(&th[i], NULL, reg_thread, NULL)) {
         pbt_discard("pthread_create");
      }
   }
   pthread_barrier_wait(&rbar);
   if (rok != (n < avail ? n : avail)) {
      pbt_fail("%u threads asked for an id, %u were free, %u got one", n, avail, rok);
   }
   for (uint32_t i = 0; i < n; i++) {
      pthread_join(th[i], NULL);
   }
   pthread_barrier_destroy(&rbar);
}
static void
made_thread(void *arg)
{
   hold_tid();
   PBT_COUNT(N_REGS, 1);
   for (uint32_t i = 0; i < *(uint32_t *)arg; i++) {
      uint32_t s = (uint32_t)pbt_mix(i);
      submit(TASK_TYPE_FIRST + s % 2, 0, s, 0);
   }
   drop_tid();
}
static void *
submitter(void *x)
{
   targ *A = x;
   int   reg = A->t != 0;
   if (reg) {
      OKRC(task_register_this_thread(ts, scratch_size), "task_register_this_thread");
      hold_tid();
   }
   pthread_barrier_wait(&bar);
   for (int k = 0; k < A->c->nops; k++) {
      const pbt_op *o = &A->c->ops[k];
      if ((int)(o->a[4] % A->T) != A->t) {
         continue;
      }
      switch (o->kind) {
         case OP_ENQ:
            for (uint32_t j = 0; j < o->a[1]; j++) {
               uint32_t s = (uint32_t)pbt_mix(o->a[0] * 7919ull + j);
               submit(TASK_TYPE_FIRST + (o->a[2] == 2 ? s >> 5 & 1 : o->a[2]), (s >> 8) % 4 == 0 ? (s >> 12) % 4 : 0, s, (int)((s >> 16) % 100 < o->a[3]));
               if (s % 61 == 0) {
                  sample_quiet();
               }
            }
            break;
         case OP_PERF:
            for (uint32_t j = 0; j < o->a[1]; j++) {
               uint32_t        d0 = done;
               int             waiting = ordered && (dqh[1] != dqt[1] || dqh[2] != dqt[2]);
               platform_status rc = task_perform_one_if_needed(ts, o->a[2] == 0 ? 0 : o->a[2] == 1 ? 100 : UINT64_MAX);
               if (!SUCCESS(rc) && !STATUS_IS_EQ(rc, STATUS_TIMEDOUT)) {
                  OKRC(rc, "task_perform_one_if_needed");
               }
               /* without background threads the caller must do the work */
               if (ordered && done - d0 != (uint32_t)waiting) {
                  pbt_fail("task_perform_one ran %u tasks, %s waiting", done - d0, waiting ? "some were" : "none was");
               }
               if (ordered && SUCCESS(rc) != waiting) {
                  pbt_fail("task_perform_one returned %s", platform_status_to_string(rc));
               }
            }
            break;
         case OP_ALL:
            task_perform_all(ts);
            if (ordered && done != enqueued) {
               pbt_fail("task_perform_all returned with %u of %u tasks done", done, enqueued);
            }
            break;
         case OP_QUIET: {
            uint32_t e = __atomic_load_n(&enqueued, __ATOMIC_SEQ_CST);
            OKRC(task_perform_until_quiescent(ts), "task_perform_until_quiescent");
            uint32_t d = __atomic_load_n(&done, __ATOMIC_SEQ_CST);
            if (d < e) {
               pbt_fail("task_perform_until_quiescent returned with %u of %u tasks done", d, e);
            }
            PBT_COUNT(N_QUIET, 1);
            break;
         }
         case OP_CHECK:
            sample_quiet();
            break;
      }
   }
   if (reg) {
      drop_tid();
      task_deregister_this_thread(ts);
   }
   return NULL;
}
static void
run_task(const pbt_case *c)
{
   const uint64_t *f = c->cfg;
   hid               = NULL;
   FILE *nul         = fopen("/dev/null", "w");
   platform_set_log_streams(nul, nul);
   OKRC(platform_heap_create(platform_get_module_id(), 64 << 20, f[X_SHM], &hid), "heap create");
   char               file[700];
   snprintf(file, sizeof file, "%s", pbt_scratch("plat"));
   io_config          io_cfg;
   platform_io_handle io;
   task_system_config cfg;
   io_config_init(&io_cfg, PAGE, EXTENT, O_RDWR | O_CREAT, 0600, 64, file);
   OKRC(io_handle_init(&io, &io_cfg, hid), "io_handle_init");
   uint64 nbg[NUM_TASK_TYPES] = {0};
   nbg[TASK_TYPE_NORMAL]      = f[X_NORM];
   nbg[TASK_TYPE_MEMTABLE]    = f[X_MEMT];
   scratch_size               = f[X_SCRATCH];
   ts                         = NULL;
   OKRC(task_system_config_init(&cfg, f[X_STATS], nbg, scratch_size), "task_system_config_init");
   OKRC(task_system_create(hid, &io, &ts, &cfg), "task_system_create");
   TK = calloc(MAXTK, sizeof *TK);
   nTK = enqueued = done = 0;
   for (int q = 0; q < NUM_TASK_TYPES; q++) {
      dq[q]  = malloc(2 * MAXTK * sizeof(uint32_t));
      dqh[q] = dqt[q] = MAXTK;
   }
   ordered = f[X_NORM] + f[X_MEMT] == 0 && f[X_THREADS] == 1;
   hold_tid();
   /* phases are separated by operations that want the submitters gone */
   int from = 0;
   while (from < c->nops) {
      int to = from;
      while (to < c->nops && c->ops[to].kind != OP_REG && c->ops[to].kind != OP_CREATE && c->ops[to].kind != OP_WAIT) {
         to++;
      }
      if (to > from) {
         pbt_case sub = *c;
         sub.ops      = c->ops + from;
         sub.nops     = to - from;
         int       T  = f[X_THREADS];
         pthread_t th[16];
         targ      A[16];
         pthread_barrier_init(&bar, NULL, T);
         for (int t = 1; t < T; t++) {
            A[t] = (targ){&sub, t, T};
            if (pthread_create(&th[t], NULL, submitter, &A[t])) {
               pbt_discard("pthread_create");
            }
         }
         A[0] = (targ){&sub, 0, T};
         submitter(&A[0]);
         for (int t = 1; t < T; t++) {
            pthread_join(th[t], NULL);
         }
      }
      if (to < c->nops) {
         const pbt_op *o = &c->ops[to];
         if (o->kind == OP_REG) {
            do_reg(1 + o->a[0] % 75, MAX_THREADS - 1 - f[X_NORM] - f[X_MEMT]);
         } else if (o->kind == OP_CREATE) {
            platform_thread th[8];
            uint32_t        n = 1 + o->a[0] % 8, each = ordered ? 0 : o->a[1];
            for (uint32_t i = 0; i < n; i++) {
               OKRC(task_thread_create("pbt", made_thread, &each, scratch_size, ts, hid, &th[i]), "task_thread_create");
            }
            for (uint32_t i = 0; i < n; i++) {
               platform_thread_join(th[i]);
            }
         } else if (f[X_NORM] && f[X_MEMT]) {
            /* nobody helps the background threads */
            while (__atomic_load_n(&done, __ATOMIC_SEQ_CST) != __atomic_load_n(&enqueued, __ATOMIC_SEQ_CST)) {
               usleep(100);
            }
         }
         to++;
      }
      from = to;
   }
   OKRC(task_perform_until_quiescent(ts), "task_perform_until_quiescent");
   if (done != enqueued || enqueued != nTK) {
      pbt_fail("quiescent with %u of %u tasks done", done, enqueued);
   }
   for (uint32_t i = 0; i < nTK; i++) {
      if (TK[i].runs != 1) {
         pbt_fail("task %u ran %u times", i, TK[i].runs);
      }
   }
   uint64_t fg = 0, bg = 0, en = 0;
   for (int q = TASK_TYPE_FIRST; q < NUM_TASK_TYPES; q++) {
      for (int i = 0; i < MAX_THREADS; i++) {
         fg += ts->group[q].stats[i].total_fg_task_executions;
         bg += ts->group[q].stats[i].total_bg_task_executions;
         en += ts->group[q].stats[i].total_tasks_enqueued;
      }
   }
   if (f[X_STATS] && (fg + bg != nTK || en != nTK)) {
      pbt_fail("statistics: %lu enqueued, %lu + %lu executed, but there were %u tasks", en, fg, bg, nTK);
   }
   PBT_COUNT(N_BGRUN, bg);
   drop_tid();
   task_system_destroy(hid, &ts);
   if (ts != NULL) {
      pbt_fail("destroying the task system left its handle");
   }
   io_handle_deinit(&io);
   platform_heap_destroy(&hid);
   pbt_res->nontrivial = pbt_res->count[N_TASKS] >= 20 && (ordered ? pbt_res->count[N_ATHEAD] > 0 : pbt_res->count[N_QUIET] + pbt_res->count[N_SAMPLED] > 0);
}
static void
gen_task(pbt_case *c, pbt_rng *r, int thorough)
{
   uint64_t *f = c->cfg;
   int       o = pbt_pct(r, 35);
   f[X_NORM]    = o ? 0 : pbt_range(r, 0, 5);
   f[X_MEMT]    = o ? 0 : pbt_range(r, 0, 3);
   f[X_THREADS] = o ? 1 : pbt_range(r, 1, 6);
   f[X_SHM]     = pbt_pct(r, 25);
   f[X_STATS]   = pbt_pct(r, 50);
   f[X_SCRATCH] = pbt_pct(r, 20) ? 0 : pbt_logrange(r, 1, 3000);
   int n        = (int)pbt_range(r, 4, thorough ? 60 : 25);
   static const int w[] = {40, 14, 6, 14, 5, 4, 4, 10};
   static const int k[] = {OP_ENQ, OP_PERF, OP_ALL, OP_QUIET, OP_REG, OP_CREATE, OP_WAIT, OP_CHECK};
   for (int i = 0; i < n; i++) {
      int q = k[pbt_weighted(r, w, 8)];
      pbt_add(c, q, (uint32_t)pbt_u64(r), pbt_logrange(r, 1, 200), pbt_range(r, 0, 2), pbt_pct(r, 50) ? 0 : pbt_range(r, 0, 100), (uint32_t)pbt_u64(r) % 64);
   }
}
static int
task_racy(const pbt_case *c)
{
   return c->cfg[X_NORM] + c->cfg[X_MEMT] > 0 || c->cfg[X_THREADS] > 1;
}

/* ------------------------------------------------------------- rwlocks */
static platform_batch_rwlock *RW;
static struct {
   volatile uint64_t a, b;
   uint32_t          readers, claims, writers;
   char              pad[64];
} cell[32];
static void *
rw_thread(void *x)
{
   targ *A = x;
   platform_set_tid(A->t);
   pthread_barrier_wait(&bar);
   for (int k = 0; k < A->c->nops; k++) {
      const pbt_op *o = &A->c->ops[k];
      if ((int)(o->a[4] % A->T) != A->t) {
         continue;
      }
      pbt_rng r;
      pbt_seed(&r, o->a[0]);
      for (uint32_t j = 0; j < o->a[1]; j++) {
         int i = (int)(pbt_u64(&r) % A->c->cfg[X_LOCKS]);
         PBT_PROGRESS();
         platform_batch_rwlock_get(RW, i);
         __atomic_fetch_add(&cell[i].readers, 1, __ATOMIC_SEQ_CST);
         uint64_t v = cell[i].a;
         if (pbt_pct(&r, 10)) {
            sched_yield();
         }
         if (__atomic_load_n(&cell[i].writers, __ATOMIC_SEQ_CST)) {
            pbt_fail("lock %d: a reader and a writer are inside at the same time", i);
         }
         if (cell[i].b != v || cell[i].a != v) {
            pbt_fail("lock %d: the data changed under a reader", i);
         }
         PBT_COUNT(N_READS, 1);
         int claim = pbt_pct(&r, o->a[2]), loop = claim && pbt_pct(&r, 30);
         if (claim) {
            __atomic_fetch_sub(&cell[i].readers, 1, __ATOMIC_SEQ_CST);
            if (loop) {
               platform_batch_rwlock_claim_loop(RW, i);
            } else if (!platform_batch_rwlock_try_claim(RW, i)) {
               PBT_COUNT(N_CLAIMBUSY, 1);
               platform_batch_rwlock_unget(RW, i);
               continue;
            }
            if (__atomic_fetch_add(&cell[i].claims, 1, __ATOMIC_SEQ_CST)) {
               pbt_fail("lock %d: two threads hold the claim", i);
            }
            if (!loop && cell[i].a != v) {
               pbt_fail("lock %d: the data changed between a read lock and the claim taken under it", i);
            }
            v = cell[i].a;
            if (pbt_pct(&r, 60)) {
               platform_batch_rwlock_lock(RW, i);
               __atomic_fetch_add(&cell[i].writers, 1, __ATOMIC_SEQ_CST);
               if (cell[i].a != v || cell[i].b != v) {
                  pbt_fail("lock %d: the data changed while a claim was held", i);
               }
               cell[i].a = v + 1;
               if (pbt_pct(&r, 10)) {
                  sched_yield();
               }
               if (__atomic_load_n(&cell[i].readers, __ATOMIC_SEQ_CST)) {
                  /* (readers count themselves only inside) */
                  pbt_fail("lock %d: readers are inside a locked section", i);
               }
               cell[i].b = v + 1;
               __atomic_fetch_sub(&cell[i].writers, 1, __ATOMIC_SEQ_CST);
               PBT_COUNT(N_WRITES, 1);
               __atomic_fetch_sub(&cell[i].claims, 1, __ATOMIC_SEQ_CST);
               if (pbt_pct(&r, 50)) {
                  platform_batch_rwlock_full_unlock(RW, i);
               } else {
                  platform_batch_rwlock_unlock(RW, i);
                  platform_batch_rwlock_unclaim(RW, i);
                  platform_batch_rwlock_unget(RW, i);
               }
            } else {
               __atomic_fetch_sub(&cell[i].claims, 1, __ATOMIC_SEQ_CST);
               platform_batch_rwlock_unclaim(RW, i);
               platform_batch_rwlock_unget(RW, i);
            }
         } else {
            __atomic_fetch_sub(&cell[i].readers, 1, __ATOMIC_SEQ_CST);
            platform_batch_rwlock_unget(RW, i);
         }
      }
   }
   platform_set_tid(INVALID_TID);
   return NULL;
}
static void
run_rwlock(const pbt_case *c)
{
   RW = aligned_alloc(PLATFORM_CACHELINE_SIZE, sizeof *RW);
   memset(RW, 0x5A, sizeof *RW);
   platform_batch_rwlock_init(RW);
   memset(cell, 0, sizeof cell);
   spawn(c, rw_thread);
   uint64_t w = 0;
   for (int i = 0; i < 32; i++) {
      if (cell[i].a != cell[i].b) {
         pbt_fail("lock %d: half a write", i);
      }
      w += cell[i].a;
   }
   if (w != pbt_res->count[N_WRITES]) {
      pbt_fail("%lu write sections, %lu writes survive", pbt_res->count[N_WRITES], w);
   }
   pbt_res->nontrivial = pbt_res->count[N_WRITES] > 50 && pbt_res->count[N_CLAIMBUSY] > 0;
}
static void
gen_rwlock(pbt_case *c, pbt_rng *r, int thorough)
{
   c->cfg[X_THREADS] = pbt_pct(r, 85) ? pbt_range(r, 2, 6) : pbt_range(r, 7, 14);
   c->cfg[X_LOCKS]   = pbt_pct(r, 60) ? 1 : pbt_range(r, 2, 32);
   int n             = (int)pbt_range(r, c->cfg[X_THREADS], 2 * c->cfg[X_THREADS]);
   for (int i = 0; i < n; i++) {
      pbt_add(c, OP_LOCK, (uint32_t)pbt_u64(r), pbt_logrange(r, 50, (thorough ? 30000 : 8000) / c->cfg[X_THREADS]), pbt_pct(r, 50) ? pbt_range(r, 1, 100) : pbt_range(r, 1, 20), 0, i);
   }
}
static int
always(const pbt_case *c)
{
   return 1;
}

/* ---------------------------------------------------------- histograms */
static void
run_histo(const pbt_case *c)
{
   int    nb = 2 + c->cfg[X_LOCKS] % 60;
   int64 *lim = malloc(nb * sizeof *lim);
   pbt_rng r;
   pbt_seed(&r, c->cfg[X_SEED]);
   int64_t v = (int64_t)pbt_logrange(&r, 1, 1000) - 500;
   for (int i = 0; i < nb - 1; i++) {
      v += pbt_logrange(&r, 1, 100000);
      lim[i] = v;
   }
   hid = NULL;
   struct {
      platform_histo_handle h;
      uint64_t              cnt[64];
      int64_t               mn, mx, n, tot;
   } H[3] = {0};
   for (int q = 0; q < 3; q++) {
      OKRC(platform_histo_create(hid, nb, lim, &H[q].h), "histo create");
   }
   for (int k = 0; k < c->nops; k++) {
      const pbt_op *o = &c->ops[k];
      int           q = o->a[4] % 3;
      if (o->kind == OP_DATA) {
         pbt_seed(&r, o->a[0]);
         for (uint32_t j = 0; j < o->a[1]; j++) {
            int     at = (int)pbt_range(&r, 0, nb - 2);
            int64_t d  = pbt_pct(&r, 40) ? lim[at] + (int64_t)pbt_range(&r, 0, 2) - 1 : (int64_t)pbt_logrange(&r, 1, 1ull << 40) - 1000;
            int     b  = 0;
            while (b < nb - 1 && d > lim[b]) {
               b++;
            }
            platform_histo_insert(H[q].h, d);
            H[q].cnt[b]++;
            H[q].mn = H[q].n == 0 || d < H[q].mn ? d : H[q].mn;
            H[q].mx = H[q].n == 0 || d > H[q].mx ? d : H[q].mx;
            H[q].n++;
            H[q].tot += d;
            PBT_COUNT(N_DATA, 1);
         }
      } else {
         int from = o->a[0] % 3;
         if (from == q) {
            continue;
         }
         platform_histo_merge_in(H[q].h, H[from].h);
         if (H[from].n) {
            H[q].mn = H[q].n == 0 || H[from].mn < H[q].mn ? H[from].mn : H[q].mn;
            H[q].mx = H[q].n == 0 || H[from].mx > H[q].mx ? H[from].mx : H[q].mx;
            H[q].n += H[from].n;
            H[q].tot += H[from].tot;
            for (int b = 0; b < nb; b++) {
               H[q].cnt[b] += H[from].cnt[b];
            }
         }
      }
      for (int b = 0; b < nb; b++) {
         if (H[q].h->count[b] != H[q].cnt[b]) {
            pbt_fail("histogram of %d buckets: bucket %d (up to %ld) counts %lu, expected %lu", nb, b, b < nb - 1 ? (long)lim[b] : -1l, (uint64_t)H[q].h->count[b], H[q].cnt[b]);
         }
      }
      if (H[q].h->num != H[q].n || (H[q].n && (H[q].h->min != H[q].mn || H[q].h->max != H[q].mx || H[q].h->total != H[q].tot))) {
         pbt_fail("histogram: count %ld min %ld max %ld total %ld, expected %ld %ld %ld %ld", (long)H[q].h->num, (long)H[q].h->min, (long)H[q].h->max, (long)H[q].h->total, H[q].n, H[q].mn, H[q].mx, H[q].tot);
      }
   }
   for (int q = 0; q < 3; q++) {
      platform_histo_destroy(hid, &H[q].h);
   }
   pbt_res->nontrivial = pbt_res->count[N_DATA] > 20;
}
static void
gen_histo(pbt_case *c, pbt_rng *r, int thorough)
{
   c->cfg[X_LOCKS] = pbt_range(r, 0, 59);
   c->cfg[X_SEED]  = pbt_u64(r) >> 8;
   int n           = (int)pbt_range(r, 1, 12);
   for (int i = 0; i < n; i++) {
      pbt_add(c, pbt_pct(r, 75) ? OP_DATA : OP_MERGE, (uint32_t)pbt_u64(r), pbt_logrange(r, 1, 200), 0, 0, pbt_range(r, 0, 2));
   }
}
#define P(name, d, g, ru, ra, rl)                                              \
   static const pbt_prop name = {.id = #name + 2, .desc = d, .gen = g, .run = ru, .racy = ra, .opnames = opnames, .cfgnames = cfgnames, .countnames = countnames, .rule = rl}
P(p_shm, "shared-memory heap", gen_shm, run_shm, NULL, "a large fragment was recycled and the last small one given back");
P(p_shm_mt, "shared-memory heap under threads", gen_shm_mt, run_shm_mt, always, "over 100 fragments were freed, some by another thread than their owner");
P(p_task, "task system and thread ids", gen_task, run_task, task_racy, "at least 20 tasks ran, and their order or a quiescent state was checked");
P(p_rwlock, "batch reader/writer locks", gen_rwlock, run_rwlock, always, "over 50 write sections, and some claim was refused");
P(p_histo, "latency histograms", gen_histo, run_histo, NULL, "over 20 data were counted");
const pbt_prop *pbt_props[] = {&p_shm, &p_shm_mt, &p_task, &p_rwlock, &p_histo, NULL};
int
main(int argc, char **argv)
{
   return pbt_main(argc, argv);
}
