/*
 * db_async.c -- asynchronous lookups (trunk_lookup_async) answer as the
 * reference map says, for any number in flight, cold or warm caches, and a
 * device that completes requests late and out of order.
 */
#define DB_SEQ_PART
#include "db_seq.c"
#include "slowio.h"
#ifndef PBT_INTERNALS
#   error "needs the internal headers"
#endif

enum { N_ASYNC = 20, N_RETRIES, N_IOS, N_ASYNC_FOUND, N_BATCHES };
static const char *acnt[] = {"writes", "deletes", "updates", "lookups", "hits", "scans", "scanned_tuples", "cursor_moves", "direction_changes", "reopens", "memtable_fills", "invalid_requests", "merge_callbacks", "final_merge_callbacks", "cases_tree_height_0", "cases_tree_height_1", "cases_tree_height_2", "cases_tree_height_3plus", "-", "-", "async_lookups", "retries", "waits_for_the_device", "async_found", "batches", NULL};

#define MAXF 64
typedef struct {
   trunk_async_ctxt  ctxt;
   merge_accumulator ma;
   uint32_t          i;
   int               state; /* 0 free, 1 ready, 2 waiting */
   uint64_t          tries;
} fly;
static __thread fly *F;

static void
on_ready(trunk_async_ctxt *x)
{
   fly *f = (fly *)((char *)x - offsetof(fly, ctxt));
   if (f->state != 2) {
      pbt_fail("an asynchronous lookup of key %s was woken although it was not waiting", kstr(f->i));
   }
   f->state = 1;
}
static void
judge(fly *f)
{
   uint32_t i     = f->i;
   int      found = !merge_accumulator_is_null(&f->ma);
   if (found != model[i].present) {
      pbt_fail("asynchronous lookup of key %s: %s, but the history says %s", kstr(i), found ? "found" : "not found", model[i].present ? "present" : "absent");
   }
   if (found) {
      message m = merge_accumulator_to_message(&f->ma);
      check_value("asynchronous lookup", i, message_slice(m));
      PBT_COUNT(N_ASYNC_FOUND, 1);
   }
   PBT_COUNT(N_ASYNC, 1);
}
static void
do_async(uint32_t start, uint32_t cnt, uint32_t stride, uint32_t inflight, uint32_t seed)
{
   trunk_handle *spl = (trunk_handle *)splinterdb_get_trunk_handle(db);
   cache        *cc  = (cache *)splinterdb_get_cache_handle(db);
   pbt_rng       r;
   pbt_seed(&r, seed);
   inflight = 1 + inflight % MAXF;
   F        = calloc(MAXF, sizeof *F);
   uint32_t next = 0, live = 0;
   uint64_t idle = 0;
   for (uint32_t j = 0; j < inflight; j++) {
      F[j].state = 0;
      merge_accumulator_init(&F[j].ma, PROCESS_PRIVATE_HEAP_ID);
   }
   while (next < cnt || live) {
      uint32_t j = pbt_u64(&r) % inflight;
      fly     *f = &F[j];
      if (f->state == 0 && next < cnt) {
         f->i     = (uint32_t)((start + (uint64_t)next++ * stride) % K);
         f->state = 1;
         f->tries = 0;
         live++;
         trunk_async_ctxt_init(&f->ctxt, on_ready);
      }
      if (f->state != 1) {
         if (pbt_u64(&r) % 4 == 0) {
            cache_cleanup(cc);
         }
         if (++idle > 2000000) {
            pbt_fail("asynchronous lookups never complete");
         }
         continue;
      }
      idle     = 0;
      f->state = 2;
      switch (trunk_lookup_async(spl, key_create_from_slice(kslice(f->i)), &f->ma, &f->ctxt)) {
         case async_success:
            judge(f);
            f->state = 0;
            live--;
            break;
         case async_io_started:
            /* (the callback may already have come) */
            PBT_COUNT(N_IOS, 1);
            break;
         default:
            f->state = 1;
            PBT_COUNT(N_RETRIES, 1);
            cache_cleanup(cc);
            if (++f->tries > 1000000) {
               pbt_fail("asynchronous lookup of key %s is told to retry for ever", kstr(f->i));
            }
      }
      if ((next & 255) == 0) {
         PBT_PROGRESS();
      }
   }
   for (uint32_t j = 0; j < inflight; j++) {
      merge_accumulator_deinit(&F[j].ma);
   }
   free(F);
   PBT_COUNT(N_BATCHES, 1);
}
static struct {
   uint32_t start, cnt, stride, inflight, seed;
} job;
static void *
worker(void *arg)
{
   uint32_t t = (uint32_t)(uintptr_t)arg;
   splinterdb_register_thread(db);
   do_async(job.start + t * job.cnt / 2, job.cnt, job.stride, job.inflight + t, job.seed + t);
   splinterdb_deregister_thread(db);
   return NULL;
}
static void
asyncs(uint32_t start, uint32_t cnt, uint32_t stride, uint32_t inflight, uint32_t seed)
{
   slowio_set(seed % 3 == 0 ? 0 : 30 + seed % 60, seed);
   pthread_t th[8];
   int       n = cf[CF_X1] % 8;
   job.start = start, job.cnt = cnt, job.stride = stride, job.inflight = inflight, job.seed = seed;
   for (int t = 0; t < n; t++) {
      if (pthread_create(&th[t], NULL, worker, (void *)(uintptr_t)(t + 1))) {
         pbt_discard("pthread_create failed");
      }
   }
   do_async(start, cnt, stride, inflight, seed);
   for (int t = 0; t < n; t++) {
      pthread_join(th[t], NULL);
   }
   slowio_set(0, 1);
}
/* OP_CHURN: a0 start, a1 count, a2 stride, a3 in flight, a4 seed */
static void
run_async(const pbt_case *c)
{
   state_init(c);
   db_create();
   pbt_case sub = *c;
   for (int n = 0; n < c->nops; n++) {
      const pbt_op *o = &c->ops[n];
      if (o->kind == OP_CHURN) {
         asyncs(o->a[0], o->a[1], o->a[2] ? o->a[2] : 1, o->a[3], o->a[4]);
      } else {
         sub.ops  = &c->ops[n];
         sub.nops = 1;
         run_ops(&sub);
      }
   }
   pbt_op o = {OP_REOPEN, {0, 0, 0, 0, 0}};
   do_reopen(&o);
   asyncs(0, K < 6000 ? K : 6000, K < 6000 ? 1 : (K / 2) | 1, cf[CF_X0], (uint32_t)cf[CF_KSEED]);
   asyncs((uint32_t)cf[CF_KSEED] % K, 500, 1, cf[CF_X0] + 1, (uint32_t)cf[CF_KSEED] + 1);
   db_destroy();
   finish();
   pbt_res->nontrivial = pbt_res->nontrivial && pbt_res->count[N_IOS] > 0;
}
static void
gen_async(pbt_case *c, pbt_rng *r, int t)
{
   uint64_t *f = c->cfg;
   gen_any(c, r, t, pbt_pct(r, 50) ? G_MERGE : G_REOPEN);
   f[CF_X0]       = pbt_range(r, 0, MAXF - 1);
   f[CF_X1]       = pbt_pct(r, 60) ? 0 : pbt_range(r, 1, 4);
   f[CF_CACHE_MB] = pbt_pct(r, 70) ? pbt_range(r, 10, 14) : f[CF_CACHE_MB];
   f[CF_LOG]      = 0;
   int n = (int)pbt_range(r, 0, 3);
   for (int i = 0; i < n; i++) {
      /* somewhere in the history */
      int at = (int)pbt_range(r, 0, c->nops);
      pbt_add(c, OP_CHURN, (uint32_t)pbt_range(r, 0, f[CF_NKEYS] - 1), (uint32_t)pbt_logrange(r, 1, 3000), (uint32_t)pbt_logrange(r, 1, f[CF_NKEYS]), (uint32_t)pbt_range(r, 0, MAXF - 1), (uint32_t)pbt_u64(r));
      pbt_op o = c->ops[c->nops - 1];
      memmove(&c->ops[at + 1], &c->ops[at], (c->nops - 1 - at) * sizeof o);
      c->ops[at] = o;
   }
}
static int
async_racy(const pbt_case *c)
{
   return c->cfg[CF_X1] % 8 != 0;
}
static const pbt_prop p_async = {.racy = async_racy, .id = "async", .desc = "asynchronous lookups", .gen = gen_async, .run = run_async, .opnames = opnames, .cfgnames = cfgnames, .countnames = acnt, .rule = RULE ", and some asynchronous lookup waited for the device"};
const pbt_prop *pbt_props[] = {&p_async, NULL};
int
main(int argc, char **argv)
{
   return pbt_main(argc, argv);
}
