/*
 * db_space.c -- space accounting of the whole store: device space that holds
 * nothing any more is returned.
 *
 *  - opening and closing the store without writing anything leaves the amount
 *    of allocated device space as it was;
 *  - destroying the table (which returns everything that is reachable from it)
 *    leaves nothing allocated but the allocator's own bookkeeping: whatever
 *    remains had leaked, whatever is returned twice trips the allocator;
 *  - overwriting a bounded set of keys again and again uses bounded space.
 */
#define DB_SEQ_PART
#include "db_seq.c"
#ifndef PBT_INTERNALS
#   error "needs the internal headers"
#endif

static uint64_t
in_use(void)
{
   return allocator_in_use((allocator *)splinterdb_get_allocator_handle(db));
}
static uint64_t
own_extents(void)
{
   uint64_t n = (cf[CF_DISK_MB] << 20) / (128 << 10);
   n          = (n + 4095) / 4096 * 4096;
   return 1 + (n + (128 << 10) - 1) / (128 << 10);
}
/*
 * Where the list of all trunk node extents starts.  trunk_mount() does not
 * know it once the root has moved, and nothing but trunk_destroy(), which no
 * user can call, ever needs it: remember it on behalf of trunk_destroy().
 */
static uint64_t meta_head;
static void
idle_sessions(const pbt_op *o)
{
   uint64_t before = in_use();
   int      n      = 1 + o->a[2] % 3;
   pbt_op   q      = {OP_REOPEN, {0, 0, 0, 0, 0}};
   for (int i = 0; i < n; i++) {
      do_reopen(&q);
   }
   uint64_t now = in_use();
   if (now != before) {
      pbt_fail("%d sessions that wrote nothing changed the allocated space from %lu to %lu extents", n, (unsigned long)before, (unsigned long)now);
   }
}
static void
destroy_table(void)
{
   trunk_handle *spl = (trunk_handle *)splinterdb_get_trunk_handle(db);
   allocator    *al  = (allocator *)splinterdb_get_allocator_handle(db);
   drop_result();
   count_height();
   PBT_PROGRESS();
   spl->mini.meta_head = meta_head;
   trunk_destroy(spl);
   uint64_t left = allocator_in_use(al), own = own_extents();
   if (left != own) {
      pbt_fail("the table was destroyed, but %ld extents of device space %s", labs((long)left - (long)own), left > own ? "remain allocated (leaked)" : "too many were returned");
   }
}
static void
run_space(const pbt_case *c)
{
   state_init(c);
   after_reopen = idle_sessions;
   db_create();
   meta_head = ((trunk_handle *)splinterdb_get_trunk_handle(db))->mini.meta_head;
   run_ops(c);
   check_get((uint32_t)cf[CF_KSEED] % K);
   if (cf[CF_X0]) {
      pbt_op q = {OP_REOPEN, {0, 0, 0, 0, 0}};
      do_reopen(&q);
   }
   destroy_table();
   finish();
}
/* bounded live data */
static void
run_bounded(const pbt_case *c)
{
   state_init(c);
   db_create();
   meta_head = ((trunk_handle *)splinterdb_get_trunk_handle(db))->mini.meta_head;
   uint64_t live = 0, early = 0, late = 0;
   pbt_rng  r;
   pbt_seed(&r, cf[CF_X1]);
   uint64_t rounds = cf[CF_X2];
   for (uint64_t n = 0; n < rounds; n++) {
      uint32_t st = (uint32_t)pbt_range(&r, 1, K) | 1;
      int      del = pbt_pct(&r, (int)cf[CF_X3]);
      for (uint32_t j = 0; j < K; j++) {
         uint32_t i = (uint32_t)(((uint64_t)j * st) % K);
         if (del) {
            do_del(i);
         } else {
            do_put(i, (uint32_t)pbt_u64(&r));
         }
         if ((j & 255) == 0) {
            PBT_PROGRESS();
         }
      }
      uint64_t u = in_use();
      if (n < rounds / 3) {
         early = u > early ? u : early;
      } else if (n >= rounds * 2 / 3) {
         late = u > late ? u : late;
      }
   }
   for (uint32_t i = 0; i < K; i++) {
      live += db_vavg[cf[CF_VCLASS]] + kl[i] + 16;
   }
   live = live / (128 << 10) + 1;
   if (getenv("PBT_SHOW")) {
      FILE *sf = fopen(getenv("PBT_SHOW"), "a");
      fprintf(sf, "live %lu early %lu late %lu ratio %f mem %lu fan %lu br %lu rounds %lu\n", live, early, late, (double)late / early, cf[CF_MEM_KB], cf[CF_FANOUT], cf[CF_BRANCHES], rounds);
      fclose(sf);
   }
   if (late > 2 * early + 64) {
      pbt_fail("%lu rounds of overwriting %u keys (about %lu extents of live data): the device space in use grew from %lu extents in the first third of the rounds to %lu in the last third", rounds, K, live, early, late);
   }
   check_all_points();
   destroy_table();
   finish();
}
static void
gen_space(pbt_case *c, pbt_rng *r, int t)
{
   uint64_t *f = c->cfg;
   gen_any(c, r, t, pbt_pct(r, 70) ? G_REOPEN : G_MERGE);
   f[CF_LOG] = pbt_pct(r, 40);
   f[CF_X0]  = pbt_pct(r, 40);
   if (pbt_pct(r, 30)) {
      pbt_add(c, OP_REOPEN, 0, 0, pbt_range(r, 0, 2), 0, 0);
   }
}
static void
gen_bounded(pbt_case *c, pbt_rng *r, int t)
{
   uint64_t *f = c->cfg;
   db_gen_config(c, r, 0);
   gen_keys(c, r, 0);
   static const int vw[8] = {20, 15, 25, 8, 12, 4, 4, 12};
   f[CF_VCLASS]           = pbt_weighted(r, vw, 8);
   uint64_t bytes         = pbt_logrange(r, 100, 3000) << 10;
   uint64_t nk            = bytes / (db_vavg[f[CF_VCLASS]] + klen_avg(f) + 4);
   f[CF_NKEYS]            = nk < 10 ? 10 : nk > 40000 ? 40000 : nk;
   uint64_t total         = 48ull << 20;
   f[CF_X2]               = total / bytes < 12 ? 12 : total / bytes > 300 ? 300 : total / bytes;
   f[CF_X1]               = pbt_u64(r) >> 16;
   f[CF_X3]               = pbt_pct(r, 40) ? pbt_range(r, 5, 60) : 0;
   f[CF_LOG] = 0; /* the log is only dropped at close, by design */
}
static const pbt_prop p_space = {.id = "space", .desc = "no device space leaks", .gen = gen_space, .run = run_space, .opnames = opnames, .cfgnames = cfgnames, .countnames = countnames, .rule = RULE};
static const pbt_prop p_bounded = {.id = "bounded", .desc = "bounded live data uses bounded space", .gen = gen_bounded, .run = run_bounded, .opnames = opnames, .cfgnames = cfgnames, .countnames = countnames, .rule = RULE};
const pbt_prop *pbt_props[] = {&p_space, &p_bounded, NULL};
int
main(int argc, char **argv)
{
   return pbt_main(argc, argv);
}
