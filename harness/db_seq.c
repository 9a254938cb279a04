/*
 * db_seq.c -- single-client histories against the whole store (public API),
 * checked against a reference map.
 */
#define _GNU_SOURCE
#include "dbcommon.h"
#ifdef PBT_INTERNALS
#   include "platform.h"
#   include "trunk.h"
#   include "splinterdb_tests_private.h"
#endif
#include <errno.h>
#include <unistd.h>

enum {
   OP_PUT,
   OP_DEL,
   OP_UPD,
   OP_GET,
   OP_BPUT,
   OP_BDEL,
   OP_BUPD,
   OP_MIX,
   OP_CHECK,
   OP_SCAN,
   OP_WALK,
   OP_REOPEN,
   OP_BAD,
   OP_BUF,
   OP_CHURN,
};
static const char *opnames[] = {"PUT", "DEL", "UPD", "GET", "BPUT", "BDEL", "BUPD", "MIX", "CHECK", "SCAN", "WALK", "REOPEN", "BAD", "BUF", "CHURN", NULL};
static const char *cfgnames[] = {DB_CFGNAMES, NULL};
enum {
   N_WRITES,
   N_DELETES,
   N_UPDATES,
   N_LOOKUPS,
   N_HITS,
   N_SCANS,
   N_SCANNED,
   N_CURSOR_MOVES,
   N_DIRCHANGES,
   N_REOPENS,
   N_FILLS,
   N_BAD,
   N_MERGES,
   N_FINALS,
   N_HEIGHT0,
   N_HEIGHT1,
   N_HEIGHT2,
   N_HEIGHT3,
};
static const char *countnames[] = {"writes", "deletes", "updates", "lookups", "hits", "scans", "scanned_tuples", "cursor_moves", "direction_changes", "reopens", "memtable_fills", "invalid_requests", "merge_callbacks", "final_merge_callbacks", "cases_tree_height_0", "cases_tree_height_1", "cases_tree_height_2", "cases_tree_height_3plus", NULL};

/* -------------------------------------------------------------------- state */
typedef struct {
   uint32_t x;
   uint8_t  present;
} ent;
static uint64_t           cf[PBT_NCFG];
static uint32_t           K;
static uint8_t           *kb; /* key bytes, stride maxkey */
static uint16_t          *kl;
static uint32_t          *kh;
static uint32_t          *order; /* indices by key order */
static ent               *model;
static uint32_t           vid;
static splinterdb        *db;
static splinterdb_config  scfg;
static my_data_config     dcfg;
static uint64_t           written, filled_unit;
static char              *lbuf;
static char               dbfile[600];
static splinterdb_lookup_result res;
static int                res_live;
/* (fault harness) what the client is doing: 0 operations, 1 close, 2 open, 3 create */
static int phase;
/* (fault harness) told about every error the store reports */
static void (*on_error)(const char *what, int rc);
#define REPORTED(what, rc)                                                     \
   do {                                                                        \
      if (on_error) {                                                          \
         on_error(what, rc);                                                   \
      }                                                                        \
   } while (0)

static inline slice
kslice(uint32_t i)
{
   return slice_create(kl[i], kb + (size_t)i * cf[CF_MAXKEY]);
}
static int
order_cmp(const void *a, const void *b)
{
   uint32_t x = *(const uint32_t *)a, y = *(const uint32_t *)b;
   return keycmp_raw(cf[CF_CMP], kb + (size_t)x * cf[CF_MAXKEY], kl[x], kb + (size_t)y * cf[CF_MAXKEY], kl[y]);
}
static uint32_t
lower_bound(const uint8_t *k, size_t n)
{
   uint32_t lo = 0, hi = K;
   while (lo < hi) {
      uint32_t m = (lo + hi) / 2, x = order[m];
      if (keycmp_raw(cf[CF_CMP], kb + (size_t)x * cf[CF_MAXKEY], kl[x], k, n) < 0) {
         lo = m + 1;
      } else {
         hi = m;
      }
   }
   return lo;
}
static const char *
kstr(uint32_t i)
{
   static char b[4][160];
   static int  n;
   char       *s = b[n++ & 3];
   int         k = snprintf(s, 160, "#%u[", i);
   for (int j = 0; j < kl[i] && j < 24; j++) {
      k += snprintf(s + k, 160 - k, "%02x", kb[(size_t)i * cf[CF_MAXKEY] + j]);
   }
   snprintf(s + k, 160 - k, "]");
   return s;
}
static void
init_result(void)
{
   if (res_live) {
      splinterdb_lookup_result_deinit(&res);
   }
   splinterdb_lookup_result_init(db, &res, cf[CF_BUFLEN], cf[CF_BUFLEN] ? lbuf : NULL);
   res_live = 1;
}
static void
drop_result(void)
{
   if (res_live) {
      splinterdb_lookup_result_deinit(&res);
   }
   res_live = 0;
}
static void
state_init(const pbt_case *c)
{
   memcpy(cf, c->cfg, sizeof cf);
   if (cf[CF_MAXKEY] < 16) {
      cf[CF_MAXKEY] = 16;
   }
   if (cf[CF_NKEYS] < 1) {
      cf[CF_NKEYS] = 1;
   }
   if (cf[CF_MEM_KB] < 704 || cf[CF_FANOUT] < 2 || cf[CF_BRANCHES] < 2 || cf[CF_CACHE_MB] < 10) {
      pbt_discard("outside the configuration domain");
   }
   K     = cf[CF_NKEYS];
   kb    = malloc((size_t)K * cf[CF_MAXKEY] + 64);
   kl    = malloc(K * 2);
   kh    = malloc(K * 4);
   order = malloc(K * 4);
   model = calloc(K, sizeof(ent));
   for (uint32_t i = 0; i < K; i++) {
      uint8_t *p = kb + (size_t)i * cf[CF_MAXKEY];
      uint8_t  t[1024];
      kl[i] = db_key(cf[CF_KEYSTYLE], cf[CF_MAXKEY], cf[CF_KSEED], i, t);
      if (kl[i] > cf[CF_MAXKEY]) {
         pbt_discard("key too long");
      }
      memcpy(p, t, kl[i]);
      kh[i]    = bhash(p, kl[i]);
      order[i] = i;
   }
   qsort(order, K, 4, order_cmp);
   lbuf = malloc(4096);
   snprintf(dbfile, sizeof dbfile, "%s", pbt_scratch("db"));
   vid         = 1;
   filled_unit = (cf[CF_MEM_KB]) << 10;
}
static void
db_create(void)
{
   /*
    * Known finding F-HARD: create accepts configurations whose nodes have
    * almost no room for branches beyond the soft limit and later aborts.
    * The size formula is that of the tree this harness was written for.
    */
   int64_t hard = (4096 - 1190 - (int64_t)(cf[CF_FANOUT] + 6) * (int64_t)(cf[CF_MAXKEY] + 91)) / 8 - 1;
   if (hard < (int64_t)(3 * cf[CF_BRANCHES] + 24) && !getenv("PBT_KNOWN")) {
      pbt_discard("node has too little room for branches (known finding)");
   }
   db_fill_config(&scfg, &dcfg, cf, dbfile);
   int rc = splinterdb_create(&scfg, &db);
   if (rc != 0) {
      if (rc == EINVAL) {
         pbt_discard("create: EINVAL (node does not fit)");
      }
      pbt_fail("splinterdb_create failed: %d", rc);
   }
   init_result();
}
static void
count_height(void)
{
#ifdef PBT_INTERNALS
   char  *txt = NULL;
   size_t n   = 0;
   FILE  *m   = open_memstream(&txt, &n);
   trunk_print_space_use((platform_log_handle *)m, (trunk_handle *)splinterdb_get_trunk_handle(db));
   fclose(m);
   char *p = strstr(txt, "trunk_tree_height=");
   int   h = p ? atoi(p + 18) : 0;
   PBT_COUNT(N_HEIGHT0 + (h > 3 ? 3 : h), 1);
   free(txt);
#endif
}
static void
db_destroy(void)
{
   drop_result();
   if (cf[CF_BG_NORM] == 0) {
      count_height();
   }
   splinterdb_close(&db);
   if (db != NULL) {
      pbt_fail("splinterdb_close left the handle set");
   }
}

/* ------------------------------------------------------------- mutations */
static void
account(uint32_t i, unsigned n)
{
   written += n + kl[i] + 8;
   while (written >= filled_unit) {
      written -= filled_unit;
      PBT_COUNT(N_FILLS, 1);
   }
}
static void
do_put(uint32_t i, uint32_t h)
{
   uint8_t  v[DB_MAXVAL + 8];
   uint32_t x = cf[CF_MERGE] ? 1 + h % (MERGE_P - 1) : vid++;
   unsigned n = db_value(cf[CF_VCLASS], cf[CF_MERGE], kh[i], x, v);
   int      rc = splinterdb_insert(db, kslice(i), slice_create(n, v));
   if (rc) {
      REPORTED("insert", rc);
      pbt_fail("insert of key %s (%u byte value) returned %d", kstr(i), n, rc);
   }
   model[i] = (ent){x, 1};
   account(i, n);
   PBT_COUNT(N_WRITES, 1);
}
static void
do_del(uint32_t i)
{
   int rc = splinterdb_delete(db, kslice(i));
   if (rc) {
      REPORTED("delete", rc);
      pbt_fail("delete of key %s returned %d", kstr(i), rc);
   }
   model[i] = (ent){0, 0};
   account(i, 0);
   PBT_COUNT(N_DELETES, 1);
}
static void
do_upd(uint32_t i, uint32_t h)
{
   uint8_t  v[DB_MAXVAL + 8];
   uint32_t a = h % MERGE_P, b = (h >> 7) % MERGE_P;
   if (h % 32 == 5) {
      a = 0, b = 0;
   } else if (h % 32 == 6) {
      a = 0;
   } else if (h % 32 == 7) {
      a = 1;
   }
   unsigned n  = db_delta(cf[CF_VCLASS], kh[i], a, b, v);
   int      rc = splinterdb_update(db, kslice(i), slice_create(n, v));
   if (rc) {
      REPORTED("update", rc);
      pbt_fail("update of key %s returned %d", kstr(i), rc);
   }
   uint32_t x = affine(a, b, model[i].present ? model[i].x : 0);
   model[i]   = (ent){x, x != 0};
   account(i, n);
   PBT_COUNT(N_UPDATES, 1);
}

/* ---------------------------------------------------------------- checks */
static void
check_value(const char *what, uint32_t i, slice v)
{
   uint8_t  e[DB_MAXVAL + 8];
   unsigned n = db_value(cf[CF_VCLASS], cf[CF_MERGE], kh[i], model[i].x, e);
   if (slice_length(v) != n || memcmp(slice_data(v), e, n)) {
      uint32_t got = 0;
      if (slice_length(v) >= 4) {
         memcpy(&got, slice_data(v), 4);
      }
      pbt_fail("%s: key %s: wrong value: got %lu bytes (head %08x), expected %u bytes (version %u)", what, kstr(i), (unsigned long)slice_length(v), got, n, model[i].x);
   }
}
static void
check_get(uint32_t i)
{
   int rc = splinterdb_lookup(db, kslice(i), &res);
   if (rc) {
      REPORTED("lookup", rc);
      pbt_fail("lookup of key %s returned %d", kstr(i), rc);
   }
   bool  f = splinterdb_lookup_found(&res);
   slice v = NULL_SLICE;
   int   vrc = splinterdb_lookup_result_value(&res, &v);
   if (f != model[i].present) {
      pbt_fail("lookup of key %s: %s, but the history says %s", kstr(i), f ? "found" : "not found", model[i].present ? "present" : "absent");
   }
   if (f ? vrc != 0 : vrc == 0) {
      pbt_fail("lookup_result_value returned %d on a %s key", vrc, f ? "found" : "missing");
   }
   if (f) {
      check_value("lookup", i, v);
      PBT_COUNT(N_HITS, 1);
   }
   PBT_COUNT(N_LOOKUPS, 1);
}
/* makes a start key; returns 0 if NULL start */
static int
start_key(uint32_t mode, uint32_t i, uint8_t *k, unsigned *n)
{
   i %= K;
   memcpy(k, kb + (size_t)i * cf[CF_MAXKEY], kl[i]);
   *n = kl[i];
   switch (mode % 6) {
      case 0:
         return 0;
      case 1:
      case 2:
         break;
      case 3: /* one byte shorter */
         if (*n > 1) {
            (*n)--;
         }
         break;
      case 4: /* one byte longer */
         if (*n < cf[CF_MAXKEY]) {
            k[(*n)++] = (uint8_t)(i * 37);
         }
         break;
      case 5: /* last byte bumped */
         k[*n - 1]++;
         break;
   }
   return 1;
}
static void
bad_pos(const char *what, splinterdb_iterator *it, int64_t exp)
{
   slice k = NULL_SLICE, v = NULL_SLICE;
   char  hex[100] = "";
   if (splinterdb_iterator_valid(it)) {
      splinterdb_iterator_get_current(it, &k, &v);
      for (unsigned j = 0; j < slice_length(k) && j < 24; j++) {
         sprintf(hex + 2 * j, "%02x", ((const uint8_t *)slice_data(k))[j]);
      }
   }
   pbt_fail("%s: iterator is at %s%s, expected %s", what, splinterdb_iterator_valid(it) ? "key " : "no key (invalid)", hex, exp < 0 ? "the end" : kstr(exp));
}
static int
at(splinterdb_iterator *it, uint32_t i)
{
   slice k, v;
   if (!splinterdb_iterator_valid(it)) {
      return 0;
   }
   splinterdb_iterator_get_current(it, &k, &v);
   return slice_length(k) == kl[i] && !memcmp(slice_data(k), kb + (size_t)i * cf[CF_MAXKEY], kl[i]);
}
static splinterdb_iterator *
it_open(uint32_t mode, uint32_t i, uint32_t *pos)
{
   uint8_t              k[1024];
   unsigned             n;
   splinterdb_iterator *it = NULL;
   slice                s  = NULL_SLICE;
   *pos                    = 0;
   if (start_key(mode, i, k, &n)) {
      s    = slice_create(n, k);
      *pos = lower_bound(k, n);
   }
   int rc = splinterdb_iterator_init(db, &it, s);
   if (rc) {
      REPORTED("iterator", rc);
      pbt_fail("iterator_init returned %d", rc);
   }
   /* the caller's key buffer is only borrowed during the call */
   memset(k, 0xEE, sizeof k);
   return it;
}
static void
do_scan(uint32_t mode, uint32_t i, uint32_t max)
{
   uint32_t             pos, seen = 0;
   splinterdb_iterator *it = it_open(mode, i, &pos);
   if (max == 0) {
      max = UINT32_MAX;
   }
   for (;; pos++) {
      while (pos < K && !model[order[pos]].present) {
         pos++;
      }
      if (seen >= max) {
         break;
      }
      if (pos >= K) {
         if (splinterdb_iterator_valid(it)) {
            bad_pos("scan", it, -1);
         }
         if (splinterdb_iterator_can_next(it)) {
            pbt_fail("scan: exhausted iterator claims can_next");
         }
         break;
      }
      uint32_t x = order[pos];
      if (!at(it, x)) {
         bad_pos("scan", it, x);
      }
      slice k, v;
      splinterdb_iterator_get_current(it, &k, &v);
      check_value("scan", x, v);
      seen++;
      splinterdb_iterator_next(it);
      if ((seen & 1023) == 0) {
         PBT_PROGRESS();
      }
   }
   if (splinterdb_iterator_status(it) != 0) {
      pbt_fail("scan: status %d", splinterdb_iterator_status(it));
   }
   splinterdb_iterator_deinit(it);
   PBT_COUNT(N_SCANS, 1);
   PBT_COUNT(N_SCANNED, seen);
}
/* random walk with a bidirectional cursor */
static void
do_walk(uint32_t mode, uint32_t i, uint32_t steps, uint32_t seed, uint32_t style)
{
   uint32_t pos, n = 0;
   /* present keys in order */
   uint32_t *live = malloc((K + 1) * 4);
   uint32_t *rank = malloc((K + 1) * 4);
   for (uint32_t j = 0; j < K; j++) {
      rank[j] = n;
      if (model[order[j]].present) {
         live[n++] = order[j];
      }
   }
   rank[K]                 = n;
   /* stepping over a deleted region costs one unit per deleted key */
   uint32_t budget = 3000000u / (K / (n + 1) + 1);
   if (steps > budget + 40) {
      steps = budget + 40;
   }
   splinterdb_iterator *it = it_open(mode, i, &pos);
   int64_t              p  = rank[pos < K ? pos : K];
   pbt_rng              r;
   pbt_seed(&r, seed);
   int      dir   = pbt_pct(&r, 50) ? 1 : -1;
   uint32_t runln = 0;
   uint32_t reads = 0;
   for (uint32_t s = 0; s <= steps; s++) {
      bool valid = p >= 0 && p < (int64_t)n;
      if (splinterdb_iterator_valid(it) != valid) {
         pbt_fail("cursor walk (step %u, position %ld of %u): valid=%d, expected %d", s, (long)p, n, !valid, valid);
      }
      if (splinterdb_iterator_status(it) != 0) {
         pbt_fail("cursor walk: status %d", splinterdb_iterator_status(it));
      }
      if (n == 0) {
         break;
      }
      bool cn = p < (int64_t)n, cp = p >= 0;
      if (splinterdb_iterator_can_next(it) != cn) {
         pbt_fail("cursor walk (step %u, position %ld of %u): can_next=%d", s, (long)p, n, !cn);
      }
      if (splinterdb_iterator_can_prev(it) != cp) {
         pbt_fail("cursor walk (step %u, position %ld of %u): can_prev=%d", s, (long)p, n, !cp);
      }
      if (valid) {
         if (!at(it, live[p])) {
            bad_pos("cursor walk", it, live[p]);
         }
         slice k, v;
         splinterdb_iterator_get_current(it, &k, &v);
         check_value("cursor walk", live[p], v);
         reads++;
      }
      if (s == steps) {
         break;
      }
      if (runln == 0) {
         dir = -dir;
         PBT_COUNT(N_DIRCHANGES, 1);
         switch (style % 4) {
            case 0:
               runln = pbt_range(&r, 1, 3);
               break;
            case 1:
               runln = pbt_logrange(&r, 1, 400);
               break;
            case 2:
               runln = n + 1;
               break;
            default:
               runln = pbt_pct(&r, 80) ? 1 : pbt_logrange(&r, 1, 4000);
               break;
         }
      }
      runln--;
      if (dir > 0 ? !cn : !cp) {
         dir   = -dir;
         runln = pbt_range(&r, 1, 40);
      }
      if (dir > 0) {
         splinterdb_iterator_next(it);
         p++;
      } else {
         splinterdb_iterator_prev(it);
         p--;
      }
      if ((s & 255) == 0) {
         PBT_PROGRESS();
      }
   }
   splinterdb_iterator_deinit(it);
   PBT_COUNT(N_CURSOR_MOVES, steps);
   PBT_COUNT(N_SCANNED, reads);
   free(live);
   free(rank);
}
static void
do_reopen(const pbt_op *o)
{
   drop_result();
   phase = 1;
   splinterdb_close(&db);
   phase = 2;
   if (db != NULL) {
      pbt_fail("splinterdb_close left the handle set");
   }
   if (o->a[0]) {
      cf[CF_BG_MEM]  = o->a[0] == 1 ? 0 : 1;
      cf[CF_BG_NORM] = o->a[0] == 1 ? 0 : (o->a[0] - 1) % 4 ? (o->a[0] - 1) % 4 : 1;
   }
   if (o->a[1] >= 10) {
      cf[CF_CACHE_MB] = o->a[1];
   }
   db_fill_config(&scfg, &dcfg, cf, dbfile);
   int rc = splinterdb_open(&scfg, &db);
   if (rc != 0) {
      REPORTED("open", rc);
      pbt_fail("splinterdb_open after a clean close returned %d", rc);
   }
   phase = 0;
   init_result();
   PBT_COUNT(N_REOPENS, 1);
}
static void
check_all_points(void)
{
   for (uint32_t i = 0; i < K; i++) {
      check_get(i);
      if ((i & 1023) == 0) {
         PBT_PROGRESS();
      }
   }
}
/* requests that must be rejected, leaving the store as it was */
static void
do_bad(uint32_t kind, uint32_t i, uint32_t x)
{
   static uint8_t big[8192];
   uint32_t       j = i % K;
   memset(big, 0x5a, sizeof big);
   memcpy(big, kb + (size_t)j * cf[CF_MAXKEY], kl[j]);
   int rc = 0;
   switch (kind % 4) {
      case 0: /* value too large for an existing/legal key */
         rc = splinterdb_insert(db, kslice(j), slice_create(DB_MAXVAL + 1 + x % 3000, big));
         break;
      case 1: /* key too long (a legal key is its prefix) */
         rc = splinterdb_insert(db, slice_create(cf[CF_MAXKEY] + 1 + x % 64, big), slice_create(10, big));
         break;
      case 2:
         rc = splinterdb_delete(db, slice_create(cf[CF_MAXKEY] + 1 + x % 64, big));
         break;
      case 3:
         if (cf[CF_MERGE]) {
            rc = splinterdb_update(db, kslice(j), slice_create(DB_MAXVAL + 1 + x % 3000, big));
         } else {
            rc = splinterdb_insert(db, slice_create(cf[CF_MAXKEY] + 1 + x % 64, big), slice_create(0, big));
         }
         break;
   }
   if (rc != EINVAL) {
      pbt_fail("invalid request kind %u returned %d, expected EINVAL", kind % 4, rc);
   }
   check_get(j);
   PBT_COUNT(N_BAD, 1);
}
/* lookup result objects: user buffers, overflow, reuse, canaries */
static void
do_buf(uint32_t i, uint32_t len, uint32_t n, uint32_t stride)
{
   splinterdb_lookup_result r;
   len %= 3000;
   char *b = malloc(len + 64);
   memset(b, 0xA5, len + 64);
   char *user = b + 32;
   splinterdb_lookup_result_init(db, &r, len, len ? user : (stride & 1) ? user : NULL);
   if (splinterdb_lookup_found(&r)) {
      pbt_fail("a fresh lookup result claims a value was found");
   }
   for (uint32_t k = 0; k < n; k++) {
      uint32_t j  = (i + k * stride) % K;
      int      rc = splinterdb_lookup(db, kslice(j), &r);
      if (rc) {
         pbt_fail("lookup returned %d", rc);
      }
      slice v   = NULL_SLICE;
      bool  f   = splinterdb_lookup_found(&r);
      int   vrc = splinterdb_lookup_result_value(&r, &v);
      if (f != model[j].present) {
         pbt_fail("lookup into a reused result (key %s): found=%d, expected %d", kstr(j), f, model[j].present);
      }
      if (f ? vrc != 0 : vrc != EINVAL) {
         pbt_fail("lookup_result_value returned %d on a %s key", vrc, f ? "found" : "missing");
      }
      if (f) {
         check_value("lookup into user buffer", j, v);
         /* the result must live either inside the user's buffer or outside */
         const char *d = slice_data(v);
         size_t      l = slice_length(v);
         if (l && d + l > b && d < b + len + 64 && (d < user || d + l > user + len)) {
            pbt_fail("value handed out straddles the end of the user's %u byte buffer", len);
         }
      }
      for (int q = 0; q < 32; q++) {
         if ((uint8_t)b[q] != 0xA5 || (uint8_t)b[32 + len + q] != 0xA5) {
            pbt_fail("lookup wrote outside the user's %u byte buffer", len);
         }
      }
      PBT_COUNT(N_LOOKUPS, 1);
   }
   splinterdb_lookup_result_deinit(&r);
   for (int q = 0; q < 32; q++) {
      if ((uint8_t)b[q] != 0xA5 || (uint8_t)b[32 + len + q] != 0xA5) {
         pbt_fail("lookup wrote outside the user's %u byte buffer", len);
      }
   }
   free(b);
}

static void (*after_reopen)(const pbt_op *o);
static void
run_ops(const pbt_case *c)
{
   for (int n = 0; n < c->nops; n++) {
      const pbt_op *o = &c->ops[n];
      uint32_t      s = o->a[0], cnt = o->a[1], st = o->a[2] ? o->a[2] : 1;
      PBT_PROGRESS();
      switch (o->kind) {
         case OP_PUT:
            do_put(s % K, (uint32_t)pbt_mix(o->a[3] + n));
            break;
         case OP_DEL:
            do_del(s % K);
            break;
         case OP_UPD:
            if (cf[CF_MERGE]) {
               do_upd(s % K, (uint32_t)pbt_mix(o->a[3] + n));
            }
            break;
         case OP_GET:
            check_get(s % K);
            break;
         case OP_BPUT:
         case OP_BDEL:
         case OP_BUPD:
            for (uint32_t j = 0; j < cnt; j++) {
               uint32_t i = (uint32_t)((s + (uint64_t)j * st) % K);
               uint32_t h = (uint32_t)pbt_mix(((uint64_t)o->a[3] << 32) + j);
               if (o->kind == OP_BPUT) {
                  do_put(i, h);
               } else if (o->kind == OP_BDEL) {
                  do_del(i);
               } else if (cf[CF_MERGE]) {
                  do_upd(i, h);
               }
               if ((j & 255) == 0) {
                  PBT_PROGRESS();
               }
            }
            break;
         case OP_MIX:
         {
            /* a1 operations on keys [s, s+a2), seed a3, a4 = delete%,upd%,get%
             */
            uint32_t pd = o->a[4] % 100, pu = o->a[4] / 100 % 100, pg = o->a[4] / 10000 % 100;
            pbt_rng  r;
            pbt_seed(&r, o->a[3]);
            for (uint32_t j = 0; j < cnt; j++) {
               uint32_t i = (uint32_t)((s + pbt_u64(&r) % st) % K);
               uint32_t q = pbt_u64(&r) % 100;
               if (q < pg) {
                  check_get(i);
               } else if (q < pg + pd) {
                  do_del(i);
               } else if (q < pg + pd + pu && cf[CF_MERGE]) {
                  do_upd(i, (uint32_t)pbt_u64(&r));
               } else {
                  do_put(i, (uint32_t)pbt_u64(&r));
               }
               if ((j & 255) == 0) {
                  PBT_PROGRESS();
               }
            }
            break;
         }
         case OP_CHECK:
            for (uint32_t j = 0; j < cnt; j++) {
               check_get((uint32_t)((s + (uint64_t)j * st) % K));
               if ((j & 255) == 0) {
                  PBT_PROGRESS();
               }
            }
            break;
         case OP_SCAN:
            do_scan(o->a[0], o->a[1], o->a[2]);
            break;
         case OP_WALK:
            do_walk(o->a[0], o->a[1], o->a[2], o->a[3], o->a[4]);
            break;
         case OP_REOPEN:
            do_reopen(o);
            if (after_reopen) {
               after_reopen(o);
            }
            break;
         case OP_BAD:
            do_bad(o->a[0], o->a[1], o->a[2]);
            break;
         case OP_BUF:
            do_buf(o->a[0], o->a[1], o->a[2] % 400, o->a[3]);
            break;
      }
   }
}

/* ------------------------------------------------------------ generators */
static void
gen_keys(pbt_case *c, pbt_rng *r, int exotic)
{
   uint64_t *f = c->cfg;
   if (!exotic) {
      f[CF_KEYSTYLE] = pbt_pct(r, 50) ? KS_BE : pbt_pct(r, 60) ? KS_MIXBE : KS_CHAIN;
      f[CF_MAXKEY]   = pbt_pct(r, 70) ? 24 : pbt_range(r, 16, 100);
      f[CF_CMP]      = CMP_LEX;
   } else {
      f[CF_KEYSTYLE] = pbt_range(r, 0, NUM_KS - 1);
      f[CF_CMP]      = pbt_range(r, 0, NUM_CMP - 1);
      f[CF_MAXKEY]   = pbt_pct(r, 50) ? pbt_range(r, 16, 110) : pbt_range(r, 100, 262);
      if (f[CF_MAXKEY] > 110) {
         f[CF_FANOUT]   = f[CF_MAXKEY] > 225 ? 2 : pbt_range(r, 2, f[CF_MAXKEY] > 190 ? 3 : 4);
         f[CF_BRANCHES] = pbt_range(r, 2, 6);
      }
   }
}
static unsigned
klen_avg(const uint64_t *f)
{
   return f[CF_KEYSTYLE] == KS_LONG ? f[CF_MAXKEY] : f[CF_KEYSTYLE] == KS_SHARED ? f[CF_MAXKEY] * 3 / 4 : f[CF_KEYSTYLE] == KS_RUN ? f[CF_MAXKEY] / 2 : 12;
}
/* number of operations that write about `bytes` bytes */
static uint32_t
ops_for(const uint64_t *f, uint64_t bytes)
{
   uint64_t per = db_vavg[f[CF_VCLASS]] + klen_avg(f) + 16;
   uint64_t n   = bytes / per;
   return n < 1 ? 1 : n > 60000 ? 60000 : (uint32_t)n;
}
enum { G_POINTS, G_SCANS, G_CURSORS, G_MERGE, G_REOPEN, G_KEYS, G_INVALID, G_BUFS, G_CONFIG };

static void
gen_ops(pbt_case *c, pbt_rng *r, int thorough, int g)
{
   uint64_t *f = c->cfg;
   /* usable bytes of one memtable */
   uint64_t unit  = (f[CF_MEM_KB] - 620) << 10;
   uint64_t units = pbt_range(r, 2, g == G_BUFS || g == G_INVALID ? 10 : 40);
   if (thorough && pbt_pct(r, 30)) {
      units *= pbt_range(r, 2, 6);
   }
   uint64_t total = unit * units;
   uint64_t cap   = thorough ? 40u << 20 : 10u << 20;
   if (total > cap) {
      total = cap;
   }
   int      nbulk = (int)pbt_range(r, 3, 14);
   uint32_t K_    = (uint32_t)f[CF_NKEYS];
   int      merge = f[CF_MERGE];
   for (int b = 0; b < nbulk; b++) {
      uint32_t n = ops_for(f, total / nbulk + pbt_range(r, 0, unit));
      /* window: sometimes everything, sometimes a narrow range */
      uint32_t win = pbt_pct(r, 40) ? K_ : (uint32_t)pbt_logrange(r, 1, K_);
      uint32_t s   = (uint32_t)pbt_range(r, 0, K_ - 1);
      if (pbt_pct(r, 20)) {
         s = pbt_pct(r, 50) ? 0 : (K_ > win ? K_ - win : 0);
      }
      int what = (int)pbt_range(r, 0, 99);
      uint32_t sd = (uint32_t)pbt_u64(r);
      if (pbt_pct(r, 10) && f[CF_BG_NORM] == 0) {
         /* empty a whole region, then push it down with writes elsewhere */
         uint32_t reg = pbt_pct(r, 25) ? K_ : (uint32_t)pbt_logrange(r, 1 + K_ / 50, K_);
         uint32_t rs  = pbt_pct(r, 35) ? 0 : pbt_pct(r, 50) ? K_ - reg : (uint32_t)pbt_range(r, 0, K_ - 1);
         for (int z = (int)pbt_range(r, 1, 3); z > 0; z--) {
            pbt_add(c, OP_BDEL, rs, reg, 1, sd, 0);
            pbt_add(c, OP_BPUT, (uint32_t)((rs + (uint64_t)reg) % K_), n < K_ - reg || pbt_pct(r, 10) ? n : K_ - reg, 1, sd + z, 0);
         }
      } else if (what < 35) {
         uint32_t stride = pbt_pct(r, 50) ? 1 : (uint32_t)pbt_logrange(r, 1, K_);
         pbt_add(c, OP_BPUT, s, n, stride, sd, 0);
      } else if (what < 48) {
         uint32_t stride = pbt_pct(r, 70) ? 1 : (uint32_t)pbt_logrange(r, 1, K_);
         if (n > 2 * K_) {
            n = 2 * K_;
         }
         pbt_add(c, OP_BDEL, s, n, stride, sd, 0);
      } else if (what < 58 && merge) {
         pbt_add(c, OP_BUPD, s, n, pbt_pct(r, 50) ? 1 : (uint32_t)pbt_logrange(r, 1, K_), sd, 0);
      } else {
         uint32_t pd = pbt_pct(r, 25) ? pbt_range(r, 50, 80) : pbt_range(r, 0, 35);
         uint32_t pu = merge ? pbt_range(r, 0, 60) : 0;
         if (pd + pu > 90) {
            pu = 90 - pd;
         }
         pbt_add(c, OP_MIX, s, n, win, sd, pd + 100 * pu + 10000 * pbt_range(r, 0, 10));
      }
      /* observations between the bulks */
      int obs = (int)pbt_range(r, 0, 2);
      for (int q = 0; q < obs; q++) {
         uint32_t i = (uint32_t)pbt_range(r, 0, K_ - 1);
         switch (g) {
            case G_SCANS:
               pbt_add(c, OP_SCAN, pbt_range(r, 0, 5), i, pbt_pct(r, 40) ? 0 : pbt_logrange(r, 1, 3000), 0, 0);
               break;
            case G_CURSORS:
            {
               uint32_t style = (uint32_t)pbt_range(r, 0, 3);
               uint32_t steps = style == 2 ? 3 * K_ + 40 : (uint32_t)pbt_logrange(r, 20, 4000);
               if (steps > 60000) {
                  steps = 60000;
               }
               pbt_add(c, OP_WALK, pbt_range(r, 0, 5), i, steps, (uint32_t)pbt_u64(r), style);
               break;
            }
            case G_REOPEN:
               if (pbt_pct(r, 60)) {
                  pbt_add(c, OP_REOPEN, 0, pbt_pct(r, 30) ? pbt_range(r, 10, 64) : 0, 0, 0, 0);
               }
               pbt_add(c, OP_CHECK, s, pbt_range(r, 1, 2000), 1, 0, 0);
               if (pbt_pct(r, 30)) {
                  pbt_add(c, OP_SCAN, pbt_range(r, 0, 5), i, pbt_logrange(r, 1, 3000), 0, 0);
               }
               break;
            case G_INVALID:
               for (int z = (int)pbt_range(r, 1, 12); z > 0; z--) {
                  pbt_add(c, OP_BAD, pbt_range(r, 0, 3), (uint32_t)pbt_range(r, 0, K_ - 1), pbt_pct(r, 40) ? 0 : (uint32_t)pbt_range(r, 0, 3000), 0, 0);
               }
               break;
            case G_BUFS:
            {
               static const int lens[] = {0, 0, 1, 8, 24, 64, 100, 1433, 1432, 1500};
               pbt_add(c, OP_BUF, i, pbt_pct(r, 60) ? lens[pbt_range(r, 0, 9)] : pbt_range(r, 0, 1500), pbt_range(r, 1, 300), pbt_logrange(r, 1, K_), 0);
               break;
            }
            default:
               if (pbt_pct(r, 70)) {
                  pbt_add(c, OP_CHECK, s, pbt_logrange(r, 1, 4000), pbt_pct(r, 50) ? 1 : pbt_logrange(r, 1, K_), 0, 0);
               } else {
                  for (int z = (int)pbt_range(r, 1, 20); z > 0; z--) {
                     uint32_t zi = (uint32_t)pbt_range(r, 0, K_ - 1);
                     pbt_add(c, pbt_pct(r, 40) ? OP_GET : pbt_pct(r, 50) ? OP_PUT : pbt_pct(r, merge ? 40 : 100) ? OP_DEL : OP_UPD, zi, 0, 0, (uint32_t)pbt_u64(r), 0);
                  }
               }
               if ((g == G_KEYS || g == G_MERGE || g == G_CONFIG) && pbt_pct(r, 40)) {
                  pbt_add(c, OP_SCAN, pbt_range(r, 0, 5), i, pbt_logrange(r, 1, 3000), 0, 0);
               }
               if (g == G_KEYS && pbt_pct(r, 25)) {
                  pbt_add(c, OP_WALK, pbt_range(r, 0, 5), i, pbt_logrange(r, 10, 2000), (uint32_t)pbt_u64(r), pbt_range(r, 0, 3));
               }
               if (g == G_KEYS && pbt_pct(r, 15)) {
                  pbt_add(c, OP_REOPEN, 0, 0, 0, 0, 0);
               }
               break;
         }
      }
   }
}
static void
gen_any(pbt_case *c, pbt_rng *r, int thorough, int g)
{
   uint64_t *f = c->cfg;
   db_gen_config(c, r, g == G_CONFIG ? 35 : 0);
   gen_keys(c, r, g == G_KEYS);
   static const int vw[8] = {20, 15, 25, 8, 12, 4, 4, 12};
   f[CF_VCLASS]           = pbt_weighted(r, vw, 8);
   f[CF_MERGE]            = g == G_MERGE ? 1 : pbt_pct(r, 25);
   /* key population */
   if (pbt_pct(r, 20)) {
      f[CF_NKEYS] = pbt_logrange(r, 1, 200);
   } else {
      f[CF_NKEYS] = pbt_logrange(r, 500, 40000);
   }
   f[CF_BUFLEN] = pbt_pct(r, 50) ? 0 : pbt_range(r, 1, 1500);
   /* a third of the cases holds enough live data for a tree of height >= 2 */
   if (g != G_BUFS && g != G_INVALID && f[CF_BG_NORM] == 0 && pbt_pct(r, 40)) {
      f[CF_FANOUT]   = pbt_pct(r, 75) ? 2 : 3;
      if (f[CF_MEM_KB] > 1024) {
         f[CF_MEM_KB] = 704;
      }
      while (db_vavg[f[CF_VCLASS]] < 60) {
         f[CF_VCLASS] = pbt_range(r, 0, 7);
      }
      uint64_t bytes = pbt_range(r, 1500, thorough ? 20000 : 9000) << 10;
      uint64_t nk    = bytes / (db_vavg[f[CF_VCLASS]] + klen_avg(f) + 4);
      f[CF_NKEYS]    = nk < 200 ? 200 : nk > 60000 ? 60000 : nk;
      pbt_add(c, OP_BPUT, 0, (uint32_t)f[CF_NKEYS], pbt_pct(r, 60) ? 1 : (uint32_t)pbt_range(r, 1, f[CF_NKEYS]) | 1, (uint32_t)pbt_u64(r), 0);
   }
   /* many tiny tuples: nodes fill up by tuple count, not by bytes */
   else if (g != G_BUFS && g != G_INVALID && f[CF_BG_NORM] == 0 && pbt_pct(r, g == G_CURSORS ? 3 : 8)) {
      f[CF_FANOUT]   = pbt_range(r, 2, 3);
      f[CF_MEM_KB]   = pbt_pct(r, 70) ? 704 : 768;
      f[CF_KEYSTYLE] = pbt_pct(r, 50) ? KS_LE : KS_BE;
      f[CF_VCLASS]   = f[CF_MERGE] ? 0 : 6;
      f[CF_NKEYS]    = pbt_range(r, 30000, 120000);
      for (int z = (int)pbt_range(r, 1, 3); z > 0; z--) {
         pbt_add(c, pbt_pct(r, 50) ? OP_BDEL : OP_BPUT, (uint32_t)pbt_range(r, 0, f[CF_NKEYS] - 1), (uint32_t)f[CF_NKEYS], pbt_pct(r, 60) ? 1 : (uint32_t)pbt_range(r, 1, f[CF_NKEYS]) | 1, (uint32_t)pbt_u64(r), 0);
      }
   }
   /*
    * With background threads stay away from the known schedule-dependent
    * defects: height-1 trees with room to spare (see DESIGN.md).
    */
   if (f[CF_BG_NORM]) {
      f[CF_BRANCHES] = f[CF_BRANCHES] < 6 ? f[CF_BRANCHES] + 6 : f[CF_BRANCHES];
      f[CF_FANOUT]   = f[CF_FANOUT] < 4 ? f[CF_FANOUT] + 4 : f[CF_FANOUT];
      uint64_t nk    = (2000 << 10) / (db_vavg[f[CF_VCLASS]] + klen_avg(f) + 4);
      if (f[CF_NKEYS] > nk) {
         f[CF_NKEYS] = nk;
      }
   }
   if (g == G_CONFIG) {
      f[CF_FREM]   = pbt_pct(r, 30) ? 0 : pbt_range(r, 4, pbt_pct(r, 50) ? 8 : 18);
      f[CF_FIDX]   = pbt_pct(r, 50) ? 0 : 1ull << pbt_range(r, 7, 9);
      f[CF_ROUGH]  = pbt_pct(r, 50) ? 0 : pbt_range(r, 1, 3);
      f[CF_SHMEM]  = pbt_pct(r, 25);
      f[CF_LOG]    = pbt_pct(r, 40);
      f[CF_STATS]  = pbt_pct(r, 40);
      f[CF_QDEPTH] = pbt_pct(r, 50) ? 0 : 32 * pbt_range(r, 1, 16);
   }
   if (g == G_REOPEN && pbt_pct(r, 15)) {
      f[CF_SHMEM] = 1;
   }
   gen_ops(c, r, thorough, g);
}
#define GEN(name, g)                                                           \
   static void name(pbt_case *c, pbt_rng *r, int t)                            \
   {                                                                           \
      gen_any(c, r, t, g);                                                     \
   }
GEN(gen_points, G_POINTS)
GEN(gen_scans, G_SCANS)
GEN(gen_cursors, G_CURSORS)
GEN(gen_merge, G_MERGE)
GEN(gen_reopen, G_REOPEN)
GEN(gen_keys_prop, G_KEYS)
GEN(gen_invalid, G_INVALID)
GEN(gen_bufs, G_BUFS)
GEN(gen_config, G_CONFIG)

static void
finish(void)
{
   PBT_COUNT(N_MERGES, dcfg.nmerge);
   PBT_COUNT(N_FINALS, dcfg.nfinal);
   if (pbt_res->count[N_FILLS] >= 2) {
      pbt_res->nontrivial = 1;
   }
}
static void
run_points(const pbt_case *c)
{
   state_init(c);
   db_create();
   run_ops(c);
   check_all_points();
   db_destroy();
   finish();
}
static void
run_scans(const pbt_case *c)
{
   state_init(c);
   db_create();
   run_ops(c);
   do_scan(0, 0, 0);
   for (int i = 0; i < 8; i++) {
      do_scan(1 + i % 5, (uint32_t)pbt_mix(c->cfg[CF_KSEED] + i), 50);
   }
   db_destroy();
   finish();
}
static void
run_cursors(const pbt_case *c)
{
   state_init(c);
   db_create();
   run_ops(c);
   do_walk(0, 0, K < 20000 ? 2 * K + 20 : 40000, 7, 2);
   do_walk(1, (uint32_t)c->cfg[CF_KSEED], 300, 9, 0);
   db_destroy();
   finish();
}
static void
run_reopen(const pbt_case *c)
{
   state_init(c);
   db_create();
   run_ops(c);
   pbt_op o = {OP_REOPEN, {0, 0, 0, 0, 0}};
   do_reopen(&o);
   check_all_points();
   do_scan(0, 0, 0);
   db_destroy();
   if (pbt_res->count[N_REOPENS] >= 2) {
      finish();
   }
}
static void
run_all(const pbt_case *c)
{
   state_init(c);
   db_create();
   run_ops(c);
   check_all_points();
   do_scan(0, 0, 0);
   db_destroy();
   finish();
}

#define RULE "at least two memtables' worth of data was written, so the history crossed memtable rotation, incorporation and compaction"
static const pbt_prop p_points = {.id = "points", .desc = "point reads equal the reference map", .gen = gen_points, .run = run_points, .opnames = opnames, .cfgnames = cfgnames, .countnames = countnames, .rule = RULE};
static const pbt_prop p_scans = {.id = "scans", .desc = "forward scans equal the reference map", .gen = gen_scans, .run = run_scans, .opnames = opnames, .cfgnames = cfgnames, .countnames = countnames, .rule = RULE};
static const pbt_prop p_cursors = {.id = "cursors", .desc = "bidirectional cursors", .gen = gen_cursors, .run = run_cursors, .opnames = opnames, .cfgnames = cfgnames, .countnames = countnames, .rule = RULE};
static const pbt_prop p_merge = {.id = "merge", .desc = "update/merge semantics", .gen = gen_merge, .run = run_all, .opnames = opnames, .cfgnames = cfgnames, .countnames = countnames, .rule = RULE};
static const pbt_prop p_reopen = {.id = "reopen", .desc = "close/open persistence", .gen = gen_reopen, .run = run_reopen, .opnames = opnames, .cfgnames = cfgnames, .countnames = countnames, .rule = RULE " and the store was reopened at least twice"};
static const pbt_prop p_keys = {.id = "keys", .desc = "comparators and key shapes", .gen = gen_keys_prop, .run = run_all, .opnames = opnames, .cfgnames = cfgnames, .countnames = countnames, .rule = RULE};
static const pbt_prop p_invalid = {.id = "invalid", .desc = "invalid requests", .gen = gen_invalid, .run = run_all, .opnames = opnames, .cfgnames = cfgnames, .countnames = countnames, .rule = RULE};
static const pbt_prop p_bufs = {.id = "bufs", .desc = "lookup result buffers", .gen = gen_bufs, .run = run_points, .opnames = opnames, .cfgnames = cfgnames, .countnames = countnames, .rule = RULE};

static int
racy(const pbt_case *c)
{
   return c->cfg[CF_BG_NORM] > 0;
}
static const pbt_prop p_config = {.id = "config", .desc = "any legal configuration", .gen = gen_config, .run = run_all, .racy = racy, .opnames = opnames, .cfgnames = cfgnames, .countnames = countnames, .rule = RULE};

#ifndef DB_SEQ_PART
const pbt_prop *pbt_props[] = {&p_config, &p_points, &p_scans, &p_cursors, &p_merge, &p_reopen, &p_keys, &p_invalid, &p_bufs, NULL};
int
main(int argc, char **argv)
{
   return pbt_main(argc, argv);
}
#endif
