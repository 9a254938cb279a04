/*
 * c_merge.c -- the k-way merge iterator over synthetic sorted sources,
 * against a list computed by folding all messages of each key.
 *
 * The sources hand out their current key and message in buffers that are
 * overwritten as soon as the source moves, as a released page would be.
 */
#define _GNU_SOURCE
#include "comp.h"
#include "iterator.h"
#include "merge.h"

enum { X_MODE, X_NSRC, X_K, X_STYLE, X_CMP, X_MAXKEY, X_VCLASS, X_KSEED, X_START, X_BACK };
static const char *cfgnames[] = {"mode", "nsrc", "nkeys", "style", "cmp", "maxkey", "vclass", "kseed", "start", "backward", NULL};
enum { OP_FILL, OP_PUT, OP_MOVE, OP_RECREATE };
static const char *opnames[] = {"FILL", "PUT", "MOVE", "RECREATE", NULL};
enum { N_SRC, N_ENTRIES, N_MOVES, N_TURNS, N_EMITTED, N_DUPS };
static const char *countnames[] = {"sources", "entries", "moves", "direction_changes", "entries_shown", "keys_in_several_sources", NULL};

typedef struct {
   iterator super;
   int      n, pos;
   uint32_t *ki;
   amsg     *m;
   char     *kbuf, *vbuf, *kbuf2, *vbuf2;
} src;

static universe        U;
static my_data_config  D;
static src            *S;
static int             nsrc;

static void
src_curr(iterator *it, key *k, message *m)
{
   src *s = (src *)it;
   if (s->pos < 0 || s->pos >= s->n) {
      pbt_fail("the merge iterator asked a source for its entry while it was not on one");
   }
   uint32_t i = s->ki[s->pos];
   memcpy(s->kbuf, U.kb + (size_t)i * U.maxkey, U.kl[i]);
   unsigned n = amsg_bytes(&D, U.kh[i], s->m[s->pos], (uint8_t *)s->vbuf);
   *k         = key_create(U.kl[i], s->kbuf);
   *m         = message_create(s->m[s->pos].cls, slice_create(n, s->vbuf));
}
static bool32
src_can_prev(iterator *it)
{
   src *s = (src *)it;
   return s->n > 0 && s->pos >= 0;
}
static bool32
src_can_next(iterator *it)
{
   src *s = (src *)it;
   return s->n > 0 && s->pos < s->n;
}
static void
src_poison(src *s)
{
   memset(s->kbuf, 0xee, U.maxkey);
   memset(s->vbuf, 0xee, 64);
   /* alternate buffers, so that a stale pointer never shows the new entry */
   char *t  = s->kbuf;
   s->kbuf  = s->kbuf2;
   s->kbuf2 = t;
   t        = s->vbuf;
   s->vbuf  = s->vbuf2;
   s->vbuf2 = t;
}
static platform_status
src_next(iterator *it)
{
   src *s = (src *)it;
   if (!src_can_next(it)) {
      pbt_fail("the merge iterator moved a source past its end");
   }
   src_poison(s);
   s->pos++;
   return STATUS_OK;
}
static platform_status
src_prev(iterator *it)
{
   src *s = (src *)it;
   if (!src_can_prev(it)) {
      pbt_fail("the merge iterator moved a source past its beginning");
   }
   src_poison(s);
   s->pos--;
   return STATUS_OK;
}
static const iterator_ops src_ops = {.curr = src_curr, .can_prev = src_can_prev, .can_next = src_can_next, .next = src_next, .prev = src_prev};

/* reference */
typedef struct {
   uint32_t ki;
   amsg     m;
} ent;
static ent *L;
static int  nL;

static int
src_lower(src *s, uint32_t ki)
{
   int lo = 0;
   while (lo < s->n && s->ki[lo] < ki) {
      lo++;
   }
   return lo;
}
static void
put(src *s, uint32_t ki, amsg m)
{
   int p = src_lower(s, ki);
   if (p < s->n && s->ki[p] == ki) {
      s->m[p] = m;
      return;
   }
   memmove(s->ki + p + 1, s->ki + p, (s->n - p) * sizeof *s->ki);
   memmove(s->m + p + 1, s->m + p, (s->n - p) * sizeof *s->m);
   s->ki[p] = ki;
   s->m[p]  = m;
   s->n++;
}
static void
build_reference(int mode)
{
   nL = 0;
   for (uint32_t k = 0; k < U.K; k++) {
      amsg acc = {0};
      int  c   = 0;
      for (int j = nsrc - 1; j >= 0; j--) {
         int p = src_lower(&S[j], k);
         if (p < S[j].n && S[j].ki[p] == k) {
            c++;
            if (mode == 0) {
               L[nL++] = (ent){k, S[j].m[p]};
            } else {
               acc = acc.cls ? amsg_merge(acc, S[j].m[p]) : S[j].m[p];
            }
         }
      }
      if (c > 1) {
         PBT_COUNT(N_DUPS, 1);
      }
      if (mode == 0 || !acc.cls) {
         continue;
      }
      if (mode == 2) {
         acc = amsg_final(acc);
         if (acc.cls == MESSAGE_TYPE_DELETE) {
            continue;
         }
      }
      L[nL++] = (ent){k, acc};
   }
}
static merge_iterator *M;
static int             pos, all_empty;

static void
create(int mode, uint32_t start, int back)
{
   iterator *arr[MAX_MERGE_ARITY];
   all_empty = 1;
   for (int j = 0; j < nsrc; j++) {
      S[j].pos = src_lower(&S[j], start);
      if (back) {
         /* the largest key at or below start */
         if (!(S[j].pos < S[j].n && S[j].ki[S[j].pos] == start)) {
            S[j].pos--;
         }
      }
      all_empty &= S[j].n == 0;
      arr[j] = &S[j].super;
   }
   merge_behavior  mb = mode == 0 ? MERGE_RAW : mode == 1 ? MERGE_INTERMEDIATE : MERGE_FULL;
   platform_status rc = back ? merge_iterator_create_directed(PROCESS_PRIVATE_HEAP_ID, &D.super, nsrc, arr, mb, FALSE, &M)
                             : merge_iterator_create(PROCESS_PRIVATE_HEAP_ID, &D.super, nsrc, arr, mb, &M);
   OKRC(rc, "merge_iterator_create");
   pos = 0;
   while (pos < nL && L[pos].ki < start) {
      pos++;
   }
   if (back && !(pos < nL && L[pos].ki == start)) {
      pos--;
   }
}
static void
verify(const char *when)
{
   iterator *it = &M->super;
   int cn = !all_empty && pos < nL, cp = !all_empty && pos >= 0;
   if (!!iterator_can_next(it) != cn || !!iterator_can_prev(it) != cp) {
      pbt_fail("%s: position %d of %d: can_next=%d can_prev=%d, expected %d %d", when, pos, nL, iterator_can_next(it), iterator_can_prev(it), cn, cp);
   }
   if (cn && cp) {
      key     k;
      message m;
      iterator_curr(it, &k, &m);
      if (!uni_is(&U, L[pos].ki, k)) {
         pbt_fail("%s: position %d of %d: wrong key (index %ld, expected %u)", when, pos, nL, (long)uni_find(&U, k), L[pos].ki);
      }
      PBT_COUNT(N_EMITTED, 1);
      if (M->merge_messages) {
         amsg_check(&D, U.kh[L[pos].ki], L[pos].m, m, when);
      }
   }
}
static void
move(int dir)
{
   iterator *it = &M->super;
   if (dir > 0) {
      OKRC(iterator_next(it), "next");
      pos++;
   } else {
      OKRC(iterator_prev(it), "prev");
      pos--;
   }
   PBT_COUNT(N_MOVES, 1);
   PBT_PROGRESS();
   verify(dir > 0 ? "next" : "prev");
}
static void
run(const pbt_case *c)
{
   nsrc = c->cfg[X_NSRC];
   uni_init(&U, c->cfg[X_K], c->cfg[X_STYLE], c->cfg[X_CMP], c->cfg[X_MAXKEY], c->cfg[X_KSEED]);
   comp_data_config(&D, c->cfg[X_MAXKEY], c->cfg[X_CMP], c->cfg[X_VCLASS]);
   S = calloc(nsrc + 1, sizeof *S);
   L = calloc((size_t)U.K * (c->cfg[X_MODE] ? 1 : nsrc) + 1, sizeof *L);
   for (int j = 0; j < nsrc; j++) {
      S[j].super.ops = &src_ops;
      S[j].ki        = calloc(U.K + 1, 4);
      S[j].m         = calloc(U.K + 1, sizeof(amsg));
      S[j].kbuf      = malloc(U.maxkey);
      S[j].vbuf      = malloc(DB_MAXVAL + 16);
      S[j].kbuf2     = malloc(U.maxkey);
      S[j].vbuf2     = malloc(DB_MAXVAL + 16);
   }
   PBT_COUNT(N_SRC, nsrc);
   int mode = c->cfg[X_MODE], last = 0;
   for (int i = 0; i < c->nops; i++) {
      const pbt_op *o = &c->ops[i];
      if (M) {
         continue;
      }
      if (o->kind == OP_FILL && nsrc) {
         src *s = &S[o->a[0] % nsrc];
         for (uint32_t k = 0; k < U.K; k++) {
            uint32_t h = (uint32_t)pbt_mix(((uint64_t)o->a[1] << 32) ^ k);
            if (h % 1000 < o->a[2]) {
               put(s, k, amsg_gen(h >> 11, (uint32_t)pbt_mix(h)));
            }
         }
      } else if (o->kind == OP_PUT && nsrc) {
         put(&S[o->a[0] % nsrc], o->a[1] % U.K, amsg_gen(o->a[2], o->a[3]));
      }
   }
   build_reference(mode);
   for (int j = 0; j < nsrc; j++) {
      PBT_COUNT(N_ENTRIES, S[j].n);
   }
   create(mode, c->cfg[X_START] % (U.K + 1), mode && c->cfg[X_BACK]);
   verify("create");
   for (int i = 0; i < c->nops; i++) {
      const pbt_op *o = &c->ops[i];
      if (o->kind == OP_MOVE) {
         int dir = mode ? (o->a[0] & 1 ? 1 : -1) : 1;
         if (last && dir != last) {
            PBT_COUNT(N_TURNS, 1);
         }
         for (uint32_t j = 0; j < o->a[1]; j++) {
            if (dir > 0 ? !(!all_empty && pos < nL) : !(!all_empty && pos >= 0)) {
               break;
            }
            move(dir);
            last = dir;
         }
      } else if (o->kind == OP_RECREATE) {
         merge_iterator_destroy(PROCESS_PRIVATE_HEAP_ID, &M);
         create(mode, o->a[0] % (U.K + 1), mode && (o->a[1] & 1));
         verify("recreate");
         last = 0;
      }
   }
   while (!all_empty && pos < nL) {
      move(1);
   }
   if (mode) {
      while (!all_empty && pos >= 0) {
         move(-1);
      }
   }
   merge_iterator_destroy(PROCESS_PRIVATE_HEAP_ID, &M);
   pbt_res->nontrivial = pbt_res->count[N_DUPS] > 0 && nL > 1;
}
static void
gen(pbt_case *c, pbt_rng *r, int thorough)
{
   uint64_t *f = c->cfg;
   f[X_MODE]   = pbt_pct(r, 10) ? 0 : pbt_pct(r, 35) ? 1 : 2;
   f[X_NSRC]   = pbt_pct(r, 5) ? pbt_range(r, 0, 1) : pbt_pct(r, 80) ? pbt_range(r, 2, 9) : pbt_logrange(r, 10, thorough ? 900 : 200);
   f[X_K]      = pbt_logrange(r, 1, f[X_NSRC] > 20 ? 40 : 200);
   f[X_STYLE]  = pbt_range(r, 0, NUM_KS - 1);
   f[X_CMP]    = pbt_range(r, 0, NUM_CMP - 1);
   f[X_MAXKEY] = pbt_range(r, 24, 120);
   f[X_VCLASS] = pbt_pct(r, 80) ? 0 : pbt_range(r, 0, 7);
   f[X_KSEED]  = pbt_u64(r) >> 8;
   f[X_START]  = pbt_pct(r, 40) ? 0 : pbt_range(r, 0, f[X_K]);
   f[X_BACK]   = pbt_pct(r, 30);
   int dense   = pbt_range(r, 1, 999);
   for (int j = 0; j < (int)f[X_NSRC]; j++) {
      if (pbt_pct(r, 85)) {
         pbt_add(c, OP_FILL, j, pbt_u64(r), pbt_pct(r, 60) ? dense : pbt_range(r, 1, 1000), 0, 0);
      }
   }
   int np = f[X_NSRC] ? pbt_range(r, 0, 12) : 0;
   for (int j = 0; j < np; j++) {
      pbt_add(c, OP_PUT, pbt_range(r, 0, f[X_NSRC] - 1), pbt_range(r, 0, f[X_K] - 1), pbt_range(r, 0, 7), pbt_u64(r), 0);
   }
   int nm = pbt_range(r, 5, 60);
   for (int j = 0; j < nm; j++) {
      if (pbt_pct(r, 4)) {
         pbt_add(c, OP_RECREATE, pbt_range(r, 0, f[X_K]), pbt_range(r, 0, 1), 0, 0, 0);
      } else {
         pbt_add(c, OP_MOVE, pbt_range(r, 0, 1), pbt_pct(r, 60) ? pbt_range(r, 1, 3) : pbt_logrange(r, 1, 300), 0, 0, 0);
      }
   }
}
static const pbt_prop p_merge = {.id = "mergeitor", .desc = "k-way merge iterator", .gen = gen, .run = run, .opnames = opnames, .cfgnames = cfgnames, .countnames = countnames, .rule = "at least one key occurs in several sources and at least two entries are to be shown"};
const pbt_prop *pbt_props[] = {&p_merge, NULL};
int
main(int argc, char **argv)
{
   return pbt_main(argc, argv);
}
