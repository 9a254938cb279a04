/*
 * comp.h -- shared by the harnesses that drive one component of the store
 * through its internal interface: heap, device, allocator, cache and task
 * system ("stack"), plus message helpers.
 */
#ifndef COMP_H
#define COMP_H
#include "dbcommon.h"
#include "platform.h"
#include "data_internal.h"
#include "io.h"
#include "task.h"
#include "allocator.h"
#include "rc_allocator.h"
#include "cache.h"
#include "clockcache.h"
#include <errno.h>
#include <unistd.h>
#include <fcntl.h>

#define PAGE 4096
#define EXTENT (32 * 4096)

typedef struct {
   platform_heap_id   hid;
   io_config          io_cfg;
   platform_io_handle io;
   task_system_config task_cfg;
   task_system       *ts;
   allocator_config   al_cfg;
   rc_allocator       al;
   clockcache_config  cc_cfg;
   clockcache         cc;
} stack;

#define OKRC(rc, what)                                                         \
   do {                                                                        \
      if (!SUCCESS(rc)) {                                                      \
         pbt_fail("%s failed: %s", what, platform_status_to_string(rc));       \
      }                                                                        \
   } while (0)

static inline void
stack_up(stack *s, const char *file, uint64 cache_bytes, uint64 disk_bytes, uint64 scratch, int stats, int bg)
{
   memset(s, 0, sizeof *s);
   OKRC(platform_heap_create(platform_get_module_id(), 512 << 20, FALSE, &s->hid), "heap create");
   io_config_init(&s->io_cfg, PAGE, EXTENT, O_RDWR | O_CREAT, 0600, 256, file);
   OKRC(io_handle_init(&s->io, &s->io_cfg, s->hid), "io_handle_init");
   uint64 nbg[NUM_TASK_TYPES] = {0};
   nbg[TASK_TYPE_NORMAL]      = bg;
   nbg[TASK_TYPE_MEMTABLE]    = bg;
   OKRC(task_system_config_init(&s->task_cfg, stats, nbg, scratch), "task_system_config_init");
   OKRC(task_system_create(s->hid, &s->io, &s->ts, &s->task_cfg), "task_system_create");
   allocator_config_init(&s->al_cfg, &s->io_cfg, disk_bytes);
   OKRC(rc_allocator_init(&s->al, &s->al_cfg, (io_handle *)&s->io, s->hid, platform_get_module_id()), "rc_allocator_init");
   clockcache_config_init(&s->cc_cfg, &s->io_cfg, cache_bytes, "", stats);
   OKRC(clockcache_init(&s->cc, &s->cc_cfg, (io_handle *)&s->io, (allocator *)&s->al, "pbt", s->hid, platform_get_module_id()), "clockcache_init");
}
static inline void
stack_down(stack *s)
{
   clockcache_deinit(&s->cc);
   rc_allocator_deinit(&s->al);
   task_system_destroy(s->hid, &s->ts);
   io_handle_deinit(&s->io);
   platform_heap_destroy(&s->hid);
}

/* ------------------------------------------------------- abstract messages */
/* class as the store numbers it; x: value register; a,b: affine map */
typedef struct {
   int      cls; /* MESSAGE_TYPE_{INSERT,UPDATE,DELETE} or 0: nothing */
   uint32_t x, a, b;
} amsg;

static inline amsg
amsg_delete(void)
{
   return (amsg){.cls = MESSAGE_TYPE_DELETE};
}
static inline amsg
amsg_insert(uint32_t x)
{
   return (amsg){.cls = MESSAGE_TYPE_INSERT, .x = x};
}
/* what the merge callbacks produce from a register value */
static inline amsg
amsg_result(uint32_t x)
{
   return x == 0 ? amsg_delete() : amsg_insert(x);
}
/* the newer message applied on top of the older one */
static inline amsg
amsg_merge(amsg newer, amsg older)
{
   if (newer.cls != MESSAGE_TYPE_UPDATE) {
      return newer;
   }
   if (older.cls == MESSAGE_TYPE_DELETE) {
      return amsg_result(newer.b);
   }
   if (older.cls == MESSAGE_TYPE_INSERT) {
      return amsg_result(affine(newer.a, newer.b, older.x));
   }
   return (amsg){.cls = MESSAGE_TYPE_UPDATE, .a = (uint32_t)((uint64_t)newer.a * older.a % MERGE_P), .b = affine(newer.a, newer.b, older.b)};
}
static inline amsg
amsg_final(amsg m)
{
   return m.cls == MESSAGE_TYPE_UPDATE ? amsg_result(m.b) : m;
}
static inline unsigned
amsg_bytes(const my_data_config *dc, uint32_t kh, amsg m, uint8_t *buf)
{
   switch (m.cls) {
      case MESSAGE_TYPE_INSERT:
         return db_value(dc->vclass, 1, kh, m.x, buf);
      case MESSAGE_TYPE_UPDATE:
         return db_delta(dc->vclass, kh, m.a, m.b, buf);
      default:
         return 0;
   }
}
static inline amsg
amsg_gen(uint32_t r, uint32_t s)
{
   switch (r % 8) {
      case 0:
      case 1:
      case 2:
         return (amsg){.cls = MESSAGE_TYPE_UPDATE, .a = s % 7 == 0 ? 0 : 1 + s % (MERGE_P - 1), .b = (s >> 9) % 11 == 0 ? 0 : (s >> 7) % MERGE_P};
      case 3:
      case 4:
         return amsg_delete();
      default:
         return amsg_insert(1 + s % (MERGE_P - 1));
   }
}
static inline void
amsg_check(const my_data_config *dc, uint32_t kh, amsg want, message got, const char *where)
{
   uint8_t  buf[DB_MAXVAL + 16];
   unsigned n = amsg_bytes(dc, kh, want, buf);
   if (message_class(got) != want.cls) {
      pbt_fail("%s: message class %d, expected %d", where, message_class(got), want.cls);
   }
   if (want.cls == MESSAGE_TYPE_DELETE) {
      return;
   }
   if (message_length(got) != n || memcmp(message_data(got), buf, n)) {
      pbt_fail("%s: message of %lu bytes differs from the expected %u bytes", where, (unsigned long)message_length(got), n);
   }
}

/* ------------------------------------------------------------ key universe */
typedef struct {
   uint32_t K;
   unsigned maxkey;
   int      cmp;
   uint8_t *kb;
   uint16_t *kl;
   uint32_t *kh;
} universe; /* keys in comparator order, distinct */

static const universe *uni_sorting;
static int
uni_cmp(const void *a, const void *b)
{
   const universe *u = uni_sorting;
   uint32_t x = *(const uint32_t *)a, y = *(const uint32_t *)b;
   return keycmp_raw(u->cmp, u->kb + (size_t)x * u->maxkey, u->kl[x], u->kb + (size_t)y * u->maxkey, u->kl[y]);
}
static inline void
uni_init(universe *u, uint32_t K, int style, int cmp, unsigned maxkey, uint64_t kseed)
{
   universe t = {.K = K, .maxkey = maxkey, .cmp = cmp};
   t.kb       = malloc((size_t)K * maxkey);
   t.kl       = malloc(K * 2);
   uint32_t *o = malloc(K * 4);
   for (uint32_t i = 0; i < K; i++) {
      t.kl[i] = db_key(style, maxkey, kseed, i, t.kb + (size_t)i * maxkey);
      o[i]    = i;
   }
   uni_sorting = &t;
   qsort(o, K, 4, uni_cmp);
   *u    = t;
   u->kb = malloc((size_t)K * maxkey);
   u->kl = malloc(K * 2);
   u->kh = malloc(K * 4);
   for (uint32_t i = 0; i < K; i++) {
      memcpy(u->kb + (size_t)i * maxkey, t.kb + (size_t)o[i] * maxkey, t.kl[o[i]]);
      u->kl[i] = t.kl[o[i]];
      u->kh[i] = bhash(u->kb + (size_t)i * maxkey, u->kl[i]);
   }
   free(t.kb);
   free(t.kl);
   free(o);
}
static inline key
uni_key(const universe *u, uint32_t i)
{
   return key_create(u->kl[i], u->kb + (size_t)i * u->maxkey);
}
static inline int
uni_is(const universe *u, uint32_t i, key k)
{
   return key_is_user_key(k) && key_length(k) == u->kl[i] && !memcmp(key_data(k), u->kb + (size_t)i * u->maxkey, u->kl[i]);
}
/* index of a key or -1 */
static inline int64_t
uni_find(const universe *u, key k)
{
   uint32_t lo = 0, hi = u->K;
   while (lo < hi) {
      uint32_t m = (lo + hi) / 2;
      int      c = keycmp_raw(u->cmp, u->kb + (size_t)m * u->maxkey, u->kl[m], key_data(k), key_length(k));
      if (c < 0) {
         lo = m + 1;
      } else {
         hi = m;
      }
   }
   return lo < u->K && uni_is(u, lo, k) ? (int64_t)lo : -1;
}
static inline void
comp_data_config(my_data_config *m, unsigned maxkey, int cmp, int vclass)
{
   memset(m, 0, sizeof *m);
   default_data_config_init(maxkey, &m->super);
   m->cmp    = cmp;
   m->vclass = vclass;
   if (cmp != CMP_LEX) {
      m->super.key_compare = my_cmp;
   }
   m->super.merge_tuples       = my_merge;
   m->super.merge_tuples_final = my_merge_final;
}
#endif
