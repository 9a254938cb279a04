/*
 * db_fault.c -- the store on a device that fails, and after the process dies.
 *
 * Every write to the device goes through this file, so a crash can be placed
 * at any of them: the image of the device at that moment (with the write not
 * done, or partly done) is kept together with the reference map, and later
 * opened by a fresh process.  Opening may be refused; if it succeeds the store
 * must hold everything that was acknowledged, and must go on working.
 *
 * Likewise single reads and writes are made to fail.  The store may report an
 * error or stop; it may not answer wrongly, now or after close and open.
 */
#define DB_SEQ_PART
#include "db_seq.c"
#include "slowio.h"
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/stat.h>
#include <sys/wait.h>

#define MAXS 14
enum {
   N_IMAGES = 20,
   N_IMG_RUN,
   N_IMG_CLOSE,
   N_IMG_OPEN,
   N_IMG_CREATE,
   N_IMG_TORN,
   N_REFUSED,
   N_ABORTED,
   N_SERVED,
   N_DAMAGED,
   N_FAULTS,
   N_F_ABORT,
   N_F_REPORTED,
   N_F_MASKED,
   N_F_UNUSED,
   N_F_TRANSIENT,
};
static const char *fnames[] = {"writes", "deletes", "updates", "lookups", "hits", "scans", "scanned_tuples", "cursor_moves", "direction_changes", "reopens", "memtable_fills", "invalid_requests", "merge_callbacks", "final_merge_callbacks", "cases_tree_height_0", "cases_tree_height_1", "cases_tree_height_2", "cases_tree_height_3plus", "-", "-", "crash_images", "images_during_operations", "images_during_close", "images_during_open", "images_during_create", "images_with_torn_write", "opens_refused", "opens_stopped_by_assertion", "opens_served", "damaged_files", "faults_injected", "faults_stopped_the_process", "faults_reported", "faults_without_effect", "faults_not_reached", "transient_refusals", NULL};

typedef struct {
   int      nsnap, seen;
   uint64_t acked;      /* operations acknowledged so far */
   struct {
      int phase, torn;
   } s[MAXS];
   long long super_off; /* the last single page written by a close */
   int       closed;
   uint64_t  failed;    /* faults that fired */
   int       reported;
} shared_t;
static shared_t *SH;
static ent      *snaps; /* MAXS copies of the model */
static pbt_rng   hr;
static char      basefile[600];

ssize_t
__real_pwrite(int fd, const void *b, size_t n, off_t o);
ssize_t
__real_pread(int fd, void *b, size_t n, off_t o);

static void *
shalloc(size_t n)
{
   void *p = mmap(NULL, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
   if (p == MAP_FAILED) {
      pbt_discard("mmap");
   }
   return p;
}
static void
snap_name(int i, char *b)
{
   snprintf(b, 600, "%s.s%d", basefile, i);
}
static void
copy_file(const char *from, const char *to)
{
   static char buf[1 << 20];
   int         a = open(from, O_RDONLY), b = open(to, O_RDWR | O_CREAT | O_TRUNC, 0600);
   if (a < 0 || b < 0) {
      pbt_discard("copy: cannot open");
   }
   off_t end = lseek(a, 0, SEEK_END), p = 0;
   while (p < end) {
      off_t d = lseek(a, p, SEEK_DATA);
      if (d < 0) {
         break;
      }
      off_t h = lseek(a, d, SEEK_HOLE);
      while (d < h) {
         ssize_t n = __real_pread(a, buf, h - d < (off_t)sizeof buf ? h - d : sizeof buf, d);
         if (n <= 0 || __real_pwrite(b, buf, n, d) != n) {
            pbt_discard("copy failed (disk full?)");
         }
         d += n;
      }
      p = h;
   }
   if (ftruncate(b, end)) {
      pbt_discard("ftruncate");
   }
   close(a);
   close(b);
}
static void
on_write(int fd, const struct iovec *iov, int n, long long off)
{
   size_t bytes = 0;
   for (int i = 0; i < n; i++) {
      bytes += iov[i].iov_len;
   }
   int last = n == 1 || phase == 2 || phase == 3;
   int pm   = phase == 1 ? (last ? 600 : 25) : phase == 2 ? 450 : phase == 3 ? 250 : 5;
   if (phase == 1 && n == 1 && bytes == 4096) {
      SH->super_off = off;
   }
   if ((int)(pbt_u64(&hr) % 1000) >= pm) {
      return;
   }
   int slot = SH->nsnap < MAXS ? SH->nsnap++ : (int)(pbt_u64(&hr) % MAXS);
   int torn = pbt_u64(&hr) % 3 == 0;
   char f[600];
   snap_name(slot, f);
   copy_file(dbfile, f);
   if (torn) {
      /* the first part of the data, in sectors, made it to the device */
      int    b    = open(f, O_RDWR);
      size_t part = (pbt_u64(&hr) % (bytes / 512 + 1)) * 512;
      for (int i = 0; i < n && part; i++) {
         size_t k = iov[i].iov_len < part ? iov[i].iov_len : part;
         if (__real_pwrite(b, iov[i].iov_base, k, off) != (ssize_t)k) {
            pbt_discard("image: write failed");
         }
         off += k;
         part -= k;
      }
      close(b);
   }
   SH->s[slot].phase = phase;
   SH->s[slot].torn  = torn;
   memcpy(snaps + (size_t)slot * K, model, K * sizeof(ent));
   PBT_PROGRESS();
}
/* ---- synchronous device accesses of the store */
static int      sync_faults;
static uint64_t fail_sync_read, fail_sync_write;
ssize_t
__wrap_pwrite(int fd, const void *b, size_t n, off_t o)
{
   if (slowio.on_write) {
      struct iovec v = {(void *)b, n};
      slowio.on_write(fd, &v, 1, o);
   }
   if (fail_sync_write && --fail_sync_write == 0) {
      slowio.failed++;
      if (slowio.fail_res < 0) {
         errno = -slowio.fail_res;
         return -1;
      }
      return slowio.fail_res < (long)n ? slowio.fail_res : (long)n - 512;
   }
   return __real_pwrite(fd, b, n, o);
}
ssize_t
__wrap_pread(int fd, void *b, size_t n, off_t o)
{
   if (fail_sync_read && --fail_sync_read == 0) {
      slowio.failed++;
      if (slowio.fail_res < 0) {
         errno = -slowio.fail_res;
         return -1;
      }
      return slowio.fail_res < (long)n ? slowio.fail_res : (long)n - 512;
   }
   return __real_pread(fd, b, n, o);
}

/* runs f in a child; returns its wait status */
static int
in_child(void (*f)(const pbt_case *), const pbt_case *c)
{
   PBT_PROGRESS();
   fflush(NULL);
   pid_t p = fork();
   if (p < 0) {
      pbt_discard("fork");
   }
   if (p == 0) {
      prctl(PR_SET_PDEATHSIG, SIGKILL);
      f(c);
      fflush(NULL);
      _exit(0);
   }
   int st;
   while (waitpid(p, &st, 0) < 0) {
   }
   PBT_PROGRESS();
   /* a verdict reached in the child stands */
   if (pbt_res->status == 2 || pbt_res->status == 3) {
      _exit(1);
   }
   return st;
}
static void
common(const pbt_case *c)
{
   state_init(c);
   free(model);
   SH    = shalloc(sizeof *SH);
   model = shalloc(K * sizeof(ent) + 64);
   snprintf(basefile, sizeof basefile, "%s", dbfile);
   pbt_seed(&hr, cf[CF_KSEED] * 3 + cf[CF_X0]);
}
static void
history(const pbt_case *c)
{
   phase = 3;
   db_create();
   phase = 0;
   run_ops(c);
   drop_result();
   count_height();
   phase = 1;
   splinterdb_close(&db);
   phase      = 0;
   SH->closed = 1;
}
/* ----------------------------------------------------------- crashes */
static void
crash_history(const pbt_case *c)
{
   slowio.on_write = on_write;
   history(c);
}
static const char *vwhat;
static void
serve(const pbt_case *c)
{
   slowio.on_write = NULL;
   db_fill_config(&scfg, &dcfg, cf, dbfile);
   int rc = splinterdb_open(&scfg, &db);
   if (rc != 0) {
      _exit(50);
   }
   /* from here on this is a store that claims to be complete */
   SH->reported = 1;
   init_result();
   check_all_points();
   do_scan(0, 0, 0);
   uint64_t unit = (cf[CF_MEM_KB] - 600) << 10;
   uint32_t n    = ops_for(cf, unit + unit / 2);
   for (uint32_t j = 0; j < n; j++) {
      uint32_t i = (uint32_t)(pbt_mix(j + 99) % K);
      if (j % 7 == 3) {
         do_del(i);
      } else {
         do_put(i, (uint32_t)pbt_mix(j * 3 + 1));
      }
      if ((j & 255) == 0) {
         PBT_PROGRESS();
      }
   }
   check_all_points();
   pbt_op o = {OP_REOPEN, {0, 0, 0, 0, 0}};
   do_reopen(&o);
   check_all_points();
   do_scan(0, 0, 0);
   drop_result();
   splinterdb_close(&db);
}
/* opens the file; refused, or complete */
static void
judge_image(const pbt_case *c, const char *file, const char *what)
{
   static const char *ph[] = {"between operations", "during close", "during open", "during create"};
   snprintf(dbfile, sizeof dbfile, "%s", file);
   SH->reported = 0;
   vwhat        = what;
   int st       = in_child(serve, c);
   (void)ph;
   if (WIFEXITED(st) && WEXITSTATUS(st) == 50) {
      PBT_COUNT(N_REFUSED, 1);
   } else if (WIFEXITED(st) && WEXITSTATUS(st) == 0) {
      PBT_COUNT(N_SERVED, 1);
   } else if (WIFSIGNALED(st) && SH->reported) {
      pbt_fail("%s: the file was opened without complaint, and then the store stopped with signal %d", what, WTERMSIG(st));
   } else if (WIFSIGNALED(st) && WTERMSIG(st) == SIGABRT) {
      PBT_COUNT(N_ABORTED, 1);
   } else {
      pbt_fail("%s: opening the file ended with status %x", what, st);
   }
}
static void
run_crash(const pbt_case *c)
{
   common(c);
   snaps  = shalloc((size_t)MAXS * K * sizeof(ent) + 64);
   int st = in_child(crash_history, c);
   if (!WIFEXITED(st) || WEXITSTATUS(st) || !SH->closed) {
      pbt_fail("CRASH: the history itself died with status %x", st);
   }
   unlink(dbfile);
   for (int i = 0; i < SH->nsnap; i++) {
      char        f[600], w[200];
      const char *ph[] = {"between operations", "during close", "during open", "during create"};
      snap_name(i, f);
      memcpy(model, snaps + (size_t)i * K, K * sizeof(ent));
      PBT_COUNT(N_IMAGES, 1);
      PBT_COUNT(N_IMG_RUN + SH->s[i].phase, 1);
      PBT_COUNT(N_IMG_TORN, SH->s[i].torn);
      snprintf(w, sizeof w, "process died %s (%s write)", ph[SH->s[i].phase], SH->s[i].torn ? "in the middle of a" : "before a");
      judge_image(c, f, w);
      unlink(f);
   }
   finish();
   pbt_res->nontrivial = SH->nsnap >= 3;
}
/* ------------------------------------------------------------ damage */
static void
run_damage(const pbt_case *c)
{
   common(c);
   slowio.on_write = NULL;
   snaps           = shalloc((size_t)MAXS * K * sizeof(ent) + 64);
   /* the hook only notes where the superblock is */
   int st = in_child(crash_history, c);
   if (!WIFEXITED(st) || WEXITSTATUS(st) || !SH->closed) {
      pbt_fail("CRASH: the history itself died with status %x", st);
   }
   for (int i = 0; i < SH->nsnap; i++) {
      char f[600];
      snap_name(i, f);
      unlink(f);
   }
   ent *keep = malloc(K * sizeof(ent));
   memcpy(keep, model, K * sizeof(ent));
   char orig[600];
   snprintf(orig, sizeof orig, "%s", basefile);
   pbt_rng r;
   pbt_seed(&r, cf[CF_X1]);
   int n = 4 + (int)(cf[CF_X2] % 6);
   for (int i = 0; i < n; i++) {
      char f[600], w[200];
      snap_name(i, f);
      copy_file(orig, f);
      int      fd   = open(f, O_RDWR);
      int      kind = (int)(pbt_u64(&r) % 10);
      uint8_t  page[4096];
      off_t    base = kind & 1 ? SH->super_off : 0;
      uint32_t o    = pbt_u64(&r) % 3 ? pbt_u64(&r) % 160 : pbt_u64(&r) % 4096;
      if (__real_pread(fd, page, 4096, base) != 4096) {
         pbt_discard("short file");
      }
      uint8_t before[4096];
      memcpy(before, page, 4096);
      if (kind < 6) { /* one bit */
         page[o] ^= 1u << (pbt_u64(&r) % 8);
      } else if (kind < 8) { /* a run of bytes */
         uint32_t k = pbt_u64(&r) % 64 + 1;
         for (uint32_t j = o; j < 4096 && j < o + k; j++) {
            page[j] = pbt_u64(&r);
         }
      } else { /* the page was lost: zeros, or another page */
         if (pbt_u64(&r) % 2) {
            memset(page, 0, 4096);
         } else if (__real_pread(fd, page, 4096, 4096 * (pbt_u64(&r) % 64)) != 4096) {
            memset(page, 0xff, 4096);
         }
      }
      if (__real_pwrite(fd, page, 4096, base) != 4096) {
         pbt_discard("write failed");
      }
      close(fd);
      snprintf(w, sizeof w, "%s damaged at byte %u (damage %d)", base ? "superblock" : "allocator page", o, kind);
      memcpy(model, keep, K * sizeof(ent));
      PBT_COUNT(N_DAMAGED, 1);
      judge_image(c, f, w);
      unlink(f);
   }
   finish();
   pbt_res->nontrivial = pbt_res->count[N_REFUSED] + pbt_res->count[N_ABORTED] > 0;
}
/* -------------------------------------------------------------- faults */
static uint64_t fault_kind, fault_at;
static void
reported(const char *what, int rc)
{
   if (slowio.failed) {
      SH->failed = slowio.failed;
      _exit(51);
   }
}
static void
arm(void)
{
   if (fault_kind >= 4) {
      slowio.transient = 1 + (int)(fault_at % 300);
      return;
   }
   static const long res[] = {-EIO, -ENOSPC, 0, 512, -EAGAIN, 4096};
   slowio.fail_res         = res[cf[CF_X1] % 6];
   slowio.fail_read = slowio.fail_write = fail_sync_read = fail_sync_write = 0;
   switch (fault_kind % 4) {
      case 0:
         slowio.fail_write = fault_at;
         break;
      case 1:
         /* short reads at the end of the file are legal: only errors */
         slowio.fail_res  = slowio.fail_res < 0 ? slowio.fail_res : -EIO;
         slowio.fail_read = fault_at;
         break;
      case 2:
         fail_sync_read = fault_at;
         break;
      case 3:
         fail_sync_write = fault_at;
         break;
   }
}
static void
fault_history(const pbt_case *c)
{
   on_error = reported;
   db_create();
   if (cf[CF_X2] < 60) {
      arm();
   }
   run_ops(c);
   check_all_points();
   if (cf[CF_X2] >= 60 && cf[CF_X2] < 80) {
      arm();
   }
   pbt_op o = {OP_REOPEN, {0, 0, 0, 0, 0}};
   do_reopen(&o);
   if (cf[CF_X2] >= 80) {
      arm();
   }
   do_scan(0, 0, 0);
   check_all_points();
   do_reopen(&o);
   SH->failed = slowio.failed;
   PBT_COUNT(N_F_TRANSIENT, slowio.ntransient);
   slowio.transient = 0;
   slowio.fail_read = slowio.fail_write = fail_sync_read = fail_sync_write = 0;
   do_scan(0, 0, 0);
   check_all_points();
   do_reopen(&o);
   check_all_points();
   do_scan(0, 0, 0);
   drop_result();
   splinterdb_close(&db);
   SH->closed = 1;
}
static void
run_ioerr(const pbt_case *c)
{
   common(c);
   slowio_set(cf[CF_X3] % 4 == 0 ? 40 : 0, cf[CF_KSEED]);
   fault_kind = cf[CF_X0] >> 20;
   fault_at   = (cf[CF_X0] & 0xfffff) + 1;
   int st     = in_child(fault_history, c);
   if (WIFSIGNALED(st)) {
      if (fault_kind >= 4) {
         pbt_fail("CRASH: signal %d when the device only asked to try again", WTERMSIG(st));
      }
      if (WTERMSIG(st) != SIGABRT) {
         pbt_fail("CRASH: signal %d with a failing device", WTERMSIG(st));
      }
      PBT_COUNT(N_F_ABORT, 1);
      PBT_COUNT(N_FAULTS, 1);
   } else if (WIFEXITED(st) && WEXITSTATUS(st) == 51) {
      PBT_COUNT(N_F_REPORTED, 1);
      PBT_COUNT(N_FAULTS, 1);
   } else if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && SH->closed) {
      PBT_COUNT(SH->failed ? N_F_MASKED : N_F_UNUSED, 1);
      PBT_COUNT(N_FAULTS, SH->failed);
   } else {
      pbt_fail("the history ended with status %x", st);
   }
   pbt_res->nontrivial = pbt_res->count[N_FAULTS] + pbt_res->count[N_F_TRANSIENT] > 0;
}
/* ---------------------------------------------------------- generators */
static void
gen_small(pbt_case *c, pbt_rng *r, int t)
{
   uint64_t *f = c->cfg;
   db_gen_config(c, r, 0);
   gen_keys(c, r, 0);
   f[CF_MEM_KB] = pbt_pct(r, 70) ? 704 : 832;
   static const int vw[8] = {20, 15, 25, 8, 12, 4, 4, 12};
   f[CF_VCLASS]           = pbt_weighted(r, vw, 8);
   f[CF_MERGE]            = pbt_pct(r, 25);
   f[CF_NKEYS]            = pbt_pct(r, 30) ? pbt_logrange(r, 1, 300) : pbt_logrange(r, 300, 12000);
   f[CF_LOG]              = pbt_pct(r, 25);
   f[CF_CACHE_MB]         = pbt_pct(r, 60) ? pbt_range(r, 10, 14) : 24;
   uint64_t unit          = (f[CF_MEM_KB] - 620) << 10;
   int      sess          = (int)pbt_range(r, 1, t ? 5 : 3);
   for (int s = 0; s < sess; s++) {
      uint64_t total = pbt_pct(r, 12) ? 0 : unit * pbt_logrange(r, 1, 20);
      int      nb    = (int)pbt_range(r, 1, 4);
      for (int b = 0; b < nb && total; b++) {
         uint32_t n  = ops_for(f, total / nb);
         uint32_t sd = (uint32_t)pbt_u64(r), K_ = f[CF_NKEYS];
         if (pbt_pct(r, 50)) {
            pbt_add(c, OP_BPUT, (uint32_t)pbt_range(r, 0, K_ - 1), n, pbt_pct(r, 50) ? 1 : (uint32_t)pbt_logrange(r, 1, K_), sd, 0);
         } else {
            pbt_add(c, OP_MIX, (uint32_t)pbt_range(r, 0, K_ - 1), n, pbt_pct(r, 50) ? K_ : (uint32_t)pbt_logrange(r, 1, K_), sd, pbt_range(r, 0, 40) + 100 * (f[CF_MERGE] ? pbt_range(r, 0, 40) : 0) + 10000 * pbt_range(r, 0, 15));
         }
         if (pbt_pct(r, 20)) {
            pbt_add(c, OP_SCAN, pbt_range(r, 0, 5), (uint32_t)pbt_range(r, 0, K_ - 1), pbt_logrange(r, 1, 3000), 0, 0);
         }
      }
      if (s + 1 < sess) {
         pbt_add(c, OP_REOPEN, 0, 0, 0, 0, 0);
      }
   }
}
static void
gen_crash(pbt_case *c, pbt_rng *r, int t)
{
   gen_small(c, r, t);
   c->cfg[CF_X0] = pbt_range(r, 0, 1 << 20);
}
static void
gen_damage(pbt_case *c, pbt_rng *r, int t)
{
   gen_small(c, r, t);
   c->cfg[CF_X1] = pbt_range(r, 0, 1 << 20);
   c->cfg[CF_X2] = pbt_range(r, 0, 5);
}
static void
gen_ioerr(pbt_case *c, pbt_rng *r, int t)
{
   gen_small(c, r, t);
   uint64_t *f = c->cfg;
   static const int w[] = {40, 22, 13, 10, 15};
   uint64_t         k   = pbt_weighted(r, w, 5), at;
   f[CF_X2]             = k == 1 || k == 2 ? pbt_range(r, 60, 99) : pbt_range(r, 0, 99);
   switch (k) {
      case 0:
         at = f[CF_X2] >= 60 ? pbt_logrange(r, 1, 12) : pbt_logrange(r, 1, 120);
         break;
      case 1:
      case 2:
         at = pbt_logrange(r, 1, pbt_pct(r, 50) ? 8 : 60);
         break;
      case 3:
         at = pbt_range(r, 1, 2);
         break;
      default:
         at = pbt_logrange(r, 1, 300);
   }
   f[CF_X0] = (k << 20) + at - 1;
   f[CF_X1]    = pbt_range(r, 0, 5);
   f[CF_X3]    = pbt_range(r, 0, 7);
}
static const pbt_prop p_crash = {.id = "crash", .desc = "unclean shutdown", .gen = gen_crash, .run = run_crash, .opnames = opnames, .cfgnames = cfgnames, .countnames = fnames, .rule = "at least three images of the device at the moment of a write were taken and opened"};
static const pbt_prop p_damage = {.id = "damage", .desc = "damaged superblock or allocator page", .gen = gen_damage, .run = run_damage, .opnames = opnames, .cfgnames = cfgnames, .countnames = fnames, .rule = "at least one damaged file was refused"};
static const pbt_prop p_ioerr = {.id = "ioerr", .desc = "failing reads and writes", .gen = gen_ioerr, .run = run_ioerr, .opnames = opnames, .cfgnames = cfgnames, .countnames = fnames, .rule = "a fault was injected"};
const pbt_prop *pbt_props[] = {&p_crash, &p_damage, &p_ioerr, NULL};
int
main(int argc, char **argv)
{
   return pbt_main(argc, argv);
}
