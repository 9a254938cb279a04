#define _GNU_SOURCE
#include "pbt.h"
#include <stdarg.h>
#include <unistd.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <sys/shm.h>
#include <sys/statvfs.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <fcntl.h>
#include <errno.h>
#include <time.h>

/* schedule noise (noise.c), kept in the last configuration number */
#define NOISE (PBT_NCFG - 1)
uint64_t                                pbt_noise;
extern const int pbt_noisy __attribute__((weak));
pbt_result *pbt_res;
static char scratch_dir[512];
static char scratch_buf[8][600];
static int  scratch_next;
static char logpath[600];

uint64_t
pbt_mix(uint64_t x)
{
   x += 0x9e3779b97f4a7c15ULL;
   x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ULL;
   x = (x ^ (x >> 27)) * 0x94d049bb133111ebULL;
   return x ^ (x >> 31);
}
void
pbt_seed(pbt_rng *r, uint64_t seed)
{
   for (int i = 0; i < 4; i++) {
      seed    = pbt_mix(seed + 0x1234567 * (i + 1));
      r->s[i] = seed;
   }
}
static inline uint64_t
rotl(uint64_t x, int k)
{
   return (x << k) | (x >> (64 - k));
}
uint64_t
pbt_u64(pbt_rng *r)
{
   uint64_t *s = r->s, res = rotl(s[1] * 5, 7) * 9, t = s[1] << 17;
   s[2] ^= s[0];
   s[3] ^= s[1];
   s[1] ^= s[2];
   s[0] ^= s[3];
   s[2] ^= t;
   s[3] = rotl(s[3], 45);
   return res;
}
uint64_t
pbt_range(pbt_rng *r, uint64_t lo, uint64_t hi)
{
   if (hi <= lo) {
      return lo;
   }
   return lo + pbt_u64(r) % (hi - lo + 1);
}
int
pbt_pct(pbt_rng *r, int pct)
{
   return (int)(pbt_u64(r) % 100) < pct;
}
int
pbt_weighted(pbt_rng *r, const int *w, int n)
{
   int t = 0;
   for (int i = 0; i < n; i++) {
      t += w[i];
   }
   int x = (int)(pbt_u64(r) % (uint64_t)t);
   for (int i = 0; i < n; i++) {
      if (x < w[i]) {
         return i;
      }
      x -= w[i];
   }
   return n - 1;
}
uint64_t
pbt_logrange(pbt_rng *r, uint64_t lo, uint64_t hi)
{
   int bl = 0, bh = 0;
   while ((lo >> bl) > 1) {
      bl++;
   }
   while ((hi >> bh) > 1) {
      bh++;
   }
   int      b = (int)pbt_range(r, bl, bh);
   uint64_t l = 1ULL << b, h = (b >= 63) ? UINT64_MAX : (2ULL << b) - 1;
   if (b == 0) {
      l = 0;
   }
   if (l < lo) {
      l = lo;
   }
   if (h > hi) {
      h = hi;
   }
   return pbt_range(r, l, h);
}
void
pbt_add(pbt_case *c,
        uint32_t  kind,
        uint32_t  a,
        uint32_t  b,
        uint32_t  d,
        uint32_t  e,
        uint32_t  f)
{
   if (c->nops == c->cap) {
      c->cap = c->cap ? c->cap * 2 : 64;
      c->ops = realloc(c->ops, c->cap * sizeof(pbt_op));
   }
   c->ops[c->nops++] = (pbt_op){kind, {a, b, d, e, f}};
}

void
pbt_fail(const char *fmt, ...)
{
   /* only the first failure counts when several threads fail */
   static volatile int once;
   if (__sync_lock_test_and_set(&once, 1)) {
      for (;;) {
         pause();
      }
   }
   va_list ap;
   va_start(ap, fmt);
   vsnprintf(pbt_res->msg, sizeof(pbt_res->msg), fmt, ap);
   va_end(ap);
   __sync_synchronize();
   fprintf(stderr, "PBT-FAIL: %s\n", pbt_res->msg);
   pbt_res->status = 2;
   _exit(21);
}
void
pbt_discard(const char *fmt, ...)
{
   va_list ap;
   va_start(ap, fmt);
   vsnprintf(pbt_res->msg, sizeof(pbt_res->msg), fmt, ap);
   va_end(ap);
   pbt_res->status = 3;
   _exit(23);
}
const char *
pbt_scratch(const char *suffix)
{
   char *b = scratch_buf[scratch_next++ % 8];
   snprintf(b, 600, "%s/case.%s", scratch_dir, suffix);
   return b;
}

static double
now(void)
{
   struct timespec t;
   clock_gettime(CLOCK_MONOTONIC, &t);
   return t.tv_sec + t.tv_nsec * 1e-9;
}

/* ------------------------------------------------------------------ cases */
static void
case_copy(pbt_case *d, const pbt_case *s)
{
   memcpy(d->cfg, s->cfg, sizeof(d->cfg));
   if (d->cap < s->nops) {
      d->cap = s->nops;
      d->ops = realloc(d->ops, (d->cap + 1) * sizeof(pbt_op));
   }
   memcpy(d->ops, s->ops, s->nops * sizeof(pbt_op));
   d->nops = s->nops;
}
static int
nnames(const char **n)
{
   int i = 0;
   while (n && n[i]) {
      i++;
   }
   return i;
}
static int
case_write(const pbt_prop *p, const pbt_case *c, const char *path, const char *msg)
{
   FILE *f = fopen(path, "w");
   if (!f) {
      return -1;
   }
   fprintf(f, "property %s\n", p->id);
   if (msg) {
      char one[300];
      snprintf(one, sizeof one, "%s", msg);
      for (char *q = one; *q; q++) {
         if (*q == '\n') {
            *q = ' ';
         }
      }
      fprintf(f, "# %s\n", one);
   }
   for (int i = 0; i < nnames(p->cfgnames); i++) {
      fprintf(f, "cfg %s %lu\n", p->cfgnames[i], (unsigned long)c->cfg[i]);
   }
   if (c->cfg[NOISE]) {
      fprintf(f, "cfg noise %lu\n", (unsigned long)c->cfg[NOISE]);
   }
   for (int i = 0; i < c->nops; i++) {
      const pbt_op *o = &c->ops[i];
      fprintf(f,
              "op %s %u %u %u %u %u\n",
              p->opnames[o->kind],
              o->a[0],
              o->a[1],
              o->a[2],
              o->a[3],
              o->a[4]);
   }
   fclose(f);
   return 0;
}
static const pbt_prop *
find_prop(const char *id)
{
   for (int i = 0; pbt_props[i]; i++) {
      if (!strcmp(pbt_props[i]->id, id)) {
         return pbt_props[i];
      }
   }
   return NULL;
}
static const pbt_prop *
case_read(const char *path, pbt_case *c)
{
   FILE *f = fopen(path, "r");
   if (!f) {
      return NULL;
   }
   const pbt_prop *p = NULL;
   char            line[512];
   memset(c->cfg, 0, sizeof c->cfg);
   c->nops = 0;
   while (fgets(line, sizeof line, f)) {
      char          w[128];
      unsigned long v;
      unsigned      a, b, d, e, g;
      if (line[0] == '#') {
         continue;
      }
      if (sscanf(line, "property %127s", w) == 1) {
         p = find_prop(w);
         if (!p) {
            fclose(f);
            return NULL;
         }
      } else if (p && sscanf(line, "cfg %127s %lu", w, &v) == 2) {
         if (!strcmp(w, "noise")) {
            c->cfg[NOISE] = v;
         }
         for (int i = 0; i < nnames(p->cfgnames); i++) {
            if (!strcmp(p->cfgnames[i], w)) {
               c->cfg[i] = v;
            }
         }
      } else if (p
                 && sscanf(
                       line, "op %127s %u %u %u %u %u", w, &a, &b, &d, &e, &g)
                       == 6)
      {
         for (int i = 0; i < nnames(p->opnames); i++) {
            if (!strcmp(p->opnames[i], w)) {
               pbt_add(c, i, a, b, d, e, g);
            }
         }
      }
   }
   fclose(f);
   return p;
}
static uint64_t
case_hash(const pbt_case *c)
{
   uint64_t h = 1;
   for (int i = 0; i < PBT_NCFG; i++) {
      h = pbt_mix(h ^ c->cfg[i]);
   }
   for (int i = 0; i < c->nops; i++) {
      h = pbt_mix(h ^ c->ops[i].kind);
      for (int j = 0; j < 5; j++) {
         h = pbt_mix(h ^ c->ops[i].a[j]);
      }
   }
   return h;
}

/* -------------------------------------------------------------- execution */
enum { RC_OK, RC_FAIL, RC_DISCARD, RC_INCONCLUSIVE };

static void
clean_shm(pid_t pid)
{
   struct shm_info si;
   int             max = shmctl(0, SHM_INFO, (struct shmid_ds *)&si);
   for (int i = 0; i <= max; i++) {
      struct shmid_ds ds;
      int             id = shmctl(i, SHM_STAT, &ds);
      if (id >= 0 && ds.shm_cpid == pid) {
         shmctl(id, IPC_RMID, NULL);
      }
   }
}
static void
clean_scratch(void)
{
   char cmd[64];
   (void)cmd;
   static const char *sfx[] = {"db", "db2", "db3", "aux", "log", "img", NULL};
   for (int i = 0; sfx[i]; i++) {
      unlink(pbt_scratch(sfx[i]));
   }
}
static void
grab_log_tail(char *dst, size_t n)
{
   dst[0] = 0;
   FILE *f = fopen(logpath, "r");
   if (!f) {
      return;
   }
   fseek(f, 0, SEEK_END);
   long sz = ftell(f);
   long st = sz > 4000 ? sz - 4000 : 0;
   fseek(f, st, SEEK_SET);
   static char buf[4100];
   size_t      k = fread(buf, 1, 4000, f);
   buf[k]        = 0;
   fclose(f);
   char *q = strstr(buf, "Assertion failed");
   if (!q) {
      q = strstr(buf, "ERROR: ");
   }
   if (!q) {
      q = strstr(buf, "runtime error:");
   }
   if (!q) {
      q = k > 300 ? buf + k - 300 : buf;
   }
   snprintf(dst, n, "%.600s", q);
   for (char *z = dst; *z; z++) {
      if (*z == '\n') {
         *z = ' ';
      }
   }
}

static double last_secs;
/* Runs one case in a child. msg gets a description on failure. */
static int
run_case(const pbt_prop *p, const pbt_case *c, char *msg, size_t msgn)
{
   double t0 = now();
   memset((void *)pbt_res, 0, sizeof(*pbt_res));
   fflush(stdout);
   fflush(stderr);
   pid_t pid = fork();
   if (pid == 0) {
      prctl(PR_SET_PDEATHSIG, SIGKILL);
      struct rlimit rl = {0, 0};
      setrlimit(RLIMIT_CORE, &rl);
      int fd = open(logpath, O_RDWR | O_CREAT | O_TRUNC, 0600);
      if (fd >= 0) {
         dup2(fd, 1);
         dup2(fd, 2);
         close(fd);
      }
      pbt_noise = c->cfg[NOISE];
      p->run(c);
      pbt_res->status = 1;
      _exit(0);
   }
   if (pid < 0) {
      snprintf(msg, msgn, "fork failed");
      return RC_INCONCLUSIVE;
   }
   int      st = 0, hang = 0;
   uint64_t lastp = 0;
   double   lastt = now();
   for (;;) {
      pid_t w = waitpid(pid, &st, WNOHANG);
      if (w == pid) {
         break;
      }
      uint64_t pr = pbt_res->progress;
      if (pr != lastp) {
         lastp = pr;
         lastt = now();
      }
      int hs = p->hang_secs ? p->hang_secs : 60;
      if (now() - lastt > hs) {
         hang = 1;
         if (getenv("PBT_HANGDBG")) {
            fprintf(stderr, "HANG pid %d\n", pid);
            pause();
         }
         kill(pid, SIGKILL);
         waitpid(pid, &st, 0);
         break;
      }
      struct timespec ts = {0, (now() - t0 < 0.05) ? 300000 : 2000000};
      nanosleep(&ts, NULL);
   }
   last_secs = now() - t0;
   int r;
   if (hang) {
      snprintf(msg,
               msgn,
               "HANG: no progress for %d s (after %lu steps)",
               p->hang_secs ? p->hang_secs : 60,
               (unsigned long)lastp);
      r = RC_FAIL;
   } else if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && pbt_res->status == 1) {
      r = RC_OK;
   } else if (pbt_res->status == 2) {
      snprintf(msg, msgn, "%s", pbt_res->msg);
      r = RC_FAIL;
   } else if (pbt_res->status == 3) {
      snprintf(msg, msgn, "%s", pbt_res->msg);
      r = RC_DISCARD;
   } else if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) {
      snprintf(msg, msgn, "child killed");
      r = RC_INCONCLUSIVE;
   } else {
      char tail[700];
      grab_log_tail(tail, sizeof tail);
      if (WIFSIGNALED(st)) {
         snprintf(
            msg, msgn, "CRASH: signal %d; %s", WTERMSIG(st), tail);
      } else {
         snprintf(
            msg, msgn, "CRASH: exit status %d; %s", WEXITSTATUS(st), tail);
      }
      /* running out of memory is not the code's fault */
      if (strstr(tail, "Cannot allocate memory")
          || strstr(tail, "allocator is out of memory"))
      {
         r = RC_INCONCLUSIVE;
      } else {
         r = RC_FAIL;
      }
   }
   clean_shm(pid);
   clean_scratch();
   return r;
}

/* does the case fail?  nondeterministic cases get several attempts */
static int
fails(const pbt_prop *p, const pbt_case *c, char *msg, size_t n, int attempts)
{
   char m[2048];
   for (int i = 0; i < attempts; i++) {
      if (run_case(p, c, m, sizeof m) == RC_FAIL) {
         if (msg) {
            snprintf(msg, n, "%s", m);
         }
         return 1;
      }
   }
   return 0;
}

static void
shrink(const pbt_prop *p, pbt_case *c, double budget, int attempts)
{
   double   end = now() + budget;
   pbt_case t = {0}, best = {0};
   case_copy(&best, c);
   int chunk = best.nops / 2;
   while (chunk >= 1 && now() < end) {
      int removed = 0;
      for (int s = 0; s < best.nops && now() < end;) {
         case_copy(&t, &best);
         int n = chunk;
         if (s + n > t.nops) {
            n = t.nops - s;
         }
         memmove(
            t.ops + s, t.ops + s + n, (t.nops - s - n) * sizeof(pbt_op));
         t.nops -= n;
         if (fails(p, &t, NULL, 0, attempts)) {
            case_copy(&best, &t);
            removed = 1;
         } else {
            s += n;
         }
      }
      if (!removed || chunk > best.nops) {
         chunk /= 2;
      }
      if (chunk > best.nops / 2 && best.nops > 1) {
         chunk = best.nops / 2;
      }
   }
   /* numeric arguments: try 0, then halving */
   for (int i = 0; i < best.nops && now() < end; i++) {
      for (int j = 0; j < 5 && now() < end; j++) {
         int tries = 0;
         while (best.ops[i].a[j] > 0 && now() < end && tries++ < 12) {
            case_copy(&t, &best);
            uint32_t v   = t.ops[i].a[j];
            t.ops[i].a[j] = tries == 1 ? 0 : v / 2;
            if (fails(p, &t, NULL, 0, attempts)) {
               case_copy(&best, &t);
            } else if (tries > 1) {
               break;
            }
         }
      }
   }
   case_copy(c, &best);
   free(t.ops);
   free(best.ops);
}

static void
json_str(FILE *f, const char *s)
{
   fputc('"', f);
   for (; *s; s++) {
      unsigned char ch = *s;
      if (ch == '"' || ch == '\\') {
         fprintf(f, "\\%c", ch);
      } else if (ch < 32 || ch > 126) {
         fprintf(f, "\\u%04x", ch);
      } else {
         fputc(ch, f);
      }
   }
   fputc('"', f);
}

static void
setup(const char *dir)
{
   mkdir(dir, 0700);
   snprintf(scratch_dir, sizeof scratch_dir, "%s", dir);
   snprintf(logpath, sizeof logpath, "%s/log.txt", dir);
   pbt_res = mmap(NULL,
                  sizeof(*pbt_res),
                  PROT_READ | PROT_WRITE,
                  MAP_SHARED | MAP_ANONYMOUS,
                  -1,
                  0);
   prctl(PR_SET_PDEATHSIG, SIGKILL);
   signal(SIGPIPE, SIG_IGN);
}

static void
describe_case(const pbt_prop *p, const pbt_case *c, char *dst, size_t n)
{
   size_t k = 0;
   k += snprintf(dst + k, n - k, "cfg{");
   for (int i = 0; i < nnames(p->cfgnames) && k < n - 80; i++) {
      if (c->cfg[i]) {
         k += snprintf(dst + k,
                       n - k,
                       "%s=%lu ",
                       p->cfgnames[i],
                       (unsigned long)c->cfg[i]);
      }
   }
   k += snprintf(dst + k, n - k, "} %d ops: ", c->nops);
   for (int i = 0; i < c->nops && k < n - 120; i++) {
      const pbt_op *o = &c->ops[i];
      k += snprintf(dst + k,
                    n - k,
                    "%s(%u,%u,%u,%u,%u) ",
                    p->opnames[o->kind],
                    o->a[0],
                    o->a[1],
                    o->a[2],
                    o->a[3],
                    o->a[4]);
   }
}

static int
explore(const pbt_prop *p,
        uint64_t        seed,
        int             worker,
        int             nworkers,
        int             ncases,
        double          tmax,
        int             thorough,
        const char     *outdir)
{
   double   t0 = now();
   uint64_t totals[PBT_NCOUNT] = {0};
   uint64_t *hashes = calloc(ncases + 1, sizeof(uint64_t));
   int      nhash = 0, run = 0, nontriv = 0, disc = 0, inconc = 0, unrep = 0;
   int      capped  = 0;
   double   slowest = 0;
   pbt_case c = {0};
   char     samples[5][1500];
   int      nsamples = 0;
   char     msg[2048], failmsg[2048] = "", replay[700] = "";
   int      violation = 0;
   char     unrepmsg[600] = "", softpath[700] = "";
   for (int i = worker; i < ncases; i += nworkers) {
      if (now() - t0 > tmax) {
         capped = 1;
         break;
      }
      pbt_rng r;
      pbt_seed(&r, pbt_mix(seed * 1000003ULL) ^ pbt_mix(0xabcdef + i));
      memset(c.cfg, 0, sizeof c.cfg);
      c.nops = 0;
      p->gen(&c, &r, thorough);
      if (&pbt_noisy && (p->nondet || (p->racy && p->racy(&c))) && pbt_pct(&r, 75)) {
         c.cfg[NOISE] = pbt_u64(&r) >> 24 | 1 << 8;
      }
      if (getenv("PBT_DUMP")) {
         char path[700];
         snprintf(path, sizeof path, "%s/gen-%d.case", outdir, i);
         case_write(p, &c, path, NULL);
      }
      int res = run_case(p, &c, msg, sizeof msg);
      run++;
      if (getenv("PBT_VERBOSE")) {
         fprintf(stderr, "case %d res %d %.2fs nt=%d %s\n", i, res, last_secs, pbt_res->nontrivial, res != RC_OK ? msg : "");
      }
      if (last_secs > slowest) {
         slowest = last_secs;
      }
      if (res == RC_DISCARD) {
         disc++;
         continue;
      }
      if (res == RC_INCONCLUSIVE) {
         inconc++;
         fprintf(stderr, "inconclusive case %d: %s\n", i, msg);
         continue;
      }
      for (int k = 0; k < PBT_NCOUNT; k++) {
         totals[k] += pbt_res->count[k];
      }
      if (res == RC_OK) {
         if (pbt_res->nontrivial) {
            nontriv++;
            uint64_t h = case_hash(&c);
            int      dup = 0;
            for (int k = 0; k < nhash; k++) {
               dup |= hashes[k] == h;
            }
            if (!dup) {
               hashes[nhash++] = h;
               if (nsamples < 3 && (nontriv % 7) == 1) {
                  describe_case(p, &c, samples[nsamples++], 1400);
               }
            }
         }
         continue;
      }
      /* a failure: confirm, shrink, save, replay */
      char orig[2048];
      snprintf(orig, sizeof orig, "%s", msg);
      fprintf(stderr, "case %d failed: %s\n", i, msg);
      char rawpath[700];
      snprintf(rawpath, sizeof rawpath, "%s/%s-seed%lu-case%d.raw.case", outdir, p->id, (unsigned long)seed, i);
      case_write(p, &c, rawpath, orig);
      int is_hang = !strncmp(msg, "HANG", 4);
      int nondet  = p->nondet || (p->racy && p->racy(&c));
      /*
       * Deterministic cases must fail again three times out of three;
       * schedule-dependent ones at least 4 times in 12 runs.
       */
      int need = nondet ? 4 : 3, again = 0, tries = nondet ? 12 : 3;
      if (is_hang) {
         need  = 2;
         tries = nondet ? 3 : 2;
      }
      for (int k = 0; k < tries && again < need; k++) {
         again += fails(p, &c, msg, sizeof msg, 1);
         if (again + (tries - k - 1) < need) {
            break;
         }
         if (now() - t0 > tmax + 300) {
            break;
         }
      }
      if (again < need) {
         unrep++;
         snprintf(unrepmsg, sizeof unrepmsg, "case %d: %.500s", i, orig);
         snprintf(softpath, sizeof softpath, "%s", rawpath);
         continue;
      }
      double budget = thorough ? 240 : 75;
      if (is_hang) {
         budget = 0;
      }
      double left = 560 - (now() - t0);
      if (!thorough && budget > left) {
         budget = left > 0 ? left : 0;
      }
      pbt_case m = {0};
      case_copy(&m, &c);
      shrink(p, &m, budget, nondet ? 6 : 1);
      int ok = 0, want = nondet ? 4 : 3;
      if (budget > 0) {
         for (int k = 0; k < (nondet ? 12 : 3) && ok < want; k++) {
            ok += fails(p, &m, failmsg, sizeof failmsg, 1);
         }
      }
      if (ok < want) {
         case_copy(&m, &c);
         snprintf(failmsg, sizeof failmsg, "%s", msg[0] ? msg : orig);
      }
      snprintf(replay,
               sizeof replay,
               "%s/%s-seed%lu-case%d.case",
               outdir,
               p->id,
               (unsigned long)seed,
               i);
      case_write(p, &m, replay, failmsg);
      unlink(rawpath);
      fprintf(stderr, "shrunk to %d ops: %s\n", m.nops, failmsg);
      free(m.ops);
      violation = 1;
      break;
   }
   printf("{\"worker\":%d,\"run\":%d,\"nontrivial\":%d,\"distinct\":%d,"
          "\"discarded\":%d,\"inconclusive\":%d,\"unreproduced\":%d,"
          "\"capped\":%d,\"slowest_s\":%.2f,\"wall_s\":%.2f,\"violation\":%d,",
          worker,
          run,
          nontriv,
          nhash,
          disc,
          inconc,
          unrep,
          capped,
          slowest,
          now() - t0,
          violation);
   printf("\"replay\":");
   json_str(stdout, replay);
   printf(",\"message\":");
   json_str(stdout, failmsg);
   printf(",\"unreproduced_message\":");
   json_str(stdout, unrepmsg);
   printf(",\"soft_replay\":");
   json_str(stdout, softpath);
   printf(",\"rule\":");
   json_str(stdout, p->rule ? p->rule : "");
   printf(",\"counts\":{");
   int first = 1;
   for (int k = 0; k < nnames(p->countnames); k++) {
      printf("%s\"%s\":%lu",
             first ? "" : ",",
             p->countnames[k],
             (unsigned long)totals[k]);
      first = 0;
   }
   printf("},\"samples\":[");
   for (int k = 0; k < nsamples; k++) {
      if (k) {
         printf(",");
      }
      json_str(stdout, samples[k]);
   }
   printf("]}\n");
   fflush(stdout);
   free(hashes);
   return violation;
}

int
pbt_main(int argc, char **argv)
{
   if (argc >= 2 && !strcmp(argv[1], "list")) {
      for (int i = 0; pbt_props[i]; i++) {
         printf("%s %s\n", pbt_props[i]->id, pbt_props[i]->desc);
      }
      return 0;
   }
   if (argc >= 9 && !strcmp(argv[1], "explore")) {
      /* explore PROP seed worker nworkers ncases tmax thorough outdir scratch*/
      const pbt_prop *p = find_prop(argv[2]);
      if (!p) {
         fprintf(stderr, "unknown property\n");
         return 2;
      }
      setup(argv[10]);
      return explore(p,
                     strtoull(argv[3], 0, 10),
                     atoi(argv[4]),
                     atoi(argv[5]),
                     atoi(argv[6]),
                     atof(argv[7]),
                     atoi(argv[8]),
                     argv[9]);
   }
   if (argc >= 4 && !strcmp(argv[1], "replay")) {
      /* replay FILE scratch [n] */
      setup(argv[3]);
      int             n = argc > 4 ? atoi(argv[4]) : 1;
      pbt_case        c = {0};
      const pbt_prop *p = case_read(argv[2], &c);
      if (!p) {
         fprintf(stderr, "cannot read %s\n", argv[2]);
         return 2;
      }
      int bad = 0;
      for (int i = 0; i < n; i++) {
         char msg[2048] = "";
         int  r = run_case(p, &c, msg, sizeof msg);
         printf("replay %d: %s %s\n",
                i,
                r == RC_OK     ? "ok"
                : r == RC_FAIL ? "FAIL"
                              : "inconclusive",
                r == RC_OK ? "" : msg);
         bad += r == RC_FAIL;
      }
      return bad ? 1 : 0;
   }
   if (argc >= 4 && !strcmp(argv[1], "run")) {
      /* run FILE scratch : in-process, for gdb */
      setup(argv[3]);
      pbt_case        c = {0};
      const pbt_prop *p = case_read(argv[2], &c);
      if (!p) {
         return 2;
      }
      pbt_noise = c.cfg[NOISE];
      p->run(&c);
      printf("ok\n");
      return 0;
   }
   fprintf(stderr,
           "usage: explore PROP seed worker nworkers ncases tmax thorough "
           "outdir scratch | replay FILE scratch [n] | run FILE scratch | "
           "list\n");
   return 2;
}
