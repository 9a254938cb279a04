/*
 * slowio.h -- a slow, reordering device behind the store's asynchronous I/O.
 *
 * Link with -Wl,--wrap=io_submit,--wrap=io_getevents.  Submitted requests are
 * queued; a request is carried out only when it is reported complete, in an
 * order and after a number of polls drawn from a seeded generator.  With
 * slowio_set(0, ..) requests complete at the first poll, in order.  A request
 * can also be made to fail (slowio_fail_at): it is then not carried out and
 * reported with an error or a short count.
 */
#ifndef SLOWIO_H
#define SLOWIO_H
#include <libaio.h>
#include <pthread.h>
#include <errno.h>
#include <unistd.h>
#include <sys/uio.h>
#include "pbt.h"

#define SLOWIO_MAX 4096
static struct {
   pthread_mutex_t mu;
   struct iocb    *q[SLOWIO_MAX];
   io_context_t    ctx[SLOWIO_MAX];
   int             n;
   int             delay; /* percentage of polls that report nothing */
   uint64_t        rng;
   uint64_t        submitted, reordered, delayed, failed;
   int             maxq;
   int             nap; /* microseconds slept in some of the empty polls */
   /* fault injection: the k-th completion from now (1 = next) of a kind */
   uint64_t fail_read, fail_write;
   long     fail_res;
   int      transient; /* per mille of calls interrupted or refused for now */
   uint64_t ntransient;
   /* told about every write before it is carried out; may carry out a part */
   void (*on_write)(int fd, const struct iovec *iov, int n, long long off);
} slowio = {.mu = PTHREAD_MUTEX_INITIALIZER};

static inline void
slowio_set(int delay, uint64_t seed)
{
   pthread_mutex_lock(&slowio.mu);
   slowio.delay = delay;
   slowio.rng   = seed;
   pthread_mutex_unlock(&slowio.mu);
}
int
__wrap_io_submit(io_context_t ctx, long nr, struct iocb **cbs)
{
   pthread_mutex_lock(&slowio.mu);
   long i;
   if (slowio.transient) {
      slowio.rng = pbt_mix(slowio.rng + 1);
      if ((int)((slowio.rng >> 9) % 1000) < slowio.transient) {
         slowio.ntransient++;
         pthread_mutex_unlock(&slowio.mu);
         return -EAGAIN;
      }
   }
   for (i = 0; i < nr && slowio.n < SLOWIO_MAX; i++) {
      slowio.q[slowio.n]     = cbs[i];
      slowio.ctx[slowio.n++] = ctx;
      slowio.submitted++;
   }
   if (slowio.n > slowio.maxq) {
      slowio.maxq = slowio.n;
   }
   pthread_mutex_unlock(&slowio.mu);
   return i ? i : -EAGAIN;
}
int
__wrap_io_getevents(io_context_t ctx, long min_nr, long nr, struct io_event *ev, struct timespec *t)
{
   (void)t;
   long got = 0;
   int  nap = 0;
   pthread_mutex_lock(&slowio.mu);
   if (slowio.transient) {
      slowio.rng = pbt_mix(slowio.rng + 1);
      if ((int)((slowio.rng >> 9) % 1000) < slowio.transient) {
         slowio.ntransient++;
         pthread_mutex_unlock(&slowio.mu);
         return -EINTR;
      }
   }
   while (got < nr) {
      int first = -1, cnt = 0;
      for (int i = 0; i < slowio.n; i++) {
         if (slowio.ctx[i] == ctx) {
            first = first < 0 ? i : first;
            cnt++;
         }
      }
      if (cnt == 0) {
         break;
      }
      int pick = first;
      if (slowio.delay) {
         slowio.rng = pbt_mix(slowio.rng + 1);
         if (got >= min_nr && (int)(slowio.rng % 100) < slowio.delay) {
            slowio.delayed++;
            nap = got == 0 && slowio.rng >> 60 == 0 ? slowio.nap : 0;
            break;
         }
         int k = (slowio.rng >> 16) % cnt;
         for (int i = 0; i < slowio.n; i++) {
            if (slowio.ctx[i] == ctx && k-- == 0) {
               pick = i;
               break;
            }
         }
         slowio.reordered += pick != first;
      }
      struct iocb *cb = slowio.q[pick];
      memmove(&slowio.q[pick], &slowio.q[pick + 1], (slowio.n - pick - 1) * sizeof slowio.q[0]);
      memmove(&slowio.ctx[pick], &slowio.ctx[pick + 1], (slowio.n - pick - 1) * sizeof slowio.ctx[0]);
      slowio.n--;
      int       wr   = cb->aio_lio_opcode == IO_CMD_PWRITEV || cb->aio_lio_opcode == IO_CMD_PWRITE;
      uint64_t *left = wr ? &slowio.fail_write : &slowio.fail_read;
      long      res;
      if (*left && --*left == 0) {
         slowio.failed++;
         res = slowio.fail_res;
         if (res > 0) { /* short, whatever the size of the request */
            long total = 0;
            for (unsigned long i = 0; i < cb->u.c.nbytes; i++) {
               total += ((struct iovec *)cb->u.c.buf)[i].iov_len;
            }
            res = res < total ? res : total - 512;
         }
      } else {
         /* done under the lock: at most one request is in progress */
         switch (cb->aio_lio_opcode) {
            case IO_CMD_PWRITEV:
               if (slowio.on_write) {
                  slowio.on_write(cb->aio_fildes, (struct iovec *)cb->u.c.buf, cb->u.c.nbytes, cb->u.c.offset);
               }
               res = pwritev(cb->aio_fildes, (struct iovec *)cb->u.c.buf, cb->u.c.nbytes, cb->u.c.offset);
               break;
            case IO_CMD_PREADV:
               res = preadv(cb->aio_fildes, (struct iovec *)cb->u.c.buf, cb->u.c.nbytes, cb->u.c.offset);
               break;
            case IO_CMD_PWRITE:
               res = pwrite(cb->aio_fildes, cb->u.c.buf, cb->u.c.nbytes, cb->u.c.offset);
               break;
            default:
               res = pread(cb->aio_fildes, cb->u.c.buf, cb->u.c.nbytes, cb->u.c.offset);
         }
         if (res < 0) {
            res = -errno;
         }
      }
      ev[got++] = (struct io_event){.data = cb->data, .obj = cb, .res = res, .res2 = 0};
   }
   pthread_mutex_unlock(&slowio.mu);
   if (nap) {
      usleep(nap);
   }
   return got;
}
#endif
