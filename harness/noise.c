/*
 * noise.c -- perturbs schedules.  Variant "noise" compiles the store with
 * -fsanitize-coverage=trace-pc, so every basic block calls the function below.
 * A case picks (by seed and density) a few blocks at which threads dawdle now
 * and then: windows of a few instructions become windows of microseconds, at
 * places chosen without looking at the code.  pbt_noise == 0 is off.
 */
#define _GNU_SOURCE
#include <sched.h>
#include <stdint.h>
#include <time.h>
#include <x86intrin.h>

extern uint64_t          pbt_noise; /* seed << 8 | density */
const int                pbt_noisy = 1;
extern char              __executable_start;
static uint64_t          visits[4096];
static __thread uint64_t rnd, rest;
static uint64_t          threads;

#define NOCOV __attribute__((no_sanitize_coverage))
NOCOV static inline uint64_t
mix(uint64_t x)
{
   x ^= x >> 31;
   x *= 0x9E3779B97F4A7C15ull;
   x ^= x >> 29;
   x *= 0xBF58476D1CE4E5B9ull;
   return x ^ (x >> 32);
}
NOCOV void
__sanitizer_cov_trace_pc(void)
{
   uint64_t n = pbt_noise;
   if (__builtin_expect(n == 0, 1)) {
      return;
   }
   uint64_t pc   = (uint64_t)__builtin_return_address(0) - (uint64_t)&__executable_start;
   uint64_t h    = mix(pc ^ (n << 20));
   int      bits = 1 + (n & 7); /* one block in 2 .. 256 */
   if (n & 8) {
      /* or whole stretches of code */
      bits = 3 + (n & 3);
      if (mix((pc >> 9) ^ (n << 20)) & ((1ull << bits) - 1)) {
         return;
      }
   } else if (h & ((1ull << bits) - 1)) {
      return;
   }
   uint64_t now = __rdtsc();
   if (now < rest) {
      return;
   }
   if (rnd == 0) {
      rnd = mix(n ^ (__atomic_add_fetch(&threads, 1, __ATOMIC_RELAXED) << 40)) | 1;
   }
   rnd ^= rnd << 13;
   rnd ^= rnd >> 7;
   rnd ^= rnd << 17;
   /* blocks that are passed often in these milliseconds fire less often */
   uint64_t *v = &visits[(h >> 20) & 4095], w = *v;
   uint64_t  c = (w >> 32) == (uint32_t)(now >> 25) ? (uint32_t)w + 1 : 1;
   *v          = (now >> 25) << 32 | c;
   if (c > 4 && (rnd >> 20) % c >= 4) {
      return;
   }
   switch ((rnd >> 8) & 7) {
      case 0:
      case 1:
      case 2:
         sched_yield();
         break;
      case 3:
      case 4:
      case 5:
      case 6: {
         uint64_t spin = 1ull << ((rnd >> 12) & 15);
         for (volatile uint64_t i = 0; i < spin; i++) {
         }
         break;
      }
      default: {
         struct timespec t = {0, 1000 * (1 + ((rnd >> 12) & 255))};
         nanosleep(&t, 0);
         break;
      }
   }
   /* and a thread that dawdled works for a while */
   uint64_t end = __rdtsc();
   rest         = end + (end - now) * (1 + ((rnd >> 30) & 7));
}
