// LD_PRELOAD: seeded random delays around the thread operations of a generated witness
// program, so that schedules which are rare without it happen.  Reports what it delayed.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <pthread.h>
#include <stdatomic.h>
#include <stdio.h>
#include <stdlib.h>
#include <time.h>
#include <unistd.h>

static atomic_ulong spent, seq, delays, creates, locks, waits, notes;
static unsigned long seed, maxus;
static __attribute__((constructor)) void init(void) {
  const char *s = getenv("VP_DELAY_SEED"), *m = getenv("VP_DELAY_US");
  seed = s ? strtoul(s, 0, 10) : 1; maxus = m ? strtoul(m, 0, 10) : 300;
}
static __attribute__((destructor)) void fini(void) {
  const char *f = getenv("VP_DELAY_OUT");
  if (!f) return;
  FILE *o = fopen(f, "a");
  if (o) { fprintf(o, "%lu %lu %lu %lu %lu\n", delays, creates, locks, waits, notes); fclose(o); }
}
static void nap(int site) {
  unsigned long x = seed * 0x9E3779B97F4A7C15ul + atomic_fetch_add(&seq, 1) * 0xBF58476D1CE4E5B9ul + site * 0x94D049BB133111EBul;
  x ^= x >> 31; x *= 0xD6E8FEB86659FD93ul; x ^= x >> 29;
  if ((x & 7) > 2 || !maxus) return;
  long us = (x >> 8) % maxus;
  if (atomic_fetch_add(&spent, us) > 6000000) return;
  atomic_fetch_add(&delays, 1);
  struct timespec t = {0, us * 1000};
  nanosleep(&t, 0);
}
#define REAL(n, T) static __typeof__(T) r; if (!r) r = (T)dlsym(RTLD_NEXT, n)
struct start { void *(*f)(void *); void *a; };
static void *begin(void *p) { struct start s = *(struct start *)p; free(p); nap(1); void *x = s.f(s.a); nap(2); return x; }
int pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*f)(void *), void *g) {
  REAL("pthread_create", int (*)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *));
  atomic_fetch_add(&creates, 1);
  struct start *s = malloc(sizeof *s); s->f = f; s->a = g;
  nap(3); int x = r(t, a, begin, s); nap(4); return x;
}
int pthread_mutex_lock(pthread_mutex_t *m) {
  REAL("pthread_mutex_lock", int (*)(pthread_mutex_t *));
  atomic_fetch_add(&locks, 1); nap(5); return r(m);
}
int pthread_mutex_unlock(pthread_mutex_t *m) {
  REAL("pthread_mutex_unlock", int (*)(pthread_mutex_t *));
  int x = r(m); nap(6); return x;
}
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) {
  REAL("pthread_cond_wait", int (*)(pthread_cond_t *, pthread_mutex_t *));
  atomic_fetch_add(&waits, 1); return r(c, m);
}
int pthread_cond_signal(pthread_cond_t *c) {
  REAL("pthread_cond_signal", int (*)(pthread_cond_t *));
  atomic_fetch_add(&notes, 1); nap(7); int x = r(c); nap(8); return x;
}
int pthread_cond_broadcast(pthread_cond_t *c) {
  REAL("pthread_cond_broadcast", int (*)(pthread_cond_t *));
  atomic_fetch_add(&notes, 1); nap(7); int x = r(c); nap(8); return x;
}
