/* Preloaded into the compiler: random delays at thread starts and futex calls, and hash
   seeds chosen from VP_PERTURB.  Counts what it did in the file VP_PERTURB_LOG. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <pthread.h>
#include <stdarg.h>
#include <stdatomic.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <time.h>
#include <unistd.h>

static _Atomic uint64_t st;
static _Atomic long threads, delays, seeds;
static int on;

static uint64_t rnd(void) {
    uint64_t z = atomic_fetch_add(&st, 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}
__attribute__((constructor)) static void init(void) {
    const char *s = getenv("VP_PERTURB");
    if (s) { on = 1; st = strtoull(s, 0, 10) * 7919 + 1; }
}
__attribute__((destructor)) static void fini(void) {
    const char *s = getenv("VP_PERTURB_LOG");
    if (on && s) { FILE *f = fopen(s, "w"); if (f) { fprintf(f, "%ld %ld %ld\n", threads, delays, seeds); fclose(f); } }
}
static void nap(int p, int us) {
    if (!on || rnd() % 100 >= (uint64_t)p) return;
    delays++;
    struct timespec t = {0, (long)(rnd() % us) * 1000};
    nanosleep(&t, 0);
}
struct start { void *(*f)(void *); void *a; };
static void *boot(void *x) {
    struct start s = *(struct start *)x; free(x);
    nap(60, 4000);
    return s.f(s.a);
}
int pthread_create(pthread_t *t, const pthread_attr_t *at, void *(*f)(void *), void *a) {
    static int (*real)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
    if (!real) real = dlsym(RTLD_NEXT, "pthread_create");
    if (!on) return real(t, at, f, a);
    struct start *s = malloc(sizeof *s); s->f = f; s->a = a; threads++;
    return real(t, at, boot, s);
}
long syscall(long n, ...) {
    static long (*real)(long, ...);
    if (!real) real = dlsym(RTLD_NEXT, "syscall");
    va_list v; va_start(v, n);
    long a[6]; for (int i = 0; i < 6; i++) a[i] = va_arg(v, long);
    va_end(v);
    if (n == SYS_futex) nap(30, 500);
    return real(n, a[0], a[1], a[2], a[3], a[4], a[5]);
}
ssize_t getrandom(void *b, size_t n, unsigned fl) {
    static ssize_t (*real)(void *, size_t, unsigned);
    if (!real) real = dlsym(RTLD_NEXT, "getrandom");
    if (!on) return real(b, n, fl);
    seeds++;
    for (size_t i = 0; i < n; i++) ((uint8_t *)b)[i] = rnd();
    return n;
}
