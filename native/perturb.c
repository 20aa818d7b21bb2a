/* LD_PRELOAD: threads other than the first pause now and then where they allocate
   or free memory, so that requests handled at the same time overlap in many ways.
   PERTURB=n: about one pause in n calls; PERTURB_US: longest pause. */
#define _GNU_SOURCE
#include <stdlib.h>
#include <time.h>
#include <unistd.h>
#include <sched.h>
#include <sys/syscall.h>

extern void *__libc_malloc(size_t);
extern void *__libc_calloc(size_t, size_t);
extern void *__libc_realloc(void *, size_t);
extern void __libc_free(void *);

static int every = 0, longest = 200;
static volatile int ready = 0;
static __thread unsigned state = 0;
static __thread int kind = 0;

__attribute__((constructor)) static void setup(void) {
    const char *e = getenv("PERTURB");
    if (e) every = atoi(e);
    e = getenv("PERTURB_US");
    if (e) longest = atoi(e);
    ready = 1;
}

static void point(void) {
    if (!ready || !every || kind == 1) return;
    if (kind == 0) {
        pid_t t = syscall(SYS_gettid);
        struct timespec ts;
        kind = t == getpid() ? 1 : 2;
        clock_gettime(CLOCK_MONOTONIC, &ts);
        state = (unsigned)t * 2654435761u ^ (unsigned)ts.tv_nsec;
        if (kind == 1) return;
    }
    state = state * 1664525u + 1013904223u;
    if ((state >> 8) % every == 0) {
        struct timespec ts = {0, (long)((state >> 12) % longest) * 1000};
        if ((state >> 5) % 3 == 0) sched_yield();
        else nanosleep(&ts, 0);
    }
}

void *malloc(size_t n) { point(); return __libc_malloc(n); }
void *calloc(size_t n, size_t m) { point(); return __libc_calloc(n, m); }
void *realloc(void *p, size_t n) { point(); return __libc_realloc(p, n); }
void free(void *p) { point(); __libc_free(p); }
