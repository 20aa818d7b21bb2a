/* Paths below $REDIRECT_FROM are taken to be below $REDIRECT_TO instead. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <unistd.h>

static const char *map(const char *p, char *buf, size_t n) {
    const char *from = getenv("REDIRECT_FROM"), *to = getenv("REDIRECT_TO");
    size_t k;
    if (!from || !to || !p) return p;
    k = strlen(from);
    if (strncmp(p, from, k) || (p[k] && p[k] != '/')) return p;
    snprintf(buf, n, "%s%s", to, p + k);
    return buf;
}
#define REAL(ret, name, ...) ret (*real)(__VA_ARGS__) = (ret (*)(__VA_ARGS__))dlsym(RTLD_NEXT, name)
#define M(p) map(p, b, sizeof b)
#define B char b[8192]
FILE *fopen(const char *p, const char *m) { B; REAL(FILE *, "fopen", const char *, const char *); return real(M(p), m); }
FILE *fopen64(const char *p, const char *m) { B; REAL(FILE *, "fopen64", const char *, const char *); return real(M(p), m); }
#define MODE mode_t mode = 0; if (f & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, f); mode = va_arg(a, mode_t); va_end(a); }
int open(const char *p, int f, ...) { B; MODE; REAL(int, "open", const char *, int, ...); return real(M(p), f, mode); }
int open64(const char *p, int f, ...) { B; MODE; REAL(int, "open64", const char *, int, ...); return real(M(p), f, mode); }
int openat(int d, const char *p, int f, ...) { B; MODE; REAL(int, "openat", int, const char *, int, ...); return real(d, M(p), f, mode); }
int openat64(int d, const char *p, int f, ...) { B; MODE; REAL(int, "openat64", int, const char *, int, ...); return real(d, M(p), f, mode); }
int creat(const char *p, mode_t m) { B; REAL(int, "creat", const char *, mode_t); return real(M(p), m); }
int access(const char *p, int m) { B; REAL(int, "access", const char *, int); return real(M(p), m); }
int stat(const char *p, struct stat *s) { B; REAL(int, "stat", const char *, struct stat *); return real(M(p), s); }
int lstat(const char *p, struct stat *s) { B; REAL(int, "lstat", const char *, struct stat *); return real(M(p), s); }
int mkdir(const char *p, mode_t m) { B; REAL(int, "mkdir", const char *, mode_t); return real(M(p), m); }
int unlink(const char *p) { B; REAL(int, "unlink", const char *); return real(M(p)); }
int remove(const char *p) { B; REAL(int, "remove", const char *); return real(M(p)); }
int rename(const char *p, const char *q) { B; char c[8192]; REAL(int, "rename", const char *, const char *); return real(M(p), map(q, c, sizeof c)); }
int link(const char *p, const char *q) { B; char c[8192]; REAL(int, "link", const char *, const char *); return real(M(p), map(q, c, sizeof c)); }
int mkstemp(char *t) {
    B; REAL(int, "mkstemp", char *);
    const char *m = M(t);
    if (m == t) return real(t);
    int r = real((char *)m);
    if (r >= 0) memcpy(t + strlen(t) - 6, m + strlen(m) - 6, 6);
    return r;
}
