/* LD_PRELOAD shim: counts the calls that modify files below a folder and, at
 * the n-th one, ends the process, tears the write, fails it or waits.
 * Only active after fsfault_arm(); reads are never touched. */
#define _GNU_SOURCE
#pragma GCC diagnostic ignored "-Wunused-result"
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

enum { OFF, COUNT, CRASH, TORN, ERROR_ONCE, ERROR_FROM, PAUSE };
static int mode = OFF, target = 0, count = 0, fd_out = -1, fd_in = -1;
static char prefix[PATH_MAX];
static char journal[1 << 16];

void fsfault_arm(const char *p, int m, int n, int out, int in)
{
    snprintf(prefix, sizeof prefix, "%s", p);
    count = 0; target = n; fd_out = out; fd_in = in; journal[0] = 0;
    mode = m;
}
int fsfault_count(void) { return count; }
const char *fsfault_journal(void) { return journal; }
void fsfault_disarm(void) { mode = OFF; }

static int below(const char *path)
{
    return strncmp(path, prefix, strlen(prefix)) == 0;
}
static int path_below(int dirfd, const char *path)
{
    char link[64], dir[PATH_MAX], full[2 * PATH_MAX];
    ssize_t n;
    if (mode == OFF || !path) return 0;
    if (path[0] == '/') return below(path);
    if (dirfd == AT_FDCWD) {
        if (!getcwd(dir, sizeof dir)) return 0;
    } else {
        snprintf(link, sizeof link, "/proc/self/fd/%d", dirfd);
        n = readlink(link, dir, sizeof dir - 1);
        if (n < 0) return 0;
        dir[n] = 0;
    }
    snprintf(full, sizeof full, "%s/%s", dir, path);
    return below(full);
}
static int fd_below(int fd)
{
    char link[64], path[PATH_MAX];
    ssize_t n;
    if (mode == OFF) return 0;
    snprintf(link, sizeof link, "/proc/self/fd/%d", fd);
    n = readlink(link, path, sizeof path - 1);
    if (n < 0) return 0;
    path[n] = 0;
    return below(path);
}

/* returns 1: fail the call; 2: tear the write */
static int hit(const char *what)
{
    int at = count++;
    size_t l = strlen(journal);
    if (l < sizeof journal - 64) snprintf(journal + l, 64, "%s ", what);
    if (mode == ERROR_FROM && at >= target) { errno = ENOSPC; return 1; }
    if (at != target) return 0;
    switch (mode) {
    case CRASH: _exit(77);
    case TORN: return 2;
    case ERROR_ONCE: errno = EIO; return 1;
    case PAUSE: {
        char c = 'p';
        static ssize_t (*w)(int, const void *, size_t);
        if (!w) w = dlsym(RTLD_NEXT, "write");
        w(fd_out, &c, 1);
        if (read(fd_in, &c, 1) < 0) _exit(78);
        return 0;
    }
    }
    return 0;
}

#define REAL(name) static __typeof__(&name) real; if (!real) real = (__typeof__(&name))dlsym(RTLD_NEXT, #name)
#define WRITES(f) (((f) & (O_CREAT | O_TRUNC)) != 0)

#define OPEN(name) int name(const char *p, int f, ...) { REAL(name); \
    va_list a; va_start(a, f); mode_t m = (f & (O_CREAT | O_TMPFILE)) ? va_arg(a, mode_t) : 0; va_end(a); \
    if (WRITES(f) && path_below(AT_FDCWD, p)) { int h = hit("open"); if (h == 1) return -1; \
        if (h == 2) { real(p, f, m); _exit(77); } } \
    return real(p, f, m); }
OPEN(open)
OPEN(open64)
#define OPENAT(name) int name(int d, const char *p, int f, ...) { REAL(name); \
    va_list a; va_start(a, f); mode_t m = (f & (O_CREAT | O_TMPFILE)) ? va_arg(a, mode_t) : 0; va_end(a); \
    if (WRITES(f) && path_below(d, p)) { int h = hit("open"); if (h == 1) return -1; \
        if (h == 2) { real(d, p, f, m); _exit(77); } } \
    return real(d, p, f, m); }
OPENAT(openat)
OPENAT(openat64)

FILE *fopen(const char *p, const char *md) { REAL(fopen);
    if (md[0] != 'r' && path_below(AT_FDCWD, p)) { int h = hit("fopen"); if (h == 1) return NULL;
        if (h == 2) { real(p, md); _exit(77); } }
    return real(p, md); }
FILE *fopen64(const char *p, const char *md) { REAL(fopen64);
    if (md[0] != 'r' && path_below(AT_FDCWD, p)) { int h = hit("fopen"); if (h == 1) return NULL;
        if (h == 2) { real(p, md); _exit(77); } }
    return real(p, md); }

ssize_t write(int fd, const void *b, size_t n) { REAL(write);
    if (fd_below(fd)) { int h = hit("write"); if (h == 1) return -1;
        if (h == 2) { real(fd, b, n / 2); _exit(77); } }
    return real(fd, b, n); }
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { REAL(pwrite);
    if (fd_below(fd)) { int h = hit("pwrite"); if (h == 1) return -1;
        if (h == 2) { real(fd, b, n / 2, o); _exit(77); } }
    return real(fd, b, n, o); }
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) { REAL(pwrite64);
    if (fd_below(fd)) { int h = hit("pwrite"); if (h == 1) return -1;
        if (h == 2) { real(fd, b, n / 2, o); _exit(77); } }
    return real(fd, b, n, o); }
ssize_t writev(int fd, const struct iovec *v, int n) { REAL(writev);
    if (fd_below(fd)) { int h = hit("writev"); if (h == 1) return -1;
        if (h == 2) { real(fd, v, n / 2); _exit(77); } }
    return real(fd, v, n); }

#define SIMPLE(ret, name, params, args, cond) ret name params { REAL(name); \
    if (cond) { int h = hit(#name); if (h == 1) return -1; if (h == 2) { real args; _exit(77); } } \
    return real args; }
SIMPLE(int, ftruncate, (int fd, off_t n), (fd, n), fd_below(fd))
SIMPLE(int, ftruncate64, (int fd, off64_t n), (fd, n), fd_below(fd))
SIMPLE(int, truncate, (const char *p, off_t n), (p, n), path_below(AT_FDCWD, p))
SIMPLE(int, truncate64, (const char *p, off64_t n), (p, n), path_below(AT_FDCWD, p))
SIMPLE(int, rename, (const char *a, const char *b), (a, b), path_below(AT_FDCWD, a) || path_below(AT_FDCWD, b))
SIMPLE(int, renameat, (int d, const char *a, int e, const char *b), (d, a, e, b), path_below(d, a) || path_below(e, b))
SIMPLE(int, renameat2, (int d, const char *a, int e, const char *b, unsigned f), (d, a, e, b, f), path_below(d, a) || path_below(e, b))
SIMPLE(int, unlink, (const char *p), (p), path_below(AT_FDCWD, p))
SIMPLE(int, unlinkat, (int d, const char *p, int f), (d, p, f), path_below(d, p))
SIMPLE(int, mkdir, (const char *p, mode_t m), (p, m), path_below(AT_FDCWD, p))
SIMPLE(int, mkdirat, (int d, const char *p, mode_t m), (d, p, m), path_below(d, p))
SIMPLE(int, rmdir, (const char *p), (p), path_below(AT_FDCWD, p))
SIMPLE(int, link, (const char *a, const char *b), (a, b), path_below(AT_FDCWD, b))
SIMPLE(int, linkat, (int d, const char *a, int e, const char *b, int f), (d, a, e, b, f), path_below(e, b))
SIMPLE(int, symlink, (const char *a, const char *b), (a, b), path_below(AT_FDCWD, b))
ssize_t sendfile64(int, int, off64_t *, size_t);
ssize_t copy_file_range(int, off64_t *, int, off64_t *, size_t, unsigned);
SIMPLE(ssize_t, sendfile64, (int o, int i, off64_t *p, size_t n), (o, i, p, n), fd_below(o))
SIMPLE(ssize_t, copy_file_range, (int i, off64_t *p, int o, off64_t *q, size_t n, unsigned f), (i, p, o, q, n, f), fd_below(o))
