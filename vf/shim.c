/*
 * File-system event monitor and fault injector (LD_PRELOAD).
 *
 * Sees every call that changes something below a given directory: opening for
 * writing, write, resize, rename, remove, mkdir, sync and close of files opened
 * for writing.  Each such call is one event.  Events are appended to a log, and
 * the chosen event can be delayed, fail, be torn (half of a write is done) or be
 * the last thing the process does.  Calls on other paths are passed through.
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

enum { OFF = -1, LOG = 0, KILL = 1, TORN = 2, FAIL = 3, FAILALL = 4, KILLAFTER = 5 };

static int mode = OFF;
static char prefix[PATH_MAX];
static size_t plen;
static int logfd = -1;
static long count, target;
static int err;
static unsigned rnd;
static unsigned delay_us;
#define MAXFD 4096
static char *fdpath[MAXFD];

#define REAL(type, name, ...) \
    static type (*real)(__VA_ARGS__); \
    if (!real) real = (type (*)(__VA_ARGS__))dlsym(RTLD_NEXT, name)

void vfs_arm(const char *pre, const char *log, int m, long at, int e, unsigned seed, unsigned delay)
{
    mode = OFF;
    strncpy(prefix, pre, sizeof prefix - 1);
    plen = strlen(prefix);
    if (logfd >= 0) syscall(SYS_close, logfd);
    logfd = -1;
    if (log && *log) {
        int fd = syscall(SYS_openat, AT_FDCWD, log, O_WRONLY | O_CREAT | O_APPEND, 0644);
        logfd = syscall(SYS_fcntl, fd, F_DUPFD, 3000);
        if (logfd < 0) logfd = fd; else syscall(SYS_close, fd);
    }
    count = 0;
    target = at;
    err = e;
    rnd = seed * 2654435761u + 1;
    delay_us = delay;
    mode = m;
}

void vfs_off(void) { mode = OFF; }
long vfs_count(void) { return count; }

static unsigned next(void)
{
    rnd = rnd * 1664525u + 1013904223u;
    return rnd >> 8;
}

static int under(const char *p)
{
    char buf[PATH_MAX];
    if (mode == OFF || !p) return 0;
    if (p[0] != '/') {
        size_t n;
        if (!getcwd(buf, sizeof buf)) return 0;
        n = strlen(buf);
        snprintf(buf + n, sizeof buf - n, "/%s", p);
        p = buf;
    }
    return strncmp(p, prefix, plen) == 0 && (p[plen] == '/' || p[plen] == 0);
}

/* Returns 0 to go on, 1 to fail with errno, 2 to write half and be killed, 3 to be killed after */
static int event(const char *kind, const char *path, const char *path2)
{
    long k = ++count;
    int r = 0;
    if (delay_us) {
        struct timespec t = {0, 0};
        unsigned d = next() % 4 == 0 ? next() % delay_us : 0;
        /* whoever is about to make a directory has just found it missing: leave time for others */
        if (strcmp(kind, "mkdir") == 0 && next() % 4) d = 2 * delay_us + next() % (4 * delay_us);
        t.tv_nsec = (long)d * 1000;
        if (d) nanosleep(&t, NULL);
    }
    if (logfd >= 0) {
        char line[3 * PATH_MAX];
        struct timespec t;
        clock_gettime(CLOCK_MONOTONIC, &t);
        int n = snprintf(line, sizeof line, "%ld.%09ld\t%d\t%s\t%s\t%s\n", (long)t.tv_sec, t.tv_nsec,
                         (int)getpid(), kind, path ? path : "", path2 ? path2 : "");
        syscall(SYS_write, logfd, line, n);
    }
    if (mode == KILL && k == target) r = 4;
    else if (mode == KILLAFTER && k == target) r = 3;
    else if (mode == TORN && k == target) r = strcmp(kind, "write") ? 4 : 2;
    else if (mode == FAIL && k == target) r = 1;
    else if (mode == FAILALL && k >= target) r = 1;
    if (r == 4) { kill(getpid(), SIGKILL); for (;;) pause(); }
    if (r == 1) errno = err;
    return r;
}

static void die(void) { kill(getpid(), SIGKILL); for (;;) pause(); }

static void track(int fd, const char *path)
{
    if (fd >= 0 && fd < MAXFD) {
        free(fdpath[fd]);
        fdpath[fd] = path ? strdup(path) : NULL;
    }
}

static const char *tracked(int fd)
{
    return (mode != OFF && fd >= 0 && fd < MAXFD) ? fdpath[fd] : NULL;
}

static int writing(int flags) { return (flags & O_ACCMODE) != O_RDONLY || (flags & (O_CREAT | O_TRUNC)); }

#define OPEN_BODY(callreal) \
    int w = writing(flags) && under(path); \
    int r = w ? event((flags & O_TRUNC) ? "create" : (flags & O_CREAT) ? "opencreate" : "openrw", path, NULL) : 0; \
    if (r == 1) return -1; \
    int fd = callreal; \
    if (w) track(fd, path); else if (fd >= 0 && fd < MAXFD && fdpath[fd]) track(fd, NULL); \
    if (r == 3) die(); \
    return fd;

int open(const char *path, int flags, ...)
{
    REAL(int, "open", const char *, int, ...);
    mode_t m = 0;
    if (flags & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, flags); m = va_arg(a, mode_t); va_end(a); }
    OPEN_BODY(real(path, flags, m))
}

int open64(const char *path, int flags, ...)
{
    REAL(int, "open64", const char *, int, ...);
    mode_t m = 0;
    if (flags & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, flags); m = va_arg(a, mode_t); va_end(a); }
    OPEN_BODY(real(path, flags, m))
}

int __open_2(const char *path, int flags) { return open(path, flags); }
int __open64_2(const char *path, int flags) { return open64(path, flags); }

int openat(int dir, const char *path, int flags, ...)
{
    REAL(int, "openat", int, const char *, int, ...);
    mode_t m = 0;
    if (flags & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, flags); m = va_arg(a, mode_t); va_end(a); }
    OPEN_BODY(real(dir, path, flags, m))
}

int openat64(int dir, const char *path, int flags, ...)
{
    REAL(int, "openat64", int, const char *, int, ...);
    mode_t m = 0;
    if (flags & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, flags); m = va_arg(a, mode_t); va_end(a); }
    OPEN_BODY(real(dir, path, flags, m))
}

int creat(const char *path, mode_t m)
{
    int flags = O_CREAT | O_WRONLY | O_TRUNC;
    REAL(int, "creat", const char *, mode_t);
    OPEN_BODY(real(path, m))
}

#define WRITE_BODY(kind, full, half) \
    const char *p = tracked(fd); \
    int r = p ? event(kind, p, NULL) : 0; \
    if (r == 1) return -1; \
    if (r == 2) { half; die(); } \
    ssize_t n = full; \
    if (r == 3) die(); \
    return n;

ssize_t write(int fd, const void *b, size_t n0)
{
    REAL(ssize_t, "write", int, const void *, size_t);
    WRITE_BODY("write", real(fd, b, n0), real(fd, b, n0 / 2))
}

ssize_t pwrite(int fd, const void *b, size_t n0, off_t o)
{
    REAL(ssize_t, "pwrite", int, const void *, size_t, off_t);
    WRITE_BODY("write", real(fd, b, n0, o), real(fd, b, n0 / 2, o))
}

ssize_t pwrite64(int fd, const void *b, size_t n0, off64_t o)
{
    REAL(ssize_t, "pwrite64", int, const void *, size_t, off64_t);
    WRITE_BODY("write", real(fd, b, n0, o), real(fd, b, n0 / 2, o))
}

ssize_t writev(int fd, const struct iovec *v, int c)
{
    REAL(ssize_t, "writev", int, const struct iovec *, int);
    WRITE_BODY("write", real(fd, v, c), real(fd, v, c / 2))
}

int ftruncate(int fd, off_t n0)
{
    REAL(int, "ftruncate", int, off_t);
    WRITE_BODY("resize", real(fd, n0), (void)0)
}

int ftruncate64(int fd, off64_t n0)
{
    REAL(int, "ftruncate64", int, off64_t);
    WRITE_BODY("resize", real(fd, n0), (void)0)
}

int fsync(int fd)
{
    REAL(int, "fsync", int);
    WRITE_BODY("sync", real(fd), (void)0)
}

int fdatasync(int fd)
{
    REAL(int, "fdatasync", int);
    WRITE_BODY("sync", real(fd), (void)0)
}

int close(int fd)
{
    REAL(int, "close", int);
    const char *p = tracked(fd);
    if (!p) {
        if (fd >= 0 && fd < MAXFD && fdpath[fd]) track(fd, NULL);
        if (fd == logfd && logfd >= 0) return 0;
        return real(fd);
    }
    int r = event("close", p, NULL);
    track(fd, NULL);
    int n = real(fd);
    if (r == 1) { errno = err; return -1; }
    if (r == 3) die();
    return n;
}

#define PATH_BODY(kind, p1, p2, callreal) \
    int in = under(p1) || under(p2); \
    int r = in ? event(kind, p1, p2) : 0; \
    if (r == 1) return -1; \
    int n = callreal; \
    if (r == 3) die(); \
    return n;

int rename(const char *a, const char *b)
{
    REAL(int, "rename", const char *, const char *);
    PATH_BODY("rename", a, b, real(a, b))
}

int renameat(int d, const char *a, int e, const char *b)
{
    REAL(int, "renameat", int, const char *, int, const char *);
    PATH_BODY("rename", a, b, real(d, a, e, b))
}

int link(const char *a, const char *b)
{
    REAL(int, "link", const char *, const char *);
    PATH_BODY("link", a, b, real(a, b))
}

int unlink(const char *a)
{
    REAL(int, "unlink", const char *);
    PATH_BODY("unlink", a, NULL, real(a))
}

int unlinkat(int d, const char *a, int f)
{
    REAL(int, "unlinkat", int, const char *, int);
    PATH_BODY("unlink", a, NULL, real(d, a, f))
}

int mkdir(const char *a, mode_t m)
{
    REAL(int, "mkdir", const char *, mode_t);
    PATH_BODY("mkdir", a, NULL, real(a, m))
}

int mkdirat(int d, const char *a, mode_t m)
{
    REAL(int, "mkdirat", int, const char *, mode_t);
    PATH_BODY("mkdir", a, NULL, real(d, a, m))
}
