/* Fault-injecting interposer for file-system calls below one directory (LD_PRELOAD).
 * fi_arm(dir, plan...) is called through ctypes in a forked child; every relevant call is numbered and logged, and
 * the planned call is killed before/after, torn, shortened or failed. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <sys/sendfile.h>
#include <unistd.h>

enum { NONE, KILL_BEFORE, KILL_AFTER, FAIL, TORN, SHORT, FAIL_ON };
static int armed, logfd = -1, counter;
static char dir[PATH_MAX];
static size_t dirlen;
static struct { int at, mode; long arg; int on; } plan[4];
static int nplan;
static char mine[4096];

void fi_arm(const char *d, int lfd) { strncpy(dir, d, sizeof dir - 1); dirlen = strlen(dir); logfd = lfd; counter = 0; nplan = 0; memset(mine, 0, sizeof mine); }
void fi_plan(int at, int mode, long arg) { if (nplan < 4) { plan[nplan].at = at; plan[nplan].mode = mode; plan[nplan].arg = arg; plan[nplan].on = 0; nplan++; } }
void fi_go(int on) { armed = on; }
int fi_count(void) { return counter; }

static int under(const char *p) { return !strncmp(p, dir, dirlen) && (p[dirlen] == '/' || !p[dirlen]); }
static int rel(int at, const char *p) {
    char b[PATH_MAX * 2], l[64];
    if (!armed || !p) return 0;
    if (*p == '/') return under(p);
    if (at == AT_FDCWD) { if (!getcwd(b, PATH_MAX)) return 0; }
    else { snprintf(l, sizeof l, "/proc/self/fd/%d", at); ssize_t n = readlink(l, b, PATH_MAX - 1); if (n < 0) return 0; b[n] = 0; }
    return under(b);
}
static int relfd(int fd) { return armed && fd >= 0 && fd < (int)sizeof mine && mine[fd]; }

static void die(void) { kill(getpid(), SIGKILL); for (;;) pause(); }

/* returns the fault for this call: mode (NONE if none), *arg */
static int step(const char *name, long len, long *arg) {
    int me = ++counter, mode = NONE;
    for (int i = 0; i < nplan; i++) {
        if (plan[i].at == me) { mode = plan[i].mode; *arg = plan[i].arg; if (mode == FAIL_ON) plan[i].on = 1; }
        else if (plan[i].mode == FAIL_ON && plan[i].on && !strcmp(name, "write")) { mode = FAIL; *arg = plan[i].arg; }
    }
    if (logfd >= 0) { char b[128]; int n = snprintf(b, sizeof b, "%d %s %ld\n", me, name, len); int a = armed; armed = 0;
        static ssize_t (*w)(int, const void *, size_t); if (!w) w = dlsym(RTLD_NEXT, "write"); if (w(logfd, b, n) < 0) {} armed = a; }
    if (mode == FAIL_ON) mode = FAIL;
    return mode;
}

#define REAL(T, N, ...) static T (*real)(__VA_ARGS__); if (!real) real = dlsym(RTLD_NEXT, N)
#define GATE(N, LEN) long arg = 0; int mode = step(N, LEN, &arg); if (mode == KILL_BEFORE || mode == TORN) die(); \
    if (mode == FAIL || mode == SHORT) { errno = arg ? arg : EIO; return -1; }
#define DONE(R) do { if (mode == KILL_AFTER) die(); return R; } while (0)

static void track(int fd) { if (fd >= 0 && fd < (int)sizeof mine) mine[fd] = 1; }

#define OPENAT(NAME) int NAME(int at, const char *p, int fl, ...) { va_list ap; va_start(ap, fl); mode_t m = va_arg(ap, mode_t); va_end(ap); \
    REAL(int, #NAME, int, const char *, int, ...); if (!rel(at, p)) return real(at, p, fl, m); \
    GATE(fl & (O_WRONLY | O_RDWR) ? "open-w" : "open-r", 0) int r = real(at, p, fl, m); track(r); DONE(r); }
#define OPEN(NAME) int NAME(const char *p, int fl, ...) { va_list ap; va_start(ap, fl); mode_t m = va_arg(ap, mode_t); va_end(ap); \
    REAL(int, #NAME, const char *, int, ...); if (!rel(AT_FDCWD, p)) return real(p, fl, m); \
    GATE(fl & (O_WRONLY | O_RDWR) ? "open-w" : "open-r", 0) int r = real(p, fl, m); track(r); DONE(r); }
OPEN(open) OPEN(open64) OPENAT(openat) OPENAT(openat64)

ssize_t write(int fd, const void *b, size_t n) {
    REAL(ssize_t, "write", int, const void *, size_t);
    if (!relfd(fd)) return real(fd, b, n);
    long arg = 0; int mode = step("write", n, &arg);
    if (mode == KILL_BEFORE) die();
    if (mode == FAIL) { errno = arg; return -1; }
    if (mode == TORN) { size_t k = (size_t)arg < n ? (size_t)arg : n; if (k && real(fd, b, k) < 0) {} die(); }
    if (mode == SHORT) { size_t k = (size_t)arg < n ? (size_t)arg : n; return real(fd, b, k ? k : 1); }
    ssize_t r = real(fd, b, n);
    DONE(r);
}
#define FD1(NAME, RET, PARAMS, ARGS, TYPES, LEN) RET NAME PARAMS { REAL(RET, #NAME, TYPES); if (!relfd(fd)) return real ARGS; GATE(#NAME, LEN) RET r = real ARGS; DONE(r); }
#define C ,
FD1(pwrite, ssize_t, (int fd, const void *b, size_t n, off_t o), (fd, b, n, o), int C const void * C size_t C off_t, n)
FD1(pwrite64, ssize_t, (int fd, const void *b, size_t n, off64_t o), (fd, b, n, o), int C const void * C size_t C off64_t, n)
FD1(writev, ssize_t, (int fd, const struct iovec *v, int n), (fd, v, n), int C const struct iovec * C int, n)
FD1(ftruncate, int, (int fd, off_t o), (fd, o), int C off_t, 0)
FD1(ftruncate64, int, (int fd, off64_t o), (fd, o), int C off64_t, 0)
FD1(fsync, int, (int fd), (fd), int, 0)
FD1(fdatasync, int, (int fd), (fd), int, 0)
FD1(fchmod, int, (int fd, mode_t m), (fd, m), int C mode_t, 0)
#define FDW(NAME, PARAMS, ARGS, TYPES) ssize_t NAME PARAMS { REAL(ssize_t, #NAME, TYPES); if (!relfd(fd)) return real ARGS; \
    long arg = 0; int mode = step(#NAME, n, &arg); if (mode == KILL_BEFORE) die(); if (mode == FAIL) { errno = arg; return -1; } \
    if (mode == TORN || mode == SHORT) { if ((size_t)arg < n) n = arg; if (mode == SHORT && !n) n = 1; } \
    ssize_t r = n || mode != TORN ? real ARGS : 0; if (mode == TORN) die(); DONE(r); }
FDW(sendfile, (int fd, int in, off_t *o, size_t n), (fd, in, o, n), int C int C off_t * C size_t)
FDW(sendfile64, (int fd, int in, off64_t *o, size_t n), (fd, in, o, n), int C int C off64_t * C size_t)
FDW(copy_file_range, (int in, off64_t *a, int fd, off64_t *b, size_t n, unsigned f), (in, a, fd, b, n, f), int C off64_t * C int C off64_t * C size_t C unsigned)
FD1(fstat, int, (int fd, struct stat *s), (fd, s), int C struct stat *, 0)
FD1(fstat64, int, (int fd, struct stat64 *s), (fd, s), int C struct stat64 *, 0)
int close(int fd) { REAL(int, "close", int); if (!relfd(fd)) return real(fd);
    long arg = 0; int mode = step("close", 0, &arg); if (mode == KILL_BEFORE || mode == TORN) die();
    mine[fd] = 0; int r = real(fd); if (mode == FAIL || mode == SHORT) { errno = arg; return -1; } DONE(r); }

#define P1(NAME, PARAMS, ARGS, TYPES) int NAME PARAMS { REAL(int, #NAME, TYPES); if (!rel(AT_FDCWD, p)) return real ARGS; GATE(#NAME, 0) int r = real ARGS; DONE(r); }
#define PA(NAME, PARAMS, ARGS, TYPES) int NAME PARAMS { REAL(int, #NAME, TYPES); if (!rel(at, p)) return real ARGS; GATE(#NAME, 0) int r = real ARGS; DONE(r); }
P1(unlink, (const char *p), (p), const char *)
PA(unlinkat, (int at, const char *p, int f), (at, p, f), int C const char * C int)
P1(rmdir, (const char *p), (p), const char *)
P1(mkdir, (const char *p, mode_t m), (p, m), const char * C mode_t)
P1(truncate, (const char *p, off_t o), (p, o), const char * C off_t)
P1(truncate64, (const char *p, off64_t o), (p, o), const char * C off64_t)
P1(chmod, (const char *p, mode_t m), (p, m), const char * C mode_t)
PA(fchmodat, (int at, const char *p, mode_t m, int f), (at, p, m, f), int C const char * C mode_t C int)
PA(utimensat, (int at, const char *p, const struct timespec *t, int f), (at, p, t, f), int C const char * C const struct timespec * C int)
P1(stat, (const char *p, struct stat *s), (p, s), const char * C struct stat *)
P1(stat64, (const char *p, struct stat64 *s), (p, s), const char * C struct stat64 *)
P1(lstat, (const char *p, struct stat *s), (p, s), const char * C struct stat *)
P1(lstat64, (const char *p, struct stat64 *s), (p, s), const char * C struct stat64 *)
PA(fstatat, (int at, const char *p, struct stat *s, int f), (at, p, s, f), int C const char * C struct stat * C int)
PA(fstatat64, (int at, const char *p, struct stat64 *s, int f), (at, p, s, f), int C const char * C struct stat64 * C int)

#define P2(NAME) int NAME(const char *a, const char *p) { REAL(int, #NAME, const char *, const char *); \
    if (!rel(AT_FDCWD, p) && !rel(AT_FDCWD, a)) return real(a, p); GATE(#NAME, 0) int r = real(a, p); DONE(r); }
P2(rename) P2(link)
int symlink(const char *a, const char *p) { REAL(int, "symlink", const char *, const char *); if (!rel(AT_FDCWD, p)) return real(a, p); GATE("symlink", 0) int r = real(a, p); DONE(r); }
int renameat(int d1, const char *a, int d2, const char *p) { REAL(int, "renameat", int, const char *, int, const char *);
    if (!rel(d1, a) && !rel(d2, p)) return real(d1, a, d2, p); GATE("rename", 0) int r = real(d1, a, d2, p); DONE(r); }
int renameat2(int d1, const char *a, int d2, const char *p, unsigned f) { REAL(int, "renameat2", int, const char *, int, const char *, unsigned);
    if (!rel(d1, a) && !rel(d2, p)) return real(d1, a, d2, p, f); GATE("rename", 0) int r = real(d1, a, d2, p, f); DONE(r); }
int linkat(int d1, const char *a, int d2, const char *p, int f) { REAL(int, "linkat", int, const char *, int, const char *, int);
    if (!rel(d2, p)) return real(d1, a, d2, p, f); GATE("link", 0) int r = real(d1, a, d2, p, f); DONE(r); }
