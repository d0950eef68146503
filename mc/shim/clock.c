/* Controlled wall clock (LD_PRELOAD).  ck_set(sec, nsec) makes the real-time clock show that instant, advancing one microsecond per
 * reading, or per n readings after ck_per(n) (identifier generation needs a clock that moves); ck_off() gives the real clock back.  Monotonic clocks are untouched. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <sys/time.h>
#include <time.h>

static int on;
static long long sec, nsec;
static unsigned long reads, per = 1;

void ck_set(long long s, long long ns) { sec = s; nsec = ns; on = 1; reads = 0; }
void ck_per(unsigned long n) { per = n; }
void ck_off(void) { on = 0; }
unsigned long ck_reads(void) { return reads; }

static void now(long long *s, long long *ns) {
    if (reads % per == 0) nsec += 1000;
    if (nsec >= 1000000000) { nsec -= 1000000000; sec++; }
    reads++;
    *s = sec; *ns = nsec;
}
int clock_gettime(clockid_t c, struct timespec *t) {
    static int (*real)(clockid_t, struct timespec *);
    if (on && (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE)) {
        long long s, n; now(&s, &n); t->tv_sec = s; t->tv_nsec = n; return 0;
    }
    if (!real) real = dlsym(RTLD_NEXT, "clock_gettime");
    return real(c, t);
}
int gettimeofday(struct timeval *restrict t, void *restrict z) {
    static int (*real)(struct timeval *, void *);
    if (on) { long long s, n; now(&s, &n); t->tv_sec = s; t->tv_usec = n / 1000; return 0; }
    if (!real) real = dlsym(RTLD_NEXT, "gettimeofday");
    return real(t, z);
}
time_t time(time_t *p) {
    static time_t (*real)(time_t *);
    time_t r;
    if (on) { long long s, n; now(&s, &n); r = s; if (p) *p = r; return r; }
    if (!real) real = dlsym(RTLD_NEXT, "time");
    return real(p);
}
int timespec_get(struct timespec *t, int base) {
    static int (*real)(struct timespec *, int);
    if (on && base == TIME_UTC) { long long s, n; now(&s, &n); t->tv_sec = s; t->tv_nsec = n; return base; }
    if (!real) real = dlsym(RTLD_NEXT, "timespec_get");
    return real(t, base);
}
