/* LD_PRELOAD: a simulated wall clock.  simclock(on, base_s, step_ns): while on, every reading of a real-time clock (on & 1)
   or of a monotonic one (on & 2) gives base + n * step.  Environment SIMCLOCK="on,base,step" sets it at start. */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

#define LAST 9200000000LL  /* what time.time() can return */

static volatile int on;
static volatile long long base, step, n;
long long simclock_reads;

void simclock(int o, long long b, long long s) { on = 0; base = b; step = s; n = 0; simclock_reads = 0; on = o; }

__attribute__((constructor)) static void start(void) {
    const char *e = getenv("SIMCLOCK");
    int o; long long b, s;
    if (e && sscanf(e, "%d,%lld,%lld", &o, &b, &s) == 3) simclock(o, b, s);
}

static void now(struct timespec *ts) {
    __int128 t = (__int128)base * 1000000000 + (__int128)n++ * step;
    long long s = (long long)(t / 1000000000), f = (long long)(t % 1000000000);
    if (f < 0) { f += 1000000000; s--; }
    if (s > LAST) s = LAST;
    if (s < -LAST) s = -LAST;
    simclock_reads++;
    ts->tv_sec = s;
    ts->tv_nsec = f;
}

int clock_gettime(clockid_t c, struct timespec *ts) {
    if ((on & 1) && (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE || c == CLOCK_TAI)) { now(ts); return 0; }
    if ((on & 2) && (c == CLOCK_MONOTONIC || c == CLOCK_MONOTONIC_COARSE || c == CLOCK_MONOTONIC_RAW || c == CLOCK_BOOTTIME)) {
        now(ts);
        if (ts->tv_sec < 0) ts->tv_sec = 0;
        return 0;
    }
    return (int)syscall(SYS_clock_gettime, c, ts);
}

int gettimeofday(struct timeval *tv, void *tz) {
    struct timespec ts;
    (void)tz;
    clock_gettime(CLOCK_REALTIME, &ts);
    tv->tv_sec = ts.tv_sec;
    tv->tv_usec = ts.tv_nsec / 1000;
    return 0;
}

time_t time(time_t *t) {
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    if (t) *t = ts.tv_sec;
    return ts.tv_sec;
}
