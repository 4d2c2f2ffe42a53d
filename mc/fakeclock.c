/* an interposed system clock: while on, every reading of the real time clock
   advances it by the next step of the schedule */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <sys/time.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>

static int on;
static long long now, steps[64];
static int nsteps, next, reads;

void fake_start(long long start, const long long *s, int n)
{
    now = start; nsteps = n; next = 0; reads = 0;
    for (int i = 0; i < n; i++) steps[i] = s[i];
    on = 1;
}
long long fake_stop(void) { on = 0; return now; }
int fake_reads(void) { return reads; }

static long long reading(void)
{
    if (reads++ && next < nsteps) now += steps[next++];
    return now;
}
int clock_gettime(clockid_t id, struct timespec *ts)
{
    if (on && (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE)) {
        long long t = reading();
        ts->tv_sec = t / 1000000000; ts->tv_nsec = t % 1000000000;
        return 0;
    }
    return syscall(SYS_clock_gettime, id, ts);
}
int gettimeofday(struct timeval *tv, void *tz)
{
    if (on) {
        long long t = reading();
        tv->tv_sec = t / 1000000000; tv->tv_usec = t % 1000000000 / 1000;
        return 0;
    }
    return syscall(SYS_gettimeofday, tv, tz);
}
time_t time(time_t *p)
{
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    if (p) *p = ts.tv_sec;
    return ts.tv_sec;
}
