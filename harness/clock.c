/* Preloaded into history processes of C13: the calendar clock tells MON_CLOCK_AT
 * (seconds since 1970; "any" for another date at every query), the monotonic one
 * is MON_CLOCK_UP seconds ahead. */
#define _GNU_SOURCE
#include <stdlib.h>
#include <string.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

static long at, up;
static int any, on;
static unsigned long long x = 88172645463325252ull;

__attribute__((constructor)) static void start(void)
{
    const char *a = getenv("MON_CLOCK_AT"), *u = getenv("MON_CLOCK_UP");
    struct timespec t;
    if (u)
        up = atol(u);
    if (!a)
        return;
    on = 1;
    any = !strcmp(a, "any");
    syscall(SYS_clock_gettime, CLOCK_REALTIME, &t);
    at = atol(a) - t.tv_sec;
}

int clock_gettime(clockid_t id, struct timespec *t)
{
    int r = syscall(SYS_clock_gettime, id, t);
    if (r)
        return r;
    if (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE) {
        if (any) {
            unsigned long long y = __atomic_add_fetch(&x, 0x9e3779b97f4a7c15ull, __ATOMIC_RELAXED);
            y = (y ^ (y >> 30)) * 0xbf58476d1ce4e5b9ull;
            y ^= y >> 27;
            t->tv_sec = y % 7258118400ull; /* to the year 2200 */
            t->tv_nsec = (y >> 34) % 1000000000;
        } else if (on) {
            t->tv_sec += at;
        }
    } else if (id == CLOCK_MONOTONIC || id == CLOCK_BOOTTIME || id == CLOCK_MONOTONIC_COARSE || id == CLOCK_MONOTONIC_RAW) {
        t->tv_sec += up;
    }
    return 0;
}

int gettimeofday(struct timeval *restrict tv, void *restrict tz)
{
    struct timespec t;
    (void)tz;
    clock_gettime(CLOCK_REALTIME, &t);
    tv->tv_sec = t.tv_sec;
    tv->tv_usec = t.tv_nsec / 1000;
    return 0;
}

time_t time(time_t *p)
{
    struct timespec t;
    clock_gettime(CLOCK_REALTIME, &t);
    if (p)
        *p = t.tv_sec;
    return t.tv_sec;
}
