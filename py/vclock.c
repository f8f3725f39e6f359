/* CLOCK_MONOTONIC under the explorer's control, for Python and the engine alike */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <stddef.h>
#include <time.h>
static long long now_ns;
static int on;
void vclock_set(long long ns) { now_ns = ns; on = 1; }
int clock_gettime(clockid_t c, struct timespec *t) {
    static int (*real)(clockid_t, struct timespec *);
    if (on && (c == CLOCK_MONOTONIC || c == CLOCK_BOOTTIME)) {
        t->tv_sec = now_ns / 1000000000;
        t->tv_nsec = now_ns % 1000000000;
        return 0;
    }
    if (!real) real = (int (*)(clockid_t, struct timespec *))dlsym(RTLD_NEXT, "clock_gettime");
    return real(c, t);
}
