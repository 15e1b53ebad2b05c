/* LD_PRELOAD shim: shifts the wall clock of a process by CLOCK_SHIFT seconds. */
#define _GNU_SOURCE
#include <stdlib.h>
#include <string.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

extern char **environ;

static long shift(void) {
    for (char **e = environ; e && *e; e++)
        if (!strncmp(*e, "CLOCK_SHIFT=", 12)) return strtol(*e + 12, NULL, 10);
    return 0;
}

int clock_gettime(clockid_t id, struct timespec *t) {
    int r = (int)syscall(SYS_clock_gettime, id, t);
    if (r == 0 && (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE)) t->tv_sec += shift();
    return r;
}

int gettimeofday(struct timeval *t, void *zone) {
    struct timespec now;
    (void)zone;
    clock_gettime(CLOCK_REALTIME, &now);
    t->tv_sec = now.tv_sec;
    t->tv_usec = now.tv_nsec / 1000;
    return 0;
}

time_t time(time_t *out) {
    struct timespec now;
    clock_gettime(CLOCK_REALTIME, &now);
    if (out) *out = now.tv_sec;
    return now.tv_sec;
}
