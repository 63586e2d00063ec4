#define _GNU_SOURCE
#include <stdlib.h>
#include <sys/socket.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>

static __thread long looks, quiet;

/* waiting for a connection takes no time: its two looks at the clock are when it begins and when it asks how long is left */
int connect(int fd, const struct sockaddr *a, socklen_t n) {
    quiet = 2;
    return syscall(SYS_connect, fd, a, n);
}

int clock_gettime(clockid_t c, struct timespec *t) {
    static long step = -1;
    int r = syscall(SYS_clock_gettime, c, t);
    if (step < 0) {
        const char *s = getenv("CLOCK_STEP");
        step = s ? atol(s) : 0;
    }
    if (r == 0 && c == CLOCK_MONOTONIC) {
        if (quiet > 0)
            quiet--;
        else
            looks++;
        t->tv_sec += step * looks;
    }
    return r;
}
