/* LD_PRELOAD shim: watches and disturbs the file operations of one process on its input and outputs.
 *
 *   SHIM_IN             the input's path, exactly as the process opens it; files opened for writing are outputs
 *   SHIM_PLAN           what to do, e.g. "w:3:28" (third write fails with errno 28),
 *                       "W:3:28" (third and all later ones), "p:3:28" (third writes half, all later fail),
 *                       "r:2:5", "R:2:5" (reads), "o:1:13" (opening the output fails), "i:1:13" (the input),
 *                       "s:SEED" (short reads and writes), "e:SEED" (interrupted writes), "E:SEED" (interrupted reads too),
 *                       "k:3" (killed before the third step that changes files), "K:3" (killed after it, or half a write)
 *   SHIM_LOG            where to write the numbers of reads, writes, output opens, input opens, injections, steps at exit
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <pthread.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

static pthread_mutex_t lock = PTHREAD_MUTEX_INITIALIZER;
static char role[4096]; /* per descriptor: 'r' input, 'w' output */
static long reads, writes, opens, inopens, injected, steps;
static char op;
static long at, err;
static unsigned long long rng;
static int ready;

static ssize_t (*real_read)(int, void *, size_t);
static ssize_t (*real_write)(int, const void *, size_t);
static int (*real_close)(int);

static void init(void) {
    if (ready) return;
    ready = 1;
    real_read = dlsym(RTLD_NEXT, "read");
    real_write = dlsym(RTLD_NEXT, "write");
    real_close = dlsym(RTLD_NEXT, "close");
    const char *p = getenv("SHIM_PLAN");
    if (p && *p) {
        op = *p;
        at = p[1] ? strtol(p + 2, NULL, 10) : 0;
        const char *c = p[1] ? strchr(p + 2, ':') : NULL;
        err = c ? strtol(c + 1, NULL, 10) : EIO;
        rng = (unsigned long long)at * 2654435761u + 12345;
    }
}

static void report(void);

static void die(void) {
    injected++;
    report();
    kill(getpid(), SIGKILL);
    for (;;) pause();
}

/* one that changes files is about to happen; whether to end right after it */
static int step(void) {
    steps++;
    if (op == 'k' && steps == at) die();
    return op == 'K' && steps == at;
}

static unsigned rnd(unsigned n) {
    rng = rng * 6364136223846793005ull + 1442695040888963407ull;
    return (unsigned)(rng >> 33) % n;
}

static int opened(const char *path, int flags) {
    const char *in = getenv("SHIM_IN");
    if (in && !strcmp(path, in) && (flags & O_ACCMODE) == O_RDONLY) return 'r';
    if ((flags & O_ACCMODE) != O_RDONLY && strncmp(path, "/dev/", 5) && strncmp(path, "/proc/", 6)) return 'w';
    return 0;
}

static int open_common(const char *sym, int dirfd, int with_dir, const char *path, int flags, mode_t mode) {
    int r;
    pthread_mutex_lock(&lock);
    init();
    int k = opened(path, flags);
    if (k == 'w') opens++;
    if (k == 'r') inopens++;
    if ((k == 'w' && op == 'o' && opens == at) || (k == 'r' && op == 'i' && inopens == at)) {
        injected++;
        pthread_mutex_unlock(&lock);
        errno = (int)err;
        return -1;
    }
    int last = k == 'w' && step();
    if (with_dir) {
        int (*f)(int, const char *, int, ...) = dlsym(RTLD_NEXT, sym);
        r = f(dirfd, path, flags, mode);
    } else {
        int (*f)(const char *, int, ...) = dlsym(RTLD_NEXT, sym);
        r = f(path, flags, mode);
    }
    if (last) die();
    if (r >= 0 && r < (int)sizeof role) role[r] = (char)k;
    pthread_mutex_unlock(&lock);
    return r;
}

#define MODE(flags) \
    mode_t mode = 0; \
    if ((flags) & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, mode_t); va_end(ap); }

int open(const char *path, int flags, ...) { MODE(flags) return open_common("open", 0, 0, path, flags, mode); }
int open64(const char *path, int flags, ...) { MODE(flags) return open_common("open64", 0, 0, path, flags, mode); }
int openat(int d, const char *path, int flags, ...) { MODE(flags) return open_common("openat", d, 1, path, flags, mode); }
int openat64(int d, const char *path, int flags, ...) { MODE(flags) return open_common("openat64", d, 1, path, flags, mode); }

int close(int fd) {
    pthread_mutex_lock(&lock);
    init();
    if (fd >= 0 && fd < (int)sizeof role && role[fd] == 'w') step();
    if (fd >= 0 && fd < (int)sizeof role) role[fd] = 0;
    pthread_mutex_unlock(&lock);
    return real_close(fd);
}

static int is(int fd, char k) { return fd >= 0 && fd < (int)sizeof role && role[fd] == k; }

/* 1: fail with errno set; 2: let *n bytes through; 0: leave alone */
static int disturb_read(size_t *n) {
    reads++;
    if ((op == 'r' && reads == at) || (op == 'R' && reads >= at)) {
        injected++;
        errno = (int)err;
        return 1;
    }
    if (op == 'E' && *n && rnd(4) == 0) {
        injected++;
        errno = EINTR;
        return 1;
    }
    if (op == 's' && *n > 1 && rnd(2)) {
        injected++;
        *n = 1 + rnd(rnd(2) ? 7 : (unsigned)*n - 1) % (*n - 1);
    }
    return 0;
}

static int disturb_write(size_t *n) {
    writes++;
    if ((op == 'w' && writes == at) || (op == 'W' && writes >= at) || (op == 'p' && (writes > at || (writes == at && *n < 2)))) {
        injected++;
        errno = (int)err;
        return 1;
    }
    if (op == 'p' && writes == at) {
        injected++;
        *n /= 2;
    }
    if ((op == 'E' || op == 'e') && *n && rnd(4) == 0) {
        injected++;
        errno = EINTR;
        return 1;
    }
    if (op == 's' && *n > 1 && rnd(2)) {
        injected++;
        *n = 1 + rnd(rnd(2) ? 7 : (unsigned)*n - 1) % (*n - 1);
    }
    return 0;
}

ssize_t read(int fd, void *buf, size_t n) {
    pthread_mutex_lock(&lock);
    init();
    int bad = is(fd, 'r') && disturb_read(&n);
    int e = errno;
    pthread_mutex_unlock(&lock);
    if (bad) { errno = e; return -1; }
    return real_read(fd, buf, n);
}

ssize_t readv(int fd, const struct iovec *v, int c) {
    if (c < 1) return 0;
    return read(fd, v[0].iov_base, v[0].iov_len);
}

ssize_t pread64(int fd, void *buf, size_t n, off64_t o) {
    static ssize_t (*f)(int, void *, size_t, off64_t);
    pthread_mutex_lock(&lock);
    init();
    if (!f) f = dlsym(RTLD_NEXT, "pread64");
    int bad = is(fd, 'r') && disturb_read(&n);
    int e = errno;
    pthread_mutex_unlock(&lock);
    if (bad) { errno = e; return -1; }
    return f(fd, buf, n, o);
}

ssize_t write(int fd, const void *buf, size_t n) {
    pthread_mutex_lock(&lock);
    init();
    int bad = is(fd, 'w') && disturb_write(&n);
    int e = errno;
    if (is(fd, 'w') && step()) {
        real_write(fd, buf, n - n / 2);
        die();
    }
    pthread_mutex_unlock(&lock);
    if (bad) { errno = e; return -1; }
    return real_write(fd, buf, n);
}

ssize_t writev(int fd, const struct iovec *v, int c) {
    static ssize_t (*f)(int, const struct iovec *, int);
    pthread_mutex_lock(&lock);
    init();
    if (!f) f = dlsym(RTLD_NEXT, "writev");
    int ours = is(fd, 'w');
    pthread_mutex_unlock(&lock);
    if (ours) {
        for (int i = 0; i < c; i++)
            if (v[i].iov_len) return write(fd, v[i].iov_base, v[i].iov_len);
        return 0;
    }
    return f(fd, v, c);
}

ssize_t pwrite64(int fd, const void *buf, size_t n, off64_t o) {
    static ssize_t (*f)(int, const void *, size_t, off64_t);
    pthread_mutex_lock(&lock);
    init();
    if (!f) f = dlsym(RTLD_NEXT, "pwrite64");
    int bad = is(fd, 'w') && disturb_write(&n);
    int e = errno;
    if (is(fd, 'w') && step()) {
        f(fd, buf, n - n / 2, o);
        die();
    }
    pthread_mutex_unlock(&lock);
    if (bad) { errno = e; return -1; }
    return f(fd, buf, n, o);
}

/* other steps that change files */
#define STEP(name, sure, types, args) \
    int name types { \
        static int (*f) types; \
        pthread_mutex_lock(&lock); \
        init(); \
        if (!f) f = dlsym(RTLD_NEXT, #name); \
        int last = (sure) && step(); \
        pthread_mutex_unlock(&lock); \
        int r = f args; \
        if (last) die(); \
        return r; \
    }

STEP(ftruncate, is(fd, 'w'), (int fd, off_t n), (fd, n))
STEP(ftruncate64, is(fd, 'w'), (int fd, off64_t n), (fd, n))
STEP(truncate64, 1, (const char *p, off64_t n), (p, n))
STEP(fallocate64, is(fd, 'w'), (int fd, int m, off64_t o, off64_t n), (fd, m, o, n))
STEP(posix_fallocate64, is(fd, 'w'), (int fd, off64_t o, off64_t n), (fd, o, n))
STEP(rename, 1, (const char *a, const char *b), (a, b))
STEP(renameat, 1, (int d, const char *a, int e, const char *b), (d, a, e, b))
STEP(renameat2, 1, (int d, const char *a, int e, const char *b, unsigned x), (d, a, e, b, x))
STEP(link, 1, (const char *a, const char *b), (a, b))
STEP(linkat, 1, (int d, const char *a, int e, const char *b, int x), (d, a, e, b, x))
STEP(symlink, 1, (const char *a, const char *b), (a, b))
STEP(unlink, 1, (const char *a), (a))
STEP(unlinkat, 1, (int d, const char *a, int x), (d, a, x))
STEP(fsync, is(fd, 'w'), (int fd), (fd))
STEP(fdatasync, is(fd, 'w'), (int fd), (fd))
STEP(msync, 1, (void *p, size_t n, int x), (p, n, x))
STEP(munmap, 1, (void *p, size_t n), (p, n))

/* keep copies visible to read and write above */
ssize_t copy_file_range(int a, off64_t *x, int b, off64_t *y, size_t n, unsigned f) {
    (void)a, (void)x, (void)b, (void)y, (void)n, (void)f;
    errno = ENOSYS;
    return -1;
}
ssize_t sendfile64(int a, int b, off64_t *x, size_t n) {
    (void)a, (void)b, (void)x, (void)n;
    errno = ENOSYS;
    return -1;
}

__attribute__((destructor)) static void report(void) {
    const char *log = getenv("SHIM_LOG");
    if (!log) return;
    FILE *f = fopen(log, "w");
    if (!f) return;
    fprintf(f, "%ld %ld %ld %ld %ld %ld\n", reads, writes, opens, inopens, injected, steps);
    fclose(f);
}
