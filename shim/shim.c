/* LD_PRELOAD environment shim for the system under test.
 *
 * Controlled through a shared mmap'd file (NEXO_SHIM_CTL).  It gives the
 * harness three environment knobs the specification talks about and the code
 * under test cannot see: virtual time, scheduling noise and process death at
 * a chosen file operation.  It never touches the code under test itself.
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/epoll.h>
#include <sys/mman.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

/* raw system calls: syscall() itself is interposed below */
static long rsys(long n, long a, long b, long c, long d, long e, long f) {
    long r; register long r10 __asm__("r10") = d; register long r8 __asm__("r8") = e; register long r9 __asm__("r9") = f;
    __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    if (r < 0 && r > -4096) { errno = -r; return -1; }
    return r;
}
#define SYS7(n, a, b, c, d, e, f, ...) rsys((long)(n), (long)(a), (long)(b), (long)(c), (long)(d), (long)(e), (long)(f))
#define sys(...) SYS7(__VA_ARGS__, 0, 0, 0, 0, 0, 0, 0)

struct ctl {
    uint64_t magic;            /* 0  */
    volatile int64_t vnow_ns;  /* 8  virtual nanoseconds since scenario start */
    int64_t mono_base_ns;      /* 16 */
    int64_t real_base_ns;      /* 24 */
    volatile uint32_t frozen;  /* 32 1 = virtual clock */
    volatile uint32_t epoll_cap_ms; /* 36 0 = no cap */
    volatile uint32_t chaos_ppm;    /* 40 probability per allocator call, parts per million */
    volatile uint32_t chaos_max_us; /* 44 */
    volatile uint32_t seed;         /* 48 */
    volatile uint32_t crash_mode;   /* 52 0 before, 1 torn write, 2 after, 3 = fail with ENOSPC */
    volatile int64_t crash_at;      /* 56 0 = never; fires when fileops reaches it */
    volatile uint64_t fileops;      /* 64 counter of file mutations */
    volatile uint64_t turns;        /* 72 returns from epoll_wait */
    volatile uint32_t crashed;      /* 80 */
    volatile uint32_t log_fileops;  /* 84 */
    volatile uint32_t hold;         /* 88 bitmask: hold file op classes while set */
    volatile uint32_t held;         /* 92 number of threads held */
    volatile uint32_t accept_fail;  /* 96 so many accepts fail with accept_errno */
    volatile uint32_t accept_errno; /* 100 */
    volatile uint32_t napping;      /* 104 threads in a noise delay: they look idle, they are not */
};

static struct ctl *C;
static uint32_t thread_counter;
static inline uint64_t rnd(void);
static __thread uint64_t rng_state;
static __thread int in_shim;

#define REAL(name) ({ static __typeof__(&name) p; if (!p) p = (__typeof__(&name))dlsym(RTLD_NEXT, #name); p; })

__attribute__((constructor)) static void init(void) {
    const char *p = getenv("NEXO_SHIM_CTL");
    if (!p) return;
    int fd = sys(SYS_openat, AT_FDCWD, p, O_RDWR | O_CLOEXEC, 0);
    if (fd < 0) return;
    void *m = mmap(NULL, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    sys(SYS_close, fd);
    if (m == MAP_FAILED) return;
    if (((struct ctl *)m)->magic != 0x4e45584f53484dULL) return;
    C = m;
}

/* ---------------------------------------------------------------- time */
int clock_gettime(clockid_t clk, struct timespec *ts) {
    if (C && C->frozen) {
        int64_t base;
        switch (clk) {
        case CLOCK_REALTIME: case CLOCK_REALTIME_COARSE: base = C->real_base_ns; break;
        case CLOCK_MONOTONIC: case CLOCK_MONOTONIC_RAW: case CLOCK_MONOTONIC_COARSE: case CLOCK_BOOTTIME:
            base = C->mono_base_ns; break;
        default: return sys(SYS_clock_gettime, clk, ts);
        }
        int64_t v = base + C->vnow_ns;
        ts->tv_sec = v / 1000000000; ts->tv_nsec = v % 1000000000;
        return 0;
    }
    return sys(SYS_clock_gettime, clk, ts);
}
int gettimeofday(struct timeval *restrict tv, void *restrict tz) {
    struct timespec ts; (void)tz;
    clock_gettime(CLOCK_REALTIME, &ts);
    tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; return 0;
}
time_t time(time_t *t) {
    struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts);
    if (t) *t = ts.tv_sec; return ts.tv_sec;
}
static int cap(int timeout) {
    if (C && C->epoll_cap_ms && (timeout < 0 || timeout > (int)C->epoll_cap_ms)) return C->epoll_cap_ms;
    return timeout;
}
int epoll_wait(int ep, struct epoll_event *ev, int n, int timeout) {
    int r = sys(SYS_epoll_pwait, ep, ev, n, cap(timeout), NULL, 8);
    if (C) __atomic_add_fetch(&C->turns, 1, __ATOMIC_RELAXED);
    return r;
}
int epoll_pwait(int ep, struct epoll_event *ev, int n, int timeout, const sigset_t *s) {
    int r = sys(SYS_epoll_pwait, ep, ev, n, cap(timeout), s, 8);
    if (C) __atomic_add_fetch(&C->turns, 1, __ATOMIC_RELAXED);
    return r;
}

/* ---------------------------------------------------------------- connections */
/* What the server writes is sent at once: "idle" then means that nothing waits in a socket
   for the delayed acknowledgement of an earlier segment. */
int accept4(int fd, struct sockaddr *a, socklen_t *l, int fl) {
    if (C && C->accept_fail) {
        __atomic_sub_fetch(&C->accept_fail, 1, __ATOMIC_RELAXED);
        errno = C->accept_errno; return -1;
    }
    int r = sys(SYS_accept4, fd, a, l, fl);
    if (r >= 0) { int one = 1; setsockopt(r, IPPROTO_TCP, TCP_NODELAY, &one, sizeof one); }
    return r;
}

/* ---------------------------------------------------------------- schedule noise */
static inline uint64_t rnd(void) {
    if (!rng_state) {
        uint32_t n = __atomic_add_fetch(&thread_counter, 1, __ATOMIC_RELAXED);
        rng_state = ((uint64_t)C->seed << 32) ^ (n * 0x9E3779B97F4A7C15ULL) ^ 0x1234567;
    }
    uint64_t x = rng_state; x ^= x << 13; x ^= x >> 7; x ^= x << 17; return rng_state = x;
}
static void noise_slow(void) {
    uint64_t r = rnd();
    if (r % 1000000 < C->chaos_ppm) {
        uint64_t us = C->chaos_max_us ? (r >> 24) % C->chaos_max_us : 0;
        struct timespec ts = { us / 1000000, (us % 1000000) * 1000 };
        int e = errno;
        __atomic_add_fetch(&C->napping, 1, __ATOMIC_SEQ_CST);
        sys(SYS_nanosleep, &ts, NULL);
        __atomic_sub_fetch(&C->napping, 1, __ATOMIC_SEQ_CST);
        errno = e;
    }
}
static inline void noise(void) { if (C && C->chaos_ppm && !in_shim) { in_shim = 1; noise_slow(); in_shim = 0; } }

extern void *__libc_malloc(size_t);
extern void *__libc_calloc(size_t, size_t);
extern void *__libc_realloc(void *, size_t);
extern void __libc_free(void *);
void *malloc(size_t n) { noise(); return __libc_malloc(n); }
void *calloc(size_t a, size_t b) { noise(); return __libc_calloc(a, b); }
void *realloc(void *p, size_t n) { noise(); return __libc_realloc(p, n); }
void free(void *p) { noise(); __libc_free(p); }

/* a thread that just released a contended lock goes through futex(FUTEX_WAKE): the widest window there is */
long syscall(long n, ...) {
    va_list ap; va_start(ap, n);
    long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
    va_end(ap);
    if (n == SYS_futex && C && C->chaos_ppm && !in_shim) {
        in_shim = 1;
        int er = errno;
        uint64_t r = rnd();
        long res = rsys(n, a, b, c, d, e, f);
        er = res < 0 ? errno : er;
        if ((b & 127) == 1 && r % 1000000 < (uint64_t)C->chaos_ppm * 10) {
            uint64_t us = C->chaos_max_us ? (r >> 24) % C->chaos_max_us : 0;
            struct timespec ts = { us / 1000000, (us % 1000000) * 1000 };
            __atomic_add_fetch(&C->napping, 1, __ATOMIC_SEQ_CST);
            rsys(SYS_nanosleep, (long)&ts, 0, 0, 0, 0, 0);
            __atomic_sub_fetch(&C->napping, 1, __ATOMIC_SEQ_CST);
        }
        errno = er; in_shim = 0;
        return res;
    }
    return rsys(n, a, b, c, d, e, f);
}

/* ---------------------------------------------------------------- file operations */
static int is_reg(int fd) {
    struct stat st;
    if (fd <= 2) return 0;
    if (sys(SYS_fstat, fd, &st)) return 0;
    return S_ISREG(st.st_mode);
}
static void die(void) {
    C->crashed = 1;
    sys(SYS_kill, sys(SYS_getpid), SIGKILL);
    for (;;) sys(SYS_pause);
}
/* returns 1 when this very operation is the chosen one */
static int fileop(const char *what, long arg, const char *path) {
    if (!C) return 0;
    uint64_t n = __atomic_add_fetch(&C->fileops, 1, __ATOMIC_SEQ_CST);
    if (C->log_fileops) {
        char b[512]; int e = errno;
        int k = snprintf(b, sizeof b, "FILEOP %llu %s %ld %s\n", (unsigned long long)n, what, arg, path ? path : "");
        sys(SYS_write, 2, b, k); errno = e;
    }
    while (C->hold) { __atomic_add_fetch(&C->held, 1, __ATOMIC_SEQ_CST);
        struct timespec ts = {0, 200000};
        while (C->hold) sys(SYS_nanosleep, &ts, NULL);
        __atomic_sub_fetch(&C->held, 1, __ATOMIC_SEQ_CST); }
    if (C->crashed) { for (;;) sys(SYS_pause); }
    if (C->crash_at && (int64_t)n == C->crash_at) return 1;
    return 0;
}
#define POINT(what, arg, path, torn, call, errval) do { \
    if (fileop(what, arg, path)) { \
        if (C->crash_mode == 0) die(); \
        if (C->crash_mode == 1) { torn; die(); } \
        if (C->crash_mode == 3) { errno = ENOSPC; return errval; } \
        { call; } die(); \
    } } while (0)

static void stamp(int fd) {      /* file times are virtual too */
    if (!C || !C->frozen || !is_reg(fd)) return;
    int e = errno; int64_t v = C->real_base_ns + C->vnow_ns;
    struct timespec t[2] = { { 0, UTIME_OMIT }, { v / 1000000000, v % 1000000000 } };
    sys(SYS_utimensat, fd, NULL, t, 0); errno = e;
}
static ssize_t wr(int fd, const void *b, size_t n) { ssize_t r = sys(SYS_write, fd, b, n); if (r > 0) stamp(fd); return r; }
ssize_t write(int fd, const void *b, size_t n) {
    if (C && is_reg(fd)) POINT("write", (long)n, NULL, if (n > 1) wr(fd, b, n / 2), wr(fd, b, n), -1);
    return wr(fd, b, n);
}
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) {
    if (C && is_reg(fd)) POINT("pwrite", (long)n, NULL, if (n > 1) sys(SYS_pwrite64, fd, b, n / 2, o), sys(SYS_pwrite64, fd, b, n, o), -1);
    return sys(SYS_pwrite64, fd, b, n, o);
}
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { return pwrite64(fd, b, n, o); }
ssize_t writev(int fd, const struct iovec *v, int c) {
    if (C && is_reg(fd)) POINT("writev", (long)c, NULL, if (c && v[0].iov_len > 1) sys(SYS_write, fd, v[0].iov_base, v[0].iov_len / 2), sys(SYS_writev, fd, v, c), -1);
    return sys(SYS_writev, fd, v, c);
}
int ftruncate64(int fd, off64_t n) {
    if (C && is_reg(fd)) POINT("ftruncate", (long)n, NULL, (void)0, sys(SYS_ftruncate, fd, n), -1);
    long r = sys(SYS_ftruncate, fd, n);
    if (!r) stamp(fd);
    return r;
}
int ftruncate(int fd, off_t n) { return ftruncate64(fd, n); }
int fsync(int fd) {
    if (C && is_reg(fd)) POINT("fsync", 0, NULL, (void)0, sys(SYS_fsync, fd), -1);
    return 0;
}
int fdatasync(int fd) {
    if (C && is_reg(fd)) POINT("fdatasync", 0, NULL, (void)0, sys(SYS_fdatasync, fd), -1);
    return 0;
}
int rename(const char *a, const char *b) {
    POINT("rename", 0, b, (void)0, sys(SYS_rename, a, b), -1);
    return sys(SYS_rename, a, b);
}
int unlink(const char *a) {
    POINT("unlink", 0, a, (void)0, sys(SYS_unlink, a), -1);
    return sys(SYS_unlink, a);
}
int unlinkat(int d, const char *a, int f) {
    POINT("unlinkat", 0, a, (void)0, sys(SYS_unlinkat, d, a, f), -1);
    return sys(SYS_unlinkat, d, a, f);
}
int mkdir(const char *a, mode_t m) {
    POINT("mkdir", 0, a, (void)0, sys(SYS_mkdir, a, m), -1);
    return sys(SYS_mkdir, a, m);
}
int rmdir(const char *a) {
    POINT("rmdir", 0, a, (void)0, sys(SYS_rmdir, a), -1);
    return sys(SYS_rmdir, a);
}
static int do_open(int d, const char *p, int fl, mode_t m) {
    if (C && (fl & (O_CREAT | O_TRUNC)) && (fl & O_ACCMODE) != O_RDONLY && (strncmp(p, "/dev/", 5) || !strncmp(p, "/dev/shm/", 9)))
    {
        POINT("creat", 0, p, (void)0, sys(SYS_openat, d, p, fl, m), -1);
        if (C->frozen && sys(SYS_faccessat, d, p, F_OK, 0)) {
            int fd = sys(SYS_openat, d, p, fl, m);
            if (fd >= 0) stamp(fd);
            return fd;
        }
    }
    return sys(SYS_openat, d, p, fl, m);
}
#define GETM mode_t m = 0; if (fl & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, fl); m = va_arg(ap, int); va_end(ap); }
int open(const char *p, int fl, ...) { GETM return do_open(AT_FDCWD, p, fl, m); }
int open64(const char *p, int fl, ...) { GETM return do_open(AT_FDCWD, p, fl | O_LARGEFILE, m); }
int openat(int d, const char *p, int fl, ...) { GETM return do_open(d, p, fl, m); }
int openat64(int d, const char *p, int fl, ...) { GETM return do_open(d, p, fl | O_LARGEFILE, m); }
