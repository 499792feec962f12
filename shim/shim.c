/* Preloaded into the broker: disturbs timing only. Threads nap around memory management and socket calls, accepted sockets
 * may get a small send buffer (a receive buffer made smaller than what was offered makes the kernel drop acknowledgements).
 * Nothing a call returns is changed.
 * VSHIM_COUNT=<file>: bytes and blocks allocated and not freed, as two 64-bit numbers at its beginning.
 * VSHIM=<seed>,<naps per million allocations>,<naps per thousand socket calls>,<longest nap us>,<sndbuf>,<budget ms> */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <malloc.h>
#include <sched.h>
#include <stdatomic.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <sys/epoll.h>
#include <sys/mman.h>
#include <sys/socket.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

extern void *__libc_malloc(size_t);
extern void *__libc_calloc(size_t, size_t);
extern void *__libc_realloc(void *, size_t);
extern void *__libc_memalign(size_t, size_t);
extern void __libc_free(void *);

/* counted from the start, before anybody asks, so that the numbers are complete */
static _Atomic int64_t early[2];
static _Atomic int64_t *count = early;
static inline void *plus(void *p) {
    if (p) {
        atomic_fetch_add_explicit(&count[0], malloc_usable_size(p), memory_order_relaxed);
        atomic_fetch_add_explicit(&count[1], 1, memory_order_relaxed);
    }
    return p;
}
static inline void minus(void *p) {
    if (p) {
        atomic_fetch_sub_explicit(&count[0], malloc_usable_size(p), memory_order_relaxed);
        atomic_fetch_sub_explicit(&count[1], 1, memory_order_relaxed);
    }
}

static uint64_t seed;
static uint32_t per_million, per_thousand, longest = 1, on;
static int sndbuf;
static _Atomic int64_t budget; /* us of napping left */
static _Atomic uint32_t threads;
static __thread uint64_t rng;
static __thread int busy;

static uint32_t next(void) {
    if (!rng) {
        uint64_t z = seed + 0x9E3779B97F4A7C15ull * (1 + atomic_fetch_add(&threads, 1));
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        rng = z ^ (z >> 31) ^ 1;
        if (!rng) rng = 1;
    }
    rng ^= rng << 13;
    rng ^= rng >> 7;
    rng ^= rng << 17;
    return (uint32_t)(rng >> 20);
}
static void nap(void) {
    int e = errno;
    uint32_t us = next() % longest;
    if (us < 8) {
        sched_yield();
    } else if (atomic_fetch_sub(&budget, (int64_t)us + 60) > 0) {
        struct timespec t = {0, (long)us * 1000};
        nanosleep(&t, 0);
    }
    errno = e;
}
static inline void mem(void) {
    if (on && per_million && !busy) {
        busy = 1;
        if (next() % 1000000 < per_million) nap();
        busy = 0;
    }
}
static inline void io(void) {
    if (on && per_thousand && !busy) {
        busy = 1;
        if (next() % 1000 < per_thousand) nap();
        busy = 0;
    }
}

__attribute__((constructor)) static void start(void) {
    const char *f = getenv("VSHIM_COUNT");
    if (f) {
        int fd = open(f, O_RDWR | O_CREAT | O_CLOEXEC, 0600);
        if (fd >= 0 && ftruncate(fd, 4096) == 0) {
            void *m = mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
            if (m != MAP_FAILED) {
                _Atomic int64_t *c = m;
                c[0] = early[0];
                c[1] = early[1];
                count = c;
            }
        }
        if (fd >= 0) close(fd);
    }
    const char *s = getenv("VSHIM");
    if (!s) return;
    char *e;
    seed = strtoull(s, &e, 10);
    if (*e) per_million = strtoul(e + 1, &e, 10);
    if (*e) per_thousand = strtoul(e + 1, &e, 10);
    if (*e) longest = strtoul(e + 1, &e, 10);
    if (*e) sndbuf = strtoul(e + 1, &e, 10);
    if (*e) budget = 1000 * (int64_t)strtoul(e + 1, &e, 10);
    if (!longest) longest = 1;
    on = 1;
}

void *malloc(size_t n) {
    mem();
    return plus(__libc_malloc(n));
}
void *calloc(size_t a, size_t b) {
    return plus(__libc_calloc(a, b));
}
void *realloc(void *p, size_t n) {
    mem();
    size_t old = p ? malloc_usable_size(p) : 0;
    void *q = __libc_realloc(p, n);
    if (q || (p && !n)) {
        if (p) {
            atomic_fetch_sub_explicit(&count[0], old, memory_order_relaxed);
            atomic_fetch_sub_explicit(&count[1], 1, memory_order_relaxed);
        }
        plus(q);
    }
    return q;
}
void *memalign(size_t a, size_t n) {
    return plus(__libc_memalign(a, n));
}
void *aligned_alloc(size_t a, size_t n) {
    return plus(__libc_memalign(a, n));
}
int posix_memalign(void **p, size_t a, size_t n) {
    if (a % sizeof(void *) || (a & (a - 1)) || !a) return EINVAL;
    int e = errno;
    void *q = __libc_memalign(a, n);
    errno = e;
    if (!q) return ENOMEM;
    *p = plus(q);
    return 0;
}
void free(void *p) {
    mem();
    minus(p);
    __libc_free(p);
    mem();
}

#define REAL(ret, name, args)                                      \
    static ret(*_Atomic f) args;                                   \
    ret(*g) args = f;                                              \
    if (!g) f = g = (ret(*) args)dlsym(RTLD_NEXT, #name)

ssize_t recv(int fd, void *b, size_t n, int fl) {
    REAL(ssize_t, recv, (int, void *, size_t, int));
    io();
    ssize_t r = g(fd, b, n, fl);
    io();
    return r;
}
ssize_t send(int fd, const void *b, size_t n, int fl) {
    REAL(ssize_t, send, (int, const void *, size_t, int));
    io();
    ssize_t r = g(fd, b, n, fl);
    io();
    return r;
}
ssize_t writev(int fd, const struct iovec *v, int n) {
    REAL(ssize_t, writev, (int, const struct iovec *, int));
    io();
    ssize_t r = g(fd, v, n);
    io();
    return r;
}
int epoll_wait(int fd, struct epoll_event *v, int n, int t) {
    REAL(int, epoll_wait, (int, struct epoll_event *, int, int));
    int r = g(fd, v, n, t);
    io();
    return r;
}
int shutdown(int fd, int how) {
    REAL(int, shutdown, (int, int));
    io();
    return g(fd, how);
}
int close(int fd) {
    REAL(int, close, (int));
    io();
    int r = g(fd);
    io();
    return r;
}
int accept4(int fd, struct sockaddr *a, socklen_t *l, int fl) {
    REAL(int, accept4, (int, struct sockaddr *, socklen_t *, int));
    int r = g(fd, a, l, fl);
    if (r >= 0 && on) {
        int e = errno;
        if (sndbuf) setsockopt(r, SOL_SOCKET, SO_SNDBUF, &sndbuf, sizeof sndbuf);
        errno = e;
        io();
    }
    return r;
}
