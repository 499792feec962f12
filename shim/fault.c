/* Preloaded into ratelmq-passwd: makes one call on the files of one folder go wrong.
 * VFAULT=<folder>|<n>|<kind>: at the n-th call (from 0) that names a path in the folder or uses a descriptor opened by such a
 * call: 'k' the process is killed before it, 'a' after it, 'h' half-way (a write or read of half the size, then killed),
 * 'e' it fails (no space for what writes, an I/O error for the rest), 'i' it is interrupted once (EINTR; reads, writes and
 * opens), 's' a read or write moves only a part. <folder>.fired is created when that happens. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

static char dir[4096], mark[4200];
static size_t dirlen;
static long at = -1;
static char kind;
static _Atomic long calls;
static unsigned char ours[1024];

__attribute__((constructor)) static void start(void) {
    const char *s = getenv("VFAULT");
    if (!s) return;
    const char *b = strchr(s, '|');
    if (!b || (size_t)(b - s) >= sizeof dir) return;
    memcpy(dir, s, b - s);
    dirlen = b - s;
    snprintf(mark, sizeof mark, "%s.fired", dir);
    char *e;
    at = strtol(b + 1, &e, 10);
    if (*e == '|') kind = e[1];
}
static int in_dir(const char *p) {
    return dirlen && p && !strncmp(p, dir, dirlen) && p[dirlen] == '/';
}
static int is_ours(int fd) {
    return dirlen && fd >= 0 && fd < 1024 && ours[fd];
}
static void own(int fd, int yes) {
    if (fd >= 0 && fd < 1024) ours[fd] = yes;
}
static void fired(void) {
    int e = errno;
    int fd = syscall(SYS_openat, AT_FDCWD, mark, O_WRONLY | O_CREAT, 0600);
    if (fd >= 0) syscall(SYS_close, fd);
    errno = e;
}
static void die(void) {
    fired();
    syscall(SYS_kill, syscall(SYS_getpid), SIGKILL);
    for (;;) pause();
}
/* 0: go on; otherwise the kind that applies to this call */
static int hit(int moves) {
    if (calls++ != at) return 0;
    if (kind == 'k') die();
    if ((kind == 's' || kind == 'h') && !moves) return 0;
    if (kind != 'a') fired();
    return kind;
}
#define REAL(ret, name, args) ret(*g) args = (ret(*) args)dlsym(RTLD_NEXT, #name)
#define DONE(h, call)                    \
    do {                                 \
        __typeof__(call) r_ = call;      \
        if ((h) == 'a') die();           \
        return r_;                       \
    } while (0)
#define FAIL(h, err)                                                  \
    if ((h) == 'e') { errno = (err); return -1; }                     \
    if ((h) == 'i') { errno = EINTR; return -1; }

static int opened(int dirfd, const char *p, int fl, mode_t m) {
    int h = 0;
    if (in_dir(p)) {
        h = hit(0);
        FAIL(h, fl & (O_WRONLY | O_RDWR) ? ENOSPC : EIO);
    }
    int fd = syscall(SYS_openat, dirfd, p, fl, m);
    if (fd >= 0) own(fd, in_dir(p));
    if (h == 'a') die();
    return fd;
}
static mode_t mode_of(int fl, va_list l) {
    return fl & (O_CREAT | O_TMPFILE) ? va_arg(l, mode_t) : 0;
}
#define OPEN(name)                          \
    int name(const char *p, int fl, ...) {  \
        va_list l;                          \
        va_start(l, fl);                    \
        mode_t m = mode_of(fl, l);          \
        va_end(l);                          \
        return opened(AT_FDCWD, p, fl, m);  \
    }
#define OPENAT(name)                                \
    int name(int d, const char *p, int fl, ...) {   \
        va_list l;                                  \
        va_start(l, fl);                            \
        mode_t m = mode_of(fl, l);                  \
        va_end(l);                                  \
        return opened(d, p, fl, m);                 \
    }
OPEN(open)
OPEN(open64)
OPENAT(openat)
OPENAT(openat64)

static ssize_t half(size_t n) { return n > 1 ? n / 2 : n; }
ssize_t read(int fd, void *b, size_t n) {
    int h = is_ours(fd) ? hit(1) : 0;
    FAIL(h, EIO);
    ssize_t r = syscall(SYS_read, fd, b, h == 's' || h == 'h' ? half(n) : n);
    if (h == 'a' || h == 'h') die();
    return r;
}
ssize_t write(int fd, const void *b, size_t n) {
    int h = is_ours(fd) ? hit(1) : 0;
    FAIL(h, ENOSPC);
    ssize_t r = syscall(SYS_write, fd, b, h == 's' || h == 'h' ? half(n) : n);
    if (h == 'a' || h == 'h') die();
    return r;
}
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) {
    int h = is_ours(fd) ? hit(1) : 0;
    FAIL(h, ENOSPC);
    ssize_t r = syscall(SYS_pwrite64, fd, b, h == 's' || h == 'h' ? half(n) : n, o);
    if (h == 'a' || h == 'h') die();
    return r;
}
ssize_t pread64(int fd, void *b, size_t n, off64_t o) {
    int h = is_ours(fd) ? hit(1) : 0;
    FAIL(h, EIO);
    ssize_t r = syscall(SYS_pread64, fd, b, h == 's' || h == 'h' ? half(n) : n, o);
    if (h == 'a' || h == 'h') die();
    return r;
}
ssize_t writev(int fd, const struct iovec *v, int n) {
    int h = is_ours(fd) ? hit(1) : 0;
    FAIL(h, ENOSPC);
    ssize_t r = syscall(SYS_writev, fd, v, h == 's' || h == 'h' ? 1 : n);
    if (h == 'a' || h == 'h') die();
    return r;
}
int close(int fd) {
    int h = 0;
    if (is_ours(fd)) {
        h = hit(0);
        own(fd, 0);
    }
    int r = syscall(SYS_close, fd);
    if (h == 'a') die();
    FAIL(h == 'e' ? h : 0, EIO); /* what close says is closed all the same */
    return r;
}
#define ON_FD(name, params, call, err)            \
    int name params {                             \
        REAL(int, name, params);                  \
        int h = is_ours(fd) ? hit(0) : 0;         \
        FAIL(h == 'e' ? h : 0, err);              \
        DONE(h, call);                            \
    }
ON_FD(ftruncate, (int fd, off_t n), g(fd, n), ENOSPC)
ON_FD(ftruncate64, (int fd, off64_t n), g(fd, n), ENOSPC)
ON_FD(fsync, (int fd), g(fd), EIO)
ON_FD(fdatasync, (int fd), g(fd), EIO)
ON_FD(fchmod, (int fd, mode_t m), g(fd, m), EPERM)
ON_FD(fchown, (int fd, uid_t u, gid_t w), g(fd, u, w), EPERM)
#define ON_PATH(name, params, call, err)          \
    int name params {                             \
        REAL(int, name, params);                  \
        int h = in_dir(p) ? hit(0) : 0;           \
        FAIL(h == 'e' ? h : 0, err);              \
        DONE(h, call);                            \
    }
ON_PATH(rename, (const char *p, const char *q), g(p, q), ENOSPC)
ON_PATH(link, (const char *p, const char *q), g(p, q), ENOSPC)
ON_PATH(unlink, (const char *p), g(p), EIO)
ON_PATH(truncate, (const char *p, off_t n), g(p, n), ENOSPC)
ON_PATH(chmod, (const char *p, mode_t m), g(p, m), EPERM)
ON_PATH(chown, (const char *p, uid_t u, gid_t w), g(p, u, w), EPERM)
int renameat(int d, const char *p, int e, const char *q) {
    REAL(int, renameat, (int, const char *, int, const char *));
    int h = in_dir(p) ? hit(0) : 0;
    FAIL(h == 'e' ? h : 0, ENOSPC);
    DONE(h, g(d, p, e, q));
}
int unlinkat(int d, const char *p, int f) {
    REAL(int, unlinkat, (int, const char *, int));
    int h = in_dir(p) ? hit(0) : 0;
    FAIL(h == 'e' ? h : 0, EIO);
    DONE(h, g(d, p, f));
}
int linkat(int d, const char *p, int e, const char *q, int f) {
    REAL(int, linkat, (int, const char *, int, const char *, int));
    int h = in_dir(p) ? hit(0) : 0;
    FAIL(h == 'e' ? h : 0, ENOSPC);
    DONE(h, g(d, p, e, q, f));
}
ssize_t copy_file_range(int a, off64_t *ao, int b, off64_t *bo, size_t n, unsigned f) {
    REAL(ssize_t, copy_file_range, (int, off64_t *, int, off64_t *, size_t, unsigned));
    int h = is_ours(a) || is_ours(b) ? hit(1) : 0;
    FAIL(h == 'e' ? h : 0, ENOSPC);
    ssize_t r = g(a, ao, b, bo, h == 's' || h == 'h' ? half(n) : n, f);
    if (h == 'a' || h == 'h') die();
    return r;
}
