// Preloaded into the compiler process: records every call that changes a file below VSCC_ROOT, delays it, or ends the
// process before or in the middle of the VSCC_KILL-th of them, or makes the VSCC_FAIL-th of them fail (with VSCC_FULL also all later
// ones that need space).
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <sys/stat.h>
#include <time.h>
#include <unistd.h>

static char root[4096];
static long kill_at = -1, fail_at = -1, full, count, part, delay;
static int logfd = -1, ready;
static uint64_t rng;

static void init(void) {
    if (ready) return;
    ready = 1;
    const char *s = getenv("VSCC_ROOT");
    if (s) strncpy(root, s, sizeof root - 1);
    if ((s = getenv("VSCC_KILL"))) kill_at = atol(s);
    if ((s = getenv("VSCC_FAIL"))) fail_at = atol(s);
    full = getenv("VSCC_FULL") != 0;
    if ((s = getenv("VSCC_PART"))) part = atol(s);
    if ((s = getenv("VSCC_DELAY"))) { delay = 1; rng = strtoull(s, 0, 10) * 2654435761u + getpid(); }
    if ((s = getenv("VSCC_LOG"))) logfd = syscall(SYS_openat, AT_FDCWD, s, O_WRONLY | O_APPEND | O_CREAT, 0644);
}
static int inside(const char *p) {
    size_t n = strlen(root);
    return n && p && strncmp(p, root, n) == 0;
}
static int fdpath(int fd, char *buf, size_t n) {
    char link[64];
    snprintf(link, sizeof link, "/proc/self/fd/%d", fd);
    ssize_t k = syscall(SYS_readlinkat, AT_FDCWD, link, buf, n - 1);
    if (k < 0) return 0;
    buf[k] = 0;
    return inside(buf);
}
static void note(const char *op, const char *path, const char *more) {
    if (logfd < 0) return;
    char line[9000];
    int n = snprintf(line, sizeof line, "%s\t%s\t%s\n", op, path, more ? more : "");
    syscall(SYS_write, logfd, line, n);
}
// 1: this call is the one the process does not survive, 2: it fails
static int event(const char *op, const char *path, const char *more) {
    note(op, path, more);
    if (delay) {
        rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17;
        struct timespec t = {0, (long)(rng % 8) * 400000};
        syscall(SYS_nanosleep, &t, 0);
    }
    ++count;
    if (count == kill_at) return 1;
    if (fail_at < 0 || count < fail_at) return 0;
    int needs_space = *op == 'w' || *op == 'c' || *op == 'm' || *op == 'l';
    if (count != fail_at && !(full && needs_space)) return 0;
    note("fail", path, 0);
    errno = full && needs_space ? ENOSPC : EIO;
    return 2;
}
static void die(void) {
    note("die", "", 0);
    syscall(SYS_exit_group, 99);
}
// what is written of n bytes by the call during which the process ends; a few bytes are written at once or not at all
static size_t share(size_t n) { return part <= 0 ? 0 : n <= 512 ? n : n * part / 4; }
// file times have the granularity of a tick: what happens one after the other must not seem to happen at the same time
static void tick(void) {
    struct timespec t = {0, 11000000};
    syscall(SYS_nanosleep, &t, 0);
}

#define CHECK(op, path, more) { int e = event(op, path, more); if (e == 1) die(); if (e == 2) return -1; }
#define PARTLY(op, path, n, some) { int e = event(op, path, 0), err = errno; \
    if (e == 1) { if (share(n)) some; die(); } \
    if (e == 2) { if (n > 512 && share(n)) some; errno = err; return -1; } }

ssize_t write(int fd, const void *b, size_t n) {
    init();
    char p[4096];
    if (!fdpath(fd, p, sizeof p)) return syscall(SYS_write, fd, b, n);
    PARTLY("write", p, n, syscall(SYS_write, fd, b, share(n)))
    return syscall(SYS_write, fd, b, n);
}
ssize_t writev(int fd, const struct iovec *v, int n) {
    init();
    char p[4096];
    if (fdpath(fd, p, sizeof p)) CHECK("write", p, 0)
    return syscall(SYS_writev, fd, v, n);
}
ssize_t pwrite64(int fd, const void *b, size_t n, off_t o) {
    init();
    char p[4096];
    if (fdpath(fd, p, sizeof p)) PARTLY("write", p, n, syscall(SYS_pwrite64, fd, b, share(n), o))
    return syscall(SYS_pwrite64, fd, b, n, o);
}
ssize_t copy_file_range(int a, off64_t *ao, int b, off64_t *bo, size_t n, unsigned f) {
    init();
    char p[4096];
    if (fdpath(b, p, sizeof p)) {
        struct stat st;
        size_t m = n;
        if (fstat(a, &st) == 0 && (size_t)st.st_size < m) m = st.st_size;
        PARTLY("write", p, m, syscall(SYS_copy_file_range, a, ao, b, bo, share(m), f))
    }
    return syscall(SYS_copy_file_range, a, ao, b, bo, n, f);
}
ssize_t sendfile64(int b, int a, off64_t *o, size_t n) {
    init();
    char p[4096];
    if (fdpath(b, p, sizeof p)) {
        struct stat st;
        size_t m = n;
        if (fstat(a, &st) == 0 && (size_t)st.st_size < m) m = st.st_size;
        PARTLY("write", p, m, syscall(SYS_sendfile, b, a, o, share(m)))
    }
    return syscall(SYS_sendfile, b, a, o, n);
}
static int do_open(int dir, const char *path, int flags, int mode) {
    init();
    if ((flags & (O_CREAT | O_TRUNC)) && inside(path)) {
        struct stat st;
        int there = stat(path, &st) == 0;
        if (!there || (flags & O_TRUNC)) tick();
        if (!there || ((flags & O_TRUNC) && st.st_size > 0))
            CHECK(there ? "truncate" : "create", path, 0)
    }
    return syscall(SYS_openat, dir, path, flags, mode);
}
#define MODE(flags) int mode = 0; if ((flags) & (O_CREAT | O_TMPFILE)) { va_list l; va_start(l, flags); mode = va_arg(l, int); va_end(l); }
int open(const char *path, int flags, ...) { MODE(flags) return do_open(AT_FDCWD, path, flags, mode); }
int open64(const char *path, int flags, ...) { MODE(flags) return do_open(AT_FDCWD, path, flags, mode); }
int openat(int dir, const char *path, int flags, ...) { MODE(flags) return do_open(dir, path, flags, mode); }
int openat64(int dir, const char *path, int flags, ...) { MODE(flags) return do_open(dir, path, flags, mode); }
int rename(const char *a, const char *b) {
    init();
    if (inside(a)) CHECK("rename", a, b)
    return syscall(SYS_rename, a, b);
}
int unlink(const char *a) {
    init();
    if (inside(a)) CHECK("unlink", a, 0)
    return syscall(SYS_unlink, a);
}
int link(const char *a, const char *b) {
    init();
    if (inside(b)) CHECK("link", a, b)
    return syscall(SYS_link, a, b);
}
int ftruncate64(int fd, off64_t n) {
    init();
    char p[4096];
    if (fdpath(fd, p, sizeof p)) {
        tick();
        CHECK("truncate", p, 0)
    }
    return syscall(SYS_ftruncate, fd, n);
}
int ftruncate(int fd, off_t n) { return ftruncate64(fd, n); }
int mkdir(const char *a, mode_t m) {
    init();
    if (inside(a)) CHECK("mkdir", a, 0)
    return syscall(SYS_mkdir, a, m);
}
int fsync(int fd) {
    init();
    char p[4096];
    if (fdpath(fd, p, sizeof p)) CHECK("sync", p, 0)
    return syscall(SYS_fsync, fd);
}
int fdatasync(int fd) {
    init();
    char p[4096];
    if (fdpath(fd, p, sizeof p)) CHECK("sync", p, 0)
    return syscall(SYS_fdatasync, fd);
}
