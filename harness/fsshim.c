/* LD_PRELOAD shim: counts the file operations of this process on paths below a chosen directory and makes one of them
 * fail, or ends the process there.  It never touches any other path. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/sendfile.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

enum { OFF, COUNT, ERR, DIE, SHORT_ERR, SHORT_DIE, INTR, DIE_AFTER, ERR_FOREVER };
static char dir[PATH_MAX];
static size_t dirlen;
static int mode = OFF, count, target, err, hit;
static char hitname[32];
static char ops[65536];
static unsigned char mine[4096]; /* file descriptors open for writing below dir */

void fs_arm(const char *d, int m, int k, int e) {
    strncpy(dir, d, sizeof dir - 1);
    dirlen = strlen(dir);
    mode = m; target = k; err = e; count = 0; hit = 0; ops[0] = 0; hitname[0] = 0;
}
void fs_off(void) { mode = OFF; }
int fs_count(void) { return count; }
int fs_hit(void) { return hit; }
const char *fs_hitname(void) { return hitname; }
const char *fs_ops(void) { return ops; }

static int below(const char *p) {
    char buf[PATH_MAX * 2];
    if (!p || mode == OFF) return 0;
    if (p[0] != '/') {
        if (!getcwd(buf, PATH_MAX)) return 0;
        strcat(buf, "/");
        strncat(buf, p, PATH_MAX - 1);
        p = buf;
    }
    return dirlen && strncmp(p, dir, dirlen) == 0 && (p[dirlen] == '/' || p[dirlen] == 0);
}

/* What to do with this operation: 0 proceed, 1 fail, 2 die now, 3 partial then fail/die, 4 die after */
static int step(const char *name) {
    if (mode == OFF) return 0;
    if (err == ENOENT && (strcmp(name, "unlink") == 0 || strcmp(name, "rmdir") == 0)) err = EIO; /* the file is there */
    count++;
    if (strlen(ops) + strlen(name) + 2 < sizeof ops) { strcat(ops, name); strcat(ops, " "); }
    if (mode == ERR_FOREVER && count >= target) {
        if (!hit) { hit = 1; strncpy(hitname, name, sizeof hitname - 1); }
        return 1;
    }
    if (count == target + 1 && mode == SHORT_ERR && hit == 1 && strcmp(name, "write") == 0) { hit = 2; return 1; }
    if (count != target) return 0;
    hit = 1;
    strncpy(hitname, name, sizeof hitname - 1);
    switch (mode) {
    case ERR: return 1;
    case DIE: _exit(99);
    case SHORT_ERR: case SHORT_DIE: return 3;
    case INTR: raise(SIGINT); return 0;
    case DIE_AFTER: return 4;
    }
    return 0;
}
static void after(int s) { if (s == 4) _exit(99); }

#define REAL(ret, name, args) static ret (*real)args; if (!real) real = (ret (*)args)dlsym(RTLD_NEXT, #name)

#define OPEN_BODY(name)                                                                     \
    mode_t m = 0;                                                                           \
    if (flags & (O_CREAT | __O_TMPFILE)) { va_list ap; va_start(ap, flags); m = va_arg(ap, mode_t); va_end(ap); } \
    int w = below(path) && (flags & (O_WRONLY | O_RDWR | O_CREAT | O_TRUNC));               \
    int s = w ? step("open") : 0;                                                           \
    if (s == 1) { errno = err; return -1; }                                                 \
    if (s == 3) { if (mode == SHORT_DIE) _exit(99); errno = err; return -1; }

int open(const char *path, int flags, ...) {
    REAL(int, open, (const char *, int, ...));
    OPEN_BODY(open)
    int fd = real(path, flags, m);
    if (fd >= 0 && fd < 4096) mine[fd] = w != 0;
    after(s);
    return fd;
}
int open64(const char *path, int flags, ...) {
    REAL(int, open64, (const char *, int, ...));
    OPEN_BODY(open64)
    int fd = real(path, flags, m);
    if (fd >= 0 && fd < 4096) mine[fd] = w != 0;
    after(s);
    return fd;
}
int openat(int d, const char *path, int flags, ...) {
    REAL(int, openat, (int, const char *, int, ...));
    OPEN_BODY(openat)
    int fd = real(d, path, flags, m);
    if (fd >= 0 && fd < 4096) mine[fd] = w != 0;
    after(s);
    return fd;
}
int openat64(int d, const char *path, int flags, ...) {
    REAL(int, openat64, (int, const char *, int, ...));
    OPEN_BODY(openat64)
    int fd = real(d, path, flags, m);
    if (fd >= 0 && fd < 4096) mine[fd] = w != 0;
    after(s);
    return fd;
}
static int ours(int fd) { return mode != OFF && fd >= 0 && fd < 4096 && mine[fd]; }

ssize_t write(int fd, const void *buf, size_t n) {
    REAL(ssize_t, write, (int, const void *, size_t));
    int s = ours(fd) ? step("write") : 0;
    if (s == 1) { errno = err; return -1; }
    if (s == 3) {
        if (n < 2) { if (mode == SHORT_DIE) _exit(99); errno = err; return -1; }
        ssize_t r = real(fd, buf, n / 2);
        if (mode == SHORT_DIE) _exit(99);
        return r; /* the rest fails when it is retried */
    }
    ssize_t r = real(fd, buf, n);
    after(s);
    return r;
}
ssize_t pwrite(int fd, const void *buf, size_t n, off_t o) {
    REAL(ssize_t, pwrite, (int, const void *, size_t, off_t));
    int s = ours(fd) ? step("write") : 0;
    if (s == 1 || s == 3) { if (mode == SHORT_DIE) _exit(99); errno = err; return -1; }
    ssize_t r = real(fd, buf, n, o);
    after(s);
    return r;
}
ssize_t writev(int fd, const struct iovec *v, int n) {
    REAL(ssize_t, writev, (int, const struct iovec *, int));
    int s = ours(fd) ? step("write") : 0;
    if (s == 1 || s == 3) { if (mode == SHORT_DIE) _exit(99); errno = err; return -1; }
    ssize_t r = real(fd, v, n);
    after(s);
    return r;
}
ssize_t sendfile(int out, int in, off_t *o, size_t n) {
    REAL(ssize_t, sendfile, (int, int, off_t *, size_t));
    int s = ours(out) ? step("write") : 0;
    if (s == 1) { errno = err; return -1; }
    if (s == 3) { if (n > 1 && n < (1u << 30)) real(out, in, o, n / 2); if (mode == SHORT_DIE) _exit(99); errno = err; return -1; }
    ssize_t r = real(out, in, o, n);
    after(s);
    return r;
}
ssize_t sendfile64(int out, int in, off64_t *o, size_t n) { return sendfile(out, in, (off_t *)o, n); }
int close(int fd) {
    REAL(int, close, (int));
    int o = ours(fd);
    int s = o ? step("close") : 0;
    if (fd >= 0 && fd < 4096) mine[fd] = 0;
    int r = real(fd);
    if (s == 1 || s == 3) { if (mode == SHORT_DIE) _exit(99); errno = err; return -1; }
    after(s);
    return r;
}
int ftruncate(int fd, off_t n) {
    REAL(int, ftruncate, (int, off_t));
    int s = ours(fd) ? step("truncate") : 0;
    if (s == 1 || s == 3) { if (mode == SHORT_DIE) _exit(99); errno = err; return -1; }
    int r = real(fd, n);
    after(s);
    return r;
}
int ftruncate64(int fd, off64_t n) { return ftruncate(fd, n); }
int fsync(int fd) {
    REAL(int, fsync, (int));
    int s = ours(fd) ? step("fsync") : 0;
    if (s == 1 || s == 3) { if (mode == SHORT_DIE) _exit(99); errno = err; return -1; }
    int r = real(fd);
    after(s);
    return r;
}
#define TWO(name, label)                                                                    \
    int name(const char *a, const char *b) {                                                \
        REAL(int, name, (const char *, const char *));                                      \
        int s = below(a) || below(b) ? step(label) : 0;                                     \
        if (s == 1 || s == 3) { if (mode == SHORT_DIE) _exit(99); errno = err; return -1; } \
        int r = real(a, b);                                                                 \
        after(s);                                                                           \
        return r;                                                                           \
    }
TWO(rename, "rename")
TWO(link, "link")
TWO(symlink, "symlink")
int renameat(int d, const char *a, int e, const char *b) {
    REAL(int, renameat, (int, const char *, int, const char *));
    int s = below(a) || below(b) ? step("rename") : 0;
    if (s == 1 || s == 3) { if (mode == SHORT_DIE) _exit(99); errno = err; return -1; }
    int r = real(d, a, e, b);
    after(s);
    return r;
}
int renameat2(int d, const char *a, int e, const char *b, unsigned f) {
    REAL(int, renameat2, (int, const char *, int, const char *, unsigned));
    int s = below(a) || below(b) ? step("rename") : 0;
    if (s == 1 || s == 3) { if (mode == SHORT_DIE) _exit(99); errno = err; return -1; }
    int r = real(d, a, e, b, f);
    after(s);
    return r;
}
int linkat(int d, const char *a, int e, const char *b, int f) {
    REAL(int, linkat, (int, const char *, int, const char *, int));
    int s = below(a) || below(b) ? step("link") : 0;
    if (s == 1 || s == 3) { if (mode == SHORT_DIE) _exit(99); errno = err; return -1; }
    int r = real(d, a, e, b, f);
    after(s);
    return r;
}
#define ONE(name, label)                                                                    \
    int name(const char *a) {                                                               \
        REAL(int, name, (const char *));                                                    \
        int s = below(a) ? step(label) : 0;                                                 \
        if (s == 1 || s == 3) { if (mode == SHORT_DIE) _exit(99); errno = err; return -1; } \
        int r = real(a);                                                                    \
        after(s);                                                                           \
        return r;                                                                           \
    }
ONE(unlink, "unlink")
ONE(rmdir, "rmdir")
ONE(remove, "unlink")
int unlinkat(int d, const char *a, int f) {
    REAL(int, unlinkat, (int, const char *, int));
    int s = below(a) ? step("unlink") : 0;
    if (s == 1 || s == 3) { if (mode == SHORT_DIE) _exit(99); errno = err; return -1; }
    int r = real(d, a, f);
    after(s);
    return r;
}
int truncate(const char *a, off_t n) {
    REAL(int, truncate, (const char *, off_t));
    int s = below(a) ? step("truncate") : 0;
    if (s == 1 || s == 3) { if (mode == SHORT_DIE) _exit(99); errno = err; return -1; }
    int r = real(a, n);
    after(s);
    return r;
}
int mkdir(const char *a, mode_t m) {
    REAL(int, mkdir, (const char *, mode_t));
    int s = below(a) ? step("mkdir") : 0;
    if (s == 1 || s == 3) { if (mode == SHORT_DIE) _exit(99); errno = err; return -1; }
    int r = real(a, m);
    after(s);
    return r;
}
