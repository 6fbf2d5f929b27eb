/* LD_PRELOAD shim: every file-system call below a root waits for the word of a controller.
 *
 * shim_on(root, wfd, rfd) switches it on in this process (after fork). Before each call on a path below root,
 * or on a descriptor opened there, "op \x1f path \x1f path2 \x1f n \n" is written to wfd and 9 bytes are read from rfd: an action and an
 * int64. Actions: g go on; e fail with errno n (nothing is done; close does close); s let at most n bytes
 * through; x die before the call; y die behind it; p write n bytes, then die; E do it, then report errno n. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <time.h>
#include <unistd.h>

#define MAXFD 4096
static int on = 0, wfd = -1, rfd = -1;
static char root[2048];
static size_t rootlen = 0;
static char *names[MAXFD];
static __thread int busy = 0;
static __thread int twfd = -1, trfd = -1;   /* of this thread, if it has a controller of its own */

struct word { char a; int64_t n; };

void shim_on(const char *r, int w, int rd) {
    strncpy(root, r, sizeof root - 1);
    rootlen = strlen(root);
    wfd = w; rfd = rd;
    memset(names, 0, sizeof names);
    on = 1;
}
void shim_off(void) { on = 0; }
void shim_pause(int b) { busy = b; }          /* this thread only */
void shim_thread(int w, int rd) { twfd = w; trfd = rd; }

static void die(void) { syscall(SYS_exit_group, 77); }

static int below(const char *p) {
    return on && !busy && p && strncmp(p, root, rootlen) == 0 && (p[rootlen] == '/' || p[rootlen] == 0);
}
static int watched(int fd) { return on && !busy && fd >= 0 && fd < MAXFD && names[fd] != 0; }

static struct word ask(const char *op, const char *p, const char *p2, int64_t n) {
    char buf[6000];
    struct word w = {'g', 0};
    int l = snprintf(buf, sizeof buf, "%s\x1f%s\x1f%s\x1f%lld\n", op, p ? p : "", p2 ? p2 : "", (long long)n);
    unsigned char ans[9];
    int got = 0;
    int save = errno;
    if (l >= (int)sizeof buf) l = sizeof buf - 1;
    for (int o = 0; o < l;) {
        long k = syscall(SYS_write, twfd < 0 ? wfd : twfd, buf + o, l - o);
        if (k < 0 && errno == EINTR) continue;
        if (k <= 0) die();
        o += k;
    }
    while (got < 9) {
        long k = syscall(SYS_read, trfd < 0 ? rfd : trfd, ans + got, 9 - got);
        if (k < 0 && errno == EINTR) continue;
        if (k <= 0) die();
        got += k;
    }
    w.a = ans[0];
    memcpy(&w.n, ans + 1, 8);
    if (w.a == 'x') die();
    errno = save;
    return w;
}

#define REAL(ret, name, args) static ret (*r_##name) args = 0; if (!r_##name) *(void **)&r_##name = dlsym(RTLD_NEXT, #name)

/* a call on paths: fails, or is done and perhaps reported as failed, or is the last */
#define PATHCALL(cond, op, p1, p2, num_, fail, expr) do { \
    if (!(cond)) return expr; \
    struct word w_ = ask(op, p1, p2, num_); \
    if (w_.a == 'e') { errno = (int)w_.n; return fail; } \
    __typeof__(expr) v_ = expr; \
    if (w_.a == 'y') die(); \
    if (w_.a == 'E') { errno = (int)w_.n; return fail; } \
    return v_; } while (0)

static int do_open(const char *op0, int dirfd, const char *path, int flags, mode_t mode, int large) {
    int at = dirfd != AT_FDCWD && path && path[0] != '/';
    if (at || !below(path)) {
        int fd = syscall(SYS_openat, dirfd, path, flags | large, mode);
        return fd;
    }
    const char *op = (flags & O_DIRECTORY) ? "opendir" : (flags & O_CREAT) ? ((flags & O_EXCL) ? "create" : "opencreate")
        : (flags & O_ACCMODE) == O_RDONLY ? "openread" : "openwrite";
    struct word w = ask(op, path, flags & O_TRUNC ? "trunc" : flags & O_NOATIME ? "noatime" : "", flags & O_ACCMODE);
    if (w.a == 'e') { errno = (int)w.n; return -1; }
    int fd = syscall(SYS_openat, dirfd, path, flags | large, mode);
    if (w.a == 'y') die();
    if (fd >= 0 && fd < MAXFD) { free(names[fd]); names[fd] = strdup(path); }
    return fd;
}
#define MODE() mode_t mode = 0; if (flags & (O_CREAT | __O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, mode_t); va_end(ap); }
int open(const char *path, int flags, ...) { MODE(); return do_open("open", AT_FDCWD, path, flags, mode, 0); }
int open64(const char *path, int flags, ...) { MODE(); return do_open("open", AT_FDCWD, path, flags, mode, O_LARGEFILE); }
int openat(int d, const char *path, int flags, ...) { MODE(); return do_open("open", d, path, flags, mode, 0); }
int openat64(int d, const char *path, int flags, ...) { MODE(); return do_open("open", d, path, flags, mode, O_LARGEFILE); }
int creat(const char *path, mode_t mode) { return do_open("open", AT_FDCWD, path, O_CREAT | O_WRONLY | O_TRUNC, mode, 0); }

int close(int fd) {
    if (!watched(fd)) return syscall(SYS_close, fd);
    char *nm = names[fd];
    struct word w = ask("close", nm, "", fd);
    names[fd] = 0;
    free(nm);
    int v = syscall(SYS_close, fd);
    if (w.a == 'y') die();
    if (w.a == 'e' || w.a == 'E') { errno = (int)w.n; return -1; }
    return v;
}
ssize_t write(int fd, const void *b, size_t n) {
    if (!watched(fd)) return syscall(SYS_write, fd, b, n);
    struct word w = ask("write", names[fd], "", (int64_t)n);
    if (w.a == 'e') { errno = (int)w.n; return -1; }
    if (w.a == 's' || w.a == 'p') { if ((size_t)w.n < n) n = (size_t)w.n; }
    ssize_t v = n || w.a == 'g' ? syscall(SYS_write, fd, b, n) : 0;
    if (w.a == 'p' || w.a == 'y') die();
    return v;
}
ssize_t read(int fd, void *b, size_t n) {
    if (!watched(fd)) return syscall(SYS_read, fd, b, n);
    struct word w = ask("read", names[fd], "", (int64_t)n);
    if (w.a == 'e') { errno = (int)w.n; return -1; }
    if (w.a == 's' && w.n > 0 && (size_t)w.n < n) n = (size_t)w.n;
    ssize_t v = syscall(SYS_read, fd, b, n);
    if (w.a == 'y') die();
    return v;
}
int rename(const char *a, const char *b) { REAL(int, rename, (const char *, const char *)); PATHCALL(below(a) || below(b), "rename", a, b, 0, -1, r_rename(a, b)); }
int renameat(int d, const char *a, int e, const char *b) { REAL(int, renameat, (int, const char *, int, const char *)); PATHCALL(below(a) || below(b), "rename", a, b, 0, -1, r_renameat(d, a, e, b)); }
int link(const char *a, const char *b) { REAL(int, link, (const char *, const char *)); PATHCALL(below(a) || below(b), "link", a, b, 0, -1, r_link(a, b)); }
int linkat(int d, const char *a, int e, const char *b, int f) { REAL(int, linkat, (int, const char *, int, const char *, int)); PATHCALL(below(a) || below(b), "link", a, b, 0, -1, r_linkat(d, a, e, b, f)); }
int symlink(const char *a, const char *b) { REAL(int, symlink, (const char *, const char *)); PATHCALL(below(b), "symlink", b, a, 0, -1, r_symlink(a, b)); }
int unlink(const char *a) { REAL(int, unlink, (const char *)); PATHCALL(below(a), "unlink", a, "", 0, -1, r_unlink(a)); }
int unlinkat(int d, const char *a, int f) { REAL(int, unlinkat, (int, const char *, int)); PATHCALL(below(a), "unlink", a, "", 0, -1, r_unlinkat(d, a, f)); }
int remove(const char *a) { REAL(int, remove, (const char *)); PATHCALL(below(a), "unlink", a, "", 0, -1, r_remove(a)); }
int rmdir(const char *a) { REAL(int, rmdir, (const char *)); PATHCALL(below(a), "rmdir", a, "", 0, -1, r_rmdir(a)); }
int mkdir(const char *a, mode_t m) { REAL(int, mkdir, (const char *, mode_t)); PATHCALL(below(a), "mkdir", a, "", m, -1, r_mkdir(a, m)); }
int mkdirat(int d, const char *a, mode_t m) { REAL(int, mkdirat, (int, const char *, mode_t)); PATHCALL(below(a), "mkdir", a, "", m, -1, r_mkdirat(d, a, m)); }
int chmod(const char *a, mode_t m) { REAL(int, chmod, (const char *, mode_t)); PATHCALL(below(a), "chmod", a, "", m, -1, r_chmod(a, m)); }
int fchmodat(int d, const char *a, mode_t m, int f) { REAL(int, fchmodat, (int, const char *, mode_t, int)); PATHCALL(below(a), "chmod", a, "", m, -1, r_fchmodat(d, a, m, f)); }
int fchmod(int fd, mode_t m) { REAL(int, fchmod, (int, mode_t)); PATHCALL(watched(fd), "chmod", names[fd], "fd", m, -1, r_fchmod(fd, m)); }
int truncate(const char *a, off_t n) { REAL(int, truncate, (const char *, off_t)); PATHCALL(below(a), "truncate", a, "", n, -1, r_truncate(a, n)); }
int ftruncate(int fd, off_t n) { REAL(int, ftruncate, (int, off_t)); PATHCALL(watched(fd), "truncate", names[fd], "fd", n, -1, r_ftruncate(fd, n)); }
int ftruncate64(int fd, off_t n) { REAL(int, ftruncate64, (int, off_t)); PATHCALL(watched(fd), "truncate", names[fd], "fd", n, -1, r_ftruncate64(fd, n)); }
int fsync(int fd) { REAL(int, fsync, (int)); PATHCALL(watched(fd), "fsync", names[fd], "", 0, -1, r_fsync(fd)); }
int fdatasync(int fd) { REAL(int, fdatasync, (int)); PATHCALL(watched(fd), "fsync", names[fd], "", 0, -1, r_fdatasync(fd)); }
int stat(const char *a, struct stat *s) { REAL(int, stat, (const char *, struct stat *)); PATHCALL(below(a), "stat", a, "", 0, -1, r_stat(a, s)); }
int stat64(const char *a, struct stat64 *s) { REAL(int, stat64, (const char *, struct stat64 *)); PATHCALL(below(a), "stat", a, "", 0, -1, r_stat64(a, s)); }
int lstat(const char *a, struct stat *s) { REAL(int, lstat, (const char *, struct stat *)); PATHCALL(below(a), "stat", a, "", 0, -1, r_lstat(a, s)); }
int lstat64(const char *a, struct stat64 *s) { REAL(int, lstat64, (const char *, struct stat64 *)); PATHCALL(below(a), "stat", a, "", 0, -1, r_lstat64(a, s)); }
int fstatat(int d, const char *a, struct stat *s, int f) { REAL(int, fstatat, (int, const char *, struct stat *, int)); PATHCALL(below(a), "stat", a, "", 0, -1, r_fstatat(d, a, s, f)); }
int fstatat64(int d, const char *a, struct stat64 *s, int f) { REAL(int, fstatat64, (int, const char *, struct stat64 *, int)); PATHCALL(below(a), "stat", a, "", 0, -1, r_fstatat64(d, a, s, f)); }
int access(const char *a, int m) { REAL(int, access, (const char *, int)); PATHCALL(below(a), "stat", a, "", m, -1, r_access(a, m)); }
int faccessat(int d, const char *a, int m, int f) { REAL(int, faccessat, (int, const char *, int, int)); PATHCALL(below(a), "stat", a, "", m, -1, r_faccessat(d, a, m, f)); }
DIR *opendir(const char *a) { REAL(DIR *, opendir, (const char *)); PATHCALL(below(a), "opendir", a, "", 0, (DIR *)0, r_opendir(a)); }
void *mmap(void *a, size_t l, int p, int f, int fd, off_t o) {
    REAL(void *, mmap, (void *, size_t, int, int, int, off_t));
    PATHCALL(watched(fd), "mmap", names[fd], "", (int64_t)l, MAP_FAILED, r_mmap(a, l, p, f, fd, o));
}
void *mmap64(void *a, size_t l, int p, int f, int fd, off_t o) {
    REAL(void *, mmap64, (void *, size_t, int, int, int, off_t));
    PATHCALL(watched(fd), "mmap", names[fd], "", (int64_t)l, MAP_FAILED, r_mmap64(a, l, p, f, fd, o));
}
int nanosleep(const struct timespec *a, struct timespec *b) { REAL(int, nanosleep, (const struct timespec *, struct timespec *)); if (on) return 0; return r_nanosleep(a, b); }
int clock_nanosleep(clockid_t c, int f, const struct timespec *a, struct timespec *b) {
    REAL(int, clock_nanosleep, (clockid_t, int, const struct timespec *, struct timespec *));
    if (on) return 0;
    return r_clock_nanosleep(c, f, a, b);
}
