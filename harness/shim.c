/* LD_PRELOAD shim: observes, fails or kills at the n-th file system mutation
 * below a directory, pauses at chosen operations (for schedule exploration),
 * and fakes the real time clock.  Does nothing until armed through ctypes. */
#define _GNU_SOURCE
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/sendfile.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

enum { M_OFF, M_COUNT, M_KILL_BEFORE, M_KILL_AFTER, M_TORN, M_ERROR, M_ERROR_FROM, M_SIGINT, M_PAUSE };
enum { K_OPEN, K_WRITE, K_RENAME, K_UNLINK, K_MKDIR, K_CHMOD, K_TRUNC, K_LINK };

static volatile int mode = M_OFF;
static char root[PATH_MAX];
static size_t root_len;
static long target, counter;
static int err_no, err_kinds = -1;
static int pause_out = -1, pause_in = -1;
static int locked = 0, deep = 0;
static char oplog[1 << 18];
static size_t oplog_len;
static int busy = 0;

#define REAL(ret, name, args) static ret (*real_##name) args; \
    if (!real_##name) real_##name = (ret (*) args) dlsym(RTLD_NEXT, #name)

/* ---------------------------------------------------------------- control */
void bv_arm(const char *dir, long n, int m, int err, int kinds) {
    mode = M_OFF;
    snprintf(root, sizeof root, "%s", dir);
    root_len = strlen(root);
    counter = 0; target = n; err_no = err; err_kinds = kinds;
    oplog_len = 0; oplog[0] = 0;
    mode = m;
}
void bv_disarm(void) { mode = M_OFF; }
long bv_count(void) { return counter; }
const char *bv_log(void) { return oplog; }
void bv_pause_fds(int out, int in, int d) { pause_out = out; pause_in = in; deep = d; }

/* ------------------------------------------------------------------ paths */
static int full_path(int dirfd, const char *path, char *out) {
    if (!path) return 0;
    if (path[0] == '/') { snprintf(out, PATH_MAX, "%s", path); return 1; }
    char base[PATH_MAX];
    if (dirfd == AT_FDCWD) {
        if (!getcwd(base, sizeof base)) return 0;
    } else {
        char link[64];
        snprintf(link, sizeof link, "/proc/self/fd/%d", dirfd);
        ssize_t n = readlink(link, base, sizeof base - 1);
        if (n < 0) return 0;
        base[n] = 0;
    }
    snprintf(out, PATH_MAX, "%.2000s/%.2000s", base, path);
    return 1;
}
static int under(const char *p) {
    return !strncmp(p, root, root_len) && (p[root_len] == '/' || p[root_len] == 0);
}
static int fd_path(int fd, char *out) {
    char link[64];
    snprintf(link, sizeof link, "/proc/self/fd/%d", fd);
    ssize_t n = readlink(link, out, PATH_MAX - 1);
    if (n < 0) return 0;
    out[n] = 0;
    return out[0] == '/';
}
static void note(const char *op, const char *p) {
    if (oplog_len < sizeof oplog - PATH_MAX - 64)
        oplog_len += (size_t) sprintf(oplog + oplog_len, "%s %.3000s\n", op, p + (under(p) ? root_len : 0));
}
static void die_now(void) { syscall(SYS_exit_group, 137); }

/* returns: 0 go on, 1 fail with errno set, 2 go on and die afterwards, 3 torn (writes) */
static int gate(int kind, const char *op, const char *p) {
    if (mode == M_OFF || mode == M_PAUSE || busy || !under(p)) return 0;
    busy = 1;
    int e = errno, r = 0;
    counter++;
    note(op, p);
    if (mode == M_ERROR_FROM) {
        if (counter >= target && (err_kinds >> kind & 1)) { e = err_no; r = 1; }
    } else if (counter == target) {
        switch (mode) {
        case M_KILL_BEFORE: die_now(); break;
        case M_KILL_AFTER: r = 2; break;
        case M_TORN: if (kind == K_WRITE) r = 3; else die_now(); break;
        case M_ERROR: if (err_kinds >> kind & 1) { e = err_no; r = 1; } break;
        case M_SIGINT: kill(getpid(), SIGINT); break;
        }
    }
    errno = e;
    busy = 0;
    return r;
}
static void pause_at(const char *op, const char *p) {
    if (mode != M_PAUSE || busy || (locked && !deep) || !under(p)) return;
    if (!deep && (strstr(p, "-journal") || strstr(p, "-wal"))) return;
    busy = 1;
    int e = errno;
    char msg[PATH_MAX + 64];
    int n = snprintf(msg, sizeof msg, "%c%s %.3000s\n", locked ? 'L' : ' ', op, p + root_len);
    if (syscall(SYS_write, pause_out, msg, n) != n) die_now();
    char c;
    if (syscall(SYS_read, pause_in, &c, 1) != 1) die_now();
    errno = e;
    busy = 0;
}
#define GATE_PATH(kind, op, dirfd, path) \
    int g = 0; \
    if (mode != M_OFF && !busy) { char fp[PATH_MAX]; \
        if (full_path(dirfd, path, fp)) { pause_at(op, fp); g = gate(kind, op, fp); } } \
    if (g == 1) return -1
#define DONE(r) do { if (g == 2) die_now(); return r; } while (0)

/* ------------------------------------------------------------------- open */
static int open_gate(int dirfd, const char *path, int flags) {
    if (mode == M_OFF || busy) return 0;
    char fp[PATH_MAX];
    if (!full_path(dirfd, path, fp) || !under(fp)) return 0;
    if (mode == M_PAUSE) {
        if ((flags & O_DIRECTORY) || !(flags & O_ACCMODE)) {
            if (deep == 2 || strstr(fp, ".index.sqlite")) pause_at("openr", fp);
            return 0;
        }
        pause_at("openw", fp);
        return 0;
    }
    if ((flags & O_TMPFILE) == O_TMPFILE) return gate(K_OPEN, "tmpfile", fp);
    busy = 1;
    int absent = syscall(SYS_faccessat, AT_FDCWD, fp, F_OK) != 0;
    busy = 0;
    if (flags & O_TRUNC) return gate(K_OPEN, "opentrunc", fp);
    if ((flags & O_CREAT) && absent) return gate(K_OPEN, "create", fp);
    return 0;
}
/* how many archives are open for reading */
static int zip_watch = 0, zip_open = 0, zip_max = 0;
static unsigned char zip_fd[4096];
void bv_zip_watch(int on) { zip_watch = on; zip_open = zip_max = 0; memset(zip_fd, 0, sizeof zip_fd); }
int bv_zip_max(void) { return zip_max; }
static void zip_opened(int fd, const char *path, int flags) {
    if (!zip_watch || fd < 0 || fd >= 4096 || (flags & O_ACCMODE) || !path) return;
    size_t n = strlen(path);
    if (n < 4 || strcmp(path + n - 4, ".zip") || (flags & O_DIRECTORY)) return;
    if (!zip_fd[fd]) { zip_fd[fd] = 1; if (++zip_open > zip_max) zip_max = zip_open; }
}
#define OPEN_BODY(name, dirfd, call) \
    mode_t m = 0; \
    if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); m = va_arg(ap, mode_t); va_end(ap); } \
    int g = open_gate(dirfd, path, flags); \
    if (g == 1) return -1; \
    int r = call; \
    if (zip_watch) zip_opened(r, path, flags); \
    DONE(r)
int open(const char *path, int flags, ...) {
    REAL(int, open, (const char *, int, ...));
    OPEN_BODY(open, AT_FDCWD, real_open(path, flags, m));
}
int open64(const char *path, int flags, ...) {
    REAL(int, open64, (const char *, int, ...));
    OPEN_BODY(open64, AT_FDCWD, real_open64(path, flags, m));
}
int openat(int dirfd, const char *path, int flags, ...) {
    REAL(int, openat, (int, const char *, int, ...));
    OPEN_BODY(openat, dirfd, real_openat(dirfd, path, flags, m));
}
int openat64(int dirfd, const char *path, int flags, ...) {
    REAL(int, openat64, (int, const char *, int, ...));
    OPEN_BODY(openat64, dirfd, real_openat64(dirfd, path, flags, m));
}
DIR *opendir(const char *path) {
    REAL(DIR *, opendir, (const char *));
    if (mode == M_PAUSE && !busy) { char fp[PATH_MAX]; if (full_path(AT_FDCWD, path, fp)) pause_at("scan", fp); }
    return real_opendir(path);
}
#define STAT_PAUSE(dirfd, path) \
    if (mode == M_PAUSE && !busy && path && (deep == 2 || strstr(path, ".index.sqlite"))) { \
        char fp[PATH_MAX]; if (full_path(dirfd, path, fp)) pause_at("stat", fp); }
int stat(const char *path, struct stat *st) {
    REAL(int, stat, (const char *, struct stat *));
    STAT_PAUSE(AT_FDCWD, path)
    return real_stat(path, st);
}
int stat64(const char *path, struct stat64 *st) {
    REAL(int, stat64, (const char *, struct stat64 *));
    STAT_PAUSE(AT_FDCWD, path)
    return real_stat64(path, st);
}
int fcntl64(int fd, int cmd, ...) {
    REAL(int, fcntl64, (int, int, ...));
    va_list ap; va_start(ap, cmd); void *arg = va_arg(ap, void *); va_end(ap);
    int r = real_fcntl64(fd, cmd, arg);
    if (r == 0 && (cmd == F_SETLK || cmd == F_SETLKW)) {
        struct flock *l = arg;
        if (l->l_type == F_UNLCK) { if (l->l_len == 0) locked = 0; }
        else locked = 1;
    }
    return r;
}
int fcntl(int fd, int cmd, ...) {
    REAL(int, fcntl, (int, int, ...));
    va_list ap; va_start(ap, cmd); void *arg = va_arg(ap, void *); va_end(ap);
    int r = real_fcntl(fd, cmd, arg);
    if (r == 0 && (cmd == F_SETLK || cmd == F_SETLKW)) {
        struct flock *l = arg;
        if (l->l_type == F_UNLCK) { if (l->l_len == 0) locked = 0; }
        else locked = 1;
    }
    return r;
}
int close(int fd) {
    REAL(int, close, (int));
    if (mode == M_PAUSE && !busy && (!locked || deep)) {
        char fp[PATH_MAX];
        int fl = (int) syscall(SYS_fcntl, fd, F_GETFL);
        if (fl >= 0 && (fl & O_ACCMODE) && fd_path(fd, fp) && under(fp) && strstr(fp, ".zip")) pause_at("close", fp);
    }
    if (zip_watch && fd >= 0 && fd < 4096 && zip_fd[fd]) { zip_fd[fd] = 0; zip_open--; }
    return real_close(fd);
}

/* ------------------------------------------------------------------- read */
ssize_t read(int fd, void *buf, size_t n) {
    REAL(ssize_t, read, (int, void *, size_t));
    if (mode == M_PAUSE && deep == 2 && !busy) { char fp[PATH_MAX]; if (fd_path(fd, fp)) pause_at("read", fp); }
    return real_read(fd, buf, n);
}

/* ------------------------------------------------------------------ write */
#define GATE_FD(kind, op, fd) \
    int g = 0; \
    if (mode != M_OFF && !busy) { char fp[PATH_MAX]; if (fd_path(fd, fp)) { \
        if (mode == M_PAUSE) { if (deep || strstr(fp, ".zip")) pause_at(op, fp); } \
        else g = gate(kind, op, fp); } } \
    if (g == 1) return -1
ssize_t write(int fd, const void *buf, size_t n) {
    REAL(ssize_t, write, (int, const void *, size_t));
    GATE_FD(K_WRITE, "write", fd);
    if (g == 3) { if (n > 1) real_write(fd, buf, n / 2); die_now(); }
    ssize_t r = real_write(fd, buf, n);
    DONE(r);
}
ssize_t pwrite(int fd, const void *buf, size_t n, off_t o) {
    REAL(ssize_t, pwrite, (int, const void *, size_t, off_t));
    GATE_FD(K_WRITE, "pwrite", fd);
    if (g == 3) { if (n > 1) real_pwrite(fd, buf, n / 2, o); die_now(); }
    ssize_t r = real_pwrite(fd, buf, n, o);
    DONE(r);
}
ssize_t pwrite64(int fd, const void *buf, size_t n, off64_t o) {
    REAL(ssize_t, pwrite64, (int, const void *, size_t, off64_t));
    GATE_FD(K_WRITE, "pwrite", fd);
    if (g == 3) { if (n > 1) real_pwrite64(fd, buf, n / 2, o); die_now(); }
    ssize_t r = real_pwrite64(fd, buf, n, o);
    DONE(r);
}
ssize_t writev(int fd, const struct iovec *v, int c) {
    REAL(ssize_t, writev, (int, const struct iovec *, int));
    GATE_FD(K_WRITE, "writev", fd);
    if (g == 3) die_now();
    ssize_t r = real_writev(fd, v, c);
    DONE(r);
}
ssize_t sendfile(int o, int i, off_t *off, size_t n) {
    REAL(ssize_t, sendfile, (int, int, off_t *, size_t));
    GATE_FD(K_WRITE, "sendfile", o);
    if (g == 3) die_now();
    ssize_t r = real_sendfile(o, i, off, n);
    DONE(r);
}
ssize_t sendfile64(int o, int i, off64_t *off, size_t n) {
    REAL(ssize_t, sendfile64, (int, int, off64_t *, size_t));
    GATE_FD(K_WRITE, "sendfile", o);
    if (g == 3) die_now();
    ssize_t r = real_sendfile64(o, i, off, n);
    DONE(r);
}
ssize_t copy_file_range(int i, off64_t *oi, int o, off64_t *oo, size_t n, unsigned f) {
    REAL(ssize_t, copy_file_range, (int, off64_t *, int, off64_t *, size_t, unsigned));
    GATE_FD(K_WRITE, "copy_file_range", o);
    if (g == 3) die_now();
    ssize_t r = real_copy_file_range(i, oi, o, oo, n, f);
    DONE(r);
}
int ftruncate(int fd, off_t n) {
    REAL(int, ftruncate, (int, off_t));
    GATE_FD(K_TRUNC, "ftruncate", fd);
    int r = real_ftruncate(fd, n);
    DONE(r);
}
int ftruncate64(int fd, off64_t n) {
    REAL(int, ftruncate64, (int, off64_t));
    GATE_FD(K_TRUNC, "ftruncate", fd);
    int r = real_ftruncate64(fd, n);
    DONE(r);
}
int fchmod(int fd, mode_t m) {
    REAL(int, fchmod, (int, mode_t));
    GATE_FD(K_CHMOD, "fchmod", fd);
    int r = real_fchmod(fd, m);
    DONE(r);
}

/* -------------------------------------------------------- directory entries */
int rename(const char *a, const char *b) {
    REAL(int, rename, (const char *, const char *));
    GATE_PATH(K_RENAME, "rename", AT_FDCWD, b);
    int r = real_rename(a, b);
    DONE(r);
}
int renameat(int da, const char *a, int db, const char *b) {
    REAL(int, renameat, (int, const char *, int, const char *));
    GATE_PATH(K_RENAME, "rename", db, b);
    int r = real_renameat(da, a, db, b);
    DONE(r);
}
int renameat2(int da, const char *a, int db, const char *b, unsigned f) {
    REAL(int, renameat2, (int, const char *, int, const char *, unsigned));
    GATE_PATH(K_RENAME, "rename", db, b);
    int r = real_renameat2(da, a, db, b, f);
    DONE(r);
}
int unlink(const char *p) {
    REAL(int, unlink, (const char *));
    GATE_PATH(K_UNLINK, "unlink", AT_FDCWD, p);
    int r = real_unlink(p);
    DONE(r);
}
int unlinkat(int d, const char *p, int f) {
    REAL(int, unlinkat, (int, const char *, int));
    GATE_PATH(K_UNLINK, "unlink", d, p);
    int r = real_unlinkat(d, p, f);
    DONE(r);
}
int remove(const char *p) {
    REAL(int, remove, (const char *));
    GATE_PATH(K_UNLINK, "unlink", AT_FDCWD, p);
    int r = real_remove(p);
    DONE(r);
}
int rmdir(const char *p) {
    REAL(int, rmdir, (const char *));
    GATE_PATH(K_UNLINK, "rmdir", AT_FDCWD, p);
    int r = real_rmdir(p);
    DONE(r);
}
int mkdir(const char *p, mode_t m) {
    REAL(int, mkdir, (const char *, mode_t));
    GATE_PATH(K_MKDIR, "mkdir", AT_FDCWD, p);
    int r = real_mkdir(p, m);
    DONE(r);
}
int mkdirat(int d, const char *p, mode_t m) {
    REAL(int, mkdirat, (int, const char *, mode_t));
    GATE_PATH(K_MKDIR, "mkdir", d, p);
    int r = real_mkdirat(d, p, m);
    DONE(r);
}
int chmod(const char *p, mode_t m) {
    REAL(int, chmod, (const char *, mode_t));
    GATE_PATH(K_CHMOD, "chmod", AT_FDCWD, p);
    int r = real_chmod(p, m);
    DONE(r);
}
int fchmodat(int d, const char *p, mode_t m, int f) {
    REAL(int, fchmodat, (int, const char *, mode_t, int));
    GATE_PATH(K_CHMOD, "chmod", d, p);
    int r = real_fchmodat(d, p, m, f);
    DONE(r);
}
int link(const char *a, const char *b) {
    REAL(int, link, (const char *, const char *));
    GATE_PATH(K_LINK, "link", AT_FDCWD, b);
    int r = real_link(a, b);
    DONE(r);
}
int linkat(int da, const char *a, int db, const char *b, int f) {
    REAL(int, linkat, (int, const char *, int, const char *, int));
    GATE_PATH(K_LINK, "link", db, b);
    int r = real_linkat(da, a, db, b, f);
    DONE(r);
}
int symlink(const char *a, const char *b) {
    REAL(int, symlink, (const char *, const char *));
    GATE_PATH(K_LINK, "symlink", AT_FDCWD, b);
    int r = real_symlink(a, b);
    DONE(r);
}

/* waiting for others: up to the scheduler */
static int nap(void) {
    if (mode != M_PAUSE || busy || pause_out < 0) return 0;
    int was = deep; deep = 1;
    pause_at("sleep", root);
    deep = was;
    return 1;
}
int usleep(useconds_t n) {
    REAL(int, usleep, (useconds_t));
    return nap() ? 0 : real_usleep(n);
}
int nanosleep(const struct timespec *a, struct timespec *b) {
    REAL(int, nanosleep, (const struct timespec *, struct timespec *));
    return nap() ? 0 : real_nanosleep(a, b);
}
int clock_nanosleep(clockid_t c, int f, const struct timespec *a, struct timespec *b) {
    REAL(int, clock_nanosleep, (clockid_t, int, const struct timespec *, struct timespec *));
    return nap() ? 0 : real_clock_nanosleep(c, f, a, b);
}

/* ------------------------------------------------------------------ clock */
static long long fake_ns = -1, fake_step;
void bv_set_time(long long ns, long long step) { fake_ns = ns; fake_step = step; }
long long bv_get_time(void) { return fake_ns; }
int clock_gettime(clockid_t id, struct timespec *ts) {
    REAL(int, clock_gettime, (clockid_t, struct timespec *));
    if (fake_ns >= 0 && (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE)) {
        ts->tv_sec = fake_ns / 1000000000LL; ts->tv_nsec = fake_ns % 1000000000LL;
        fake_ns += fake_step;
        return 0;
    }
    return real_clock_gettime(id, ts);
}
int gettimeofday(struct timeval *tv, void *tz) {
    REAL(int, gettimeofday, (struct timeval *, void *));
    if (fake_ns >= 0) {
        tv->tv_sec = fake_ns / 1000000000LL; tv->tv_usec = fake_ns % 1000000000LL / 1000;
        fake_ns += fake_step;
        return 0;
    }
    return real_gettimeofday(tv, tz);
}
time_t time(time_t *t) {
    REAL(time_t, time, (time_t *));
    if (fake_ns >= 0) {
        time_t r = fake_ns / 1000000000LL;
        if (t) *t = r;
        return r;
    }
    return real_time(t);
}
