/* fsmon.c -- interposes the file-mutating libc calls of a process tree (LD_PRELOAD).
 *
 * Inactive until fsmon_arm() is called (through ctypes, in the process that then forks the workers).
 * Armed, every mutating call on a path below one of the watched roots is an event: it gets a number from a counter shared
 * by the whole process tree, may be delayed, may be logged, and at event `kill_at` the run is killed:
 *   kill_mode 0: SIGKILL to the whole process group, before the call happens
 *   kill_mode 1: as 0, but about half of the bytes of a write (whole pages) are written first
 *   kill_mode 2: only the calling process is killed (the rest is left running; the harness kills it later)
 * Nothing else about the calls is changed.
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <signal.h>
#include <stdarg.h>
#include <stdatomic.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>
#include <utime.h>

#define MAXROOTS 8
#define MAXFD 4096

struct shared { atomic_long events; atomic_long delayed; atomic_long killed; };

static struct shared *sh;
static int armed;
static int n_roots;
static char roots[MAXROOTS][PATH_MAX];
static long kill_at = -1;
static int kill_mode;
static int log_fd = -1;
static unsigned delay_us_max, delay_permille;
static uint64_t delay_seed;
static int log_all;
static unsigned char fd_watched[MAXFD];

#define REAL(ret, name, ...) static ret (*real_##name)(__VA_ARGS__); \
    if (!real_##name) real_##name = (ret (*)(__VA_ARGS__))dlsym(RTLD_NEXT, #name)

int fsmon_arm(const char *root_list, long kill_event, int mode, const char *log_path, unsigned delay_max_us, unsigned permille,
              unsigned long seed, int log_everything) {
    if (!sh) {
        sh = mmap(NULL, sizeof *sh, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        if (sh == MAP_FAILED) { sh = NULL; return -1; }
    }
    atomic_store(&sh->events, 0); atomic_store(&sh->delayed, 0); atomic_store(&sh->killed, 0);
    n_roots = 0;
    const char *p = root_list;
    while (*p && n_roots < MAXROOTS) {
        const char *e = strchr(p, '\n');
        size_t len = e ? (size_t)(e - p) : strlen(p);
        if (len && len < PATH_MAX) { memcpy(roots[n_roots], p, len); roots[n_roots][len] = 0; n_roots++; }
        p += len; if (*p) p++;
    }
    kill_at = kill_event; kill_mode = mode;
    delay_us_max = delay_max_us; delay_permille = permille; delay_seed = seed; log_all = log_everything;
    if (log_path && *log_path) {
        log_fd = syscall(SYS_openat, AT_FDCWD, log_path, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0644);
        if (log_fd < 0) return -2;
    }
    memset(fd_watched, 0, sizeof fd_watched);
    armed = 1;
    return 0;
}

long fsmon_events(void) { return sh ? atomic_load(&sh->events) : -1; }
long fsmon_delayed(void) { return sh ? atomic_load(&sh->delayed) : -1; }
void fsmon_disarm(void) { armed = 0; }

static void absolute(int dirfd, const char *path, char *out) {
    char base[PATH_MAX];
    base[0] = 0;
    if (path[0] != '/') {
        if (dirfd == AT_FDCWD) {
            if (syscall(SYS_getcwd, base, sizeof base) < 0) base[0] = 0;
        } else {
            char l[64];
            snprintf(l, sizeof l, "/proc/self/fd/%d", dirfd);
            ssize_t n = readlink(l, base, sizeof base - 1);
            base[n > 0 ? n : 0] = 0;
        }
        snprintf(out, PATH_MAX, "%s/%s", base, path);
    } else snprintf(out, PATH_MAX, "%s", path);
}

static int watched(const char *abs) {
    for (int i = 0; i < n_roots; i++) {
        size_t n = strlen(roots[i]);
        if (!strncmp(abs, roots[i], n) && (abs[n] == '/' || abs[n] == 0)) return 1;
    }
    return 0;
}

static uint64_t mix(uint64_t x) { x ^= x >> 33; x *= 0xff51afd7ed558ccdULL; x ^= x >> 33; x *= 0xc4ceb9fe1a85ec53ULL; x ^= x >> 33; return x; }

static void logline(const char *op, const char *a, const char *b, long n) {
    if (log_fd < 0) return;
    char buf[2 * PATH_MAX + 128];
    int k = snprintf(buf, sizeof buf, "%ld%c%d%c%s%c%s%c%s%c", n, 0, (int)syscall(SYS_getpid), 0, op, 0, a, 0, b ? b : "", 0);
    if (k > 0) { ssize_t r = syscall(SYS_write, log_fd, buf, (size_t)k + 0 < sizeof buf ? (size_t)k : sizeof buf); (void)r; }
}

/* called before a mutating call; returns 1 if the call must be cut short (half write, then die) */
static int event(const char *op, const char *a, const char *b) {
    if (!armed) return 0;
    int w = watched(a) || (b && watched(b));
    if (!w) { if (log_all) logline(op, a, b, -1); return 0; }
    long n = atomic_fetch_add(&sh->events, 1);
    logline(op, a, b, n);
    if (delay_permille) {
        uint64_t r = mix(delay_seed ^ ((uint64_t)n * 0x9e3779b97f4a7c15ULL) ^ ((uint64_t)syscall(SYS_getpid) << 32));
        if (r % 1000 < delay_permille) {
            atomic_fetch_add(&sh->delayed, 1);
            struct timespec ts = {0, (long)((r >> 20) % (delay_us_max + 1)) * 1000L};
            while (ts.tv_nsec >= 1000000000L) { ts.tv_sec++; ts.tv_nsec -= 1000000000L; }
            nanosleep(&ts, NULL);
        }
    }
    if (n == kill_at) {
        if (kill_mode == 1 && !strcmp(op, "write")) return 1;
        atomic_store(&sh->killed, 1);
        kill(kill_mode == 2 ? (pid_t)syscall(SYS_getpid) : 0, SIGKILL);
        for (;;) pause();
    }
    return 0;
}

static void die(void) { atomic_store(&sh->killed, 1); kill(0, SIGKILL); for (;;) pause(); }

static int watch_open(int dirfd, const char *path, int flags) {
    if (!armed || !path) return 0;
    if (!(flags & (O_WRONLY | O_RDWR | O_CREAT | O_TRUNC | O_APPEND))) return 0;
    char abs[PATH_MAX];
    absolute(dirfd, path, abs);
    if (!strncmp(abs, "/dev/", 5) || !strncmp(abs, "/proc/", 6)) return 0;
    event("open", abs, NULL);
    return watched(abs);
}
static int mark(int fd, int w) { if (fd >= 0 && fd < MAXFD) fd_watched[fd] = (unsigned char)(armed ? w : 0); return fd; }

#define OPENBODY(realcall) \
    mode_t mode = 0; \
    if (flags & (O_CREAT | __O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, mode_t); va_end(ap); } \
    int w = watch_open(dirfd, path, flags); \
    return mark(realcall, w);

int open(const char *path, int flags, ...) { REAL(int, open, const char *, int, ...); int dirfd = AT_FDCWD; OPENBODY(real_open(path, flags, mode)) }
int open64(const char *path, int flags, ...) { REAL(int, open64, const char *, int, ...); int dirfd = AT_FDCWD; OPENBODY(real_open64(path, flags, mode)) }
int openat(int dirfd, const char *path, int flags, ...) { REAL(int, openat, int, const char *, int, ...); OPENBODY(real_openat(dirfd, path, flags, mode)) }
int openat64(int dirfd, const char *path, int flags, ...) { REAL(int, openat64, int, const char *, int, ...); OPENBODY(real_openat64(dirfd, path, flags, mode)) }
int creat(const char *path, mode_t mode) { REAL(int, creat, const char *, mode_t); int w = watch_open(AT_FDCWD, path, O_CREAT | O_WRONLY | O_TRUNC); return mark(real_creat(path, mode), w); }
int close(int fd) { REAL(int, close, int); if (fd >= 0 && fd < MAXFD) fd_watched[fd] = 0; return real_close(fd); }

static int fdpath(int fd, char *abs) {
    if (fd < 0 || fd >= MAXFD || !armed || !fd_watched[fd]) return 0;
    char l[64];
    snprintf(l, sizeof l, "/proc/self/fd/%d", fd);
    ssize_t n = readlink(l, abs, PATH_MAX - 1);
    if (n <= 0) return 0;
    abs[n] = 0;
    return abs[0] == '/';
}

ssize_t write(int fd, const void *buf, size_t len) {
    REAL(ssize_t, write, int, const void *, size_t);
    char abs[PATH_MAX];
    if (fdpath(fd, abs) && event("write", abs, NULL)) { size_t half = (len / 2) & ~(size_t)4095; ssize_t r = real_write(fd, buf, half); (void)r; die(); }
    return real_write(fd, buf, len);
}
ssize_t pwrite(int fd, const void *buf, size_t len, off_t off) { REAL(ssize_t, pwrite, int, const void *, size_t, off_t); char abs[PATH_MAX]; if (fdpath(fd, abs)) event("pwrite", abs, NULL); return real_pwrite(fd, buf, len, off); }
ssize_t pwrite64(int fd, const void *buf, size_t len, off64_t off) { REAL(ssize_t, pwrite64, int, const void *, size_t, off64_t); char abs[PATH_MAX]; if (fdpath(fd, abs)) event("pwrite", abs, NULL); return real_pwrite64(fd, buf, len, off); }
ssize_t writev(int fd, const struct iovec *iov, int n) { REAL(ssize_t, writev, int, const struct iovec *, int); char abs[PATH_MAX]; if (fdpath(fd, abs)) event("writev", abs, NULL); return real_writev(fd, iov, n); }
int ftruncate(int fd, off_t len) { REAL(int, ftruncate, int, off_t); char abs[PATH_MAX]; if (fdpath(fd, abs)) event("ftruncate", abs, NULL); return real_ftruncate(fd, len); }
int ftruncate64(int fd, off64_t len) { REAL(int, ftruncate64, int, off64_t); char abs[PATH_MAX]; if (fdpath(fd, abs)) event("ftruncate", abs, NULL); return real_ftruncate64(fd, len); }

#define ONE(op, dirfd, path) do { if (armed && (path)) { char abs_[PATH_MAX]; absolute(dirfd, path, abs_); event(op, abs_, NULL); } } while (0)
#define TWO(op, d1, p1, d2, p2) do { if (armed && (p1) && (p2)) { char a_[PATH_MAX], b_[PATH_MAX]; absolute(d1, p1, a_); absolute(d2, p2, b_); event(op, a_, b_); } } while (0)

int rename(const char *a, const char *b) { REAL(int, rename, const char *, const char *); TWO("rename", AT_FDCWD, a, AT_FDCWD, b); return real_rename(a, b); }
int renameat(int d, const char *a, int e, const char *b) { REAL(int, renameat, int, const char *, int, const char *); TWO("rename", d, a, e, b); return real_renameat(d, a, e, b); }
int renameat2(int d, const char *a, int e, const char *b, unsigned f) { REAL(int, renameat2, int, const char *, int, const char *, unsigned); TWO("rename", d, a, e, b); return real_renameat2(d, a, e, b, f); }
int unlink(const char *p) { REAL(int, unlink, const char *); ONE("unlink", AT_FDCWD, p); return real_unlink(p); }
int unlinkat(int d, const char *p, int f) { REAL(int, unlinkat, int, const char *, int); ONE("unlink", d, p); return real_unlinkat(d, p, f); }
int remove(const char *p) { REAL(int, remove, const char *); ONE("unlink", AT_FDCWD, p); return real_remove(p); }
int rmdir(const char *p) { REAL(int, rmdir, const char *); ONE("rmdir", AT_FDCWD, p); return real_rmdir(p); }
int mkdir(const char *p, mode_t m) { REAL(int, mkdir, const char *, mode_t); ONE("mkdir", AT_FDCWD, p); return real_mkdir(p, m); }
int mkdirat(int d, const char *p, mode_t m) { REAL(int, mkdirat, int, const char *, mode_t); ONE("mkdir", d, p); return real_mkdirat(d, p, m); }
int link(const char *a, const char *b) { REAL(int, link, const char *, const char *); TWO("link", AT_FDCWD, a, AT_FDCWD, b); return real_link(a, b); }
int linkat(int d, const char *a, int e, const char *b, int f) { REAL(int, linkat, int, const char *, int, const char *, int); TWO("link", d, a, e, b); return real_linkat(d, a, e, b, f); }
int symlink(const char *a, const char *b) { REAL(int, symlink, const char *, const char *); ONE("symlink", AT_FDCWD, b); return real_symlink(a, b); }
int symlinkat(const char *a, int d, const char *b) { REAL(int, symlinkat, const char *, int, const char *); ONE("symlink", d, b); return real_symlinkat(a, d, b); }
int truncate(const char *p, off_t l) { REAL(int, truncate, const char *, off_t); ONE("truncate", AT_FDCWD, p); return real_truncate(p, l); }
int truncate64(const char *p, off64_t l) { REAL(int, truncate64, const char *, off64_t); ONE("truncate", AT_FDCWD, p); return real_truncate64(p, l); }
int chmod(const char *p, mode_t m) { REAL(int, chmod, const char *, mode_t); ONE("chmod", AT_FDCWD, p); return real_chmod(p, m); }
int fchmodat(int d, const char *p, mode_t m, int f) { REAL(int, fchmodat, int, const char *, mode_t, int); ONE("chmod", d, p); return real_fchmodat(d, p, m, f); }
int chown(const char *p, uid_t u, gid_t g) { REAL(int, chown, const char *, uid_t, gid_t); ONE("chown", AT_FDCWD, p); return real_chown(p, u, g); }
int utime(const char *p, const struct utimbuf *t) { REAL(int, utime, const char *, const struct utimbuf *); ONE("utime", AT_FDCWD, p); return real_utime(p, t); }
int utimes(const char *p, const struct timeval t[2]) { REAL(int, utimes, const char *, const struct timeval *); ONE("utime", AT_FDCWD, p); return real_utimes(p, t); }
int utimensat(int d, const char *p, const struct timespec t[2], int f) { REAL(int, utimensat, int, const char *, const struct timespec *, int); ONE("utime", d, p); return real_utimensat(d, p, t, f); }
