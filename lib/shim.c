/* Runtime monitor preloaded into the program under test.
 *
 *  - VM_SEED      makes getrandom() deterministic: it decides the keys of every
 *                 std HashMap, i.e. the iteration orders the program goes through.
 *  - VM_NOW       seconds since the epoch returned by CLOCK_REALTIME.
 *  - VM_LOG       file descriptor events are appended to, one per line:
 *                     R <n>            n random bytes were requested
 *                     T                the wall clock was read
 *                     O <flags> <path> a file was opened
 *                     W <what> <path>  a call which changes the file system
 *                     X <what>         a process or a socket was created
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <time.h>
#include <unistd.h>

static int log_fd(void) {
    static int fd = -2;
    if (fd == -2) {
        const char *s = getenv("VM_LOG");
        fd = s ? atoi(s) : -1;
    }
    return fd;
}
static void logev(const char *fmt, ...) {
    int fd = log_fd();
    if (fd < 0) return;
    char buf[4600];
    va_list ap;
    va_start(ap, fmt);
    int n = vsnprintf(buf, sizeof buf, fmt, ap);
    va_end(ap);
    if (n > (int)sizeof buf - 1) n = sizeof buf - 1;
    syscall(SYS_write, fd, buf, (size_t)n);
}

static uint64_t state;
static int seeded;
static uint64_t next64(void) { /* splitmix64 */
    uint64_t z = (state += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}
ssize_t getrandom(void *buf, size_t len, unsigned int flags) {
    const char *s = getenv("VM_SEED");
    logev("R %zu\n", len);
    if (!s) return syscall(SYS_getrandom, buf, len, flags);
    if (!seeded) { state = strtoull(s, NULL, 10) * 0x2545F4914F6CDD1Dull + 77; seeded = 1; }
    unsigned char *p = buf;
    for (size_t i = 0; i < len; i += 8) {
        uint64_t v = next64();
        memcpy(p + i, &v, len - i < 8 ? len - i : 8);
    }
    return (ssize_t)len;
}

int clock_gettime(clockid_t id, struct timespec *ts) {
    if (id == CLOCK_REALTIME) {
        const char *s = getenv("VM_NOW");
        logev("T\n");
        if (s) { ts->tv_sec = atoll(s); ts->tv_nsec = 0; return 0; }
    }
    return (int)syscall(SYS_clock_gettime, id, ts);
}

/* Nothing but devices may be opened for writing */
static int refuse(const char *path, int flags) {
    if ((flags & O_ACCMODE) == O_RDONLY && !(flags & (O_CREAT | O_TRUNC))) return 0;
    if (!strcmp(path, "/dev/null") || !strcmp(path, "/dev/tty")) return 0;
    errno = EACCES;
    return 1;
}
#define OPENFN(name) \
int name(const char *path, int flags, ...) { \
    mode_t mode = 0; \
    if (flags & (O_CREAT | __O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, int); va_end(ap); } \
    logev("O %d %s\n", flags & (O_ACCMODE | O_CREAT | O_TRUNC | O_APPEND), path); \
    if (refuse(path, flags)) return -1; \
    return (int)syscall(SYS_openat, AT_FDCWD, path, flags, mode); \
}
OPENFN(open)
OPENFN(open64)
#define OPENATFN(name) \
int name(int dir, const char *path, int flags, ...) { \
    mode_t mode = 0; \
    if (flags & (O_CREAT | __O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, int); va_end(ap); } \
    logev("O %d %s\n", flags & (O_ACCMODE | O_CREAT | O_TRUNC | O_APPEND), path); \
    if (refuse(path, flags)) return -1; \
    return (int)syscall(SYS_openat, dir, path, flags, mode); \
}
OPENATFN(openat)
OPENATFN(openat64)

/* The calls which change the file system are recorded and refused */
#define REFUSE1(name, sig, arg) int name sig { logev("W " #name " %s\n", arg); errno = EPERM; return -1; }
REFUSE1(unlink, (const char *p), p)
REFUSE1(rmdir, (const char *p), p)
REFUSE1(mkdir, (const char *p, mode_t m), p)
REFUSE1(rename, (const char *p, const char *q), p)
REFUSE1(link, (const char *p, const char *q), p)
REFUSE1(symlink, (const char *p, const char *q), q)
REFUSE1(truncate, (const char *p, off_t n), p)
REFUSE1(truncate64, (const char *p, off_t n), p)
REFUSE1(chmod, (const char *p, mode_t m), p)
int unlinkat(int d, const char *p, int f) { logev("W unlinkat %s\n", p); errno = EPERM; return -1; }
int renameat(int d, const char *p, int e, const char *q) { logev("W renameat %s\n", p); errno = EPERM; return -1; }
int ftruncate(int fd, off_t n) { logev("W ftruncate %d\n", fd); errno = EPERM; return -1; }
int ftruncate64(int fd, off_t n) { logev("W ftruncate %d\n", fd); errno = EPERM; return -1; }
int socket(int a, int b, int c) { logev("X socket\n"); errno = EPERM; return -1; }
pid_t fork(void) { logev("X fork\n"); errno = EPERM; return -1; }
int execve(const char *p, char *const a[], char *const e[]) { logev("X execve %s\n", p); errno = EPERM; return -1; }
REFUSE1(creat, (const char *p, mode_t m), p)
REFUSE1(creat64, (const char *p, mode_t m), p)
REFUSE1(mkdirat, (int d, const char *p, mode_t m), p)
REFUSE1(symlinkat, (const char *p, int d, const char *q), q)
REFUSE1(linkat, (int d, const char *p, int e, const char *q, int f), p)
REFUSE1(renameat2, (int d, const char *p, int e, const char *q, unsigned int f), p)
REFUSE1(chown, (const char *p, uid_t u, gid_t g), p)
REFUSE1(lchown, (const char *p, uid_t u, gid_t g), p)
REFUSE1(remove, (const char *p), p)
REFUSE1(mkfifo, (const char *p, mode_t m), p)
int fchmod(int fd, mode_t m) { logev("W fchmod %d\n", fd); errno = EPERM; return -1; }
int fchown(int fd, uid_t u, gid_t g) { logev("W fchown %d\n", fd); errno = EPERM; return -1; }
int utimensat(int d, const char *p, const struct timespec *t, int f) { logev("W utimensat\n"); errno = EPERM; return -1; }
int futimens(int fd, const struct timespec *t) { logev("W futimens %d\n", fd); errno = EPERM; return -1; }
pid_t vfork(void) { logev("X fork\n"); errno = EPERM; return -1; }
int execvp(const char *p, char *const a[]) { logev("X execvp %s\n", p); errno = EPERM; return -1; }
int posix_spawn(pid_t *i, const char *p, const void *fa, const void *at, char *const a[], char *const e[]) {
    logev("X posix_spawn %s\n", p); return EPERM;
}
int posix_spawnp(pid_t *i, const char *p, const void *fa, const void *at, char *const a[], char *const e[]) {
    logev("X posix_spawnp %s\n", p); return EPERM;
}
