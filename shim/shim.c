/* Injects one fault into the file operations of a process (LD_PRELOAD).
 *
 * Every operation that can change the file system is a numbered point. Environment:
 *   SHIM_LOG   file that one line per point is appended to
 *   SHIM_AT    number of the point (from 1) the fault hits
 *   SHIM_ACT   kill       die before the operation
 *              after      do the operation, then die
 *              half       write half of the data, then die (other operations: die before)
 *              short      write half of the data and report that (no error)
 *              fail:N     the operation fails with errno N
 *              failon:N   this and every later operation of that kind fails with errno N
 *              stop       stop before the operation, until continued
 *              part:N     write half of the data; every later write fails with errno N
 *   SHIM_DIR   directories are read in an order that depends on this number, and a file created while
 *              a directory is being read is found by that reading too, unless its turn has passed
 *   SHIM_ENV   every other environment variable that is asked for and not set has this value
 *   SHIM_LOOKS operations that only look at the file system by a path are points as well
 *   SHIM_READS opening a file to read it, reading it, reading a directory and reading answers are points as
 *              well; "short" gives half of what is asked for
 *   SHIM_CHUNK no reading gives more bytes than this, and every second one is interrupted first
 *   SHIM_PATHS file that every path is appended to: "W", "L" (looked at, and there) or "M" (looked at, and
 *              missing), the absolute path, a zero byte
 *   SHIM_TIME  the clock is this many seconds ahead
 *   SHIM_MUTE  what is written to the standard streams is a point of its own kind, "message", that can fail
 *   SHIM_TTY   standard streams say that they are terminals
 */
#define _GNU_SOURCE
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/sysmacros.h>
#include <sys/types.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

static int point, at = -1, number, sticky;
static const char *act = "", *logp;
static char sticky_kind[32];

static void init(void) {
    if (at >= 0) return;
    const char *a = getenv("SHIM_AT");
    at = a ? atoi(a) : 0;
    act = getenv("SHIM_ACT") ? getenv("SHIM_ACT") : "";
    logp = getenv("SHIM_LOG");
    const char *c = strchr(act, ':');
    number = c ? atoi(c + 1) : 0;
}
/* the environment as the process started with it, without the calls below */
extern char **environ;
static char *setting(const char *name) {
    size_t n = strlen(name);
    for (char **e = environ; e && *e; e++)
        if (strncmp(*e, name, n) == 0 && (*e)[n] == '=') return *e + n + 1;
    return NULL;
}
char *getenv(const char *name) {
    char *v = setting(name);
    if (v || strncmp(name, "SHIM_", 5) == 0 || strncmp(name, "RUST_", 5) == 0 || strncmp(name, "LD_", 3) == 0) return v;
    return setting("SHIM_ENV");
}
char *secure_getenv(const char *name) { return getenv(name); }
int isatty(int fd) {
    if (fd <= 2 && setting("SHIM_TTY")) return 1;
    struct stat st;
    errno = ENOTTY;
    return fstat(fd, &st) == 0 && S_ISCHR(st.st_mode) && major(st.st_rdev) != 1;
}
static long ahead(void) {
    char *v = setting("SHIM_TIME");
    return v ? atol(v) : 0;
}
int clock_gettime(clockid_t c, struct timespec *t) {
    int r = syscall(SYS_clock_gettime, c, t);
    if (r == 0 && (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE)) t->tv_sec += ahead();
    return r;
}
int gettimeofday(struct timeval *t, void *z) {
    struct timespec s;
    if (clock_gettime(CLOCK_REALTIME, &s)) return -1;
    t->tv_sec = s.tv_sec;
    t->tv_usec = s.tv_nsec / 1000;
    (void)z;
    return 0;
}
time_t time(time_t *out) {
    struct timespec s;
    clock_gettime(CLOCK_REALTIME, &s);
    if (out) *out = s.tv_sec;
    return s.tv_sec;
}
static void die(void) {
    syscall(SYS_kill, syscall(SYS_getpid), SIGKILL);
    for (;;) syscall(SYS_pause);
}
static int is(const char *name) { return strncmp(act, name, strlen(name)) == 0; }

enum { GO, FAIL, HALF, AFTER, HALFDIE };
/* what to do with the operation; sets errno for FAIL */
static int hit(const char *kind, int can_fail) {
    init();
    point++;
    if (logp) {
        int fd = syscall(SYS_openat, AT_FDCWD, logp, O_WRONLY | O_CREAT | O_APPEND, 0666);
        if (fd >= 0) {
            char b[64];
            int n = snprintf(b, sizeof b, "%s%s\n", kind, can_fail ? "" : "!");
            syscall(SYS_write, fd, b, n);
            syscall(SYS_close, fd);
        }
    }
    if (sticky && can_fail && strcmp(sticky_kind, kind) == 0) {
        errno = number;
        return FAIL;
    }
    if (point != at) return GO;
    if (is("kill")) die();
    if (is("after")) return AFTER;
    if (is("stop")) {
        syscall(SYS_kill, syscall(SYS_getpid), SIGSTOP);
        return GO;
    }
    if (is("half")) {
        if (strcmp(kind, "write")) die();
        return HALFDIE;
    }
    if (is("short")) return !strcmp(kind, "write") || !strcmp(kind, "message") || !strcmp(kind, "read") || !strcmp(kind, "answer") ? HALF : GO;
    if (!can_fail) return GO;
    if (is("part")) {
        if (strcmp(kind, "write")) return GO;
        sticky = 1;
        strcpy(sticky_kind, kind);
        return HALF;
    }
    if (is("failon")) {
        sticky = 1;
        strcpy(sticky_kind, kind);
        errno = number;
        return FAIL;
    }
    if (is("fail")) {
        errno = number;
        return FAIL;
    }
    return GO;
}
static void note(char kind, int dir, const char *p) {
    char *to = setting("SHIM_PATHS");
    if (!to || !p || !*p) return;
    char b[9000], from[64];
    size_t n = 0;
    b[n++] = kind;
    if (*p != '/') {
        if (dir == AT_FDCWD) strcpy(from, "/proc/self/cwd");
        else snprintf(from, sizeof from, "/proc/self/fd/%d", dir);
        ssize_t k = syscall(SYS_readlinkat, AT_FDCWD, from, b + n, 4096);
        if (k > 0) n += k;
        b[n++] = '/';
    }
    size_t m = strlen(p);
    if (m > 4096) m = 4096;
    memcpy(b + n, p, m);
    n += m;
    b[n++] = 0;
    int fd = syscall(SYS_openat, AT_FDCWD, to, O_WRONLY | O_CREAT | O_APPEND, 0666);
    if (fd >= 0) {
        syscall(SYS_write, fd, b, n);
        syscall(SYS_close, fd);
    }
}
static void seen_at(int dir, const char *p) {
    if (!setting("SHIM_PATHS")) return;
    note(syscall(SYS_faccessat, dir, p, F_OK) == 0 ? 'L' : 'M', dir, p);
}
#define REAL(name) ((__typeof__(&name))dlsym(RTLD_NEXT, #name))
#define SIMPLE(kind, name, args) PATHS(kind, name, args, )
#define PATHS(kind, name, args, notes)               \
    {                                                \
        notes                                        \
        int h = hit(kind, 1);                        \
        if (h == FAIL) return -1;                    \
        __typeof__(name args) r = REAL(name) args;   \
        if (h == AFTER) die();                       \
        return r;                                    \
    }

static void look(void) {
    if (setting("SHIM_LOOKS")) hit("look", 0);
}
#define LOOK(ret, name, decl, call, when, d, p)      \
    ret name decl {                                  \
        static ret(*real) decl;                      \
        if (!real) real = dlsym(RTLD_NEXT, #name);   \
        if (when) look(), seen_at(d, p);             \
        return real call;                            \
    }
/* a descriptor's own data is asked for without a path */
static int named(const char *volatile p) {
    const char *q = p;
    return q && *q;
}
LOOK(int, statx, (int d, const char *restrict p, int f, unsigned m, struct statx *restrict b), (d, p, f, m, b), named(p), d, p)
LOOK(int, stat, (const char *restrict p, struct stat *restrict b), (p, b), 1, AT_FDCWD, p)
LOOK(int, stat64, (const char *restrict p, struct stat64 *restrict b), (p, b), 1, AT_FDCWD, p)
LOOK(int, lstat, (const char *restrict p, struct stat *restrict b), (p, b), 1, AT_FDCWD, p)
LOOK(int, lstat64, (const char *restrict p, struct stat64 *restrict b), (p, b), 1, AT_FDCWD, p)
LOOK(int, access, (const char *p, int m), (p, m), 1, AT_FDCWD, p)
LOOK(int, faccessat, (int d, const char *p, int m, int f), (d, p, m, f), 1, d, p)
LOOK(ssize_t, readlink, (const char *restrict p, char *restrict b, size_t n), (p, b, n), 1, AT_FDCWD, p)
char *realpath(const char *restrict p, char *restrict b) {
    static char *(*real)(const char *restrict, char *restrict);
    if (!real) real = dlvsym(RTLD_NEXT, "realpath", "GLIBC_2.3");
    if (!real) real = dlsym(RTLD_NEXT, "realpath");
    look();
    seen_at(AT_FDCWD, p);
    return real(p, b);
}
DIR *opendir(const char *p) {
    static DIR *(*real)(const char *);
    if (!real) real = dlsym(RTLD_NEXT, "opendir");
    look();
    seen_at(AT_FDCWD, p);
    if (setting("SHIM_READS") && hit("source", 1) == FAIL) return NULL;
    return real(p);
}
/* how many bytes a reading may give, or -1 */
static long give(int fd, size_t n) {
    static unsigned count;
    char *chunk = setting("SHIM_CHUNK");
    if (chunk && n > 0) {
        if (count++ % 2) {
            errno = EINTR;
            return -1;
        }
        size_t most = strtoul(chunk, 0, 10);
        if (n > most) n = most;
    }
    if (!setting("SHIM_READS")) return n;
    int h = hit(fd == 0 ? "answer" : "read", 1);
    if (h == FAIL) return -1;
    return h == HALF && n > 1 ? n / 2 : n;
}
ssize_t read(int fd, void *b, size_t n) {
    long m = give(fd, n);
    return m < 0 ? -1 : syscall(SYS_read, fd, b, m);
}
ssize_t pread(int fd, void *b, size_t n, off_t o) {
    long m = give(fd, n);
    return m < 0 ? -1 : syscall(SYS_pread64, fd, b, m, o);
}
ssize_t pread64(int fd, void *b, size_t n, off64_t o) { return pread(fd, b, n, o); }
ssize_t readv(int fd, const struct iovec *v, int k) {
    if (k < 1) return REAL(readv)(fd, v, k);
    long m = give(fd, v[0].iov_len);
    return m < 0 ? -1 : syscall(SYS_read, fd, v[0].iov_base, m);
}
static int writes(int flags) { return (flags & O_ACCMODE) != O_RDONLY || (flags & (O_CREAT | O_TRUNC)); }
#define OPEN(name, decl, call, last)                              \
    int name decl {                                               \
        mode_t mode = 0;                                          \
        if (flags & (O_CREAT | O_TMPFILE)) {                      \
            va_list ap;                                           \
            va_start(ap, flags);                                  \
            mode = va_arg(ap, mode_t);                            \
            va_end(ap);                                           \
        }                                                         \
        if (!writes(flags)) {                                     \
            look();                                               \
            seen_at(last, p);                                     \
            if (setting("SHIM_READS") && hit("source", 1) == FAIL) return -1; \
            return REAL(name) call;                               \
        }                                                         \
        note('W', last, p);                                       \
        int h = hit("open", 1);                                   \
        if (h == FAIL) return -1;                                 \
        int r = REAL(name) call;                                  \
        if (h == AFTER) die();                                    \
        return r;                                                 \
    }
OPEN(open, (const char *p, int flags, ...), (p, flags, mode), AT_FDCWD)
OPEN(open64, (const char *p, int flags, ...), (p, flags, mode), AT_FDCWD)
OPEN(openat, (int d, const char *p, int flags, ...), (d, p, flags, mode), d)
OPEN(openat64, (int d, const char *p, int flags, ...), (d, p, flags, mode), d)
int creat(const char *p, mode_t m) PATHS("open", creat, (p, m), note('W', AT_FDCWD, p);)
int creat64(const char *p, mode_t m) PATHS("open", creat64, (p, m), note('W', AT_FDCWD, p);)

static int hit_write(int fd) {
    if (fd <= 2 && setting("SHIM_MUTE")) return hit("message", 1);
    return hit("write", fd > 2);
}
static ssize_t out(int fd, const void *b, size_t n, off_t o, int positioned) {
    int h = hit_write(fd);
    if (h == FAIL) return -1;
    size_t m = (h == HALF || h == HALFDIE) && n > 1 ? n / 2 : n;
    ssize_t r = positioned ? syscall(SYS_pwrite64, fd, b, m, o) : syscall(SYS_write, fd, b, m);
    if (h == AFTER || h == HALFDIE) die();
    if (r < 0) errno = errno;
    return r;
}
ssize_t write(int fd, const void *b, size_t n) { return out(fd, b, n, 0, 0); }
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { return out(fd, b, n, o, 1); }
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) { return out(fd, b, n, o, 1); }
ssize_t writev(int fd, const struct iovec *v, int k) {
    if (k < 1) return REAL(writev)(fd, v, k);
    int h = hit_write(fd);
    if (h == FAIL) return -1;
    ssize_t r;
    if (h == HALF || h == HALFDIE) {
        size_t n = v[0].iov_len;
        r = syscall(SYS_write, fd, v[0].iov_base, n > 1 ? n / 2 : n);
    } else
        r = syscall(SYS_writev, fd, v, k);
    if (h == AFTER || h == HALFDIE) die();
    return r;
}
int rename(const char *a, const char *b) PATHS("rename", rename, (a, b), note('W', AT_FDCWD, a); note('W', AT_FDCWD, b);)
int renameat(int d, const char *a, int e, const char *b) PATHS("rename", renameat, (d, a, e, b), note('W', d, a); note('W', e, b);)
int renameat2(int d, const char *a, int e, const char *b, unsigned f) PATHS("rename", renameat2, (d, a, e, b, f), note('W', d, a); note('W', e, b);)
int unlink(const char *p) PATHS("unlink", unlink, (p), note('W', AT_FDCWD, p);)
int unlinkat(int d, const char *p, int f) PATHS("unlink", unlinkat, (d, p, f), note('W', d, p);)
int remove(const char *p) PATHS("unlink", remove, (p), note('W', AT_FDCWD, p);)
int rmdir(const char *p) PATHS("unlink", rmdir, (p), note('W', AT_FDCWD, p);)
int link(const char *a, const char *b) PATHS("link", link, (a, b), note('W', AT_FDCWD, b);)
int linkat(int d, const char *a, int e, const char *b, int f) PATHS("link", linkat, (d, a, e, b, f), note('W', e, b);)
int symlink(const char *a, const char *b) PATHS("link", symlink, (a, b), note('W', AT_FDCWD, b);)
int truncate(const char *p, off_t n) PATHS("truncate", truncate, (p, n), note('W', AT_FDCWD, p);)
int truncate64(const char *p, off64_t n) PATHS("truncate", truncate64, (p, n), note('W', AT_FDCWD, p);)
int ftruncate(int fd, off_t n) SIMPLE("truncate", ftruncate, (fd, n))
int ftruncate64(int fd, off64_t n) SIMPLE("truncate", ftruncate64, (fd, n))
int mkdir(const char *p, mode_t m) PATHS("mkdir", mkdir, (p, m), note('W', AT_FDCWD, p);)
int fsync(int fd) SIMPLE("sync", fsync, (fd))
int fdatasync(int fd) SIMPLE("sync", fdatasync, (fd))
ssize_t copy_file_range(int a, off64_t *b, int c, off64_t *d, size_t n, unsigned f) SIMPLE("write", copy_file_range, (a, b, c, d, n, f))
ssize_t sendfile(int a, int b, off_t *c, size_t n) {
    static ssize_t (*real)(int, int, off_t *, size_t);
    if (!real) real = dlsym(RTLD_NEXT, "sendfile");
    int h = hit("write", 1);
    if (h == FAIL) return -1;
    ssize_t r = real(a, b, c, n);
    if (h == AFTER) die();
    return r;
}

/* directory listings in a chosen order */
struct seen {
    DIR *dir;
    unsigned long last;
    struct dirent64 out;
    struct seen *next;
};
static struct seen *reading;
static unsigned long rank(const char *name) {
    static unsigned long seed, known;
    if (!known) {
        seed = strtoul(getenv("SHIM_DIR"), 0, 10);
        known = 1;
    }
    unsigned long h = 1469598103934665603UL ^ seed * 0x9E3779B97F4A7C15UL;
    for (; *name; name++) h = (h ^ (unsigned char)*name) * 1099511628211UL, h ^= h >> 29;
    return h | 1;
}
struct dirent64 *readdir64(DIR *d) {
    static struct dirent64 *(*real)(DIR *);
    if (!real) real = dlsym(RTLD_NEXT, "readdir64");
    if (setting("SHIM_READS")) {
        int e = errno;
        if (hit("entry", 1) == FAIL) return NULL;
        errno = e;
    }
    if (!getenv("SHIM_DIR")) return real(d);
    struct seen *s = reading;
    while (s && s->dir != d) s = s->next;
    if (!s) {
        s = calloc(1, sizeof *s);
        s->dir = d;
        s->next = reading;
        reading = s;
    }
    /* the name of the lowest rank above the last one */
    int fd = syscall(SYS_openat, dirfd(d), ".", O_RDONLY | O_DIRECTORY | O_CLOEXEC);
    DIR *now = fd < 0 ? 0 : fdopendir(fd);
    if (!now) return real(d);
    unsigned long best = 0;
    for (struct dirent64 *e; (e = real(now));) {
        unsigned long r = rank(e->d_name);
        if (r > s->last && (!best || r < best)) {
            best = r;
            s->out = *e;
        }
    }
    closedir(now);
    if (!best) return 0;
    s->last = best;
    return &s->out;
}
int closedir(DIR *d) {
    static int (*real)(DIR *);
    if (!real) real = dlsym(RTLD_NEXT, "closedir");
    for (struct seen **s = &reading; *s; s = &(*s)->next)
        if ((*s)->dir == d) {
            struct seen *gone = *s;
            *s = gone->next;
            free(gone);
            break;
        }
    return real(d);
}
