/* Preloaded into the real command line program. Every call it makes on its
 * input files and on standard output stops here and asks the simulator, over a
 * socket, whether to proceed, to fail with a given error, to be cut short, or
 * to report another file size. Randomness, clock and process id are seeded.
 * Threads of the program run one at a time; SIM_SCHED decides which goes on.
 * Without SIM_FD in the environment everything passes through. */
#define _GNU_SOURCE
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <pthread.h>
#include <sched.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

enum { K_OPEN = 1, K_READ, K_WRITE, K_STAT, K_SEEK, K_OTHER };
enum { A_GO = 0, A_FAIL, A_SHORT, A_SIZE };

struct ask {
    uint32_t kind;
    int32_t fd;
    uint64_t len;
    char path[240];
};
struct answer {
    int64_t action;
    int64_t arg;
};

static int sock = -1;
static char dir[512];
static uint64_t seed;
static unsigned char tracked[4096];
static pthread_mutex_t lock = PTHREAD_MUTEX_INITIALIZER;

static uint64_t sched_seed, vars;
static unsigned tty;
static __thread int me __attribute__((tls_model("initial-exec")));

__attribute__((constructor)) static void start(void) {
    const char *s = getenv("SIM_FD");
    if (!s) return;
    sock = atoi(s);
    s = getenv("SIM_DIR");
    if (s) strncpy(dir, s, sizeof dir - 1);
    s = getenv("SIM_ENTROPY");
    if (s) seed = strtoull(s, 0, 10);
    s = getenv("SIM_SCHED");
    if (s) sched_seed = strtoull(s, 0, 10);
    s = getenv("SIM_VARS");
    if (s) vars = strtoull(s, 0, 10);
    s = getenv("SIM_TTY");
    if (s) tty = (unsigned)atoi(s);
    me = 1;
    tracked[0] = tracked[1] = 1;
    unsetenv("LD_PRELOAD");
    unsetenv("SIM_FD");
    unsetenv("SIM_DIR");
    unsetenv("SIM_ENTROPY");
    unsetenv("SIM_SCHED");
    unsetenv("SIM_VARS");
    unsetenv("SIM_TTY");
}

/* A variable that nobody set may be there all the same. */
char *getenv(const char *name) {
    static const char *const values[] = {"1", "0", "", "true", "/tmp/x", "full,x"};
    static const char *const keep[] = {"RUST_", "SIM_", "LD_", "LC_", "MALLOC_", "GLIBC_"};
    size_t n = strlen(name);
    for (char **e = environ; e && *e; e++)
        if (!strncmp(*e, name, n) && (*e)[n] == '=') return *e + n + 1;
    if (sock < 0 || !vars) return 0;
    for (size_t i = 0; i < sizeof keep / sizeof *keep; i++)
        if (!strncmp(name, keep[i], strlen(keep[i]))) return 0;
    uint64_t z = vars;
    for (size_t i = 0; i < n; i++) z = (z ^ (unsigned char)name[i]) * 0x100000001b3ULL;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z ^= z >> 31;
    return z & 1 ? (char *)values[(z >> 8) % (sizeof values / sizeof *values)] : 0;
}
int isatty(int fd) {
    static __typeof__(isatty) *real;
    if (sock >= 0 && fd >= 0 && fd < 3) {
        if (tty & (1u << fd)) return 1;
        errno = ENOTTY;
        return 0;
    }
    if (!real) real = (__typeof__(real))dlsym(RTLD_NEXT, "isatty");
    return real(fd);
}

static long raw(long n, long a, long b, long c, long d, long e, long f) {
    long r;
    register long r10 __asm__("r10") = d;
    register long r8 __asm__("r8") = e;
    register long r9 __asm__("r9") = f;
    __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    return r;
}

/* ---- threads: exactly one of them holds the baton ---- */

enum { READY = 0, BLOCKED, DONE };
#define MAXT 63
static struct {
    int st, free, timed, timed_out;
    const void *futex;
    int joins;
    pthread_t id;
} th[MAXT + 1];
static int nth_ = 1;
static volatile uint32_t cur = 1;
static uint64_t sched_n, spins;
static __thread int busy __attribute__((tls_model("initial-exec")));

static void wait_turn(int t) {
    uint32_t c;
    while ((c = __atomic_load_n(&cur, __ATOMIC_SEQ_CST)) != (uint32_t)t) raw(SYS_futex, (long)&cur, 128, c, 0, 0, 0);
}
static void pass(int t) {
    __atomic_store_n(&cur, (uint32_t)t, __ATOMIC_SEQ_CST);
    raw(SYS_futex, (long)&cur, 129, 0x7fffffff, 0, 0, 0);
}
static int next_ready(int t) {
    for (int k = 1; k <= nth_; k++) {
        int x = (t - 1 + k) % nth_ + 1;
        if (th[x].st == READY) return x;
    }
    return 0;
}
static int unstick(int t) {
    if (++spins > 20000) return 0;
    for (int want = 1; want >= 0; want--)
        for (int k = 0; k < nth_; k++) {
            int x = (t - 1 + k + (int)(spins % (uint64_t)nth_)) % nth_ + 1;
            if (th[x].st == BLOCKED && th[x].futex && th[x].timed == want) {
                th[x].timed_out = want;
                th[x].futex = 0;
                th[x].st = READY;
                return x;
            }
        }
    return 0;
}
static void stand_by(void) {
    int t = next_ready(me);
    if (!t) t = unstick(me);
    if (!t)
        for (;;) raw(SYS_pause, 0, 0, 0, 0, 0, 0);
    if (t != me) {
        int m = me;
        pass(t);
        wait_turn(m);
    }
}
/* Somebody else may go on here. */
static void yield_(void) {
    if (sock < 0 || !me || busy || nth_ < 2) return;
    if (!sched_seed) return;
    uint64_t z = sched_seed * 0x9e3779b97f4a7c15ULL + ++sched_n * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 29)) * 0x94d049bb133111ebULL;
    z ^= z >> 32;
    if (z % (1ULL << (2 * (sched_seed % 5)))) return;
    int t = (int)((z >> 20) % (uint64_t)nth_) + 1;
    t = next_ready(t);
    if (t && t != me) {
        int m = me;
        pass(t);
        wait_turn(m);
    }
}

struct begin {
    int t;
    void *(*f)(void *);
    void *arg;
};
static void *begin(void *p) {
    struct begin b = *(struct begin *)p;
    busy = 1;
    free(p);
    wait_turn(b.t);
    me = b.t;
    busy = 0;
    void *r = b.f(b.arg);
    busy = 1;
    me = 0;
    th[b.t].st = DONE;
    for (int x = 1; x <= nth_; x++)
        if (th[x].joins == b.t) {
            th[x].joins = 0;
            th[x].st = READY;
        }
    int t = next_ready(b.t);
    if (!t) t = unstick(b.t);
    if (t) pass(t);
    return r;
}
int pthread_create(pthread_t *restrict id, const pthread_attr_t *restrict at, void *(*f)(void *), void *restrict arg) {
    static __typeof__(pthread_create) *real;
    busy++;
    if (!real) real = (__typeof__(real))dlsym(RTLD_NEXT, "pthread_create");
    int r, t = 0;
    if (sock >= 0 && me) {
        for (int x = 2; x <= nth_ && !t; x++)
            if (th[x].st == DONE && th[x].free) t = x;
        if (!t && nth_ < MAXT) t = ++nth_;
        if (!t) {
            busy--;
            return EAGAIN;
        }
        memset(&th[t], 0, sizeof th[t]);
        struct begin *b = malloc(sizeof *b);
        b->t = t, b->f = f, b->arg = arg;
        r = real(id, at, begin, b);
        if (r)
            th[t].st = DONE, th[t].free = 1;
        else
            th[t].id = *id;
    } else
        r = real(id, at, f, arg);
    busy--;
    if (t && !r) yield_();
    return r;
}
static int numbered(pthread_t id) {
    for (int x = 2; x <= nth_; x++)
        if (!th[x].free && th[x].id == id) return x;
    return 0;
}
int pthread_join(pthread_t id, void **out) {
    __typeof__(pthread_join) *real = (__typeof__(real))dlsym(RTLD_NEXT, "pthread_join");
    int t;
    if (sock >= 0 && me && (t = numbered(id))) {
        while (th[t].st != DONE) {
            th[me].joins = t;
            th[me].st = BLOCKED;
            stand_by();
            th[me].joins = 0;
            th[me].st = READY;
        }
        th[t].free = 1;
    }
    return real(id, out);
}
int pthread_detach(pthread_t id) {
    __typeof__(pthread_detach) *real = (__typeof__(real))dlsym(RTLD_NEXT, "pthread_detach");
    int t;
    if (sock >= 0 && me && (t = numbered(id))) th[t].free = 1;
    return real(id);
}
long syscall(long n, ...) {
    va_list ap;
    va_start(ap, n);
    long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
    va_end(ap);
    if (n == SYS_futex && sock >= 0 && me) {
        int op = (int)(b & 0x7f);
        if (op == 0 || op == 9) {
            if (__atomic_load_n((uint32_t *)a, __ATOMIC_SEQ_CST) != (uint32_t)c) {
                errno = EAGAIN;
                return -1;
            }
            th[me].futex = (void *)a;
            th[me].timed = d != 0;
            th[me].timed_out = 0;
            th[me].st = BLOCKED;
            stand_by();
            th[me].futex = 0;
            th[me].st = READY;
            if (th[me].timed_out) {
                errno = ETIMEDOUT;
                return -1;
            }
            return 0;
        }
        if (op == 1 || op == 10) {
            long k = 0;
            for (int x = 1; x <= nth_ && k < (int)c; x++)
                if (th[x].st == BLOCKED && th[x].futex == (void *)a) {
                    th[x].futex = 0;
                    th[x].st = READY;
                    k++;
                }
            yield_();
            return k;
        }
    }
    long r = raw(n, a, b, c, d, e, f);
    if (r < 0 && r > -4096) {
        errno = (int)-r;
        return -1;
    }
    return r;
}
int sched_yield(void) {
    if (sock >= 0 && me) {
        int m = me, t = next_ready(m);
        if (t && t != m) {
            pass(t);
            wait_turn(m);
        }
        return 0;
    }
    return (int)raw(SYS_sched_yield, 0, 0, 0, 0, 0, 0);
}
/* Sleeping lets the others run. */
int nanosleep(const struct timespec *t, struct timespec *rem) {
    if (sock >= 0 && me) return sched_yield();
    return (int)syscall(SYS_nanosleep, t, rem, 0, 0, 0, 0);
}
int clock_nanosleep(clockid_t c, int fl, const struct timespec *t, struct timespec *rem) {
    if (sock >= 0 && me) return sched_yield();
    return (int)-raw(SYS_clock_nanosleep, c, fl, (long)t, (long)rem, 0, 0);
}
int sched_getaffinity(pid_t p, size_t n, cpu_set_t *m) {
    if (sock < 0) {
        long r = raw(SYS_sched_getaffinity, p, (long)n, (long)m, 0, 0, 0);
        if (r < 0) {
            errno = (int)-r;
            return -1;
        }
        memset((char *)m + r, 0, n - (size_t)r);
        return 0;
    }
    memset(m, 0, n);
    for (uint64_t i = 0; i < 1 + sched_seed % 7; i++) ((unsigned char *)m)[i / 8] |= (unsigned char)(1 << (i % 8));
    return 0;
}
extern void *__libc_malloc(size_t), *__libc_realloc(void *, size_t);
extern void __libc_free(void *);
void *malloc(size_t n) {
    yield_();
    return __libc_malloc(n);
}
void *realloc(void *p, size_t n) {
    yield_();
    return __libc_realloc(p, n);
}
void free(void *p) {
    yield_();
    __libc_free(p);
}

static struct answer ask(int kind, int fd, uint64_t len, const char *path) {
    struct ask q;
    struct answer a = {A_GO, 0};
    memset(&q, 0, sizeof q);
    q.kind = kind;
    q.fd = fd;
    q.len = len;
    if (path) strncpy(q.path, path, sizeof q.path - 1);
    yield_();
    pthread_mutex_lock(&lock);
    if (raw(SYS_write, sock, (long)&q, sizeof q, 0, 0, 0) == sizeof q &&
        raw(SYS_read, sock, (long)&a, sizeof a, 0, 0, 0) != sizeof a)
        a.action = A_GO;
    pthread_mutex_unlock(&lock);
    return a;
}

static int mine(const char *p) {
    if (sock < 0 || !p) return 0;
    if (p[0] != '/') return 1;
    size_t n = strlen(dir);
    return (n && !strncmp(p, dir, n)) || !strncmp(p, "/dev/fd/", 8) || !strncmp(p, "/dev/std", 8) ||
           !strncmp(p, "/proc/self/fd/", 14) || !strncmp(p, "/tmp/", 5);
}

static int ours(int fd) { return sock >= 0 && fd >= 0 && fd < 4096 && tracked[fd]; }

#define REAL(n) __typeof__(n) *real = (__typeof__(n) *)dlsym(RTLD_NEXT, #n)
#define FAIL(a)                      \
    do {                             \
        if ((a).action == A_FAIL) {  \
            errno = (int)(a).arg;    \
            return -1;               \
        }                            \
    } while (0)

#define OPENER(name, dirfd_decl, dirfd_use)                       \
    int name(dirfd_decl const char *path, int flags, ...) {       \
        mode_t m = 0;                                             \
        va_list ap;                                               \
        va_start(ap, flags);                                      \
        if (flags & (O_CREAT | 020000000)) m = va_arg(ap, int);   \
        va_end(ap);                                               \
        REAL(name);                                               \
        if (!mine(path)) return real(dirfd_use path, flags, m);   \
        struct answer a = ask(K_OPEN, flags, 0, path);            \
        FAIL(a);                                                  \
        int fd = real(dirfd_use path, flags, m);                  \
        if (fd >= 0 && fd < 4096) tracked[fd] = 1;                \
        return fd;                                                \
    }
#define D1 int dfd,
#define D2 dfd,
#define D0
OPENER(open, D0, D0)
OPENER(open64, D0, D0)
OPENER(openat, D1, D2)
OPENER(openat64, D1, D2)

int close(int fd) {
    REAL(close);
    if (fd >= 3 && fd < 4096) tracked[fd] = 0;
    return real(fd);
}

int dup(int fd) {
    REAL(dup);
    int n = real(fd);
    if (n >= 0 && n < 4096 && fd >= 0 && fd < 4096) tracked[n] = tracked[fd];
    return n;
}

int fcntl64(int fd, int cmd, ...) {
    va_list ap;
    va_start(ap, cmd);
    void *x = va_arg(ap, void *);
    va_end(ap);
    REAL(fcntl64);
    int n = real(fd, cmd, x);
    if ((cmd == F_DUPFD || cmd == F_DUPFD_CLOEXEC) && n >= 0 && n < 4096 && fd >= 0 && fd < 4096)
        tracked[n] = tracked[fd];
    return n;
}
int fcntl(int fd, int cmd, ...) {
    va_list ap;
    va_start(ap, cmd);
    void *x = va_arg(ap, void *);
    va_end(ap);
    REAL(fcntl);
    int n = real(fd, cmd, x);
    if ((cmd == F_DUPFD || cmd == F_DUPFD_CLOEXEC) && n >= 0 && n < 4096 && fd >= 0 && fd < 4096)
        tracked[n] = tracked[fd];
    return n;
}

static size_t cut(struct answer a, size_t n) {
    if (a.action == A_SHORT && n > 1) {
        size_t k = (size_t)a.arg;
        if (k < 1) k = 1;
        if (k < n) return k;
    }
    return n;
}

ssize_t read(int fd, void *b, size_t n) {
    REAL(read);
    if (!ours(fd)) return real(fd, b, n);
    struct answer a = ask(K_READ, fd, n, 0);
    FAIL(a);
    return real(fd, b, cut(a, n));
}
ssize_t pread64(int fd, void *b, size_t n, off64_t o) {
    REAL(pread64);
    if (!ours(fd)) return real(fd, b, n, o);
    struct answer a = ask(K_READ, fd, n, 0);
    FAIL(a);
    return real(fd, b, cut(a, n), o);
}
ssize_t pread(int fd, void *b, size_t n, off_t o) {
    REAL(pread);
    if (!ours(fd)) return real(fd, b, n, o);
    struct answer a = ask(K_READ, fd, n, 0);
    FAIL(a);
    return real(fd, b, cut(a, n), o);
}
ssize_t readv(int fd, const struct iovec *v, int c) {
    REAL(readv);
    if (!ours(fd)) return real(fd, v, c);
    struct answer a = ask(K_READ, fd, c > 0 ? v[0].iov_len : 0, 0);
    FAIL(a);
    if (a.action == A_SHORT && c > 0 && v[0].iov_len > 0)
        return syscall(SYS_read, fd, v[0].iov_base, cut(a, v[0].iov_len));
    return real(fd, v, c);
}

ssize_t write(int fd, const void *b, size_t n) {
    REAL(write);
    if (!ours(fd)) return real(fd, b, n);
    struct answer a = ask(K_WRITE, fd, n, 0);
    FAIL(a);
    return real(fd, b, cut(a, n));
}
ssize_t writev(int fd, const struct iovec *v, int c) {
    REAL(writev);
    if (!ours(fd)) return real(fd, v, c);
    struct answer a = ask(K_WRITE, fd, c > 0 ? v[0].iov_len : 0, 0);
    FAIL(a);
    if (a.action == A_SHORT && c > 0 && v[0].iov_len > 0)
        return syscall(SYS_write, fd, v[0].iov_base, cut(a, v[0].iov_len));
    return real(fd, v, c);
}
/* Refused, as file systems without it do: the caller falls back to read and
 * write, which are simulated. */
ssize_t copy_file_range(int i, off64_t *io, int o, off64_t *oo, size_t n, unsigned f) {
    REAL(copy_file_range);
    if (!ours(i) && !ours(o)) return real(i, io, o, oo, n, f);
    errno = ENOSYS;
    return -1;
}
ssize_t sendfile64(int o, int i, off64_t *oo, size_t n);
ssize_t sendfile64(int o, int i, off64_t *oo, size_t n) {
    if (ours(i) || ours(o)) {
        errno = ENOSYS;
        return -1;
    }
    return syscall(SYS_sendfile, o, i, oo, n);
}
ssize_t splice(int i, off64_t *io, int o, off64_t *oo, size_t n, unsigned f) {
    REAL(splice);
    if (!ours(i) && !ours(o)) return real(i, io, o, oo, n, f);
    errno = EINVAL;
    return -1;
}

off64_t lseek64(int fd, off64_t o, int w) {
    REAL(lseek64);
    if (!ours(fd)) return real(fd, o, w);
    struct answer a = ask(K_SEEK, fd, 0, 0);
    FAIL(a);
    return real(fd, o, w);
}
off_t lseek(int fd, off_t o, int w) {
    REAL(lseek);
    if (!ours(fd)) return real(fd, o, w);
    struct answer a = ask(K_SEEK, fd, 0, 0);
    FAIL(a);
    return real(fd, o, w);
}

static void size(struct answer a, int64_t *n) {
    if (a.action == A_SIZE) {
        /* 0, half, or a little more than there is. */
        *n = a.arg == 0 ? 0 : a.arg == 1 ? *n / 2 : *n + a.arg;
    }
}

int statx(int d, const char *restrict p, int f, unsigned m, struct statx *restrict s) {
    REAL(statx);
    /* The standard library asks with null pointers whether the call exists. */
    const char *volatile vp = p;
    struct statx *volatile vs = s;
    int it = !vp || !vs ? 0 : vp[0] ? mine(vp) : ours(d) && d > 2;
    if (!it) return real(d, p, f, m, s);
    struct answer a = ask(K_STAT, d, 0, p);
    FAIL(a);
    int r = real(d, p, f, m, s);
    if (r == 0 && S_ISREG(s->stx_mode)) {
        int64_t n = (int64_t)s->stx_size;
        size(a, &n);
        s->stx_size = (uint64_t)n;
    }
    return r;
}
#define FSTAT(name, st)                                   \
    int name(int fd, struct st *s) {                      \
        REAL(name);                                       \
        if (!ours(fd) || fd < 3) return real(fd, s);      \
        struct answer a = ask(K_STAT, fd, 0, 0);          \
        FAIL(a);                                          \
        int r = real(fd, s);                              \
        if (r == 0 && S_ISREG(s->st_mode)) {              \
            int64_t n = s->st_size;                       \
            size(a, &n);                                  \
            s->st_size = n;                               \
        }                                                 \
        return r;                                         \
    }
#define STAT(name, st)                                    \
    int name(const char *restrict p, struct st *restrict s) { \
        REAL(name);                                       \
        if (!mine(p)) return real(p, s);                  \
        struct answer a = ask(K_STAT, -1, 0, p);          \
        FAIL(a);                                          \
        int r = real(p, s);                               \
        if (r == 0 && S_ISREG(s->st_mode)) {              \
            int64_t n = s->st_size;                       \
            size(a, &n);                                  \
            s->st_size = n;                               \
        }                                                 \
        return r;                                         \
    }
FSTAT(fstat, stat)
FSTAT(fstat64, stat64)
STAT(stat, stat)
STAT(stat64, stat64)
STAT(lstat, stat)
STAT(lstat64, stat64)

int rename(const char *o, const char *n) {
    REAL(rename);
    if (mine(o)) {
        struct answer a = ask(K_OTHER, -1, 0, o);
        FAIL(a);
    }
    return real(o, n);
}
int unlink(const char *p) {
    REAL(unlink);
    if (mine(p)) {
        struct answer a = ask(K_OTHER, -1, 0, p);
        FAIL(a);
    }
    return real(p);
}
int access(const char *p, int m) {
    REAL(access);
    if (mine(p)) {
        struct answer a = ask(K_OTHER, -1, 0, p);
        FAIL(a);
    }
    return real(p, m);
}
ssize_t readlink(const char *restrict p, char *restrict b, size_t n) {
    REAL(readlink);
    if (mine(p)) {
        struct answer a = ask(K_OTHER, -1, 0, p);
        FAIL(a);
    }
    return real(p, b, n);
}
int mkdir(const char *p, mode_t m) {
    REAL(mkdir);
    if (mine(p)) {
        struct answer a = ask(K_OTHER, -1, 0, p);
        FAIL(a);
    }
    return real(p, m);
}

static uint64_t next(void) {
    uint64_t z = __atomic_add_fetch(&seed, 0x9e3779b97f4a7c15ULL, __ATOMIC_SEQ_CST);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
}
ssize_t getrandom(void *b, size_t n, unsigned f) {
    if (sock < 0) return syscall(SYS_getrandom, b, n, f);
    unsigned char *p = b;
    for (size_t i = 0; i < n; i++) p[i] = (unsigned char)next();
    return (ssize_t)n;
}
int clock_gettime(clockid_t c, struct timespec *t) {
    if (sock < 0) return (int)syscall(SYS_clock_gettime, c, t);
    static uint64_t ticks;
    uint64_t k = __atomic_add_fetch(&ticks, 1000, __ATOMIC_SEQ_CST);
    t->tv_sec = (time_t)(1000000000 + seed % 1000000000);
    t->tv_nsec = (long)(k % 1000000000);
    return 0;
}
pid_t getpid(void) {
    static pid_t p;
    if (sock < 0) return (pid_t)syscall(SYS_getpid);
    if (!p) p = (pid_t)(2 + seed % 60000);
    return p;
}
