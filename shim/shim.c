// Fault-injecting libc layer for one simulated process (LD_PRELOAD).
//
// Environment:
//   GRIBSIM_IN    path (or path prefix when it ends in '/') of the input file(s)          class I
//   GRIBSIM_DIR   prefix of files that are opened for writing                              class O
//   GRIBSIM_LOG   shared log file (counters, digest, trace)
//   GRIBSIM_PLAN  blank-separated directives; class is I, O or S (standard output)
//       d<class>:<seed>:<short permille>:<interrupt permille>   legal delivery: short and interrupted transfers
//       f<class><op>:<index>:<errno, 0 = transfer of 0 octets>:<times, 0 = for ever>   op: o r w s
//       b<class>:<octets>                                       room on the device, then ENOSPC
//       r:<seed>                                                answers of getrandom
//       t:<rows>:<mode>:<seed>:<octets>                         standard output is a terminal of so many rows; the pager
//           that the program starts is simulated (seeded reads); mode 1: fork fails, 2: the pager cannot be executed,
//           3: the user leaves it after so many octets
//   GRIBSIM_PROG  name of the program to act on (any, if not set)
//   GRIBSIM_CPU   CPU seconds before the process is ended
//
// Everything is a function of the plan and of the sequence of calls of the program.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <pthread.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/ioctl.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <unistd.h>

enum { CI, CO, CS, NC };
enum { OO, OR_, OW, OS, NO_ };
#define MAXFD 1024
#define TRACEMAX 60000

struct log {
    uint64_t magic;
    uint64_t calls[NC][NO_];
    uint64_t errs[NC][NO_];   // injected errors
    uint64_t shorts[NC];
    uint64_t intrs[NC];
    uint64_t zero[NC];
    uint64_t nospace[NC];
    uint64_t bytes[NC][2];    // read, written
    uint64_t digest;
    uint64_t randoms;
    uint64_t budget;          // call budget exhausted
    uint64_t pagers;          // simulated pagers started
    uint64_t child;           // end of the process that prints: 1000 + exit status or 2000 + signal
    uint64_t trace_len;
    char trace[TRACEMAX];
};

struct fault { int cls, op; uint64_t idx; int err; uint64_t times; };

static struct log dummy, *L = &dummy;
static char in_path[4096], out_dir[4096];
static size_t in_len, out_len;
static signed char fdc[MAXFD]; // class + 1
static struct fault F[64];
static int nf;
static struct { int on; uint64_t s; unsigned ps, pi; int streak; } D[NC];
static struct { int on; uint64_t left; } B[NC];
static int rnd_on;
static uint64_t rnd;
static int tracing, ready;
static struct { int on, rows, mode; uint64_t seed, quit; pid_t child; } T;
static uint64_t total;
static pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER;

static ssize_t (*r_read)(int, void *, size_t);
static ssize_t (*r_write)(int, const void *, size_t);
static ssize_t (*r_writev)(int, const struct iovec *, int);
static ssize_t (*r_readv)(int, const struct iovec *, int);
static ssize_t (*r_pread)(int, void *, size_t, off_t);
static ssize_t (*r_pwrite)(int, const void *, size_t, off_t);
static off_t (*r_lseek)(int, off_t, int);
static int (*r_close)(int);

static uint64_t next(uint64_t *s) {
    uint64_t z = (*s += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}
static void mixin(uint64_t v) {
    uint64_t s = L->digest ^ v;
    L->digest = next(&s);
}
static void note(int c, int op, long n, long ret, int err) {
    mixin((uint64_t)c << 40 ^ (uint64_t)op << 32 ^ (uint64_t)err << 20);
    mixin((uint64_t)ret);
    if (!tracing || L->trace_len > TRACEMAX - 200) return;
    int k = snprintf(L->trace + L->trace_len, 200, "%s %s(%ld) -> %ld%s%s\n", c == CI ? "input" : c == CO ? "output" : "stdout",
        op == OO ? "open" : op == OR_ ? "read" : op == OW ? "write" : "seek", n, ret, err ? " " : "", err ? strerrorname_np(err) : "");
    if (k > 0) L->trace_len += k;
}

static void resolve(void) {
    if (r_read) return;
    r_write = dlsym(RTLD_NEXT, "write");
    r_writev = dlsym(RTLD_NEXT, "writev");
    r_readv = dlsym(RTLD_NEXT, "readv");
    r_pread = dlsym(RTLD_NEXT, "pread64");
    r_pwrite = dlsym(RTLD_NEXT, "pwrite64");
    r_lseek = dlsym(RTLD_NEXT, "lseek64");
    r_close = dlsym(RTLD_NEXT, "close");
    r_read = dlsym(RTLD_NEXT, "read");
}

static int cls_of_char(char c) { return c == 'I' ? CI : c == 'O' ? CO : c == 'S' ? CS : -1; }

__attribute__((constructor)) static void init(void) {
    resolve();
    const char *e;
    // programs that the simulated one starts (a linker, say) are left alone
    if ((e = getenv("GRIBSIM_PROG")) && strcmp(e, program_invocation_short_name) != 0) return;
    if ((e = getenv("GRIBSIM_IN"))) { strncpy(in_path, e, sizeof in_path - 1); in_len = strlen(in_path); }
    if ((e = getenv("GRIBSIM_DIR"))) { strncpy(out_dir, e, sizeof out_dir - 1); out_len = strlen(out_dir); }
    tracing = getenv("GRIBSIM_TRACE") != NULL;
    if ((e = getenv("GRIBSIM_CPU"))) {
        struct rlimit rl = { (rlim_t)atoi(e), (rlim_t)atoi(e) + 2 };
        setrlimit(RLIMIT_CPU, &rl);
    }
    struct rlimit z = { 0, 0 };
    setrlimit(RLIMIT_CORE, &z);
    if ((e = getenv("GRIBSIM_LOG"))) {
        int fd = (int)syscall(SYS_openat, AT_FDCWD, e, O_RDWR | O_CLOEXEC, 0);
        if (fd >= 0) {
            void *p = mmap(NULL, sizeof(struct log), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
            if (p != MAP_FAILED) L = p;
            syscall(SYS_close, fd);
        }
    }
    L->magic = 0x67726962;
    if ((e = getenv("GRIBSIM_PLAN"))) {
        char *dup = strdup(e), *sv = NULL;
        for (char *t = strtok_r(dup, " ", &sv); t; t = strtok_r(NULL, " ", &sv)) {
            unsigned long long a = 0, b = 0, c = 0;
            int k = t[0] ? cls_of_char(t[1]) : -1;
            if (t[0] == 'd' && k >= 0 && sscanf(t + 2, ":%llu:%llu:%llu", &a, &b, &c) == 3) {
                D[k].on = 1; D[k].s = a; D[k].ps = (unsigned)b; D[k].pi = (unsigned)c;
            } else if (t[0] == 'f' && k >= 0 && nf < 64 && sscanf(t + 3, ":%llu:%llu:%llu", &a, &b, &c) == 3) {
                int op = t[2] == 'o' ? OO : t[2] == 'r' ? OR_ : t[2] == 'w' ? OW : OS;
                F[nf++] = (struct fault){ k, op, a, (int)b, c };
            } else if (t[0] == 'b' && k >= 0 && sscanf(t + 2, ":%llu", &a) == 1) {
                B[k].on = 1; B[k].left = a;
            } else if (t[0] == 't') {
                int rows = 0, mode = 0;
                if (sscanf(t + 1, ":%d:%d:%llu:%llu", &rows, &mode, &a, &b) == 4) {
                    T.on = 1; T.rows = rows; T.mode = mode; T.seed = a; T.quit = b;
                }
            } else if (t[0] == 'r' && sscanf(t + 1, ":%llu", &a) == 1) {
                rnd_on = 1; rnd = a;
            }
        }
        free(dup);
    }
    fdc[1] = CS + 1;
    ready = 1;
}

static int cls(int fd) { return ready && fd >= 0 && fd < MAXFD ? fdc[fd] - 1 : -1; }

// decides about one call; returns 1 when *ret is the answer. *n may be reduced.
static int decide(int c, int op, size_t *n, long *ret) {
    uint64_t k = L->calls[c][op]++;
    if (++total > 4000000) { L->budget = 1; _exit(98); }
    for (int i = 0; i < nf; i++) {
        if (F[i].cls == c && F[i].op == op && k >= F[i].idx && (F[i].times == 0 || k - F[i].idx < F[i].times)) {
            if (F[i].err == 0) { L->zero[c]++; *ret = 0; return 1; }
            if (F[i].err == EINTR) L->intrs[c]++; else L->errs[c][op]++;
            errno = F[i].err; *ret = -1; return 1;
        }
    }
    if ((op == OR_ || op == OW) && D[c].on) {
        uint64_t x = next(&D[c].s);
        if (x % 1000 < D[c].pi && D[c].streak < 3) { D[c].streak++; L->intrs[c]++; errno = EINTR; *ret = -1; return 1; }
        D[c].streak = 0;
        if ((x >> 20) % 1000 < D[c].ps && *n > 1) {
            uint64_t y = next(&D[c].s);
            size_t m = (y & 3) == 0 ? 1 : (y & 3) == 1 ? 1 + (y >> 8) % (*n < 16 ? *n : 16) : 1 + (y >> 8) % *n;
            if (m < *n) { *n = m; L->shorts[c]++; }
        }
    }
    if (op == OW && B[c].on) {
        if (*n > 0 && B[c].left == 0) { L->nospace[c]++; errno = ENOSPC; *ret = -1; return 1; }
        if (*n > B[c].left) { *n = (size_t)B[c].left; L->nospace[c]++; }
    }
    return 0;
}
static void after(int c, int op, size_t asked, long ret) {
    int e = ret < 0 ? errno : 0;
    if (ret > 0) {
        if (op == OR_) L->bytes[c][0] += (uint64_t)ret;
        if (op == OW) { L->bytes[c][1] += (uint64_t)ret; if (B[c].on) B[c].left -= (uint64_t)ret < B[c].left ? (uint64_t)ret : B[c].left; }
    }
    note(c, op, (long)asked, ret, e);
    if (ret < 0) errno = e;
}
#define WRAP(op, asked, call) do { \
        pthread_mutex_lock(&mu); \
        size_t n_ = (asked); long ret_ = 0; \
        if (!decide(c, op, &n_, &ret_)) { ret_ = (long)(call); } \
        after(c, op, (asked), ret_); \
        int e_ = errno; pthread_mutex_unlock(&mu); errno = e_; \
        return ret_; } while (0)

ssize_t read(int fd, void *buf, size_t n) {
    resolve();
    int c = cls(fd);
    if (c < 0) return r_read(fd, buf, n);
    WRAP(OR_, n, r_read(fd, buf, n_));
}
ssize_t pread64(int fd, void *buf, size_t n, off_t o) {
    resolve();
    int c = cls(fd);
    if (c < 0) return r_pread(fd, buf, n, o);
    WRAP(OR_, n, r_pread(fd, buf, n_, o));
}
ssize_t pread(int fd, void *buf, size_t n, off_t o) { return pread64(fd, buf, n, o); }
ssize_t write(int fd, const void *buf, size_t n) {
    resolve();
    int c = cls(fd);
    if (c < 0) return r_write(fd, buf, n);
    WRAP(OW, n, r_write(fd, buf, n_));
}
ssize_t pwrite64(int fd, const void *buf, size_t n, off_t o) {
    resolve();
    int c = cls(fd);
    if (c < 0) return r_pwrite(fd, buf, n, o);
    WRAP(OW, n, r_pwrite(fd, buf, n_, o));
}
ssize_t pwrite(int fd, const void *buf, size_t n, off_t o) { return pwrite64(fd, buf, n, o); }

static size_t iovlen(const struct iovec *v, int k) {
    size_t s = 0;
    for (int i = 0; i < k; i++) s += v[i].iov_len;
    return s;
}
// at most n octets of the vector
static int clip(const struct iovec *v, int k, size_t n, struct iovec *o) {
    int m = 0;
    for (int i = 0; i < k && m < 64; i++) {
        size_t l = v[i].iov_len < n ? v[i].iov_len : n;
        o[m].iov_base = v[i].iov_base; o[m++].iov_len = l;
        n -= l;
        if (n == 0) break;
    }
    return m;
}
ssize_t writev(int fd, const struct iovec *v, int k) {
    resolve();
    int c = cls(fd);
    if (c < 0) return r_writev(fd, v, k);
    struct iovec o[64];
    size_t s = iovlen(v, k);
    WRAP(OW, s, r_writev(fd, o, clip(v, k, n_, o)));
}
ssize_t readv(int fd, const struct iovec *v, int k) {
    resolve();
    int c = cls(fd);
    if (c < 0) return r_readv(fd, v, k);
    struct iovec o[64];
    size_t s = iovlen(v, k);
    WRAP(OR_, s, r_readv(fd, o, clip(v, k, n_, o)));
}
off_t lseek64(int fd, off_t o, int w) {
    resolve();
    int c = cls(fd);
    if (c < 0) return r_lseek(fd, o, w);
    WRAP(OS, (size_t)o, r_lseek(fd, o, w));
}
off_t lseek(int fd, off_t o, int w) { return lseek64(fd, o, w); }

static int do_open(int dir, const char *path, int flags, mode_t mode) {
    int c = -1;
    if (ready && path) {
        if (in_len && (in_path[in_len - 1] == '/' ? strncmp(path, in_path, in_len) == 0 : strcmp(path, in_path) == 0)) c = CI;
        else if (out_len && strncmp(path, out_dir, out_len) == 0 && (flags & O_ACCMODE) != O_RDONLY) c = CO;
    }
    if (c >= 0) {
        pthread_mutex_lock(&mu);
        size_t n = 0; long ret = 0;
        if (!decide(c, OO, &n, &ret)) ret = syscall(SYS_openat, dir, path, flags, mode);
        int e = errno;
        note(c, OO, 0, ret < 0 ? ret : 0, ret < 0 ? e : 0);
        if (ret >= 0 && ret < MAXFD) fdc[ret] = (signed char)(c + 1);
        pthread_mutex_unlock(&mu);
        errno = e;
        return (int)ret;
    }
    return (int)syscall(SYS_openat, dir, path, flags, mode);
}
#define MODE() mode_t m = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); m = va_arg(ap, mode_t); va_end(ap); }
int open(const char *p, int flags, ...) { MODE(); return do_open(AT_FDCWD, p, flags, m); }
int open64(const char *p, int flags, ...) { MODE(); return do_open(AT_FDCWD, p, flags | O_LARGEFILE, m); }
int openat(int d, const char *p, int flags, ...) { MODE(); return do_open(d, p, flags, m); }
int openat64(int d, const char *p, int flags, ...) { MODE(); return do_open(d, p, flags | O_LARGEFILE, m); }

int close(int fd) {
    resolve();
    if (ready && fd >= 0 && fd < MAXFD && fd != 1) fdc[fd] = 0;
    return r_close(fd);
}
static int dupped(int from, int to) {
    if (to >= 0 && to < MAXFD && from >= 0 && from < MAXFD) fdc[to] = fdc[from];
    return to;
}
int dup(int fd) { return dupped(fd, (int)syscall(SYS_dup, fd)); }
int dup2(int a, int b) { return dupped(a, (int)(a == b ? syscall(SYS_fcntl, a, F_GETFD) < 0 ? -1 : b : syscall(SYS_dup3, a, b, 0))); }
int dup3(int a, int b, int f) { return dupped(a, (int)syscall(SYS_dup3, a, b, f)); }
static int do_fcntl(int fd, int cmd, void *arg) {
    int r = (int)syscall(SYS_fcntl, fd, cmd, arg);
    return cmd == F_DUPFD || cmd == F_DUPFD_CLOEXEC ? dupped(fd, r) : r;
}
int fcntl(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); void *a = va_arg(ap, void *); va_end(ap); return do_fcntl(fd, cmd, a); }
int fcntl64(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); void *a = va_arg(ap, void *); va_end(ap); return do_fcntl(fd, cmd, a); }

// transfers inside the kernel cannot be split or failed here: the callers fall back to read and write
ssize_t copy_file_range(int a, off_t *x, int b, off_t *y, size_t n, unsigned f) {
    if (cls(a) >= 0 || cls(b) >= 0) { errno = ENOSYS; return -1; }
    return syscall(SYS_copy_file_range, a, x, b, y, n, f);
}
ssize_t sendfile64(int o, int i, off_t *x, size_t n) {
    if (cls(o) >= 0 || cls(i) >= 0) { errno = ENOSYS; return -1; }
    return syscall(SYS_sendfile, o, i, x, n);
}
ssize_t splice(int a, off_t *x, int b, off_t *y, size_t n, unsigned f) {
    if (cls(a) >= 0 || cls(b) >= 0) { errno = EINVAL; return -1; }
    return syscall(SYS_splice, a, x, b, y, n, f);
}

ssize_t getrandom(void *buf, size_t n, unsigned flags) {
    // one sequence per thread, so that the answers do not depend on the order in which threads ask
    static __thread uint64_t mine;
    static __thread int begun;
    if (!rnd_on) return syscall(SYS_getrandom, buf, n, flags);
    if (!begun) { begun = 1; mine = rnd; }
    unsigned char *p = buf;
    for (size_t i = 0; i < n; i++) p[i] = (unsigned char)(next(&mine) >> 32);
    pthread_mutex_lock(&mu);
    L->randoms++;
    pthread_mutex_unlock(&mu);
    return (ssize_t)n;
}
int getentropy(void *buf, size_t n) { return getrandom(buf, n, 0) == (ssize_t)n ? 0 : -1; }

// ---- the terminal and its pager
static int term(int fd) { return ready && T.on && fd == 1 && fdc[1] == CS + 1; }
int isatty(int fd) {
    if (term(fd)) return 1;
    struct termios_ { char b[256]; } t;
    return syscall(SYS_ioctl, fd, TCGETS, &t) == 0;
}
int ioctl(int fd, unsigned long req, ...) {
    va_list ap;
    va_start(ap, req);
    void *a = va_arg(ap, void *);
    va_end(ap);
    if (req == TIOCGWINSZ && term(fd)) {
        struct winsize *w = a;
        memset(w, 0, sizeof *w);
        w->ws_row = (unsigned short)T.rows;
        w->ws_col = 79;
        return 0;
    }
    return (int)syscall(SYS_ioctl, fd, req, a);
}
static int do_pipe(int fd[2], int flags) {
    int r = (int)syscall(SYS_pipe2, fd, flags);
    // what the program prints into the pager is under the plan for standard output
    if (r == 0 && ready && T.on && fd[1] < MAXFD) fdc[fd[1]] = CS + 1;
    return r;
}
int pipe(int fd[2]) { return do_pipe(fd, 0); }
int pipe2(int fd[2], int flags) { return do_pipe(fd, flags); }
pid_t fork(void) {
    static pid_t (*r_fork)(void);
    if (!r_fork) r_fork = dlsym(RTLD_NEXT, "fork");
    if (!(ready && T.on)) return r_fork();
    if (T.mode == 1) { errno = EAGAIN; return -1; }
    pid_t p = r_fork();
    if (p == 0 && T.mode != 0) L = &dummy; // how far it gets depends on when the pipe breaks
    if (p == 0) T.on = 0;
    if (p > 0) T.child = p;
    return p;
}
static void reap(void) {
    int st = 0;
    // a program that ends closes everything it has, also what it was handed without knowing
    for (int fd = 0; fd < MAXFD; fd++)
        if (fd != 1 && fd != 2) syscall(SYS_close, fd);
    while (T.child > 0 && waitpid(T.child, &st, 0) < 0 && errno == EINTR) {}
    T.child = 0;
    if (T.mode == 0) L->child = WIFEXITED(st) ? 1000 + (uint64_t)WEXITSTATUS(st) : 2000 + (uint64_t)WTERMSIG(st);
}
__attribute__((destructor)) static void leave(void) {
    if (T.child > 0) reap();
}
static int pager(void) {
    L->pagers++;
    if (T.mode == 2) { errno = ENOENT; return -1; }
    static char buf[1 << 17];
    uint64_t seen = 0;
    for (;;) {
        uint64_t y = next(&T.seed);
        size_t n = y % 4 == 0 ? 1 + (y >> 8) % 80 : y % 4 == 1 ? 4096 : 1 + (y >> 8) % sizeof buf;
        if (T.mode == 3) {
            if (seen >= T.quit) break;
            if (n > T.quit - seen) n = (size_t)(T.quit - seen);
        }
        long r = syscall(SYS_read, 0, buf, n);
        if (r <= 0) break;
        seen += (uint64_t)r;
        for (long k = 0; k < r;) {
            long w = syscall(SYS_write, 1, buf + k, (size_t)(r - k));
            if (w <= 0) _exit(97);
            k += w;
        }
    }
    reap();
    _exit(0);
}
int execvp(const char *f, char *const v[]) {
    if (ready && T.child > 0) return pager();
    int (*x)(const char *, char *const[]) = (int (*)(const char *, char *const[]))dlsym(RTLD_NEXT, "execvp");
    return x(f, v);
}
