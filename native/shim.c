/* libc interposer: the simulator's seam for files and processes.
 *
 * Off (mode 0) it passes everything on.  It only ever acts on calls that concern files below
 * the scratch prefix.
 *   mode 1 (plan):  faults come from a table set through sim_fault(): the k-th call of a class
 *                   fails with an errno, is cut short, or kills the process.  No other process
 *                   is involved; used where one process reads and writes files.
 *   mode 2 (gate):  every call asks the controller (a unix socket) and waits for its verdict,
 *                   so that the controller decides the interleaving of several process trees.
 * Classes: o open, r read, w write, c close, u unlink, n rename, s stat, t truncate/sync, m mkdir,
 *          x start of a shell command, y end of it.
 * Verdicts: C continue, E fail with errno, S go on with at most n bytes, K kill this process,
 *           X do n bytes, then kill this process.
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <sys/un.h>
#include <unistd.h>

static int mode, fakepid, fakeppid, pidowner;
static char prefix[4096], sockpath[200];
static size_t plen;
#define REAL(ret, name, ...) static ret (*f)(__VA_ARGS__); if (!f) f = dlsym(RTLD_NEXT, #name)

static int realpid(void) { return (int)syscall(SYS_getpid); }

/* ---- plan mode ---- */
struct fault { char cls; long k; char verdict; long arg; int persist; int fired; };
static struct fault faults[256];
static int nfaults;
static long count[128], total, shortr, shortw;
static char *logbuf; static size_t loglen, logcap;

void sim_reset(void) { mode = 0; nfaults = 0; memset(count, 0, sizeof count); total = 0; shortr = shortw = 0; loglen = 0; if (logbuf) logbuf[0] = 0; }
void sim_plan(const char *pre) { strncpy(prefix, pre, sizeof prefix - 1); plen = strlen(prefix); mode = 1; }
void sim_off(void) { mode = 0; }
void sim_short(long r, long w) { shortr = r; shortw = w; }
void sim_fault(int cls, long k, int verdict, long arg, int persist)
{ if (nfaults < 256) faults[nfaults++] = (struct fault){(char)cls, k, (char)verdict, arg, persist, 0}; }
int sim_fired(int i) { return i < nfaults ? faults[i].fired : 0; }
long sim_count(int cls) { return count[cls & 127]; }
const char *sim_log(void) { return logbuf ? logbuf : ""; }
void sim_gate(const char *sock, const char *pre, int fp)
{ strncpy(prefix, pre, sizeof prefix - 1); plen = strlen(prefix); strncpy(sockpath, sock, sizeof sockpath - 1); fakepid = fp; pidowner = realpid(); mode = 2; }

static void logf_(const char *fmt, ...)
{
    char b[512]; va_list ap; va_start(ap, fmt); int n = vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    if (n < 0) return; if (n >= (int)sizeof b) n = sizeof b - 1;
    if (loglen + n + 1 > logcap) { if (logcap > (4u << 20)) return; logcap = logcap ? 2 * logcap : 8192; logbuf = realloc(logbuf, logcap); }
    memcpy(logbuf + loglen, b, n + 1); loglen += n;
}

/* ---- gate mode ---- */
static int conn = -1, connowner;
static long rawio(int nr, int fd, void *b, size_t n) { return syscall(nr, fd, b, n); }
static int gconnect(void)
{
    int me = realpid();
    if (conn >= 0 && connowner == me) return conn;
    struct sockaddr_un a = {.sun_family = AF_UNIX}; strncpy(a.sun_path, sockpath, sizeof a.sun_path - 1);
    int s = socket(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0);
    if (s < 0 || connect(s, (struct sockaddr *)&a, sizeof a)) { if (s >= 0) syscall(SYS_close, s); _exit(97); }
    int hi = fcntl(s, F_DUPFD_CLOEXEC, 400); if (hi >= 0) { syscall(SYS_close, s); s = hi; }
    conn = s; connowner = me; return s;
}

static char ask(char cls, const char *path, long n, long *arg)
{
    *arg = 0;
    if (mode == 1) {
        char v = 'C'; long k = ++count[(int)cls]; total++;
        for (int i = 0; i < nfaults; i++)
            if (faults[i].cls == cls && (faults[i].k == k || (faults[i].persist && k > faults[i].k))) { v = faults[i].verdict; *arg = faults[i].arg; faults[i].fired++; break; }
        if (v == 'C') {
            if (cls == 'r' && shortr && n > shortr) { v = 'S'; *arg = shortr; }
            if (cls == 'w' && shortw && n > shortw) { v = 'S'; *arg = shortw; }
        }
        logf_("%c %s %ld %c%ld\n", cls, path, n, v, *arg);
        return v;
    }
    int e = errno, s = gconnect();
    char b[4600]; int len = snprintf(b, sizeof b, "%c\t%ld\t%d\t%s\n", cls, n, pidowner == realpid(), path);
    if (len >= (int)sizeof b) { len = sizeof b - 1; b[len - 1] = '\n'; }
    if (rawio(SYS_write, s, b, len) != len) _exit(98);
    int got = 0;
    while (got < 60) { long r = rawio(SYS_read, s, b + got, 1); if (r == -1 && errno == EINTR) continue; if (r != 1) _exit(99); if (b[got] == '\n') break; got++; }
    b[got] = 0; *arg = got > 1 ? atol(b + 1) : 0; errno = e;
    return b[0];
}
static void die(void) { kill(realpid(), SIGKILL); for (;;) pause(); }

static int inprefix(const char *p) { return plen && strncmp(p, prefix, plen) == 0 && (p[plen] == '/' || !p[plen]); }
static const char *rel(const char *p) { return p[plen] ? p + plen + 1 : "."; }
static int fdpath(int fd, char *out, size_t n)
{
    char l[64]; snprintf(l, sizeof l, "/proc/self/fd/%d", fd);
    long r = syscall(SYS_readlinkat, AT_FDCWD, l, out, n - 1); if (r < 0) return 0; out[r] = 0;
    char *d = strstr(out, " (deleted)"); if (d) *d = 0;
    return 1;
}
static int want(int dirfd, const char *p, char *out, size_t n)
{
    if (!mode || !p) return 0;
    int e = errno; size_t l = 0; out[0] = 0;
    if (p[0] != '/') {
        if (dirfd == AT_FDCWD) { if (syscall(SYS_getcwd, out, n) < 0) { errno = e; return 0; } }
        else if (!fdpath(dirfd, out, n)) { errno = e; return 0; }
        l = strlen(out); if (l + 2 > n) return 0; out[l++] = '/'; out[l] = 0;
        while (p[0] == '.' && p[1] == '/') p += 2;
    }
    if (l + strlen(p) + 1 > n) return 0;
    strcpy(out + l, p); errno = e;
    return inprefix(out);
}
static int wantfd(int fd, char *out, size_t n)
{ if (!mode) return 0; int e = errno; int r = fdpath(fd, out, n) && inprefix(out); errno = e; return r; }

#define SIMPLE(cls, hit, path, n) \
    if (hit) { long arg; char v = ask(cls, rel(path), n, &arg); if (v == 'E') { errno = (int)arg; return -1; } if (v == 'K' || v == 'X') die(); }

static int do_open(int dirfd, const char *path, int flags, mode_t md)
{
    char b[4200];
    SIMPLE('o', want(dirfd, path, b, sizeof b), b, (flags & O_ACCMODE) | ((flags & (O_CREAT | O_TRUNC)) ? 8 : 0));
    return (int)syscall(SYS_openat, dirfd, path, flags | O_LARGEFILE, md);
}
#define VMODE mode_t md = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); md = va_arg(ap, mode_t); va_end(ap); }
int open(const char *path, int flags, ...) { VMODE return do_open(AT_FDCWD, path, flags, md); }
int open64(const char *path, int flags, ...) { VMODE return do_open(AT_FDCWD, path, flags, md); }
int openat(int d, const char *path, int flags, ...) { VMODE return do_open(d, path, flags, md); }
int openat64(int d, const char *path, int flags, ...) { VMODE return do_open(d, path, flags, md); }
int creat(const char *path, mode_t md) { return do_open(AT_FDCWD, path, O_CREAT | O_WRONLY | O_TRUNC, md); }
int creat64(const char *path, mode_t md) { return do_open(AT_FDCWD, path, O_CREAT | O_WRONLY | O_TRUNC, md); }

ssize_t read(int fd, void *buf, size_t n)
{
    REAL(ssize_t, read, int, void *, size_t); char b[4200];
    if (wantfd(fd, b, sizeof b)) {
        long arg; char v = ask('r', rel(b), (long)n, &arg);
        if (v == 'E') { errno = (int)arg; return -1; }
        if (v == 'K' || v == 'X') die();
        if (v == 'S' && arg >= 0 && (size_t)arg < n) n = arg ? arg : 1;
    }
    return f(fd, buf, n);
}
static size_t wlimit(int fd, size_t n, const void *buf, int *fail)
{
    char b[4200]; *fail = 0;
    if (wantfd(fd, b, sizeof b)) {
        long arg; char v = ask('w', rel(b), (long)n, &arg);
        if (v == 'E') { errno = (int)arg; *fail = 1; return 0; }
        if (v == 'K') die();
        if (v == 'X') { if (arg > (long)n) arg = n; if (arg > 0 && buf) { if (syscall(SYS_write, fd, buf, arg) < 0) {} } die(); }
        if (v == 'S' && arg >= 0 && (size_t)arg < n) n = arg ? arg : 1;
    }
    return n;
}
ssize_t write(int fd, const void *buf, size_t n)
{
    REAL(ssize_t, write, int, const void *, size_t); int fail;
    n = wlimit(fd, n, buf, &fail); if (fail) return -1;
    return f(fd, buf, n);
}
ssize_t pwrite64(int fd, const void *buf, size_t n, off64_t off)
{
    REAL(ssize_t, pwrite64, int, const void *, size_t, off64_t); int fail;
    n = wlimit(fd, n, NULL, &fail); if (fail) return -1;
    return f(fd, buf, n, off);
}
ssize_t writev(int fd, const struct iovec *v, int c)
{
    REAL(ssize_t, writev, int, const struct iovec *, int); int fail; size_t n = 0;
    for (int i = 0; i < c; i++) n += v[i].iov_len;
    wlimit(fd, n, NULL, &fail); if (fail) return -1;
    return f(fd, v, c);
}
int close(int fd)
{
    REAL(int, close, int); char b[4200];
    if (mode == 1 && wantfd(fd, b, sizeof b)) {
        long arg; char v = ask('c', rel(b), 0, &arg);
        if (v == 'K' || v == 'X') die();
        if (v == 'E') { f(fd); errno = (int)arg; return -1; }
    }
    return f(fd);
}
int unlink(const char *p) { char b[4200]; SIMPLE('u', want(AT_FDCWD, p, b, sizeof b), b, 0); return (int)syscall(SYS_unlinkat, AT_FDCWD, p, 0); }
int remove(const char *p)
{ REAL(int, remove, const char *); char b[4200]; SIMPLE('u', want(AT_FDCWD, p, b, sizeof b), b, 0); return f(p); }
int unlinkat(int d, const char *p, int fl) { char b[4200]; SIMPLE('u', want(d, p, b, sizeof b), b, fl); return (int)syscall(SYS_unlinkat, d, p, fl); }
static int ren(int d1, const char *p, int d2, const char *q, unsigned fl)
{
    char b[4200], c[4200]; int w1 = want(d1, p, b, sizeof b), w2 = want(d2, q, c, sizeof c);
    SIMPLE('n', w1 || w2, w2 ? c : b, 0);
    return (int)syscall(SYS_renameat2, d1, p, d2, q, fl);
}
int rename(const char *p, const char *q) { return ren(AT_FDCWD, p, AT_FDCWD, q, 0); }
int renameat(int d1, const char *p, int d2, const char *q) { return ren(d1, p, d2, q, 0); }
int renameat2(int d1, const char *p, int d2, const char *q, unsigned fl) { return ren(d1, p, d2, q, fl); }
int link(const char *p, const char *q)
{ REAL(int, link, const char *, const char *); char b[4200]; SIMPLE('n', want(AT_FDCWD, q, b, sizeof b), b, 0); return f(p, q); }
int mkdir(const char *p, mode_t m)
{ REAL(int, mkdir, const char *, mode_t); char b[4200]; SIMPLE('m', want(AT_FDCWD, p, b, sizeof b), b, 0); return f(p, m); }
int rmdir(const char *p)
{ REAL(int, rmdir, const char *); char b[4200]; SIMPLE('u', want(AT_FDCWD, p, b, sizeof b), b, 0); return f(p); }
int ftruncate(int fd, off_t n)
{ REAL(int, ftruncate, int, off_t); char b[4200]; SIMPLE('t', wantfd(fd, b, sizeof b), b, n); return f(fd, n); }
int ftruncate64(int fd, off64_t n)
{ REAL(int, ftruncate64, int, off64_t); char b[4200]; SIMPLE('t', wantfd(fd, b, sizeof b), b, n); return f(fd, n); }
int truncate(const char *p, off_t n)
{ REAL(int, truncate, const char *, off_t); char b[4200]; SIMPLE('t', want(AT_FDCWD, p, b, sizeof b), b, n); return f(p, n); }
int fsync(int fd)
{ REAL(int, fsync, int); char b[4200]; SIMPLE('t', wantfd(fd, b, sizeof b), b, -1); return f(fd); }
int fdatasync(int fd)
{ REAL(int, fdatasync, int); char b[4200]; SIMPLE('t', wantfd(fd, b, sizeof b), b, -1); return f(fd); }

/* looking at a file: only a scheduling point, never a fault */
#define LOOK(d, p) { char b[4200]; if (mode == 2 && want(d, p, b, sizeof b)) { long arg; char v = ask('s', rel(b), 0, &arg); if (v == 'K') die(); } }
int stat(const char *p, struct stat *s) { REAL(int, stat, const char *, struct stat *); LOOK(AT_FDCWD, p) return f(p, s); }
int stat64(const char *p, struct stat64 *s) { REAL(int, stat64, const char *, struct stat64 *); LOOK(AT_FDCWD, p) return f(p, s); }
int lstat(const char *p, struct stat *s) { REAL(int, lstat, const char *, struct stat *); LOOK(AT_FDCWD, p) return f(p, s); }
int lstat64(const char *p, struct stat64 *s) { REAL(int, lstat64, const char *, struct stat64 *); LOOK(AT_FDCWD, p) return f(p, s); }
int fstatat(int d, const char *p, struct stat *s, int fl) { REAL(int, fstatat, int, const char *, struct stat *, int); LOOK(d, p) return f(d, p, s, fl); }
int fstatat64(int d, const char *p, struct stat64 *s, int fl) { REAL(int, fstatat64, int, const char *, struct stat64 *, int); LOOK(d, p) return f(d, p, s, fl); }
int access(const char *p, int m) { REAL(int, access, const char *, int); LOOK(AT_FDCWD, p) return f(p, m); }
int faccessat(int d, const char *p, int m, int fl) { REAL(int, faccessat, int, const char *, int, int); LOOK(d, p) return f(d, p, m, fl); }

int system(const char *cmd)
{
    REAL(int, system, const char *);
    if (mode && cmd) { long arg; char v = ask('x', cmd, 0, &arg); if (v == 'E') { errno = (int)arg; return -1; } if (v == 'K' || v == 'X') die(); }
    int r = f(cmd);
    if (mode && cmd) { int e = errno; long arg; if (ask('y', cmd, r, &arg) == 'K') die(); errno = e; }
    return r;
}
/* ---- clock: every reading is the simulator's ---- */
#include <sys/time.h>
#include <time.h>
static int clk; static long long clk_real, clk_mono, clk_step; static unsigned long long clk_rnd; static int clk_p; static long clk_reads;
void sim_clock(long long start, long long step, unsigned long long seed, int p)
{ clk_real = start; clk_mono = 1000000000LL * (long long)(seed % 100000); clk_step = step; clk_rnd = seed * 2654435761ULL + 1; clk_p = p; clk = 1; }
void sim_clock_off(void) { clk = 0; }
long sim_clock_reads(void) { return clk_reads; }
static void clk_tick(void)
{
    clk_reads++;
    clk_rnd = clk_rnd * 6364136223846793005ULL + 1442695040888963407ULL;
    unsigned r = (unsigned)(clk_rnd >> 33);
    clk_real += clk_step; clk_mono += clk_step;
    if ((int)(r % 1000) < clk_p) {  /* the wall clock is set, forwards or back; the monotonic one leaps when the machine slept */
        long long j = (long long)((clk_rnd >> 20) % 7200000000000ULL);
        if (r & 0x10000) clk_real -= j; else { clk_real += j; if (r & 0x20000) clk_mono += j; }
        if (clk_real < 0) clk_real = 0;
    }
}
int clock_gettime(clockid_t id, struct timespec *t)
{
    if (!clk) return (int)syscall(SYS_clock_gettime, id, t);
    clk_tick();
    long long v = id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE || id == CLOCK_TAI ? clk_real : clk_mono;
    t->tv_sec = v / 1000000000LL; t->tv_nsec = v % 1000000000LL; return 0;
}
int gettimeofday(struct timeval *tv, void *tz)
{
    (void)tz; if (!tv) return 0;
    struct timespec t; clock_gettime(CLOCK_REALTIME, &t); tv->tv_sec = t.tv_sec; tv->tv_usec = t.tv_nsec / 1000; return 0;
}
time_t time(time_t *p)
{ struct timespec t; clock_gettime(CLOCK_REALTIME, &t); if (p) *p = t.tv_sec; return t.tv_sec; }
int clock_nanosleep(clockid_t id, int fl, const struct timespec *q, struct timespec *rem)
{
    if (!clk) { long r = syscall(SYS_clock_nanosleep, id, fl, q, rem); return r < 0 ? errno : 0; }
    long long d = q->tv_sec * 1000000000LL + q->tv_nsec;
    if (fl & TIMER_ABSTIME) d -= id == CLOCK_REALTIME ? clk_real : clk_mono;
    if (d > 0) { clk_real += d; clk_mono += d; }
    return 0;
}
int nanosleep(const struct timespec *q, struct timespec *rem)
{
    if (!clk) return (int)syscall(SYS_nanosleep, q, rem);
    return clock_nanosleep(CLOCK_MONOTONIC, 0, q, rem);
}

void sim_ppid(int p) { fakeppid = p; }
pid_t getppid(void) { return fakeppid && realpid() == pidowner ? fakeppid : (pid_t)syscall(SYS_getppid); }
pid_t getpid(void) { int p = realpid(); return fakepid && p == pidowner ? fakepid : p; }

__attribute__((constructor)) static void init(void)
{
    const char *s = getenv("SIM_SOCK"), *p = getenv("SIM_PREFIX");
    const char *c = getenv("SIM_CLOCK"), *pd = getenv("SIM_PID"); long long a, b; unsigned long long e; int q;
    if (c && sscanf(c, "%lld %lld %llu %d", &a, &b, &e, &q) == 4) sim_clock(a, b, e, q);
    if (pd && *pd) { fakepid = atoi(pd); pidowner = realpid(); }
    if (s && p && *s && *p) { strncpy(sockpath, s, sizeof sockpath - 1); strncpy(prefix, p, sizeof prefix - 1); plen = strlen(prefix); mode = 2; }
}
