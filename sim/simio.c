/* simio: LD_PRELOAD seam between the process under simulation and the kernel.
 *
 * Every file operation on a path below the configured scratch prefix goes
 * through here.  The simulator (in the same process, through ctypes) arms
 * fault rules; each rule names an operation class, a path suffix and the
 * ordinal of the operation at which it fires.  All operations are counted,
 * hashed into a trace digest and optionally logged with their data so that
 * crash states can be rebuilt.  With the simulator off every call goes
 * straight to libc.  Wall clocks are replaced by a simulated clock.
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/file.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/types.h>
#include <time.h>
#include <unistd.h>

#define MAXFD 4096
#define MAXRULES 32
#define MAXPATHS 256
#define PATHLEN 1536

enum { OP_OPEN = 0, OP_READ, OP_WRITE, OP_TRUNC, OP_CLOSE, OP_FSYNC, OP_LSEEK,
       OP_STAT, NOPS };

enum { ACT_ERRNO = 0, ACT_SHORT = 1, ACT_DROP = 2 /* lie: report ok, lose */ ,
       ACT_CALLBACK = 3, ACT_ERRAFTER = 4 /* do it, then report an error */,
    ACT_SIGINT = 5 /* do it, with a pending interrupt */ };

struct rule {
    int used, op, act, err, keep;       /* keep: bytes kept on a short op     */
    long from, count;                   /* fires on matches [from, from+count) */
    long seen, fired;
    int wr;                             /* -1 any, 0 read-only fd, 1 writable  */
    char suffix[128];
};

static struct rule rules[MAXRULES];
static int nrules;
static int enabled, counting;
static char prefix[PATHLEN];
static size_t prefixlen;
static int fdpath[MAXFD];               /* 0 = untracked, else path id + 1 */
static unsigned char fdw[MAXFD];
static char paths[MAXPATHS][PATHLEN];
static int npaths;
static long opcount[NOPS], faultcount[NOPS];
static long totalops, opbudget, quota = -1, quota_hits;
static uint64_t digest = 1469598103934665603ULL;
static int64_t simclock_us = 1000000000LL * 1000000LL, clockstep = 0;
static long clockreads;
static int logging;
static unsigned char *logbuf; static size_t loglen, logcap;
static void (*callback)(int rule, int op);
static int incb;

#define REAL(name) ((__typeof__(&name))real_##name)
static void *real_open, *real_openat, *real_read, *real_pread, *real_write,
    *real_pwrite, *real_ftruncate, *real_close, *real_fsync, *real_fdatasync,
    *real_lseek, *real_time, *real_gettimeofday, *real_clock_gettime;

static void init(void) {
    static int done;
    if (done) return;
    done = 1;
#define L(n) real_##n = dlsym(RTLD_NEXT, #n)
    L(open); L(openat); L(read); L(pread); L(write); L(pwrite); L(ftruncate);
    L(close); L(fsync); L(fdatasync); L(lseek); L(time); L(gettimeofday);
    L(clock_gettime);
#undef L
}
__attribute__((constructor)) static void ctor(void) { init(); }

static void mix(const void *p, size_t n) {
    const unsigned char *c = p;
    while (n--) { digest ^= *c++; digest *= 1099511628211ULL; }
}

static void event(int op, int pid, int64_t a, int64_t b, int64_t r, int f) {
    int64_t v[5] = { op, a, b, r, f };
    if (pid >= 0) mix(paths[pid] + prefixlen, strlen(paths[pid] + prefixlen));
    mix(v, sizeof v);
}

static void logrec(int op, int pid, int64_t off, const void *data, int64_t n) {
    if (!logging) return;
    int64_t h[4] = { op, pid, off, n };
    size_t dn = data ? (size_t)n : 0, need = loglen + sizeof h + dn;
    if (need > logcap) {
        logcap = need * 2 + 65536;
        logbuf = realloc(logbuf, logcap);
    }
    memcpy(logbuf + loglen, h, sizeof h);
    if (dn) memcpy(logbuf + loglen + sizeof h, data, dn);
    loglen = need;
}

static int pathid(const char *p) {
    for (int i = 0; i < npaths; i++) if (!strcmp(paths[i], p)) return i;
    if (npaths == MAXPATHS) return -1;
    snprintf(paths[npaths], PATHLEN, "%s", p);
    return npaths++;
}

static int track(const char *p) {       /* path id if p is below the prefix */
    char buf[PATHLEN * 2];
    if (!enabled || !prefixlen || !p) return -1;
    if (p[0] != '/') {
        char cwd[PATHLEN];
        if (!getcwd(cwd, sizeof cwd)) return -1;
        snprintf(buf, sizeof buf, "%s/%s", cwd, p);
        p = buf;
    }
    if (strncmp(p, prefix, prefixlen)) return -1;
    struct stat st;
    if (!stat(p, &st) && S_ISDIR(st.st_mode)) return -1;
    return pathid(p);
}

static int endswith(const char *s, const char *suf) {
    size_t a = strlen(s), b = strlen(suf);
    return b <= a && !strcmp(s + a - b, suf);
}

/* returns the firing rule or NULL; counts the operation */
static struct rule *step(int op, int pid, int w) {
    if (!counting) return NULL;
    opcount[op]++; totalops++;
    if (opbudget && totalops > opbudget) _exit(77);
    struct rule *hit = NULL;
    for (int i = 0; i < nrules; i++) {
        struct rule *r = &rules[i];
        if (!r->used || r->op != op) continue;
        if (r->wr >= 0 && r->wr != w) continue;
        if (r->suffix[0] && !endswith(paths[pid], r->suffix)) continue;
        long k = r->seen++;
        if (k >= r->from && k < r->from + r->count && !hit) {
            if (r->act == ACT_CALLBACK) {
                r->fired++; faultcount[op]++;
                if (callback && !incb) { incb = 1; callback(i, op); incb = 0; }
                continue;
            }
            if (r->act == ACT_SIGINT) {
                r->fired++; faultcount[op]++;
                raise(SIGINT);
                continue;
            }
            hit = r; r->fired++; faultcount[op]++;
        }
    }
    return hit;
}

static int tracked(int fd) {
    return enabled && fd >= 0 && fd < MAXFD && fdpath[fd] ? fdpath[fd] - 1 : -1;
}

static int do_open(int dirfd, const char *p, int flags, mode_t mode) {
    int pid = dirfd == AT_FDCWD || (p && p[0] == '/') ? track(p) : -1;
    int w = (flags & O_ACCMODE) != O_RDONLY;
    if (pid >= 0) {
        struct rule *r = step(OP_OPEN, pid, w);
        if (r && r->act == ACT_ERRNO) {
            event(OP_OPEN, pid, flags & (O_ACCMODE | O_CREAT | O_TRUNC), 0, -1, r->err);
            errno = r->err; return -1;
        }
    }
    int fd = dirfd == AT_FDCWD
        ? ((int (*)(const char *, int, ...))real_open)(p, flags, mode)
        : ((int (*)(int, const char *, int, ...))real_openat)(dirfd, p, flags, mode);
    if (fd >= 0 && fd < MAXFD) { fdpath[fd] = 0; fdw[fd] = 0; }
    if (pid >= 0) {
        event(OP_OPEN, pid, flags & (O_ACCMODE | O_CREAT | O_TRUNC), 0, fd >= 0, 0);
        if (fd >= 0 && fd < MAXFD) {
            fdpath[fd] = pid + 1; fdw[fd] = w;
            if (w) logrec(OP_OPEN, pid, flags & (O_TRUNC | O_CREAT), NULL, 0);
        }
    }
    return fd;
}

#define GETMODE(flags) mode_t mode = 0; if ((flags) & (O_CREAT | O_TMPFILE)) { \
    va_list ap; va_start(ap, flags); mode = va_arg(ap, mode_t); va_end(ap); }
int open(const char *p, int flags, ...) { GETMODE(flags) init(); return do_open(AT_FDCWD, p, flags, mode); }
int open64(const char *p, int flags, ...) { GETMODE(flags) init(); return do_open(AT_FDCWD, p, flags, mode); }
int openat(int d, const char *p, int flags, ...) { GETMODE(flags) init(); return do_open(d, p, flags, mode); }
int openat64(int d, const char *p, int flags, ...) { GETMODE(flags) init(); return do_open(d, p, flags, mode); }
int creat(const char *p, mode_t m) { init(); return do_open(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m); }

typedef ssize_t (*read_t)(int, void *, size_t);
typedef ssize_t (*pread_t)(int, void *, size_t, off_t);
typedef ssize_t (*write_t)(int, const void *, size_t);
typedef ssize_t (*pwrite_t)(int, const void *, size_t, off_t);
typedef off_t (*lseek_t)(int, off_t, int);

static ssize_t rd(int fd, void *b, size_t n, int64_t off) {
    int pid = tracked(fd);
    struct rule *r = pid >= 0 ? step(OP_READ, pid, fdw[fd]) : NULL;
    size_t want = n;
    if (r) {
        if (r->act == ACT_ERRNO) {
            event(OP_READ, pid, off, n, -1, r->err);
            errno = r->err; return -1;
        }
        if (r->act == ACT_SHORT && n > 1) {
            want = r->keep > 0 && (size_t)r->keep < n ? (size_t)r->keep : 1;
        }
    }
    ssize_t k = off < 0 ? ((read_t)real_read)(fd, b, want)
                        : ((pread_t)real_pread)(fd, b, want, off);
    if (pid >= 0) event(OP_READ, pid, off, n, k, r != NULL);
    return k;
}

static ssize_t wr(int fd, const void *b, size_t n, int64_t off) {
    int pid = tracked(fd);
    struct rule *r = pid >= 0 ? step(OP_WRITE, pid, 1) : NULL;
    size_t want = n;
    if (r) {
        if (r->act == ACT_ERRNO) {
            event(OP_WRITE, pid, off, n, -1, r->err);
            errno = r->err; return -1;
        }
        if (r->act == ACT_SHORT && n > 1)
            want = r->keep > 0 && (size_t)r->keep < n ? (size_t)r->keep : 1;
    }
    int64_t pos = off;
    if (pid >= 0) {
        if (pos < 0) {
            int fl = fcntl(fd, F_GETFL);
            pos = ((lseek_t)real_lseek)(fd, 0, (fl & O_APPEND) ? SEEK_END : SEEK_CUR);
        }
        if (counting && quota >= 0 && pos + (int64_t)want > quota) {
            quota_hits++; faultcount[OP_WRITE]++;
            if (pos >= quota) {
                event(OP_WRITE, pid, off, n, -1, ENOSPC);
                errno = ENOSPC; return -1;
            }
            want = quota - pos;
        }
    }
    ssize_t k = off < 0 ? ((write_t)real_write)(fd, b, want)
                        : ((pwrite_t)real_pwrite)(fd, b, want, off);
    if (pid >= 0) {
        event(OP_WRITE, pid, off, n, k, r != NULL);
        if (counting) mix(b, n < 64 ? n : 64);
        if (k > 0) logrec(OP_WRITE, pid, pos, b, k);
    }
    if (r && r->act == ACT_ERRAFTER) { errno = r->err; return -1; }
    return k;
}

ssize_t read(int fd, void *b, size_t n) { init(); return rd(fd, b, n, -1); }
ssize_t pread(int fd, void *b, size_t n, off_t o) { init(); return rd(fd, b, n, o); }
ssize_t pread64(int fd, void *b, size_t n, off64_t o) { init(); return rd(fd, b, n, o); }
ssize_t write(int fd, const void *b, size_t n) { init(); return wr(fd, b, n, -1); }
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { init(); return wr(fd, b, n, o); }
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) { init(); return wr(fd, b, n, o); }

static int dotrunc(int fd, int64_t len) {
    int pid = tracked(fd);
    struct rule *r = pid >= 0 ? step(OP_TRUNC, pid, 1) : NULL;
    if (r && r->act == ACT_ERRNO) {
        event(OP_TRUNC, pid, len, 0, -1, r->err);
        errno = r->err; return -1;
    }
    int k = ((int (*)(int, off_t))real_ftruncate)(fd, len);
    if (pid >= 0) {
        event(OP_TRUNC, pid, len, 0, k, 0);
        if (!k) logrec(OP_TRUNC, pid, len, NULL, 0);
    }
    return k;
}
int ftruncate(int fd, off_t len) { init(); return dotrunc(fd, len); }
int ftruncate64(int fd, off64_t len) { init(); return dotrunc(fd, len); }

int close(int fd) {
    init();
    int pid = tracked(fd);
    struct rule *r = NULL;
    if (pid >= 0) r = step(OP_CLOSE, pid, fdw[fd]);
    int w = pid >= 0 ? fdw[fd] : 0;
    if (fd >= 0 && fd < MAXFD) fdpath[fd] = 0;
    int k = ((int (*)(int))real_close)(fd);
    if (pid >= 0) {
        event(OP_CLOSE, pid, w, 0, k, r ? r->err : 0);
        if (w) logrec(OP_CLOSE, pid, 0, NULL, 0);
    }
    if (r && r->act == ACT_ERRNO) { errno = r->err; return -1; }
    return k;
}

static int dosync(int fd, int (*f)(int)) {
    int pid = tracked(fd);
    struct rule *r = pid >= 0 ? step(OP_FSYNC, pid, 1) : NULL;
    if (pid >= 0) event(OP_FSYNC, pid, 0, 0, 0, r != NULL);
    if (r && r->act == ACT_ERRNO) { errno = r->err; return -1; }
    return f(fd);
}
int fsync(int fd) { init(); return dosync(fd, (int (*)(int))real_fsync); }
int fdatasync(int fd) { init(); return dosync(fd, (int (*)(int))real_fdatasync); }

off_t lseek(int fd, off_t o, int wh) {
    init();
    int pid = tracked(fd);
    off_t k = ((lseek_t)real_lseek)(fd, o, wh);
    if (pid >= 0 && counting) { opcount[OP_LSEEK]++; totalops++;
        if (opbudget && totalops > opbudget) _exit(77); }
    return k;
}
off64_t lseek64(int fd, off64_t o, int wh) { return lseek(fd, o, wh); }

/* simulated clock */
static int64_t now_us(void) { clockreads++; simclock_us += clockstep; return simclock_us; }
time_t time(time_t *t) {
    init();
    if (!enabled) return ((time_t (*)(time_t *))real_time)(t);
    time_t v = now_us() / 1000000;
    if (t) *t = v;
    return v;
}
int gettimeofday(struct timeval *restrict tv, void *restrict tz) {
    init();
    if (!enabled) return ((int (*)(struct timeval *, void *))real_gettimeofday)(tv, tz);
    int64_t u = now_us();
    { tv->tv_sec = u / 1000000; tv->tv_usec = u % 1000000; }
    return 0;
}
int clock_gettime(clockid_t c, struct timespec *ts) {
    init();
    if (!enabled || c != CLOCK_REALTIME)
        return ((int (*)(clockid_t, struct timespec *))real_clock_gettime)(c, ts);
    int64_t u = now_us();
    ts->tv_sec = u / 1000000; ts->tv_nsec = (u % 1000000) * 1000;
    return 0;
}

/* ---- control interface (ctypes) ---- */
void sim_enable(const char *pfx) {
    snprintf(prefix, sizeof prefix, "%s", pfx); prefixlen = strlen(prefix);
    enabled = 1; counting = 1; nrules = 0; npaths = 0; totalops = 0;
    digest = 1469598103934665603ULL; quota = -1; quota_hits = 0; loglen = 0; logging = 0;
    memset(opcount, 0, sizeof opcount); memset(faultcount, 0, sizeof faultcount);
    memset(fdpath, 0, sizeof fdpath);
    simclock_us = 1000000000LL * 1000000LL; clockstep = 0; clockreads = 0;
}
void sim_disable(void) { enabled = 0; counting = 0; nrules = 0; }
void sim_counting(int on) { counting = on; }
void sim_budget(long n) { opbudget = n; }
void sim_quota(long n) { quota = n; }
void sim_clock(int64_t us, int64_t stepus) { simclock_us = us; clockstep = stepus; }
int64_t sim_now(void) { return simclock_us; }
long sim_clockreads(void) { return clockreads; }
int sim_rule(int op, const char *suffix, int wrf, long from, long count, int act, int err, int keep) {
    if (nrules == MAXRULES) return -1;
    struct rule *r = &rules[nrules];
    memset(r, 0, sizeof *r);
    r->used = 1; r->op = op; r->act = act; r->err = err; r->keep = keep;
    r->from = from; r->count = count; r->wr = wrf;
    snprintf(r->suffix, sizeof r->suffix, "%s", suffix ? suffix : "");
    return nrules++;
}
void sim_clear_rules(void) { nrules = 0; quota = -1; }
long sim_rule_fired(int i) { return i < nrules ? rules[i].fired : 0; }
long sim_rule_seen(int i) { return i < nrules ? rules[i].seen : 0; }
long sim_opcount(int op) { return opcount[op]; }
long sim_faultcount(int op) { return faultcount[op]; }
long sim_quota_hits(void) { return quota_hits; }
long sim_totalops(void) { return totalops; }
uint64_t sim_digest(void) { return digest; }
void sim_mix(const char *p, long n) { mix(p, n); }
void sim_log(int on) { logging = on; loglen = 0; }
void sim_logpause(int on) { logging = on; }
long sim_loglen(void) { return loglen; }
const unsigned char *sim_logbuf(void) { return logbuf; }
const char *sim_path(int i) { return i < npaths ? paths[i] : ""; }
void sim_callback(void (*cb)(int, int)) { callback = cb; }
int sim_openfds(int *out, int max) {
    int n = 0;
    for (int i = 0; i < MAXFD && n < max; i++) if (fdpath[i]) out[n++] = i;
    return n;
}
const char *sim_fdpath(int fd) { return fd >= 0 && fd < MAXFD && fdpath[fd] ? paths[fdpath[fd]-1] : ""; }
