/* Preloaded into the command line tool: the file system, the output streams, entropy and the clock
 * behave as the simulator says.  Files live in a scratch directory; every call that concerns it,
 * and every write to an output stream, is one operation with a number, at which a fault of the
 * plan may happen.  Nothing outside of the scratch directory can be changed. */
#define _GNU_SOURCE
#include "simfs.h"
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/statfs.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

static sf_t *S;
static size_t root_len;
#define MAXFD 1024
static int fd_path[MAXFD];      /* index + 1 of the path, 0: not a file of the simulation */
static char fd_append[MAXFD];
static uint64_t irr, ent;
static int eintr_run;
static int lock_;
static uint64_t ticks;

static void lk(void) { while (__atomic_exchange_n(&lock_, 1, __ATOMIC_ACQUIRE)) ; }
static void ulk(void) { __atomic_store_n(&lock_, 0, __ATOMIC_RELEASE); }

static uint64_t rnd(uint64_t *s)
{
    uint64_t z = (*s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}

static long raw6(long n, long a, long b, long c, long d, long e, long f)
{
    long ret;
    register long r10 __asm__("r10") = d;
    register long r8 __asm__("r8") = e;
    register long r9 __asm__("r9") = f;
    __asm__ volatile("syscall" : "=a"(ret) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9)
                     : "rcx", "r11", "memory");
    return ret;
}
#define RAW(n, ...) RAW_(n, ##__VA_ARGS__, 0, 0, 0, 0, 0, 0)
#define RAW_(n, a, b, c, d, e, f, ...) raw6(n, (long)(a), (long)(b), (long)(c), (long)(d), (long)(e), (long)(f))

static long ret(long r)
{
    if (r < 0 && r > -4096) {
        errno = (int)-r;
        return -1;
    }
    return r;
}

__attribute__((constructor)) static void init(void)
{
    const char *p = getenv("SIMFS");
    if (!p)
        return;
    int fd = (int)RAW(SYS_openat, AT_FDCWD, p, O_RDWR, 0);
    if (fd < 0)
        _exit(98);
    sf_t *s = mmap(0, sizeof *s, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    RAW(SYS_close, fd);
    if (s == MAP_FAILED)
        _exit(98);
    root_len = strlen(s->root);
    irr = s->irr_seed;
    ent = s->hash_seed ^ 0x5555AAAA5555AAAAull;
    S = s;
}

static void end(int how)
{
    S->killed = (uint32_t)how;
    if (how == 1) {
        raw6(SYS_kill, raw6(SYS_getpid, 0, 0, 0, 0, 0, 0), SIGKILL, 0, 0, 0, 0);
        for (;;) ;
    }
    RAW(SYS_exit_group, 97);
}

static void violation(int kind, const char *what, const char *path)
{
    if (S->violation)
        return;
    S->violation = (uint32_t)kind;
    snprintf(S->viol_msg, sizeof S->viol_msg, "%s %s", what, path);
}

/* Absolute name of a path, without touching the last component. */
static void absolute(int dirfd, const char *p, char *out)
{
    char buf[PATH_MAX];
    out[0] = 0;
    if (p[0] == '/')
        snprintf(buf, sizeof buf, "%s", p);
    else {
        char dir[PATH_MAX / 2] = "";
        if (dirfd == AT_FDCWD) {
            if (RAW(SYS_getcwd, dir, sizeof dir) < 0)
                return;
        } else if (dirfd >= 0 && dirfd < MAXFD && fd_path[dirfd])
            snprintf(dir, sizeof dir, "%s", S->path[fd_path[dirfd] - 1]);
        snprintf(buf, sizeof buf, "%s/%s", dir, p);
    }
    /* normalise . and .. */
    char *o = out, *e = out + SF_PATHLEN - 1;
    const char *s = buf;
    while (*s) {
        while (*s == '/')
            s++;
        const char *t = s;
        while (*t && *t != '/')
            t++;
        size_t n = (size_t)(t - s);
        if (n == 0)
            break;
        if (n == 1 && s[0] == '.')
            ;
        else if (n == 2 && s[0] == '.' && s[1] == '.') {
            while (o > out && *--o != '/')
                ;
        } else if (o + n + 1 < e) {
            *o++ = '/';
            memcpy(o, s, n);
            o += n;
        }
        *o = 0;
        s = t;
    }
}

static int inside(const char *a) { return strncmp(a, S->root, root_len) == 0 && (a[root_len] == '/' || !a[root_len]); }

static int path_index(const char *a)
{
    for (uint32_t i = 0; i < S->n_path; i++)
        if (strcmp(S->path[i], a) == 0)
            return (int)i;
    if (S->n_path == SF_MAXPATH)
        return SF_MAXPATH - 1;
    snprintf(S->path[S->n_path], SF_PATHLEN, "%s", a);
    return (int)S->n_path++;
}

static int is_transfer(int type) { return type == O_READ || type == O_WRITE || type == O_STDOUT || type == O_STDERR; }

/* Starts an operation.  Returns its log entry; *limit is the number of bytes that may be moved,
 * *err is set when the call has to fail. */
static sf_op_t dummy_op;
static sf_op_t *begin(int type, int path, int64_t req, int64_t *limit, int *err, int *kill_after)
{
    lk();
    uint32_t k = S->n_ops++;
    sf_op_t *o = k < SF_MAXLOG ? &S->log[k] : &dummy_op;
    if (k < SF_MAXLOG)
        S->n_log = k + 1;
    memset(o, 0, sizeof *o);
    o->type = (uint8_t)type;
    o->path = path;
    o->req = req;
    *err = 0;
    *kill_after = 0;
    int64_t lim = req;
    if (k >= S->max_ops) {
        violation(V_ENDLESS, "the run does not end", "");
        end(2);
    }
    int can_eintr = is_transfer(type) || type == O_OPENR || type == O_OPENW;
    if (S->irr_seed) {
        if (can_eintr && rnd(&irr) % 1000 < S->p_eintr && eintr_run < 8) {
            eintr_run++;
            *err = EINTR;
            o->inj = F_EINTR;
            S->fired[F_EINTR]++;
        } else {
            eintr_run = 0;
            if (is_transfer(type) && req > 1 && rnd(&irr) % 1000 < S->p_short) {
                uint64_t top = rnd(&irr) % 3 ? (uint64_t)req - 1 : (req > 16 ? 16 : (uint64_t)req - 1);
                lim = 1 + (int64_t)(rnd(&irr) % top);
                o->inj = F_SHORT;
                S->fired[F_SHORT]++;
            }
        }
    }
    if (S->chunk && is_transfer(type) && lim > (int64_t)S->chunk) {
        lim = S->chunk;
        S->fired[F_SHORT]++;
    }
    for (uint32_t i = 0; i < S->n_fault; i++) {
        sf_fault_t *f = &S->fault[i];
        if (f->kind == F_ERR_ON) {
            /* from operation `op` on, everything of its type and beyond fails: arg = type << 16 | errno */
            if (k >= f->op && (int)(f->arg >> 16) == type) {
                *err = (int)(f->arg & 0xffff);
                o->inj = F_ERR_ON;
                S->fired[F_ERR_ON]++;
            }
            continue;
        }
        if (f->op != k)
            continue;
        switch (f->kind) {
        case F_SHORT:
            if (is_transfer(type) && f->arg >= 1 && f->arg < lim) {
                lim = f->arg;
                o->inj = F_SHORT;
                S->fired[F_SHORT]++;
            }
            break;
        case F_EINTR:
            if (can_eintr) {
                *err = EINTR;
                o->inj = F_EINTR;
                S->fired[F_EINTR]++;
            }
            break;
        case F_ERR:
            if (type != O_CLOSE && type != O_STDERR) {
                *err = (int)f->arg;
                o->inj = F_ERR;
                S->fired[F_ERR]++;
            }
            break;
        case F_KILL:
            o->inj = F_KILL;
            S->fired[F_KILL]++;
            end(1);
            break;
        case F_KILL_MID:
            o->inj = F_KILL_MID;
            S->fired[F_KILL_MID]++;
            if (is_transfer(type) && f->arg < lim)
                lim = f->arg;
            *kill_after = 1;
            break;
        }
    }
    *limit = lim;
    o->err = (int16_t)*err;
    ulk();
    return o;
}

static long finish(sf_op_t *o, long r, int kill_after)
{
    o->ret = r;
    if (r < 0 && r > -4096)
        o->err = (int16_t)-r;
    if (kill_after)
        end(1);
    return ret(r);
}

/* An operation without data. */
#define SIMPLE(type, path, call) ({ \
    int64_t lim_; int err_, ka_; \
    sf_op_t *o_ = begin(type, path, 0, &lim_, &err_, &ka_); \
    finish(o_, err_ ? -(long)err_ : (long)(call), ka_); })

/* ------------------------------------------------------------------------------ names */

static int refuse(const char *what, const char *path)
{
    violation(V_ESCAPE, what, path);
    errno = EACCES;
    return -1;
}

static int do_open(int dirfd, const char *p, int flags, mode_t mode)
{
    if (!S)
        return (int)ret(RAW(SYS_openat, dirfd, p, flags, mode));
    char a[SF_PATHLEN];
    absolute(dirfd, p, a);
    int acc = flags & O_ACCMODE;
    int wr = acc != O_RDONLY || (flags & (O_CREAT | O_TRUNC));
    if (!inside(a)) {
        if (wr && strncmp(a, "/dev/", 5) != 0)
            return refuse("opened for writing:", a);
        return (int)ret(RAW(SYS_openat, dirfd, p, flags, mode));
    }
    int pi = path_index(a);
    struct stat st;
    int there = RAW(SYS_stat, a, &st) == 0;
    int64_t lim;
    int err, ka;
    sf_op_t *o = begin(wr ? O_OPENW : O_OPENR, pi, flags, &lim, &err, &ka);
    if (!err && wr && !there && (flags & O_CREAT) && S->capacity == 0) {
        err = ENOSPC;
        o->inj = F_ERR;
        S->fired[8]++;
    }
    long r = err ? -(long)err : RAW(SYS_openat, dirfd, p, flags, mode);
    if (r >= 0) {
        if (wr && !there)
            S->path_made[pi] = 1;
        if (r < MAXFD) {
            fd_path[r] = pi + 1;
            fd_append[r] = !!(flags & O_APPEND);
        }
    }
    return (int)finish(o, r, ka);
}

int open(const char *p, int flags, ...)
{
    va_list ap; va_start(ap, flags); mode_t m = va_arg(ap, mode_t); va_end(ap);
    return do_open(AT_FDCWD, p, flags, m);
}
int open64(const char *p, int flags, ...)
{
    va_list ap; va_start(ap, flags); mode_t m = va_arg(ap, mode_t); va_end(ap);
    return do_open(AT_FDCWD, p, flags, m);
}
int openat(int d, const char *p, int flags, ...)
{
    va_list ap; va_start(ap, flags); mode_t m = va_arg(ap, mode_t); va_end(ap);
    return do_open(d, p, flags, m);
}
int openat64(int d, const char *p, int flags, ...)
{
    va_list ap; va_start(ap, flags); mode_t m = va_arg(ap, mode_t); va_end(ap);
    return do_open(d, p, flags, m);
}
int creat(const char *p, mode_t m) { return do_open(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m); }
int creat64(const char *p, mode_t m) { return do_open(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m); }

/* A call that makes, removes or replaces a name. */
static int name_op(int d, const char *p, int d2, const char *p2, long nr, long x, long y, long z, long w, long v)
{
    if (!S)
        return (int)ret(raw6(nr, x, y, z, w, v, 0));
    char a[SF_PATHLEN], b[SF_PATHLEN];
    absolute(d, p, a);
    if (!inside(a))
        return refuse("changed:", a);
    int pi = path_index(a), pj = -1;
    if (p2) {
        absolute(d2, p2, b);
        if (!inside(b))
            return refuse("changed:", b);
        pj = path_index(b);
    }
    long r = SIMPLE(O_NAME, pj >= 0 ? pj : pi, raw6(nr, x, y, z, w, v, 0));
    if (r >= 0) {
        S->path_made[pi] = 1;
        if (pj >= 0)
            S->path_made[pj] = 1;
    }
    return (int)r;
}
#define L(x) ((long)(x))
int unlink(const char *p) { return name_op(AT_FDCWD, p, 0, 0, SYS_unlink, L(p), 0, 0, 0, 0); }
int unlinkat(int d, const char *p, int f) { return name_op(d, p, 0, 0, SYS_unlinkat, d, L(p), f, 0, 0); }
int remove(const char *p) { return name_op(AT_FDCWD, p, 0, 0, SYS_unlink, L(p), 0, 0, 0, 0); }
int rmdir(const char *p) { return name_op(AT_FDCWD, p, 0, 0, SYS_rmdir, L(p), 0, 0, 0, 0); }
int mkdir(const char *p, mode_t m) { return name_op(AT_FDCWD, p, 0, 0, SYS_mkdir, L(p), m, 0, 0, 0); }
int mkdirat(int d, const char *p, mode_t m) { return name_op(d, p, 0, 0, SYS_mkdirat, d, L(p), m, 0, 0); }
int rename(const char *p, const char *q) { return name_op(AT_FDCWD, p, AT_FDCWD, q, SYS_rename, L(p), L(q), 0, 0, 0); }
int renameat(int d, const char *p, int e, const char *q) { return name_op(d, p, e, q, SYS_renameat, d, L(p), e, L(q), 0); }
int renameat2(int d, const char *p, int e, const char *q, unsigned f) { return name_op(d, p, e, q, SYS_renameat2, d, L(p), e, L(q), f); }
int link(const char *p, const char *q) { return name_op(AT_FDCWD, q, 0, 0, SYS_link, L(p), L(q), 0, 0, 0); }
int linkat(int d, const char *p, int e, const char *q, int f) { return name_op(e, q, 0, 0, SYS_linkat, d, L(p), e, L(q), f); }
int symlink(const char *p, const char *q) { return name_op(AT_FDCWD, q, 0, 0, SYS_symlink, L(p), L(q), 0, 0, 0); }
int symlinkat(const char *p, int d, const char *q) { return name_op(d, q, 0, 0, SYS_symlinkat, L(p), d, L(q), 0, 0); }
int mknod(const char *p, mode_t m, dev_t v) { return name_op(AT_FDCWD, p, 0, 0, SYS_mknod, L(p), m, L(v), 0, 0); }
int chmod(const char *p, mode_t m) { return name_op(AT_FDCWD, p, 0, 0, SYS_chmod, L(p), m, 0, 0, 0); }
int fchmodat(int d, const char *p, mode_t m, int f) { return name_op(d, p, 0, 0, SYS_fchmodat, d, L(p), m, f, 0); }
int chown(const char *p, uid_t u, gid_t g) { return name_op(AT_FDCWD, p, 0, 0, SYS_chown, L(p), u, g, 0, 0); }
int lchown(const char *p, uid_t u, gid_t g) { return name_op(AT_FDCWD, p, 0, 0, SYS_lchown, L(p), u, g, 0, 0); }
int truncate(const char *p, off_t n) { return name_op(AT_FDCWD, p, 0, 0, SYS_truncate, L(p), L(n), 0, 0, 0); }
int truncate64(const char *p, off_t n) { return truncate(p, n); }

/* ------------------------------------------------------------------------------ data */

static int fd_of_sim(int fd) { return S && fd >= 0 && fd < MAXFD && fd_path[fd]; }

static size_t iov_total(const struct iovec *v, int n)
{
    size_t t = 0;
    for (int i = 0; i < n; i++)
        t += v[i].iov_len;
    return t;
}

/* Copies of the output streams, for the simulator. */
static void capture(int fd, const struct iovec *v, int n, size_t len)
{
    char *buf = fd == 1 ? S->out : S->err;
    uint32_t *pos = fd == 1 ? &S->out_len : &S->err_len;
    for (int i = 0; i < n && len; i++) {
        size_t k = v[i].iov_len < len ? v[i].iov_len : len;
        size_t room = SF_MAXOUT - *pos;
        size_t c = k < room ? k : room;
        memcpy(buf + *pos, v[i].iov_base, c);
        *pos += (uint32_t)c;
        len -= k;
    }
}

static ssize_t do_write(int fd, const struct iovec *v, int n, off_t off, int positioned)
{
    if (!S || !(fd_of_sim(fd) || fd == 1 || fd == 2)) {
        if (positioned)
            return ret(RAW(SYS_pwritev, fd, v, n, off, 0));
        return ret(RAW(SYS_writev, fd, v, n));
    }
    size_t req = iov_total(v, n);
    int stream = !fd_of_sim(fd);
    int type = !stream ? O_WRITE : fd == 1 ? O_STDOUT : O_STDERR;
    int64_t lim;
    int err, ka;
    sf_op_t *o = begin(type, stream ? -1 : fd_path[fd] - 1, (int64_t)req, &lim, &err, &ka);
    if (!err && !stream && req && S->capacity >= 0) {
        if (S->capacity == 0) {
            err = ENOSPC;
            o->inj = F_ERR;
            S->fired[8]++;
        } else if (lim > S->capacity) {
            lim = S->capacity;
            o->inj = F_SHORT;
            S->fired[8]++;
        }
    }
    if (err)
        return finish(o, -(long)err, ka);
    if (stream) {
        capture(fd, v, n, (size_t)lim);
        S->bytes_out += (uint64_t)lim;
        return finish(o, (long)lim, ka);
    }
    struct iovec w[64];
    int m = 0;
    size_t left = (size_t)lim;
    for (int i = 0; i < n && m < 64 && left; i++) {
        w[m] = v[i];
        if (w[m].iov_len > left)
            w[m].iov_len = left;
        left -= w[m].iov_len;
        m++;
    }
    long r = positioned ? RAW(SYS_pwritev, fd, w, m, off, 0) : RAW(SYS_writev, fd, w, m);
    if (r > 0) {
        S->bytes_out += (uint64_t)r;
        if (S->capacity >= 0)
            S->capacity -= r;
    }
    return finish(o, r, ka);
}

static ssize_t do_read(int fd, const struct iovec *v, int n, off_t off, int positioned)
{
    if (!fd_of_sim(fd)) {
        if (positioned)
            return ret(RAW(SYS_preadv, fd, v, n, off, 0));
        return ret(RAW(SYS_readv, fd, v, n));
    }
    size_t req = iov_total(v, n);
    int64_t lim;
    int err, ka;
    sf_op_t *o = begin(O_READ, fd_path[fd] - 1, (int64_t)req, &lim, &err, &ka);
    if (err)
        return finish(o, -(long)err, ka);
    struct iovec w[64];
    int m = 0;
    size_t left = (size_t)lim;
    for (int i = 0; i < n && m < 64 && left; i++) {
        w[m] = v[i];
        if (w[m].iov_len > left)
            w[m].iov_len = left;
        left -= w[m].iov_len;
        m++;
    }
    long r = positioned ? RAW(SYS_preadv, fd, w, m, off, 0) : RAW(SYS_readv, fd, w, m);
    if (r > 0)
        S->bytes_in += (uint64_t)r;
    return finish(o, r, ka);
}

ssize_t write(int fd, const void *p, size_t n) { struct iovec v = { (void *)p, n }; return do_write(fd, &v, 1, 0, 0); }
ssize_t writev(int fd, const struct iovec *v, int n) { return do_write(fd, v, n, 0, 0); }
ssize_t pwrite(int fd, const void *p, size_t n, off_t o) { struct iovec v = { (void *)p, n }; return do_write(fd, &v, 1, o, 1); }
ssize_t pwrite64(int fd, const void *p, size_t n, off_t o) { struct iovec v = { (void *)p, n }; return do_write(fd, &v, 1, o, 1); }
ssize_t pwritev(int fd, const struct iovec *v, int n, off_t o) { return do_write(fd, v, n, o, 1); }
ssize_t pwritev64(int fd, const struct iovec *v, int n, off_t o) { return do_write(fd, v, n, o, 1); }
ssize_t read(int fd, void *p, size_t n) { struct iovec v = { p, n }; return do_read(fd, &v, 1, 0, 0); }
ssize_t readv(int fd, const struct iovec *v, int n) { return do_read(fd, v, n, 0, 0); }
ssize_t pread(int fd, void *p, size_t n, off_t o) { struct iovec v = { p, n }; return do_read(fd, &v, 1, o, 1); }
ssize_t pread64(int fd, void *p, size_t n, off_t o) { struct iovec v = { p, n }; return do_read(fd, &v, 1, o, 1); }
ssize_t preadv(int fd, const struct iovec *v, int n, off_t o) { return do_read(fd, v, n, o, 1); }
ssize_t preadv64(int fd, const struct iovec *v, int n, off_t o) { return do_read(fd, v, n, o, 1); }

/* Programs fall back to read and write. */
ssize_t copy_file_range(int a, off64_t *b, int c, off64_t *d, size_t n, unsigned f)
{ (void)a; (void)b; (void)c; (void)d; (void)n; (void)f; errno = ENOSYS; return -1; }
ssize_t sendfile(int a, int b, off_t *c, size_t n) { (void)a; (void)b; (void)c; (void)n; errno = ENOSYS; return -1; }
ssize_t sendfile64(int a, int b, off64_t *c, size_t n) { (void)a; (void)b; (void)c; (void)n; errno = ENOSYS; return -1; }
ssize_t splice(int a, off64_t *b, int c, off64_t *d, size_t n, unsigned f)
{ (void)a; (void)b; (void)c; (void)d; (void)n; (void)f; errno = ENOSYS; return -1; }

off_t lseek(int fd, off_t o, int w)
{
    if (!fd_of_sim(fd))
        return ret(RAW(SYS_lseek, fd, o, w));
    return SIMPLE(O_SEEK, fd_path[fd] - 1, RAW(SYS_lseek, fd, o, w));
}
off64_t lseek64(int fd, off64_t o, int w) { return lseek(fd, o, w); }

int ftruncate(int fd, off_t n)
{
    if (!fd_of_sim(fd))
        return (int)ret(RAW(SYS_ftruncate, fd, n));
    return (int)SIMPLE(O_TRUNC, fd_path[fd] - 1, RAW(SYS_ftruncate, fd, n));
}
int ftruncate64(int fd, off_t n) { return ftruncate(fd, n); }

int fsync(int fd) { return fd_of_sim(fd) ? (int)SIMPLE(O_SYNC, fd_path[fd] - 1, 0) : 0; }
int fdatasync(int fd) { return fsync(fd); }

int close(int fd)
{
    if (!fd_of_sim(fd))
        return (int)ret(RAW(SYS_close, fd));
    int pi = fd_path[fd] - 1;
    fd_path[fd] = 0;
    return (int)SIMPLE(O_CLOSE, pi, RAW(SYS_close, fd));
}

static void same_file(int from, long to)
{
    if (S && to >= 0 && to < MAXFD)
        fd_path[to] = from >= 0 && from < MAXFD ? fd_path[from] : 0;
}
int dup(int fd) { long r = RAW(SYS_dup, fd); same_file(fd, r); return (int)ret(r); }
int dup2(int a, int b) { long r = RAW(SYS_dup2, a, b); same_file(a, r); return (int)ret(r); }
int dup3(int a, int b, int f) { long r = RAW(SYS_dup3, a, b, f); same_file(a, r); return (int)ret(r); }
static int do_fcntl(int fd, int cmd, long arg)
{
    long r = RAW(SYS_fcntl, fd, cmd, arg);
    if (cmd == F_DUPFD || cmd == F_DUPFD_CLOEXEC)
        same_file(fd, r);
    return (int)ret(r);
}
int fcntl(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); long a = va_arg(ap, long); va_end(ap); return do_fcntl(fd, cmd, a); }
int fcntl64(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); long a = va_arg(ap, long); va_end(ap); return do_fcntl(fd, cmd, a); }

/* ------------------------------------------------------------------------------ attributes */

/* (the null pointers that the standard library probes with are allowed here) */
int sim_statx(int d, const char *p, int flags, unsigned mask, struct statx *b) __asm__("statx");
int sim_statx(int d, const char *p, int flags, unsigned mask, struct statx *b)
{
    if (S) {
        if (p && p[0]) {
            char a[SF_PATHLEN];
            absolute(d, p, a);
            if (inside(a))
                return (int)SIMPLE(O_STAT, path_index(a), RAW(SYS_statx, d, p, flags, mask, b));
        } else if (fd_of_sim(d))
            return (int)SIMPLE(O_STAT, fd_path[d] - 1, RAW(SYS_statx, d, p, flags, mask, b));
    }
    return (int)ret(RAW(SYS_statx, d, p, flags, mask, b));
}

/* ------------------------------------------------------------------------------ entropy and clocks */

static void entropy(void *p, size_t n)
{
    uint8_t *q = p;
    S->n_entropy++;
    for (size_t i = 0; i < n; i++)
        q[i] = (uint8_t)rnd(&ent);
}

ssize_t getrandom(void *p, size_t n, unsigned f)
{
    if (!S)
        return ret(RAW(SYS_getrandom, p, n, f));
    lk();
    entropy(p, n);
    ulk();
    return (ssize_t)n;
}

long syscall(long n, ...)
{
    va_list ap;
    va_start(ap, n);
    long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long);
    long d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
    va_end(ap);
    if (n == SYS_getrandom)
        return getrandom((void *)a, (size_t)b, (unsigned)c);
    if (S && n == SYS_statx)
        return sim_statx((int)a, (const char *)b, (int)c, (unsigned)d, (struct statx *)e);
    if (S && n == SYS_copy_file_range) {
        errno = ENOSYS;
        return -1;
    }
    return ret(raw6(n, a, b, c, d, e, f));
}

int clock_gettime(clockid_t id, struct timespec *ts)
{
    if (!S)
        return (int)ret(RAW(SYS_clock_gettime, id, ts));
    lk();
    S->n_clock++;
    uint64_t t = S->clock_base + 1000 * ++ticks;
    ulk();
    ts->tv_sec = (time_t)(t / 1000000000ull);
    ts->tv_nsec = (long)(t % 1000000000ull);
    return 0;
}
int gettimeofday(struct timeval *tv, void *tz)
{
    (void)tz;
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    tv->tv_sec = ts.tv_sec;
    tv->tv_usec = ts.tv_nsec / 1000;
    return 0;
}
time_t time(time_t *p)
{
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    if (p)
        *p = ts.tv_sec;
    return ts.tv_sec;
}
