/* Simulated disk: libc I/O entry points with seeded faults, loaded by LD_PRELOAD into
 * the worker processes of C15 and inert until armed.
 *
 * Only operations on paths below the scratch root, and on descriptors opened from
 * there (or explicitly tracked), are counted and can fail.
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <unistd.h>

#define MAXF 8
#define MAXFD 4096

typedef struct {
    uint64_t armed, count, nfault, shortmax, full, fired;
    uint64_t at[MAXF], kind[MAXF], arg[MAXF], hit[MAXF];
    uint64_t reads, writes, opens, renames, others;
    uint64_t lastop[MAXF];
    char root[512];
} state;

static state S;
static unsigned char tracked[MAXFD];

state *iof_state(void) { return &S; }
void iof_track(int fd) { if (fd >= 0 && fd < MAXFD) tracked[fd] = 1; }
void iof_reset(void) { memset(&S, 0, sizeof S); memset(tracked, 0, sizeof tracked); }

enum { OP_OPENR = 1, OP_OPENW, OP_READ, OP_WRITE, OP_RENAME, OP_MKDIR, OP_UNLINK,
       OP_CLOSE };
enum { K_EIO = 1, K_ENOSPC, K_SHORT, K_EINTR, K_CRASH, K_TORN, K_SIGINT, K_FULL,
       K_EACCES, K_TORNERR };

static int under(const char *p)
{
    size_t n;
    char cwd[512];
    if (!S.armed || !p) return 0;
    n = strlen(S.root);
    if (p[0] == '/') return strncmp(p, S.root, n) == 0 && (p[n] == '/' || !p[n]);
    if (!getcwd(cwd, sizeof cwd)) return 0;
    return strncmp(cwd, S.root, n) == 0;
}

static int istracked(int fd) { return S.armed && fd >= 0 && fd < MAXFD && tracked[fd]; }

/* kind of the fault to inject at this operation, 0 for none */
static int step(int op, uint64_t *arg)
{
    uint64_t k = ++S.count;
    int i;
    switch (op) {
        case OP_READ: S.reads++; break;
        case OP_WRITE: S.writes++; break;
        case OP_OPENR: case OP_OPENW: S.opens++; break;
        case OP_RENAME: S.renames++; break;
        default: S.others++;
    }
    for (i = 0; i < (int)S.nfault; i++)
        if (S.at[i] == k && !S.hit[i]) {
            int kind = (int)S.kind[i];
            S.hit[i] = 1; S.lastop[i] = op; S.fired++;
            *arg = S.arg[i];
            if (kind == K_CRASH) _exit(137);
            if (kind == K_SIGINT) { raise(SIGINT); return 0; }
            if (kind == K_FULL) { S.full = 1; return K_ENOSPC; }
            return kind;
        }
    if (S.full && (op == OP_WRITE || op == OP_OPENW || op == OP_MKDIR)) return K_ENOSPC;
    return 0;
}

static int err_for(int kind)
{
    return kind == K_ENOSPC ? ENOSPC : kind == K_EACCES ? EACCES : EIO;
}

#define REAL(name, type) \
    static __typeof__(type) real_##name; \
    if (!real_##name) real_##name = (__typeof__(type))dlsym(RTLD_NEXT, #name)

static int after_open(int fd, int t)
{
    if (fd >= 0 && fd < MAXFD) tracked[fd] = t;
    return fd;
}

static int pre_open(const char *p, int flags)
{
    uint64_t a = 0;
    int k;
    if (!under(p) || (flags & O_DIRECTORY)) return 0;
    k = step((flags & O_ACCMODE) == O_RDONLY ? OP_OPENR : OP_OPENW, &a);
    if (!k) return 1;
    if (k == K_TORN) _exit(137);
    if (k == K_SHORT) return 1;
    if (k == K_EINTR) { errno = EINTR; return -1; }
    if (k == K_ENOSPC && (flags & O_ACCMODE) == O_RDONLY) return 1;
    errno = err_for(k);
    return -1;
}

#define OPEN_FN(name) \
int name(const char *p, int flags, ...) \
{ \
    mode_t m = 0; int t; va_list ap; \
    REAL(name, int (*)(const char *, int, ...)); \
    va_start(ap, flags); \
    if (flags & (O_CREAT | __O_TMPFILE)) m = va_arg(ap, mode_t); \
    va_end(ap); \
    t = pre_open(p, flags); \
    if (t < 0) return -1; \
    return after_open(real_##name(p, flags, m), t); \
}
OPEN_FN(open)
OPEN_FN(open64)

#define OPENAT_FN(name) \
int name(int d, const char *p, int flags, ...) \
{ \
    mode_t m = 0; int t; va_list ap; \
    REAL(name, int (*)(int, const char *, int, ...)); \
    va_start(ap, flags); \
    if (flags & (O_CREAT | __O_TMPFILE)) m = va_arg(ap, mode_t); \
    va_end(ap); \
    t = pre_open(p, flags); \
    if (t < 0) return -1; \
    return after_open(real_##name(d, p, flags, m), t); \
}
OPENAT_FN(openat)
OPENAT_FN(openat64)

int close(int fd)
{
    REAL(close, int (*)(int));
    if (istracked(fd)) {
        uint64_t a = 0;
        int k = step(OP_CLOSE, &a), r;
        tracked[fd] = 0;
        r = real_close(fd);
        if (k == K_TORN) _exit(137);
        if (k == K_EIO || k == K_ENOSPC) { errno = err_for(k); return -1; }
        return r;
    }
    return real_close(fd);
}

ssize_t read(int fd, void *b, size_t n)
{
    REAL(read, ssize_t (*)(int, void *, size_t));
    if (istracked(fd)) {
        uint64_t a = 0;
        int k = step(OP_READ, &a);
        if (k == K_TORN) _exit(137);
        if (k == K_EINTR) { errno = EINTR; return -1; }
        if (k == K_EIO || k == K_EACCES || k == K_TORNERR) { errno = EIO; return -1; }
        if (k == K_SHORT && n > 1) n = 1 + a % (n - 1);
        if (S.shortmax && n > S.shortmax) n = S.shortmax;
    }
    return real_read(fd, b, n);
}

ssize_t write(int fd, const void *b, size_t n)
{
    REAL(write, ssize_t (*)(int, const void *, size_t));
    if (istracked(fd)) {
        uint64_t a = 0;
        int k = step(OP_WRITE, &a);
        if (k == K_EINTR) { errno = EINTR; return -1; }
        if (k == K_TORN || k == K_TORNERR || k == K_ENOSPC) {
            size_t m = n ? a % n : 0;
            ssize_t w = 0;
            if (m) w = real_write(fd, b, m);
            if (k == K_TORN) _exit(137);
            /* what the system does: a short count first, the error next time */
            if (k == K_ENOSPC && w > 0) { S.full = 1; return w; }
            /* a failed write does not move the offset, whatever reached the disk */
            if (w > 0) lseek(fd, -(off_t)w, SEEK_CUR);
            errno = err_for(k);
            return -1;
        }
        if (k == K_EIO || k == K_EACCES) { errno = EIO; return -1; }
        if (k == K_SHORT && n > 1) n = 1 + a % (n - 1);
        if (S.shortmax && n > S.shortmax) n = S.shortmax;
    }
    return real_write(fd, b, n);
}

int rename(const char *o, const char *p)
{
    REAL(rename, int (*)(const char *, const char *));
    if (under(p)) {
        uint64_t a = 0;
        int k = step(OP_RENAME, &a);
        if (k == K_TORN) { real_rename(o, p); _exit(137); }
        if (k && k != K_SHORT && k != K_EINTR) { errno = err_for(k); return -1; }
    }
    return real_rename(o, p);
}

int renameat(int od, const char *o, int d, const char *p)
{
    REAL(renameat, int (*)(int, const char *, int, const char *));
    if (under(p)) {
        uint64_t a = 0;
        int k = step(OP_RENAME, &a);
        if (k == K_TORN) { real_renameat(od, o, d, p); _exit(137); }
        if (k && k != K_SHORT && k != K_EINTR) { errno = err_for(k); return -1; }
    }
    return real_renameat(od, o, d, p);
}

int mkdir(const char *p, mode_t m)
{
    REAL(mkdir, int (*)(const char *, mode_t));
    if (under(p)) {
        uint64_t a = 0;
        int k = step(OP_MKDIR, &a);
        if (k == K_TORN) { real_mkdir(p, m); _exit(137); }
        if (k && k != K_SHORT && k != K_EINTR) { errno = err_for(k); return -1; }
    }
    return real_mkdir(p, m);
}

int unlink(const char *p)
{
    REAL(unlink, int (*)(const char *));
    if (under(p)) {
        uint64_t a = 0;
        int k = step(OP_UNLINK, &a);
        if (k == K_TORN) { real_unlink(p); _exit(137); }
        if (k == K_EIO || k == K_EACCES) { errno = err_for(k); return -1; }
    }
    return real_unlink(p);
}

/* whole-file copies in the kernel: let callers fall back to read/write */
ssize_t sendfile(int o, int i, off_t *off, size_t n)
{
    REAL(sendfile, ssize_t (*)(int, int, off_t *, size_t));
    if (istracked(o) || istracked(i)) { errno = EINVAL; return -1; }
    return real_sendfile(o, i, off, n);
}

ssize_t sendfile64(int o, int i, off64_t *off, size_t n)
{
    REAL(sendfile64, ssize_t (*)(int, int, off64_t *, size_t));
    if (istracked(o) || istracked(i)) { errno = EINVAL; return -1; }
    return real_sendfile64(o, i, off, n);
}
