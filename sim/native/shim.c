/* Disk seam: interposes the file system calls of one simulated process.
 * Inactive until sim_activate(dir, logfd, plan) is called.  Only paths inside `dir` are seen.
 * Every mutating operation gets a sequence number, is logged (for the power-loss model) and may get a fault:
 *   plan = "n:kind[:arg];..."  kind: errno number (E<errno>), S<bytes> short write, K kill before the op,
 *   P<bytes> kill after writing <bytes> of this write, A kill after the op, T stall before the op until resumed.
 * Log record (text header + raw data): "op seq fd a b len\n" + data
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>
#include <limits.h>
#include <signal.h>

static int active = 0, logfd = -1;
static char root[PATH_MAX];
static long seqno = 0, fired = 0;
static char tracked[4096];           /* fd -> tracked? */
static char names[4096][512];
struct fault { long n; char kind; long arg; };
static struct fault faults[64];
static int nfaults = 0;
/* disk-full mode: bytes left, -1 = unlimited */
static long quota = -1;
/* from this sequence number on every mutating op fails with errno `sticky` (0 = off) */
static long sticky_from = -1; static int sticky_errno = 0;

#define REAL(ret, name, ...) static ret (*real_##name)(__VA_ARGS__) = 0; \
    if (!real_##name) real_##name = dlsym(RTLD_NEXT, #name)

static void rawlog(const char *op, int fd, const char *a, const char *b, const void *data, size_t len, long off) {
    if (logfd < 0) return;
    char h[2048];
    int n = snprintf(h, sizeof h, "%s\t%ld\t%d\t%s\t%s\t%ld\t%zu\n", op, seqno, fd, a ? a : "", b ? b : "", off, len);
    syscall(SYS_write, logfd, h, (size_t)n);
    if (len) syscall(SYS_write, logfd, data, len);
}

static void die(const char *why) { rawlog("KILL", -1, why, 0, 0, 0, 0); syscall(SYS_exit_group, 77); }

static int abspath(const char *p, char *out) {
    if (!p) return 0;
    if (p[0] == '/') { snprintf(out, PATH_MAX, "%s", p); }
    else { char cwd[PATH_MAX]; if (!getcwd(cwd, sizeof cwd)) return 0; snprintf(out, PATH_MAX, "%s/%s", cwd, p); }
    /* collapse "/./" */
    char *s; while ((s = strstr(out, "/./"))) memmove(s, s + 2, strlen(s + 2) + 1);
    return 1;
}
static int inside(const char *p, char *out) {
    if (!active || !abspath(p, out)) return 0;
    size_t n = strlen(root);
    return strncmp(out, root, n) == 0 && (out[n] == '/' || out[n] == 0);
}
/* returns the fault for the next op or 0 */
static struct fault *next(void) {
    seqno++;
    for (int i = 0; i < nfaults; i++) if (faults[i].n == seqno) {
        fired++;
        if (faults[i].kind == 'T') { kill(getpid(), SIGSTOP); continue; }  /* stalled here until the simulator resumes it */
        return &faults[i];
    }
    static struct fault st;
    if (sticky_from >= 0 && seqno >= sticky_from) { fired++; st.kind = 'E'; st.arg = sticky_errno; return &st; }
    return 0;
}
#define PRE(opname, a, b) \
    struct fault *f = next(); \
    if (f && f->kind == 'K') die("before " opname); \
    if (f && f->kind == 'P') die("before " opname); \
    if (f && f->kind == 'E') { rawlog("FAIL", -1, opname, a, 0, 0, f->arg); errno = (int)f->arg; return -1; }
#define POST(opname) if (f && f->kind == 'A') die("after " opname)

static int do_open(int dirfd, const char *path, int flags, mode_t mode, int at) {
    static int (*ro)(const char *, int, ...) = 0; static int (*roa)(int, const char *, int, ...) = 0;
    if (!ro) ro = dlsym(RTLD_NEXT, "open64"); if (!roa) roa = dlsym(RTLD_NEXT, "openat64");
    char p[PATH_MAX];
    int in = (!at || dirfd == AT_FDCWD || (path && path[0] == '/')) && inside(path, p);
    int mut = in && (flags & (O_CREAT | O_TRUNC | O_WRONLY | O_RDWR));
    if (!in) return at ? roa(dirfd, path, flags, mode) : ro(path, flags, mode);
    if (!mut) {
        int fd0 = at ? roa(dirfd, path, flags, mode) : ro(path, flags, mode);
        if (fd0 >= 0 && fd0 < 4096) { tracked[fd0] = 2; snprintf(names[fd0], 512, "%s", p); }
        return fd0;
    }
    PRE("open", p, 0);
    struct stat st; int existed = stat(p, &st) == 0;
    int fd = at ? roa(dirfd, path, flags, mode) : ro(path, flags, mode);
    if (fd >= 0) {
        if (fd < 4096) { tracked[fd] = 1; snprintf(names[fd], 512, "%s", p); }
        rawlog("OPEN", fd, p, existed ? ((flags & O_TRUNC) ? "trunc" : "old") : "new", 0, 0, (flags & O_APPEND) ? -1 : 0);
    }
    POST("open");
    return fd;
}
int open(const char *p, int fl, ...) { va_list a; va_start(a, fl); mode_t m = va_arg(a, mode_t); va_end(a); return do_open(0, p, fl, m, 0); }
int open64(const char *p, int fl, ...) { va_list a; va_start(a, fl); mode_t m = va_arg(a, mode_t); va_end(a); return do_open(0, p, fl, m, 0); }
int openat(int d, const char *p, int fl, ...) { va_list a; va_start(a, fl); mode_t m = va_arg(a, mode_t); va_end(a); return do_open(d, p, fl, m, 1); }
int openat64(int d, const char *p, int fl, ...) { va_list a; va_start(a, fl); mode_t m = va_arg(a, mode_t); va_end(a); return do_open(d, p, fl, m, 1); }
int creat(const char *p, mode_t m) { return do_open(0, p, O_CREAT | O_WRONLY | O_TRUNC, m, 0); }

static ssize_t do_write(int fd, const void *buf, size_t n, long off, int pw) {
    REAL(ssize_t, write, int, const void *, size_t);
    REAL(ssize_t, pwrite64, int, const void *, size_t, off64_t);
    if (!active || fd < 0 || fd >= 4096 || tracked[fd] != 1)
        return pw ? real_pwrite64(fd, buf, n, off) : real_write(fd, buf, n);
    struct fault *f = next();
    if (f && f->kind == 'K') die("before write");
    if (f && f->kind == 'E') { rawlog("FAIL", fd, "write", 0, 0, 0, f->arg); errno = (int)f->arg; return -1; }
    size_t want = n;
    if (f && (f->kind == 'S' || f->kind == 'P') && (size_t)f->arg < n) want = (size_t)f->arg;
    if (want == 0 && n > 0 && f && f->kind == 'S') want = 1;
    if (quota >= 0) {
        if (quota == 0 && want > 0) { fired++; rawlog("FAIL", fd, "write-full", 0, 0, 0, ENOSPC); errno = ENOSPC; return -1; }
        if ((long)want > quota) { fired++; want = (size_t)quota; }
    }
    long pos = pw ? off : (long)lseek(fd, 0, SEEK_CUR);
    int fl = fcntl(fd, F_GETFL); if (fl & O_APPEND) pos = -1;
    ssize_t r = pw ? real_pwrite64(fd, buf, want, off) : real_write(fd, buf, want);
    if (r > 0) { if (quota >= 0) quota -= r; rawlog("WRITE", fd, names[fd], 0, buf, (size_t)r, pos); }
    if (f && f->kind == 'P') die("torn write");
    POST("write");
    return r;
}
ssize_t write(int fd, const void *b, size_t n) { return do_write(fd, b, n, 0, 0); }
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) { return do_write(fd, b, n, (long)o, 1); }
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { return do_write(fd, b, n, (long)o, 1); }
ssize_t writev(int fd, const struct iovec *v, int c) {
    REAL(ssize_t, writev, int, const struct iovec *, int);
    if (!active || fd < 0 || fd >= 4096 || tracked[fd] != 1) return real_writev(fd, v, c);
    ssize_t t = 0;
    for (int i = 0; i < c; i++) { if (!v[i].iov_len) continue; ssize_t r = do_write(fd, v[i].iov_base, v[i].iov_len, 0, 0); if (r < 0) return t ? t : r; t += r; if ((size_t)r < v[i].iov_len) break; }
    return t;
}
/* bulk copies are turned into plain writes by the callers when these are unsupported */
ssize_t sendfile64(int o, int i, off64_t *off, size_t n) {
    REAL(ssize_t, sendfile64, int, int, off64_t *, size_t);
    if (active && o >= 0 && o < 4096 && tracked[o] == 1) { errno = ENOTSOCK; return -1; }
    return real_sendfile64(o, i, off, n);
}
ssize_t sendfile(int o, int i, off_t *off, size_t n) { return sendfile64(o, i, (off64_t *)off, n); }
ssize_t copy_file_range(int i, off64_t *oi, int o, off64_t *oo, size_t n, unsigned fl) {
    REAL(ssize_t, copy_file_range, int, off64_t *, int, off64_t *, size_t, unsigned);
    if (active && o >= 0 && o < 4096 && tracked[o] == 1) { errno = EXDEV; return -1; }
    return real_copy_file_range(i, oi, o, oo, n, fl);
}
static int do_sync(int fd, int data) {
    REAL(int, fsync, int); REAL(int, fdatasync, int);
    if (!active || fd < 0 || fd >= 4096 || tracked[fd] == 0) return data ? real_fdatasync(fd) : real_fsync(fd);
    PRE("fsync", names[fd], 0);
    rawlog("FSYNC", fd, names[fd], 0, 0, 0, 0);
    POST("fsync");
    return 0;  /* the power-loss model, not the real disk, decides what is durable */
}
int fsync(int fd) { return do_sync(fd, 0); }
int fdatasync(int fd) { return do_sync(fd, 1); }
void sync(void) { if (active) { seqno++; rawlog("SYNCALL", -1, 0, 0, 0, 0, 0); return; } syscall(SYS_sync); }
static int do_trunc(int fd, off64_t n) {
    REAL(int, ftruncate64, int, off64_t);
    if (!active || fd < 0 || fd >= 4096 || tracked[fd] != 1) return real_ftruncate64(fd, n);
    PRE("ftruncate", names[fd], 0);
    int r = real_ftruncate64(fd, n);
    if (!r) rawlog("TRUNC", fd, names[fd], 0, 0, 0, (long)n);
    POST("ftruncate");
    return r;
}
int ftruncate64(int fd, off64_t n) { return do_trunc(fd, n); }
int ftruncate(int fd, off_t n) { return do_trunc(fd, n); }
static int two(const char *op, const char *a, const char *b, int kind, int d1, int d2, unsigned fl) {
    REAL(int, rename, const char *, const char *); REAL(int, link, const char *, const char *);
    REAL(int, renameat, int, const char *, int, const char *); REAL(int, linkat, int, const char *, int, const char *, int);
    REAL(int, symlink, const char *, const char *);
    char pa[PATH_MAX], pb[PATH_MAX];
    int ia = inside(a, pa), ib = inside(b, pb);
    struct fault *f = 0;
    if (ia || ib) {
        f = next();
        if (f && (f->kind == 'K' || f->kind == 'P')) die(op);
        if (f && f->kind == 'E') { rawlog("FAIL", -1, op, pa, 0, 0, f->arg); errno = (int)f->arg; return -1; }
    }
    int r = kind == 0 ? real_rename(a, b) : kind == 1 ? real_link(a, b) : kind == 2 ? real_renameat(d1, a, d2, b)
          : kind == 3 ? real_linkat(d1, a, d2, b, (int)fl) : real_symlink(a, b);
    if (!r && (ia || ib)) {
        rawlog(op, -1, pa, pb, 0, 0, 0);
        if (kind == 0 || kind == 2) for (int i = 0; i < 4096; i++) if (tracked[i] && !strcmp(names[i], pa)) snprintf(names[i], 512, "%s", pb);
    }
    if (ia || ib) POST("rename");
    return r;
}
int rename(const char *a, const char *b) { return two("RENAME", a, b, 0, 0, 0, 0); }
int link(const char *a, const char *b) { return two("LINK", a, b, 1, 0, 0, 0); }
int renameat(int d1, const char *a, int d2, const char *b) { return two("RENAME", a, b, 2, d1, d2, 0); }
int linkat(int d1, const char *a, int d2, const char *b, int fl) { return two("LINK", a, b, 3, d1, d2, (unsigned)fl); }
static int one(const char *op, const char *a, int kind, mode_t m, int d, int fl) {
    REAL(int, unlink, const char *); REAL(int, mkdir, const char *, mode_t); REAL(int, rmdir, const char *);
    REAL(int, unlinkat, int, const char *, int);
    char pa[PATH_MAX]; int ia = inside(a, pa);
    struct fault *f = 0;
    if (ia) {
        f = next();
        if (f && (f->kind == 'K' || f->kind == 'P')) die(op);
        if (f && f->kind == 'E') { rawlog("FAIL", -1, op, pa, 0, 0, f->arg); errno = (int)f->arg; return -1; }
    }
    int r = kind == 0 ? real_unlink(a) : kind == 1 ? real_mkdir(a, m) : kind == 2 ? real_rmdir(a) : real_unlinkat(d, a, fl);
    if (!r && ia) rawlog(op, -1, pa, 0, 0, 0, 0);
    if (ia) POST("unlink");
    return r;
}
int unlink(const char *a) { return one("UNLINK", a, 0, 0, 0, 0); }
int remove(const char *a) { return one("UNLINK", a, 0, 0, 0, 0); }
int mkdir(const char *a, mode_t m) { return one("MKDIR", a, 1, m, 0, 0); }
int rmdir(const char *a) { return one("RMDIR", a, 2, 0, 0, 0); }
int unlinkat(int d, const char *a, int fl) { return one("UNLINK", a, 3, 0, d, fl); }
int close(int fd) {
    REAL(int, close, int);
    if (!active || fd < 0 || fd >= 4096 || !tracked[fd]) return real_close(fd);
    if (tracked[fd] == 2) { tracked[fd] = 0; return real_close(fd); }
    struct fault *f = next();
    if (f && (f->kind == 'K' || f->kind == 'P')) die("before close");
    tracked[fd] = 0;
    rawlog("CLOSE", fd, names[fd], 0, 0, 0, 0);
    int r = real_close(fd);
    if (f && f->kind == 'E' && f->arg != EINTR) { errno = (int)f->arg; return -1; }
    POST("close");
    return r;
}

int sim_activate(const char *dir, int lfd, const char *plan, long q, long st_from, int st_errno) {
    snprintf(root, sizeof root, "%s", dir);
    logfd = lfd; nfaults = 0; seqno = 0; fired = 0; quota = q; sticky_from = st_from; sticky_errno = st_errno;
    memset(tracked, 0, sizeof tracked);
    const char *p = plan;
    while (p && *p && nfaults < 64) {
        struct fault *f = &faults[nfaults];
        char *e; f->n = strtol(p, &e, 10); if (*e != ':') break;
        f->kind = e[1]; f->arg = strtol(e + 2, &e, 10); nfaults++;
        p = *e == ';' ? e + 1 : 0;
    }
    active = 1;
    return nfaults;
}
long sim_deactivate(void) { active = 0; return fired; }
long sim_seq(void) { return seqno; }
