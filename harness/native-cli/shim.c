// LD_PRELOAD library for the replayer: makes the calls that the symbolic run failed, cut short or
// crashed do the same natively (GC_SHIM_IO="n:kind,..."), or hands the order of the file system calls
// of two processes to the replayer (GC_SHIM_SOCK, GC_SHIM_ID).
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdlib.h>
#include <string.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include <sys/un.h>
#include <unistd.h>
#include <sys/syscall.h>

static int n_io = 0, on = 0, sock = -1;
static struct { int n, k; } plan[64];
static int n_plan = 0;

#define REAL(ret, name, ...) static ret (*real)(__VA_ARGS__) = 0; if (!real) real = dlsym(RTLD_NEXT, #name)

__attribute__((constructor)) static void init(void) {
    const char *p = getenv("GC_SHIM_IO");
    if (p) {
        on = 1;
        while (*p && n_plan < 64) {
            plan[n_plan].n = strtol(p, (char **)&p, 10);
            if (*p == ':') p++;
            plan[n_plan].k = strtol(p, (char **)&p, 10);
            n_plan++;
            if (*p == ',') p++;
        }
    }
    p = getenv("GC_SHIM_SOCK");
    if (p) {
        struct sockaddr_un a;
        memset(&a, 0, sizeof a);
        a.sun_family = AF_UNIX;
        strncpy(a.sun_path, p, sizeof a.sun_path - 1);
        sock = socket(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0);
        // keep the low descriptors free
        int s2 = fcntl(sock, F_DUPFD_CLOEXEC, 900);
        syscall(SYS_close, sock);
        sock = s2;
        if (connect(sock, (struct sockaddr *)&a, sizeof a)) _exit(98);
        char id = getenv("GC_SHIM_ID")[0];
        if (send(sock, &id, 1, MSG_NOSIGNAL) != 1) _exit(98);
        on = 2;
    }
}
// kind of event for this call: 0 none
static int point(void) {
    if (on == 2) {
        char c = 'p';
        if (send(sock, &c, 1, MSG_NOSIGNAL) != 1) return 0;
        if (recv(sock, &c, 1, 0) != 1) return 0;
        return 0;
    }
    if (on != 1) return 0;
    int k = n_io++;
    for (int i = 0; i < n_plan; i++)
        if (plan[i].n == k) return plan[i].k;
    return 0;
}
static void die(void) {
    kill(getpid(), SIGKILL);
    for (;;) pause();
}
#define POINT(err) do { int k_ = point(); if (k_ == 1 || k_ == 4) { errno = k_ == 1 ? (err) : EACCES; return -1; } if (k_ >= 2 && k_ != 3) die(); } while (0)
static int ours(const char *p) { return p && p[0] && p[0] != '/'; }

static int do_open(int at, const char *p, int fl, mode_t m) {
    if (ours(p)) POINT((fl & O_CREAT) && at == AT_FDCWD ? ENOSPC : EIO);
    return syscall(SYS_openat, at, p, fl, m);
}
#define MODE(fl) mode_t m = 0; if ((fl) & (O_CREAT | O_TMPFILE)) { va_list v; va_start(v, fl); m = va_arg(v, mode_t); va_end(v); }
int open(const char *p, int fl, ...) { MODE(fl) return do_open(AT_FDCWD, p, fl, m); }
int open64(const char *p, int fl, ...) { MODE(fl) return do_open(AT_FDCWD, p, fl, m); }
int openat(int d, const char *p, int fl, ...) { MODE(fl) return do_open(d, p, fl, m); }
int openat64(int d, const char *p, int fl, ...) { MODE(fl) return do_open(d, p, fl, m); }

ssize_t read(int fd, void *b, size_t n) {
    if (fd > 2) POINT(EIO);
    return syscall(SYS_read, fd, b, n);
}
ssize_t write(int fd, const void *b, size_t n) {
    if (fd > 2) {
        int k = point();
        if (k == 1 || k == 4) { errno = k == 1 ? ENOSPC : EIO; return -1; }
        if (k == 2) die();
        if (k == 3) n /= 2;
        if (k >= 100) { syscall(SYS_write, fd, b, (size_t)(k - 100)); die(); }
    }
    return syscall(SYS_write, fd, b, n);
}
ssize_t writev(int fd, const struct iovec *v, int c) {
    if (fd <= 2) return syscall(SYS_writev, fd, v, c);
    size_t n = 0, o = 0;
    for (int i = 0; i < c; i++) n += v[i].iov_len;
    char *t = malloc(n + 1);
    for (int i = 0; i < c; i++) { memcpy(t + o, v[i].iov_base, v[i].iov_len); o += v[i].iov_len; }
    ssize_t r = write(fd, t, n);
    free(t);
    return r;
}
int mkdir(const char *p, mode_t m) { if (ours(p)) POINT(ENOSPC); return syscall(SYS_mkdir, p, m); }
int unlink(const char *p) { if (ours(p)) POINT(EIO); return syscall(SYS_unlink, p); }
int rmdir(const char *p) { if (ours(p)) POINT(EIO); return syscall(SYS_rmdir, p); }
int unlinkat(int d, const char *p, int f) { if (ours(p)) POINT(EIO); return syscall(SYS_unlinkat, d, p, f); }
int rename(const char *p, const char *q) { if (ours(p)) POINT(EIO); return syscall(SYS_rename, p, q); }
int link(const char *p, const char *q) { if (ours(p)) POINT(EIO); return syscall(SYS_link, p, q); }
int ftruncate64(int fd, off_t n) { POINT(EIO); return syscall(SYS_ftruncate, fd, n); }
int fsync(int fd) { POINT(EIO); return syscall(SYS_fsync, fd); }
int fdatasync(int fd) { POINT(EIO); return syscall(SYS_fdatasync, fd); }
int access(const char *p, int m) { if (ours(p)) POINT(EIO); return syscall(SYS_access, p, m); }
int statx(int d, const char *p, int f, unsigned m, struct statx *b) {
    if (ours(p)) POINT(EIO);
    return syscall(SYS_statx, d, p, f, m, b);
}
ssize_t copy_file_range(int a, off_t *b, int c, off_t *d, size_t n, unsigned f) { errno = ENOSYS; return -1; }
ssize_t sendfile64(int a, int b, off_t *c, size_t n) { errno = ENOSYS; return -1; }
