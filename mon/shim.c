/* read()/write()/close() with scripted faults, for the process that calls shim_set(); see mon/cli.py */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stddef.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include <unistd.h>

static int target;        /* 0 off, 1 descriptor 1, 2 regular files opened for writing (fd > 2) */
static long limit = -1;   /* bytes accepted before the error, -1: no limit */
static long piece = -1;   /* at most this many bytes per call */
static int err, close_err, again;
static long done, calls, faults;

void shim_set(int t, long lim, long pc, int e, int ce, int ag) { target = t; limit = lim; piece = pc; err = e; close_err = ce; again = ag; }

static int hit(int fd)
{
    struct stat st;
    if (target == 1) return fd == 1;
    if (target != 2 || fd <= 2 || fstat(fd, &st) || !S_ISREG(st.st_mode)) return 0;
    return (fcntl(fd, F_GETFL) & O_ACCMODE) != O_RDONLY;
}

static ssize_t (*real_write)(int, const void *, size_t);
static int (*real_close)(int);

static ssize_t admit(int fd, size_t n)
{
    calls++;
    if (again && calls % 2 == 1) { faults++; errno = EINTR; return -1; }
    if (limit >= 0) {
        if (done >= limit) { faults++; errno = err; return -1; }
        if (done + (long)n > limit) n = limit - done;
    }
    if (piece >= 0 && (long)n > piece) n = piece;
    return n;
}

ssize_t write(int fd, const void *b, size_t n)
{
    if (!real_write) real_write = dlsym(RTLD_NEXT, "write");
    if (!target || !hit(fd) || !n) return real_write(fd, b, n);
    ssize_t k = admit(fd, n);
    if (k < 0) return -1;
    k = real_write(fd, b, k);
    if (k > 0) done += k;
    return k;
}

ssize_t writev(int fd, const struct iovec *v, int c)
{
    ssize_t t = 0;
    for (int i = 0; i < c; i++) {
        ssize_t k = write(fd, v[i].iov_base, v[i].iov_len);
        if (k < 0) return t ? t : -1;
        t += k;
        if ((size_t)k < v[i].iov_len) break;
    }
    return t;
}

int close(int fd)
{
    if (!real_close) real_close = dlsym(RTLD_NEXT, "close");
    int h = target && close_err && hit(fd);
    int r = real_close(fd);
    if (h) { faults++; errno = close_err; return -1; }
    return r;
}

/* reads: of descriptor 0 (ino 0) or of the regular file with this inode number */
static int r_on;
static unsigned long r_ino;
static long r_limit = -1, r_piece = -1, r_done, r_calls;
static int r_err, r_again;
static ssize_t (*real_read)(int, void *, size_t);

void shim_read(unsigned long ino, long lim, long pc, int e, int ag) { r_on = 1; r_ino = ino; r_limit = lim; r_piece = pc; r_err = e; r_again = ag; }

ssize_t read(int fd, void *b, size_t n)
{
    struct stat st;
    if (!real_read) real_read = dlsym(RTLD_NEXT, "read");
    if (!r_on || !n || (r_ino ? fstat(fd, &st) || st.st_ino != r_ino : fd != 0)) return real_read(fd, b, n);
    r_calls++;
    if (r_again && r_calls % 2 == 1) { errno = EINTR; return -1; }
    if (r_limit >= 0) {
        if (r_done >= r_limit) { errno = r_err; return -1; }
        if (r_done + (long)n > r_limit) n = r_limit - r_done;
    }
    if (r_piece >= 0 && (long)n > r_piece) n = r_piece;
    ssize_t k = real_read(fd, b, n);
    if (k > 0) r_done += k;
    return k;
}
