/* Interposes the file-changing libc calls of one armed process: counts them, and at the k-th one kills the process
   before it, after a partial write, or makes it fail.  Nothing is intercepted unless armed. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <string.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

enum { COUNT = 0, KILL = 1, TORN = 2, FAIL = 3, FAIL_FROM = 4, SHORT = 5 };
static int armed, mode, at, err;
static long torn;
static int n;
static unsigned char mine[65536];
static char kinds[4096];

void mc_arm(int m, int k, long t, int e) { mode = m; at = k; torn = t; err = e; n = 0; memset(mine, 0, sizeof mine); armed = 1; }
int mc_disarm(void) { armed = 0; return n; }
char mc_kind(int i) { return i >= 0 && i < 4096 ? kinds[i] : 0; }

static void die(void) { syscall(SYS_exit_group, 137); }
/* returns 1 when the operation must fail */
static int hit(char kind) {
    int k = n++;
    if (k < 4096) kinds[k] = kind;
    if (mode == KILL && k == at) die();
    if (mode == TORN && k == at && kind != 'w') die();
    if ((mode == FAIL && k == at) || (mode == FAIL_FROM && k >= at)) { errno = err; return 1; }
    if (mode == SHORT && k > at) { errno = err; return 1; }
    if (mode == SHORT && k == at && kind != 'w') { errno = err; return 1; }
    return 0;
}
#define REAL(name) static __typeof__(name) *real; if (!real) real = dlsym(RTLD_NEXT, #name)
static int wr(int flags) { return (flags & (O_WRONLY | O_RDWR | O_CREAT | O_TRUNC | O_APPEND)) != 0; }
static void mark(int fd, int flags) { if (armed && fd >= 0 && fd < 65536) mine[fd] = wr(flags); }
static int is(int fd) { return armed && fd >= 0 && fd < 65536 && mine[fd]; }
#define MODE mode_t m = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, flags); m = va_arg(a, mode_t); va_end(a); }

int open(const char *p, int flags, ...) { MODE REAL(open); if (armed && wr(flags) && hit('o')) return -1; int f = real(p, flags, m); mark(f, flags); return f; }
int open64(const char *p, int flags, ...) { MODE REAL(open64); if (armed && wr(flags) && hit('o')) return -1; int f = real(p, flags, m); mark(f, flags); return f; }
int openat(int d, const char *p, int flags, ...) { MODE REAL(openat); if (armed && wr(flags) && hit('o')) return -1; int f = real(d, p, flags, m); mark(f, flags); return f; }
int openat64(int d, const char *p, int flags, ...) { MODE REAL(openat64); if (armed && wr(flags) && hit('o')) return -1; int f = real(d, p, flags, m); mark(f, flags); return f; }

static size_t part(size_t c) { return torn >= 0 ? ((size_t) torn < c ? (size_t) torn : c) : (c > (size_t) -torn ? c + torn : 0); }
ssize_t write(int fd, const void *b, size_t c) {
    REAL(write);
    if (is(fd)) {
        if (hit('w')) return -1;
        if ((mode == TORN || mode == SHORT) && n - 1 == at) {
            size_t q = torn == 0 ? c / 2 : part(c);
            ssize_t r = q ? real(fd, b, q) : 0;
            if (mode == TORN) die();
            if (q == 0) { errno = err; return -1; }
            return r;
        }
    }
    return real(fd, b, c);
}
ssize_t pwrite(int fd, const void *b, size_t c, off_t o) { REAL(pwrite); if (is(fd) && hit('p')) return -1; return real(fd, b, c, o); }
ssize_t pwrite64(int fd, const void *b, size_t c, off64_t o) { REAL(pwrite64); if (is(fd) && hit('p')) return -1; return real(fd, b, c, o); }
ssize_t writev(int fd, const struct iovec *v, int c) { REAL(writev); if (is(fd) && hit('v')) return -1; return real(fd, v, c); }
ssize_t sendfile(int o, int i, off_t *p, size_t c) { static ssize_t (*real)(int, int, off_t *, size_t); if (!real) real = dlsym(RTLD_NEXT, "sendfile"); if (is(o) && hit('s')) return -1; return real(o, i, p, c); }
ssize_t sendfile64(int o, int i, off64_t *p, size_t c) { static ssize_t (*real)(int, int, off64_t *, size_t); if (!real) real = dlsym(RTLD_NEXT, "sendfile64"); if (is(o) && hit('s')) return -1; return real(o, i, p, c); }
ssize_t copy_file_range(int i, off64_t *p, int o, off64_t *q, size_t c, unsigned f) { REAL(copy_file_range); if (is(o) && hit('s')) return -1; return real(i, p, o, q, c, f); }
int rename(const char *a, const char *b) { REAL(rename); if (armed && hit('r')) return -1; return real(a, b); }
int renameat(int d, const char *a, int e, const char *b) { REAL(renameat); if (armed && hit('r')) return -1; return real(d, a, e, b); }
int renameat2(int d, const char *a, int e, const char *b, unsigned f) { REAL(renameat2); if (armed && hit('r')) return -1; return real(d, a, e, b, f); }
int unlink(const char *a) { REAL(unlink); if (armed && hit('u')) return -1; return real(a); }
int unlinkat(int d, const char *a, int f) { REAL(unlinkat); if (armed && hit('u')) return -1; return real(d, a, f); }
int remove(const char *a) { REAL(remove); if (armed && hit('u')) return -1; return real(a); }
int rmdir(const char *a) { REAL(rmdir); if (armed && hit('u')) return -1; return real(a); }
int fsync(int fd) { REAL(fsync); if (is(fd) && hit('f')) return -1; return real(fd); }
int fdatasync(int fd) { REAL(fdatasync); if (is(fd) && hit('f')) return -1; return real(fd); }
int ftruncate(int fd, off_t o) { REAL(ftruncate); if (is(fd) && hit('t')) return -1; return real(fd, o); }
int ftruncate64(int fd, off64_t o) { REAL(ftruncate64); if (is(fd) && hit('t')) return -1; return real(fd, o); }
int truncate(const char *p, off_t o) { REAL(truncate); if (armed && hit('t')) return -1; return real(p, o); }
int truncate64(const char *p, off64_t o) { REAL(truncate64); if (armed && hit('t')) return -1; return real(p, o); }
int mkdir(const char *p, mode_t m) { REAL(mkdir); if (armed && hit('d')) return -1; return real(p, m); }
int mkdirat(int d, const char *p, mode_t m) { REAL(mkdirat); if (armed && hit('d')) return -1; return real(d, p, m); }
int link(const char *a, const char *b) { REAL(link); if (armed && hit('l')) return -1; return real(a, b); }
int linkat(int d, const char *a, int e, const char *b, int f) { REAL(linkat); if (armed && hit('l')) return -1; return real(d, a, e, b, f); }
int symlink(const char *a, const char *b) { REAL(symlink); if (armed && hit('l')) return -1; return real(a, b); }
int close(int fd) {
    REAL(close);
    if (is(fd)) {
        int h = hit('c');
        mine[fd] = 0;
        int r = real(fd);
        if (h) { errno = err; return -1; }
        return r;
    }
    return real(fd);
}
