// LD_PRELOAD library for the harness: file-system operations below one directory can be counted, killed at, failed,
// shortened or held; the wall clock can be stepped. Controlled through a shared memory file (VERIF_CTL).
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

struct ctl {
    volatile int64_t ops;       // counted operations so far
    volatile int64_t fire_at;   // operation number (1-based) to act on; 0: none
    volatile int64_t action;    // see below
    volatile int64_t fired;
    volatile int64_t held;
    volatile int64_t release;
    volatile int64_t clock_ns;  // current offset of CLOCK_REALTIME
    volatile int64_t clock_calls;
    volatile int64_t steps;     // number of planned clock steps
    volatile int64_t step[2 * 64]; // (call number, offset)
    volatile char log[64 * 256]; // one letter+size per operation
    volatile int64_t foreign;   // attempts to change something outside of the guarded directory
    volatile char foreign_path[1024];
};

enum { KILL_BEFORE = 1, KILL_AFTER = 2, KILL_PARTIAL = 3, FAIL_EIO = 4, FAIL_ENOSPC = 5, HOLD = 6, SHORT = 7, FAIL_EIO_ALL = 8, PARTIAL_ENOSPC = 9 };

static struct ctl *ctl;
static char dir[4096];
static size_t dirlen;
static char guard[4096];
static size_t guardlen;
static unsigned char tracked[65536];

static void init(void) {
    static int done;
    if (done) return;
    done = 1;
    const char *p = getenv("VERIF_CTL"), *d = getenv("VERIF_FS_DIR");
    if (d && strlen(d) < sizeof dir) {
        strcpy(dir, d);
        dirlen = strlen(dir);
    }
    const char *g = getenv("VERIF_GUARD");
    if (g && strlen(g) < sizeof guard) {
        strcpy(guard, g);
        guardlen = strlen(guard);
    }
    if (!p) return;
    int fd = syscall(SYS_openat, AT_FDCWD, p, O_RDWR | O_CLOEXEC);
    if (fd < 0) return;
    void *m = mmap(0, sizeof(struct ctl), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    syscall(SYS_close, fd);
    if (m != MAP_FAILED) ctl = m;
}

__attribute__((constructor)) static void start(void) { init(); }

static int in_dir(const char *p) {
    init();
    return ctl && dirlen && p && strncmp(p, dir, dirlen) == 0 && (p[dirlen] == '/' || p[dirlen] == 0);
}

// Changes outside of the guarded directory are refused and recorded. Relative paths are below the working directory, which is guarded.
static int outside(const char *p) {
    init();
    if (!guardlen || !p || p[0] == 0) return 0;
    int out;
    if (p[0] == '/') {
        out = !(strncmp(p, guard, guardlen) == 0 && (p[guardlen] == '/' || p[guardlen] == 0)) && strncmp(p, "/dev/", 5) != 0 && strncmp(p, "/proc/self/", 11) != 0;
        if (strstr(p, "/../")) out = 1;
    } else {
        out = strncmp(p, "../", 3) == 0 || strstr(p, "/../") != 0;
    }
    if (out && ctl) {
        if (__atomic_add_fetch(&ctl->foreign, 1, __ATOMIC_SEQ_CST) == 1)
            for (int i = 0; i < 1023 && p[i]; i++) ctl->foreign_path[i] = p[i];
    }
    if (out) errno = EACCES;
    return out;
}

static int is_tracked(int fd) { return ctl && fd >= 0 && fd < (int)sizeof tracked && tracked[fd]; }

static void die(void) {
    syscall(SYS_kill, getpid(), SIGKILL);
    for (;;) pause();
}

// Returns the action for this operation (0: none). KILL_BEFORE, HOLD and failures are resolved here.
static int op(char letter) {
    int64_t n = __atomic_add_fetch(&ctl->ops, 1, __ATOMIC_SEQ_CST);
    if (n <= 64 * 256) ctl->log[n - 1] = letter;
    int64_t at = ctl->fire_at;
    int a = (int)ctl->action;
    if (at == 0) return 0;
    if (n != at && !(a == FAIL_EIO_ALL && n > at)) return 0;
    __atomic_add_fetch(&ctl->fired, 1, __ATOMIC_SEQ_CST);
    if (a == KILL_BEFORE) die();
    if (a == HOLD) {
        ctl->held = 1;
        while (!ctl->release) {
            struct timespec t = {0, 200000};
            syscall(SYS_nanosleep, &t, 0);
        }
        return 0;
    }
    return a;
}

#define REAL(name) \
    static __typeof__(&name) real; \
    if (!real) real = (__typeof__(&name))dlsym(RTLD_NEXT, #name)

#define FAILS(a) \
    if ((a) == FAIL_EIO || (a) == FAIL_EIO_ALL) { errno = EIO; return -1; } \
    if ((a) == FAIL_ENOSPC || (a) == PARTIAL_ENOSPC) { errno = ENOSPC; return -1; }

#define AFTER(a) if ((a) == KILL_AFTER || (a) == KILL_PARTIAL) die();

static int writing(int flags) { return (flags & (O_WRONLY | O_RDWR | O_CREAT | O_TRUNC)) != 0; }

static int track(int fd, int on) {
    if (fd >= 0 && fd < (int)sizeof tracked) tracked[fd] = on;
    return fd;
}

#define OPEN(name, call) \
    if (writing(flags) && outside(path)) return -1; \
    int hit = in_dir(path); \
    if (hit && writing(flags)) { \
        int a = op('o'); \
        FAILS(a) \
        int fd = call; \
        AFTER(a) \
        return track(fd, 1); \
    } \
    return track(call, hit);

int open(const char *path, int flags, ...) {
    REAL(open);
    va_list ap;
    va_start(ap, flags);
    mode_t mode = va_arg(ap, mode_t);
    va_end(ap);
    OPEN(open, real(path, flags, mode))
}

int open64(const char *path, int flags, ...) {
    REAL(open64);
    va_list ap;
    va_start(ap, flags);
    mode_t mode = va_arg(ap, mode_t);
    va_end(ap);
    OPEN(open64, real(path, flags, mode))
}

int openat(int d, const char *path, int flags, ...) {
    REAL(openat);
    va_list ap;
    va_start(ap, flags);
    mode_t mode = va_arg(ap, mode_t);
    va_end(ap);
    OPEN(openat, real(d, path, flags, mode))
}

int openat64(int d, const char *path, int flags, ...) {
    REAL(openat64);
    va_list ap;
    va_start(ap, flags);
    mode_t mode = va_arg(ap, mode_t);
    va_end(ap);
    OPEN(openat64, real(d, path, flags, mode))
}

#define WRITE(len, call_full, call_half) \
    if (!is_tracked(fd)) return call_full; \
    int a = op('w'); \
    if (a == PARTIAL_ENOSPC) { ssize_t r = call_half; (void)r; errno = ENOSPC; return -1; } \
    FAILS(a) \
    if (a == SHORT && (len) > 1) return call_half; \
    if (a == KILL_PARTIAL) { ssize_t r = call_half; (void)r; die(); } \
    ssize_t r = call_full; \
    AFTER(a) \
    return r;

ssize_t write(int fd, const void *b, size_t n) {
    REAL(write);
    WRITE(n, real(fd, b, n), real(fd, b, n / 2))
}

ssize_t pwrite(int fd, const void *b, size_t n, off_t o) {
    REAL(pwrite);
    WRITE(n, real(fd, b, n, o), real(fd, b, n / 2, o))
}

ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) {
    REAL(pwrite64);
    WRITE(n, real(fd, b, n, o), real(fd, b, n / 2, o))
}

ssize_t writev(int fd, const struct iovec *v, int n) {
    REAL(writev);
    WRITE(n, real(fd, v, n), real(fd, v, 1))
}

#define SIMPLE(cond, letter, call) \
    if (!(cond)) return call; \
    int a = op(letter); \
    FAILS(a) \
    int r = call; \
    AFTER(a) \
    return r;

// A failed sync means that what was written may not be on the disk: half of the file is gone.
static void lose(int fd) {
    struct stat st;
    if (fstat(fd, &st) == 0 && S_ISREG(st.st_mode)) syscall(SYS_ftruncate, fd, st.st_size / 2);
}

#define SYNC(call) \
    if (!is_tracked(fd)) return call; \
    int a = op('s'); \
    if (a == FAIL_EIO || a == FAIL_EIO_ALL || a == FAIL_ENOSPC || a == PARTIAL_ENOSPC) lose(fd); \
    FAILS(a) \
    int r = call; \
    AFTER(a) \
    return r;

int fsync(int fd) {
    REAL(fsync);
    SYNC(real(fd))
}

int fdatasync(int fd) {
    REAL(fdatasync);
    SYNC(real(fd))
}

int ftruncate(int fd, off_t n) {
    REAL(ftruncate);
    SIMPLE(is_tracked(fd), 't', real(fd, n))
}

int ftruncate64(int fd, off64_t n) {
    REAL(ftruncate64);
    SIMPLE(is_tracked(fd), 't', real(fd, n))
}

int rename(const char *x, const char *y) {
    REAL(rename);
    if (outside(x) || outside(y)) return -1;
    SIMPLE(in_dir(x) || in_dir(y), 'r', real(x, y))
}

int renameat(int d, const char *x, int e, const char *y) {
    REAL(renameat);
    if (outside(x) || outside(y)) return -1;
    SIMPLE(in_dir(x) || in_dir(y), 'r', real(d, x, e, y))
}

int renameat2(int d, const char *x, int e, const char *y, unsigned f) {
    REAL(renameat2);
    if (outside(x) || outside(y)) return -1;
    SIMPLE(in_dir(x) || in_dir(y), 'r', real(d, x, e, y, f))
}

int unlink(const char *x) {
    REAL(unlink);
    if (outside(x)) return -1;
    SIMPLE(in_dir(x), 'u', real(x))
}

int unlinkat(int d, const char *x, int f) {
    REAL(unlinkat);
    if (outside(x)) return -1;
    SIMPLE(in_dir(x), 'u', real(d, x, f))
}

int link(const char *x, const char *y) {
    REAL(link);
    if (outside(y)) return -1;
    SIMPLE(in_dir(y), 'l', real(x, y))
}

int linkat(int d, const char *x, int e, const char *y, int f) {
    REAL(linkat);
    if (outside(y)) return -1;
    SIMPLE(in_dir(y), 'l', real(d, x, e, y, f))
}

int symlink(const char *x, const char *y) {
    REAL(symlink);
    if (outside(y)) return -1;
    SIMPLE(in_dir(y), 'l', real(x, y))
}

int mkdir(const char *x, mode_t m) {
    REAL(mkdir);
    if (outside(x)) return -1;
    SIMPLE(in_dir(x), 'm', real(x, m))
}

int rmdir(const char *x) {
    REAL(rmdir);
    if (outside(x)) return -1;
    SIMPLE(in_dir(x), 'u', real(x))
}

int truncate(const char *x, off_t n) {
    REAL(truncate);
    if (outside(x)) return -1;
    SIMPLE(in_dir(x), 't', real(x, n))
}

int chmod(const char *x, mode_t m) {
    REAL(chmod);
    if (outside(x)) return -1;
    return real(x, m);
}

ssize_t copy_file_range(int a_, off64_t *ao, int fd, off64_t *bo, size_t n, unsigned f) {
    REAL(copy_file_range);
    WRITE(n, real(a_, ao, fd, bo, n, f), real(a_, ao, fd, bo, n / 2, f))
}

ssize_t sendfile64(int fd, int in, off64_t *o, size_t n);
ssize_t sendfile64(int fd, int in, off64_t *o, size_t n) {
    REAL(sendfile64);
    WRITE(n, real(fd, in, o, n), real(fd, in, o, n / 2))
}

int close(int fd) {
    REAL(close);
    if (fd >= 0 && fd < (int)sizeof tracked) tracked[fd] = 0;
    return real(fd);
}

static int64_t offset(void) {
    init();
    if (!ctl) return 0;
    int64_t n = __atomic_add_fetch(&ctl->clock_calls, 1, __ATOMIC_SEQ_CST);
    for (int i = 0; i < ctl->steps && i < 64; i++)
        if (ctl->step[2 * i] == n) ctl->clock_ns = ctl->step[2 * i + 1];
    return ctl->clock_ns;
}

int clock_gettime(clockid_t id, struct timespec *t) {
    REAL(clock_gettime);
    int r = real(id, t);
    if (r == 0 && (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE)) {
        int64_t o = offset();
        int64_t s = t->tv_sec + o / 1000000000, n = t->tv_nsec + o % 1000000000;
        if (n < 0) { n += 1000000000; s--; }
        if (n >= 1000000000) { n -= 1000000000; s++; }
        t->tv_sec = s;
        t->tv_nsec = n;
    }
    return r;
}

int gettimeofday(struct timeval *t, void *z) {
    REAL(gettimeofday);
    int r = real(t, z);
    if (r == 0) {
        int64_t o = offset() / 1000;
        int64_t us = t->tv_sec * 1000000ll + t->tv_usec + o;
        t->tv_sec = us / 1000000;
        t->tv_usec = us % 1000000;
    }
    return r;
}

time_t time(time_t *p) {
    struct timespec t;
    clock_gettime(CLOCK_REALTIME, &t);
    if (p) *p = t.tv_sec;
    return t.tv_sec;
}
