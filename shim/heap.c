// LD_PRELOAD library for the harness: the number of bytes on the heap that are in use, in a shared file (VERIF_HEAP).
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <malloc.h>
#include <stdint.h>
#include <stdlib.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <unistd.h>

extern void *__libc_malloc(size_t);
extern void *__libc_calloc(size_t, size_t);
extern void *__libc_realloc(void *, size_t);
extern void *__libc_memalign(size_t, size_t);
extern void __libc_free(void *);

static int64_t early;
static int64_t *live = &early;

__attribute__((constructor)) static void start(void) {
    const char *p = getenv("VERIF_HEAP");
    if (!p) return;
    int fd = syscall(SYS_openat, AT_FDCWD, p, O_RDWR | O_CLOEXEC);
    if (fd < 0) return;
    void *m = mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    syscall(SYS_close, fd);
    if (m == MAP_FAILED) return;
    int64_t *s = m;
    *s = early;
    live = s;
}

static void *in(void *p) {
    if (p) __atomic_add_fetch(live, (int64_t)malloc_usable_size(p), __ATOMIC_RELAXED);
    return p;
}

static void out(void *p) {
    if (p) __atomic_sub_fetch(live, (int64_t)malloc_usable_size(p), __ATOMIC_RELAXED);
}

void *malloc(size_t n) { return in(__libc_malloc(n)); }
void *calloc(size_t a, size_t b) { return in(__libc_calloc(a, b)); }
void *memalign(size_t a, size_t n) { return in(__libc_memalign(a, n)); }
void *aligned_alloc(size_t a, size_t n) { return in(__libc_memalign(a, n)); }
int posix_memalign(void **r, size_t a, size_t n) {
    void *p = in(__libc_memalign(a, n));
    if (!p) return ENOMEM;
    *r = p;
    return 0;
}
void free(void *p) {
    out(p);
    __libc_free(p);
}
void *realloc(void *p, size_t n) {
    size_t was = p ? malloc_usable_size(p) : 0;
    void *q = __libc_realloc(p, n);
    if (q) __atomic_add_fetch(live, (int64_t)malloc_usable_size(q) - (int64_t)was, __ATOMIC_RELAXED);
    else if (n == 0) __atomic_sub_fetch(live, (int64_t)was, __ATOMIC_RELAXED);
    return q;
}
