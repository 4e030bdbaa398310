/* LD_PRELOAD: the volume of memory requested from the C library (objects of more than 512 bytes in CPython): what is copied by
   compiled code is first allocated.  A growing block counts by its growth. */
#include <errno.h>
#include <malloc.h>
#include <stddef.h>

extern void *__libc_malloc(size_t);
extern void *__libc_calloc(size_t, size_t);
extern void *__libc_realloc(void *, size_t);

static _Thread_local unsigned long long volume __attribute__((tls_model("initial-exec")));

unsigned long long simalloc_volume(void) { return volume; }

void *malloc(size_t n) { volume += n; return __libc_malloc(n); }

void *calloc(size_t k, size_t n) { volume += k * n; return __libc_calloc(k, n); }

void *realloc(void *p, size_t n) {
    size_t old = p ? malloc_usable_size(p) : 0;
    if (n > old) volume += n - old;
    return __libc_realloc(p, n);
}
