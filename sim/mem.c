/* Memory: a machine on which one request for a very large block fails. */
#include "core.h"
#include <malloc.h>
extern void *__libc_malloc(size_t), *__libc_calloc(size_t, size_t), *__libc_realloc(void *, size_t), *__libc_memalign(size_t, size_t);
#define SMALL (32u << 20)
static int refuse(size_t n) {
    if (n < SMALL || !ON() || !C->mem_max_mb || n >> 20 < C->mem_max_mb) return 0;
    C->fired_by_kind[FK_NOMEM]++;
    ps_trace(0x4000, n);
    errno = ENOMEM;
    return 1;
}
EXPORT void *malloc(size_t n) { return refuse(n) ? 0 : __libc_malloc(n); }
EXPORT void *calloc(size_t a, size_t b) { size_t n; if (__builtin_mul_overflow(a, b, &n)) n = SIZE_MAX; return refuse(n) ? 0 : __libc_calloc(a, b); }
EXPORT void *realloc(void *p, size_t n) { return refuse(n) ? 0 : __libc_realloc(p, n); }
EXPORT int posix_memalign(void **out, size_t al, size_t n) {
    if (refuse(n)) return ENOMEM;
    if (al % sizeof(void *) || !al || (al & (al - 1))) return EINVAL;
    void *p = __libc_memalign(al, n);
    if (!p) return ENOMEM;
    *out = p;
    return 0;
}
