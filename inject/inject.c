/* Preloaded under the `fault` workload: fails the allocation the monitor names, counts the rest.
   Every allocation made in the monitored thread while armed passes here, the C library's own included. */
#include <errno.h>
#include <stddef.h>
extern void *__libc_malloc(size_t), *__libc_calloc(size_t, size_t), *__libc_realloc(void *, size_t), *__libc_memalign(size_t, size_t);
static __thread long armed __attribute__((tls_model("initial-exec"))), countdown __attribute__((tls_model("initial-exec"))), seen __attribute__((tls_model("initial-exec"))), failed __attribute__((tls_model("initial-exec")));
/* fail the n-th allocation from now on (1 = the next); when lasting is set, all later ones too */
void inject_arm(long n, int lasting) { countdown = n; seen = failed = 0; armed = 1 + !!lasting; }
/* disarm; returns how many allocations were failed, *n how many were attempted */
long inject_disarm(long *n) { armed = 0; *n = seen; return failed; }
static int fail(void) { if (!armed) return 0; seen++; if (seen == countdown || (armed == 2 && seen > countdown)) { failed++; errno = ENOMEM; return 1; } return 0; }
void *malloc(size_t n) { return fail() ? 0 : __libc_malloc(n); }
void *calloc(size_t a, size_t b) { return fail() ? 0 : __libc_calloc(a, b); }
void *realloc(void *p, size_t n) { return fail() ? 0 : __libc_realloc(p, n); }
void *memalign(size_t a, size_t n) { return fail() ? 0 : __libc_memalign(a, n); }
void *aligned_alloc(size_t a, size_t n) { return fail() ? 0 : __libc_memalign(a, n); }
int posix_memalign(void **p, size_t a, size_t n) { if (fail()) return ENOMEM; void *q = __libc_memalign(a, n); if (!q) return ENOMEM; *p = q; return 0; }
