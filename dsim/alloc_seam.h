/* Force-included into the code under test: lets the simulator fail chosen
   allocations.  The weak hook is absent outside the simulator. */
#ifndef DSIM_ALLOC_SEAM_H
#define DSIM_ALLOC_SEAM_H
#ifndef __ASSEMBLER__
#ifndef __cplusplus
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include <stdlib.h>
#include <string.h>
#include <errno.h>
extern int dsim_alloc_fail_hook(void) __attribute__((weak));
static inline int dsim_alloc_fail_(void)
{
  if (dsim_alloc_fail_hook && dsim_alloc_fail_hook()) { errno = ENOMEM; return 1; }
  return 0;
}
/* the simulated process may use no more than 1 GB at once */
static inline int dsim_too_large_(size_t n, size_t m)
{
  size_t r;
  if (!dsim_alloc_fail_hook) return 0;
  if (__builtin_mul_overflow(n, m, &r) || r > ((size_t)1 << 30)) { errno = ENOMEM; return 1; }
  return dsim_alloc_fail_();
}
#define malloc(n)     ({ size_t n_=(n); dsim_too_large_(n_, 1) ? (void *)0 : malloc(n_); })
#define calloc(n, m)  ({ size_t n_=(n), m_=(m); dsim_too_large_(n_, m_) ? (void *)0 : calloc(n_, m_); })
#define realloc(p, n) ({ void *p_=(p); size_t n_=(n); dsim_too_large_(n_, 1) ? (void *)0 : realloc(p_, n_); })
/* plain names, not function-like macros: generated code declares them again */
static inline char *dsim_strdup_(const char *s) { return dsim_alloc_fail_() ? (char *)0 : strdup(s); }
static inline char *dsim_strndup_(const char *s, size_t n) { return dsim_alloc_fail_() ? (char *)0 : strndup(s, n); }
#undef strdup
#define strdup dsim_strdup_
#undef strndup
#define strndup dsim_strndup_
#endif
#endif
#endif
