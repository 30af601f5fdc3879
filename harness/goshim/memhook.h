/* Laid as zzzjson.h in front of the real header when the Go package is built for the checks: memory mode 3 with counting hooks, so that
 * what the package obtains through its allocators can be balanced against what it returns. */
#ifndef VF_MEMHOOK_H
#define VF_MEMHOOK_H
#include <stdlib.h>
#include <stdint.h>
#include <malloc.h>
#include <string.h>
extern unsigned long long vf_hook_allocs __attribute__((weak));
extern unsigned long long vf_hook_frees __attribute__((weak));
#ifndef zj_SIZE_TYPE
#define zj_SIZE_TYPE uint32_t
#endif
static inline void *zj_new(zj_SIZE_TYPE size) {
  if (&vf_hook_allocs) __atomic_add_fetch(&vf_hook_allocs, 1, __ATOMIC_RELAXED);
  return malloc(size);
}
static inline void zj_free(void *p) {
  if (&vf_hook_frees) __atomic_add_fetch(&vf_hook_frees, 1, __ATOMIC_RELAXED);
  if (&vf_hook_frees && p) memset(p, 0xDB, malloc_usable_size(p)); /* nobody may still look at it */
  free(p);
}
#ifndef zj_MEMORY_MODE
#define zj_MEMORY_MODE 3
#endif
#include "real/zzzjson.h"
#endif
