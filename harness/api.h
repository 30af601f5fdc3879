/* The table of operations through which every interface ("surface") of the library is driven.
 * Handles are opaque. An entry is NULL when the surface does not offer the operation. */
#ifndef VF_API_H
#define VF_API_H
#include <stddef.h>
#ifdef __cplusplus
extern "C" {
#endif

#define VF_FLAG_SETKEY_ON_SET 1 /* Set/SetFast into a keyed value takes over the source's key (beta) */
#define VF_FLAG_GO 2            /* results are Go copies: pointers are not library memory */
#define VF_FLAG_NARROW 4        /* 16-bit size type: keep every single text below 30000 bytes */
#define VF_FLAG_MEMCOUNT 8      /* counters available through MemCounters */
#define VF_FLAG_EXACT 16        /* exact-block hook active */

/* types as returned by Type(): 0 absent, else the documented values */
enum { T_EMPTY = 0, T_BOOL = 1, T_ARR = 2, T_OBJ = 3, T_STR = 4, T_NULL = 5, T_NUM = 6 };

typedef struct Api {
  const char *name;
  unsigned flags;
  void *(*NewAllocator)(void);
  void (*ReleaseAllocator)(void *a);
  void *(*NewValue)(void *a);
  void *(*NewValueFrom)(void *v);
  void *(*AllocatorOf)(void *v);
  void *(*AllocatorId)(void *a); /* what AllocatorOf must return */
  int (*ParseFast)(void *v, const char *s);
  int (*Parse)(void *v, const char *s);
  int (*ParseLen)(void *v, const char *s, size_t n);
  const char *(*Stringify)(void *v);
  const char *(*GetStrFast)(void *v, size_t *n);
  const char *(*GetStr)(void *v);
  const char *(*GetUnEscapeStr)(void *v);
  const char *(*GetNumFast)(void *v, size_t *n);
  const char *(*GetNumStr)(void *v);
  const double *(*GetNum)(void *v);
  const double *(*GetDouble)(void *v);
  const int *(*GetInt)(void *v);
  const long *(*GetLong)(void *v);
  const long long *(*GetLongLong)(void *v);
  int (*GetBool)(void *v); /* -1 absent */
  int (*IsNull)(void *v);
  const char *(*GetKeyFast)(void *v, size_t *n);
  const char *(*GetKey)(void *v);
  const char *(*GetUnEscapeKey)(void *v);
  void *(*ObjGet)(void *v, const char *k);
  void *(*ObjGetLen)(void *v, const char *k, size_t n);
  int (*Type)(void *v);
  size_t (*SizeOf)(void *v);
  void *(*ArrayGet)(void *v, size_t i);
  void *(*Begin)(void *v);
  void *(*Next)(void *v);
  void *(*Copy)(void *v);
  int (*Move)(void *v);
  void (*SetNull)(void *v);
  void (*SetBool)(void *v, int b);
  int (*SetNumStrFast)(void *v, const char *s);
  int (*SetNumStrLenFast)(void *v, const char *s, size_t n);
  int (*SetNumStr)(void *v, const char *s);
  int (*SetNumStrLen)(void *v, const char *s, size_t n);
  int (*SetNum)(void *v, double d);
  int (*SetDouble)(void *v, double d);
  int (*SetInt)(void *v, int d);
  int (*SetLong)(void *v, long d);
  int (*SetLongLong)(void *v, long long d);
  int (*SetStrFast)(void *v, const char *s);
  int (*SetStrLenFast)(void *v, const char *s, size_t n);
  int (*SetStr)(void *v, const char *s);
  int (*SetStrLen)(void *v, const char *s, size_t n);
  int (*SetStrEscape)(void *v, const char *s);
  int (*SetStrLenEscape)(void *v, const char *s, size_t n);
  int (*SetKeyFast)(void *v, const char *s);
  int (*SetKeyLenFast)(void *v, const char *s, size_t n);
  int (*SetKey)(void *v, const char *s);
  int (*SetKeyLen)(void *v, const char *s, size_t n);
  int (*SetKeyEscape)(void *v, const char *s);
  int (*SetKeyLenEscape)(void *v, const char *s, size_t n);
  void (*SetArray)(void *v);
  void (*SetObj)(void *v);
  int (*SetFast)(void *v, void *vv);
  int (*Set)(void *v, void *vv);
  int (*ObjAddFast)(void *v, void *vv);
  int (*ObjAdd)(void *v, void *vv);
  int (*ArrayAddFast)(void *v, void *vv);
  int (*ArrayAdd)(void *v, void *vv);
  int (*ArrayDel)(void *v, size_t i);
  int (*ObjDel)(void *v, const char *k);
  int (*ObjDelLen)(void *v, const char *k, size_t n); /* only where the key is a counted string */
  /* the pointers GetBool and Type return, and the size of what they point to */
  const void *(*RawBool)(void *v, size_t *n);
  const void *(*RawType)(void *v, size_t *n);
  /* surfaces whose results are not plain memory: null, or what changed in a result returned earlier */
  const char *(*Audit)(void);
  /* counters of the library's counting memory mode, or hook-call counters of the custom mode */
  void (*MemCounters)(unsigned long long *allocs, unsigned long long *frees);
} Api;

#ifdef __cplusplus
}
#endif
#endif
