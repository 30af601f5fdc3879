/* Adapts one surface of the library, taken from the repository under test, to the table in api.h.
 * Compiled as C or C++ with -DSURFACE_xxx. Uses the public API only. */
#include "api.h"
#include <stdlib.h>

#define CAT_(a, b) a##b
#define CAT(a, b) CAT_(a, b)

#if defined(SURFACE_C_LONG)
#define zj_API_MODE 0
#endif

#if defined(SURFACE_MODE3)
/* user supplied memory and branch hooks (memory mode 3, expect mode 3) */
#include <stdint.h>
static unsigned long long vf_hook_allocs, vf_hook_frees;
#ifdef __cplusplus
namespace zj {
#endif
static inline void *zj_new(zj_SIZE_TYPE size) {
  __atomic_add_fetch(&vf_hook_allocs, 1, __ATOMIC_RELAXED);
  return malloc(size);
}
static inline void zj_free(void *p) {
  __atomic_add_fetch(&vf_hook_frees, 1, __ATOMIC_RELAXED);
  free(p);
}
#ifdef __cplusplus
}
#endif
#define zj_LIKELY(x) (x)
#define zj_UNLIKELY(x) (x)
#endif

#if defined(SURFACE_BETA_MODE3)
#define SURFACE_MODE3
static unsigned long long vf_hook_allocs, vf_hook_frees;
static inline void *z_New(unsigned int size) {
  __atomic_add_fetch(&vf_hook_allocs, 1, __ATOMIC_RELAXED);
  return malloc(size);
}
static inline void z_Free(void *p) {
  __atomic_add_fetch(&vf_hook_frees, 1, __ATOMIC_RELAXED);
  free(p);
}
#define z_LIKELY(x) (x)
#define z_UNLIKELY(x) (x)
#endif

#if defined(SURFACE_BETA_LONG) || defined(SURFACE_BETA_SHORT)
#include "beta/zzzjson_beta.h"
typedef struct z_Value VT;
typedef struct z_Allocator AT;
typedef z_SIZE SZ;
#define IS_BETA 1
#define FLAGS0 VF_FLAG_SETKEY_ON_SET
#ifdef SURFACE_BETA_LONG
#define F(fn) CAT(z_Value, fn)
#define BNEWA() z_AllocatorNew()
#define BRELA(a) z_AllocatorRelease(a)
#define BNEWV(a) z_ValueNew(a)
#else
#define F(fn) fn
#define BNEWA() NewAllocator()
#define BRELA(a) ReleaseAllocator(a)
#define BNEWV(a) NewValue(a)
#endif
#define M0(fn, v) F(fn)((VT *)(v))
#define M1(fn, v, a) F(fn)((VT *)(v), a)
#define M2(fn, v, a, b) F(fn)((VT *)(v), a, b)
#define GETSTR GetString
#define GETSTRFAST GetStringFast
#define GETUNSTR GetUnEscapeString
#define SIZEOF Size
#elif defined(SURFACE_HPP)
#include "zzzjson.hpp"
typedef zzzjson::Value VT;
typedef zzzjson::Allocator AT;
typedef zzzjson::SIZE SZ;
#define M0(fn, v) ((VT *)(v))->fn()
#define M1(fn, v, a) ((VT *)(v))->fn(a)
#define M2(fn, v, a, b) ((VT *)(v))->fn(a, b)
#define SIZEOF Size
#else
#include "zzzjson.h"
#if defined(SURFACE_CPP_MEMBER)
typedef zj::Value VT;
typedef zj::Allocator AT;
typedef zj::Size SZ;
#define M0(fn, v) ((VT *)(v))->fn()
#define M1(fn, v, a) ((VT *)(v))->fn(a)
#define M2(fn, v, a, b) ((VT *)(v))->fn(a, b)
#elif defined(SURFACE_CPP_FREE)
typedef zj::Value VT;
typedef zj::Allocator AT;
typedef zj::Size SZ;
#define M0(fn, v) zj::fn((VT *)(v))
#define M1(fn, v, a) zj::fn((VT *)(v), a)
#define M2(fn, v, a, b) zj::fn((VT *)(v), a, b)
#elif defined(SURFACE_CPP_LONG)
typedef zj::zj_Value VT;
typedef zj::zj_Allocator AT;
typedef zj::zj_Size SZ;
#define M0(fn, v) zj::CAT(zj_, fn)((VT *)(v))
#define M1(fn, v, a) zj::CAT(zj_, fn)((VT *)(v), a)
#define M2(fn, v, a, b) zj::CAT(zj_, fn)((VT *)(v), a, b)
#elif defined(SURFACE_C_SHORT)
typedef Value VT;
typedef Allocator AT;
typedef Size SZ;
#define M0(fn, v) fn((VT *)(v))
#define M1(fn, v, a) fn((VT *)(v), a)
#define M2(fn, v, a, b) fn((VT *)(v), a, b)
#else /* SURFACE_C_LONG */
typedef zj_Value VT;
typedef zj_Allocator AT;
typedef zj_Size SZ;
#define M0(fn, v) CAT(zj_, fn)((VT *)(v))
#define M1(fn, v, a) CAT(zj_, fn)((VT *)(v), a)
#define M2(fn, v, a, b) CAT(zj_, fn)((VT *)(v), a, b)
#endif
#define SIZEOF SizeOf
#endif
#ifndef GETSTR
#define GETSTR GetStr
#define GETSTRFAST GetStrFast
#define GETUNSTR GetUnEscapeStr
#endif
#ifndef FLAGS0
#define FLAGS0 0
#endif
#ifdef EXTRA_FLAGS
#define FLAGS (FLAGS0 | (EXTRA_FLAGS))
#else
#define FLAGS FLAGS0
#endif

#define STR_(x) #x
#define STR(x) STR_(x)

/* ---- allocators and values ---- */
static void *s_NewAllocator(void) {
#if defined(IS_BETA)
  return BNEWA();
#elif defined(SURFACE_HPP) || defined(SURFACE_CPP_MEMBER)
  return new AT();
#elif defined(SURFACE_CPP_FREE)
  return zj::NewAllocator();
#elif defined(SURFACE_CPP_LONG)
  return zj::zj_NewAllocator();
#elif defined(SURFACE_C_SHORT)
  return NewAllocator();
#else
  return zj_NewAllocator();
#endif
}
static void s_ReleaseAllocator(void *a) {
#if defined(IS_BETA)
  BRELA((AT *)a);
#elif defined(SURFACE_HPP) || defined(SURFACE_CPP_MEMBER)
  delete (AT *)a;
#elif defined(SURFACE_CPP_FREE)
  zj::ReleaseAllocator((AT *)a);
#elif defined(SURFACE_CPP_LONG)
  zj::zj_ReleaseAllocator((AT *)a);
#elif defined(SURFACE_C_SHORT)
  ReleaseAllocator((AT *)a);
#else
  zj_ReleaseAllocator((AT *)a);
#endif
}
static void *s_NewValue(void *a) {
#if defined(IS_BETA)
  return BNEWV((AT *)a);
#elif defined(SURFACE_HPP) || defined(SURFACE_CPP_MEMBER)
  return VT::NewValue((AT *)a);
#elif defined(SURFACE_CPP_FREE)
  return zj::NewValue((AT *)a);
#elif defined(SURFACE_CPP_LONG)
  return zj::zj_NewValue((AT *)a);
#elif defined(SURFACE_C_SHORT)
  return NewValue((AT *)a);
#else
  return zj_NewValue((AT *)a);
#endif
}
#if defined(SURFACE_HPP)
static void *s_NewValueFrom(void *v) { return ((VT *)v)->NewValue(); }
#endif
#if defined(SURFACE_CPP_MEMBER)
static void *s_AllocatorOf(void *v) { return ((VT *)v)->Allocator(); }
static void *s_AllocatorId(void *a) { return a; }
#endif

/* ---- parse / serialise ---- */
static int s_ParseFast(void *v, const char *s) { return M1(ParseFast, v, s) ? 1 : 0; }
static int s_Parse(void *v, const char *s) { return M1(Parse, v, s) ? 1 : 0; }
static int s_ParseLen(void *v, const char *s, size_t n) { return M2(ParseLen, v, s, (SZ)n) ? 1 : 0; }
static const char *s_Stringify(void *v) { return M0(Stringify, v); }

/* ---- getters ---- */
#define LENGETTER(name, fn)                                                                        \
  static const char *s_##name(void *v, size_t *n) {                                                \
    SZ l = (SZ)0x5a5a;                                                                             \
    const char *r = M1(fn, v, &l);                                                                 \
    *n = (size_t)l;                                                                                \
    return r;                                                                                      \
  }
LENGETTER(GetStrFast, GETSTRFAST)
LENGETTER(GetNumFast, GetNumFast)
LENGETTER(GetKeyFast, GetKeyFast)
static const char *s_GetStr(void *v) { return M0(GETSTR, v); }
static const char *s_GetUnEscapeStr(void *v) { return M0(GETUNSTR, v); }
static const char *s_GetNumStr(void *v) { return M0(GetNumStr, v); }
static const double *s_GetNum(void *v) { return M0(GetNum, v); }
#ifndef IS_BETA
static const double *s_GetDouble(void *v) { return M0(GetDouble, v); }
static const int *s_GetInt(void *v) { return M0(GetInt, v); }
static const long *s_GetLong(void *v) { return M0(GetLong, v); }
static const long long *s_GetLongLong(void *v) { return M0(GetLongLong, v); }
#endif
static int s_GetBool(void *v) {
#ifdef IS_BETA
  const z_BOOL *b = M0(GetBool, v);
#else
  const bool *b = M0(GetBool, v);
#endif
  return b ? (*b ? 1 : 0) : -1;
}
static const void *s_RawBool(void *v, size_t *n) {
#ifdef IS_BETA
  const z_BOOL *b = M0(GetBool, v);
#else
  const bool *b = M0(GetBool, v);
#endif
  *n = sizeof *b;
  return b;
}
static int s_IsNull(void *v) { return M0(IsNull, v) ? 1 : 0; }
static const char *s_GetKey(void *v) { return M0(GetKey, v); }
static const char *s_GetUnEscapeKey(void *v) { return M0(GetUnEscapeKey, v); }
static int s_Type(void *v) {
#ifdef IS_BETA
  const z_JSONType *t = M0(Type, v);
  if (!t) return 0;
  if (*t == z_JSONTypeArray) return T_ARR;
  if (*t == z_JSONTypeObj) return T_OBJ;
  if (*t == z_JSONTypeString) return T_STR;
  if (*t == z_JSONTypeNum) return T_NUM;
  if (*t == z_JSONTypeBool) return T_BOOL;
  if (*t == z_JSONTypeNull) return T_NULL;
  return -1;
#else
#if defined(SURFACE_HPP)
#define TY(n) zzzjson::JSONType##n
  const zzzjson::JSONType *t = M0(Type, v);
#elif defined(SURFACE_CPP_LONG)
#define TY(n) zj::zj_JSONType##n
  const zj::zj_JSONType *t = M0(Type, v);
#elif defined(SURFACE_CPP_FREE) || defined(SURFACE_CPP_MEMBER)
#define TY(n) zj::JSONType##n
  const zj::JSONType *t = M0(Type, v);
#elif defined(SURFACE_C_SHORT)
#define TY(n) JSONType##n
  const JSONType *t = M0(Type, v);
#else
#define TY(n) zj_JSONType##n
  const zj_JSONType *t = M0(Type, v);
#endif
  if (!t) return 0;
  if (*t == TY(Array)) return T_ARR;
  if (*t == TY(Object)) return T_OBJ;
  if (*t == TY(String)) return T_STR;
  if (*t == TY(Number)) return T_NUM;
  if (*t == TY(Bool)) return T_BOOL;
  if (*t == TY(Null)) return T_NULL;
  return -1;
#endif
}
static const void *s_RawType(void *v, size_t *n) {
  *n = sizeof(*M0(Type, v));
  return M0(Type, v);
}
static size_t s_SizeOf(void *v) { return (size_t)M0(SIZEOF, v); }

/* ---- navigation ---- */
static void *s_ObjGet(void *v, const char *k) { return (void *)M1(ObjGet, v, k); }
static void *s_ObjGetLen(void *v, const char *k, size_t n) { return (void *)M2(ObjGetLen, v, k, (SZ)n); }
static void *s_ArrayGet(void *v, size_t i) { return (void *)M1(ArrayGet, v, (SZ)i); }
static void *s_Begin(void *v) { return (void *)M0(Begin, v); }
static void *s_Next(void *v) { return (void *)M0(Next, v); }
static void *s_Copy(void *v) { return (void *)M0(Copy, v); }
static int s_Move(void *v) { return M0(Move, v) ? 1 : 0; }

/* ---- setters ---- */
static void s_SetNull(void *v) { M0(SetNull, v); }
static void s_SetBool(void *v, int b) { M1(SetBool, v, b != 0); }
#define S1(fn) static int s_##fn(void *v, const char *s) { return M1(fn, v, s) ? 1 : 0; }
#define S2(fn) static int s_##fn(void *v, const char *s, size_t n) { return M2(fn, v, s, (SZ)n) ? 1 : 0; }
S1(SetNumStrFast) S2(SetNumStrLenFast) S1(SetNumStr) S2(SetNumStrLen)
S1(SetStrFast) S2(SetStrLenFast) S1(SetStr) S2(SetStrLen)
S1(SetKeyFast) S2(SetKeyLenFast) S1(SetKey) S2(SetKeyLen)
#ifndef IS_BETA
S1(SetStrEscape) S2(SetStrLenEscape) S1(SetKeyEscape) S2(SetKeyLenEscape)
static int s_SetDouble(void *v, double d) { return M1(SetDouble, v, d) ? 1 : 0; }
static int s_SetInt(void *v, int d) { return M1(SetInt, v, d) ? 1 : 0; }
static int s_SetLong(void *v, long d) { return M1(SetLong, v, d) ? 1 : 0; }
static int s_SetLongLong(void *v, long long d) { return M1(SetLongLong, v, d) ? 1 : 0; }
#endif
static int s_SetNum(void *v, double d) { return M1(SetNum, v, d) ? 1 : 0; }
static void s_SetArray(void *v) { M0(SetArray, v); }
static void s_SetObj(void *v) { M0(SetObj, v); }
#define SV(fn) static int s_##fn(void *v, void *w) { return M1(fn, v, (VT *)w) ? 1 : 0; }
SV(SetFast) SV(Set) SV(ObjAddFast) SV(ObjAdd) SV(ArrayAddFast) SV(ArrayAdd)
static int s_ArrayDel(void *v, size_t i) { return M1(ArrayDel, v, (SZ)i) ? 1 : 0; }
S1(ObjDel)

#if defined(SURFACE_MODE3)
static void s_MemCounters(unsigned long long *a, unsigned long long *f) { *a = vf_hook_allocs; *f = vf_hook_frees; }
#elif defined(SURFACE_MODE2)
static void s_MemCounters(unsigned long long *a, unsigned long long *f) {
#if defined(__cplusplus) && !defined(IS_BETA)
  *a = zj::AllocMemoryCount; *f = zj::FreeMemoryCount;
#else
  *a = AllocMemoryCount; *f = FreeMemoryCount;
#endif
}
#endif

#ifdef __cplusplus
extern "C"
#endif
__attribute__((visibility("default"))) const Api *vf_api(void);

#ifdef __cplusplus
extern "C"
#endif
const Api *vf_api(void) {
  static Api t;
  t.name = STR(SHIM_NAME);
  t.flags = FLAGS;
#define SETF(n) t.n = s_##n;
  SETF(NewAllocator) SETF(ReleaseAllocator) SETF(NewValue)
#if defined(SURFACE_HPP)
  SETF(NewValueFrom)
#endif
#if defined(SURFACE_CPP_MEMBER)
  SETF(AllocatorOf) SETF(AllocatorId)
#endif
  SETF(ParseFast) SETF(Parse) SETF(ParseLen) SETF(Stringify)
  SETF(GetStrFast) SETF(GetStr) SETF(GetUnEscapeStr) SETF(GetNumFast) SETF(GetNumStr) SETF(GetNum)
#ifndef IS_BETA
  SETF(GetDouble) SETF(GetInt) SETF(GetLong) SETF(GetLongLong)
  SETF(SetDouble) SETF(SetInt) SETF(SetLong) SETF(SetLongLong)
  SETF(SetStrEscape) SETF(SetStrLenEscape) SETF(SetKeyEscape) SETF(SetKeyLenEscape)
#endif
  SETF(GetBool) SETF(IsNull) SETF(GetKeyFast) SETF(GetKey) SETF(GetUnEscapeKey)
  SETF(ObjGet) SETF(ObjGetLen) SETF(Type) SETF(SizeOf) SETF(ArrayGet) SETF(Begin) SETF(Next) SETF(Copy) SETF(Move)
  SETF(SetNull) SETF(SetBool) SETF(SetNumStrFast) SETF(SetNumStrLenFast) SETF(SetNumStr) SETF(SetNumStrLen) SETF(SetNum)
  SETF(SetStrFast) SETF(SetStrLenFast) SETF(SetStr) SETF(SetStrLen)
  SETF(SetKeyFast) SETF(SetKeyLenFast) SETF(SetKey) SETF(SetKeyLen)
  SETF(SetArray) SETF(SetObj) SETF(SetFast) SETF(Set) SETF(ObjAddFast) SETF(ObjAdd) SETF(ArrayAddFast) SETF(ArrayAdd)
  SETF(ArrayDel) SETF(ObjDel) SETF(RawBool) SETF(RawType)
#if defined(SURFACE_MODE2) || defined(SURFACE_MODE3)
  SETF(MemCounters)
  t.flags |= VF_FLAG_MEMCOUNT;
#endif
  return &t;
}
