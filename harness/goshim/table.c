/* The operation table over the exported Go functions. */
#include "api.h"
#include "_cgo_export.h"
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
unsigned long long vf_hook_allocs, vf_hook_frees;
static volatile long vf_c_live; /* blocks of the C heap the package and its C side hold */
void *__real_malloc(size_t n);
void *__real_calloc(size_t n, size_t m);
void *__real_realloc(void *p, size_t n);
char *__real_strdup(const char *s);
void __real_free(void *p);
static void *vf_got(void *p) {
  if (p) __atomic_add_fetch(&vf_c_live, 1, __ATOMIC_SEQ_CST);
  return p;
}
void *__wrap_malloc(size_t n) { return vf_got(__real_malloc(n)); }
void *__wrap_calloc(size_t n, size_t m) { return vf_got(__real_calloc(n, m)); }
void *__wrap_realloc(void *p, size_t n) { return p ? __real_realloc(p, n) : vf_got(__real_realloc(p, n)); }
char *__wrap_strdup(const char *s) { return (char *)vf_got(__real_strdup(s)); }
void __wrap_free(void *p) {
  if (p) __atomic_sub_fetch(&vf_c_live, 1, __ATOMIC_SEQ_CST);
  __real_free(p);
}
#define H(p) ((uintptr_t)(p))
static void *t_NewAllocator(void) { return (void *)goNewAllocator(); }
static void t_ReleaseAllocator(void *a) { goReleaseAllocator(H(a)); }
static void *t_NewValue(void *a) { return (void *)goNewValue(H(a)); }
static int t_Parse(void *v, const char *s) { return goParse(H(v), (char *)s); }
#define G(n) static const char *t_##n(void *v) { return go##n(H(v)); }
G(Stringify) G(GetStr) G(GetUnEscapeStr) G(GetKey) G(GetUnEscapeKey)
static const char *t_GetNumStr(void *v) { return goGetNum(H(v)); }
static int t_GetBool(void *v) { return goGetBool(H(v)); }
static int t_IsNull(void *v) { return goIsNull(H(v)); }
static int t_Type(void *v) { return goType(H(v)); }
static size_t t_SizeOf(void *v) { return goSize(H(v)); }
static void *t_ObjGet(void *v, const char *k) { return (void *)goObjGet(H(v), (char *)k); }
static void *t_ArrayGet(void *v, size_t i) { return (void *)goArrayGet(H(v), i); }
#define N(n) static void *t_##n(void *v) { return (void *)go##n(H(v)); }
N(Begin) N(Next) N(Copy)
static int t_Move(void *v) { return goMove(H(v)); }
static void t_SetNull(void *v) { goSetNull(H(v)); }
static void t_SetBool(void *v, int b) { goSetBool(H(v), b); }
#define S(n) static int t_##n(void *v, const char *s) { return go##n(H(v), (char *)s); }
S(SetNumStr) S(SetStr) S(SetStrEscape) S(SetKey) S(SetKeyEscape) S(ObjDel)
#define SL(n, f) static int t_##n(void *v, const char *s, size_t k) { return go##f(H(v), (char *)s, (int)k); }
SL(ParseLen, ParseLen) SL(SetNumStrLen, SetNumStrLen) SL(SetStrLen, SetStrLen) SL(SetStrLenEscape, SetStrEscapeLen)
SL(SetKeyLen, SetKeyLen) SL(SetKeyLenEscape, SetKeyEscapeLen) SL(ObjDelLen, ObjDelLen)
static void *t_ObjGetLen(void *v, const char *s, size_t k) { return (void *)goObjGetLen(H(v), (char *)s, (int)k); }
static void t_SetArray(void *v) { goSetArray(H(v)); }
static void t_SetObj(void *v) { goSetObj(H(v)); }
#define W(n) static int t_##n(void *v, void *w) { return go##n(H(v), H(w)); }
W(Set) W(SetFast) W(ObjAdd) W(ObjAddFast) W(ArrayAdd) W(ArrayAddFast)
static int t_ArrayDel(void *v, size_t i) { return goArrayDel(H(v), i); }
static const char *t_Audit(void) { return goAudit() ? "a value behind a pointer the package returned was overwritten" : 0; }
static void t_MemCounters(unsigned long long *a, unsigned long long *f) {
  /* The runtime hands each new thread a block which the thread frees once it runs, so a difference can be
   * momentary: what counts is one that stays. */
  static long base;
  static int known;
  long n = vf_c_live;
  int k;
  if (!known) {
    for (k = 0, base = n; k < 40; ++k, usleep(500))
      if ((n = vf_c_live) < base) base = n;
    known = 1;
  }
  for (k = 0; k < 600 && (n = vf_c_live) > base; ++k) usleep(500);
  if (n < base) base = n;
  *a = vf_hook_allocs + (n - base);
  *f = vf_hook_frees;
}

const Api *vf_api(void) {
  static Api t;
  t.name = "go";
  t.flags = VF_FLAG_GO | VF_FLAG_MEMCOUNT;
#define P(n) t.n = t_##n;
  P(NewAllocator) P(ReleaseAllocator) P(NewValue) P(Parse) P(Stringify) P(GetStr) P(GetUnEscapeStr) P(GetNumStr)
  P(GetBool) P(IsNull) P(GetKey) P(GetUnEscapeKey) P(ObjGet) P(Type) P(SizeOf) P(ArrayGet) P(Begin) P(Next) P(Copy)
  P(Move) P(SetNull) P(SetBool) P(SetNumStr) P(SetStr) P(SetStrEscape) P(SetKey) P(SetKeyEscape) P(SetArray) P(SetObj)
  P(SetFast) P(Set) P(ObjAddFast) P(ObjAdd) P(ArrayAddFast) P(ArrayAdd) P(ArrayDel) P(ObjDel) P(MemCounters) P(Audit)
  /* Go strings carry their length: the same methods given counted strings, NUL included */
  P(ParseLen) P(SetNumStrLen) P(SetStrLen) P(SetStrLenEscape) P(SetKeyLen) P(SetKeyLenEscape) P(ObjDelLen) P(ObjGetLen)
  /* the package's Parse, SetNumStr, SetStr and SetKey keep a private copy, so they also serve where the
   * drivers want the variants that use the caller's text in place */
  t.ParseFast = t_Parse;
  t.SetNumStrFast = t_SetNumStr;
  t.SetStrFast = t_SetStr;
  t.SetKeyFast = t_SetKey;
  t.SetNumStrLenFast = t_SetNumStrLen;
  t.SetStrLenFast = t_SetStrLen;
  t.SetKeyLenFast = t_SetKeyLen;
  return &t;
}
