// cost: the same scenario at two sizes; executed steps of the library and memory it requests must grow no
// faster than the data. Steps are basic blocks of the library plus bytes its libc calls go over, so the
// measure is exact and repeatable.
#include "engines.h"
#include "oracle.h"
#include <algorithm>
#include <functional>

struct Cost {
  double size = 0; // of the data: bytes and calls
  uint64_t steps = 0, bytes = 0;
};
class Meter {
public:
  Meter() { start(); }
  void start() { s0_ = mem::steps; }
  void stop(Cost &c) { c.steps += mem::steps - s0_; }

private:
  uint64_t s0_;
};
static const char *SHAPES[] = {"flat array", "flat object", "object of equal keys", "nested arrays", "nested objects", "nest with siblings", "long string",
                               "long escaped string", "long number", "white space", "array of small objects", "object of long keys", "wide at the bottom of a nest", "array of empty containers"};
enum { NSHAPE = 14 };
static std::string shapeText(int k, size_t n, int salt) {
  std::string t, e;
  switch (k) {
  case 0:
    for (size_t i = 0; i < n; i++) t += (i ? "," : "") + (salt % 3 == 0 ? std::to_string(i) : salt % 3 == 1 ? std::string("\"s\"") : std::string(i % 2 ? "true" : "null"));
    return "[" + t + "]";
  case 1:
    for (size_t i = 0; i < n; i++) t += (i ? ",\"k" : "\"k") + std::to_string(i) + "\":" + (salt % 2 ? "1" : "\"v\"");
    return "{" + t + "}";
  case 2:
    for (size_t i = 0; i < n; i++) t += i ? ",\"k\":0" : "\"k\":0";
    return "{" + t + "}";
  case 3: return std::string(n, '[') + std::string(n, ']');
  case 4:
    for (size_t i = 0; i < n; i++) t += "{\"a\":";
    return t + "1" + std::string(n, '}');
  case 5:
    for (size_t i = 0; i < n; i++) t += i % 2 ? "[1," : "{\"x\":[],\"y\":";
    for (size_t i = n; i-- > 0;) e += i % 2 ? ",2]" : ",\"z\":3}";
    return t + "null" + e;
  case 6: return "\"" + std::string(n * 4, salt % 2 ? 'a' : '\xc3') + "\"";
  case 7:
    for (size_t i = 0; i < n; i++) t += salt % 3 == 0 ? "\\n" : salt % 3 == 1 ? "\\u00e9" : "\\ud83d\\ude00";
    return "\"" + t + "\"";
  case 8: return salt % 3 == 0 ? "1" + std::string(n * 3, '7') : salt % 3 == 1 ? "-0." + std::string(n * 3, '3') : "1e" + std::string(n * 3, '0') + "1";
  case 9: return std::string(n, ' ') + "[" + std::string(n, '\n') + "1" + std::string(n, '\t') + ",2" + std::string(n, '\r') + "]" + std::string(n, ' ');
  case 10:
    for (size_t i = 0; i < n; i++) t += std::string(i ? "," : "") + "{\"id\":" + std::to_string(i) + ",\"tags\":[\"a\",\"b\"],\"o\":{}}";
    return "[" + t + "]";
  case 11:
    for (size_t i = 0; i < n; i++) t += (i ? ",\"" : "\"") + std::string(20 + i % 40, 'k') + "\\u0041\":{}";
    return "{" + t + "}";
  case 12: {
    size_t d = n / 2;
    for (size_t i = 0; i < n; i++) t += i ? ",[]" : "[]";
    return std::string(d, '[') + "[" + t + "]" + std::string(d, ']');
  }
  default:
    for (size_t i = 0; i < n; i++) t += std::string(i ? "," : "") + (i % 2 ? "[]" : "{}");
    return "[" + t + "]";
  }
}
// every scenario measures itself for a size n
struct Env {
  const Api *A;
  int shape, salt, var;
  void *al = nullptr;
  std::vector<std::unique_ptr<TextBuf>> kept;
  void setInt(void *v, int i) { A->SetInt ? A->SetInt(v, i) : A->SetNum(v, i); }
  void *value() { return A->NewValue(al); }
  int parse(void *v, const std::string &t, int variant) {
    kept.emplace_back(new TextBuf(t, true));
    const char *p = kept.back()->p();
    return variant == 0 ? A->ParseFast(v, p) : variant == 1 ? A->Parse(v, p) : A->ParseLen(v, p, t.size());
  }
  void *must(const std::string &t, int variant) {
    void *v = value();
    CHECK(parse(v, t, variant), "a valid text of %zu bytes is refused", t.size());
    return v;
  }
  std::vector<void *> kids(void *v) {
    std::vector<void *> r;
    for (void *x = A->Begin(v); x; x = A->Next(x)) r.push_back(x);
    return r;
  }
};
static void readAll(Env &e, void *v, size_t n, double &size) { // every element of a container, all reads
  for (void *x = e.A->Begin(v); x; x = e.A->Next(x)) {
    const char *q;
    switch (e.A->Type(x)) {
    case T_STR:
      q = e.var ? e.A->GetUnEscapeStr(x) : e.A->GetStr(x);
      break;
    case T_NUM:
      q = nullptr;
      if (e.var == 0) q = e.A->GetNumStr(x);
      else if (e.var == 1 || !e.A->GetLongLong) e.A->GetNum(x);
      else e.A->GetLongLong(x);
      break;
    default: q = nullptr; e.A->SizeOf(x);
    }
    (void)q;
    if (e.A->Type(v) == T_OBJ) e.var ? e.A->GetUnEscapeKey(x) : e.A->GetKey(x);
    size += 8;
  }
  (void)n;
}
typedef Cost (*Scenario)(Env &, size_t);
static Cost scParse(Env &e, size_t n) {
  std::string t = shapeText(e.shape, n, e.salt);
  Cost c;
  c.size = (double)t.size();
  void *v = e.value();
  e.kept.emplace_back(new TextBuf(t, true));
  const char *p = e.kept.back()->p();
  Meter m;
  int r = e.var == 0 ? e.A->ParseFast(v, p) : e.var == 1 ? e.A->Parse(v, p) : e.A->ParseLen(v, p, t.size());
  m.stop(c);
  CHECK(r, "a valid text of %zu bytes is refused", t.size());
  return c;
}
static Cost scParseBad(Env &e, size_t n) {
  std::string t = shapeText(e.shape, n, e.salt);
  switch (e.salt % 4) {
  case 0: t.resize(t.size() - 1); break;
  case 1: t += "]"; break;
  case 2: t.insert(t.size() / 2, 1, '\x01'); break;
  case 3: t += "x"; break;
  }
  if (oracle::accepts(t)) t += "x";
  Cost c;
  c.size = (double)t.size();
  void *v = e.salt % 8 < 4 ? e.value() : e.must("{\"a\":[1,2,3]}", 1);
  e.kept.emplace_back(new TextBuf(t, true));
  const char *p = e.kept.back()->p();
  Meter m;
  int r = e.var == 0 ? e.A->ParseFast(v, p) : e.var == 1 ? e.A->Parse(v, p) : e.A->ParseLen(v, p, t.size());
  m.stop(c);
  CHECK(!r, "an invalid text of %zu bytes is accepted", t.size());
  return c;
}
static Cost scString(Env &e, size_t n) {
  std::string t = shapeText(e.shape, n, e.salt);
  Cost c;
  c.size = (double)t.size();
  void *v = e.must(t, e.var);
  Meter m;
  const char *r = e.A->Stringify(v);
  m.stop(c);
  CHECK(r && *r, "Stringify yields nothing");
  return c;
}
static Cost scCopy(Env &e, size_t n) {
  std::string t = shapeText(e.shape, n, e.salt);
  Cost c;
  c.size = (double)t.size();
  void *v = e.must(t, 0), *d = e.value();
  if (e.var == 1) e.A->SetArray(d);
  if (e.var == 3) e.A->SetObj(d), e.A->SetKey(v, "key");
  Meter m;
  switch (e.var) {
  case 0: CHECK(e.A->Copy(v), "Copy yields nothing"); break;
  case 1: CHECK(e.A->ArrayAdd(d, v), "ArrayAdd refused"); break;
  case 2: CHECK(e.A->Set(d, v), "Set refused"); break;
  case 3: CHECK(e.A->ObjAdd(d, v), "ObjAdd refused"); break;
  }
  m.stop(c);
  return c;
}
static Cost scRead(Env &e, size_t n) {
  static const int sh[] = {0, 1, 2, 10, 11, 13};
  std::string t = shapeText(sh[e.shape % 6], n, e.salt);
  Cost c;
  void *v = e.must(t, e.salt % 3);
  c.size = (double)t.size();
  Meter m;
  readAll(e, v, n, c.size);
  m.stop(c);
  return c;
}
static Cost scLiteral(Env &e, size_t n) { // one long literal: set, escape, read, unescape
  std::string b;
  for (size_t i = 0; i < n * 3; i++) b += (e.salt & 1) && i % 2 ? '"' : (e.salt & 2) && i % 3 == 0 ? '\x01' : (e.salt & 4) ? '\xc3' : 'a';
  bool raw = oracle::strBody(b);
  Cost c;
  c.size = (double)b.size();
  TextBuf tb(b, true);
  void *v = e.value();
  Meter m;
  switch (e.A->SetStrEscape ? e.var : 2) {
  case 0: CHECK(e.A->SetStrEscape(v, tb.p()), "SetStrEscape refused"); break;
  case 1: CHECK(e.A->SetStrLenEscape(v, tb.p(), b.size()), "SetStrLenEscape refused"); break;
  case 2: (e.A->SetStr(v, tb.p()) != 0) == raw ? (void)0 : fail("SetStr verdict"); break;
  case 3: CHECK(e.A->SetKeyEscape(v, tb.p()), "SetKeyEscape refused"); break;
  }
  e.A->GetStr(v);
  e.A->GetUnEscapeStr(v);
  e.A->GetKey(v);
  e.A->GetUnEscapeKey(v);
  e.A->Stringify(v);
  m.stop(c);
  return c;
}
static Cost scNumber(Env &e, size_t n) {
  std::string t = shapeText(8, n, e.salt);
  Cost c;
  c.size = (double)t.size();
  TextBuf tb(t, true);
  void *v = e.value();
  Meter m;
  CHECK(e.A->SetNumStr(v, tb.p()), "SetNumStr refused");
  e.A->GetNumStr(v);
  e.A->GetNum(v);
  m.stop(c);
  return c;
}
static Cost scAppend(Env &e, size_t n) { // n elements added one by one
  Cost c;
  bool obj = e.salt & 1;
  void *d = e.value();
  obj ? e.A->SetObj(d) : e.A->SetArray(d);
  if (e.salt & 2) { // inside a document
    void *root = e.must("[0,[],1]", 1), *x = e.A->ArrayGet(root, 1);
    e.A->SetFast(x, d);
    d = x;
  }
  Meter m;
  for (size_t i = 0; i < n; i++) {
    void *x = e.value();
    if (e.salt & 4) e.setInt(x, (int)i);
    else e.A->SetStr(x, "value");
    if (obj) e.A->SetKey(x, "key");
    int r;
    if (e.var == 0 || (e.var == 2 && i % 2)) r = obj ? e.A->ObjAddFast(d, x) : e.A->ArrayAddFast(d, x);
    else if (e.var == 3) r = obj ? e.A->ObjAddFast(d, x) : e.A->ArrayAddFast(d, x), e.A->SizeOf(d), e.A->Begin(d);
    else r = obj ? e.A->ObjAdd(d, x) : e.A->ArrayAdd(d, x);
    CHECK(r, "add refused");
  }
  m.stop(c);
  c.size = (double)n * 16;
  CHECK(e.A->SizeOf(d) == n, "size after %zu additions is %zu", n, e.A->SizeOf(d));
  return c;
}
static Cost scCut(Env &e, size_t n) { // every element cut or moved elsewhere through its handle
  bool obj = e.salt & 1;
  void *v = e.must(shapeText(obj ? 1 : 0, n, e.salt / 2), 0);
  std::vector<void *> k = e.kids(v);
  switch ((e.salt >> 1) % 3) {
  case 0: break;
  case 1: std::reverse(k.begin(), k.end()); break;
  case 2:
    for (size_t i = k.size(); i > 1; i--) std::swap(k[i - 1], k[mix64(i) % i]);
    break;
  }
  void *d = e.value();
  obj ? e.A->SetObj(d) : e.A->SetArray(d);
  Cost c;
  Meter m;
  for (void *x : k) {
    if (e.var == 0) CHECK(e.A->Move(x), "Move refused");
    else if (e.var == 1) CHECK(obj ? e.A->ObjAddFast(d, x) : e.A->ArrayAddFast(d, x), "add refused");
    else {
      void *y = e.value();
      CHECK(e.A->SetFast(y, x), "SetFast refused");
    }
  }
  m.stop(c);
  c.size = (double)n * 16;
  CHECK(e.A->SizeOf(v) == 0, "elements left after all were cut");
  return c;
}
static Cost scSets(Env &e, size_t n) { // every element replaced through its handle; every text small
  void *v = e.must(shapeText(e.salt & 1, n, 0), 0);
  std::vector<void *> k = e.kids(v);
  TextBuf s(std::string("[1,{\"a\":null}]"), true), bad(std::string("[1,{\"a\":nul}]"), true);
  Cost c;
  Meter m;
  for (void *x : k) switch (e.var) {
    case 0: e.A->SetNull(x); break;
    case 1: e.A->SetStr(x, "text"); break;
    case 2: e.A->Parse(x, s.p()), e.A->Parse(x, bad.p()); break;
    case 3: e.A->SetObj(x), e.A->Stringify(x), e.A->Copy(x); break;
    }
  m.stop(c);
  c.size = (double)n * 16;
  return c;
}
static Cost scSame(Env &e, size_t n) { // one value, many calls
  void *root = e.must("{\"a\":0,\"b\":[1,2],\"c\":\"\\n\"}", 1), *x = e.A->ObjGet(root, "b"), *y = e.A->ObjGet(root, "c");
  Cost c;
  Meter m;
  for (size_t i = 0; i < n; i++) switch (e.var) {
    case 0: e.setInt(x, (int)i), e.A->GetNum(x); break;
    case 1: e.A->SetStr(x, "text"), e.A->SetArray(x), e.A->SetKey(x, "b"); break;
    case 2: e.A->Stringify(root), e.A->GetUnEscapeStr(y), e.A->Copy(root); break;
    case 3: e.parse(x, i % 2 ? "[1,[2]]" : "[1,[2}", (int)(i % 3)), e.A->Set(y, x), e.A->ArrayDel(y, 0); break;
    }
  m.stop(c);
  c.size = (double)n * 16;
  return c;
}
static Cost scMoveBig(Env &e, size_t n) { // a large container moved or set over another value: at most one walk over its elements
  void *v = e.must(shapeText(e.salt & 1, n, e.salt / 2), 0), *d = e.must("{\"p\":[3]}", 1), *a = e.must("[[4],5]", 1);
  e.A->SetKey(v, "big");
  Cost c;
  Meter m;
  switch (e.var) {
  case 0: CHECK(e.A->SetFast(d, v), "SetFast refused"); break;
  case 1: CHECK(e.A->SetFast(e.A->Begin(a), v), "SetFast refused"); break;
  case 2: CHECK(e.A->ArrayAddFast(a, v), "add refused"); break;
  case 3: CHECK(e.A->ObjAddFast(d, v), "add refused"); break;
  }
  m.stop(c);
  c.size = (double)n * 8;
  return c;
}
static Cost scLookup(Env &e, size_t n) { // a few lookups and deletions: each at most one walk over the container
  bool obj = e.salt & 1;
  void *v = e.must(shapeText(obj ? 1 : 0, n, e.salt / 2), 0);
  Cost c;
  Meter m;
  size_t at = e.var == 0 ? n - 1 : e.var == 1 ? n / 2 : e.var == 2 ? n : 0;
  std::string k = "k" + std::to_string(at);
  void *x = obj ? e.A->ObjGet(v, k.c_str()) : e.A->ArrayGet(v, at);
  CHECK((x != nullptr) == (at < n), "lookup");
  int r = obj ? e.A->ObjDel(v, k.c_str()) : e.A->ArrayDel(v, at);
  CHECK((r != 0) == (at < n), "delete");
  e.A->SizeOf(v);
  m.stop(c);
  c.size = (double)n * 8;
  return c;
}
static Cost scRelease(Env &e, size_t n) {
  void *save = e.al;
  e.al = e.A->NewAllocator();
  e.must(shapeText(e.shape, n, e.salt), e.var % 3);
  Cost c;
  Meter m;
  e.A->ReleaseAllocator(e.al);
  m.stop(c);
  e.al = save;
  c.size = (double)n * 8;
  return c;
}
// one local operation in a document of size n: its steps may not depend on n
static Cost scLocal(Env &e, size_t n) {
  bool obj = e.salt & 1;
  std::string big = shapeText(obj ? 1 : e.salt & 2 ? 10 : 0, n, e.salt / 4);
  void *v = e.must(big, 0);
  std::vector<void *> k = e.kids(v);
  void *x = e.shape % 3 == 0 ? k.front() : e.shape % 3 == 1 ? k.back() : k[k.size() / 2];
  void *fresh = e.must("[1,{\"z\":[]}]", 1), *other = e.must("{\"p\":[3]}", 1);
  e.A->SetKey(fresh, "new");
  TextBuf s(std::string("[1,{\"a\":null}]"), true), bad(std::string("[1,{\"a\":nul}]"), true);
  Cost c;
  c.size = 1;
  Meter m;
  switch (e.var) {
  case 0: CHECK(obj ? e.A->ObjAddFast(v, fresh) : e.A->ArrayAddFast(v, fresh), "add refused"); break;
  case 1: CHECK(obj ? e.A->ObjAdd(v, fresh) : e.A->ArrayAdd(v, fresh), "add refused"); break;
  case 2: CHECK(e.A->Move(x), "Move refused"); break;
  case 3: CHECK(e.A->SetFast(x, fresh), "SetFast refused"); break;
  case 4: CHECK(e.A->SetFast(other, x), "SetFast refused"); break;
  case 5: e.A->SetNull(x), e.A->SetBool(x, 1), e.setInt(x, 5), e.A->SetArray(x); break;
  case 6: CHECK(e.A->Parse(x, s.p()), "Parse refused"); CHECK(!e.A->Parse(x, bad.p()), "accepted"); break;
  case 7: e.A->SetStr(x, "abc"), e.A->Stringify(x), e.A->Copy(x), e.A->Type(x), e.A->SizeOf(x); break;
  case 8: e.A->Begin(v), e.A->Next(x), e.A->Next(k[0]), e.A->Type(v); break;
  case 9: { // the large value itself moves
    void *d = e.value();
    CHECK(e.A->SetFast(d, v), "SetFast refused");
    break;
  }
  case 10: e.A->SetKey(x, "renamed"), e.A->GetKey(x), e.A->GetUnEscapeKey(x); break;
  case 11: { // the large container moves into another and is cut again
    void *a = e.must("[]", 1);
    CHECK(e.A->ArrayAddFast(a, v), "add refused");
    void *y = e.A->Begin(a);
    CHECK(y && e.A->Move(y), "Move refused");
    break;
  }
  }
  m.stop(c);
  return c;
}
static const struct {
  const char *name;
  Scenario f;
  int vars;
  bool local;
} SC[] = {{"parse", scParse, 3, false}, {"parse an invalid text", scParseBad, 3, false}, {"stringify", scString, 3, false}, {"copy", scCopy, 4, false}, {"read every element", scRead, 3, false},
          {"long literal", scLiteral, 4, false}, {"long number", scNumber, 1, false}, {"append one by one", scAppend, 4, false}, {"cut every element", scCut, 3, false},
          {"replace every element", scSets, 4, false}, {"many calls on one value", scSame, 4, false}, {"lookup and delete", scLookup, 4, false}, {"move a large value", scMoveBig, 4, false}, {"release", scRelease, 3, false},
          {"one local call", scLocal, 12, true}, {"one local call", scLocal, 12, true}};

void e_cost(Ctx &c, Src &s) {
  const Api *A = c.apis.size() == 1 ? c.apis[0] : c.apis[s.below((uint32_t)c.apis.size())];
  if (!mem::stepsActive()) fail("harness: the library was not built for step counting");
  mem::fill = -1;
  int k = (int)s.below(sizeof SC / sizeof *SC);
  Env e;
  e.A = A;
  e.shape = (int)s.below(NSHAPE);
  e.var = (int)s.below((uint32_t)SC[k].vars);
  e.salt = (int)s.below(64);
  size_t n = c.tier ? 40 + s.below(s.chance(1, 8) ? 16000 : 3000) : 40 + s.below(s.chance(1, 8) ? 3000 : 500);
  if (c.param.compare(0, 2, "n=") == 0) { // a job at a given size
    size_t base = (size_t)atol(c.param.c_str() + 2);
    n = base + s.below((uint32_t)(base / 2));
  }
  const size_t M = 16;
  Cost r[2];
  for (int i = 0; i < 2; i++) {
    uint64_t b0 = mem::totalBytes; // memory over the whole scenario: a block may have been obtained ahead of its use
    e.al = A->NewAllocator();
    r[i] = SC[k].f(e, i ? n * M : n);
    r[i].bytes = mem::totalBytes - b0;
    A->ReleaseAllocator(e.al);
    e.kept.clear();
  }
  char what[300];
  snprintf(what, sizeof what, "%s (form %d, %s, variation %d), size %zu and %zu", SC[k].name, e.var, SHAPES[e.shape], e.salt, n, n * M);
  if (SC[k].local) {
    CHECK(r[1].steps <= 4 * r[0].steps + 2000, "%s: one call took %llu steps in the small document and %llu in the large one", what, (unsigned long long)r[0].steps, (unsigned long long)r[1].steps);
  } else {
    double ratio = r[1].size / r[0].size;
    CHECK((double)r[1].steps <= 3 * ratio * (double)(r[0].steps + 500), "%s: data grew %.1f times, steps from %llu to %llu", what, ratio, (unsigned long long)r[0].steps, (unsigned long long)r[1].steps);
    CHECK((double)r[1].bytes <= 6 * ratio * (double)(r[0].bytes + 16384), "%s: data grew %.1f times, memory requested from %llu to %llu bytes", what, ratio, (unsigned long long)r[0].bytes, (unsigned long long)r[1].bytes);
    CHECK((double)r[1].steps <= 500 * (r[1].size + 1000), "%s: %llu steps for data of size %.0f", what, (unsigned long long)r[1].steps, r[1].size);
    CHECK((double)r[1].bytes <= 4000 * (r[1].size + 1000), "%s: %llu bytes requested for data of size %.0f", what, (unsigned long long)r[1].bytes, r[1].size);
  }
  c.mixin((uint64_t)k), c.mixin((uint64_t)e.shape), c.mixin((uint64_t)e.var), c.mixin((uint64_t)e.salt), c.mixin((uint64_t)n);
  c.nontrivial = r[1].steps > 0;
  c.cls(classId(SC[k].name));
  if (c.wantSample) {
    char b[500];
    snprintf(b, sizeof b, "%s: steps %llu -> %llu, bytes requested %llu -> %llu", what, (unsigned long long)r[0].steps, (unsigned long long)r[1].steps, (unsigned long long)r[0].bytes, (unsigned long long)r[1].bytes);
    c.sample = b;
  }
}
