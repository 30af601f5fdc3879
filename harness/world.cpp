#include "world.h"
#include <climits>
#include <cmath>
bool g_verbose = false;

World::World(Ctx &c, const Api *api, Src &src) : ctx(c), A(api), s(src), g(src) {
  junk_ = s.byte();
  static const int FILL[] = {0xA5, 0x00, 0xFF, 0x01, '1', '"', 0x74, 0x7F};
  mem::fill = FILL[junk_ >> 3 & 7];
  logging = g_verbose || ctx.wantSample;
  if (A->flags & VF_FLAG_NARROW) g.maxLit = 6000;
  live0_ = mem::live;
  if (A->MemCounters) A->MemCounters(&cA0_, &cF0_);
}
World::~World() {}
void World::L(const char *fmt, ...) {
  if (!logging) return;
  if (log.size() > 400 && !g_verbose) return;
  char b[700];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(b, sizeof b, fmt, ap);
  va_end(ap);
  log.push_back(b);
  if (g_verbose) fprintf(stderr, "  %s\n", b);
}
#define SH(x) (logging ? show(x, 80) : std::string()).c_str()

int World::newAllocator() {
  void *p = A->NewAllocator();
  CHECK(p, "NewAllocator returned null");
  allocs.push_back({p, true});
  L("A%zu = NewAllocator()", allocs.size() - 1);
  return (int)allocs.size() - 1;
}
int World::liveAllocs() const {
  int n = 0;
  for (auto &a : allocs) n += a.live;
  return n;
}
int World::addHandle(void *p, MNode *n, int a) {
  for (size_t i = 0; i < hs.size(); i++)
    if (!hs[i].live && i >= 4) { // reuse a dead slot
      hs[i] = {p, n, a, true};
      return (int)i;
    }
  hs.push_back({p, n, a, true});
  return (int)hs.size() - 1;
}
int World::newValue(int a) {
  void *p = A->NewValue(allocs[a].p);
  CHECK(p, "NewValue returned null");
  int h = addHandle(p, nullptr, a);
  L("h%d = NewValue(A%d)", h, a);
  if (A->AllocatorOf) CHECK(A->AllocatorOf(p) == A->AllocatorId(allocs[a].p), "Allocator() of a new value is not its allocator");
  return h;
}
int World::newValueFrom(int v) {
  void *p = A->NewValueFrom(hs[v].p);
  CHECK(p, "NewValue() on a value returned null");
  int h = addHandle(p, nullptr, hs[v].a);
  L("h%d = h%d.NewValue()", h, v);
  return h;
}
void World::remember(int h, const char *p, size_t n, const char *what) {
  if (A->flags & VF_FLAG_GO) return;
  uint64_t deps = 1ull << hs[h].a | (hs[h].n ? hs[h].n->deps : 0);
  if (rem.size() < remCap)
    rem.push_back({deps, p, std::string(p, n), what});
  else if (remReplace)
    rem[s.below((uint32_t)rem.size())] = {deps, p, std::string(p, n), what};
}
void World::rememberAt(uint64_t deps, const void *p, size_t n, const char *what) {
  for (auto &r : remAt)
    if (r.p == (const char *)p && r.bytes.size() == n) {
      if (memcmp(p, r.bytes.data(), n)) checkRemembered();
      return;
    }
  if (remAt.size() < 40) remAt.push_back({deps, (const char *)p, std::string((const char *)p, n), what});
}
void World::checkRemembered(bool) {
  if (A->Audit) {
    const char *e = A->Audit();
    if (e) fail("a result returned earlier changed: %s", e);
  }
  for (auto &r : remAt)
    if (memcmp(r.p, r.bytes.data(), r.bytes.size()))
      fail("what %s returned earlier changed before its allocator was released: first byte was %d, is now %d", r.what, r.bytes[0], r.p[0]);
  for (auto &r : rem)
    if (memcmp(r.p, r.bytes.data(), r.bytes.size()))
      fail("a result returned earlier by %s changed before its allocator was released: was \"%s\", is now \"%s\"", r.what,
           show(r.bytes).c_str(), show(std::string(r.p, r.bytes.size())).c_str());
}
void World::release(int a) {
  checkRemembered();
  uint64_t bit = 1ull << a;
  // Documents that use memory of this allocator go with it.
  for (auto &h : hs) {
    if (!h.live) continue;
    bool gone = h.a == a;
    if (!gone && h.n) {
      MNode *r = rootOf(h.n);
      std::vector<MNode *> st{r};
      while (!st.empty() && !gone) {
        MNode *n = st.back();
        st.pop_back();
        if (n->deps & bit) gone = true;
        for (auto *k : n->kids) st.push_back(k);
      }
    }
    if (gone) h.live = false;
  }
  size_t w = 0;
  for (size_t i = 0; i < rem.size(); i++)
    if (!(rem[i].deps & bit)) {
      if (w != i) rem[w] = std::move(rem[i]);
      w++;
    }
  rem.resize(w);
  w = 0;
  for (size_t i = 0; i < remAt.size(); i++)
    if (!(remAt[i].deps & bit)) {
      if (w != i) remAt[w] = std::move(remAt[i]);
      w++;
    }
  remAt.resize(w);
  L("ReleaseAllocator(A%d)", a);
  A->ReleaseAllocator(allocs[a].p);
  allocs[a].live = false;
  releases++;
}
int World::textUsers(uint32_t id, bool killThem) {
  int users = 0;
  for (auto &h : hs) {
    if (!h.live || !h.n) continue;
    bool uses = false;
    std::vector<MNode *> st{rootOf(h.n)};
    while (!st.empty() && !uses) {
      MNode *n = st.back();
      st.pop_back();
      if (n->litText == id || n->keyText == id) uses = true;
      for (auto *k : n->kids) st.push_back(k);
    }
    if (uses) {
      users++;
      if (killThem) h.live = false;
    }
  }
  return users;
}
void World::dropText(uint32_t id) {
  if (!textLive(id)) return;
  textUsers(id, true);
  TextBuf &b = *kept[id - 1];
  size_t w = 0;
  for (size_t i = 0; i < rem.size(); i++)
    if (!b.covers(rem[i].p)) {
      if (w != i) rem[w] = std::move(rem[i]);
      w++;
    }
  rem.resize(w);
  CHECK(b.intact(), "the library modified a caller-owned text");
  L("free(text #%u)", id);
  b.drop();
  drops++;
}
void World::finish() {
  for (auto &k : kept)
    CHECK(k->intact(), "the library modified a caller-owned text");
  checkRemembered();
  for (size_t i = 0; i < allocs.size(); i++)
    if (allocs[i].live) release((int)i);
  if (mem::active() && !shared && !(A->flags & VF_FLAG_GO)) {
    long l = mem::live - live0_;
    CHECK(l == 0, "after releasing all allocators %ld block(s) obtained from the system were not returned", l);
  }
  if (A->MemCounters && !shared) {
    unsigned long long a, f;
    A->MemCounters(&a, &f);
    CHECK(a - cA0_ == f - cF0_, "memory hooks: %llu allocations but %llu releases after all allocators were released", a - cA0_, f - cF0_);
    CHECK(a - cA0_ >= (unsigned long long)allocs.size(), "memory hooks were bypassed: %llu calls for %zu allocators", a - cA0_, allocs.size());
  }
}

// ---- model helpers
void World::kill(MNode *n) {
  std::vector<MNode *> st{n};
  while (!st.empty()) {
    MNode *m = st.back();
    st.pop_back();
    m->dead = true;
    for (auto *k : m->kids) st.push_back(k);
  }
}
void World::dropDead() {
  for (auto &h : hs)
    if (h.live && h.n && h.n->dead) h.live = false;
}
void World::overwrite(MNode *n) {
  if (n->kids.empty()) return;
  for (auto *k : n->kids) kill(k);
  n->kids.clear();
  dropDead();
}
void World::setDeps(MNode *n, uint64_t bit) {
  std::vector<MNode *> st{n};
  while (!st.empty()) {
    MNode *m = st.back();
    st.pop_back();
    m->deps |= bit;
    for (auto *k : m->kids) st.push_back(k);
  }
}
MNode *World::clone(const MNode *n, uint64_t bit) {
  MNode *c = pool.make(n->type);
  c->lit = n->lit;
  c->hasKey = n->hasKey;
  c->key = n->key;
  c->deps = bit;
  for (auto *k : n->kids) { // depth is bounded by the generators
    MNode *kc = clone(k, bit);
    kc->parent = c;
    c->kids.push_back(kc);
  }
  return c;
}
void World::detach(MNode *n) {
  if (!n->parent) return;
  auto &v = n->parent->kids;
  for (size_t i = 0; i < v.size(); i++)
    if (v[i] == n) {
      v.erase(v.begin() + (long)i);
      break;
    }
  n->parent = nullptr;
}
void World::ensureNode(int h) {
  if (!hs[h].n) {
    hs[h].n = pool.make(T_NULL);
  }
  hs[h].n->deps |= 1ull << hs[h].a;
}
TextBuf *World::keep(const std::string &t, bool term) {
  kept.emplace_back(new TextBuf(t, term, junk_));
  return kept.back().get();
}
int World::topHandle(int h) const {
  if (!hs[h].n) return h;
  MNode *r = rootOf(hs[h].n);
  if (r == hs[h].n) return h;
  for (size_t i = 0; i < hs.size(); i++)
    if (hs[i].live && hs[i].n == r) return (int)i;
  return h;
}

// ---- operations
bool World::parse(int h, const std::string &text, int variant) {
  static const char *N[] = {"ParseFast", "Parse", "ParseLen"};
  int (*f1[2])(void *, const char *) = {A->ParseFast, A->Parse};
  if (variant == 2 && !A->ParseLen) variant = 0;
  if (variant < 2 && !f1[variant]) variant = f1[0] ? 0 : 1;
  std::string eff = text;
  if (variant < 2) {
    size_t z = eff.find('\0');
    if (z != std::string::npos) eff.resize(z);
  }
  MNode *r = oracle::parse(eff, pool);
  L("%s(h%d, \"%s\")", N[variant], h, SH(eff));
  int ret;
  if (feed_) {
    ret = variant == 2 ? A->ParseLen(hs[h].p, feed_->p, feed_->n) : f1[variant](hs[h].p, feed_->p);
    CHECK(!memcmp(feed_->p, eff.data(), eff.size()), "%s modified its argument", N[variant]);
  } else if (variant == 0) {
    TextBuf *b = keep(eff, true);
    ret = A->ParseFast(hs[h].p, b->p());
    CHECK(b->intact(), "ParseFast modified the caller's text");
    if (!r) b->drop(); // refused: nothing may refer to the text
  } else {
    TextBuf b(eff, variant == 1, junk_);
    ret = variant == 1 ? A->Parse(hs[h].p, b.p()) : A->ParseLen(hs[h].p, b.p(), b.n());
    CHECK(b.intact(), "%s modified the caller's text", N[variant]);
  }
  CHECK((ret != 0) == (r != nullptr), "%s returned %s for \"%s\" (length %zu), which %s a JSON text", N[variant], ret ? "true" : "false",
        show(eff).c_str(), eff.size(), r ? "is" : "is not");
  parses++;
  if (!r) {
    refused++;
    return false;
  }
  mutations++;
  uint64_t bit = 1ull << hs[h].a;
  if (variant == 0 && feed_) bit |= feed_->deps;
  setDeps(r, bit);
  if (variant == 0) {
    uint32_t id = feed_ ? feed_->text : (uint32_t)kept.size();
    std::vector<MNode *> st{r};
    while (!st.empty()) {
      MNode *m = st.back();
      st.pop_back();
      m->litText = m->keyText = id;
      for (auto *k : m->kids) st.push_back(k);
    }
    r->keyText = 0;
  }
  if (!hs[h].n) {
    hs[h].n = r;
    return true;
  }
  MNode *n = hs[h].n;
  overwrite(n);
  n->type = r->type;
  n->lit = r->lit;
  n->litText = r->litText;
  n->kids = r->kids;
  for (auto *k : n->kids) k->parent = n;
  n->deps |= bit;
  return true;
}
#define SIMPLE(h, T, LIT)                                                                          \
  ensureNode(h);                                                                                   \
  overwrite(hs[h].n);                                                                              \
  hs[h].n->type = T;                                                                               \
  hs[h].n->lit = LIT;                                                                              \
  hs[h].n->litText = 0;                                                                            \
  mutations++;
void World::setNull(int h) {
  L("SetNull(h%d)", h);
  A->SetNull(hs[h].p);
  SIMPLE(h, T_NULL, "null")
}
void World::setBool(int h, bool b) {
  L("SetBool(h%d, %d)", h, b);
  A->SetBool(hs[h].p, b);
  SIMPLE(h, T_BOOL, b ? "true" : "false")
}
void World::setArray(int h) {
  L("SetArray(h%d)", h);
  A->SetArray(hs[h].p);
  SIMPLE(h, T_ARR, "")
}
void World::setObj(int h) {
  L("SetObj(h%d)", h);
  A->SetObj(hs[h].p);
  SIMPLE(h, T_OBJ, "")
}
bool World::setLit(int h, bool num, const std::string &litIn, int variant) {
  static const char *NS[] = {"SetStrFast", "SetStrLenFast", "SetStr", "SetStrLen"};
  static const char *NN[] = {"SetNumStrFast", "SetNumStrLenFast", "SetNumStr", "SetNumStrLen"};
  int (*z[2])(void *, const char *) = {num ? A->SetNumStrFast : A->SetStrFast, num ? A->SetNumStr : A->SetStr};
  int (*l[2])(void *, const char *, size_t) = {num ? A->SetNumStrLenFast : A->SetStrLenFast, num ? A->SetNumStrLen : A->SetStrLen};
  bool fast = variant < 2, withLen = variant & 1;
  if (withLen && !l[!fast]) withLen = false;
  if (!withLen && !z[!fast]) fast = !fast;
  variant = (fast ? 0 : 2) + withLen;
  const char *name = num ? NN[variant] : NS[variant];
  std::string lit = litIn;
  if (!withLen) {
    size_t q = lit.find('\0');
    if (q != std::string::npos) lit.resize(q);
  }
  bool want = num ? oracle::number(lit) : oracle::strBody(lit);
  L("%s(h%d, \"%s\")", name, h, SH(lit));
  int ret;
  auto call = [&](const TextBuf &b) { return withLen ? l[!fast](hs[h].p, b.p(), b.n()) : z[!fast](hs[h].p, b.p()); };
  if (feed_) {
    ret = withLen ? l[!fast](hs[h].p, feed_->p, feed_->n) : z[!fast](hs[h].p, feed_->p);
    CHECK(!memcmp(feed_->p, lit.data(), lit.size()), "%s modified its argument", name);
  } else if (fast) {
    TextBuf *b = keep(lit, !withLen);
    ret = call(*b);
    CHECK(b->intact(), "%s modified the caller's text", name);
    if (!want) b->drop();
  } else {
    TextBuf b(lit, !withLen, junk_);
    ret = call(b);
    CHECK(b.intact(), "%s modified the caller's text", name);
  }
  CHECK((ret != 0) == want, "%s returned %s for \"%s\" (length %zu), which %s a legal literal", name, ret ? "true" : "false", show(lit).c_str(),
        lit.size(), want ? "is" : "is not");
  if (!want) {
    refused++;
    return false;
  }
  SIMPLE(h, num ? T_NUM : T_STR, lit)
  if (fast) hs[h].n->litText = feed_ ? feed_->text : (uint32_t)kept.size();
  if (fast && feed_) hs[h].n->deps |= feed_->deps;
  return true;
}
static std::string rawOf(const Api *A, void *p, bool num, bool key) {
  size_t n = 0;
  const char *r;
  if (key) {
    r = A->GetKeyFast ? A->GetKeyFast(p, &n) : A->GetKey(p);
    if (r && !A->GetKeyFast) n = strlen(r);
  } else if (num) {
    r = A->GetNumFast ? A->GetNumFast(p, &n) : A->GetNumStr(p);
    if (r && !A->GetNumFast) n = strlen(r);
  } else {
    r = A->GetStrFast ? A->GetStrFast(p, &n) : A->GetStr(p);
    if (r && !A->GetStrFast) n = strlen(r);
  }
  CHECK(r, "reading back a just-set %s reports absence", key ? "key" : num ? "number" : "string");
  CHECK(n < (1u << 30), "absurd length %zu reading back a just-set literal", n);
  return std::string(r, n);
}
bool World::setEsc(int h, const std::string &in, bool withLen) {
  if (withLen && !A->SetStrLenEscape) withLen = false;
  std::string b = in;
  if (!withLen) {
    size_t q = b.find('\0');
    if (q != std::string::npos) b.resize(q);
  }
  const char *name = withLen ? "SetStrLenEscape" : "SetStrEscape";
  L("%s(h%d, \"%s\")", name, h, SH(b));
  TextBuf t(b, !withLen, junk_);
  const char *arg = feed_ ? feed_->p : t.p();
  int ret = withLen ? A->SetStrLenEscape(hs[h].p, arg, t.n()) : A->SetStrEscape(hs[h].p, arg);
  CHECK(!feed_ || !memcmp(arg, b.data(), b.size()), "%s modified its argument", name);
  CHECK(t.intact(), "%s modified the caller's text", name);
  t.drop();
  CHECK(ret, "%s refused \"%s\" (length %zu)", name, show(b).c_str(), b.size());
  std::string lit = rawOf(A, hs[h].p, false, false);
  CHECK(oracle::strBody(lit) && oracle::goodEscape(b, lit), "%s of \"%s\" stored \"%s\", which is not its escaped form", name, show(b).c_str(),
        show(lit).c_str());
  SIMPLE(h, T_STR, lit)
  return true;
}
static bool keyAllowed(const MNode *n) { return !n || !n->parent || n->parent->type == T_OBJ; }
bool World::setKey(int h, const std::string &keyIn, int variant) {
  static const char *NS[] = {"SetKeyFast", "SetKeyLenFast", "SetKey", "SetKeyLen"};
  int (*z[2])(void *, const char *) = {A->SetKeyFast, A->SetKey};
  int (*l[2])(void *, const char *, size_t) = {A->SetKeyLenFast, A->SetKeyLen};
  bool fast = variant < 2, withLen = variant & 1;
  if (withLen && !l[!fast]) withLen = false;
  if (!withLen && !z[!fast]) fast = !fast;
  variant = (fast ? 0 : 2) + withLen;
  std::string key = keyIn;
  if (!withLen) {
    size_t q = key.find('\0');
    if (q != std::string::npos) key.resize(q);
  }
  bool want = oracle::strBody(key) && keyAllowed(hs[h].n);
  L("%s(h%d, \"%s\")", NS[variant], h, SH(key));
  int ret;
  auto call = [&](const TextBuf &b) { return withLen ? l[!fast](hs[h].p, b.p(), b.n()) : z[!fast](hs[h].p, b.p()); };
  if (feed_) {
    ret = withLen ? l[!fast](hs[h].p, feed_->p, feed_->n) : z[!fast](hs[h].p, feed_->p);
    CHECK(!memcmp(feed_->p, key.data(), key.size()), "%s modified its argument", NS[variant]);
  } else if (fast) {
    TextBuf *b = keep(key, !withLen);
    ret = call(*b);
    CHECK(b->intact(), "%s modified the caller's text", NS[variant]);
    if (!want) b->drop();
  } else {
    TextBuf b(key, !withLen, junk_);
    ret = call(b);
    CHECK(b.intact(), "%s modified the caller's text", NS[variant]);
  }
  CHECK((ret != 0) == want, "%s returned %s for \"%s\" (length %zu), expected %s", NS[variant], ret ? "true" : "false", show(key).c_str(), key.size(),
        want ? "true" : "false");
  if (!want) {
    refused++;
    return false;
  }
  ensureNode(h);
  hs[h].n->hasKey = true;
  hs[h].n->key = key;
  hs[h].n->keyText = !fast ? 0 : feed_ ? feed_->text : (uint32_t)kept.size();
  if (fast && feed_) hs[h].n->deps |= feed_->deps;
  mutations++;
  return true;
}
bool World::setKeyEsc(int h, const std::string &in, bool withLen) {
  if (withLen && !A->SetKeyLenEscape) withLen = false;
  std::string b = in;
  if (!withLen) {
    size_t q = b.find('\0');
    if (q != std::string::npos) b.resize(q);
  }
  const char *name = withLen ? "SetKeyLenEscape" : "SetKeyEscape";
  bool want = keyAllowed(hs[h].n);
  L("%s(h%d, \"%s\")", name, h, SH(b));
  TextBuf t(b, !withLen, junk_);
  const char *arg = feed_ ? feed_->p : t.p();
  int ret = withLen ? A->SetKeyLenEscape(hs[h].p, arg, t.n()) : A->SetKeyEscape(hs[h].p, arg);
  CHECK(!feed_ || !memcmp(arg, b.data(), b.size()), "%s modified its argument", name);
  CHECK(t.intact(), "%s modified the caller's text", name);
  t.drop();
  CHECK((ret != 0) == want, "%s returned %s for \"%s\", expected %s", name, ret ? "true" : "false", show(b).c_str(), want ? "true" : "false");
  if (!want) {
    refused++;
    return false;
  }
  std::string lit = rawOf(A, hs[h].p, false, true);
  CHECK(oracle::strBody(lit) && oracle::goodEscape(b, lit), "%s of \"%s\" stored key \"%s\", which is not its escaped form", name, show(b).c_str(),
        show(lit).c_str());
  ensureNode(h);
  hs[h].n->hasKey = true;
  hs[h].n->key = lit;
  hs[h].n->keyText = 0;
  mutations++;
  return true;
}
static uint64_t bitsOf(double d) {
  uint64_t u;
  memcpy(&u, &d, 8);
  return u;
}
bool World::setDouble(int h, double d, bool viaNum) {
  if (!viaNum && !A->SetDouble) viaNum = true;
  L("%s(h%d, %.17g)", viaNum ? "SetNum" : "SetDouble", h, d);
  int ret = viaNum ? A->SetNum(hs[h].p, d) : A->SetDouble(hs[h].p, d);
  bool want = std::isfinite(d);
  CHECK((ret != 0) == want, "setting the double %.17g returned %s, expected %s", d, ret ? "true" : "false", want ? "true" : "false");
  if (!want) {
    refused++;
    return false;
  }
  std::string lit = rawOf(A, hs[h].p, true, false);
  CHECK(oracle::number(lit), "setting the double %.17g stored \"%s\", which is not a JSON number", d, show(lit).c_str());
  double back = cStrtod(lit.c_str());
  CHECK(bitsOf(back) == bitsOf(d), "setting the double %.17g (bits %016llx) stored %s, which denotes bits %016llx", d, (unsigned long long)bitsOf(d),
        show(lit).c_str(), (unsigned long long)bitsOf(back));
  SIMPLE(h, T_NUM, lit)
  return true;
}
bool World::setInt(int h, long long v, int kind) {
  static const char *N[] = {"SetInt", "SetLong", "SetLongLong"};
  L("%s(h%d, %lld)", N[kind], h, v);
  int ret = kind == 0 ? A->SetInt(hs[h].p, (int)v) : kind == 1 ? A->SetLong(hs[h].p, (long)v) : A->SetLongLong(hs[h].p, v);
  if (kind == 0) v = (int)v;
  CHECK(ret, "%s(%lld) was refused", N[kind], v);
  std::string lit = rawOf(A, hs[h].p, true, false);
  CHECK(oracle::isIntLit(lit) && lit == std::to_string(v), "%s(%lld) stored \"%s\"", N[kind], v, show(lit).c_str());
  SIMPLE(h, T_NUM, lit)
  return true;
}
bool World::feedBack(int dst, int src) {
  if (A->flags & VF_FLAG_GO) return false; // results there are copies in Go memory
  void *p = hs[src].p;
  MNode *n = hs[src].n;
  bool isS = n && n->type == T_STR, isN = n && n->type == T_NUM, isK = n && n->hasKey;
  const char *r = nullptr, *what = "";
  size_t len = 0;
  bool term = true;
  uint32_t text = 0;
  switch (s.below(8)) {
  case 0: r = A->Stringify(p), what = "Stringify"; break;
  case 1: r = isS ? A->GetStr(p) : isN ? A->GetNumStr(p) : isK ? A->GetKey(p) : A->Stringify(p), what = "GetStr"; break;
  case 2: r = isS && A->GetUnEscapeStr ? A->GetUnEscapeStr(p) : nullptr, what = "GetUnEscapeStr"; break;
  case 3: r = isK && A->GetUnEscapeKey ? A->GetUnEscapeKey(p) : nullptr, what = "GetUnEscapeKey"; break;
  case 4: r = isK ? A->GetKey(p) : nullptr, what = "GetKey"; break;
  case 5: r = isK && A->GetKeyFast ? A->GetKeyFast(p, &len) : nullptr, term = false, text = isK ? n->keyText : 0, what = "GetKeyFast"; break;
  default:
    if (isS && A->GetStrFast) r = A->GetStrFast(p, &len);
    if (isN && A->GetNumFast) r = A->GetNumFast(p, &len);
    term = false, text = n ? n->litText : 0, what = "Get..Fast";
  }
  if (!r) return false;
  if (term) len = strlen(r);
  CHECK(len < (1u << 30), "absurd length %zu", len);
  if (len > 3000) return false;
  // part of it
  if (len && s.chance(1, 4)) {
    size_t off = s.below((uint32_t)len + 1), m = s.below((uint32_t)(len - off) + 1);
    r += off;
    len = term && s.chance(1, 2) ? len - off : m;
    if (len != strnlen(r, len + term)) term = false;
  }
  std::string bytes(r, len);
  Feed f{r, len, (1ull << hs[src].a) | (n ? n->deps : 0), text};
  bool lenStr = A->SetStrLen && A->SetStrLenFast, lenNum = A->SetNumStrLen && A->SetNumStrLenFast, lenKey = A->SetKeyLen && A->SetKeyLenFast;
  L("-- next argument: %s(h%d)%s", what, src, term ? "" : " (by length)");
  auto variant = [&](bool lenOk) { return term ? (lenOk ? (int)s.below(4) : 2 * (int)s.below(2)) : 1 + 2 * (int)s.below(2); };
  bool ok = false;
  feed_ = &f;
  try {
    switch (s.below(6)) {
    case 0:
      if (A->ParseLen && (!term || s.chance(1, 3))) ok = parse(dst, bytes, 2);
      else if (term && A->ParseFast && A->Parse) ok = parse(dst, bytes, (int)s.below(2));
      break;
    case 1:
      if (term ? A->SetKeyFast && A->SetKey : lenKey) ok = setKey(dst, bytes, variant(lenKey));
      break;
    case 2:
      if (A->SetStrEscape && A->SetStrLenEscape) ok = setEsc(dst, bytes, !term || s.chance(1, 2));
      break;
    case 3:
      if (A->SetKeyEscape && A->SetKeyLenEscape) ok = setKeyEsc(dst, bytes, !term || s.chance(1, 2));
      break;
    default: {
      bool num = isN ? !s.chance(1, 8) : s.chance(1, 8);
      bool lo = num ? lenNum : lenStr;
      if (term ? (num ? A->SetNumStrFast && A->SetNumStr : A->SetStrFast && A->SetStr) : lo) ok = setLit(dst, num, bytes, variant(lo));
    }
    }
  } catch (...) {
    feed_ = nullptr;
    throw;
  }
  feed_ = nullptr;
  return ok;
}
bool World::canMoveInto(int v, int w) const {
  if (v == w) return false;
  if (!hs[w].n || !hs[v].n) return true;
  return !isAncestorOrSelf(hs[w].n, hs[v].n);
}
// after every other edit of a container: its size, its type, and that a moved value's handle is empty
void World::glance(int v, int w) {
  if (mutations & 1) return;
  MNode *n = hs[v].n;
  CHECK(A->Type(hs[v].p) == n->type, "after the edit the type of h%d is %d, expected %d", v, A->Type(hs[v].p), n->type);
  if (n->type == T_ARR || n->type == T_OBJ)
    CHECK(A->SizeOf(hs[v].p) == n->kids.size(), "after the edit h%d has size %zu, expected %zu", v, A->SizeOf(hs[v].p), n->kids.size());
  if (w >= 0) CHECK(A->Type(hs[w].p) == T_EMPTY, "the source handle h%d is not empty after the move", w);
}
bool World::set(int v, int w) {
  bool want = hs[w].n != nullptr;
  L("Set(h%d, h%d)", v, w);
  int ret = A->Set(hs[v].p, hs[w].p);
  CHECK((ret != 0) == want, "Set returned %s, expected %s", ret ? "true" : "false", want ? "true" : "false");
  if (!want) {
    refused++;
    return false;
  }
  mutations++;
  copies++;
  uint64_t bit = 1ull << hs[v].a;
  MNode *c = clone(hs[w].n, bit);
  MNode *n = hs[v].n;
  if (!n) {
    hs[v].n = c;
    return true;
  }
  if ((A->flags & VF_FLAG_SETKEY_ON_SET) && n->hasKey && c->hasKey) n->key = c->key, n->keyText = 0;
  overwrite(n);
  n->type = c->type;
  n->lit = c->lit;
  n->litText = 0;
  n->kids = c->kids;
  for (auto *k : n->kids) k->parent = n;
  n->deps |= bit;
  return true;
}
bool World::setFast(int v, int w) {
  bool want = hs[w].n != nullptr;
  L("SetFast(h%d, h%d)", v, w);
  int ret = A->SetFast(hs[v].p, hs[w].p);
  CHECK((ret != 0) == want, "SetFast returned %s, expected %s", ret ? "true" : "false", want ? "true" : "false");
  if (!want) {
    refused++;
    return false;
  }
  mutations++;
  moves++;
  MNode *m = hs[w].n;
  detach(m);
  hs[w].n = nullptr;
  MNode *n = hs[v].n;
  if (!n) {
    hs[v].n = m;
    glance(v, w);
    return true;
  }
  if ((A->flags & VF_FLAG_SETKEY_ON_SET) && n->hasKey && m->hasKey) n->key = m->key, n->keyText = m->keyText;
  overwrite(n);
  n->type = m->type;
  n->lit = m->lit;
  n->litText = m->litText;
  n->kids = m->kids;
  for (auto *k : n->kids) k->parent = n;
  n->deps |= m->deps;
  m->kids.clear();
  m->dead = true; // other handles to the emptied node are no longer meaningful
  glance(v, w);
  dropDead();
  return true;
}
bool World::objAdd(int v, int w) {
  bool want = hs[v].n && hs[v].n->type == T_OBJ && hs[w].n && hs[w].n->hasKey;
  L("ObjAdd(h%d, h%d)", v, w);
  int ret = A->ObjAdd(hs[v].p, hs[w].p);
  CHECK((ret != 0) == want, "ObjAdd returned %s, expected %s", ret ? "true" : "false", want ? "true" : "false");
  if (!want) {
    refused++;
    return false;
  }
  mutations++;
  copies++;
  MNode *c = clone(hs[w].n, 1ull << hs[v].a);
  c->parent = hs[v].n;
  hs[v].n->kids.push_back(c);
  glance(v);
  return true;
}
bool World::objAddFast(int v, int w) {
  bool want = hs[v].n && hs[v].n->type == T_OBJ && hs[w].n && hs[w].n->hasKey;
  L("ObjAddFast(h%d, h%d)", v, w);
  int ret = A->ObjAddFast(hs[v].p, hs[w].p);
  CHECK((ret != 0) == want, "ObjAddFast returned %s, expected %s", ret ? "true" : "false", want ? "true" : "false");
  if (!want) {
    refused++;
    return false;
  }
  mutations++;
  moves++;
  MNode *m = hs[w].n;
  detach(m);
  m->parent = hs[v].n;
  hs[v].n->kids.push_back(m);
  hs[w].n = nullptr;
  glance(v, w);
  return true;
}
bool World::arrAdd(int v, int w) {
  bool want = hs[v].n && hs[v].n->type == T_ARR && hs[w].n;
  L("ArrayAdd(h%d, h%d)", v, w);
  int ret = A->ArrayAdd(hs[v].p, hs[w].p);
  CHECK((ret != 0) == want, "ArrayAdd returned %s, expected %s", ret ? "true" : "false", want ? "true" : "false");
  if (!want) {
    refused++;
    return false;
  }
  mutations++;
  copies++;
  MNode *c = clone(hs[w].n, 1ull << hs[v].a);
  c->hasKey = false;
  c->key.clear();
  c->parent = hs[v].n;
  hs[v].n->kids.push_back(c);
  glance(v);
  return true;
}
bool World::arrAddFast(int v, int w) {
  bool want = hs[v].n && hs[v].n->type == T_ARR && hs[w].n;
  L("ArrayAddFast(h%d, h%d)", v, w);
  int ret = A->ArrayAddFast(hs[v].p, hs[w].p);
  CHECK((ret != 0) == want, "ArrayAddFast returned %s, expected %s", ret ? "true" : "false", want ? "true" : "false");
  if (!want) {
    refused++;
    return false;
  }
  mutations++;
  moves++;
  MNode *m = hs[w].n;
  detach(m);
  m->hasKey = false;
  m->key.clear();
  m->keyText = 0;
  m->parent = hs[v].n;
  hs[v].n->kids.push_back(m);
  hs[w].n = nullptr;
  glance(v, w);
  return true;
}
bool World::arrDel(int v, size_t i) {
  bool want = hs[v].n && hs[v].n->type == T_ARR && i < hs[v].n->kids.size();
  L("ArrayDel(h%d, %zu)", v, i);
  int ret = A->ArrayDel(hs[v].p, i);
  CHECK((ret != 0) == want, "ArrayDel(%zu) returned %s, expected %s", i, ret ? "true" : "false", want ? "true" : "false");
  if (!want) {
    refused++;
    return false;
  }
  mutations++;
  dels++;
  detach(hs[v].n->kids[i]);
  glance(v);
  return true;
}
static MNode *findKey(MNode *n, const std::string &k) {
  if (!n || n->type != T_OBJ) return nullptr;
  for (auto *c : n->kids)
    if (c->key == k) return c;
  return nullptr;
}
bool World::objDel(int v, const std::string &k0) {
  bool len = A->ObjDelLen && s.chance(1, 2);
  std::string k = len ? k0 : k0.substr(0, k0.find('\0'));
  MNode *m = findKey(hs[v].n, k);
  L("ObjDel%s(h%d, \"%s\")", len ? "Len" : "", v, SH(k));
  TextBuf b(k, !len, junk_);
  int ret = len ? A->ObjDelLen(hs[v].p, b.p(), b.n()) : A->ObjDel(hs[v].p, b.p());
  CHECK(b.intact(), "ObjDel modified the caller's text");
  CHECK((ret != 0) == (m != nullptr), "ObjDel(\"%s\") returned %s, expected %s", show(k).c_str(), ret ? "true" : "false", m ? "true" : "false");
  if (!m) {
    refused++;
    return false;
  }
  mutations++;
  dels++;
  detach(m);
  glance(v);
  return true;
}
int World::copy(int v) {
  L("Copy(h%d)", v);
  void *p = A->Copy(hs[v].p);
  CHECK((p != nullptr) == (hs[v].n != nullptr), "Copy returned %s for %s value", p ? "a value" : "null", hs[v].n ? "a non-empty" : "an empty");
  if (!p) {
    refused++;
    return -1;
  }
  copies++;
  int h = addHandle(p, clone(hs[v].n, 1ull << hs[v].a), hs[v].a);
  L("  = h%d", h);
  return h;
}
bool World::move(int v) {
  L("Move(h%d)", v);
  int ret = A->Move(hs[v].p);
  CHECK((ret != 0) == (hs[v].n != nullptr), "Move returned %s", ret ? "true for an empty value" : "false for a non-empty value");
  if (!hs[v].n) {
    refused++;
    return false;
  }
  if (hs[v].n->parent) mutations++, moves++;
  detach(hs[v].n);
  return true;
}
int World::begin(int v) {
  void *p = A->Begin(hs[v].p);
  MNode *n = hs[v].n;
  MNode *want = n && (n->type == T_ARR || n->type == T_OBJ) && !n->kids.empty() ? n->kids[0] : nullptr;
  CHECK((p != nullptr) == (want != nullptr), "Begin returned %s", p ? "a value although there is no element" : "nothing although there are elements");
  if (!p) return -1;
  int h = addHandle(p, want, hs[v].a);
  L("h%d = Begin(h%d)", h, v);
  return h;
}
static MNode *nextOf(const MNode *n) {
  if (!n || !n->parent) return nullptr;
  auto &k = n->parent->kids;
  for (size_t i = 0; i + 1 < k.size(); i++)
    if (k[i] == n) return k[i + 1];
  return nullptr;
}
int World::next(int v) {
  void *p = A->Next(hs[v].p);
  MNode *want = nextOf(hs[v].n);
  CHECK((p != nullptr) == (want != nullptr), "Next returned %s", p ? "a value although there is no next sibling" : "nothing although there is a next sibling");
  if (!p) return -1;
  int h = addHandle(p, want, hs[v].a);
  L("h%d = Next(h%d)", h, v);
  return h;
}
int World::arrGet(int v, size_t i) {
  void *p = A->ArrayGet(hs[v].p, i);
  MNode *n = hs[v].n;
  MNode *want = n && n->type == T_ARR && i < n->kids.size() ? n->kids[i] : nullptr;
  CHECK((p != nullptr) == (want != nullptr), "ArrayGet(%zu) returned %s", i, p ? "a value although out of range" : "nothing although in range");
  if (!p) return -1;
  int h = addHandle(p, want, hs[v].a);
  L("h%d = ArrayGet(h%d, %zu)", h, v, i);
  return h;
}
// A key that differs slightly from k (or not at all); never contains a zero byte if k does not.
std::string nearKey(Src &s, const std::string &k) {
  std::string m = k;
  char b = (char)(1 + s.below(255));
  size_t i = m.empty() ? 0 : s.below((uint32_t)m.size());
  switch (s.below(14)) {
  case 0: return m + "a";
  case 1: if (!m.empty()) m.pop_back(); return m;
  case 2: return m + b;
  case 3: return b + m;
  case 4: return m + " \n\t\r\"\\\x01\x7f"[s.below(8)];
  case 5: if (!m.empty()) m[i] = b; return m;
  case 6: if (!m.empty()) m[i] = (char)(m[i] ^ (1 << s.below(8))); break;
  case 7: for (auto &c : m) if ((c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z')) c = (char)(c ^ 32); return m;
  case 8: if (!m.empty()) m.erase(i, 1); return m;
  case 9: if (!m.empty()) m.insert(i, 1, m[i]); return m;
  case 10: if (!m.empty()) m[m.size() - 1 - std::min(i, m.size() - 1) / 8] = b; return m;
  case 11: m = oracle::decode(k); break;
  case 12: {
    static const char *H = "0123456789abcdef";
    if (!m.empty() && m[i] != '\\') { char u[7] = {'\\', 'u', '0', '0', H[(m[i] >> 4) & 15], H[m[i] & 15], 0}; m.replace(i, 1, u); }
    return m;
  }
  default: return m + m;
  }
  for (auto &c : m) if (!c) c = '0';
  return m;
}
int World::objGet(int v, const std::string &k0, bool withLen) {
  if (withLen && !A->ObjGetLen) withLen = false;
  std::string k = withLen ? k0 : k0.substr(0, k0.find('\0'));
  TextBuf b(k, !withLen, junk_);
  void *p = withLen ? A->ObjGetLen(hs[v].p, b.p(), b.n()) : A->ObjGet(hs[v].p, b.p());
  CHECK(b.intact(), "ObjGet modified the caller's text");
  MNode *want = findKey(hs[v].n, k);
  CHECK((p != nullptr) == (want != nullptr), "ObjGet%s(\"%s\") returned %s", withLen ? "Len" : "", show(k).c_str(),
        p ? "a value although no member has that key" : "nothing although a member has that key");
  if (!p) return -1;
  int h = addHandle(p, want, hs[v].a);
  L("h%d = ObjGet%s(h%d, \"%s\")", h, withLen ? "Len" : "", v, SH(k));
  return h;
}

// ---- checks
static std::string cstr(const std::string &s) { return s.substr(0, s.find('\0')); }
void World::checkText(int h) {
  std::string want = oracle::dump(hs[h].n);
  const char *r = A->Stringify(hs[h].p);
  CHECK(r, "Stringify returned null");
  size_t n = strlen(r);
  CHECK(n == want.size() && !memcmp(r, want.data(), n), "Stringify(h%d) is \"%s\" (%zu bytes), expected \"%s\" (%zu bytes)", h, show(r).c_str(), n,
        show(want).c_str(), want.size());
  if (n >= 2000) {
    if (remBig > 1000000) return;
    remBig += n;
  }
  remember(h, r, n + 1, "Stringify");
}
std::vector<std::string> World::snapshot() {
  std::vector<std::string> v;
  for (auto &h : hs)
    if (h.live) v.push_back(A->Stringify(h.p));
  return v;
}
void World::checkAll() {
  for (size_t i = 0; i < hs.size(); i++)
    if (hs[i].live) checkText((int)i);
}
void World::scalarAt(void *p, const MNode *n, int a, uint64_t deps) {
  (void)a;
  auto note = [&](const char *q, size_t len, const char *what) {
    if (A->flags & VF_FLAG_GO) return;
    if (len > 3000) {
      if (remBig > 1000000) return;
      remBig += len;
    }
    if (rem.size() < remCap) rem.push_back({deps, q, std::string(q, len), what});
    else if (remReplace && s.below(8) == 7) rem[s.below((uint32_t)rem.size())] = {deps, q, std::string(q, len), what};
  };
  int type = n ? n->type : 0;
  int t = A->Type(p);
  CHECK(t == type, "Type is %d, expected %d", t, type);
  size_t sz = A->SizeOf(p);
  size_t wantSz = n && (type == T_ARR || type == T_OBJ) ? n->kids.size() : 0;
  CHECK(sz == wantSz, "size is %zu, expected %zu", sz, wantSz);
  CHECK((A->IsNull(p) != 0) == (type == T_NULL), "IsNull is wrong for a value of type %d", type);
  int b = A->GetBool(p);
  CHECK(b == (type == T_BOOL ? n->lit == "true" : -1), "GetBool is %d for %s", b, n ? show(n->lit).c_str() : "an empty value");
  if (t && A->RawType) {
    size_t l = 0;
    const void *q = A->RawType(p, &l);
    CHECK(q, "Type reports absence the second time");
    rememberAt(deps, q, l, "Type");
  }
  if (type == T_BOOL && A->RawBool) {
    size_t l = 0;
    const void *q = A->RawBool(p, &l);
    CHECK(q, "GetBool reports absence the second time");
    rememberAt(deps, q, l, "GetBool");
  }
  auto text = [&](const char *name, const char *r, bool want, const std::string &exp) {
    CHECK((r != nullptr) == want, "%s %s", name, want ? "reports absence" : "returns a value although not applicable");
    if (!r) return;
    std::string e = cstr(exp);
    size_t l = strlen(r);
    CHECK(l == e.size() && !memcmp(r, e.data(), l), "%s is \"%s\", expected \"%s\"", name, show(r).c_str(), show(e).c_str());
    note(r, l + 1, name);
  };
  auto ltext = [&](const char *name, const char *(*f)(void *, size_t *), bool want, const std::string &exp) {
    if (!f) return;
    size_t l = 0;
    const char *r = f(p, &l);
    CHECK((r != nullptr) == want, "%s %s", name, want ? "reports absence" : "returns a value although not applicable");
    if (!r) return;
    CHECK(l == exp.size() && !memcmp(r, exp.data(), l), "%s is \"%s\" (length %zu), expected \"%s\" (length %zu)", name,
          show(std::string(r, l < 400 ? l : 400)).c_str(), l, show(exp).c_str(), exp.size());
    note(r, l, name);
  };
  bool isS = type == T_STR, isN = type == T_NUM;
  static const std::string E;
  const std::string &lit = n ? n->lit : E;
  text("GetStr", A->GetStr(p), isS, lit);
  ltext("GetStrFast", A->GetStrFast, isS, lit);
  text("GetUnEscapeStr", A->GetUnEscapeStr(p), isS, isS ? oracle::decode(lit) : E);
  text("GetNumStr", A->GetNumStr(p), isN, lit);
  ltext("GetNumFast", A->GetNumFast, isN, lit);
  bool hk = n && n->hasKey;
  const std::string &key = hk ? n->key : E;
  text("GetKey", A->GetKey(p), hk, key);
  ltext("GetKeyFast", A->GetKeyFast, hk, key);
  text("GetUnEscapeKey", A->GetUnEscapeKey(p), hk, hk ? oracle::decode(key) : E);
  auto dbl = [&](const char *name, const double *(*f)(void *)) {
    if (!f) return;
    const double *d = f(p);
    CHECK((d != nullptr) == isN, "%s %s", name, isN ? "reports absence" : "returns a value although not a number");
    if (!d) return;
    double e = cStrtod(lit.c_str()), v;
    memcpy(&v, d, 8);
    CHECK(bitsOf(v) == bitsOf(e), "%s of %s is %.17g, expected %.17g", name, show(lit).c_str(), v, e);
    note((const char *)d, 8, name);
  };
  dbl("GetNum", A->GetNum);
  dbl("GetDouble", A->GetDouble);
  bool intlit = isN && oracle::isIntLit(lit);
  bool inLL = false;
  long long v = 0;
  if (intlit) {
    errno = 0;
    v = strtoll(lit.c_str(), nullptr, 10);
    inLL = errno == 0;
  }
  if (A->GetInt) {
    const int *q = A->GetInt(p);
    CHECK((q != nullptr) == isN, "GetInt %s", isN ? "reports absence" : "returns a value although not a number");
    if (q) {
      int x;
      memcpy(&x, q, sizeof x);
      if (inLL && v >= INT_MIN && v <= INT_MAX) CHECK(x == v, "GetInt of %s is %d", show(lit).c_str(), x);
      note((const char *)q, sizeof x, "GetInt");
    }
  }
  if (A->GetLong) {
    const long *q = A->GetLong(p);
    CHECK((q != nullptr) == isN, "GetLong %s", isN ? "reports absence" : "returns a value although not a number");
    if (q) {
      long x;
      memcpy(&x, q, sizeof x);
      if (inLL) CHECK(x == v, "GetLong of %s is %ld", show(lit).c_str(), x);
      note((const char *)q, sizeof x, "GetLong");
    }
  }
  if (A->GetLongLong) {
    const long long *q = A->GetLongLong(p);
    CHECK((q != nullptr) == isN, "GetLongLong %s", isN ? "reports absence" : "returns a value although not a number");
    if (q) {
      long long x;
      memcpy(&x, q, sizeof x);
      if (inLL) CHECK(x == v, "GetLongLong of %s is %lld", show(lit).c_str(), x);
      note((const char *)q, sizeof x, "GetLongLong");
    }
  }
  if (!n || type != T_ARR) CHECK(!A->ArrayGet(p, 0), "ArrayGet returns a value although not an array");
  if (!n || type != T_OBJ) {
    CHECK(!A->ObjGet(p, "a"), "ObjGet returns a value although not an object");
    CHECK(!A->ObjGet(p, ""), "ObjGet returns a value although not an object");
    if (A->ObjGetLen) CHECK(!A->ObjGetLen(p, "", 0), "ObjGetLen returns a value although not an object");
  }
  if (!n || (type != T_ARR && type != T_OBJ)) CHECK(!A->Begin(p), "Begin returns a value although not a container");
}
void World::checkScalar(int h) { scalarAt(hs[h].p, hs[h].n, hs[h].a, 1ull << hs[h].a | (hs[h].n ? hs[h].n->deps : 0)); }
void World::auditAt(void *p, const MNode *n, int a, int depth) {
  uint64_t deps = 1ull << a | (n ? n->deps : 0);
  scalarAt(p, n, a, deps);
  if (!n || (n->type != T_ARR && n->type != T_OBJ)) return;
  std::string want;
  if ((depth < 3 || s.below(4) == 3) && spent < MAXSPENT) {
    want = oracle::dump(n);
    spent += want.size();
    const char *r = A->Stringify(p);
    CHECK(r && want == r, "Stringify of a sub-value is \"%s\", expected \"%s\"", show(r).c_str(), show(want).c_str());
  }
  size_t cnt = n->kids.size(), i = 0;
  void *c = A->Begin(p);
  for (; c; c = A->Next(c), i++) {
    CHECK(i < cnt, "iteration yields more than the %zu elements expected", cnt);
    auditAt(c, n->kids[i], a, depth + 1);
  }
  CHECK(i == cnt, "iteration yields %zu elements, expected %zu", i, cnt);
  if (n->type == T_ARR) {
    for (i = 0; i < cnt; i++) {
      if (cnt > 40 && i > 8 && i + 8 < cnt && (i & (i - 1))) continue;
      void *e = A->ArrayGet(p, i);
      CHECK(e, "ArrayGet(%zu) finds nothing in an array of %zu", i, cnt);
      int t = A->Type(e);
      CHECK(t == n->kids[i]->type, "ArrayGet(%zu) is not the %zu-th element", i, i);
      if (spent < MAXSPENT) {
        const char *r = A->Stringify(e);
        std::string w = oracle::dump(n->kids[i]);
        spent += w.size();
        CHECK(r && w == r, "ArrayGet(%zu) is \"%s\", expected \"%s\"", i, show(r).c_str(), show(w).c_str());
      }
      void *x = A->Next(e);
      CHECK((x != nullptr) == (i + 1 < cnt), "Next of element %zu of %zu is wrong", i, cnt);
    }
    CHECK(!A->ArrayGet(p, cnt), "ArrayGet(%zu) finds a value one past the end", cnt);
    CHECK(!A->ArrayGet(p, cnt + 1 + s.below(3)), "ArrayGet finds a value past the end");
    for (size_t far : {(size_t)255 + 1, (size_t)0x7fff, (size_t)0x8000, (size_t)0xffff, (size_t)0x10000, (size_t)0x7fffffff, (size_t)0x80000000u, (size_t)0xfffffffeu, (size_t)0xffffffffu}) {
      if (far < cnt || ((A->flags & VF_FLAG_NARROW) && far > 0xffff)) continue;
      CHECK(!A->ArrayGet(p, far), "ArrayGet(%zu) finds a value in an array of %zu", far, cnt);
    }
  } else {
    for (i = 0; i < cnt; i++) {
      if (cnt > 40 && i > 8 && i + 8 < cnt && (i & (i - 1))) continue;
      const std::string &k = n->kids[i]->key;
      size_t f = 0;
      while (n->kids[f]->key != k) f++;
      bool full = spent < MAXSPENT;
      std::string w;
      if (full) w = oracle::dump(n->kids[f]);
      spent += 2 * w.size();
      for (int v = 0; v < 2; v++) {
        if (v && !A->ObjGetLen) break;
        TextBuf b(k, !v, junk_);
        void *e = v ? A->ObjGetLen(p, b.p(), b.n()) : A->ObjGet(p, b.p());
        CHECK(e, "ObjGet%s(\"%s\") finds nothing although the key exists", v ? "Len" : "", show(k).c_str());
        const char *r = full ? A->Stringify(e) : w.c_str();
        CHECK(r && w == r, "ObjGet%s(\"%s\") is \"%s\", expected the first such member \"%s\"", v ? "Len" : "", show(k).c_str(), show(r).c_str(),
              show(w).c_str());
        void *x = A->Next(e);
        CHECK((x != nullptr) == (f + 1 < cnt), "Next of the member found by key is wrong");
      }
      // near misses
      std::string m = nearKey(s, k);
      bool exists = false;
      for (auto *q : n->kids) exists |= q->key == m;
      TextBuf b(m, true, junk_);
      CHECK((A->ObjGet(p, b.p()) != nullptr) == exists, "ObjGet(\"%s\") %s", show(m).c_str(), exists ? "finds nothing" : "finds a value although no member has that key");
      if (A->ObjGetLen) {
        TextBuf b2(m, false, junk_);
        CHECK((A->ObjGetLen(p, b2.p(), b2.n()) != nullptr) == exists, "ObjGetLen(\"%s\", %zu) %s", show(m).c_str(), m.size(),
              exists ? "finds nothing" : "finds a value although no member has that key");
        std::string z = (i % 2 ? k : m) + std::string(1, '\0') + (i % 3 ? "" : "x"); // no key holds a NUL
        TextBuf b3(z, false, junk_);
        CHECK(!A->ObjGetLen(p, b3.p(), b3.n()), "ObjGetLen(\"%s\", %zu) finds a value although no member has that key", show(z).c_str(), z.size());
      }
    }
  }
}
void World::audit(int h) { auditAt(hs[h].p, hs[h].n, hs[h].a, 0); }
