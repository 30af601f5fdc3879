// Check engines. Each run() is one case: a pure function of the choice source and the job parameters.
#include "engines.h"
#include <algorithm>
#include <climits>
#include <cmath>
#include <pthread.h>
#include <thread>
#include <unistd.h>

static const Api *pickApi(Ctx &c, Src &s) { return c.apis.size() == 1 ? c.apis[0] : c.apis[s.below((uint32_t)c.apis.size())]; }
static std::string par(const Ctx &c, const char *k, const char *d) {
  std::string key = std::string(k) + "=";
  size_t i = 0;
  while (i < c.param.size()) {
    size_t e = c.param.find(';', i);
    if (e == std::string::npos) e = c.param.size();
    if (c.param.compare(i, key.size(), key) == 0) return c.param.substr(i + key.size(), e - i - key.size());
    i = e + 1;
  }
  return d;
}
static long parN(const Ctx &c, const char *k, long d) {
  std::string v = par(c, k, "");
  return v.empty() ? d : atol(v.c_str());
}
static uint64_t getIdx(Src &s) {
  uint64_t v = 0;
  for (int i = 0; i < 8; i++) v |= (uint64_t)s.byte() << (8 * i);
  return v;
}

// ------------------------------------------------------------------------------------------------
// hist: a random call history against the tree model
static void noteHist(World &w) {
  Ctx &c = w.ctx;
  c.nontrivial = w.mutations >= 4 && (w.moves + w.copies + w.dels) >= 1;
  if (w.moves) CLS(c, "history moves a value");
  if (w.copies) CLS(c, "history copies a value");
  if (w.dels) CLS(c, "history deletes");
  if (w.refused) CLS(c, "history has refused calls");
  if (w.releases > (int)w.allocs.size() - w.liveAllocs() - 1 && w.allocs.size() > 1) CLS(c, "history uses several allocators");
  if (w.mutations >= 20) CLS(c, "history with 20+ mutations");
  if (c.wantSample) {
    for (auto &l : w.log) {
      if (c.sample.size() > 1500) break;
      c.sample += l + "; ";
    }
  }
}
static void e_hist(Ctx &c, Src &s) {
  World w(c, pickApi(c, s), s);
  std::string p = par(c, "p", "edit");
  if (p == "mix") {
    static const char *P[] = {"edit", "copy", "move", "mem", "read", "lits", "parse", "small"};
    p = P[s.below(8)];
  }
  runHistory(w, profile(p));
  noteHist(w);
}
// histall: the same history on every loaded surface or configuration
static void e_histall(Ctx &c, Src &s) {
  // draw the history's bytes once, so that every surface sees the same choices
  std::vector<uint8_t> b(64 + s.below(4000));
  for (auto &x : b) x = s.byte();
  std::string p = par(c, "p", "mix");
  if (p == "mix") {
    static const char *P[] = {"edit", "copy", "move", "mem", "lits", "parse", "small", "read"};
    p = P[s.below(8)];
  }
  for (auto *a : c.apis) {
    if (g_verbose) fprintf(stderr, " surface %s\n", a->name);
    Src t(b.data(), b.size());
    c.hash = 0;
    try {
      World w(c, a, t);
      runHistory(w, profile(p));
      noteHist(w);
    } catch (Violation &v) {
      throw Violation{std::string("[") + a->name + "] " + v.msg};
    }
  }
  c.weight = c.apis.size();
}

// cycle: similar short histories one after the other in allocators that get the memory of the released ones back,
// so that whatever the library still knows about a released allocator meets new content at the same address
static void e_cycle(Ctx &c, Src &s) {
  const Api *A = pickApi(c, s);
  std::vector<uint8_t> b(20 + s.below(180));
  for (auto &x : b) x = s.byte();
  static const char *P[] = {"mem", "edit", "copy", "move", "parse", "small", "read", "lits"};
  Profile p = profile(P[s.below(8)]);
  p.minOps = 1;
  p.maxOps = 1 + (int)s.below(12);
  struct Reuse {
    Reuse() { mem::reuse(true), textReuse(true); }
    ~Reuse() { mem::reuse(false), textReuse(false); }
  } on;
  int rounds = 3 + (int)s.below(10), muts = 0;
  for (int r = 0; r < rounds; r++) {
    std::vector<uint8_t> x = b;
    for (int k = (int)s.below(4); k > 0; k--) x[s.below((uint32_t)x.size())] = s.byte();
    if (s.below(4) == 3) x.resize(1 + s.below((uint32_t)x.size()));
    if (g_verbose) fprintf(stderr, " round %d\n", r);
    Src t(x.data(), x.size());
    World w(c, A, t);
    if (s.below(3) == 1) w.brief = true;
    runHistory(w, p);
    muts += w.mutations;
    c.mixin(std::string(x.begin(), x.end()));
    if (c.wantSample && r < 2)
      for (auto &l : w.log) {
        if (c.sample.size() > 500) break;
        c.sample += l + "; ";
      }
  }
  c.nontrivial = muts >= 3;
  c.weight = rounds;
}

// twins: texts of one length that differ in a few bytes, one after the other in the same buffer and in recycled memory,
// so that an answer kept under an address and a length meets another content there
static std::string twinOf(Src &s, const std::string &t, bool valid, bool doc) {
  std::string r = t;
  for (int k = 0; k < 12; k++) {
    std::string u = t;
    for (int m = 1 + (int)s.below(3); m > 0; m--) {
      size_t i = s.chance(1, 4) ? (s.chance(1, 2) ? 0 : u.size() - 1) : s.below((uint32_t)u.size());
      unsigned char ch = (unsigned char)u[i];
      if (!valid && s.chance(1, 2)) u[i] = (char)"\x01\"\\,:]}[{ x0-."[s.below(14)];
      else if (ch >= '0' && ch <= '9') u[i] = (char)('0' + s.below(10));
      else if ((ch | 32) >= 'a' && (ch | 32) <= 'z') u[i] = (char)(s.chance(1, 4) ? ch ^ 32 : s.chance(1, 4) ? "rnbtf"[s.below(5)] : 'a' + s.below(26));
      else u[i] = (char)"+-.eE0 ,[]{}\""[s.below(13)];
    }
    if (u == t || u.find('\0') != std::string::npos) continue;
    bool ok = doc ? oracle::accepts(u) : oracle::strBody(u);
    if (ok == valid) return u;
  }
  return r;
}
static void e_twins(Ctx &c, Src &s) {
  const Api *A = pickApi(c, s);
  struct Reuse {
    Reuse() { mem::reuse(true), textReuse(true); }
    ~Reuse() { mem::reuse(false), textReuse(false); }
  } on;
  Gen g(s);
  g.maxLit = s.chance(1, 6) ? 5000 : 300;
  std::string t;
  int kind = (int)s.below(4);
  if (kind == 0) t = g.num();
  else if (kind == 1) {
    size_t n = 1 + s.below(s.chance(1, 4) ? 700 : 40);
    t = std::to_string(1 + s.below(9));
    while (t.size() < n) t += (char)('0' + s.below(10));
    if (s.chance(1, 2) && n > 3) t[1 + s.below((uint32_t)n - 2)] = '.';
    if (s.chance(1, 4)) t = "[" + t + "," + g.num() + "]";
  } else {
    Gen::DocOpt o;
    o.nodes = 1 + (int)s.below(14);
    o.lit = 10 + s.below(80);
    t = g.doc(o);
  }
  t.resize(std::min(t.find('\0'), t.size()));
  if (!oracle::accepts(t) || t.size() > 20000) t = "[12345678901234567890,\"abcdefgh\"]";
  std::string body = g.strBody(60);
  body.resize(std::min(body.find('\0'), body.size()));
  if (body.size() < 2 || !oracle::strBody(body) || body.size() > 20000) body = "key\\u0041";
  int how = (int)s.below(3), rounds = 3 + (int)s.below(6), differ = 0;
  int setv = (int)s.below(4);
  bool oneWorld = s.chance(1, 2), sameHandle = s.chance(1, 2), scal = s.chance(1, 2), keep = s.chance(1, 3);
  std::unique_ptr<World> w;
  int a = -1, h = -1, q = -1, k = -1;
  std::string prev = t, pbody = body;
  for (int r = 0; r < rounds; r++) {
    std::string u = r == 0 ? t : s.below(5) == 4 ? prev : twinOf(s, s.chance(1, 2) ? t : prev, s.below(5) != 4, true);
    std::string b = r == 0 ? body : s.below(5) == 4 ? pbody : twinOf(s, body, s.below(5) != 4, false);
    if (g_verbose) fprintf(stderr, " round %d\n", r);
    if (!w || !oneWorld) {
      if (w) w->finish();
      w.reset();
      w.reset(new World(c, A, s));
      a = w->newAllocator();
      h = w->newValue(a), q = w->newValue(a), k = w->newValue(a);
    } else {
      // the caller gives up what lies in the texts and writes new ones there
      for (uint32_t id = 1; id <= w->kept.size(); id++)
        if (w->textLive(id)) w->textUsers(id, true), w->dropText(id);
      if (!sameHandle || !w->hs[h].live) h = w->newValue(a);
      if (!sameHandle || !w->hs[q].live) q = w->newValue(a);
      if (!sameHandle || !w->hs[k].live) k = w->newValue(a);
    }
    if (u != prev) differ++;
    w->parse(h, u, keep ? how : (how + (int)s.below(4) / 3) % 3);
    if (w->hs[h].n) w->audit(h);
    w->setLit(q, false, b, setv);
    if (w->hs[q].n) w->setKey(q, b, setv), w->checkScalar(q);
    if (oracle::number(u) || scal) w->setLit(k, true, u, setv);
    if (w->hs[k].n) w->checkScalar(k);
    if (w->hs[h].n && w->hs[h].n->type == T_OBJ && w->hs[q].n && !w->hs[q].n->key.empty()) {
      w->objAdd(h, q);
      w->objGet(h, b, s.chance(1, 2));
    }
    if (w->hs[h].n) w->checkText(h);
    w->checkRemembered();
    prev = u, pbody = b;
    c.mixin(u);
    c.mixin(b);
    if (c.wantSample && r < 3) c.sample += show(u, 90) + " then ";
  }
  w->finish();
  w.reset();
  c.nontrivial = differ >= 2;
  c.weight = rounds;
}

// ------------------------------------------------------------------------------------------------
// doc: parse one text through every entry point; read and serialise it everywhere
static void serialiseEverywhere(World &w, void *p, const MNode *n, size_t &budget) {
  const Api *A = w.A;
  std::string want = oracle::dump(n);
  const char *r = A->Stringify(p);
  CHECK(r && want == r, "Stringify of a sub-value is \"%s\", expected \"%s\"", show(r).c_str(), show(want).c_str());
  if (n->kids.empty() || budget == 0) return;
  size_t i = 0;
  for (void *c = A->Begin(p); c; c = A->Next(c), i++) {
    CHECK(i < n->kids.size(), "iteration yields too many elements");
    if (budget) {
      budget--;
      serialiseEverywhere(w, c, n->kids[i], budget);
    }
  }
  CHECK(i == n->kids.size(), "iteration yields too few elements");
}
static std::string genText(World &w, const std::string &focus) {
  Src &s = w.s;
  Gen::DocOpt o;
  o.nodes = 1 + (int)s.below(s.chance(1, 10) ? 120 : 24);
  o.lit = s.chance(1, 4) ? 120 : 20;
  std::string t;
  if (focus == "verdict") {
    switch (s.below(8)) {
    case 0: t = w.g.doc(o); break;
    case 1: t = w.g.soup(); break;
    case 2: t = w.g.bytes(60, true); break;
    case 3: { // a valid document with a bad literal somewhere
      t = w.g.doc(o);
      std::string x = s.chance(1, 2) ? "\"" + w.g.badBody() + "\"" : w.g.badNum();
      t = s.chance(1, 2) ? "[" + t + "," + x + "]" : "{\"" + w.g.badBody() + "\":" + t + "}";
      if (s.chance(1, 3)) t = x;
      break;
    }
    default: t = w.g.mutate(w.g.doc(o));
    }
    if (s.chance(1, 10)) t.insert(s.below((uint32_t)t.size() + 1), 1, '\0');
  } else if (focus == "bytes") { // bytes straight from the choice source (for the coverage-guided fuzzer)
    size_t n = s.below(300);
    for (size_t i = 0; i < n && !s.exhausted(); i++) t += (char)s.byte();
  } else
    t = w.g.doc(o);
  return t;
}
static void e_doc(Ctx &c, Src &s) {
  const Api *A = pickApi(c, s);
  std::string focus = par(c, "f", "verdict");
  World w(c, A, s);
  w.g.maxLit = (A->flags & VF_FLAG_NARROW) ? 1500 : s.chance(1, 10) ? 140000 : 400;
  int a = w.newAllocator();
  std::string t = genText(w, focus);
  if ((A->flags & VF_FLAG_NARROW) && t.size() > 12000) t.resize(12000);
  if (w.logging) w.log.push_back("text: " + show(t, 400));
  c.mixin(t);
  bool ok = oracle::accepts(t);
  bool has = t.find_first_of("[{\"\\") != std::string::npos;
  c.nontrivial = focus == "verdict" || focus == "bytes" ? t.size() >= 3 : (ok && has && t.size() >= 4);
  if (ok) CLS(c, "valid text"); else CLS(c, "invalid text");
  if (t.size() > 1000) CLS(c, "text over 1000 bytes");
  if (t.find('\\') != std::string::npos) CLS(c, "text with escapes");
  if (t.find('\0') != std::string::npos) CLS(c, "text with NUL");
  // each entry point; with or without earlier content in the value
  int first = (int)s.below(3);
  std::vector<int> hs;
  for (int k = 0; k < 3; k++) {
    int v = (first + k) % 3;
    int h = w.newValue(a);
    if (s.chance(1, 4)) {
      switch (s.below(4)) {
      case 0: w.setArray(h); break;
      case 1: w.setLit(h, true, "42", 2); break;
      case 2: w.parse(h, "{\"old\":[1,2,3]}", 1); break;
      case 3: w.parse(h, "[", (int)s.below(3)); break;
      }
    }
    w.parse(h, t, v);
    hs.push_back(h);
  }
  for (int h : hs) w.checkText(h);
  if (focus == "text") {
    for (int h : hs) {
      size_t budget = 200;
      if (w.hs[h].n) serialiseEverywhere(w, w.hs[h].p, w.hs[h].n, budget);
      if (h != hs[0] && s.chance(1, 2)) break;
    }
    std::string once = A->Stringify(w.hs[hs[0]].p);
    int h = w.newValue(a);
    CHECK(w.parse(h, once, (int)s.below(3)), "the serialised text does not parse back");
    w.checkText(h);
  } else if (focus == "read") {
    w.audit(hs[0]);
    w.audit(hs[1]);
    w.audit(hs[2]);
    w.checkText(hs[0]);
  } else {
    // same verdict deep inside a larger text: wrap the text
    if (s.chance(1, 2) && t.find('\0') == std::string::npos) {
      int nest = 1 + (int)s.below(s.chance(1, 8) ? 3000 : 12);
      std::string o, e;
      int st = s.below(3);
      for (int i = 0; i < nest; i++) {
        if (st == 0 || (st == 2 && i % 2)) o += "[", e += "]";
        else o += "{\"k\":", e += "}";
      }
      std::reverse(e.begin(), e.end());
      std::string big = o + t + e;
      if (!(A->flags & VF_FLAG_NARROW) || big.size() < 12000) {
        int h = w.newValue(a);
        w.parse(h, big, (int)s.below(3));
        w.checkText(h);
      }
    }
    for (int h : hs) w.checkScalar(h);
  }
  w.checkRemembered();
  w.finish();
  if (c.wantSample) c.sample = show(t, 300);
}

// ------------------------------------------------------------------------------------------------
// sweep: every string up to a length bound over a small alphabet, through parser or setters
struct Sweep {
  const char *name, *kind; // kind: text, num, str, key
  std::vector<std::string> alpha;
  int quickLen, thoroughLen;
  const char *pre, *post; // text wrapped around the word
};
static std::vector<std::string> chars(const char *s) {
  std::vector<std::string> v;
  for (; *s; s++) v.push_back(std::string(1, *s));
  return v;
}
static std::vector<std::string> allBytes() {
  std::vector<std::string> v;
  for (int i = 0; i < 256; i++) v.push_back(std::string(1, (char)i));
  return v;
}
static const std::vector<Sweep> &sweeps() {
  static const std::vector<Sweep> v = {
      {"struct", "text", chars("[]{},:\"a1 "), 6, 7, "", ""},
      {"tokens", "text", {"[", "]", "{", "}", ",", "\"k\"", ":", "1", "\"k\":", "null", " "}, 6, 7, "", ""},
      {"inarr", "text", {"[", "]", "{", "}", ",", "\"\":", "0", "\"\"", "true"}, 6, 7, "[", "]"},
      {"inobj", "text", {"[", "]", "{", "}", ",", "\"\"", ":", "-1", "false", "\t"}, 5, 7, "{\"a\":", "}"},
      {"numtext", "text", chars("019-+.eE"), 6, 7, "", ""},
      {"numarr", "text", chars("01-+.e ,"), 6, 7, "[", "]"},
      {"strtext", "text", chars("\"\\udD8cC0n/\x1f\x80"), 4, 5, "\"", "\""},
      {"surr", "text", {"\\u", "d8", "D8", "dc", "Df", "00", "db", "\\", "x", "e0"}, 6, 7, "[\"", "\"]"},
      {"keytext", "text", {"\"", "\\", "a", "u0041", ":", ",", "1", "}", " "}, 6, 7, "{\"", "\":1}"},
      {"bytes2", "text", allBytes(), 2, 2, "", ""},
      {"bytesin", "text", allBytes(), 2, 2, "[\"", "\"]"},
      {"bytesarr", "text", allBytes(), 2, 2, "[1", "]"},
      {"lit", "text", {"t", "r", "u", "e", "f", "a", "l", "s", "n", " ", ","}, 5, 6, "", ""},
      {"num", "num", chars("0195-+.eE"), 6, 7, "", ""},
      {"numbytes", "num", allBytes(), 2, 2, "", ""},
      {"numtail", "num", allBytes(), 2, 2, "12", ""},
      {"str", "str", chars("\"\\udDc8C0n/a\x1f\x80"), 4, 5, "", ""},
      {"strsurr", "str", {"\\u", "d8", "D8", "dc", "Df", "00", "db", "\\", "x", "e0", "Ff"}, 6, 7, "", ""},
      {"strbytes", "str", allBytes(), 2, 2, "", ""},
      {"key", "key", chars("\"\\udc8Ce0n/a\x1f\x80"), 4, 5, "", ""},
      {"keysurr", "key", {"\\u", "d8", "dc", "Df", "00", "dB", "\\", "x", "e0", "fF"}, 6, 7, "", ""},
      {"keybytes", "key", allBytes(), 2, 2, "", ""},
  };
  return v;
}
static const Sweep &sweepOf(const Ctx &c) {
  std::string n = par(c, "w", "struct");
  for (auto &x : sweeps())
    if (n == x.name) return x;
  fprintf(stderr, "no sweep %s\n", n.c_str());
  abort();
}
static const uint64_t SWB = 2048; // words per case
static uint64_t sweepTotal(const Ctx &c) {
  const Sweep &w = sweepOf(c);
  uint64_t t = 0, k = 1;
  int L = c.tier ? w.thoroughLen : w.quickLen;
  for (int i = 0; i <= L; i++, k *= w.alpha.size()) t += k;
  return t;
}
static uint64_t n_sweep(const Ctx &c) { return (sweepTotal(c) + SWB - 1) / SWB; }
static std::string sweepWord(const Sweep &w, uint64_t i) {
  uint64_t k = 1;
  int len = 0;
  while (i >= k) i -= k, k *= w.alpha.size(), len++;
  std::string o;
  for (int j = 0; j < len; j++) {
    o += w.alpha[i % w.alpha.size()];
    i /= w.alpha.size();
  }
  return o;
}
static void e_sweep(Ctx &c, Src &s) {
  const Sweep &w = sweepOf(c);
  uint64_t b = getIdx(s) * SWB, e = std::min(b + SWB, sweepTotal(c)), acc = 0;
  const Api *A = c.apis[b / SWB % c.apis.size()];
  bool narrow = A->flags & VF_FLAG_NARROW;
  void *al = A->NewAllocator();
  std::string kind = w.kind;
  uint8_t junk = (uint8_t)(b / SWB);
  void *v = nullptr, *obj = nullptr;
  std::deque<std::unique_ptr<TextBuf>> keep; // texts of the in-place variants live as long as the allocator
  for (uint64_t i = b; i < e; i++) {
    if (i % (narrow ? 32 : 512) == 0 || i == b) {
      A->ReleaseAllocator(al);
      keep.clear();
      al = A->NewAllocator();
      obj = A->NewValue(al);
      A->Parse(obj, "{\"m\":[0],\"n\":2}");
      v = A->ObjGet(obj, "m");
      CHECK(v, "ObjGet finds nothing although the key exists");
    }
    std::string t = w.pre + sweepWord(w, i) + w.post;
    bool nul = t.find('\0') != std::string::npos;
    bool want = kind == "text" ? oracle::accepts(t) : kind == "num" ? oracle::number(t) : oracle::strBody(t);
    acc += want;
    auto verdict = [&](const char *fn, int r) {
      if ((r != 0) != want) fail("%s returned %s for \"%s\" (length %zu), which %s legal", fn, r ? "true" : "false", show(t).c_str(), t.size(), want ? "is" : "is not");
    };
    keep.emplace_back(new TextBuf(t, true, junk));
    const TextBuf &tz = *keep.back();
    keep.emplace_back(new TextBuf(t, false, junk));
    const TextBuf &tn = *keep.back();
    if (kind == "text") {
      void *x = A->NewValue(al);
      if (!nul) verdict("ParseFast", A->ParseFast(x, tz.p()));
      bool held = !nul && want;
      if (want) {
        Pool pool;
        std::string d = oracle::dump(oracle::parse(t, pool));
        const char *r = A->Stringify(x);
        CHECK(r && d == r, "parse and serialise of \"%s\" gives \"%s\", expected \"%s\"", show(t).c_str(), show(r).c_str(), show(d).c_str());
      } else
        CHECK(A->Type(x) == 0, "a value is not empty after a failed parse of \"%s\"", show(t).c_str());
      if (A->Parse && !nul) verdict("Parse", A->Parse(held ? x : A->NewValue(al), tz.p()));
      void *y = i % 3 ? A->NewValue(al) : x;
      if (A->ParseLen) verdict("ParseLen", A->ParseLen(y, tn.p(), tn.n()));
    } else {
      // all four variants, on a value inside a document; refusal leaves the document as it was
      bool num = kind == "num", key = kind == "key";
      int (*z[2])(void *, const char *) = {num ? A->SetNumStrFast : key ? A->SetKeyFast : A->SetStrFast, num ? A->SetNumStr : key ? A->SetKey : A->SetStr};
      int (*l[2])(void *, const char *, size_t) = {num ? A->SetNumStrLenFast : key ? A->SetKeyLenFast : A->SetStrLenFast,
                                                   num ? A->SetNumStrLen : key ? A->SetKeyLen : A->SetStrLen};
      static const char *NM[4] = {"in-place setter", "copying setter", "in-place setter with length", "copying setter with length"};
      static const char *cur = "{\"m\":[0],\"n\":2}";
      for (int k = 0; k < 4; k++) {
        if (k < 2 ? (nul || !z[k]) : !l[k - 2]) continue;
        verdict(NM[k], k < 2 ? z[k](v, tz.p()) : l[k - 2](v, tn.p(), tn.n()));
        bool dump = want || (i + (uint64_t)k) % 16 == 0;
        if (dump) {
          std::string x = !want ? cur : key ? "{\"" + t + "\":[0],\"n\":2}" : num ? "{\"m\":" + t + ",\"n\":2}" : "{\"m\":\"" + t + "\",\"n\":2}";
          const char *r = A->Stringify(obj);
          CHECK(r && x == r, "after the %s with \"%s\" (%s) the document is \"%s\", expected \"%s\"", NM[k], show(t).c_str(), want ? "legal" : "refused",
                show(r).c_str(), show(x).c_str());
        }
        if (want) { // back to the start content
          if (key) CHECK(A->SetKey(v, "m"), "SetKey(\"m\") refused");
          else CHECK(A->Parse(v, "[0]"), "Parse of [0] refused");
        }
      }
    }
  }
  A->ReleaseAllocator(al);
  c.weight = e - b;
  c.st->nontrivialDirect += e - b - (b == 0 ? 1 : 0);
  static int ia = classId("sweep word legal"), ib = classId("sweep word illegal");
  c.cls(ia, acc);
  c.cls(ib, e - b - acc);
  if (c.wantSample) c.sample = std::string(w.name) + ": " + show(w.pre + sweepWord(w, b + 777) + w.post) + " .. " + show(w.pre + sweepWord(w, e - 1) + w.post);
}

// ------------------------------------------------------------------------------------------------
// unicode: every \uXXXX in every position of both hex cases, every surrogate high x edge lows, etc.
static uint64_t n_unicode(const Ctx &c) { return c.tier ? 256 + 1024 : 256 + 64; }
static std::string hex4s(unsigned v, int mode) { // 0 lower 1 upper 2 mixed
  char b[8];
  snprintf(b, sizeof b, mode == 1 ? "%04X" : "%04x", v);
  if (mode == 2)
    for (int i = 0; i < 4; i += 2)
      if (b[i] >= 'a') b[i] = (char)(b[i] - 32);
  return std::string("\\u") + b;
}
static void unicodeOne(const Api *A, void *al, const std::string &body, bool parseOnly) {
  bool want = oracle::strBody(body);
  std::string t = "{\"" + body + "\":\"" + body + "\"}";
  TextBuf tb(t, true), bb(body, true);
  void *v = A->NewValue(al);
  int r = A->Parse(v, tb.p());
  CHECK((r != 0) == want, "Parse returned %s for %s", r ? "true" : "false", show(t).c_str());
  if (parseOnly) return;
  void *x = A->NewValue(al);
  int q = A->SetStr(x, bb.p());
  CHECK((q != 0) == want, "SetStr returned %s for %s", q ? "true" : "false", show(body).c_str());
  int k = A->SetKey(x, bb.p());
  CHECK((k != 0) == want, "SetKey returned %s for %s", k ? "true" : "false", show(body).c_str());
  if (!want) return;
  std::string d = oracle::decode(body);
  d = d.substr(0, d.find('\0'));
  void *m = A->Begin(v);
  CHECK(m, "Begin finds nothing");
  const char *g = A->GetUnEscapeStr(m);
  CHECK(g && d == g, "GetUnEscapeStr of %s is %s, expected %s", show(body).c_str(), show(g).c_str(), show(d).c_str());
  g = A->GetUnEscapeKey(m);
  CHECK(g && d == g, "GetUnEscapeKey of %s is %s, expected %s", show(body).c_str(), show(g).c_str(), show(d).c_str());
  g = A->GetUnEscapeStr(x);
  CHECK(g && d == g, "GetUnEscapeStr of the set string %s is %s, expected %s", show(body).c_str(), show(g).c_str(), show(d).c_str());
  g = A->GetKey(m);
  CHECK(g && body == g, "GetKey of %s is %s", show(body).c_str(), show(g).c_str());
  g = A->Stringify(v);
  CHECK(g && t == g, "Stringify of %s is %s", show(t).c_str(), show(g).c_str());
}
static void e_unicode(Ctx &c, Src &s) {
  uint64_t idx = getIdx(s);
  const Api *A = c.apis[idx % c.apis.size()];
  bool nar = A->flags & VF_FLAG_NARROW;
  bool parseOnly = par(c, "only", "") == "parse";
  void *al = A->NewAllocator();
  uint64_t n = 0;
  auto one = [&](const std::string &b) {
    if (n++ % (nar ? 24 : 200) == 0) {
      A->ReleaseAllocator(al);
      al = A->NewAllocator();
    }
    unicodeOne(A, al, b, parseOnly);
  };
  if (idx < 256) { // all code units, three spellings, alone and embedded
    for (unsigned lo = 0; lo < 256; lo++) {
      unsigned u = (unsigned)idx << 8 | lo;
      for (int m = 0; m < 3; m++) one(m == 1 ? "ab" + hex4s(u, m) + "\xc3\xa9" : m == 2 ? hex4s(u, m) + "z" : hex4s(u, m));
    }
  } else {
    uint64_t k = idx - 256;
    std::vector<unsigned> lows = {0xdbff, 0xdc00, 0xdc01, 0xdfff, 0xdffe, 0xe000, 0x0041, 0xd800, 0xffff, 0xdcff, 0xdd00, 0xde00, 0xdeff};
    std::vector<unsigned> his;
    if (c.tier) his = {0xd800 + (unsigned)k};
    else for (unsigned j = 0; j < 16; j++) his.push_back(0xd800 + (unsigned)k * 16 + j);
    for (unsigned j = 0; j < (c.tier ? 1024u : 12u); j++) lows.push_back(c.tier ? 0xdc00 + j : 0xdc00 + (unsigned)(mix64(k * 100 + j) & 1023));
    for (unsigned h : his)
      for (size_t j = 0; j < lows.size(); j++) one((j % 5 == 4 ? "q" : "") + hex4s(h, (int)j % 3) + hex4s(lows[j], (int)(j / 3) % 3) + (j % 7 == 6 ? "\\n" : ""));
  }
  A->ReleaseAllocator(al);
  c.weight = n;
  c.st->nontrivialDirect += n;
  if (c.wantSample) c.sample = idx < 256 ? "all \\u escapes with high byte " + std::to_string(idx) : "surrogate pairs, block " + std::to_string(idx - 256);
}

// ------------------------------------------------------------------------------------------------
// trunc: a seed text truncated at, and corrupted at, every byte; parsed fresh and into a filled value
static const std::vector<std::string> &seedTexts() {
  static const std::vector<std::string> v = [] {
    std::vector<std::string> o = {
        "{\"a\":[1,2.5e+10,-0,true,false,null,\"x\\n\\u00e9\\ud83d\\ude00\"],\"b\":{\"c\":{},\"d\":[]},\"\":\"\"}",
        " [ { \"k\" : [ [ ] , { } ] } , \"\\\"\\\\\\/\\b\\f\\n\\r\\t\" , -1.0E-5 ]\r\n",
        "[[[[[[[[1]]]]]]],[null,[true,[false]]]]",
        "{\"a\":{\"b\":{\"c\":{\"d\":{\"e\":[1,2,3]}}}}}",
        "\"\\u0041\\uDBFF\\uDFFF end\"",
        "-12345678901234567890.123456789e-300",
        "[true]", "false", "null", "[0,0.0,0e0,10,9]",
        "{\"dup\":1,\"dup\":2,\"dup\":{\"dup\":3}}",
        "\t\n\r [\t1\n,\r2 ]\t\n\r ",
        "[\"\xe4\xb8\xad\xe6\x96\x87\",\"\x7f\xff\"]",
    };
    return o;
  }();
  return v;
}
static const char *truncBytes() { return "\"\\{}[],: 0-e.tnfu/\x01\x80"; }
static uint64_t n_trunc(const Ctx &) {
  uint64_t n = 0;
  for (auto &t : seedTexts()) n += t.size() + 1;
  return n;
}
static void e_trunc(Ctx &c, Src &s) {
  uint64_t i = getIdx(s);
  const Api *A = c.apis[i % c.apis.size()];
  size_t k = 0;
  while (i > seedTexts()[k].size()) i -= seedTexts()[k].size() + 1, k++;
  const std::string &t = seedTexts()[k];
  size_t at = (size_t)i;
  std::vector<std::string> vs{t.substr(0, at)};
  if (at < t.size()) {
    for (const char *b = truncBytes(); *b; b++) {
      std::string x = t;
      x[at] = *b;
      vs.push_back(x);
      x = t;
      x.insert(at, 1, *b);
      vs.push_back(x);
    }
    std::string x = t;
    x.erase(at, 1);
    vs.push_back(x);
    x = t;
    x[at] = '\0';
    vs.push_back(x);
    x = t;
    x.insert(at, t.substr(at));
    vs.push_back(x);
  } else
    vs.push_back(t);
  World w(c, A, s);
  int al = w.newAllocator();
  static const char *holders[] = {"{\"p\":1,\"v\":{\"old\":[1,{\"x\":2}],\"s\":\"t\"},\"n\":[3]}", "[0,[\"in\",{}],9]", "{\"v\":5}", "[[],{}]"};
  size_t cnt = 0;
  for (auto &x : vs) {
    for (int var = 0; var < 3; var++) {
      int h = w.newValue(al);
      w.parse(h, x, var);
      w.checkText(h);
      if (cnt % 3 == (size_t)var) { // into a value inside a document
        int d = w.newValue(al);
        size_t hk = (cnt / 3) % 4;
        w.parse(d, holders[hk], 1);
        int in = hk % 2 ? w.arrGet(d, hk == 1 ? 1 : cnt % 2) : w.objGet(d, "v", false);
        CHECK(in >= 0, "holder access");
        w.parse(in, x, var);
        w.checkText(d);
        w.checkText(in);
        w.audit(d);
        // still usable
        int e = w.newValue(al);
        w.setLit(e, true, "7", 2);
        w.setKey(e, "zz", 2);
        if (w.hs[d].n->type == T_ARR) w.arrAddFast(d, e);
        else w.objAddFast(d, e);
        w.checkText(d);
        w.hs[e].live = w.hs[in].live = w.hs[d].live = false;
      }
      w.hs[h].live = false;
    }
    if (++cnt % 8 == 0) {
      w.release(al);
      al = w.newAllocator();
    }
  }
  w.finish();
  c.weight = vs.size() * 3;
  c.st->nontrivialDirect += vs.size();
  if (c.wantSample) c.sample = "seed text " + std::to_string(k) + " changed at byte " + std::to_string(at) + ", e.g. " + show(vs.back(), 120);
}

// ------------------------------------------------------------------------------------------------
// near: a valid text (wide, deep or ordinary), then exactly one of its tokens changed
static uint32_t nearCount(Src &s, uint32_t maxBits) { // how many members: small, or around a power of two or ten
  switch (s.below(4)) {
  case 0: return s.below(8);
  case 1: return s.below(80);
  case 2: {
    uint32_t k = 1u << s.range(3, maxBits);
    return k - 2 + s.below(5);
  }
  default: {
    static const uint32_t T[] = {10, 20, 30, 50, 100, 128, 200, 300, 500, 1000};
    return T[s.below(10)] - 2 + s.below(5);
  }
  }
}
struct NearTok {
  std::vector<std::string> v;
  size_t bytes = 0;
  void operator()(const std::string &t) { v.push_back(t), bytes += t.size(); }
};
static void nearScalar(World &w, NearTok &o, bool plain) {
  Src &s = w.s;
  switch (s.below(plain ? 6 : 8)) {
  case 0: o(std::to_string(s.below(1000))); break;
  case 1: o("true"); break;
  case 2: o("null"); break;
  case 3: o("false"); break;
  case 4: o("\"s\""); break;
  case 5: o("-0.5e1"); break;
  case 6: o(w.g.num()); break;
  default: o("\"" + w.g.strBody(20) + "\"");
  }
}
static void nearSmall(World &w, NearTok &o) { // a scalar or a one-level container
  Src &s = w.s;
  bool obj = s.chance(1, 2);
  uint32_t n = s.below(4);
  if (s.chance(1, 2)) return nearScalar(w, o, false);
  o(obj ? "{" : "[");
  for (uint32_t i = 0; i < n; i++) {
    if (i) o(",");
    if (obj) o("\"" + w.g.key() + "\""), o(":");
    nearScalar(w, o, true);
  }
  o(obj ? "}" : "]");
}
// level 0 is innermost; returns the token stream of one container with the next level inside it
static void nearNest(World &w, NearTok &o, int levels, uint32_t bits, size_t cap) {
  Src &s = w.s;
  bool obj = s.chance(1, 2);
  uint32_t n = s.chance(1, levels > 2 ? 3 : 2) ? nearCount(s, bits) : s.below(4);
  uint32_t pos = s.chance(1, 2) ? n : s.below(n + 1);
  uint32_t fill = s.below(4); // repeated element, so that wide containers cost few choices
  o(obj ? "{" : "[");
  bool first = true;
  for (uint32_t i = 0; i <= n; i++) {
    if (i == pos && levels > 0) {
      if (!first) o(",");
      first = false;
      if (obj) o("\"n" + std::to_string(levels) + "\""), o(":");
      nearNest(w, o, levels - 1, bits, cap);
    }
    if (i == n || o.bytes > cap) continue;
    if (!first) o(",");
    first = false;
    if (obj) o(fill == 3 ? "\"" + std::to_string(i) + "\"" : "\"k\""), o(":");
    if (n < 6) nearSmall(w, o);
    else if (fill == 0) o("[") , o("]");
    else if (fill == 1) o("1");
    else if (fill == 2) o("\"v\"");
    else o("{"), o("}");
  }
  o(obj ? "}" : "]");
}
static bool nearTokenise(const std::string &t, NearTok &o) { // of a valid text; white space is kept as tokens
  for (size_t i = 0; i < t.size();) {
    size_t j = i + 1;
    if (t[i] == '"') {
      while (t[j] != '"') j += t[j] == '\\' ? 2 : 1;
      j++;
    } else if (!strchr("[]{},:", t[i]))
      while (j < t.size() && !strchr("[]{},:\" \t\r\n", t[j]) && !strchr(" \t\r\n", t[i])) j++;
    o(t.substr(i, j - i));
    i = j;
  }
  return true;
}
static void e_near(Ctx &c, Src &s) {
  const Api *A = pickApi(c, s);
  World w(c, A, s);
  bool narrow = A->flags & VF_FLAG_NARROW;
  w.g.maxLit = 300;
  w.g.noNul = true;
  int a = w.newAllocator();
  uint32_t bits = narrow ? 8 : c.tier ? 13 : 11;
  size_t cap = narrow ? 3000 : c.tier ? 120000 : 16000;
  NearTok o;
  int shape = (int)s.below(8);
  if (shape == 0) {
    Gen::DocOpt d;
    d.nodes = 1 + (int)s.below(40);
    nearTokenise(w.g.doc(d), o);
  } else if (shape == 1) { // a spine: mixed or not, siblings at the turning point
    uint32_t n = nearCount(s, bits), m = s.below(3);
    std::vector<std::string> close;
    for (uint32_t i = 0; i < n; i++) {
      if (m == 0 || (m == 2 && i % 2)) o("["), close.push_back("]");
      else o("{"), o("\"k\""), o(":"), close.push_back("}");
    }
    nearSmall(w, o);
    bool sib = s.chance(1, 3);
    for (uint32_t i = n; i-- > 0;) {
      o(close[i]);
      if (sib && i && i % 7 == 0) {
        o(",");
        if (close[i - 1] == "}") o("\"s\""), o(":");
        o("0");
      }
    }
  } else
    nearNest(w, o, (int)s.below(shape == 2 ? 13 : 4), bits, cap);
  std::vector<std::string> &v = o.v;
  static const char *T[] = {"[", "]", "{", "}", ",", ":", "\"x\"", "1", "null", "true", "\"\"", "-", "\"", "0", "\\", "nul"};
  auto tok = [&] { return std::string(T[s.below(16)]); };
  // which token: near the end, near the start, or anywhere; half of the time a bracket
  size_t n = v.size(), at = 0;
  if (n) {
    switch (s.below(4)) {
    case 0: at = n - 1 - s.below((uint32_t)std::min<size_t>(n, 12)); break;
    case 1: at = s.below((uint32_t)std::min<size_t>(n, 12)); break;
    default: at = s.below((uint32_t)n);
    }
    if (s.chance(1, 2)) {
      size_t k = at;
      while (k < n && !(v[k].size() == 1 && strchr("[]{}", v[k][0]))) k++;
      if (k < n) at = k;
    }
  }
  int how = (int)s.below(11);
  bool done = false;
  if (n) {
    std::string &x = v[at];
    char f = x[0];
    bool isnum = f == '-' || (f >= '0' && f <= '9');
    if (how <= 2 && x.size() == 1 && strchr("[]{}", f)) {
      x = f == '[' ? "{" : f == '{' ? "[" : f == ']' ? "}" : "]";
      done = true;
    } else if (how <= 2 && x.size() == 1 && strchr(",:", f)) {
      x = f == ',' ? ":" : ",";
      done = true;
    } else if (how <= 4 && f == '"' && x.size() >= 2) {
      std::string y = x.substr(1, x.size() - 2);
      y.insert(s.below((uint32_t)y.size() + 1), s.chance(1, 2) ? "\x01" : s.chance(1, 2) ? "\\u12G4" : "\\x");
      x = "\"" + y + "\"";
      done = true;
    } else if (how <= 4 && isnum) {
      x = s.chance(1, 2) ? "0" + x : s.chance(1, 2) ? x + "." : x + "e";
      done = true;
    }
    if (!done) {
      done = true;
      switch (how) {
      case 5: v.erase(v.begin() + (long)at); break;
      case 6: v.insert(v.begin() + (long)at, v[at]); break;
      case 7: v[at] = tok(); break;
      case 8: v.resize(at); break;
      case 9:
        if (at + 1 < n) std::swap(v[at], v[at + 1]);
        break;
      case 10: done = false; break; // left valid
      default: v.insert(v.begin() + (long)at, tok());
      }
    }
  }
  std::string t;
  for (auto &x : v) t += x;
  if (narrow && t.size() > 12000) t.resize(12000);
  if (w.logging) w.log.push_back("text: " + show(t, 400) + (t.size() > 400 ? " ... " + show(t.substr(t.size() - 80)) : ""));
  c.mixin(t);
  bool ok = oracle::accepts(t);
  if (ok) CLS(c, "near: still valid"); else CLS(c, "near: one token wrong");
  if (n > 200) CLS(c, "near: over 200 tokens");
  c.nontrivial = n >= 3;
  int var = (int)s.below(3);
  for (int k = 0; k < 2; k++) {
    int h = w.newValue(a), d = h;
    if (k == 1 && s.chance(1, 2)) { // into a value that holds something, inside a document
      w.parse(d, s.chance(1, 2) ? "{\"p\":1,\"v\":{\"old\":[1]},\"n\":[3]}" : "{\"v\":5}", 1);
      h = w.objGet(d, "v", false);
      CHECK(h >= 0, "holder access");
    }
    w.parse(h, t, (var + k) % 3);
    w.checkText(d);
    if (ok && k == 0 && s.chance(1, 4)) w.audit(d);
  }
  w.finish();
  if (c.wantSample) c.sample = show(t, 300);
}

// ------------------------------------------------------------------------------------------------
// lenient: what lenient parsers accept or strict ones confuse, put at every token boundary of some texts
static const std::vector<std::string> &snippets() {
  static const std::vector<std::string> v = [] {
    static const char *S[] = {
        "/* c */", "/**/", "// c\n", "//", "# c\n", "--c\n", "NaN", "-NaN", "nan", "Infinity", "-Infinity", "+Infinity", "inf", "-inf", "undefined", "None", "True", "False", "TRUE", "FALSE", "NULL", "Null", "nil", "void",
        "'a'", "'", "`a`", "a", "k:1", "a:", "$", "@", "*", "\\", ";", "=", "=>", "(", ")", "(1)", "<", "...", "..", "?", "!", "~", "|", "&", "^", "_", "%",
        "+1", "+0", "-", "--1", "-+1", "0x1F", "0X1f", "0b1", "0o7", "1_000", ".5", "-.5", "5.", "1.e1", "1e", "1e+", "1e-", "1E", "01", "-01", "00", "-00", "0123", "1.2.3", "1e1.5", "1e1e1", "1f", "1L", "1n", "1d", "0e", "0.0.0", "0,0", "1 2", "1e 5", "1. 5", "- 1", "1 .5", "0 1",
        "-0", "-0.0", "0e0", "0E+0", "-0e-0", "1e00", "1e+01", "0.0e0", "1E400", "-1e-400", "1e5", "1.50", "123456789012345678901234567890",
        "\xef\xbb\xbf", "\xfe\xff", "\xff\xfe", "\xc2\xa0", "\xe2\x80\x89", "\xe2\x80\xa8", "\xe3\x80\x80", "\v", "\f", "\b", "\a", "\x7f", "\x85", "\x1e", "\x01", "\xa0", "\x80", "\xff", " ", "\t", "\n", "\r", "\r\n \t",
        "\"a\" \"b\"", "\"a\"+\"b\"", "\"a\"\"b\"", "\"a\nb\"", "\"a\\\nb\"", "\"a\tb\"", "\"\\x41\"", "\"\\u{41}\"", "\"\\101\"", "\"\\'\"", "\"\\a\"", "\"\\v\"", "\"\\e\"", "\"\\0\"", "\"\\ \"", "\"\\u+041\"", "\"\\u-041\"", "\"\\u 041\"", "\"\\u0x41\"",
        "\"\\U00000041\"", "\"\\u004\"", "\"\\u004g\"", "\"\\u00\"", "\"\\u\"", "\"\\ud800\"", "\"\\udc00\"", "\"\\udc00\\ud800\"", "\"\\ud800\\u0041\"", "\"\\ud83d\\ude0\"", "\"\\ud83dx\"", "\"\\ud83d\\n\"", "\"\\ud83d\\\"", "\"\\", "\"\\\"", "\"a", "a\"", "\"\x01\"", "\"\x1f\"", "\"\x7f\"", "\"\xc0\xaf\"", "\"\xff\"", "\"\xed\xa0\x80\"",
        "\"\\u0000\"", "\"\\ud83d\\ude00\"", "\"\\/\"", "\"/\"", "\"\\b\\f\\n\\r\\t\\\\\\\"\"", "\"'\"",
        "nul", "nulll", "truee", "tru", "true1", "tr ue", "fals", "falsee", "nullnull", "n", "t", "f", "1true", "true,", "null:",
        "[", "]", "{", "}", ":", ",", ",,", "{}", "[]", "\"a\"", "\"a\":1", "\"\"", "1", "null", "true", "false", "{\"a\"}", "{\"a\":}", "{:1}", "{1:2}", "{null:1}", "{true:1}", "{[]:1}", "{{}:1}", "{a:1}", "{'a':1}", "{\"a\":1,}", "{,}", "{,\"a\":1}", "{\"a\" 1}", "{\"a\":1 \"b\":2}",
        "{\"a\"::1}", "{\"a\":1:2}", "{\"a\",1}", "{\"a\":1;\"b\":2}", "{\"a\"=1}", "{\"a\":1}}", "[,]", "[1,]", "[,1]", "[1,,2]", "[1 2]", "[1;2]", "[\"a\":1]", "[1:2]", "[1]]", "[[1]", "[1}", "{\"a\":1]", "]:[", "}{", "[}", "{]", "[ ]", "{ }", "{\"\":{}}", "[[],{}]"};
    std::vector<std::string> o;
    for (auto *x : S) o.push_back(x);
    o.push_back(std::string("\"a\0b\"", 5));
    o.push_back(std::string("\0", 1));
    o.push_back(std::string("\0 1", 3));
    return o;
  }();
  return v;
}
static const std::vector<std::string> &lenientTexts() {
  static const std::vector<std::string> v = {"", "1", "\"s\"", "[]", "{}", "[1,\"a\",null]", "{\"a\":1,\"b\":[true]}", " [ { \"k\" : -1.5e3 , \"\" : { } } , [ [ ] ] ] ", "[[[[{\"x\":[false,{}]}]]]]", "{\"k\\n\":{\"l\":{\"m\":0}},\"k\\n\":\"\\u0041\"}"};
  return v;
}
static uint64_t n_lenient(const Ctx &) { return snippets().size() * lenientTexts().size(); }
static void e_lenient(Ctx &c, Src &s) {
  uint64_t i = getIdx(s);
  const Api *A = c.apis[i % c.apis.size()];
  const std::string &x = snippets()[i / lenientTexts().size()], &t = lenientTexts()[i % lenientTexts().size()];
  NearTok o;
  nearTokenise(t, o);
  World w(c, A, s);
  int al = w.newAllocator();
  uint64_t cnt = 0;
  if (par(c, "only", "") == "set") { // the setters instead of the parser
    static const char *FIX[][2] = {{"", ""}, {"1", ""}, {"", "1"}, {"-", ""}, {"\\n", ""}, {"", "a"}, {"0.", ""}, {"1e", ""}, {"", " "}, {"x", "x"}};
    const char **f = FIX[i % 10];
    std::string b = x.size() > 2 && x[0] == '"' && x.back() == '"' ? x.substr(1, x.size() - 2) : x;
    for (int k = 0; k < 3; k++)
      for (int v = 0; v < 4; v++) {
        std::string y = f[0] + (k ? b : x) + f[1];
        int h = w.newValue(al);
        if (v % 2) w.setLit(h, true, "5", 2);
        if (k == 2) w.setKey(h, y, v);
        else w.setLit(h, k == 0, y, v);
        w.checkText(h);
        w.hs[h].live = false;
        cnt++;
      }
    w.finish();
    c.weight = cnt;
    c.st->nontrivialDirect += cnt;
    if (c.wantSample) c.sample = "setters given " + show(f[0] + x + f[1]);
    return;
  }
  for (size_t at = 0; at <= o.v.size(); at++)
    for (int rep = 0; rep < (at < o.v.size() ? 3 : 1); rep++) { // inserted, in place of the token, right after its first byte
      std::string y;
      for (size_t k = 0; k <= o.v.size(); k++) {
        if (k == at && rep < 2) y += x;
        if (k == o.v.size() || (k == at && rep == 1)) continue;
        y += k == at && rep == 2 ? o.v[k].substr(0, 1) + x + o.v[k].substr(1) : o.v[k];
      }
      for (int var = 0; var < 3; var++) {
        int h = w.newValue(al);
        w.parse(h, y, var);
        w.checkText(h);
        w.hs[h].live = false;
      }
      cnt++;
      if (cnt % 8 == 0) {
        w.release(al);
        al = w.newAllocator();
      }
    }
  w.finish();
  c.weight = cnt * 3;
  c.st->nontrivialDirect += cnt;
  if (c.wantSample) c.sample = show(x) + " at every token of " + show(t);
}

// ------------------------------------------------------------------------------------------------
// into: parse (valid and invalid) into a random value of a random document, then keep editing
static void e_into(Ctx &c, Src &s) {
  const Api *A = pickApi(c, s);
  World w(c, A, s);
  w.g.maxLit = (A->flags & VF_FLAG_NARROW) ? 800 : 300;
  int a = w.newAllocator();
  int root = w.newValue(a);
  Gen::DocOpt o;
  o.nodes = 3 + (int)s.below(20);
  if (s.chance(1, 6)) { // built by calls instead of parsed
    w.setObj(root);
    int n = (int)s.below(4);
    for (int i = 0; i < n; i++) {
      int h = w.newValue(a);
      w.parse(h, w.g.doc(o), (int)s.below(3));
      w.setKey(h, w.g.key(), 2);
      w.objAddFast(root, h);
    }
  } else
    w.parse(root, "[" + w.g.doc(o) + "," + w.g.doc(o) + "]", (int)s.below(3));
  int fails = 0, succ = 0;
  int rounds = 1 + (int)s.below(5);
  for (int r = 0; r < rounds; r++) {
    int h = root; // walk to a random value
    for (int d = 0; d < 6; d++) {
      MNode *n = w.hs[h].n;
      if (!n || n->kids.empty() || s.chance(1, 4)) break;
      size_t i = s.below((uint32_t)n->kids.size());
      int q;
      if (n->type == T_ARR) q = w.arrGet(h, i);
      else q = w.objGet(h, n->kids[i]->key, s.chance(1, 2));
      if (q < 0) break;
      h = q;
    }
    int kids = 0;
    int ch = -1;
    if (w.hs[h].n && !w.hs[h].n->kids.empty() && s.chance(1, 3)) ch = w.begin(h); // a handle below the target
    (void)kids;
    int tries = 1 + (int)s.below(3);
    for (int k = 0; k < tries; k++) {
      std::string t;
      switch (s.below(5)) {
      case 0: t = w.g.doc(o); break;
      case 1: t = w.g.doc(o); if (!t.empty()) t.resize(s.below((uint32_t)t.size())); break;
      case 2: t = w.g.doc(o) + "x"; break;
      default: t = w.g.mutate(w.g.doc(o));
      }
      int mb = w.mutations;
      w.parse(h, t, (int)s.below(3));
      if (w.mutations == mb) fails++;
      else succ++;
      w.checkText(root);
      w.checkText(h);
      w.checkScalar(h);
      if (ch >= 0 && w.hs[ch].live) w.checkText(ch);
    }
    if (s.chance(1, 2)) w.audit(root);
    // continue editing around and inside the target
    switch (s.below(5)) {
    case 0:
      if (w.hs[h].n && w.hs[h].n->type == T_ARR) {
        int e = w.newValue(a);
        w.setLit(e, false, "new", 2);
        w.arrAddFast(h, e);
      }
      break;
    case 1:
      if (w.hs[h].n && w.hs[h].n->parent && h != root) {
        int cut = h;
        w.move(cut);
      }
      break;
    case 2: {
      int cpy = w.copy(h);
      if (cpy >= 0) w.checkText(cpy);
      break;
    }
    case 3:
      if (w.hs[h].n && !w.hs[h].n->kids.empty()) {
        if (w.hs[h].n->type == T_ARR) w.arrDel(h, s.below((uint32_t)w.hs[h].n->kids.size()));
        else w.objDel(h, w.hs[h].n->kids[s.below((uint32_t)w.hs[h].n->kids.size())]->key);
      }
      break;
    default: break;
    }
    w.checkText(root);
  }
  // an empty value after failures
  int e = w.newValue(a);
  int nf = (int)s.below(3);
  for (int k = 0; k < nf; k++) {
    std::string t = w.g.mutate(w.g.doc(o));
    if (oracle::accepts(t)) t += "!";
    w.parse(e, t, (int)s.below(3));
    w.checkText(e);
    w.checkScalar(e);
  }
  switch (s.below(6)) {
  case 0: w.parse(e, w.g.doc(o), (int)s.below(3)); break;
  case 1: w.setArray(e); break;
  case 2: w.setLit(e, false, "s", 0); break;
  case 3: w.set(e, root); break;
  case 4: w.setKey(e, "k", 0); break;
  case 5: w.setFast(e, root); break;
  }
  w.audit(e);
  w.audit(root);
  w.finish();
  c.nontrivial = fails > 0 && (succ > 0 || rounds > 1);
  for (auto &h : w.hs)
    if (h.n) c.mixin(oracle::dump(h.n));
  if (fails) CLS(c, "failed parse into a filled value");
  if (succ) CLS(c, "successful parse into a filled value");
  if (c.wantSample)
    for (auto &l : w.log) {
      if (c.sample.size() > 900) break;
      c.sample += l + "; ";
    }
}

// ------------------------------------------------------------------------------------------------
// shorthist: every history of a few calls over a small alphabet, on each small starting document
struct SH {
  World &w;
  int R, X, D = -1; // root container, second container, detached value
  int al;
  int elem(int pos) { // 0 first 1 middle 2 last
    MNode *n = w.hs[R].n;
    if (!n || n->kids.empty()) return -1;
    size_t i = pos == 0 ? 0 : pos == 1 ? n->kids.size() / 2 : n->kids.size() - 1;
    if (n->type == T_ARR) return w.arrGet(R, i);
    int h = w.begin(R); // by iteration: keys may repeat
    while (i--) {
      int g = w.next(h);
      w.hs[h].live = false;
      h = g;
    }
    return h;
  }
  bool obj(int h) { return w.hs[h].n && w.hs[h].n->type == T_OBJ; }
  void addTo(int c, int v, bool fast) {
    if (v < 0 || !w.hs[v].live || !w.hs[c].live) return;
    if (fast && !w.canMoveInto(c, v)) return;
    if (obj(c)) fast ? w.objAddFast(c, v) : w.objAdd(c, v);
    else fast ? w.arrAddFast(c, v) : w.arrAdd(c, v);
  }
  void op(int k) {
    int e;
    switch (k) {
    case 0: case 1: case 2: { // delete
      MNode *n = w.hs[R].n;
      if (!n || n->kids.empty()) break;
      size_t i = k == 0 ? 0 : k == 1 ? n->kids.size() / 2 : n->kids.size() - 1;
      if (n->type == T_ARR) w.arrDel(R, i);
      else if (n->type == T_OBJ) w.objDel(R, n->kids[i]->key);
      break;
    }
    case 3: case 4: case 5: // cut
      if ((e = elem(k - 3)) >= 0) w.move(e), D = e;
      break;
    case 6: addTo(R, D, true); break;
    case 7: addTo(X, D, true); break;
    case 8: addTo(X, elem(1), true); break;
    case 9: addTo(R, elem(0), true); break; // rotate
    case 10: addTo(R, elem(2), false); break;
    case 11: // replace an element by the detached value
      if (D >= 0 && w.hs[D].live && w.hs[D].n && (e = elem(1)) >= 0 && w.canMoveInto(e, D)) w.setFast(e, D);
      break;
    case 12: { // replace an element by a copy of the second container
      if ((e = elem(2)) >= 0) w.set(e, X);
      break;
    }
    case 13: { // append a fresh scalar
      int f = w.newValue(al);
      w.setLit(f, true, "8", 2);
      w.setKey(f, "n", 2);
      addTo(R, f, true);
      break;
    }
    case 14: { // refill an element with an array
      if ((e = elem(0)) >= 0) w.parse(e, "[5,6]", 1);
      break;
    }
    case 15: // second container into the first, by copy
      addTo(R, X, false);
      break;
    case 16: // swap roles
      std::swap(R, X);
      break;
    case 17: { // set the whole root from the second
      w.set(R, X);
      break;
    }
    case 18: { // descend: the last element becomes the root if it is a container
      if ((e = elem(2)) >= 0 && (w.hs[e].n->type == T_ARR || w.hs[e].n->type == T_OBJ)) X = R, R = e;
      break;
    }
    case 19: // copy of the root replaces the second container
      if ((e = w.copy(R)) >= 0) X = e;
      break;
    }
  }
};
enum { SHOPS = 20 };
static const char *SHSTART[][2] = {{"[1,2,3]", "[]"},
                                   {"{\"a\":1,\"b\":2,\"c\":3}", "{\"k\":0}"},
                                   {"[[1],2]", "{\"x\":[9]}"},
                                   {"{\"a\":[1,2],\"a\":{}}", "[7]"},
                                   {"[4]", "[5,6]"},
                                   {"[1,[2,3],{\"q\":4}]", "{}"}};
static int shLen(const Ctx &c) { return (int)parN(c, "len", c.tier ? 5 : 4); }
static uint64_t n_short(const Ctx &c) {
  uint64_t k = 1;
  for (int i = 0; i < shLen(c) - 2; i++) k *= SHOPS;
  return k * 6;
}
static void e_short(Ctx &c, Src &s) {
  uint64_t idx = getIdx(s);
  const Api *A = c.apis[idx % c.apis.size()];
  int st = (int)(idx % 6);
  idx /= 6;
  int L = shLen(c);
  std::vector<int> pre;
  for (int i = 0; i < L - 2; i++) pre.push_back((int)(idx % SHOPS)), idx /= SHOPS;
  uint64_t nt = 0;
  for (int a = 0; a < SHOPS; a++)
    for (int b = 0; b < SHOPS; b++) {
      std::vector<int> ops = pre;
      ops.push_back(a);
      ops.push_back(b);
      World w(c, A, s);
      int al = w.newAllocator();
      SH h{w, w.newValue(al), w.newValue(al), -1, al};
      w.parse(h.R, SHSTART[st][0], 1);
      w.parse(h.X, SHSTART[st][1], 1);
      int R0 = h.R, X0 = h.X;
      try {
        for (size_t i = 0; i < ops.size(); i++) {
          h.op(ops[i]);
          if (!w.hs[h.R].live || !w.hs[h.X].live) break;
          if (i + 2 < ops.size() && b) continue; // prefixes are checked once
          w.checkText(h.R);
          w.checkText(h.X);
        }
        for (size_t i = 0; i < w.hs.size(); i++)
          if (w.hs[i].live) w.checkText((int)i);
        for (int q : {R0, X0, h.R, h.X, h.D})
          if (q >= 0 && w.hs[q].live) w.audit(q);
        w.finish();
      } catch (Violation &v) {
        std::string m = "start " + std::string(SHSTART[st][0]) + " and " + SHSTART[st][1] + ", calls";
        for (int o : ops) m += " " + std::to_string(o);
        throw Violation{m + ": " + v.msg};
      }
      if (w.mutations >= 3) nt++;
    }
  c.weight = SHOPS * SHOPS;
  c.st->nontrivialDirect += nt;
  if (c.wantSample) {
    c.sample = "start " + std::string(SHSTART[st][0]) + ", call prefix";
    for (int o : pre) c.sample += " " + std::to_string(o);
    c.sample += " followed by every pair of calls";
  }
}

// ------------------------------------------------------------------------------------------------
// moves: source position x source size x destination kind x destination size x way of moving, then edits of both sides
static uint64_t n_moves(const Ctx &) { return 7 * 7 * 6 * 2 * 2; }
static void e_moves(Ctx &c, Src &s) {
  uint64_t i = getIdx(s);
  const Api *A = c.apis[i % c.apis.size()];
  int n = (int)(i % 7) + 1;
  i /= 7;
  int dn = (int)(i % 7);
  i /= 7;
  int way = (int)(i % 6);
  i /= 6;
  bool sobj = i % 2;
  i /= 2;
  bool dobj = i % 2;
  auto mk = [&](bool obj, int k, int base) {
    std::string t = obj ? "{" : "[";
    for (int j = 0; j < k; j++) {
      if (j) t += ",";
      if (obj) t += "\"k" + std::to_string(j % 3) + "\":";
      int q = base + j;
      t += q % 3 == 0 ? std::to_string(q) : q % 3 == 1 ? "[" + std::to_string(q) + ",[]]" : "{\"i\":" + std::to_string(q) + "}";
    }
    return t + (obj ? "}" : "]");
  };
  for (int pos = 0; pos < n; pos++)
    for (int after = 0; after < 6; after++)
      for (int same = 0; same < 2; same++) { // destination: separate value, or sibling inside the same parent document
        World w(c, A, s);
        int al = w.newAllocator();
        int top = -1, S, D;
        if (same) {
          top = w.newValue(al);
          w.parse(top, "[" + mk(sobj, n, 0) + "," + mk(dobj, dn, 10) + "]", (pos + after) % 3);
          S = w.arrGet(top, 0);
          D = w.arrGet(top, 1);
        } else {
          S = w.newValue(al);
          D = w.newValue(al);
          w.parse(S, mk(sobj, n, 0), pos % 3);
          w.parse(D, mk(dobj, dn, 10), after % 3);
        }
        int e = w.begin(S);
        for (int k = 0; k < pos; k++) {
          int g = w.next(e);
          w.hs[e].live = false;
          e = g;
        }
        switch (way) {
        case 0: w.move(e); break;
        case 1: dobj ? w.objAddFast(D, e) : w.arrAddFast(D, e); break;
        case 2: w.setFast(D, e); break;
        case 3: { // replace an element of D
          int t = w.begin(D);
          if (t >= 0) w.setFast(t, e);
          break;
        }
        case 4: { // into an empty value
          int f = w.newValue(al);
          w.setFast(f, e);
          w.checkText(f);
          w.audit(f);
          break;
        }
        case 5: { // cut, then add
          w.move(e);
          w.checkText(e);
          w.audit(e);
          dobj ? w.objAddFast(D, e) : w.arrAddFast(D, e);
          break;
        }
        }
        auto chk = [&] {
          for (int q : {top, S, D, e})
            if (q >= 0 && w.hs[q].live) {
              w.checkText(q);
              w.audit(q);
            }
        };
        chk();
        for (int side : {S, D}) { // both parents accept further edits
          if (!w.hs[side].live || !w.hs[side].n) continue;
          MNode *m = w.hs[side].n;
          if (m->type != T_ARR && m->type != T_OBJ) continue;
          size_t cnt = m->kids.size();
          auto del = [&](size_t k) {
            if (k >= m->kids.size()) return;
            if (m->type == T_ARR) w.arrDel(side, k);
            else w.objDel(side, m->kids[k]->key);
          };
          switch (after) {
          case 0: break;
          case 1: del(0); break;
          case 2: del(cnt ? cnt - 1 : 0); break;
          case 3: del(cnt / 2); break;
          case 4:
            while (!m->kids.empty()) del(m->kids.size() - 1);
            break;
          case 5:
            while (!m->kids.empty()) del(0);
            break;
          }
          int f = w.newValue(al);
          w.setLit(f, true, "99", 2);
          w.setKey(f, "nn", 2);
          if (m->type == T_ARR) w.arrAddFast(side, f);
          else w.objAddFast(side, f);
          int f2 = w.newValue(al);
          w.setLit(f2, false, "t", 2);
          w.setKey(f2, "mm", 2);
          if (m->type == T_ARR) w.arrAdd(side, f2);
          else w.objAdd(side, f2);
        }
        chk();
        w.finish();
        c.st->nontrivialDirect++;
      }
  c.weight = (uint64_t)n * 12;
  if (c.wantSample) c.sample = "move way " + std::to_string(way) + " out of " + mk(sobj, n, 0) + " into " + mk(dobj, dn, 10) + ", every position, six kinds of later edits";
}

// ------------------------------------------------------------------------------------------------
// num: numeric reads and writes
static void e_num(Ctx &c, Src &s) {
  const Api *A = pickApi(c, s);
  World w(c, A, s);
  w.g.maxLit = (A->flags & VF_FLAG_NARROW) ? 3000 : 20000;
  int a = w.newAllocator();
  int n = 1 + (int)s.below(8);
  // several literals in one text, so that neighbouring text follows each
  std::string t = "[";
  std::vector<std::string> lits;
  for (int i = 0; i < n; i++) {
    lits.push_back(w.g.num());
    if (i) t += ",";
    if (s.chance(1, 4)) t += " ";
    t += lits.back();
    if (s.chance(1, 4)) t += w.g.ws();
  }
  t += "]";
  if ((A->flags & VF_FLAG_NARROW) && t.size() > 20000) t = "[" + (lits = {"1"})[0] + "]";
  int h = w.newValue(a);
  w.parse(h, t, (int)s.below(3));
  for (size_t i = 0; i < lits.size(); i++) {
    int e = w.arrGet(h, i);
    w.checkScalar(e);
  }
  for (auto &l : lits) {
    int v = w.newValue(a);
    w.setLit(v, true, l, (int)s.below(4));
    w.checkScalar(v);
    if (l.size() > 128) CLS(c, "number literal over 128 bytes");
    if (oracle::isIntLit(l)) CLS(c, "integer literal");
    else CLS(c, "non-integer literal");
  }
  std::string texts;
  for (int i = 0; i < 6; i++) {
    int v = w.newValue(a);
    if (s.chance(1, 2) && A->SetInt) w.setInt(v, w.g.ll(), (int)s.below(3));
    else if (A->SetNum) w.setDouble(v, w.g.dbl(), s.chance(1, 2));
    w.checkScalar(v);
    if (!w.hs[v].n) continue;
    std::string lit = w.hs[v].n->lit;
    int arr = w.newValue(a);
    w.setArray(arr);
    w.arrAdd(arr, v);
    std::string txt = A->Stringify(w.hs[arr].p);
    int back = w.newValue(a);
    CHECK(w.parse(back, txt, (int)s.below(3)), "serialised number %s does not parse", show(txt).c_str());
    int e = w.arrGet(back, 0);
    CHECK(w.hs[e].n->lit == lit, "number changed through serialisation: %s became %s", show(lit).c_str(), show(txt).c_str());
    w.checkScalar(e);
    texts += lit + " ";
    c.mixin(lit);
  }
  c.mixin(t);
  c.nontrivial = t.size() > 4;
  w.checkRemembered();
  w.finish();
  if (c.wantSample) c.sample = show(t, 200) + " ; written: " + show(texts, 200);
}
// ints: boundary neighbourhoods of every power of two and ten, all widths
static uint64_t n_ints(const Ctx &) { return 64 + 20 + 2200; }
static void e_ints(Ctx &c, Src &s) {
  uint64_t i = getIdx(s);
  const Api *A = c.apis[i % c.apis.size()];
  World w(c, A, s);
  int a = w.newAllocator();
  int h = w.newValue(a);
  uint64_t n = 0;
  if (i < 84) {
    __int128 base = 1;
    if (i < 64) base <<= i;
    else
      for (uint64_t k = 64; k < i; k++) base *= 10;
    for (int d = -40; d <= 40; d++)
      for (int sg = 0; sg < 2; sg++) {
        __int128 v = (sg ? -base : base) + d;
        if (v < LLONG_MIN || v > LLONG_MAX) continue;
        long long x = (long long)v;
        for (int k = 0; k < 3 && A->SetInt; k++) {
          if (k == 0 && (x < INT_MIN || x > INT_MAX)) continue;
          w.setInt(h, x, k);
          w.checkScalar(h);
        }
        std::string l = std::to_string(x);
        w.setLit(h, true, l, (int)(n % 4));
        w.checkScalar(h);
        if (l == "0") {
          w.setLit(h, true, "-0", (int)(n % 4));
          w.checkScalar(h);
        }
        if (A->SetNum) {
          w.setDouble(h, (double)x, n & 1);
          w.checkScalar(h);
        }
        n++;
        if (n % 60 == 0) {
          w.release(a);
          a = w.newAllocator();
          h = w.newValue(a);
        }
      }
  } else if (A->SetNum) { // every binary exponent, a few mantissas around its ends
    int e = (int)(i - 84) - 1090;
    for (int m = 0; m < 10; m++) {
      double d;
      if (m < 8) {
        static const uint64_t M[] = {0, 1, 2, 0xfffffffffffffull, 0xffffffffffffeull, 0x8000000000000ull, 0x5555555555555ull, 0x123456789abcdull};
        uint64_t ex = (uint64_t)(e + 1090) % 2047;
        uint64_t u = ex << 52 | M[m];
        memcpy(&d, &u, 8);
      } else
        d = std::pow(10.0, (e + 1090) % 632 - 323) * (m == 9 ? 1.0000000000000002 : 1);
      for (int sg = 0; sg < 2; sg++) {
        if (!std::isfinite(d)) continue;
        w.setDouble(h, sg ? -d : d, m & 1);
        w.checkScalar(h);
        n++;
      }
    }
  }
  w.finish();
  c.weight = n;
  c.st->nontrivialDirect += n;
  if (c.wantSample) c.sample = "integer or exponent neighbourhood " + std::to_string(i);
}
// numlen: number literals of every length up to a bound, in several forms and contexts
static uint64_t n_numlen(const Ctx &c) { return c.tier ? 1200 : 400; }
static void e_numlen(Ctx &c, Src &s) {
  uint64_t i = getIdx(s);
  const Api *A = c.apis[i % c.apis.size()];
  size_t len = i + 1;
  World w(c, A, s);
  int a = w.newAllocator();
  std::vector<std::string> v;
  auto dig = [](size_t n, int seed) {
    std::string o;
    for (size_t k = 0; k < n; k++) o += (char)('0' + mix64((uint64_t)seed * 7919 + k) % 10);
    return o;
  };
  std::string d = dig(len, 3);
  if (d[0] == '0') d[0] = '4';
  v.push_back(d);
  v.push_back("-" + d.substr(0, len > 1 ? len - 1 : 1));
  if (len > 2) v.push_back("0." + dig(len - 2, 5));
  if (len > 3) v.push_back("0." + std::string(len - 3, '0') + "7");
  if (len > 3) v.push_back("-1." + dig(len - 3, 6));
  if (len > 2) v.push_back("3e" + std::string(len - 2, '0'));
  if (len > 4) v.push_back("5E-" + std::string(len - 4, '0') + "3");
  if (len > 4) v.push_back("1" + std::string(len - 4, '0') + "E-9");
  if (len > 6) v.push_back("9." + std::string(len - 6, '9') + "e+15");
  for (size_t k = 0; k < v.size(); k++) {
    for (int var = 0; var < 4; var++) {
      int h = w.newValue(a);
      w.setLit(h, true, v[k], var);
      w.checkScalar(h);
    }
    int h = w.newValue(a);
    static const char *post[] = {"]", ",1]", " ]", ",\"e5\"]"};
    w.parse(h, "[" + v[k] + post[(k + len) % 4], (int)(k % 3));
    int e = w.arrGet(h, 0);
    w.checkScalar(e);
    h = w.newValue(a);
    w.parse(h, v[k], (int)((k + 1) % 3));
    w.checkScalar(h);
    w.checkText(h);
  }
  w.checkRemembered();
  w.finish();
  c.weight = v.size() * 6;
  c.st->nontrivialDirect += v.size();
  if (c.wantSample) c.sample = show(v.back(), 160);
}

// ------------------------------------------------------------------------------------------------
// esc: escape and unescape
static void e_esc(Ctx &c, Src &s) {
  const Api *A = pickApi(c, s);
  World w(c, A, s);
  w.g.maxLit = (A->flags & VF_FLAG_NARROW) ? 1500 : s.chance(1, 8) ? 20000 : 300;
  int a = w.newAllocator();
  int n = 1 + (int)s.below(4);
  for (int i = 0; i < n; i++) {
    std::string b = w.g.bytes(120, true);
    int h = w.newValue(a), k = w.newValue(a);
    bool wl = s.chance(1, 2);
    c.mixin(b);
    if (A->SetStrEscape) {
      w.setEsc(h, b, wl);
      w.checkScalar(h);
      w.setKeyEsc(k, b, wl);
      w.checkScalar(k);
      int o = w.newValue(a);
      w.setObj(o);
      w.objAdd(o, k);
      std::string t = A->Stringify(w.hs[o].p);
      int p = w.newValue(a);
      CHECK(w.parse(p, t, (int)s.below(3)), "text with escaped key does not parse");
      w.audit(p);
      // escaping what was decoded gives the same literal again
      std::string in = wl ? b : b.substr(0, b.find('\0'));
      if (in.find('\0') == std::string::npos && A->SetStrEscape) {
        const char *u = A->GetUnEscapeStr(w.hs[h].p);
        CHECK(u && in == u, "decoding the escaped form of \"%s\" gives \"%s\"", show(in).c_str(), show(u).c_str());
        std::string lit = w.hs[h].n->lit;
        int h2 = w.newValue(a);
        w.setEsc(h2, u, s.chance(1, 2));
        CHECK(w.hs[h2].n->lit == lit, "escaping twice differs");
      }
    }
    std::string body = w.g.strBody(80);
    c.mixin(body);
    int v = w.newValue(a);
    w.setLit(v, false, body, (int)s.below(4));
    w.setKey(v, body, (int)s.below(4));
    w.checkScalar(v);
    int q = w.newValue(a);
    w.parse(q, "{\"" + body + "\":\"" + body + "\"}", (int)s.below(3));
    w.audit(q);
    if (body.find("\\u") != std::string::npos) CLS(c, "body with \\u escape");
    if (body.size() > 300) CLS(c, "body over 300 bytes");
    c.nontrivial = c.nontrivial || body.find('\\') != std::string::npos || b.find_first_of("\"\\\n\t\x01") != std::string::npos;
  }
  w.checkRemembered();
  w.finish();
  if (c.wantSample)
    for (auto &l : w.log) {
      if (c.sample.size() > 600) break;
      c.sample += l + "; ";
    }
}
// escbytes: every byte, every pair of bytes, at each place of a short string
static uint64_t n_escbytes(const Ctx &) { return 256; }
static void e_escbytes(Ctx &c, Src &s) {
  uint64_t i = getIdx(s);
  const Api *A = c.apis[i % c.apis.size()];
  if (!A->SetStrEscape) return;
  World w(c, A, s);
  int a = w.newAllocator();
  uint64_t n = 0;
  for (int j = 0; j < 256; j++) {
    char x = (char)i, y = (char)j;
    std::string v[] = {std::string() + x + y, std::string("ab") + x + "c" + y, std::string() + x};
    for (int k = 0; k < (j ? 2 : 3); k++)
      for (int wl = 0; wl < 2; wl++) {
        if (!wl && v[k].find('\0') != std::string::npos && k) continue;
        int h = w.newValue(a);
        w.setEsc(h, v[k], wl);
        w.setKeyEsc(h, v[k], !wl);
        w.checkScalar(h);
        w.hs[h].live = false;
        n++;
      }
    if (j % 16 == 15) {
      w.release(a);
      a = w.newAllocator();
    }
  }
  w.finish();
  c.weight = n;
  c.st->nontrivialDirect += n;
  if (c.wantSample) c.sample = "byte " + std::to_string(i) + " followed by every byte";
}

// ------------------------------------------------------------------------------------------------
// lens: every length of a string, key, array, object around which buffers and blocks grow
// ... then lengths around the larger powers of two
static uint64_t lensConsecutive(const Ctx &c) { return (uint64_t)parN(c, "max", c.tier ? 9000 : 2600); }
static const int LENS_D[] = {-2, -1, 0, 1, 2, 40};
static uint64_t lensTop(const Ctx &c) { return c.tier ? 20 : 17; } // exponent
static uint64_t n_lens(const Ctx &c) { return lensConsecutive(c) + 6 * (lensTop(c) - 9); }
static void e_lens(Ctx &c, Src &s) {
  uint64_t i = getIdx(s);
  const Api *A = c.apis[i % c.apis.size()];
  size_t n = (size_t)i;
  if (i >= lensConsecutive(c)) {
    uint64_t j = i - lensConsecutive(c);
    n = ((size_t)1 << (10 + j / 6)) + LENS_D[j % 6];
  }
  if (n > 700 && (A->flags & VF_FLAG_NARROW)) n = 700 + n % 50;
  World w(c, A, s);
  w.remCap = 60;
  int a = w.newAllocator();
  auto both = [&](const std::string &t, bool deep) {
    int h = w.newValue(a);
    w.parse(h, t, (int)(n % 3));
    w.checkText(h);
    if (deep) w.audit(h);
    if (!w.hs[h].n) return;
    int k = w.copy(h);
    w.checkText(k);
    w.hs[h].live = w.hs[k].live = false;
  };
  std::string str(n, 'x'), esc;
  for (size_t k = 0; k + 2 <= n; k += 2) esc += "\\n";
  if (n & 1) esc += "y";
  both("\"" + str + "\"", true);
  both("{\"" + esc + "\":\"" + str + "\"}", true);
  both("[\"" + esc + "\",1]", true);
  { // setters
    int h = w.newValue(a);
    w.setLit(h, false, esc, (int)(n % 4));
    w.setKey(h, str, (int)((n + 1) % 4));
    w.checkText(h);
    w.checkScalar(h);
    if (A->SetStrEscape) {
      std::string raw(n / 2, '\n');
      w.setEsc(h, raw, n & 1);
      w.checkScalar(h);
    }
  }
  { // arrays and objects of n small members; nesting of n
    std::string arr = "[", obj = "{", nest, close;
    size_t m = n % 1300;
    for (size_t k = 0; k < m; k++) {
      arr += k ? ",1" : "1";
      obj += k ? ",\"\":0" : "\"\":0";
    }
    both(arr + "]", n % 7 == 0);
    both(obj + "}", n % 11 == 0);
    for (size_t k = 0; k < m; k++) {
      nest += k % 3 == 1 ? "{\"\":" : "[";
      close += k % 3 == 1 ? "}" : "]";
    }
    std::reverse(close.begin(), close.end());
    both(nest + "null" + close, false);
  }
  { // grow by calls
    int h = w.newValue(a);
    bool o = n & 1;
    o ? w.setObj(h) : w.setArray(h);
    size_t m = n % 64;
    for (size_t k = 0; k < m; k++) {
      int e = w.newValue(a);
      w.setLit(e, true, std::to_string(k), 2);
      if (o) w.setKey(e, "k" + std::to_string(k), 2);
      if (k % 2) o ? w.objAdd(h, e) : w.arrAdd(h, e);
      else o ? w.objAddFast(h, e) : w.arrAddFast(h, e);
      w.hs[e].live = false;
    }
    w.checkText(h);
    w.audit(h);
  }
  w.checkRemembered();
  w.finish();
  c.weight = 8;
  c.st->nontrivialDirect += n > 1 ? 8 : 0;
  if (c.wantSample) c.sample = "string, key, array, object, nesting and appended elements of length " + std::to_string(n);
}

// ------------------------------------------------------------------------------------------------
// wide: containers with many members, edited and read at and around boundary positions
static void e_wide(Ctx &c, Src &s) {
  const Api *A = pickApi(c, s);
  World w(c, A, s);
  w.remCap = 300;
  w.remReplace = false;
  bool narrow = A->flags & VF_FLAG_NARROW;
  int a = w.newAllocator();
  bool obj = s.below(2);
  uint32_t top = narrow ? 8 : c.tier ? 15 : 12; // exponent
  uint32_t k = 2 + s.below(top - 1);
  size_t n = ((size_t)1 << k) + (s.chance(1, 2) ? s.below(5) : s.below(1u << k));
  n = n > 2 ? n - 2 : n;
  if (narrow && n > 300) n = 300;
  int style = (int)s.below(5), how = (int)s.below(5), keyStyle = (int)s.below(4);
  std::string prefix(keyStyle == 2 ? 1 + s.below(40) : 0, 'p');
  size_t period = keyStyle == 3 ? 1 + s.below(60) : 0; // repeated keys
  auto keyOf = [&](size_t i) {
    if (keyStyle == 1) return "k" + std::string(i % 7, 'x') + std::to_string(i);
    if (period) return "d" + std::to_string(i % period);
    return prefix + std::to_string(i);
  };
  auto lit = [&](size_t i) -> std::string {
    switch (style) {
    case 0: return std::to_string(i);
    case 1: return i % 2 ? "true" : "null";
    case 2: return "\"s" + std::to_string(i) + "\"";
    case 3: return i % 5 == 0 ? "[" + std::to_string(i) + "]" : i % 5 == 1 ? "{\"a\":" + std::to_string(i) + "}" : "0";
    default: return i % 3 ? "-1.5e" + std::to_string(i % 300) : "\"\\n\"";
    }
  };
  int h = w.newValue(a);
  if (how < 2) {
    std::string t = obj ? "{" : "[";
    for (size_t i = 0; i < n; i++) {
      if (i) t += ",";
      if (obj) t += "\"" + keyOf(i) + "\":";
      t += lit(i);
    }
    t += obj ? "}" : "]";
    w.parse(h, t, (int)s.below(3));
    if (how == 1) {
      int q = w.copy(h);
      w.hs[h].live = false;
      h = q;
    }
  } else {
    obj ? w.setObj(h) : w.setArray(h);
    int v = (int)s.below(4), pv = (int)s.below(3);
    for (size_t i = 0; i < n; i++) {
      int e = w.newValue(a);
      if (style == 0) w.setLit(e, true, lit(i), v);
      else w.parse(e, lit(i), pv);
      if (obj) w.setKey(e, keyOf(i), v);
      if (how == 2) obj ? w.objAdd(h, e) : w.arrAdd(h, e);
      else if (how == 3) obj ? w.objAddFast(h, e) : w.arrAddFast(h, e);
      else if (i % 2) obj ? w.objAdd(h, e) : w.arrAdd(h, e);
      else obj ? w.objAddFast(h, e) : w.arrAddFast(h, e);
      w.hs[e].live = false;
    }
  }
  if (s.chance(1, 4)) { // one level down
    int o = w.newValue(a);
    w.parse(o, "[1,null,2]", 1);
    int e = w.arrGet(o, 1);
    s.chance(1, 2) ? w.setFast(e, h) : w.set(e, h);
    w.hs[h].live = false;
    h = e;
  }
  auto pos = [&]() -> size_t {
    size_t m = w.hs[h].n ? w.hs[h].n->kids.size() : 0;
    switch (s.below(8)) {
    case 0: return 0;
    case 1: return m ? m - 1 : 0;
    case 2: return m;
    case 3: return m / 2;
    case 4: return m > 1 ? m - 2 : 1;
    case 5: {
      size_t p = (size_t)1 << s.below(16);
      return p - 1 + s.below(3);
    }
    default: return s.below((uint32_t)m + 2);
    }
  };
  auto get = [&](size_t p) {
    MNode *m = w.hs[h].n;
    if (m->type == T_ARR) return w.arrGet(h, p);
    return w.objGet(h, p < m->kids.size() ? m->kids[p]->key : keyOf(p) + "?", s.chance(1, 2));
  };
  int ops = 1 + (int)s.below(14);
  std::vector<int> cut;
  for (int i = 0; i < ops; i++) {
    MNode *m = w.hs[h].n;
    size_t p = pos();
    switch (s.below(11)) {
    case 0: {
      int e = get(p);
      if (e >= 0) w.checkScalar(e), w.hs[e].live = false;
      break;
    }
    case 1:
    case 2:
      if (m->type == T_ARR) w.arrDel(h, p);
      else w.objDel(h, p < m->kids.size() ? m->kids[p]->key : keyOf(p) + "?");
      break;
    case 3: {
      int e = get(p);
      if (e >= 0) {
        w.move(e);
        cut.push_back(e);
      }
      break;
    }
    case 4:
      if (!cut.empty()) {
        int e = cut.back();
        cut.pop_back();
        w.checkText(e);
        m->type == T_ARR ? w.arrAddFast(h, e) : w.objAddFast(h, e);
        w.hs[e].live = false;
      }
      break;
    case 5: {
      int e = get(p);
      if (e < 0) break;
      switch (s.below(4)) {
      case 0: w.setLit(e, false, "replaced", (int)s.below(4)); break;
      case 1: w.parse(e, "[7,{\"z\":8}]", (int)s.below(3)); break;
      case 2: w.parse(e, "[7,", (int)s.below(3)); break;
      case 3: w.setObj(e); break;
      }
      w.checkText(e);
      w.hs[e].live = false;
      break;
    }
    case 6: {
      int e = w.newValue(a);
      w.setLit(e, true, "99", 2);
      w.setKey(e, keyOf(p), 2);
      if (s.chance(1, 2)) m->type == T_ARR ? w.arrAdd(h, e) : w.objAdd(h, e);
      else m->type == T_ARR ? w.arrAddFast(h, e) : w.objAddFast(h, e);
      w.hs[e].live = false;
      break;
    }
    case 7: {
      int e = get(p);
      if (e < 0) break;
      int x = w.next(e);
      w.hs[e].live = false;
      if (x >= 0) w.checkScalar(x), w.hs[x].live = false;
      break;
    }
    case 8: { // continue on a copy; the original must stay as it is
      if (n > 2000 && i) break;
      int q = w.copy(h);
      w.checkText(w.topHandle(h));
      w.hs[h].live = false;
      h = q;
      break;
    }
    case 9: { // the element found replaces another one
      int e = get(p), x = get(pos());
      if (e >= 0 && x >= 0 && w.hs[e].n != w.hs[x].n) {
        if (s.chance(1, 2)) w.set(x, e);
        else w.setFast(x, e);
        if (w.hs[x].live) w.checkText(x);
      }
      if (e >= 0) w.hs[e].live = false;
      if (x >= 0) w.hs[x].live = false;
      break;
    }
    case 10: { // the whole container moves to another value
      if (w.hs[h].n->parent) break;
      int q = w.newValue(a);
      w.setFast(q, h);
      w.hs[h].live = false;
      h = q;
      break;
    }
    }
    if (n < 200 && s.chance(1, 2)) w.checkText(w.topHandle(h));
  }
  w.checkText(w.topHandle(h));
  w.audit(w.topHandle(h));
  for (int e : cut)
    if (w.hs[e].live) w.checkText(e), w.audit(e);
  c.mixin((uint64_t)n);
  c.mixin((uint64_t)(style * 100 + how * 10 + keyStyle) * 2 + obj);
  c.mixin(oracle::dump(World::rootOf(w.hs[h].n)));
  c.nontrivial = n >= 2 && w.mutations >= 1;
  if (n > 255) CLS(c, "container with more than 255 members");
  w.checkRemembered();
  w.finish();
  if (c.wantSample) {
    c.sample = std::string(obj ? "object" : "array") + " of " + std::to_string(n) + " members, built " + (how == 0 ? "by parsing" : how == 1 ? "by copying" : "by calls");
    size_t from = w.log.size() > 14 ? w.log.size() - 14 : 0;
    for (size_t i = from; i < w.log.size() && c.sample.size() < 700; i++) c.sample += "; " + w.log[i].substr(0, 90);
  }
}

// ------------------------------------------------------------------------------------------------
// deep: deep and wide documents on a thread with a small stack
struct DeepArg {
  Ctx *c;
  const Api *A;
  uint64_t i;
  std::string err;
  bool bad = false;
  uint64_t n = 0;
  std::string sample;
};
static void deepBody(DeepArg &d) {
  Ctx &c = *d.c;
  const Api *A = d.A;
  bool nar = A->flags & VF_FLAG_NARROW;
  static const char *KINDS[] = {"arrays", "objects", "mixed", "spine with siblings", "wide array", "wide object", "wide array of containers", "wide strings"};
  int kind = (int)(d.i % 8);
  uint64_t sz = d.i / 8; // -> 2^k - 1, 2^k, 2^k + 1
  size_t n = ((size_t)1 << (sz / 3)) + sz % 3 - 1;
  if (nar) n = n % 3001;
  std::string t, close;
  switch (kind) {
  case 0: t.assign(n, '['); close.assign(n, ']'); break;
  case 1:
    for (size_t k = 0; k < n; k++) t += "{\"a\":";
    close.assign(n, '}');
    break;
  case 2:
    for (size_t k = 0; k < n; k++) t += k & 1 ? "[" : "{\"\":", close += k & 1 ? "]" : "}";
    std::reverse(close.begin(), close.end());
    break;
  case 3:
    for (size_t k = 0; k < n; k++) t += "[1,", close += ",2]";
    break;
  case 4: case 5: case 6: case 7:
    t = kind == 5 ? "{" : "[";
    for (size_t k = 0; k < n; k++) {
      if (k) t += ',';
      t += kind == 4 ? "1" : kind == 5 ? "\"k\":0" : kind == 6 ? (k & 1 ? "[]" : "{\"x\":[]}") : "\"ab\"";
    }
    close = kind == 5 ? "}" : "]";
    break;
  }
  std::string text = t + (kind < 4 ? "7" : "") + close;
  if (nar && text.size() > 15000) return;
  void *al = A->NewAllocator(), *al2 = A->NewAllocator();
  auto eq = [&](const char *what, void *v, const std::string &want) {
    const char *r = A->Stringify(v);
    if (!r || strlen(r) != want.size() || memcmp(r, want.data(), want.size())) {
      d.bad = true;
      d.err = std::string("serialising ") + what + " of a document of " + KINDS[kind] + ", size " + std::to_string(n) + " gives the wrong text";
      return false;
    }
    return true;
  };
  auto need = [&](bool ok, const char *what) {
    if (!ok && !d.bad) {
      d.bad = true;
      d.err = std::string(what) + " failed on a document of " + KINDS[kind] + ", size " + std::to_string(n);
    }
    return ok;
  };
  TextBuf keep(text, true);
  TextBuf cutText(text.substr(0, text.size() - 1), true);
  do {
    void *v = A->NewValue(al);
    int how = (int)(sz % 3);
    bool ok = how == 0 ? A->ParseFast(v, keep.p()) : how == 1 || !A->ParseLen ? A->Parse(v, keep.p()) : A->ParseLen(v, keep.p(), keep.n());
    if (!need(ok, "parsing") || !eq("the parsed value", v, text)) break;
    if (n) {
      void *bad = A->NewValue(al);
      if (!need(!A->Parse(bad, cutText.p()), "refusing the unterminated text")) break;
    }
    // walk down / along
    void *x = v;
    size_t cnt = 0;
    if (kind < 4) {
      while (x && A->Type(x) != T_NUM && cnt <= n) {
        void *y = A->Begin(x);
        if (kind == 3 && y) y = A->Next(y);
        x = y;
        cnt++;
      }
      if (!need(x && cnt == n && A->Type(x) == T_NUM, "walking down")) break;
      if (!eq("the innermost value", x, "7")) break;
    } else {
      if (!need(A->SizeOf(v) == (nar ? (size_t)(uint16_t)n : n), "counting")) break;
      for (x = A->Begin(v); x; x = A->Next(x)) cnt++;
      if (!need(cnt == n, "iterating")) break;
      if (n && kind != 5 && !need(A->ArrayGet(v, n - 1) != nullptr, "indexing the last element")) break;
      if (kind != 5 && !need(A->ArrayGet(v, n) == nullptr, "indexing past the end")) break;
      if (kind == 5 && !need(A->ObjGet(v, "nokey") == nullptr, "looking up a missing key")) break;
    }
    // copies
    void *cp = A->Copy(v);
    if (!need(cp != nullptr, "copying") || !eq("a copy", cp, text)) break;
    void *st = A->NewValue(al2);
    A->SetArray(st);
    void *one = A->NewValue(al2);
    A->SetBool(one, 1);
    if (!need(A->ArrayAdd(st, one), "adding")) break;
    if (!need(A->ArrayAdd(st, v), "adding a copy")) break;
    if (!eq("an array holding a copy", st, "[true," + text + "]")) break;
    void *sv = A->NewValue(al2);
    A->SetNull(sv);
    if (!need(A->Set(sv, v), "setting from a value") || !eq("a value set from it", sv, text)) break;
    // moves
    void *ob = A->NewValue(al);
    A->SetObj(ob);
    if (!need(A->SetKey(cp, "moved"), "setting a key")) break;
    if (!need(A->ObjAddFast(ob, cp), "adding by move") || !eq("an object holding it", ob, "{\"moved\":" + text + "}")) break;
    void *el = A->ObjGet(ob, "moved");
    if (!need(el != nullptr, "finding the moved value")) break;
    void *tgt = A->NewValue(al);
    A->SetArray(tgt);
    if (!need(A->SetFast(tgt, el), "setting by move") || !eq("a value set by move", tgt, text) || !eq("the emptied object", ob, "{}")) break;
    void *w2 = A->NewValue(al);
    A->SetArray(w2);
    if (!need(A->ArrayAddFast(w2, tgt), "adding to an array by move") || !eq("an array holding it", w2, "[" + text + "]")) break;
    void *b = A->Begin(w2);
    if (!need(b && A->Move(b), "cutting") || !eq("the cut value", b, text) || !eq("the emptied array", w2, "[]")) break;
    // parse over it
    if (!need(A->Parse(b, "[3]"), "parsing over it") || !eq("the replaced value", b, "[3]")) break;
    if (!eq("the original", v, text)) break;
  } while (0);
  A->ReleaseAllocator(al);
  A->ReleaseAllocator(al2);
  d.n = 1;
  d.sample = std::string(KINDS[kind]) + ", size " + std::to_string(n);
  if (n >= 1000) CLS(c, "depth or width of 1000 and more");
}
static void *deepMain(void *p) {
  DeepArg &d = *(DeepArg *)p;
  try {
    deepBody(d);
  } catch (Violation &v) {
    d.bad = true;
    d.err = v.msg;
  }
  return nullptr;
}
static uint64_t n_deep(const Ctx &c) { return 8 * 3 * (uint64_t)(parN(c, "k", 19) - parN(c, "from", 0)); }
static void e_deep(Ctx &c, Src &s) {
  DeepArg d;
  d.c = &c;
  uint64_t i = getIdx(s);
  d.A = c.apis[i % c.apis.size()];
  uint64_t tot = n_deep(c);
  d.i = 8 * 3 * (uint64_t)parN(c, "from", 0) + tot - 1 - i; // largest first: spreads over the workers
  pthread_attr_t at;
  pthread_attr_init(&at);
  if (pthread_attr_setstacksize(&at, (size_t)parN(c, "stack", 256) * 1024)) {
    fprintf(stderr, "cannot set the stack size\n");
    _exit(3);
  }
  pthread_t th;
  if (pthread_create(&th, &at, deepMain, &d)) {
    fprintf(stderr, "pthread_create failed\n");
    _exit(3);
  }
  pthread_join(th, nullptr);
  if (d.bad) fail("%s", d.err.c_str());
  c.weight = d.n;
  c.st->nontrivialDirect += d.n;
  if (c.wantSample) c.sample = d.sample;
}
// growth: total arena use passes through every block size (narrow size types reach the largest)
static uint64_t n_growth(const Ctx &) { return 48; }
static void e_growth(Ctx &c, Src &s) {
  uint64_t i = getIdx(s);
  const Api *A = c.apis[i % c.apis.size()];
  i /= c.apis.size();
  bool nar = A->flags & VF_FLAG_NARROW;
  void *al = A->NewAllocator();
  void *root = A->NewValue(al);
  A->SetArray(root);
  size_t unit = 1 + (size_t)(i % 12) * (nar ? 97 : 997), total = (nar ? (size_t)1 << 20 : (size_t)24 << 20) + (i << 12);
  std::string lit(unit, 'a');
  size_t used = 0, cnt = 0;
  std::string want = "[";
  while (used < total) {
    void *v = A->NewValue(al);
    lit[cnt % unit] = (char)('a' + cnt % 26);
    TextBuf b(lit, true);
    CHECK(A->SetStr(v, b.p()), "SetStr refused a plain string");
    if (cnt % 64 == 0 && want.size() + unit < (nar ? 12000u : 3000000u)) {
      want += (want.size() > 1 ? ",\"" : "\"") + lit + "\"";
      CHECK(A->ArrayAddFast(root, v), "ArrayAddFast refused");
    } else {
      size_t n;
      const char *r = A->GetStrFast(v, &n);
      CHECK(r && n == unit && !memcmp(r, lit.data(), n), "a string set after %zu bytes of arena use reads back wrong", used);
    }
    used += unit + 80;
    cnt++;
  }
  want += "]";
  const char *r = A->Stringify(root);
  CHECK(r && want == r, "a document built across %zu bytes of arena use serialises wrong", used);
  A->ReleaseAllocator(al);
  c.weight = cnt;
  c.st->nontrivialDirect++;
  if (c.wantSample) c.sample = std::to_string(cnt) + " strings of " + std::to_string(unit) + " bytes in one allocator";
}
// huge: arena use beyond what a 32-bit block size can double (thorough only)
static uint64_t n_huge(const Ctx &) { return 1; }
static void e_huge(Ctx &c, Src &) {
  const Api *A = c.apis[0];
  void *al = A->NewAllocator();
  void *v = A->NewValue(al);
  size_t n = (size_t)parN(c, "n", 62000000);
  std::string t;
  t.reserve(2 * n + 2);
  t = "[";
  for (size_t k = 0; k < n; k++) t += k ? ",1" : "1";
  t += "]";
  CHECK(A->ParseFast(v, t.c_str()), "parsing an array of %zu elements failed", n);
  CHECK(A->SizeOf(v) == n, "the array has the wrong size");
  const char *r = A->Stringify(v);
  CHECK(r && t == r, "serialising an array of %zu elements gives the wrong text", n);
  A->ReleaseAllocator(al);
  c.st->nontrivialDirect++;
  if (c.wantSample) c.sample = "array of " + std::to_string(n) + " elements";
}

// brim: texts that nearly fill the range of a 16-bit size type
static void e_brim(Ctx &c, Src &s) {
  const Api *A = pickApi(c, s);
  if (!(A->flags & VF_FLAG_NARROW)) return;
  const size_t MAX = 65400; // leaves room for the library's own bookkeeping
  size_t n;
  switch (s.below(4)) {
  case 0: n = 32768 - 40 + s.below(80); break;
  case 1: n = MAX - s.below(60); break;
  default: n = 25000 + s.below((uint32_t)(MAX - 25000 + 1));
  }
  bool obj = s.chance(1, 2);
  // members until exactly n bytes
  std::string t(1, obj ? '{' : '[');
  int scale = 1 + (int)s.below(15);
  size_t members = 0;
  auto member = [&](size_t room) { // a member text of at most room bytes (or of exactly room bytes: last)
    std::string m = members ? "," : "";
    if (obj) {
      size_t kl = s.chance(1, 3) ? s.below((uint32_t)std::min<size_t>(room / 2, 1u << scale) + 1) : s.below(4);
      m += "\"" + std::string(kl, (char)('a' + s.below(26))) + "\":";
    }
    return m;
  };
  while (true) {
    std::string m = member(n - t.size());
    size_t want = 2 + s.below(1u << scale); // bytes of the value
    size_t left = n - t.size() - 1;
    bool last = m.size() + want + 40 > left;
    if (last) {
      m = members ? "," : "";
      if (obj) m += "\"\":";
      want = left - m.size();
    }
    if (want < 3 || s.chance(1, 3)) m += std::string(want, (char)('1' + s.below(9)));
    else if (s.chance(1, 4) && want >= 8) {
      m += "\"" + std::string((want - 2) % 6, 'z');
      for (size_t k = 0; k < (want - 2) / 6; k++) m += "\\u00e9";
      m += "\"";
    } else m += "\"" + std::string(want - 2, (char)('a' + s.below(26))) + "\"";
    t += m;
    members++;
    if (last) break;
  }
  t += obj ? '}' : ']';
  CHECK(t.size() == n, "harness: brim text of %zu bytes instead of %zu", t.size(), n);
  World w(c, A, s);
  w.remCap = 20;
  w.g.maxLit = 100;
  int a = w.newAllocator(), h = w.newValue(a);
  if (s.chance(1, 3)) { // prior use, so that the growth starts elsewhere
    Gen::DocOpt o;
    w.parse(h, w.g.doc(o), 0);
    w.checkText(h);
  }
  int how = (int)s.below(4);
  if (how < 3 || n > 65000) {
    std::string u = t;
    if (u.size() + 10 < MAX && s.chance(1, 3)) u.insert(1, s.below((uint32_t)(MAX - u.size())), ' ');
    CHECK(w.parse(h, u, how % 3), "a valid text of %zu bytes was refused", u.size());
    u.back() = u.back() == ']' ? '}' : ']';
    CHECK(!w.parse(h, u, (how + 1) % 3), "an invalid text of %zu bytes was accepted", u.size());
  } else { // one string of n - 2 bytes
    w.setEsc(h, std::string(n - 2, 'q'), s.chance(1, 2));
  }
  w.checkText(h);
  w.audit(h);
  if (s.chance(1, 2)) {
    int b = w.newValue(w.newAllocator());
    w.set(b, h);
    w.checkText(b);
    w.checkText(h);
  }
  c.mixin(t);
  c.nontrivial = n > 32768;
  if (c.wantSample) c.sample = std::to_string(n) + " bytes, " + std::to_string(members) + " members";
  w.checkRemembered();
  w.finish();
}

// big: one token, gap or container of a size drawn around and between powers of two, through parsing, reading, setting,
// moving, copying into a second allocator that outlives the first, and refused variants of the text
static void e_big(Ctx &c, Src &s) {
  const Api *A = pickApi(c, s);
  bool narrow = A->flags & VF_FLAG_NARROW;
  World w(c, A, s);
  w.g.maxLit = 100;
  int top = (int)parN(c, "k", narrow ? 13 : c.tier ? 22 : 20), mtop = narrow ? 9 : (int)parN(c, "m", top - 3);
  auto size = [&](int k) {
    size_t b = (size_t)1 << (10 + s.below((uint32_t)std::max(1, k - 9)));
    if (k < 10) b = (size_t)1 << k;
    return s.chance(1, 2) ? b - 4 + s.below(9) : b + s.below((uint32_t)b);
  };
  int kind = parN(c, "kind", -1) >= 0 ? (int)parN(c, "kind", -1) : (int)s.below(8);
  size_t n = size(kind >= 4 && kind <= 5 ? mtop : top);
  // text whose every part differs from its neighbourhood, with escapes placed near chosen positions
  uint64_t seed = s.u64();
  int esc = (int)s.below(4);
  auto fill = [&](size_t len, bool digits) {
    std::string o(len, '1');
    for (size_t i = 0; i < len; i++) {
      uint64_t r = mix64(seed + i / 8) >> (8 * (i & 7)) & 255;
      o[i] = digits ? (char)('0' + r % 10) : (char)('a' + r % 26);
    }
    if (digits || esc == 0 || len < 16) return o;
    auto put = [&](size_t at) {
      static const char *E[] = {"\\n", "\\u00e9", "\\ud83d\\ude00", "\\\\", "\\\"", "\xc3\xa9", "\x7f", "\\u0041"};
      const char *e = E[mix64(seed ^ at) % 8];
      size_t m = strlen(e);
      at = at % (len + 1);
      if (at + m > len) at = len - m;
      // never into another escape
      for (size_t q = at > 12 ? at - 12 : 0; q < std::min(len, at + m + 12); q++)
        if (o[q] == '\\' || (unsigned char)o[q] > 0x7e) return;
      o.replace(at, m, e);
    };
    if (esc == 1) put(len);
    if (esc == 2)
      for (int k = 0; k < 6; k++) put(s.chance(1, 2) ? ((size_t)1 << s.below(21)) - s.below(8) : s.below((uint32_t)len));
    if (esc == 3)
      for (size_t k = 0; k < len; k += 40 + mix64(seed + k) % 400) put(k);
    return o;
  };
  int a = w.newAllocator(), b = w.newAllocator();
  w.remCap = std::max<size_t>(6, std::min<size_t>(60, 20000000 / n));
  std::string t, lit = fill(n, kind == 2);
  if (lit[0] == '0') lit[0] = '1';
  bool obj = s.chance(1, 2);
  switch (kind) {
  case 0: t = "[\"" + lit + "\",7]"; break;
  case 1: t = "{\"k\":0,\"" + lit + "\":[7],\"z\":8}"; break;
  case 2: {
    if (s.chance(1, 3)) lit[1 + s.below((uint32_t)n - 3)] = '.';
    else if (s.chance(1, 3)) lit = lit.substr(0, n - 4) + "e-" + std::to_string(10 + s.below(90));
    t = "[" + lit + ",7]";
    break;
  }
  case 3: t = "[7" + std::string(n, " \n\t\r"[s.below(4)]) + ",8" + std::string(s.below(9), ' ') + "]" + std::string(s.chance(1, 2) ? n : 0, ' '); break;
  case 4: // many members
  case 5: {
    int style = (int)s.below(4);
    t = obj ? "{" : "[";
    for (size_t i = 0; i < n; i++) {
      if (i) t += ',';
      if (obj) t += "\"" + std::to_string(i) + "\":";
      t += style == 0 ? "0" : style == 1 ? std::to_string(i) : style == 2 ? "\"" + std::to_string(i) + "\"" : i % 3 ? "[]" : "{\"a\":" + std::to_string(i) + "}";
    }
    t += obj ? "}" : "]";
    break;
  }
  case 6: { // several long strings
    t = "[";
    size_t m = 2 + s.below(6);
    for (size_t i = 0; i < m; i++) t += "\"" + lit.substr(0, n / m + i) + (i + 1 < m ? "\"," : "\"]");
    if (!oracle::accepts(t)) t = "[\"" + lit + "\",7]"; // cut inside an escape
    break;
  }
  case 7: { // nested, with a long scalar inside
    size_t d = std::min<size_t>(n / 8, 300);
    t = std::string(d, '[') + "{\"a\":\"" + lit + "\"}" + std::string(d, ']');
    break;
  }
  }
  int h = w.newValue(a);
  int how = (int)s.below(3);
  CHECK(w.parse(h, t, how), "harness: the generated text is no JSON: %s", show(t).c_str());
  w.checkText(h);
  w.audit(h);
  { // refused and accepted neighbours of the text
    for (int k = 0; k < 3; k++) {
      std::string u = t;
      size_t at = s.chance(1, 3) ? u.size() - 1 - s.below(3) : s.chance(1, 2) ? ((size_t)1 << s.below(22)) - 2 + s.below(4) : s.below((uint32_t)u.size());
      at %= u.size();
      switch (s.below(6)) {
      case 0: u[at] = "\x01\"]},:\\"[s.below(7)]; break;
      case 1: u.insert(at, 1, '\0'); break;
      case 2: u.resize(at); break;
      case 3: u += "]x\"}"[s.below(4)]; break;
      case 4: u.back() = u.back() == ']' ? '}' : ']'; break;
      case 5: u[at] = '\x1f'; break;
      }
      int variant = (int)s.below(3);
      if (variant < 2 && u.find('\0') != std::string::npos) variant = 2;
      int x = s.chance(1, 2) ? h : w.newValue(a);
      if (x == h && oracle::accepts(u)) x = w.newValue(a);
      w.parse(x, u, variant);
      if (x != h && w.hs[x].n && w.hs[x].n->type != T_OBJ) w.checkText(x);
      w.hs[x].live = x == h;
    }
    w.checkText(h);
  }
  if (kind < 3 || kind == 7) { // the literal through the setters
    int x = w.newValue(a);
    if (s.chance(1, 2)) w.parse(x, "[1]", 1);
    int v = (int)s.below(4);
    w.setLit(x, kind == 2, lit, v);
    w.checkScalar(x);
    std::string bad = lit;
    bad[s.chance(1, 2) ? bad.size() - 1 : s.below((uint32_t)bad.size())] = kind == 2 ? "x-+\x01"[s.below(4)] : "\"\x01\\\x1f"[s.below(4)];
    w.setLit(x, kind == 2, bad, (int)s.below(4));
    if (kind != 2) {
      w.setKey(x, lit, (int)s.below(4));
      w.setKey(x, bad, (int)s.below(4));
      w.checkScalar(x);
      int o = w.newValue(a);
      w.setObj(o);
      w.objAdd(o, x);
      s.chance(1, 2) ? (void)w.objAddFast(o, x) : (void)w.objAdd(o, x);
      w.checkText(o);
      int g = w.objGet(o, lit, s.chance(1, 2));
      if (g >= 0) w.checkScalar(g);
      w.objGet(o, lit.substr(0, lit.size() - 1), s.chance(1, 2));
      w.objDel(o, lit);
      w.checkText(o);
    }
    if (A->SetStrEscape && kind != 2) {
      std::string raw = fill(n, true);
      for (int k = 0; k < 4; k++) raw[s.chance(1, 4) ? raw.size() - 1 : s.below((uint32_t)raw.size())] = "\n\"\\\x01\xff/"[s.below(6)];
      int e = w.newValue(a);
      bool wl = s.chance(1, 2);
      s.chance(1, 2) ? (void)w.setEsc(e, raw, wl) : (void)(w.setLit(e, true, "1", 2), w.setKeyEsc(e, raw, wl));
      w.checkScalar(e);
    }
  }
  // edits at far positions
  for (int k = 0; k < 3; k++) {
    MNode *m = w.hs[h].n;
    size_t cnt = m->kids.size();
    if (!cnt) break;
    size_t p = s.chance(1, 2) ? cnt - 1 - s.below(2) % cnt : s.chance(1, 2) ? (((size_t)1 << s.below(20)) - 1 + s.below(3)) % cnt : s.below((uint32_t)cnt);
    bool arr = m->type == T_ARR;
    int e = arr ? w.arrGet(h, p) : w.objGet(h, m->kids[p]->key, s.chance(1, 2));
    CHECK(e >= 0, "member %zu of %zu not found", p, cnt);
    switch (s.below(5)) {
    case 0: arr ? w.arrDel(h, p) : w.objDel(h, m->kids[p]->key); break;
    case 1: w.move(e), w.checkText(e), arr ? w.arrAddFast(h, e) : w.objAddFast(h, e); break;
    case 2: w.parse(e, "[null]", how); break;
    case 3: {
      int x = w.newValue(a);
      w.setLit(x, true, "5", 2), w.setKey(x, "new", 2);
      arr ? w.arrAdd(h, x) : w.objAdd(h, x);
      break;
    }
    case 4: arr ? w.arrAdd(h, e) : w.objAdd(h, e); break;
    }
    w.hs[e].live = false;
  }
  w.checkText(h);
  // a copy elsewhere outlives everything
  int q, way = (int)s.below(4);
  if (way == 0) q = w.copy(h);
  else {
    q = w.newValue(way == 3 ? a : b);
    if (way == 1) w.set(q, h);
    else w.setArray(q), w.arrAdd(q, h);
  }
  w.checkText(q);
  if (w.hs[q].a == a) {
    for (uint32_t id = 1; id <= w.kept.size(); id++) w.hs[h].live = false, w.dropText(id);
    if (w.hs[q].live) w.checkText(q), w.audit(q);
  } else {
    if (s.chance(1, 2)) w.checkText(h);
    w.release(a);
    w.checkText(q);
    w.audit(q);
  }
  static const char *NAME[] = {"string", "key", "number", "blanks", "members", "members", "strings", "nested"};
  c.mixin(t);
  c.nontrivial = n > 1024;
  w.checkRemembered();
  w.finish();
  if (c.wantSample) c.sample = std::string(NAME[kind]) + " of size " + std::to_string(n) + ": " + show(t, 120);
}

// large: one token, one gap or one flat container of n bytes or members
static uint64_t n_large(const Ctx &c) { return (parN(c, "k", -1) >= 0 ? 1 : 9) * std::max<size_t>(1, c.apis.size()); }
static void e_large(Ctx &c, Src &s) {
  uint64_t idx = getIdx(s);
  int only = (int)parN(c, "k", -1);
  if (only >= 0) idx = idx * 9 + (uint64_t)only;
  const Api *A = c.apis[idx / 9 % c.apis.size()];
  size_t n = (size_t)parN(c, "n", 20000000);
  static const char *NAME[] = {"string", "key", "number", "blank before", "blank inside", "escapes", "flat array", "flat object", "set string"};
  int k = (int)(idx % 9);
  std::string t, want;
  if (k == 8 && !A->SetStrLenEscape) return;
  if (k == 0) t = "[\"" + std::string(n, 'x') + "\",7]";
  if (k == 1) t = "{\"" + std::string(n, 'k') + "\":7,\"z\":8}";
  if (k == 2) t = "[" + std::string(n, '3') + ",7]";
  if (k == 3) t = std::string(n, '\n') + "[7]", want = "[7]";
  if (k == 4) t = "[7" + std::string(n / 2, ' ') + "," + std::string(n / 2, '\t') + "8]", want = "[7,8]";
  if (k == 5) {
    t.reserve(n + 20);
    t = "[\"";
    while (t.size() < n) t += "\\u00e9\\n";
    t += "\",7]";
  }
  if (k == 6) {
    size_t m = n / 8;
    t.reserve(2 * m + 2);
    t = "[";
    for (size_t i = 0; i < m; i++) t += i ? ",1" : "1";
    t += "]";
  }
  if (k == 7) {
    size_t m = n / 8;
    t.reserve(6 * m + 2);
    t = "{";
    for (size_t i = 0; i < m; i++) t += i ? ",\"\":1" : "\"\":1";
    t += "}";
  }
  void *al = A->NewAllocator();
  void *v = A->NewValue(al);
  const char *what = NAME[k];
  std::string bad;
  if (k == 8) {
    std::string raw(n, 'x');
    raw[n / 2] = '\n';
    want = "\"" + std::string(n / 2, 'x') + "\\n" + std::string(n - n / 2 - 1, 'x') + "\"";
    CHECK(A->SetStrLenEscape(v, raw.data(), n), "setting a string of %zu bytes was refused", n);
    const char *u = A->GetUnEscapeStr(v);
    CHECK(u && raw == u, "a string of %zu bytes set with escaping reads back wrongly", n);
  } else {
    bool ok = (k & 1) && A->ParseLen ? A->ParseLen(v, t.data(), t.size()) : A->ParseFast(v, t.c_str());
    CHECK(ok, "%s: parsing a valid text of %zu bytes failed", what, t.size());
  }
  const std::string &w = want.empty() ? t : want;
  const char *r = A->Stringify(v);
  CHECK(r && strlen(r) == w.size() && memcmp(r, w.data(), w.size()) == 0, "%s: serialising a text of %zu bytes gives the wrong text", what, t.size());
  size_t len = 0;
  if (k == 0 || k == 5) {
    void *e = A->ArrayGet(v, 0);
    const char *s = e ? A->GetStrFast(e, &len) : nullptr;
    CHECK(s && len == t.size() - 6 && memcmp(s, t.data() + 2, len) == 0, "%s: a string of %zu bytes reads back wrongly", what, t.size() - 6);
    s = A->GetStr(e);
    CHECK(s && strlen(s) == len && memcmp(s, t.data() + 2, len) == 0, "%s: a string of %zu bytes reads back wrongly", what, len);
    s = A->GetUnEscapeStr ? A->GetUnEscapeStr(e) : nullptr;
    if (!A->GetUnEscapeStr)
      ;
    else if (k == 0)
      CHECK(s && strlen(s) == len && memcmp(s, t.data() + 2, len) == 0, "%s: a string of %zu bytes is decoded wrongly", what, len);
    else {
      CHECK(s && strlen(s) == len / 8 * 3, "%s: a string of %zu bytes is decoded to the wrong length", what, len);
      for (size_t i = 0; i < len / 8; i += 1 + i / 7) CHECK(memcmp(s + 3 * i, "\xc3\xa9\n", 3) == 0, "%s: decoded wrongly at %zu", what, 3 * i);
    }
  }
  if (k == 1) {
    void *e = A->Begin(v);
    const char *s = e ? A->GetKeyFast(e, &len) : nullptr;
    CHECK(s && len == n && memcmp(s, t.data() + 2, n) == 0, "a key of %zu bytes reads back wrongly", n);
    if (A->ObjGetLen) CHECK(A->ObjGetLen(v, t.data() + 2, n), "a key of %zu bytes is not found", n);
    if (A->ObjGetLen) CHECK(!A->ObjGetLen(v, t.data() + 2, n - 1), "a key one shorter than %zu bytes is found", n);
    s = A->GetKey(e);
    CHECK(s && strlen(s) == n, "a key of %zu bytes reads back wrongly", n);
  }
  if (k == 2) {
    void *e = A->ArrayGet(v, 0);
    const char *s = e ? A->GetNumFast(e, &len) : nullptr;
    CHECK(s && len == n && memcmp(s, t.data() + 1, n) == 0, "a number of %zu digits reads back wrongly", n);
    void *f = A->NewValue(al);
    CHECK(A->SetNumStrLen(f, s, len), "setting a number of %zu digits was refused", n);
    s = A->GetNumStr(f);
    CHECK(s && strlen(s) == n, "a number of %zu digits reads back wrongly", n);
  }
  if (k == 6 || k == 7) CHECK(A->SizeOf(v) == n / 8, "%s of %zu members counts %zu", what, n / 8, A->SizeOf(v));
  if (k < 8) {
    // one byte wrong at the very end
    std::string b = t;
    b.back() = b.back() == ']' ? '}' : ']';
    void *x = A->NewValue(al);
    CHECK(!A->ParseFast(x, b.c_str()), "%s: a text of %zu bytes with the wrong last byte was accepted", what, b.size());
    b.pop_back();
    CHECK(!A->ParseFast(x, b.c_str()), "%s: a text of %zu bytes without its last byte was accepted", what, b.size());
  }
  void *cp = A->Copy(v);
  CHECK(cp, "%s: copying was refused", what);
  r = A->Stringify(cp);
  CHECK(r && strlen(r) == w.size() && memcmp(r, w.data(), w.size()) == 0, "%s: the copy of a text of %zu bytes serialises wrongly", what, t.size());
  A->ReleaseAllocator(al);
  c.st->nontrivialDirect++;
  if (c.wantSample) c.sample = std::string(what) + ", " + std::to_string(n);
}

// ------------------------------------------------------------------------------------------------
// threads: histories in parallel, each thread with its own allocators
struct ThArg {
  Ctx c;
  Stats st;
  const Api *A;
  uint64_t seed;
  std::string err, prof;
  pthread_barrier_t *bar;
  int rounds;
  bool bad = false, migrate = false;
};
static thread_local int tlsDummy;
static void *thMain(void *p) {
  ThArg &t = *(ThArg *)p;
  tlsDummy = 1;
  pthread_barrier_wait(t.bar);
  for (int r = 0; r < t.rounds && !t.bad; r++) {
    try {
      Src s(mix64(t.seed + (uint64_t)r), nullptr, nullptr);
      World w(t.c, t.A, s);
      w.shared = true;
      uint64_t k = mix64(t.seed ^ (uint64_t)r);
      if (t.migrate) // some steps run in a thread of their own, which is gone afterwards
        w.exec = [&](const std::function<void()> &f) {
          k = mix64(k);
          if (k % 3) return f();
          std::exception_ptr e;
          auto g = [&] {
            try {
              f();
            } catch (...) {
              e = std::current_exception();
            }
          };
          std::thread(g).join();
          if (e) std::rethrow_exception(e);
        };
      runHistory(w, profile(t.prof));
      if (w.mutations >= 4) t.c.nontrivial = true;
    } catch (Violation &v) {
      t.bad = true;
      t.err = v.msg;
    }
  }
  return nullptr;
}
static void e_threads(Ctx &c, Src &s) {
  int n = 2 + (int)s.below(5);
  static const char *P[] = {"lits", "edit", "mem", "copy", "move", "parse", "read", "small"};
  std::deque<ThArg> th(n);
  std::vector<pthread_t> id(n);
  pthread_barrier_t bar;
  pthread_barrier_init(&bar, nullptr, (unsigned)n);
  const Api *A = pickApi(c, s);
  bool sameProf = s.chance(1, 2);
  int p0 = (int)s.below(8);
  for (int i = 0; i < n; i++) {
    th[i].A = A;
    memset(&th[i].st, 0, sizeof th[i].st);
    th[i].c.st = &th[i].st;
    th[i].prof = P[sameProf ? p0 : (int)s.below(8)];
    th[i].seed = s.u64();
    th[i].bar = &bar;
    th[i].rounds = 1 + (int)s.below(6);
    th[i].migrate = s.chance(1, 4);
  }
  for (int i = 0; i < n; i++)
    if (pthread_create(&id[i], nullptr, thMain, &th[i])) {
      fprintf(stderr, "pthread_create failed\n");
      _exit(3);
    }
  for (int i = 0; i < n; i++) pthread_join(id[i], nullptr);
  pthread_barrier_destroy(&bar);
  int nt = 0;
  for (auto &t : th) {
    if (t.bad) fail("with %d threads on separate allocators, one thread saw: %s", n, t.err.c_str());
    c.mixin(t.seed);
    nt += t.c.nontrivial;
  }
  c.weight = (uint64_t)n;
  c.nontrivial = nt >= 2;
  if (c.wantSample) {
    c.sample = std::to_string(n) + " threads:";
    for (auto &t : th) c.sample += " " + t.prof + " x" + std::to_string(t.rounds) + (t.migrate ? " (handed between threads)" : "");
  }
}

// ------------------------------------------------------------------------------------------------
// equiv (metamorphic, C19): the same edits with and without interleaved reads give the same document
static void e_reads(Ctx &c, Src &s) {
  const Api *A = pickApi(c, s);
  World w(c, A, s);
  w.g.maxLit = 200;
  int a = w.newAllocator(), b = w.newAllocator();
  int h[2] = {w.newValue(a), w.newValue(b)};
  Gen::DocOpt o;
  o.nodes = 4 + (int)s.below(16);
  std::string t = (s.chance(1, 2) ? "[" + w.g.doc(o) + "," + w.g.doc(o) + "]" : "{\"a\":" + w.g.doc(o) + ",\"b\":" + w.g.doc(o) + "}");
  int var = (int)s.below(3);
  w.parse(h[0], t, var);
  w.parse(h[1], t, var);
  int ops = 2 + (int)s.below(10);
  int reads = 0;
  for (int k = 0; k < ops; k++) {
    // reads and refused calls on the second document only
    int nr = (int)s.below(4);
    for (int r = 0; r < nr; r++, reads++) {
      switch (s.below(7)) {
      case 0: w.audit(h[1]); break;
      case 1: w.checkText(h[1]); break;
      case 2: w.checkScalar(h[1]); break;
      case 3: {
        std::string bad = w.g.mutate(w.g.doc(o));
        bad = bad.substr(0, bad.find('\0')); // terminated entry points see no more than this
        if (oracle::accepts(bad)) bad += "]";
        w.parse(h[1], bad, (int)s.below(3));
        break;
      }
      case 4: w.setLit(h[1], s.chance(1, 2), "\"\x01", (int)s.below(4)); break;
      case 5: {
        int e = w.newValue(b);
        w.arrAdd(h[1], e);
        w.objAdd(h[1], e);
        w.arrAddFast(h[1], e);
        w.objAddFast(h[1], e);
        w.set(h[1], e);
        w.arrDel(h[1], 1u << 20);
        w.objDel(h[1], "no such key");
        break;
      }
      case 6: {
        int q = w.copy(h[1]);
        if (q >= 0) w.hs[q].live = false;
        break;
      }
      }
    }
    // the same edit on both
    size_t at = s.byte();
    int what = (int)s.below(6);
    std::string d = w.g.doc(o), key = w.g.key();
    for (int x : {h[0], h[1]}) {
      MNode *n = w.hs[x].n;
      size_t cnt = n->kids.size();
      int al = w.hs[x].a;
      bool obj = n->type == T_OBJ, arr = n->type == T_ARR;
      switch (what) {
      case 0:
        if (arr && cnt) w.arrDel(x, at % cnt);
        else if (obj && cnt) w.objDel(x, n->kids[at % cnt]->key);
        break;
      case 1: {
        int e = w.newValue(al);
        w.parse(e, d, 1);
        w.setKey(e, key, 2);
        if (obj) w.objAddFast(x, e);
        else if (arr) w.arrAddFast(x, e);
        break;
      }
      case 2:
      case 3: {
        if (!cnt || !(arr || obj)) break;
        int e = w.begin(x);
        for (size_t j = 0; j < at % cnt; j++) {
          int f = w.next(e);
          w.hs[e].live = false;
          e = f;
        }
        if (what == 2) w.parse(e, d, 1);
        else w.move(e);
        w.hs[e].live = false;
        break;
      }
      case 4: w.parse(x, d, 1); break;
      case 5:
        if (arr) w.arrAdd(x, x);
        break;
      }
    }
    const char *p = A->Stringify(w.hs[h[0]].p);
    std::string s0 = p ? p : "";
    const char *q = A->Stringify(w.hs[h[1]].p);
    CHECK(q && s0 == q, "two equal documents differ after the same edits when one was also read: \"%s\" and \"%s\"", show(s0).c_str(), show(q).c_str());
    if (s0.size() > 20000) break;
  }
  w.audit(h[0]);
  w.audit(h[1]);
  w.finish();
  c.mixin(t);
  c.mixin((uint64_t)reads);
  c.nontrivial = reads >= 2 && w.mutations >= 6;
  if (c.wantSample)
    for (auto &l : w.log) {
      if (c.sample.size() > 900) break;
      c.sample += l + "; ";
    }
}

// ------------------------------------------------------------------------------------------------
static const char *R_HIST = "random call history over several values and allocators, compared with a tree model; non-trivial: at least 4 successful mutations of which one is a move, copy or delete; distinct by calls and resulting documents";
static const Engine ENG[] = {
    {"hist", false, e_hist, nullptr, R_HIST},
    {"cycle", false, e_cycle, nullptr, "3 to 12 similar short histories one after the other, each in fresh allocators that get the released memory back at the same addresses; non-trivial: 3 or more mutations"},
    {"twins", false, e_twins, nullptr, "3 to 8 texts and literals of one length that differ in a few bytes, written one after the other into the same buffer and parsed and read in recycled memory; non-trivial: at least two of them differ from the one before"},
    {"histall", false, e_histall, nullptr, "the same random history on every loaded surface; non-trivial as for a history"},
    {"doc", false, e_doc, nullptr, "grammar-generated, mutated or random text through every parse entry point; non-trivial: 3 or more bytes (verdict), or a valid text with a container or string (reading, serialising); distinct by text"},
    {"sweep", true, e_sweep, n_sweep, "every word up to a length over a small alphabet; every word except the empty one is non-trivial"},
    {"unicode", true, e_unicode, n_unicode, "every \\u code unit in three spellings and surrogate pairs at and around the range edges; all non-trivial"},
    {"trunc", true, e_trunc, n_trunc, "13 seed texts cut, and with each of 20 bytes substituted or inserted, at every position; each changed text is non-trivial"},
    {"near", false, e_near, nullptr, "a valid wide, deep or ordinary text with exactly one token changed, dropped, doubled, swapped or inserted; non-trivial: 3 or more tokens; distinct by text"},
    {"lenient", true, e_lenient, n_lenient, "about 250 snippets (what lenient parsers accept, near-literals, broken containers) put at every token boundary, in every token's place and into every token of ten texts; each resulting text is non-trivial"},
    {"into", false, e_into, nullptr, "valid and corrupted texts parsed into random values of random documents; non-trivial: at least one failure and one success or second target"},
    {"shorthist", true, e_short, n_short, "every sequence of calls of a fixed length over 20 calls on six starting documents; non-trivial: at least 3 mutations"},
    {"moves", true, e_moves, n_moves, "every combination of source size, position, destination kind and size, way of moving and later edits; all non-trivial"},
    {"num", false, e_num, nullptr, "number literals in a text and binary values written and read; non-trivial: text longer than one digit; distinct by literals"},
    {"ints", true, e_ints, n_ints, "neighbourhoods of all powers of two and ten, and every binary exponent; all non-trivial"},
    {"numlen", true, e_numlen, n_numlen, "number literals of every length in nine forms; all non-trivial"},
    {"esc", false, e_esc, nullptr, "random byte strings escaped and string bodies decoded; non-trivial: contains an escape or a byte that needs one"},
    {"escbytes", true, e_escbytes, n_escbytes, "every pair of bytes; all non-trivial"},
    {"lens", true, e_lens, n_lens, "strings, keys, containers, nests of every length; non-trivial: length 2 and more"},
    {"wide", false, e_wide, nullptr, "containers of up to 2^12 (thorough 2^15) members built by parsing, copying or calls, then read and edited at and around boundary positions; non-trivial: 2 or more members and a mutation; distinct by resulting document and way of building"},
    {"deep", true, e_deep, n_deep, "documents of depth or width 2^k-1, 2^k, 2^k+1 in eight shapes, on a small stack; all non-trivial"},
    {"growth", true, e_growth, n_growth, "many strings in one allocator, through all block sizes"},
    {"huge", true, e_huge, n_huge, "one array whose arena use passes 4 GiB"},
    {"brim", false, e_brim, nullptr, "texts of 25000 to 65400 bytes with a 16-bit size type; non-trivial: more than half the range of the size type"},
    {"big", false, e_big, nullptr, "one token, gap or container of 2^10 to 2^20 (thorough 2^22) bytes, or up to 2^17 (2^19) members, parsed, read, set, edited far from its start, refused with one byte wrong, copied elsewhere and read after its source is gone; all non-trivial; distinct by text"},
    {"large", true, e_large, n_large, "one string, key, number, gap or flat container of a very large size, parsed, read, serialised, copied, and refused with its last byte wrong; all non-trivial"},
    {"cost", false, e_cost, nullptr, "one scenario (parsing, serialising, copying, reading, building, cutting, replacing, looking up, releasing, or one local call in a large document) measured at a size and 16 times that size; every measured scenario is non-trivial"},
    {"threads", false, e_threads, nullptr, "2 to 6 threads run histories on their own allocators; non-trivial: at least two of them mutate"},
    {"reads", false, e_reads, nullptr, "equal documents get the same edits, one also reads and refused calls; non-trivial: 2 reads and 6 mutations"},
};
const Engine *findEngine(const std::string &n) {
  for (auto &e : ENG)
    if (n == e.name) return &e;
  return nullptr;
}
