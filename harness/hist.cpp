#include "hist.h"
#include <cmath>
#include <map>
static Profile mk(std::initializer_list<std::pair<Op, int>> l, int mn, int mx, bool snap, int al) {
  Profile p;
  static const int base[NOPS] = {/*NEWVALUE*/ 6, /*NEWALLOC*/ 1, /*RELEASE*/ 1, /*PARSE*/ 6, /*PARSEBAD*/ 3, /*SCALAR*/ 5, /*LIT*/ 6, /*BADLIT*/ 2,
                                 /*ESC*/ 2,     /*KEY*/ 4,      /*KEYESC*/ 1,  /*CONT*/ 3,  /*SET*/ 5,      /*SETFAST*/ 5, /*ADD*/ 8, /*ADDFAST*/ 8,
                                 /*FRESH*/ 12,  /*DEL*/ 9,      /*COPY*/ 3,    /*MOVE*/ 6,  /*NAV*/ 14,     /*READ*/ 3,   /*TEXT*/ 2, /*AUDIT*/ 1,
                                 /*BADOP*/ 3,   /*XADD*/ 2,     /*DROP*/ 3,    /*FEED*/ 4};
  memcpy(p.w, base, sizeof base);
  for (auto &e : l) p.w[e.first] = e.second;
  p.minOps = mn;
  p.maxOps = mx;
  p.snap = snap;
  p.allocs = al;
  p.trivialRule = "";
  return p;
}
const Profile &profile(const std::string &n) {
  static const std::map<std::string, Profile> m = {
      {"edit", mk({}, 6, 60, false, 1)},
      {"copy", mk({{O_SET, 16}, {O_ADD, 18}, {O_COPY, 10}, {O_XADD, 14}, {O_RELEASE, 4}, {O_NEWALLOC, 5}, {O_DEL, 8}, {O_DROP, 12}}, 6, 60, false, 2)},
      {"move", mk({{O_SETFAST, 14}, {O_ADDFAST, 18}, {O_MOVE, 16}, {O_DEL, 10}, {O_NAV, 22}, {O_RELEASE, 0}}, 6, 60, false, 1)},
      {"mem", mk({{O_NEWALLOC, 7}, {O_RELEASE, 6}, {O_READ, 12}, {O_TEXT, 8}, {O_XADD, 8}, {O_LIT, 10}, {O_ESC, 5}, {O_DROP, 6}, {O_FEED, 8}}, 6, 50, false, 3)},
      {"read", mk({{O_READ, 18}, {O_TEXT, 8}, {O_PARSEBAD, 12}, {O_BADLIT, 12}, {O_BADOP, 20}, {O_AUDIT, 2}}, 6, 40, true, 1)},
      {"lits", mk({{O_LIT, 25}, {O_BADLIT, 25}, {O_ESC, 12}, {O_KEY, 14}, {O_KEYESC, 8}, {O_SCALAR, 12}, {O_RELEASE, 3}, {O_NEWALLOC, 3}, {O_FEED, 10}}, 6, 40, false, 1)},
      {"parse", mk({{O_PARSE, 25}, {O_PARSEBAD, 30}, {O_NAV, 20}}, 4, 30, false, 1)},
      {"long", mk({{O_NEWALLOC, 0}, {O_RELEASE, 0}, {O_XADD, 1}, {O_PARSE, 2}, {O_CONT, 1}, {O_DEL, 12}}, 150, 600, false, 1)},
      {"small", mk({{O_NEWALLOC, 0}, {O_RELEASE, 0}, {O_READ, 1}}, 3, 16, false, 1)},
  };
  auto it = m.find(n);
  if (it == m.end()) {
    fprintf(stderr, "no profile %s\n", n.c_str());
    abort();
  }
  return it->second;
}
static size_t weightOf(const MNode *n) {
  size_t t = 0;
  std::vector<const MNode *> st{n};
  while (!st.empty()) {
    const MNode *m = st.back();
    st.pop_back();
    t += 40 + m->lit.size() + m->key.size();
    for (auto *k : m->kids) st.push_back(k);
  }
  return t;
}
static int pick(World &w) {
  std::vector<int> v;
  for (size_t i = 0; i < w.hs.size(); i++)
    if (w.hs[i].live) v.push_back((int)i);
  if (v.empty()) return -1;
  return v[w.s.below((uint32_t)v.size())];
}
template <class F> static int pickWhere(World &w, F f) {
  std::vector<int> v;
  for (size_t i = 0; i < w.hs.size(); i++)
    if (w.hs[i].live && f(w.hs[i])) v.push_back((int)i);
  if (v.empty()) return -1;
  return v[w.s.below((uint32_t)v.size())];
}
static int pickAlloc(World &w) {
  std::vector<int> v;
  for (size_t i = 0; i < w.allocs.size(); i++)
    if (w.allocs[i].live) v.push_back((int)i);
  if (v.empty()) return -1;
  return v[w.s.below((uint32_t)v.size())];
}
static void setSomething(World &w, int h) {
  Src &s = w.s;
  switch (s.below(12)) {
  case 0: w.setNull(h); break;
  case 1: w.setBool(h, s.chance(1, 2)); break;
  case 2:
  case 3: w.setLit(h, false, w.g.strBody(24), (int)s.below(4)); break;
  case 4:
  case 5: w.setLit(h, true, w.g.num(), (int)s.below(4)); break;
  case 6: w.setArray(h); break;
  case 7: w.setObj(h); break;
  case 8:
  case 9: {
    Gen::DocOpt o;
    o.nodes = 8;
    w.parse(h, w.g.doc(o), (int)s.below(3));
    break;
  }
  case 10:
    if (w.A->SetInt && s.chance(1, 2)) w.setInt(h, w.g.ll(), (int)s.below(3));
    else if (w.A->SetNum) w.setDouble(h, w.g.dbl(), s.chance(1, 2));
    break;
  case 11:
    if (w.A->SetStrEscape) w.setEsc(h, w.g.bytes(30, true), s.chance(1, 2));
    break;
  }
}
static std::string someKeyOf(World &w, const MNode *n) {
  if (n && n->type == T_OBJ && !n->kids.empty() && w.s.chance(3, 4)) {
    std::string k = n->kids[w.s.below((uint32_t)n->kids.size())]->key;
    if (w.s.chance(1, 6)) k = nearKey(w.s, k);
    if (w.s.chance(1, 24)) k += std::string(1, '\0') + (w.s.chance(1, 2) ? "" : "b"); // seen whole by the counted forms only
    return k;
  }
  return w.g.key();
}
static size_t someIndexOf(World &w, const MNode *n) {
  size_t c = n ? n->kids.size() : 0;
  switch (w.s.below(6)) {
  case 0: return 0;
  case 1: return c ? c - 1 : 0;
  case 2: return c;
  default:
    if (w.s.chance(1, 16)) { // far beyond the end
      static const size_t F[] = {0xff, 0x100, 0x7fff, 0x8000, 0xffff, 0x10000, 0x7fffffff, 0x80000000u, 0xfffffffeu, 0xffffffffu};
      return F[w.s.below((w.A->flags & VF_FLAG_NARROW) ? 5 : 10)];
    }
    return w.s.below((uint32_t)c + 2);
  }
}
static void nav(World &w, int h) {
  Src &s = w.s;
  MNode *n = w.hs[h].n;
  int k;
  if (n && n->type == T_ARR)
    k = s.chance(1, 8) ? 4 : (s.chance(1, 3) ? 0 : 1);
  else if (n && n->type == T_OBJ)
    k = s.chance(1, 8) ? 4 : (s.chance(1, 3) ? 0 : 2);
  else
    k = s.chance(3, 4) ? 4 : (int)s.below(4);
  switch (k) {
  case 0: w.begin(h); break;
  case 1: w.arrGet(h, someIndexOf(w, n)); break;
  case 2:
  case 3: w.objGet(h, someKeyOf(w, n), s.chance(1, 2)); break;
  case 4: w.next(h); break;
  }
}
static void capHandles(World &w) {
  int live = 0;
  for (auto &h : w.hs) live += h.live;
  while (live > 36) {
    int h = pickWhere(w, [&](const Hnd &x) { return x.n && x.n->parent; });
    if (h < 0) h = pick(w);
    w.hs[h].live = false;
    live--;
  }
}
static bool sizeOk(World &w, int v, int x) {
  if (!w.hs[x].n) return true;
  size_t t = weightOf(w.hs[x].n);
  if (w.hs[v].n) t += weightOf(World::rootOf(w.hs[v].n));
  return t < ((w.A->flags & VF_FLAG_NARROW) ? 6000u : 60000u);
}
static bool add(World &w, int v, int x, bool fast) {
  MNode *n = w.hs[v].n;
  bool obj = n && n->type == T_OBJ;
  if (!sizeOk(w, v, x)) return false;
  if (fast && !w.canMoveInto(v, x)) return false;
  if (w.s.chance(1, 12)) obj = !obj; // wrong container kind: must be refused
  if (obj) return fast ? w.objAddFast(v, x) : w.objAdd(v, x);
  return fast ? w.arrAddFast(v, x) : w.arrAdd(v, x);
}
void runHistory(World &w, const Profile &p) {
  Src &s = w.s;
  int checkMode = s.below(4); // 0: after every op; 1: often; 2: rarely; 3: only at the end
  if (p.minOps >= 100) checkMode |= 2;
  w.g.maxLit = (w.A->flags & VF_FLAG_NARROW) ? 2000 : s.chance(1, 12) ? 140000 : 300;
  if (w.A->flags & VF_FLAG_GO) w.g.noNul = false;
  int nal = p.allocs > 1 ? 1 + (int)s.below((uint32_t)p.allocs) : 1;
  for (int i = 0; i < nal; i++) w.newAllocator();
  int first = w.newValue(0);
  { // start from something structured most of the time
    Gen::DocOpt o;
    o.nodes = 10;
    switch (s.below(5)) {
    case 0: w.setArray(first); break;
    case 1: w.setObj(first); break;
    case 2: break;
    default: w.parse(first, w.g.doc(o), (int)s.below(3));
    }
  }
  int total = 0;
  for (int i = 0; i < NOPS; i++) total += p.w[i];
  int nops = p.minOps + (int)s.below((uint32_t)(p.maxOps - p.minOps + 1));
  int bigOps = 0;
  auto one = [&]() {
    int r = (int)s.below((uint32_t)total), op = 0;
    while (r >= p.w[op]) r -= p.w[op++];
    if (w.liveAllocs() == 0) w.newAllocator();
    int h = pick(w);
    if (h < 0) h = w.newValue(pickAlloc(w));
    int h2 = -1;
    bool readish = op == O_READ || op == O_TEXT || op == O_AUDIT || op == O_NAV || op == O_PARSEBAD || op == O_BADLIT || op == O_BADOP || op == O_COPY;
    std::vector<std::string> before;
    std::vector<char> liveBefore;
    int mutBefore = w.mutations;
    bool snap = p.snap && readish && bigOps < 400;
    if (snap) {
      before = w.snapshot();
      for (auto &x : w.hs) liveBefore.push_back(x.live);
    }
    w.ctx.mixin((uint64_t)op);
    switch (op) {
    case O_NEWVALUE:
      if (w.A->NewValueFrom && s.chance(1, 3)) h = w.newValueFrom(h);
      else h = w.newValue(pickAlloc(w));
      break;
    case O_NEWALLOC:
      if (w.liveAllocs() < 5 && w.allocs.size() < 50) h = w.newValue(w.newAllocator());
      break;
    case O_RELEASE:
      if (w.liveAllocs() > 1 || s.chance(1, 4)) {
        w.release(pickAlloc(w));
        h = -1;
      }
      break;
    case O_PARSE: {
      Gen::DocOpt o;
      o.nodes = 2 + (int)s.below(16);
      w.parse(h, w.g.doc(o), (int)s.below(3));
      break;
    }
    case O_PARSEBAD: {
      Gen::DocOpt o;
      o.nodes = 2 + (int)s.below(10);
      w.parse(h, s.chance(1, 5) ? w.g.soup() : w.g.mutate(w.g.doc(o)), (int)s.below(3));
      break;
    }
    case O_SCALAR:
      switch (s.below(4)) {
      case 0: w.setNull(h); break;
      case 1: w.setBool(h, s.chance(1, 2)); break;
      case 2:
        if (w.A->SetInt) {
          w.setInt(h, w.g.ll(), (int)s.below(3));
          break;
        } // fallthrough
      case 3:
        if (w.A->SetNum) w.setDouble(h, w.g.dbl(), s.chance(1, 2));
        break;
      }
      break;
    case O_LIT:
      if (s.chance(1, 2)) w.setLit(h, true, w.g.num(), (int)s.below(4));
      else w.setLit(h, false, w.g.strBody(40), (int)s.below(4));
      break;
    case O_BADLIT: {
      int k = (int)s.below(3), v = (int)s.below(4);
      std::string t = k == 0 ? w.g.badNum() : w.g.badBody();
      if (s.chance(1, 12)) t.insert(s.below((uint32_t)t.size() + 1), 1, '\0');
      if (k == 2) w.setKey(h, t, v);
      else w.setLit(h, k == 0, t, v);
      break;
    }
    case O_ESC:
      if (w.A->SetStrEscape) w.setEsc(h, w.g.bytes(60, true), s.chance(1, 2));
      break;
    case O_KEY: w.setKey(h, w.g.key(), (int)s.below(4)); break;
    case O_KEYESC:
      if (w.A->SetKeyEscape) w.setKeyEsc(h, w.g.bytes(20, true), s.chance(1, 2));
      break;
    case O_CONT:
      if (s.chance(1, 2)) w.setArray(h);
      else w.setObj(h);
      break;
    case O_SET:
      h2 = pick(w);
      if (sizeOk(w, h, h2)) w.set(h, h2);
      break;
    case O_SETFAST:
      h2 = pick(w);
      if (w.canMoveInto(h, h2)) w.setFast(h, h2);
      break;
    case O_ADD:
    case O_ADDFAST: {
      if (s.chance(7, 8)) {
        int c = pickWhere(w, [](const Hnd &x) { return x.n && (x.n->type == T_ARR || x.n->type == T_OBJ); });
        if (c >= 0) h = c;
      }
      bool obj = w.hs[h].n && w.hs[h].n->type == T_OBJ;
      if (obj && s.chance(5, 6)) h2 = pickWhere(w, [](const Hnd &x) { return x.n && x.n->hasKey; });
      if (h2 < 0) h2 = pick(w);
      add(w, h, h2, op == O_ADDFAST);
      break;
    }
    case O_XADD: { // content from another allocator
      int src = pickAlloc(w);
      if (w.liveAllocs() < 4 && w.allocs.size() < 50 && s.chance(1, 2)) src = w.newAllocator();
      h2 = w.newValue(src);
      size_t texts = w.kept.size();
      setSomething(w, h2);
      if (s.chance(2, 3)) w.setKey(h2, w.g.key(), (int)s.below(4));
      if (s.chance(1, 3)) {
        if (sizeOk(w, h, h2)) w.set(h, h2);
      } else {
        int c = pickWhere(w, [](const Hnd &x) { return x.n && (x.n->type == T_ARR || x.n->type == T_OBJ); });
        if (c >= 0) h = c;
        add(w, h, h2, false);
      }
      if (s.chance(1, 2)) { // the source goes away, and the texts it was made of
        int top = w.topHandle(h);
        w.release(src);
        for (size_t id = texts + 1; id <= w.kept.size(); id++) w.dropText((uint32_t)id);
        h = w.hs[top].live ? top : -1;
        h2 = -1;
      }
      break;
    }
    case O_FRESH: { // a new member or element
      int c = pickWhere(w, [](const Hnd &x) { return x.n && (x.n->type == T_ARR || x.n->type == T_OBJ); });
      if (c < 0) {
        c = h;
        if (s.chance(1, 2)) w.setArray(c);
        else w.setObj(c);
      }
      h = c;
      h2 = w.newValue(s.chance(4, 5) ? w.hs[c].a : pickAlloc(w));
      bool obj = w.hs[c].n->type == T_OBJ;
      if (obj && s.chance(1, 2)) w.setKey(h2, w.g.key(), (int)s.below(4));
      setSomething(w, h2);
      if (obj && w.hs[h2].n && !w.hs[h2].n->hasKey && s.chance(7, 8)) {
        if (w.A->SetKeyEscape && s.chance(1, 8)) w.setKeyEsc(h2, w.g.bytes(12, true), s.chance(1, 2));
        else w.setKey(h2, w.g.key(), (int)s.below(4));
      }
      add(w, c, h2, s.chance(1, 2));
      break;
    }
    case O_DEL: {
      int c = pickWhere(w, [](const Hnd &x) { return x.n && !x.n->kids.empty(); });
      if (c >= 0 && s.chance(9, 10)) h = c;
      MNode *n = w.hs[h].n;
      bool obj = n && n->type == T_OBJ;
      if (s.chance(1, 12)) obj = !obj;
      if (obj) w.objDel(h, someKeyOf(w, n));
      else w.arrDel(h, someIndexOf(w, n));
      break;
    }
    case O_COPY:
      if (!w.hs[h].n || weightOf(w.hs[h].n) < 30000) {
        int c = w.copy(h);
        if (c >= 0) h = c;
      }
      break;
    case O_MOVE: {
      int c = pickWhere(w, [](const Hnd &x) { return x.n && x.n->parent; });
      if (c >= 0 && s.chance(7, 8)) h = c;
      int par = -1;
      if (w.hs[h].n && w.hs[h].n->parent) {
        MNode *q = World::rootOf(w.hs[h].n);
        for (size_t i = 0; i < w.hs.size(); i++)
          if (w.hs[i].live && w.hs[i].n == q) par = (int)i;
      }
      w.move(h);
      h2 = par;
      break;
    }
    case O_NAV: nav(w, h); break;
    case O_DROP: { // the caller gives up the documents that lie in one of its texts and frees the text
      uint32_t best = 0;
      int users = 1 << 30;
      for (int t = 0; t < 5 && !w.kept.empty(); t++) {
        uint32_t id = 1 + s.below((uint32_t)w.kept.size());
        if (!w.textLive(id)) continue;
        int u = w.textUsers(id, false);
        if (u < users) users = u, best = id;
      }
      if (best && (users <= 4 || s.chance(1, 4))) {
        w.dropText(best);
        if (checkMode < 2) w.checkAll();
        h = -1;
      }
      break;
    }
    case O_FEED: // a result of the library becomes an argument of the next call
      h2 = s.chance(1, 3) ? h : pick(w);
      w.feedBack(h, h2);
      break;
    case O_READ: w.checkScalar(h); break;
    case O_TEXT: w.checkText(h); break;
    case O_AUDIT: w.audit(h); break;
    case O_BADOP: { // calls that must be refused
      switch (s.below(9)) {
      case 0: { // add to a non-container
        int v = pickWhere(w, [](const Hnd &x) { return !x.n || (x.n->type != T_ARR && x.n->type != T_OBJ); });
        h2 = pick(w);
        if (v >= 0 && w.canMoveInto(v, h2)) {
          h = v;
          switch (s.below(4)) {
          case 0: w.arrAdd(v, h2); break;
          case 1: w.objAdd(v, h2); break;
          case 2: w.arrAddFast(v, h2); break;
          case 3: w.objAddFast(v, h2); break;
          }
        }
        break;
      }
      case 1: { // add an empty value
        h2 = w.newValue(pickAlloc(w));
        switch (s.below(6)) {
        case 0: w.arrAdd(h, h2); break;
        case 1: w.objAdd(h, h2); break;
        case 2: w.arrAddFast(h, h2); break;
        case 3: w.objAddFast(h, h2); break;
        case 4: w.set(h, h2); break;
        case 5: w.setFast(h, h2); break;
        }
        break;
      }
      case 2: { // keyless member
        int o = pickWhere(w, [](const Hnd &x) { return x.n && x.n->type == T_OBJ; });
        int k = pickWhere(w, [](const Hnd &x) { return x.n && !x.n->hasKey; });
        if (o >= 0 && k >= 0 && w.canMoveInto(o, k)) {
          h = o;
          h2 = k;
          if (s.chance(1, 2)) w.objAdd(o, k);
          else w.objAddFast(o, k);
        }
        break;
      }
      case 3: w.arrDel(h, (w.hs[h].n ? w.hs[h].n->kids.size() : 0) + s.below(3)); break;
      case 4: w.objDel(h, w.g.key() + "#"); break;
      case 5: { // key of an array element
        int e = pickWhere(w, [](const Hnd &x) { return x.n && x.n->parent && x.n->parent->type == T_ARR; });
        if (e >= 0) {
          h = e;
          if (w.A->SetKeyEscape && s.chance(1, 4)) w.setKeyEsc(e, w.g.bytes(12, true), s.chance(1, 2));
          else w.setKey(e, w.g.key(), (int)s.below(4));
        }
        break;
      }
      case 6: w.objGet(h, w.g.key() + "#", s.chance(1, 2)); break;
      case 7: w.arrGet(h, (w.hs[h].n ? w.hs[h].n->kids.size() : 0) + s.below(3)); break;
      case 8:
        if (w.A->SetNum) {
          static const double B[] = {HUGE_VAL, -HUGE_VAL};
          w.setDouble(h, s.chance(1, 3) ? __builtin_nan("") : B[s.below(2)], s.chance(1, 2));
        }
        break;
      }
      break;
    }
    }
    bigOps++;
    if (snap && w.mutations == mutBefore) {
      std::vector<std::string> after;
      size_t k = 0;
      for (size_t i = 0; i < liveBefore.size(); i++) {
        if (!liveBefore[i]) continue;
        const char *t = w.A->Stringify(w.hs[i].p);
        CHECK(t && before[k] == t, "a read or refused call changed another read's result: \"%s\" became \"%s\"", show(before[k]).c_str(), show(t).c_str());
        k++;
      }
    }
    capHandles(w);
    bool chk = checkMode == 0 || (checkMode == 1 && s.below(3) == 0) || (checkMode == 2 && s.below(10) == 0);
    if (chk) {
      for (int q : {h, h2})
        if (q >= 0 && w.hs[q].live) {
          w.checkText(w.topHandle(q));
          if (w.topHandle(q) != q) w.checkText(q);
        }
    }
    if (checkMode < 3 && s.below(12) == 11) {
      w.checkAll();
      w.checkRemembered();
    }
    if (checkMode < 2 && s.below(10) == 9 && h >= 0 && w.hs[h].live) w.audit(w.topHandle(h));
  };
  for (int step = 0; step < nops; step++) {
    if (w.exec) w.exec(one);
    else one();
  }
  if (w.brief) { // release right after the last step
    w.finish();
    return;
  }
  // final reading of everything
  w.checkAll();
  for (auto &x : w.hs)
    if (x.live && x.n && !x.n->parent) w.ctx.mixin(oracle::dump(x.n));
  for (size_t i = 0, k = 0; i < w.hs.size() && k < 8; i++)
    if (w.hs[i].live && (!w.hs[i].n || !w.hs[i].n->parent)) w.audit((int)i), k++;
  for (size_t i = 0; i < w.hs.size(); i++)
    if (w.hs[i].live) w.checkScalar((int)i);
  // every non-empty document is valid JSON and parses back to an equal document
  int rt = 0;
  for (size_t i = 0; i < w.hs.size() && rt < 4; i++) {
    if (!w.hs[i].live || !w.hs[i].n || w.hs[i].n->parent) continue;
    std::string t = w.A->Stringify(w.hs[i].p);
    CHECK(oracle::accepts(t), "after the history a value serialises to \"%s\", which is not JSON", show(t).c_str());
    int h = w.newValue(w.hs[i].a);
    CHECK(w.parse(h, t, (int)s.below(3)), "the serialised text does not parse back");
    w.checkText(h);
    w.audit(h);
    rt++;
  }
  w.checkRemembered();
  w.finish();
}
