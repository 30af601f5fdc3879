#include "oracle.h"
namespace oracle {
static int hexv(unsigned char c) {
  if (c >= '0' && c <= '9') return c - '0';
  c |= 0x20;
  if (c >= 'a' && c <= 'f') return c - 'a' + 10;
  return -1;
}
static int hex4(const char *p) { // p has 4 readable bytes
  int v = 0;
  for (int i = 0; i < 4; i++) {
    int h = hexv((unsigned char)p[i]);
    if (h < 0) return -1;
    v = v * 16 + h;
  }
  return v;
}
// length of one string element (character or escape) at p, 0 if invalid there
static size_t strElem(const char *p, size_t n) {
  unsigned char c = (unsigned char)p[0];
  if (c < 0x20 || c == '"') return 0;
  if (c != '\\') return 1;
  if (n < 2) return 0;
  if (strchr("\"\\/bfnrt", p[1]) && p[1]) return 2;
  if (p[1] != 'u' || n < 6) return 0;
  int a = hex4(p + 2);
  if (a < 0 || (a >= 0xDC00 && a <= 0xDFFF)) return 0;
  if (a < 0xD800 || a > 0xDBFF) return 6;
  if (n < 12 || p[6] != '\\' || p[7] != 'u') return 0;
  int b = hex4(p + 8);
  return b >= 0xDC00 && b <= 0xDFFF ? 12 : 0;
}
bool strBody(const char *p, size_t n) {
  for (size_t i = 0; i < n;) {
    size_t k = strElem(p + i, n - i);
    if (!k) return false;
    i += k;
  }
  return true;
}
// longest number prefix, 0 if none
static size_t numPrefix(const char *p, size_t n) {
  size_t i = 0;
  auto dig = [&](size_t k) { return k < n && p[k] >= '0' && p[k] <= '9'; };
  if (i < n && p[i] == '-') i++;
  if (!dig(i)) return 0;
  if (p[i] == '0')
    i++;
  else
    while (dig(i)) i++;
  if (i < n && p[i] == '.') {
    size_t j = i + 1;
    if (!dig(j)) return 0;
    while (dig(j)) j++;
    i = j;
  }
  if (i < n && (p[i] == 'e' || p[i] == 'E')) {
    size_t j = i + 1;
    if (j < n && (p[j] == '+' || p[j] == '-')) j++;
    if (!dig(j)) return 0;
    while (dig(j)) j++;
    i = j;
  }
  return i;
}
bool number(const char *p, size_t n) { return n && numPrefix(p, n) == n; }
bool isIntLit(const std::string &s) { return number(s) && s.find_first_of(".eE") == std::string::npos; }

// Builds the tree when pool != null.
static bool run(const std::string &t, Pool *pool, MNode **out) {
  const char *p = t.data();
  size_t n = t.size(), i = 0;
  std::vector<char> st; // open containers: '[' '{'
  std::vector<MNode *> nodes;
  MNode *root = nullptr;
  auto ws = [&] {
    while (i < n && (p[i] == ' ' || p[i] == '\t' || p[i] == '\n' || p[i] == '\r')) i++;
  };
  auto str = [&](std::string *o) -> bool { // at opening quote
    if (i >= n || p[i] != '"') return false;
    size_t b = ++i;
    while (i < n && p[i] != '"') {
      size_t k = strElem(p + i, n - i);
      if (!k) return false;
      i += k;
    }
    if (i >= n) return false;
    if (o) o->assign(p + b, i - b);
    i++;
    return true;
  };
  std::string key, lit;
  bool haveKey = false;
  enum { VALUE, AFTER } state = VALUE;
  bool first = false; // just after an opening bracket
  for (;;) {
    ws();
    if (state == VALUE) {
      haveKey = false;
      if (!st.empty() && first) {
        if (i < n && ((st.back() == '[' && p[i] == ']') || (st.back() == '{' && p[i] == '}'))) {
          i++;
          st.pop_back();
          if (pool) nodes.pop_back();
          state = AFTER;
          first = false;
          continue;
        }
      }
      first = false;
      if (!st.empty() && st.back() == '{') {
        if (!str(pool ? &key : nullptr)) return false;
        haveKey = true;
        ws();
        if (i >= n || p[i] != ':') return false;
        i++;
        ws();
      }
      if (i >= n) return false;
      int type = 0;
      char c = p[i];
      if (c == '[' || c == '{') {
        type = c == '[' ? T_ARR : T_OBJ;
        i++;
      } else if (c == '"') {
        if (!str(pool ? &lit : nullptr)) return false;
        type = T_STR;
      } else if (n - i >= 4 && !memcmp(p + i, "null", 4)) {
        type = T_NULL, lit = "null", i += 4;
      } else if (n - i >= 4 && !memcmp(p + i, "true", 4)) {
        type = T_BOOL, lit = "true", i += 4;
      } else if (n - i >= 5 && !memcmp(p + i, "false", 5)) {
        type = T_BOOL, lit = "false", i += 5;
      } else {
        size_t k = numPrefix(p + i, n - i);
        if (!k) return false;
        type = T_NUM;
        if (pool) lit.assign(p + i, k);
        i += k;
      }
      if (pool) {
        MNode *m = pool->make(type);
        m->lit.clear();
        if (type != T_ARR && type != T_OBJ) m->lit = lit;
        m->hasKey = haveKey;
        if (haveKey) m->key = key;
        if (nodes.empty())
          root = m;
        else {
          m->parent = nodes.back();
          nodes.back()->kids.push_back(m);
        }
        if (type == T_ARR || type == T_OBJ) nodes.push_back(m);
      }
      if (type == T_ARR || type == T_OBJ) {
        st.push_back(c);
        first = true;
        continue;
      }
      state = AFTER;
    } else {
      if (st.empty()) {
        if (i != n) return false;
        if (out) *out = root;
        return true;
      }
      if (i >= n) return false;
      if (p[i] == ',') {
        i++;
        state = VALUE;
        continue;
      }
      if ((p[i] == ']' && st.back() == '[') || (p[i] == '}' && st.back() == '{')) {
        i++;
        st.pop_back();
        if (pool) nodes.pop_back();
        continue;
      }
      return false;
    }
  }
}
bool accepts(const std::string &t) { return run(t, nullptr, nullptr); }
MNode *parse(const std::string &t, Pool &pool) {
  MNode *r = nullptr;
  return run(t, &pool, &r) ? r : nullptr;
}
static void utf8(unsigned cp, std::string &o) {
  if (cp < 0x80)
    o += (char)cp;
  else if (cp < 0x800) {
    o += (char)(0xC0 + cp / 64);
    o += (char)(0x80 + cp % 64);
  } else if (cp < 0x10000) {
    o += (char)(0xE0 + cp / 4096);
    o += (char)(0x80 + cp / 64 % 64);
    o += (char)(0x80 + cp % 64);
  } else {
    o += (char)(0xF0 + cp / 262144);
    o += (char)(0x80 + cp / 4096 % 64);
    o += (char)(0x80 + cp / 64 % 64);
    o += (char)(0x80 + cp % 64);
  }
}
std::string decode(const std::string &b) {
  std::string o;
  for (size_t i = 0; i < b.size();) {
    if (b[i] != '\\') {
      o += b[i++];
      continue;
    }
    switch (b[i + 1]) {
    case 'b': o += '\x08'; i += 2; break;
    case 'f': o += '\x0c'; i += 2; break;
    case 'n': o += '\x0a'; i += 2; break;
    case 'r': o += '\x0d'; i += 2; break;
    case 't': o += '\x09'; i += 2; break;
    case 'u': {
      unsigned cp = (unsigned)hex4(&b[i + 2]);
      i += 6;
      if (cp >= 0xD800 && cp < 0xDC00) {
        unsigned lo = (unsigned)hex4(&b[i + 2]);
        cp = 0x10000 + (cp - 0xD800) * 0x400 + (lo - 0xDC00);
        i += 6;
      }
      utf8(cp, o);
      break;
    }
    default: o += b[i + 1]; i += 2;
    }
  }
  return o;
}
void dump(const MNode *root, std::string &out) {
  struct Fr {
    const MNode *n;
    size_t i;
  };
  std::vector<Fr> st;
  auto open = [&](const MNode *m) {
    switch (m->type) {
    case T_ARR: out += '['; st.push_back({m, 0}); break;
    case T_OBJ: out += '{'; st.push_back({m, 0}); break;
    case T_STR: out += '"'; out += m->lit; out += '"'; break;
    default: out += m->lit;
    }
  };
  open(root);
  while (!st.empty()) {
    Fr &f = st.back();
    if (f.i == f.n->kids.size()) {
      out += f.n->type == T_ARR ? ']' : '}';
      st.pop_back();
      continue;
    }
    const MNode *k = f.n->kids[f.i];
    if (f.i++) out += ',';
    if (f.n->type == T_OBJ) {
      out += '"';
      out += k->key;
      out += "\":";
    }
    open(k);
  }
}
bool goodEscape(const std::string &in, const std::string &b) {
  size_t j = 0;
  for (size_t i = 0; i < in.size(); i++) {
    unsigned char c = (unsigned char)in[i];
    if (j >= b.size()) return false;
    if (c < 0x20 || c == '"' || c == '\\') {
      if (b[j] != '\\') return false;
      size_t k = strElem(b.data() + j, b.size() - j);
      if (k != 2 && k != 6) return false;
      if (decode(b.substr(j, k)) != std::string(1, (char)c)) return false;
      j += k;
    } else {
      if (b[j] != (char)c) return false;
      j++;
    }
  }
  return j == b.size();
}
}
