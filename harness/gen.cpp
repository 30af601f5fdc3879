#include "gen.h"
#include <algorithm>
#include <climits>
#include <cmath>
size_t Gen::len(size_t max) {
  if (max > maxLit) max = maxLit;
  size_t n;
  switch (s.below(8)) {
  default: n = s.below(6); break;
  case 4: n = s.below(24); break;
  case 5: n = s.below(200); break;
  case 6:
  case 7: {
    uint32_t k = 3 + s.below(max > 20000 && s.chance(1, 4) ? 15 : 12); // 8 .. 16384, seldom 131072
    n = (1u << k) + s.below(7);
    n = n >= 3 ? n - 3 : 0;
    break;
  }
  }
  if (n > max) n = max ? n % (max + 1) : 0;
  return n;
}
static const char *kBS[] = {"\\\"", "\\\\", "\\/", "\\b", "\\f", "\\n", "\\r", "\\t"};
static std::string u4(unsigned v, unsigned caseMask) {
  char b[8];
  snprintf(b, sizeof b, "%04x", v);
  for (int i = 0; i < 4; i++)
    if ((caseMask >> i & 1) && b[i] >= 'a') b[i] = (char)(b[i] - 32);
  return std::string("\\u") + b;
}
static unsigned cpEdge(Src &s) {
  static const unsigned E[] = {0x41,   0x20,   0x22,   0x5c,   0x2f,   0x7f,   0x80,   0x7ff,  0x800,  0xfff, 0x1000,
                               0xd7ff, 0xe000, 0xfffd, 0xffff, 0x1f,   0x08,   0x0a,   0xabcd, 0xface, 0x1,   0xfeff};
  return E[s.below(sizeof E / sizeof *E)];
}
std::string Gen::strBody(size_t max) {
  std::string o;
  size_t n = len(s.chance(1, 24) ? maxLit : max);
  int style = s.below(6);
  if (n > 600 || style == 0) { // bulk: cheap in choices
    static const char *fillers[] = {"a", "\xe4\xb8\xad", "\\n", "\\u00e9", "xy", "\xff"};
    std::string f = fillers[s.below(6)];
    while (o.size() + f.size() <= n) o += f;
    while (o.size() < n) o += 'z';
    if (s.chance(1, 2)) { // special elements at random places between elements
      static const char *SP[] = {"\\ud83d\\ude00", "\\\\", "\\\"", "\\u0041", "\\u00e9", "\\uffff", "\xf0\x9f\x98\x80", "\\t", "/", "\\/", "\x7f", "\xc3\xa9"};
      int cnt = 1 + (int)s.below(3);
      while (cnt--) {
        size_t el = n / f.size(), at;
        switch (s.below(5)) {
        case 0: at = 0; break;
        case 1: at = el; break;
        case 2: at = el - std::min<size_t>(el, s.below(4)); break;
        default: at = s.below((uint32_t)el + 1);
        }
        at *= f.size();
        std::string x = SP[s.below(sizeof SP / sizeof *SP)];
        std::string r = o.substr(0, at) + x + o.substr(at);
        if (oracle::strBody(r)) o = r; // inserted inside an earlier special: skip
      }
    }
    return o;
  }
  while (o.size() < n) {
    switch (style == 1 ? 0 : s.below(10)) {
    default: o += (char)('a' + s.below(26)); break;
    case 3: {
      static const char C[] = " !#%&'()*+,-.0129:;<=>?@[]^_`{|}~\x7f/ue";
      o += C[s.below(sizeof C - 1)];
      break;
    }
    case 4: o += kBS[s.below(8)]; break;
    case 5: {
      unsigned v = s.chance(1, 2) ? cpEdge(s) : s.below(65536);
      if (v >= 0xD800 && v <= 0xDFFF) v &= 0x7ff;
      if (noNul && v == 0) v = 1;
      o += u4(v, s.below(16));
      break;
    }
    case 6: {
      static const unsigned HI[] = {0xd800, 0xd801, 0xdbff, 0xdbfe, 0xd83d, 0xda00};
      static const unsigned LO[] = {0xdc00, 0xdc01, 0xdfff, 0xdffe, 0xde00};
      unsigned h = s.chance(1, 2) ? 0xd800 + s.below(1024) : HI[s.below(6)];
      unsigned l = s.chance(1, 2) ? 0xdc00 + s.below(1024) : LO[s.below(5)];
      o += u4(h, s.below(16));
      o += u4(l, s.below(16));
      break;
    }
    case 7: o += (char)(0x80 + s.below(128)); break;
    case 8: {
      static const char *U[] = {"\xc3\xa9", "\xe4\xb8\xad\xe6\x96\x87", "\xf0\x9f\x98\x80", "\xef\xbf\xbf", "\xed\x9f\xbf"};
      o += U[s.below(5)];
      break;
    }
    }
  }
  return o;
}
double Gen::dbl() {
  double d;
  switch (s.below(10)) {
  default: {
    uint64_t u = s.u64();
    memcpy(&d, &u, 8);
    return d;
  }
  case 0: return (double)s.below(100);
  case 1: return -(double)s.below(65536) / 8;
  case 2: {
    static const double E[] = {0.0, -0.0, 1e308, 1.7976931348623157e308, -1.7976931348623157e308, 2.2250738585072014e-308,
                               4.9406564584124654e-324, -4.9406564584124654e-324, 2.2250738585072009e-308, 0.1, 1.0 / 3,
                               9007199254740991.0, 9007199254740993.0, 1e21, 1e22, 1e23, 123456789012345678.0, 5e-324,
                               1e15, 1e16, 1e17, 1e18, 1e-4, 1e-5, 99999999999999990.0, 0.30000000000000004};
    return E[s.below(sizeof E / sizeof *E)];
  }
  case 3: {
    static const double S[] = {NAN, INFINITY, -INFINITY};
    return S[s.below(3)];
  }
  case 4: return std::ldexp(1.0, (int)s.below(2098) - 1074);
  case 5: return std::pow(10.0, (int)s.below(632) - 324);
  case 6: return (double)ll();
  case 7: {
    uint64_t u = (uint64_t)s.below(2) << 63 | (uint64_t)(s.below(2047)) << 52 | (s.u64() >> (12 + s.below(52)));
    memcpy(&d, &u, 8);
    return d;
  }
  }
}
long long Gen::ll() {
  switch (s.below(6)) {
  default: return (long long)s.u64();
  case 0: return s.below(20);
  case 1: return -(long long)s.below(2000);
  case 2: {
    static const long long E[] = {INT_MAX, INT_MIN, LLONG_MAX, LLONG_MIN, (long long)INT_MAX + 1, (long long)INT_MIN - 1,
                                  1LL << 53, (1LL << 53) + 1, -1, 1000000000, 999999999, 0, UINT_MAX, 9999999999LL};
    return E[s.below(sizeof E / sizeof *E)];
  }
  case 3: {
    long long v = (long long)(s.u64() >> (1 + s.below(63)));
    return s.chance(1, 2) ? -v : v;
  }
  }
}
std::string Gen::num() {
  char b[512];
  switch (s.below(12)) {
  default: snprintf(b, sizeof b, "%u", s.below(1000)); return b;
  case 3: snprintf(b, sizeof b, "%lld", ll()); return b;
  case 4: {
    double d = dbl();
    if (!std::isfinite(d)) d = 0.5;
    {
      int digits = (int)s.range(1, 40);
      CLocale in;
      snprintf(b, sizeof b, "%.*g", digits, d);
    }
    return b;
  }
  case 5: {
    double d = dbl();
    if (!std::isfinite(d)) d = -0.5;
    {
      int digits = (int)s.range(0, 30);
      CLocale in;
      snprintf(b, sizeof b, "%.*e", digits, d);
    }
    return b;
  }
  case 6: {
    static const char *E[] = {"0", "-0", "0.0", "-0.0", "0e0", "-0E-0", "0E+00", "1e5", "1E5", "1e+5", "1e-5", "1.5e00012",
                              "9007199254740993", "9007199254740992.999999999999999999999999999999", "18446744073709551616",
                              "9223372036854775807", "-9223372036854775808", "2147483647", "-2147483648", "4294967295",
                              "1.00000000000000011102230246251565404236316680908203125",
                              "1.00000000000000011102230246251565404236316680908203124",
                              "1.00000000000000011102230246251565404236316680908203126", "2.2250738585072011e-308",
                              "2.2250738585072012e-308", "4.9e-324", "2.4703282292062327e-324", "2.4703282292062328e-324",
                              "1.7976931348623157e308", "1.7976931348623158e308", "1.7976931348623159e308", "1e400", "-1e400",
                              "1e-400", "8.5e22", "6.02214076E+23", "1e0000000000000000000000000000000001", "100e-2",
                              "0.000000000000000000000000000000000000000000000000000000000001e60",
                              "1e99999999999999999999", "-1E-99999999999999999999", "0e99999999999999999999", "123456789012345678901234567890", "1E309", "4.94e-325"};
    return E[s.below(sizeof E / sizeof *E)];
  }
  case 7:
  case 8: { // long literals around buffer sizes
    std::string o = s.chance(1, 3) ? "-" : "";
    size_t n = s.chance(1, 2) ? s.range(115, 135) : len(s.chance(1, 8) ? 20000 : 700);
    if (n < 1) n = 1;
    int form = s.below(4);
    if (form == 0) { // integer digits
      o += (char)('1' + s.below(9));
      while (o.size() < n) o += (char)('0' + (n > 300 ? (o.size() * 7) % 10 : s.below(10)));
    } else if (form == 1) { // 0.ddd
      o += "0.";
      while (o.size() < n || o.back() == '.') o += (char)('0' + (n > 300 ? (o.size() * 3) % 10 : s.below(10)));
    } else if (form == 2) { // d.dddE-xx
      o += (char)('1' + s.below(9));
      o += '.';
      while (o.size() < n || o.back() == '.') o += (char)('0' + (n > 300 ? (o.size() * 3) % 10 : s.below(10)));
      snprintf(b, sizeof b, "%c%s%u", s.chance(1, 2) ? 'E' : 'e', s.chance(1, 2) ? "-" : (s.chance(1, 2) ? "+" : ""), s.below(400));
      o += b;
    } else { // 000-padded forms that keep the value an in-range integer are only possible in exponents
      o += (char)('1' + s.below(9));
      o += "e";
      if (s.chance(1, 2)) o += s.chance(1, 2) ? "+" : "-";
      while (o.size() < n) o += '0';
      o += (char)('0' + s.below(10));
    }
    return o;
  }
  case 9: {
    std::string o = s.chance(1, 2) ? "-" : "";
    o += s.chance(1, 3) ? std::string("0") : std::to_string(1 + s.below(100000));
    if (s.chance(1, 2)) {
      o += '.';
      size_t k = 1 + s.below(6);
      for (size_t i = 0; i < k; i++) o += (char)('0' + s.below(10));
    }
    if (s.chance(1, 2)) {
      o += s.chance(1, 2) ? 'E' : 'e';
      if (s.chance(1, 2)) o += s.chance(1, 2) ? '+' : '-';
      o += std::to_string(s.below(330));
    }
    return o;
  }
  }
}
std::string Gen::key() {
  static const char *K[] = {"a",      "b",    "",     "aa",  "ab",  "abc", "A",      "\\u0061", "\\n",     "k1",
                            "k10",    "k",    "id",   "\\\"", "\\\\", "/",   "\\/",    "\xc3\xa9", "\\u00e9", "aaa",
                            "\\u0000", "key with space", "\\ud83d\\ude00", "null", "0", "aab", "b\\u0000", "ba"};
  if (!keys.empty() && s.chance(1, 3)) return keys[s.below((uint32_t)keys.size())];
  std::string k;
  switch (s.below(6)) {
  default: k = K[s.below(sizeof K / sizeof *K)]; break;
  case 4: k = strBody(16); break;
  case 5:
    if (!keys.empty()) { // a near miss of an existing key
      k = keys[s.below((uint32_t)keys.size())];
      switch (s.below(8)) {
      case 4:
      case 5: // same length, one byte changed anywhere
        if (!k.empty()) {
          size_t at = s.below((uint32_t)k.size());
          k[at] = (char)(k[at] == 'q' ? 'r' : 'q');
        }
        break;
      case 6: // two bytes exchanged
        if (k.size() > 1) {
          size_t x = s.below((uint32_t)k.size()), y = s.below((uint32_t)k.size());
          std::swap(k[x], k[y]);
        }
        break;
      case 7: k = k + k; break;
      case 0: k += "a"; break;
      case 1: if (!k.empty() && oracle::strBody(k.substr(0, k.size() - 1))) k.pop_back(); break;
      case 2: k = "a" + k; break;
      case 3:
        if (!k.empty() && (unsigned char)k.back() > 0x60 && oracle::strBody(k.substr(0, k.size() - 1))) k.back() = 'z';
        break;
      }
    } else
      k = strBody(200);
  }
  if (noNul) {
    size_t q;
    while ((q = k.find("\\u0000")) != std::string::npos) k.replace(q, 6, "\\u0001");
  }
  if (!oracle::strBody(k)) k = "fallback";
  if (keys.size() < 12) keys.push_back(k);
  return k;
}
std::string Gen::ws() {
  if (!s.chance(1, 3)) return "";
  std::string o;
  size_t n = 1 + s.below(3);
  if (s.chance(1, 60)) n = len(3000);
  int st = s.below(5);
  for (size_t i = 0; i < n; i++) o += " \t\n\r"[st < 4 ? (st + (n > 16 ? i : s.below(4))) % 4 : s.below(4)];
  return o;
}
void Gen::value(std::string &o, const DocOpt &opt, int &budget, int depth) {
  budget--;
  int k = s.below(depth >= opt.depth || budget <= 0 ? 6 : 12);
  switch (k) {
  case 0: o += "null"; break;
  case 1: o += num(); break;
  case 2:
  case 3:
    o += '"';
    o += strBody(opt.lit);
    o += '"';
    break;
  case 4: o += s.chance(1, 2) ? "true" : "false"; break;
  case 5: o += s.chance(1, 2) ? "[]" : "{}"; break;
  default: {
    bool arr = k < 9;
    o += arr ? '[' : '{';
    int n = s.below(4) ? (int)s.below(4) : (int)s.below(10);
    if (s.chance(1, 40)) n = (int)s.below(80);
    if (s.chance(1, 200)) { // a wide container of cheap members
      n = (int)s.below(700);
      for (int i = 0; i < n; i++) {
        if (i) o += ',';
        if (!arr) o += (i % 5 == 4 ? std::string("\"\"") : "\"k" + std::to_string(i % 97) + "\"") + ":";
        o += i % 3 ? std::to_string(i) : i % 2 ? "\"\"" : "[]";
      }
      o += arr ? ']' : '}';
      break;
    }
    if (opt.ws) o += ws();
    for (int i = 0; i < n && (i == 0 || budget > 0); i++) {
      if (i) {
        o += ',';
        if (opt.ws) o += ws();
      }
      if (!arr) {
        o += '"';
        o += key();
        o += '"';
        if (opt.ws) o += ws();
        o += ':';
        if (opt.ws) o += ws();
      }
      value(o, opt, budget, depth + 1);
      if (opt.ws) o += ws();
    }
    o += arr ? ']' : '}';
  }
  }
}
std::string Gen::doc(const DocOpt &opt) {
  std::string o;
  int budget = opt.nodes;
  if (opt.ws) o += ws();
  int nest = s.chance(1, 6) ? (int)s.below(s.chance(1, 6) ? 400 : 20) : 0; // a deep spine around the value
  std::string close;
  for (int i = 0; i < nest; i++) {
    switch (s.below(4)) {
    case 0: o += '['; close += ']'; break;
    case 1: o += "{\"" + key() + "\":"; close += '}'; break;
    case 2: o += "[" + num() + ","; close += ']'; break;
    case 3: o += '['; close += "]0,"; break; // reversed below: [ ... ,0]
    }
  }
  value(o, opt, budget, 0);
  for (size_t i = close.size(); i--;) o += close[i];
  if (opt.ws) o += ws();
  return o;
}
std::string Gen::mutate(const std::string &t) {
  static const char *INS[] = {",", ":", "\"", "[", "]", "{", "}", "0", "-", ".", "e", "E", "+", "\\", "u", "n", "t", "f", " ", "\t",
                              "\n", "\r", "\x0b", "\x0c", "\x1f", "\x7f", "\x80", "\xff", "/", "null", "true", "false", "'", "\\u",
                              "\\ud800", "\\udc00", "\\ud800\\u0041", "\\x", "01", "1.", ".1", "1e", "--1", "+1", "nul", "tru", "fals",
                              "True", "NULL", "nan", "Infinity", "/**/", "//", "\xef\xbb\xbf", "[]", "{}", "\"\"", "\"a\":1", ",,", "]]", "}}"};
  std::string o = t;
  int times = 1 + (s.chance(1, 4) ? (int)s.below(3) : 0);
  while (times--) {
    size_t at = s.below((uint32_t)o.size() + 1);
    switch (s.below(9)) {
    case 0: if (at < o.size()) o.erase(at, 1); break;
    case 1: o.resize(at); break;
    case 2:
    case 3: o.insert(at, INS[s.below(sizeof INS / sizeof *INS)]); break;
    case 4: if (at < o.size()) o[at] = INS[s.below(sizeof INS / sizeof *INS)][0]; break;
    case 5: if (at < o.size()) o[at] = (char)s.byte(); break;
    case 6: o += INS[s.below(sizeof INS / sizeof *INS)]; break;
    case 7: { // drop a range
      size_t k = s.below(6);
      if (at < o.size()) o.erase(at, k);
      break;
    }
    case 8: { // swap bracket kinds
      for (size_t i = at; i < o.size(); i++) {
        const char *a = "[]{}", *b = "{}[]";
        const char *q = o[i] ? strchr(a, o[i]) : nullptr;
        if (q) {
          o[i] = b[q - a];
          break;
        }
      }
      break;
    }
    }
  }
  return o;
}
std::string Gen::soup() {
  static const char *TK[] = {"[", "]", "{", "}", ",", ":", "\"", "\"a\"", "\"\"", "1", "0", "-", "-1", "1.5", "1e3", "true", "false", "null",
                             " ", "\n", "\\", "\\u0041", "\\n", "a", "e", "E", "+", ".", "t", "n", "f", "00", "\"k\":", "[]", "{}", "\x01"};
  std::string o;
  size_t n = len(40);
  if (s.chance(1, 5)) {
    for (size_t i = 0; i < n; i++) o += (char)s.byte();
    return o;
  }
  for (size_t i = 0; i < n; i++) o += TK[s.below(sizeof TK / sizeof *TK)];
  return o;
}
std::string Gen::badBody() {
  static const char *B[] = {"\"", "\\", "\\u", "\\u1", "\\u12", "\\u123", "\\u12g4", "\\ud800", "\\udbff", "\\udc00", "\\udfff", "\\ud800x",
                            "\\ud800\\n", "\\ud800\\u0041", "\\ud800\\ud800", "\\ud800\\ue000", "\\ud800\\udc0", "\\x", "\\0", "\\U0041", "\\'",
                            "\x01", "\x1f", "\n", "\t", "\\ud800\\udbff", "\\u00G0", "\\u 041", "\\a", "\\v", "\\ud800u", "\\ud800\\"};
  std::string o = strBody(s.chance(1, 6) ? 4000 : 24);
  std::string x = B[s.below(sizeof B / sizeof *B)];
  switch (s.below(4)) {
  case 0: return x;
  case 1: return x + o;
  case 2: return o + x;
  default:
    if (s.chance(1, 3)) {
      o.insert(s.below((uint32_t)o.size() + 1), x);
      return o;
    }
    return mutate(o);
  }
}
std::string Gen::badNum() {
  static const char *B[] = {"", "-", "+1", "01", "00", "-01", "1.", ".5", "1.e5", "1e", "1e+", "1E-", "1e5.5", "0x10", "1 ", " 1", "1a", "--1",
                            "1-", "1.5.5", "1,5", "Infinity", "-Infinity", "NaN", "nan", "inf", "1_0", "-a", "0.", "-.5", "1e5e5", "1f", "1L", "٣"};
  switch (s.below(3)) {
  case 0: return B[s.below(sizeof B / sizeof *B)];
  case 1: return mutate(num());
  default: return num() + B[s.below(sizeof B / sizeof *B)];
  }
}
std::string Gen::bytes(size_t max, bool nul) {
  size_t n = len(max);
  std::string o;
  int st = s.below(4);
  unsigned seed = n > 400 ? s.byte() : 0;
  for (size_t i = 0; i < n; i++) {
    unsigned char c;
    unsigned r = n > 400 ? (unsigned)mix64(seed * 1000003ull + i) & 255 : s.byte();
    if (st == 0)
      c = (unsigned char)('a' + r % 26);
    else if (st == 1)
      c = (unsigned char)"\"\\/\b\f\n\r\t\x01\x1f\x7f\x20 ab\xc3\xa9"[r % 17];
    else
      c = (unsigned char)r;
    if (!c && !nul) c = '0';
    o += (char)c;
  }
  return o;
}
