// Independent reading of JSON: grammar, minified text, tree, escape codec. Shares no code with the library.
#pragma once
#include "core.h"
struct MNode {
  int type = T_NULL;
  bool hasKey = false;
  std::string key; // raw
  std::string lit; // raw literal: string body, number, "true"/"false"/"null"
  std::vector<MNode *> kids;
  MNode *parent = nullptr;
  uint64_t deps = 0; // allocators whose memory the node uses
  uint32_t litText = 0, keyText = 0; // caller's text (1-based) the literal / key lies in; 0: library memory
  bool dead = false; // content that was overwritten: handles to it are invalid
};
struct Pool {
  std::deque<MNode> v;
  MNode *make(int type = T_NULL) {
    v.emplace_back();
    v.back().type = type;
    if (type == T_NULL) v.back().lit = "null";
    return &v.back();
  }
};
namespace oracle {
bool strBody(const char *p, size_t n);                 // valid JSON string body?
inline bool strBody(const std::string &s) { return strBody(s.data(), s.size()); }
bool number(const char *p, size_t n);
inline bool number(const std::string &s) { return number(s.data(), s.size()); }
bool accepts(const std::string &text);                 // whole text is one JSON value
MNode *parse(const std::string &text, Pool &pool);     // nullptr if not JSON
std::string decode(const std::string &body);           // of a valid string body
void dump(const MNode *n, std::string &out);           // minified text (iterative)
inline std::string dump(const MNode *n) {
  std::string s;
  if (n) dump(n, s);
  return s;
}
// escaped form must decode to `in`, with exactly the bytes that need it escaped
bool goodEscape(const std::string &in, const std::string &body);
bool isIntLit(const std::string &lit); // number literal without fraction and exponent
}
