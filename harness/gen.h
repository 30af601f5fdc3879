#pragma once
#include "oracle.h"
struct Gen {
  Src &s;
  size_t maxLit = 70000; // cap for a single literal
  std::vector<std::string> keys; // reused keys
  bool noNul = false;    // never produce \u0000 (C-string comparisons stay exact either way)
  explicit Gen(Src &src) : s(src) {}
  size_t len(size_t max);          // boundary-heavy length
  std::string strBody(size_t max = 64); // valid body; max is the usual size, long ones happen rarely
  std::string num();               // valid number literal
  std::string key();               // valid raw key, often reused / similar
  std::string ws();
  struct DocOpt {
    int nodes = 12;   // budget
    int depth = 8;
    bool ws = true;
    size_t lit = 24;
  };
  std::string doc(const DocOpt &o); // valid text
  std::string mutate(const std::string &t); // usually invalid
  std::string soup();              // token soup / raw bytes
  std::string badBody();           // probably invalid string body
  std::string badNum();            // probably invalid number
  std::string bytes(size_t max, bool nul); // arbitrary bytes
  double dbl();                    // any double incl. nan/inf
  long long ll();

private:
  void value(std::string &o, const DocOpt &opt, int &budget, int depth);
};
