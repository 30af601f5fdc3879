#pragma once
#include "world.h"
enum Op {
  O_NEWVALUE, O_NEWALLOC, O_RELEASE, O_PARSE, O_PARSEBAD, O_SCALAR, O_LIT, O_BADLIT, O_ESC, O_KEY, O_KEYESC, O_CONT,
  O_SET, O_SETFAST, O_ADD, O_ADDFAST, O_FRESH, O_DEL, O_COPY, O_MOVE, O_NAV, O_READ, O_TEXT, O_AUDIT, O_BADOP, O_XADD, O_DROP, O_FEED, NOPS
};
struct Profile {
  int w[NOPS];
  int minOps, maxOps;
  bool snap;      // compare library snapshots around reads and refused calls
  int allocs;     // initial allocators (at least 1)
  const char *trivialRule;
};
const Profile &profile(const std::string &name);
void runHistory(World &w, const Profile &p);
