// Drives one surface and an ordered-tree reference model in lock step.
#pragma once
#include "gen.h"
#include <functional>
#include <list>

extern bool g_verbose; // op log wanted (replay)

struct Hnd {
  void *p = nullptr;
  MNode *n = nullptr; // null: empty value
  int a = -1;         // allocator index
  bool live = false;
};

std::string nearKey(Src &s, const std::string &k);
class World {
public:
  World(Ctx &c, const Api *api, Src &s);
  ~World();
  Ctx &ctx;
  const Api *A;
  Src &s;
  Gen g;
  Pool pool;
  struct Al {
    void *p;
    bool live;
  };
  std::vector<Al> allocs;
  std::vector<Hnd> hs;
  struct Rem {
    uint64_t deps;
    const char *p;
    std::string bytes;
    const char *what;
  };
  std::vector<Rem> rem, remAt;
  size_t remCap = 400;
  bool remReplace = true; // once full, replace random entries
  size_t remBig = 0;      // bytes of long results kept
  // bytes of sub-documents serialised by audits; beyond the limit audits stop serialising sub-documents (a large, deep
  // document would otherwise cost memory in proportion to size times depth)
  static const size_t MAXSPENT = 40000000;
  size_t spent = 0;
  std::deque<std::unique_ptr<TextBuf>> kept; // texts that must outlive the values
  std::vector<std::string> log;
  bool logging;
  std::function<void(const std::function<void()> &)> exec; // runs one step of a history (in another thread, say)
  bool brief = false;  // end without a final reading
  bool shared = false; // other threads use the library too: no global ledger check
  int mutations = 0, refused = 0, moves = 0, copies = 0, parses = 0, releases = 0, dels = 0, drops = 0;

  void L(const char *fmt, ...) __attribute__((format(printf, 2, 3)));

  // --- allocators, handles
  int newAllocator();
  void release(int a);
  int textUsers(uint32_t id, bool killThem); // live handles whose document uses that text
  void dropText(uint32_t id);   // the caller frees a text after giving up the documents that lie in it
  bool textLive(uint32_t id) const { return id >= 1 && id <= kept.size() && kept[id - 1]->held(); }
  int newValue(int a);          // returns handle index
  int newValueFrom(int h);
  int addHandle(void *p, MNode *n, int a);
  int liveAllocs() const;
  static MNode *rootOf(MNode *n) {
    while (n->parent) n = n->parent;
    return n;
  }
  static bool isAncestorOrSelf(const MNode *anc, const MNode *n) {
    for (; n; n = n->parent)
      if (n == anc) return true;
    return false;
  }
  int topHandle(int h) const; // a handle to the root of h's tree if there is one, else h
  bool hasAliases(int h) const;

  // --- operations; each calls the library, checks the result and updates the model
  bool parse(int h, const std::string &text, int variant);
  void setNull(int h);
  void setBool(int h, bool b);
  void setArray(int h);
  void setObj(int h);
  bool setLit(int h, bool num, const std::string &lit, int variant); // 0 fast 1 lenfast 2 copy 3 lencopy
  bool setEsc(int h, const std::string &bytes, bool withLen);
  bool setKey(int h, const std::string &key, int variant);
  bool setKeyEsc(int h, const std::string &bytes, bool withLen);
  bool setDouble(int h, double d, bool viaNum);
  bool setInt(int h, long long v, int kind); // 0 int 1 long 2 long long
  // a result read from src is handed straight back to dst, without a copy of the caller's
  bool feedBack(int dst, int src);
  void glance(int v, int w = -1);
  bool set(int v, int w);
  bool setFast(int v, int w);   // caller ensures it is in the domain
  bool objAdd(int v, int w);
  bool objAddFast(int v, int w);
  bool arrAdd(int v, int w);
  bool arrAddFast(int v, int w);
  bool arrDel(int v, size_t i);
  bool objDel(int v, const std::string &k);
  int copy(int v);
  bool move(int v);
  bool canMoveInto(int v, int w) const; // w's node may be moved into v's node
  // navigation; returns handle index or -1
  int begin(int v);
  int next(int v);
  int arrGet(int v, size_t i);
  int objGet(int v, const std::string &k, bool withLen);

  // --- checks
  void checkText(int h);        // Stringify == model
  void checkScalar(int h);      // all getters of this value
  void audit(int h);            // full walk, all views agree with the model
  void checkAll();              // checkText on all live handles
  void checkRemembered(bool full = false);
  void finish();                // release everything, ledger must be empty
  std::vector<std::string> snapshot(); // serialised texts of every live handle, taken through the library

  // fresh remembered results
  void remember(int h, const char *p, size_t n, const char *what);
  // results that may share their memory (GetBool, Type): each address keeps its first content
  void rememberAt(uint64_t deps, const void *p, size_t n, const char *what);

private:
  struct Feed { // library memory used as an argument
    const char *p;
    size_t n;
    uint64_t deps;
    uint32_t text;
  };
  const Feed *feed_ = nullptr;
  void ensureNode(int h);
  void overwrite(MNode *n); // old content dies
  void kill(MNode *n);
  void setDeps(MNode *n, uint64_t bit);
  MNode *clone(const MNode *n, uint64_t bit);
  void detach(MNode *n);
  void dropDead();
  void auditAt(void *p, const MNode *n, int a, int depth);
  void scalarAt(void *p, const MNode *n, int a, uint64_t deps);
  TextBuf *keep(const std::string &t, bool term);
  uint8_t junk_ = 0;
  unsigned long long cA0_ = 0, cF0_ = 0;
  long live0_ = 0;
};
