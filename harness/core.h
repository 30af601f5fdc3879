// Choice source, violations, text buffers, shared statistics.
#pragma once
#include "api.h"
#include <atomic>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <memory>
#include <string>
#include <vector>

#if defined(__SANITIZE_ADDRESS__)
#define VF_ASAN 1
#elif defined(__has_feature)
#if __has_feature(address_sanitizer)
#define VF_ASAN 1
#endif
#endif
#ifndef VF_ASAN
#define VF_ASAN 0
#endif

struct Violation {
  std::string msg;
};
[[noreturn]] void fail(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
std::string show(const std::string &s, size_t max = 300); // printable form
inline std::string show(const char *s, size_t max = 300) { return s ? show(std::string(s), max) : std::string("(absent)"); }
#define CHECK(cond, ...)                                                                           \
  do {                                                                                             \
    if (!(cond)) fail(__VA_ARGS__);                                                                \
  } while (0)

inline uint64_t mix64(uint64_t x) {
  x += 0x9e3779b97f4a7c15ull;
  x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
  x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
  return x ^ (x >> 31);
}
inline uint64_t hashBytes(const void *p, size_t n, uint64_t h = 0xcbf29ce484222325ull) {
  const unsigned char *c = (const unsigned char *)p;
  for (size_t i = 0; i < n; i++) h = (h ^ c[i]) * 0x100000001b3ull;
  return h;
}

// One recorded sequence of choice bytes decides everything in a case. Choice 0 is always the simplest.
class Src {
public:
  static const size_t CAP = 1u << 20;
  // random mode: bytes from the seed, recorded into rec
  Src(uint64_t seed, uint8_t *rec, volatile uint64_t *reclen) : seed_(seed), rec_(rec), reclen_(reclen) {
    if (reclen_) *reclen_ = 0;
  }
  // replay mode: given bytes, then zeros
  Src(const uint8_t *data, size_t n) : replay_(true), data_(data), n_(n) {}
  uint8_t byte() {
    if (replay_) return pos_ < n_ ? data_[pos_++] : (pos_++, 0);
    if (pos_ >= CAP) return 0;
    if (!(pos_ & 7)) word_ = mix64(seed_ + (pos_ >> 3) * 0x632be59bd9b4e019ull);
    uint8_t b = (uint8_t)(word_ >> (8 * (pos_ & 7)));
    if (rec_) {
      rec_[pos_] = b;
      *reclen_ = pos_ + 1;
    }
    pos_++;
    return b;
  }
  uint32_t below(uint32_t n) { // 0..n-1
    if (n <= 1) return 0;
    if (n <= 256) return byte() % n;
    uint32_t a = byte() << 8;
    a |= byte();
    if (n <= 65536) return a % n;
    a = (a << 8) | byte();
    a = (a << 8) | byte();
    return a % n;
  }
  uint32_t range(uint32_t lo, uint32_t hi) { return lo + below(hi - lo + 1); } // inclusive
  bool chance(uint32_t num, uint32_t den) { return below(den) >= den - num; }   // 0 -> false
  uint64_t u64() {
    uint64_t r = 0;
    for (int i = 0; i < 8; i++) r = r << 8 | byte();
    return r;
  }
  bool exhausted() const { return replay_ ? pos_ > n_ : pos_ >= CAP; }
  size_t pos() const { return pos_; }

private:
  bool replay_ = false;
  const uint8_t *data_ = nullptr;
  size_t n_ = 0, pos_ = 0;
  uint64_t seed_ = 0, word_ = 0;
  uint8_t *rec_ = nullptr;
  volatile uint64_t *reclen_ = nullptr;
};

// Memory of caller-owned texts. While reuse is on, a new text lies where the last dropped one of its size lay.
void *textAlloc(size_t n);
void textFree(void *p, size_t n);
void textReuse(bool on);

// A caller-owned text handed to the library. Terminated or exactly n bytes long. Under ASan the block ends
// right after the text; otherwise junk that could continue a token lies before and after it.
class TextBuf {
public:
  TextBuf(const std::string &s, bool terminated, uint8_t junk = 0) : n_(s.size()), term_(terminated) {
    pad_ = VF_ASAN ? 0 : 16;
    size_t total = pad_ + n_ + (term_ ? 1 : 0) + pad_;
    base_ = (char *)textAlloc(total ? total : 1);
    if (VF_ASAN && total == 0) { // a zero-byte readable area: end of a 1-byte block
      p_ = base_ + 1;
    } else
      p_ = base_ + pad_;
    static const char *J[] = {"0123456789012345", "\"\"\"\"\"\"\"\"\"\"\"\"\"\"\"\"", "eeeeeeeeeeeeeeee",
                              "ull,rue]alse}ull", ".5.5.5.5.5.5.5.5", "]]]]]]]]}}}}}}}}",
                              "\\u0041\\\\\\\\\\\\\\\\\\\\", "\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0"};
    if (pad_) {
      memcpy(base_, J[junk % 8], 16);
      memcpy(base_ + total - 16, J[junk % 8], 16);
    }
    if (n_) memcpy(p_, s.data(), n_);
    if (term_) p_[n_] = 0;
    orig_ = hashBytes(p_, n_ + (term_ ? 1 : 0));
  }
  ~TextBuf() { drop(); }
  TextBuf(const TextBuf &) = delete;
  TextBuf &operator=(const TextBuf &) = delete;
  const char *p() const { return p_; }
  size_t n() const { return n_; }
  bool held() const { return base_ != nullptr; }
  bool covers(const char *q) const { return base_ && q >= p_ && q <= p_ + n_; }
  bool intact() const { return !base_ || hashBytes(p_, n_ + (term_ ? 1 : 0)) == orig_; }
  void drop() { // overwrite and free: the caller's text is gone
    if (!base_) return;
    size_t total = pad_ * 2 + n_ + (term_ ? 1 : 0);
    memset(base_, '7', total);
    textFree(base_, total ? total : 1);
    base_ = nullptr;
  }

private:
  char *base_, *p_;
  size_t n_, pad_;
  bool term_;
  uint64_t orig_;
};

// ---- per-case context -------------------------------------------------------------------------
enum { NCLASS = 96 };
struct Stats { // lives in shared memory, one per worker
  uint64_t evals, nontrivialDirect, cls[NCLASS];
};
extern const char *g_classNames[NCLASS]; // filled by class registration
int classId(const char *name);           // stable id for a class label (registered on first use, pre-fork)
struct Ctx {
  std::vector<const Api *> apis;
  int tier = 0; // 0 quick 1 thorough
  Stats *st = nullptr;
  uint64_t hash = 0;        // of the semantic content of the case
  bool nontrivial = false;
  bool wantSample = false;
  std::string sample;
  uint64_t weight = 1;      // evaluations this case stands for
  uint64_t caseIdx = 0;
  std::string param;        // job parameter
  void cls(int id, uint64_t n = 1) {
    if (st && id >= 0 && id < NCLASS) st->cls[id] += n;
  }
  void mixin(const void *p, size_t n) { hash = hashBytes(p, n, hash ^ 0x1234567); }
  void mixin(const std::string &s) { mixin(s.data(), s.size()); }
  void mixin(uint64_t x) { mixin(&x, sizeof x); }
};
#define CLS(ctx, name)                                                                             \
  do {                                                                                             \
    static int id_ = classId(name);                                                                \
    (ctx).cls(id_);                                                                                \
  } while (0)

// ---- memory ledger (plain flavour: the library's malloc family is wrapped) ----------------------
namespace mem {
extern std::atomic<long> live, totalAllocs, totalFrees;
extern std::atomic<int> fill;   // byte new blocks are filled with
extern std::atomic<long> liveBytes;
extern uint64_t steps, totalBytes; // step-counting build: work done and bytes requested so far
bool stepsActive();
void reuse(bool on); // plain flavour: hand released blocks out again, latest first
bool active(); // true if the ledger sees the library's allocations
}
[[noreturn]] void fatalViolation(const char *fmt, ...) __attribute__((format(printf, 1, 2)));

// What the harness itself converts is converted in the "C" locale, whatever locale the library is tested in.
#include <locale.h>
#include <stdlib.h>
inline locale_t cLocale() {
  static locale_t l = newlocale(LC_ALL_MASK, "C", (locale_t)0);
  return l;
}
struct CLocale {
  locale_t old = uselocale(cLocale());
  ~CLocale() { uselocale(old); }
};
inline double cStrtod(const char *s) { return strtod_l(s, nullptr, cLocale()); }
