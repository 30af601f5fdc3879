// Violations, class labels, and the system-allocator ledger.
#include "core.h"
#include <mutex>
#include <unistd.h>

// where a fatal violation (detected below C frames) is written before leaving the process
char *g_fatalBuf = nullptr;
size_t g_fatalCap = 0;

void fail(const char *fmt, ...) {
  char b[6000];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(b, sizeof b, fmt, ap);
  va_end(ap);
  throw Violation{b};
}
void fatalViolation(const char *fmt, ...) {
  char b[2000];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(b, sizeof b, fmt, ap);
  va_end(ap);
  if (g_fatalBuf) snprintf(g_fatalBuf, g_fatalCap, "%s", b);
  fprintf(stderr, "fatal: %s\n", b);
  _exit(42);
}
std::string show(const std::string &s, size_t max) {
  std::string o;
  size_t n = s.size();
  for (size_t i = 0; i < n; i++) {
    if (n > max && i == max * 2 / 3) {
      char b[40];
      snprintf(b, sizeof b, "...<%zu bytes>...", n - max);
      o += b;
      i += n - max;
      if (i >= n) break;
    }
    unsigned char c = (unsigned char)s[i];
    if (c < 0x20 || c >= 0x7f) {
      char b[8];
      snprintf(b, sizeof b, "<%02x>", c);
      o += b;
    } else
      o += (char)c;
  }
  return o;
}
static thread_local std::vector<std::pair<size_t, void *>> *textPool;
void *textAlloc(size_t n) {
  if (textPool)
    for (size_t i = textPool->size(); i-- > 0;)
      if ((*textPool)[i].first == n) {
        void *p = (*textPool)[i].second;
        textPool->erase(textPool->begin() + (long)i);
        return p;
      }
  return malloc(n);
}
void textFree(void *p, size_t n) {
  if (textPool && !VF_ASAN) textPool->emplace_back(n, p);
  else free(p);
}
void textReuse(bool on) {
  if (textPool)
    for (auto &x : *textPool) free(x.second);
  delete textPool;
  textPool = on ? new std::vector<std::pair<size_t, void *>> : nullptr;
}
const char *g_classNames[NCLASS];
static std::mutex g_clsMx;
// Ids are a hash of the name (same in every process), with linear probing; names registered in the
// shared table so that the parent can print them.
char (*g_clsTable)[64] = nullptr; // shared memory, NCLASS entries
int classId(const char *name) {
  std::lock_guard<std::mutex> l(g_clsMx);
  if (!g_clsTable) return -1;
  unsigned h = (unsigned)(hashBytes(name, strlen(name)) % NCLASS);
  for (unsigned k = 0; k < NCLASS; k++) {
    unsigned i = (h + k) % NCLASS;
    char *e = g_clsTable[i];
    if (!*e) snprintf(e, 64, "%s", name); // racing workers may write the same or different names: probe again
    if (!strncmp(e, name, 63)) return (int)i;
  }
  return -1;
}

namespace mem {
std::atomic<long> live{0}, totalAllocs{0}, totalFrees{0}, liveBytes{0};
std::atomic<int> fill{0xA5};
uint64_t steps = 0, totalBytes = 0;
#if defined(VF_STEPS)
bool stepsActive() { return steps != 0; }
#else
bool stepsActive() { return false; }
#endif
static std::atomic<bool> seen{false};
bool active() { return seen.load(std::memory_order_relaxed); }
}

extern "C" {
__attribute__((visibility("default"))) void *__wrap_malloc(size_t n);
__attribute__((visibility("default"))) void __wrap_free(void *p);
__attribute__((visibility("default"))) void *__wrap_calloc(size_t a, size_t b);
__attribute__((visibility("default"))) void *__wrap_realloc(void *p, size_t n);
}

#if defined(VF_COUNT_ONLY) // sanitizer flavours keep released blocks out of use
namespace mem {
void reuse(bool) {}
}
#endif
#if defined(VF_COUNT_ONLY) // sanitizer flavours: the sanitizer's allocator sees the exact blocks
void *__wrap_malloc(size_t n) {
  mem::seen.store(true, std::memory_order_relaxed);
  mem::live.fetch_add(1, std::memory_order_relaxed);
  mem::totalAllocs.fetch_add(1, std::memory_order_relaxed);
#if defined(VF_STEPS)
  mem::totalBytes += n;
#endif
  return malloc(n);
}
void __wrap_free(void *p) {
  if (p) {
    mem::live.fetch_sub(1, std::memory_order_relaxed);
    mem::totalFrees.fetch_add(1, std::memory_order_relaxed);
  }
  free(p);
}
void *__wrap_calloc(size_t a, size_t b) {
  mem::seen.store(true, std::memory_order_relaxed);
  mem::live.fetch_add(1, std::memory_order_relaxed);
#if defined(VF_STEPS)
  mem::totalBytes += a * b, mem::steps += a * b;
#endif
  return calloc(a, b);
}
void *__wrap_realloc(void *p, size_t n) {
  mem::seen.store(true, std::memory_order_relaxed);
  if (!p) mem::live.fetch_add(1, std::memory_order_relaxed);
#if defined(VF_STEPS)
  mem::totalBytes += n, mem::steps += n;
#endif
  return realloc(p, n);
}
#if defined(VF_STEPS) // basic blocks of the library, and bytes its libc calls go over
#define STEP(T, name, params, args, cost)                                                          \
  __attribute__((visibility("default"))) T __wrap_##name params {                                  \
    mem::steps += (cost);                                                                          \
    return name args;                                                                              \
  }
extern "C" {
__attribute__((visibility("default"))) void __sanitizer_cov_trace_pc_guard(uint32_t *) { mem::steps++; }
__attribute__((visibility("default"))) void __sanitizer_cov_trace_pc_guard_init(uint32_t *, uint32_t *) {}
STEP(void *, memcpy, (void *d, const void *s, size_t n), (d, s, n), n)
STEP(void *, memmove, (void *d, const void *s, size_t n), (d, s, n), n)
STEP(void *, memset, (void *d, int c, size_t n), (d, c, n), n)
STEP(int, memcmp, (const void *a, const void *b, size_t n), (a, b, n), n)
STEP(void *, memchr, (void *a, int c, size_t n), (a, c, n), n)
STEP(size_t, strlen, (const char *a), (a), strlen(a))
STEP(size_t, strnlen, (const char *a, size_t n), (a, n), strnlen(a, n))
STEP(int, strcmp, (const char *a, const char *b), (a, b), strlen(a) < strlen(b) ? strlen(a) : strlen(b))
STEP(int, strncmp, (const char *a, const char *b, size_t n), (a, b, n), strnlen(a, n) < strnlen(b, n) ? strnlen(a, n) : strnlen(b, n))
STEP(char *, strchr, (char *a, int c), (a, c), strlen(a))
STEP(char *, strstr, (char *a, const char *b), (a, b), strlen(a) + strlen(b))
STEP(char *, strcpy, (char *d, const char *s), (d, s), strlen(s))
STEP(char *, strncpy, (char *d, const char *s, size_t n), (d, s, n), n)
STEP(char *, strcat, (char *d, const char *s), (d, s), strlen(d) + strlen(s))
STEP(double, atof, (const char *a), (a), strlen(a))
STEP(int, atoi, (const char *a), (a), 20)
STEP(long, atol, (const char *a), (a), 20)
STEP(long long, atoll, (const char *a), (a), 20)
STEP(double, strtod, (const char *a, char **e), (a, e), strlen(a))
}
#endif
#else
namespace {
struct Head {
  uint64_t magic, size, pad0, pad1;
};
const uint64_t LIVE = 0x51ab1eb10c4a11feull, DEAD = 0xdeadb10cdeadb10cull;
const unsigned char TAIL = 0xC7, POISON = 0xDD;
const size_t TAILN = 16, FILLMAX = 1 << 20, QMAX = 256, QBYTES = 2 << 20;
Head *q[QMAX];
size_t qi = 0, qbytes = 0;
std::mutex mx;
void evict(size_t i) {
  Head *h = q[i];
  if (!h) return;
  q[i] = nullptr;
  unsigned char *d = (unsigned char *)(h + 1);
  size_t m = h->size < 8192 ? h->size : 8192;
  for (size_t k = 0; k < m; k++)
    if (d[k] != POISON) fatalViolation("the library wrote to a block of %llu bytes (offset %zu) after releasing it", (unsigned long long)h->size, k);
  qbytes -= h->size;
  free(h);
}
bool reusing = false;
Head *again[64]; // released blocks, latest last
int nAgain = 0;
void checkDead(Head *h) {
  unsigned char *d = (unsigned char *)(h + 1);
  size_t m = h->size < 8192 ? h->size : 8192;
  for (size_t k = 0; k < m; k++)
    if (d[k] != POISON) fatalViolation("the library wrote to a block of %llu bytes (offset %zu) after releasing it", (unsigned long long)h->size, k);
}
Head *takeAgain(size_t n) {
  std::lock_guard<std::mutex> l(mx);
  for (int i = nAgain; i-- > 0;)
    if (again[i]->size == n) {
      Head *h = again[i];
      for (; i + 1 < nAgain; i++) again[i] = again[i + 1];
      nAgain--;
      checkDead(h);
      return h;
    }
  return nullptr;
}
}
namespace mem {
void reuse(bool on) {
  std::lock_guard<std::mutex> l(mx);
  reusing = on;
  for (; nAgain; nAgain--) {
    checkDead(again[nAgain - 1]);
    free(again[nAgain - 1]);
  }
}
}
void *__wrap_malloc(size_t n) {
  mem::seen.store(true, std::memory_order_relaxed);
  Head *h = reusing ? takeAgain(n) : nullptr;
  if (!h) h = (Head *)malloc(sizeof(Head) + n + TAILN);
  if (!h) return nullptr;
  h->magic = LIVE;
  h->size = n;
  h->pad0 = h->pad1 = ~LIVE;
  unsigned char *d = (unsigned char *)(h + 1);
  int f = mem::fill;
  if (f >= 0) memset(d, f, n < FILLMAX ? n : FILLMAX);
  memset(d + n, TAIL, TAILN);
  mem::live++;
  mem::totalAllocs++;
  return d;
}
void __wrap_free(void *p) {
  if (!p) return;
  Head *h = (Head *)p - 1;
  if (h->magic == DEAD) fatalViolation("the library released a block twice");
  if (h->magic != LIVE) { // obtained elsewhere
    free(p);
    return;
  }
  if (h->pad0 != ~LIVE || h->pad1 != ~LIVE) fatalViolation("the library wrote before the start of a block of %llu bytes", (unsigned long long)h->size);
  unsigned char *d = (unsigned char *)p;
  for (size_t k = 0; k < TAILN; k++)
    if (d[h->size + k] != TAIL) fatalViolation("the library wrote past the end of a block of %llu bytes", (unsigned long long)h->size);
  h->magic = DEAD;
  mem::live--;
  mem::totalFrees++;
  memset(d, POISON, h->size < 8192 ? h->size : 8192);
  std::lock_guard<std::mutex> l(mx);
  if (reusing && h->size <= QBYTES / 64) {
    if (nAgain == 64) {
      checkDead(again[0]);
      free(again[0]);
      for (int i = 0; i + 1 < nAgain; i++) again[i] = again[i + 1];
      nAgain--;
    }
    again[nAgain++] = h;
    return;
  }
  if (h->size > QBYTES / 4) {
    free(h);
    return;
  }
  evict(qi);
  q[qi] = h;
  qbytes += h->size;
  qi = (qi + 1) % QMAX;
  for (size_t k = 0; qbytes > QBYTES && k < QMAX; k++) evict((qi + k) % QMAX);
}
void *__wrap_calloc(size_t a, size_t b) {
  void *p = __wrap_malloc(a * b);
  if (p) memset(p, 0, a * b);
  return p;
}
void *__wrap_realloc(void *p, size_t n) {
  if (!p) return __wrap_malloc(n);
  Head *h = (Head *)p - 1;
  if (h->magic != LIVE) return realloc(p, n);
  void *r = __wrap_malloc(n);
  if (!r) return nullptr;
  memcpy(r, p, n < h->size ? n : h->size);
  __wrap_free(p);
  return r;
}
#endif
