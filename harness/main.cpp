// Forking case runner: generates cases, detects failures (violations, crashes, sanitizer reports, hangs),
// shrinks and replays them, and reports what was covered.
#include "engines.h"
#include <algorithm>
#include <cerrno>
#include <ctime>
#include <dlfcn.h>
#include <fcntl.h>
#include <signal.h>
#include <string>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

extern char *g_fatalBuf;
extern size_t g_fatalCap;
extern char (*g_clsTable)[64];

struct Slot {
  volatile uint64_t idx, reclen, done, active;
  uint8_t rec[Src::CAP];
  char msg[8192];
  char sample[3][2048];
  volatile uint64_t nsample;
  Stats st;
  volatile uint64_t nhash;
};
struct Opt {
  std::string engine, param, out, replaydir, prop = "X", meta, bytesfile, flavour, locale;
  std::vector<std::string> so;
  uint64_t seed = 1, cases = 100, prelude = 0, start = 0;
  int workers = 8, tier = 0;
  long as = 3500, cpu = 20, maxsec = 600, shrinksec = 15, wall = 240;
  bool replay = false, sharedFail = false;
} O;
static const Engine *E;
static uint64_t jobSeed, nCases;
static Slot *slots;
static uint64_t *hashes;
static uint64_t hashCap;
static char *clsShared;

static double now() {
  struct timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return (double)t.tv_sec + 1e-9 * (double)t.tv_nsec;
}
static void *shm(size_t n) {
  void *p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (p == MAP_FAILED) {
    perror("mmap");
    exit(2);
  }
  return p;
}
static void armTimer(long cpu) {
  struct itimerval t;
  memset(&t, 0, sizeof t);
  t.it_value.tv_sec = cpu;
  setitimer(ITIMER_PROF, &t, nullptr);
  t.it_value.tv_sec = O.wall;
  setitimer(ITIMER_REAL, &t, nullptr);
}
static void limits() {
  struct rlimit r;
  r.rlim_cur = r.rlim_max = 0;
  setrlimit(RLIMIT_CORE, &r);
  if (O.as > 0) {
    r.rlim_cur = r.rlim_max = (rlim_t)O.as << 20;
    setrlimit(RLIMIT_AS, &r);
  }
}
static const Api *loadApi(const std::string &s) {
  void *h = dlopen(s.c_str(), RTLD_NOW | RTLD_LOCAL);
  if (!h) {
    fprintf(stderr, "dlopen: %s\n", dlerror());
    _exit(3);
  }
  auto f = (const Api *(*)())dlsym(h, "vf_api");
  if (!f) {
    fprintf(stderr, "no vf_api in %s\n", s.c_str());
    _exit(3);
  }
  return f();
}
static void loadApis(Ctx &c) {
  if (!O.locale.empty() && !setlocale(LC_NUMERIC, O.locale.c_str())) {
    fprintf(stderr, "no locale %s\n", O.locale.c_str());
    _exit(3);
  }
  for (auto &s : O.so) {
    size_t plus = s.find('+');
    if (plus == std::string::npos) {
      c.apis.push_back(loadApi(s));
      continue;
    }
    // first+second#k: every call goes to one of two separately compiled copies of the library
    size_t hash = s.find('#', plus);
    const Api *a = loadApi(s.substr(0, plus)), *b = loadApi(s.substr(plus + 1, hash - plus - 1));
    Api *m = new Api(*a);
    uint64_t k = strtoull(s.c_str() + hash + 1, nullptr, 10);
    static_assert(sizeof(void *) == sizeof(void (*)()), "");
    char *mp = (char *)m;
    const char *bp = (const char *)b;
    size_t from = offsetof(Api, NewAllocator), n = (sizeof(Api) - from) / sizeof(void *);
    for (size_t i = 0; i < n; i++)
      if (mix64(k * 1000 + i) & 1) memcpy(mp + from + i * sizeof(void *), bp + from + i * sizeof(void *), sizeof(void *));
    c.apis.push_back(m);
  }
}
// Runs one case in this process. Returns through a violation exit if it fails.
static void runCase(Ctx &base, Slot *sl, Src &src, uint64_t idx, bool wantSample, uint64_t *hs) {
  Ctx c = base;
  c.caseIdx = idx;
  c.wantSample = wantSample;
  c.hash = 0;
  try {
    E->run(c, src);
  } catch (Violation &v) {
    snprintf(sl->msg, sizeof sl->msg, "%s", v.msg.c_str());
    fprintf(stderr, "violation: %s\n", v.msg.c_str());
    _exit(42);
  } catch (std::exception &x) {
    fprintf(stderr, "harness exception: %s\n", x.what());
    snprintf(sl->msg, sizeof sl->msg, "exception in the harness: %s", x.what());
    _exit(43);
  }
  sl->st.evals += c.weight;
  if (hs && c.nontrivial && sl->nhash < hashCap) {
    hs[sl->nhash] = c.hash;
    sl->nhash = sl->nhash + 1;
  }
  if (wantSample && (c.nontrivial || E->indexed) && !c.sample.empty()) {
    snprintf(sl->sample[sl->nsample % 3], sizeof sl->sample[0], "%s", c.sample.c_str());
    sl->nsample = sl->nsample + 1;
  }
}
static void idxBytes(uint64_t i, uint8_t *b) {
  for (int k = 0; k < 8; k++) b[k] = (uint8_t)(i >> (8 * k));
}
static void caseFromSeed(Ctx &c, Slot *sl, uint64_t i, bool sample, uint64_t *hs) {
  if (E->indexed) {
    idxBytes(i, sl->rec);
    sl->reclen = 8;
    Src s(sl->rec, 8);
    runCase(c, sl, s, i, sample, hs);
  } else {
    Src s(mix64(jobSeed + i * 0x9e3779b97f4a7c15ull), sl->rec, &sl->reclen);
    runCase(c, sl, s, i, sample, hs);
  }
}
static int errFd() {
  int fd = memfd_create("stderr", 0);
  if (fd < 0) fd = open("/dev/null", O_RDWR);
  return fd;
}
static std::string slurp(int fd, size_t max) {
  off_t n = lseek(fd, 0, SEEK_END);
  if (n <= 0) return "";
  off_t from = 0;
  std::string r((size_t)std::min<off_t>(n, (off_t)max), 0);
  ssize_t k = pread(fd, &r[0], r.size(), from);
  r.resize(k > 0 ? (size_t)k : 0);
  if ((size_t)n > max) r += "\n...\n";
  return r;
}
static Ctx baseCtx(Slot *sl) {
  Ctx c;
  c.tier = O.tier;
  c.st = &sl->st;
  c.param = O.param;
  return c;
}
static void childInit(Slot *sl, int fd) {
  dup2(fd, 2);
  int dn = open("/dev/null", O_RDWR);
  dup2(dn, 0);
  dup2(dn, 1);
  g_fatalBuf = sl->msg;
  g_fatalCap = sizeof sl->msg;
  limits();
}
static void worker(int w, int fd) {
  Slot *sl = &slots[w];
  childInit(sl, fd);
  Ctx c = baseCtx(sl);
  loadApis(c);
  double t0 = now();
  uint64_t k = 0;
  for (uint64_t i = O.start + (uint64_t)w; i < nCases; i += (uint64_t)O.workers, k++) {
    if (now() - t0 > (double)O.maxsec) break;
    sl->idx = i;
    sl->active = 1;
    armTimer(O.cpu);
    caseFromSeed(c, sl, i, k < 12, hashes + (uint64_t)w * hashCap);
    sl->active = 0;
    sl->done = sl->done + 1;
  }
  _exit(0);
}
enum Res { RES_OK, RES_VIOL, RES_CRASH, RES_HANG, RES_BAD };
static Res classify(int st, std::string &how) {
  char b[100];
  if (WIFEXITED(st)) {
    int e = WEXITSTATUS(st);
    if (e == 0) return RES_OK;
    if (e == 42) {
      how = "violation";
      return RES_VIOL;
    }
    if (e == 3 || e == 43) {
      how = "harness error";
      return RES_BAD;
    }
    snprintf(b, sizeof b, "process exit %d (sanitizer report or library exit)", e);
    how = b;
    return RES_CRASH;
  }
  int s = WTERMSIG(st);
  if (s == SIGPROF || s == SIGALRM) {
    how = s == SIGPROF ? "no result within the CPU limit" : "no result within the wall-clock limit";
    return RES_HANG;
  }
  snprintf(b, sizeof b, "signal %d (%s)", s, strsignal(s));
  how = b;
  if (s == SIGKILL || s == SIGTERM || s == SIGINT) return RES_BAD;
  return RES_CRASH;
}
// Runs given bytes (after an optional prelude of earlier cases) in a fresh process.
static Res tryBytes(const std::vector<uint8_t> &bytes, const std::vector<uint64_t> &prelude, bool verbose, std::string &msg, std::string &err, long cpu) {
  Slot *sl = &slots[O.workers];
  memset((void *)sl->msg, 0, sizeof sl->msg);
  int fd = errFd();
  pid_t p = fork();
  if (p == 0) {
    childInit(sl, fd);
    Ctx c = baseCtx(sl);
    loadApis(c);
    for (uint64_t i : prelude) {
      armTimer(O.cpu);
      caseFromSeed(c, sl, i, false, nullptr);
    }
    g_verbose = verbose;
    armTimer(cpu);
    Src s(bytes.data(), bytes.size());
    runCase(c, sl, s, ~0ull, false, nullptr);
    _exit(0);
  }
  int st = 0;
  waitpid(p, &st, 0);
  std::string how;
  Res r = classify(st, how);
  err = slurp(fd, 20000);
  close(fd);
  msg = sl->msg[0] ? sl->msg : how;
  return r;
}
static std::string shortErr(const std::string &e) { // the informative line of a sanitizer report
  size_t p = e.find("ERROR: ");
  if (p == std::string::npos) p = e.find("runtime error:");
  if (p == std::string::npos) p = e.find("WARNING: ThreadSanitizer");
  if (p == std::string::npos) return "";
  size_t b = e.rfind('\n', p), n = e.find('\n', p);
  b = b == std::string::npos ? 0 : b + 1;
  std::string r = e.substr(b, (n == std::string::npos ? e.size() : n) - b);
  return r.substr(0, 300);
}
static std::string js(const std::string &s) {
  std::string o = "\"";
  for (unsigned char c : s) {
    char b[8];
    if (c == '"' || c == '\\') o += '\\', o += (char)c;
    else if (c == '\n') o += "\\n";
    else if (c < 0x20 || c >= 0x7f) snprintf(b, sizeof b, "\\u%04x", c), o += b;
    else o += (char)c;
  }
  return o + "\"";
}
static bool bad(Res r) { return r == RES_VIOL || r == RES_CRASH || r == RES_HANG; }
static void shrink(std::vector<uint8_t> &best, const std::vector<uint64_t> &prelude, bool hang, uint64_t &tries) {
  double t0 = now();
  std::string m, e;
  auto test = [&](const std::vector<uint8_t> &x) {
    if (now() - t0 > (double)O.shrinksec) return false;
    tries++;
    Res r = tryBytes(x, prelude, false, m, e, hang ? 5 : O.cpu);
    return hang ? r == RES_HANG : bad(r);
  };
  bool any = true;
  while (any && now() - t0 < (double)O.shrinksec) {
    any = false;
    for (size_t k = std::max<size_t>(best.size() / 2, 1); k >= 1; k /= 2) { // cut off the tail
      while (best.size() > k) {
        std::vector<uint8_t> x(best.begin(), best.end() - (long)k);
        if (!test(x)) break;
        best = x;
        any = true;
      }
    }
    for (size_t k = std::max<size_t>(best.size() / 2, 1); k >= 1; k /= 2)
      for (size_t i = 0; i + k <= best.size();) { // delete a chunk
        std::vector<uint8_t> x(best.begin(), best.begin() + (long)i);
        x.insert(x.end(), best.begin() + (long)(i + k), best.end());
        if (test(x)) best = x, any = true;
        else i += k;
        if (now() - t0 > (double)O.shrinksec) break;
      }
    for (size_t k = std::max<size_t>(best.size() / 2, 1); k >= 1; k /= 2)
      for (size_t i = 0; i + k <= best.size(); i += k) { // zero a chunk
        bool z = true;
        for (size_t j = i; j < i + k; j++) z = z && !best[j];
        if (z) continue;
        std::vector<uint8_t> x = best;
        std::fill(x.begin() + (long)i, x.begin() + (long)(i + k), 0);
        if (test(x)) best = x, any = true;
        if (now() - t0 > (double)O.shrinksec) break;
      }
    for (size_t i = 0; i < best.size(); i++) { // smaller byte
      for (uint8_t v : {(uint8_t)(best[i] / 2), (uint8_t)(best[i] - 1)}) {
        if (!best[i] || v >= best[i]) continue;
        std::vector<uint8_t> x = best;
        x[i] = v;
        if (test(x)) {
          best = x;
          any = true;
          break;
        }
      }
      if (now() - t0 > (double)O.shrinksec) break;
    }
  }
}
static std::string writeReplay(const std::vector<uint8_t> &bytes, const std::vector<uint64_t> &prelude, const std::string &msg, const std::string &trace, bool repro, int workerCount) {
  mkdir(O.replaydir.c_str(), 0777);
  uint64_t h = hashBytes(bytes.data(), bytes.size(), hashBytes(msg.data(), msg.size()));
  char fn[600];
  snprintf(fn, sizeof fn, "%s/%s-%s-%08x.json", O.replaydir.c_str(), O.prop.c_str(), O.engine.c_str(), (unsigned)h);
  FILE *f = fopen(fn, "w");
  if (!f) return "(cannot write replay)";
  fprintf(f, "{\n \"property\": %s,\n \"engine\": %s,\n \"param\": %s,\n \"flavour\": %s,\n \"surfaces\": [", js(O.prop).c_str(), js(O.engine).c_str(), js(O.param).c_str(), js(O.flavour).c_str());
  for (size_t i = 0; i < O.so.size(); i++) {
    size_t p = O.so[i].rfind('/');
    fprintf(f, "%s%s", i ? ", " : "", js(O.so[i].substr(p == std::string::npos ? 0 : p + 1)).c_str());
  }
  fprintf(f, "],\n \"tier\": %d,\n \"seed\": %llu,\n \"workers\": %d,\n \"as\": %ld,\n \"reproduced\": %s,\n \"prelude\": [", O.tier, (unsigned long long)O.seed, workerCount, O.as, repro ? "true" : "false");
  for (size_t i = 0; i < prelude.size(); i++) fprintf(f, "%s%llu", i ? ", " : "", (unsigned long long)prelude[i]);
  fprintf(f, "],\n \"message\": %s,\n \"bytes\": \"", js(msg).c_str());
  for (uint8_t b : bytes) fprintf(f, "%02x", b);
  fprintf(f, "\",\n \"trace\": [");
  size_t i = 0;
  bool first = true;
  while (i < trace.size()) {
    size_t e = trace.find('\n', i);
    if (e == std::string::npos) e = trace.size();
    fprintf(f, "%s\n  %s", first ? "" : ",", js(trace.substr(i, e - i)).c_str());
    first = false;
    i = e + 1;
  }
  fprintf(f, "]\n}\n");
  fclose(f);
  return fn;
}

int main(int argc, char **argv) {
  if (!getenv("VF_NOASLR")) {
    setenv("VF_NOASLR", "1", 1);
    int old = personality(0xffffffff);
    if (old != -1 && personality((unsigned long)old | ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv);
  }
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto val = [&]() -> const char * {
      if (i + 1 >= argc) {
        fprintf(stderr, "missing value for %s\n", a.c_str());
        exit(2);
      }
      return argv[++i];
    };
    if (a == "--engine") O.engine = val();
    else if (a == "--param") O.param = val();
    else if (a == "--so") O.so.push_back(val());
    else if (a == "--seed") O.seed = strtoull(val(), nullptr, 10);
    else if (a == "--cases") O.cases = strtoull(val(), nullptr, 10);
    else if (a == "--workers") O.workers = atoi(val());
    else if (a == "--tier") O.tier = atoi(val());
    else if (a == "--prop") O.prop = val();
    else if (a == "--out") O.out = val();
    else if (a == "--replaydir") O.replaydir = val();
    else if (a == "--flavour") O.flavour = val();
    else if (a == "--as") O.as = atol(val());
    else if (a == "--cpu") O.cpu = atol(val());
    else if (a == "--wall") O.wall = atol(val());
    else if (a == "--maxsec") O.maxsec = atol(val());
    else if (a == "--shrinksec") O.shrinksec = atol(val());
    else if (a == "--locale") O.locale = val();
    else if (a == "--fill") mem::fill = atoi(val());
    else if (a == "--bytesfile") O.bytesfile = val(), O.replay = true;
    else if (a == "--preludefile") O.meta = val();
    else {
      fprintf(stderr, "unknown option %s\n", a.c_str());
      return 2;
    }
  }
  E = findEngine(O.engine);
  if (!E || O.so.empty()) {
    fprintf(stderr, "need --engine and --so\n");
    return 2;
  }
  clsShared = (char *)shm(NCLASS * 64);
  g_clsTable = (char (*)[64])clsShared;
  slots = (Slot *)shm(sizeof(Slot) * (size_t)(O.workers + 1));
  jobSeed = mix64(O.seed ^ hashBytes(O.engine.data(), O.engine.size(), hashBytes(O.param.data(), O.param.size())));
  std::string msg, err;

  if (O.replay) {
    std::vector<uint8_t> bytes;
    FILE *f = fopen(O.bytesfile.c_str(), "rb");
    if (!f) {
      perror("bytesfile");
      return 2;
    }
    int ch;
    while ((ch = fgetc(f)) != EOF) bytes.push_back((uint8_t)ch);
    fclose(f);
    std::vector<uint64_t> pre;
    if (!O.meta.empty() && (f = fopen(O.meta.c_str(), "r"))) {
      unsigned long long x;
      while (fscanf(f, "%llu", &x) == 1) pre.push_back(x);
      fclose(f);
    }
    Res r = tryBytes(bytes, pre, true, msg, err, O.cpu);
    fprintf(stderr, "%s\n", err.c_str());
    printf("replay: %s%s\n", r == RES_OK ? "held" : r == RES_BAD ? "harness error: " : "VIOLATED: ", r == RES_OK ? "" : msg.c_str());
    return r == RES_OK ? 0 : r == RES_BAD ? 2 : 1;
  }

  nCases = O.cases;
  if (E->indexed) { // the number of cases can depend on the surfaces
    Ctx c = baseCtx(&slots[0]);
    c.apis.resize(O.so.size());
    uint64_t n = E->count(c);
    nCases = O.cases && O.cases < n ? O.cases : n;
  }
  if ((uint64_t)O.workers > nCases) O.workers = (int)std::max<uint64_t>(nCases, 1);
  hashCap = nCases / (uint64_t)O.workers + 2;
  hashes = (uint64_t *)shm(hashCap * (uint64_t)O.workers * 8);
  double t0 = now();
  std::vector<pid_t> pid(O.workers);
  std::vector<int> fd(O.workers);
  for (int w = 0; w < O.workers; w++) {
    fd[w] = errFd();
    pid[w] = fork();
    if (pid[w] < 0) {
      perror("fork");
      return 2;
    }
    if (pid[w] == 0) worker(w, fd[w]);
  }
  int failed = -1, left = O.workers, badWorker = -1;
  std::string how, badHow;
  Res fres = RES_OK;
  while (left) {
    int st;
    pid_t p = wait(&st);
    if (p < 0) {
      if (errno == EINTR) continue;
      break;
    }
    int w = (int)(std::find(pid.begin(), pid.end(), p) - pid.begin());
    if (w == O.workers) continue;
    left--;
    pid[w] = 0;
    std::string h;
    Res r = classify(st, h);
    if (failed >= 0) continue;
    if (bad(r)) {
      failed = w;
      how = h;
      fres = r;
      for (pid_t q : pid)
        if (q > 0) kill(q, SIGKILL);
    } else if (r == RES_BAD) {
      badWorker = w;
      badHow = h;
    }
  }
  int rc = 0;
  std::string vmsg, vfile, note;
  if (failed >= 0) {
    Slot *sl = &slots[failed];
    uint64_t idx = sl->idx;
    std::vector<uint8_t> bytes(sl->rec, sl->rec + sl->reclen);
    std::string orig = sl->msg[0] ? std::string(sl->msg) : how;
    std::string origErr = slurp(fd[failed], 20000);
    if (sl->active == 0) note = "failure outside a case; ";
    std::vector<uint64_t> pre;
    auto confirm = [&](int times) {
      for (int k = 0; k < times; k++)
        if (!bad(tryBytes(bytes, pre, false, msg, err, O.cpu))) return false;
      return true;
    };
    bool ok = confirm(1);
    if (!ok) { // perhaps state left behind by earlier cases of the same process
      uint64_t avail = (idx - O.start) / (uint64_t)O.workers, k = 1;
      double tp = now();
      while (!ok && avail && now() - tp < 60) {
        if (k > avail) k = avail;
        pre.clear();
        for (uint64_t j = k; j >= 1; j--) pre.push_back(idx - j * (uint64_t)O.workers);
        ok = confirm(1);
        if (k == avail) break;
        k *= 4;
      }
      if (!ok) pre.clear();
    }
    bool stable = ok && (fres == RES_HANG || confirm(2));
    uint64_t tries = 0;
    if (stable && !E->indexed && pre.size() < 64) shrink(bytes, pre, fres == RES_HANG, tries);
    std::string tmsg, trace;
    Res r = RES_OK;
    if (ok) {
      r = tryBytes(bytes, pre, true, tmsg, trace, O.cpu);
      if (!bad(r)) tmsg = orig, trace = origErr;
    } else
      tmsg = orig, trace = origErr;
    std::string se = shortErr(trace);
    vmsg = tmsg;
    if (!se.empty() && vmsg.find(se) == std::string::npos) vmsg += ": " + se;
    if (!stable) {
      note += "the failure of case " + std::to_string(idx) + " did not repeat in a fresh process every time";
      vmsg += " [seen once; not repeated in a fresh process]";
    }
    bool report = true;
    if (!stable && fres == RES_HANG) report = false; // could be a starved machine
    if (report) {
      rc = 1;
      vfile = writeReplay(bytes, pre, vmsg, trace, stable, O.workers);
    } else
      rc = 2;
  } else if (badWorker >= 0) {
    rc = 2;
    note = "worker failed: " + badHow + ": " + slurp(fd[badWorker], 2000);
  }
  // ---- totals
  uint64_t ev = 0, direct = 0, done = 0;
  std::vector<uint64_t> all;
  uint64_t cls[NCLASS] = {0};
  std::vector<std::string> samples;
  for (int w = 0; w < O.workers; w++) {
    Slot &s = slots[w];
    ev += s.st.evals;
    direct += s.st.nontrivialDirect;
    done += s.done;
    for (int k = 0; k < NCLASS; k++) cls[k] += s.st.cls[k];
    all.insert(all.end(), hashes + (uint64_t)w * hashCap, hashes + (uint64_t)w * hashCap + s.nhash);
    if (s.nsample && samples.size() < 4) samples.push_back(s.sample[(s.nsample - 1) % 3]);
  }
  std::sort(all.begin(), all.end());
  all.erase(std::unique(all.begin(), all.end()), all.end());
  std::string j = "{\"engine\":" + js(O.engine) + ",\"param\":" + js(O.param) + ",\"flavour\":" + js(O.flavour) + ",\"cases\":" + std::to_string(done) + ",\"planned\":" + std::to_string(nCases) +
                  ",\"evaluations\":" + std::to_string(ev) + ",\"distinct_nontrivial\":" + std::to_string(all.size() + direct) + ",\"rule\":" + js(E->rule) + ",\"samples\":[";
  for (size_t i = 0; i < samples.size(); i++) j += (i ? "," : "") + js(samples[i]);
  j += "],\"classes\":{";
  bool first = true;
  for (int k = 0; k < NCLASS; k++)
    if (g_clsTable[k][0]) j += (first ? "" : ",") + js(g_clsTable[k]) + ":" + std::to_string(cls[k]), first = false;
  char wb[40];
  snprintf(wb, sizeof wb, "%.2f", now() - t0);
  j += std::string("},\"wall_s\":") + wb + ",\"note\":" + js(note) + ",\"violation\":" + (rc == 1 ? "{\"message\":" + js(vmsg) + ",\"replay\":" + js(vfile) + "}" : "null") + "}\n";
  if (O.out.empty() || O.out == "-") fputs(j.c_str(), stdout);
  else {
    FILE *f = fopen(O.out.c_str(), "w");
    if (!f) return 2;
    fputs(j.c_str(), f);
    fclose(f);
  }
  return rc;
}
