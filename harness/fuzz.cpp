// libFuzzer entry: the fuzzer's bytes are the choice sequence of an engine.
#include "engines.h"
#define X(n) extern "C" const Api *vf_api_##n(void);
VF_APIS
#undef X
static std::string env(const char *n) {
  const char *v = getenv(n);
  return v ? v : "";
}
extern "C" int LLVMFuzzerTestOneInput(const uint8_t *data, size_t n) {
  static const Engine *e = findEngine(env("VF_FUZZ_ENGINE"));
  static const std::string param = env("VF_FUZZ_PARAM");
  if (!e) {
    fprintf(stderr, "no engine\n");
    _Exit(3);
  }
  Ctx c;
#define X(n) c.apis.push_back(vf_api_##n());
  VF_APIS
#undef X
  c.param = param;
  Src s(data, n);
  try {
    e->run(c, s);
  } catch (Violation &v) {
    fprintf(stderr, "VIOLATION-DETAIL %s\n", v.msg.c_str());
    __builtin_trap();
  }
  return 0;
}
