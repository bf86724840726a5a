#include "kern.h"
#include <dlfcn.h>
#include <cxxabi.h>
namespace vs { Hooks hooks; }
std::map<std::string, KernelFn> &kernels() { static std::map<std::string, KernelFn> m; return m; }
#define NOI __attribute__((no_instrument_function))
static void *seen[1 << 14];
extern "C" {
NOI void __cyg_profile_func_enter(void *f, void *) {
  size_t h = ((size_t)f >> 4) * 0x9E3779B97F4A7C15ull >> 50;
  for (int k = 0; k < 64; k++, h = (h + 1) & 16383) {
    if (seen[h] == f) return;
    if (!seen[h]) { seen[h] = f; return; }
  }
}
NOI void __cyg_profile_func_exit(void *, void *) {}
long vs_check() { return 0; }
void vs_init(vs::Hooks *h) { vs::hooks = *h; std::cout.rdbuf(nullptr); }
long vs_functions(char *buf, long cap) {
  std::set<std::string> s;
  for (void *p : seen) {
    Dl_info di;
    if (p && dladdr(p, &di) && di.dli_sname) {
      int st;
      char *d = abi::__cxa_demangle(di.dli_sname, 0, 0, &st);
      if (d) { std::string n(d); free(d); if (n.find("RPU::") != std::string::npos) s.insert(n); }
    }
  }
  std::string r;
  for (auto &x : s) r += x + "\n";
  long n = std::min((long)r.size(), cap - 1);
  memcpy(buf, r.data(), n);
  buf[n] = 0;
  return n;
}
// 0 ok, 1 path ended by the verifier, 2 exception of the code, 3 bad kernel
long vs_run(const char *name, const vs::rep *ri, long nr, const int64_t *ii, long ni, vs::rep *ro, long cro, int64_t *io_, long cio,
            long *counts, char *err, long cerr_) {
  auto it = kernels().find(name);
  err[0] = 0;
  if (it == kernels().end()) { snprintf(err, cerr_, "no kernel %s", name); return 3; }
  Io io{ri, nr, ii, ni, ro, 0, cro, io_, 0, cio};
  try {
    it->second(io);
    counts[0] = io.nro; counts[1] = io.nio; counts[2] = io.pr; counts[3] = io.pi;
    return 0;
  } catch (vs::Abort &) {
    return 1;
  } catch (std::logic_error &e) {
    if (!strncmp(e.what(), "kernel:", 7)) { snprintf(err, cerr_, "%s", e.what()); return 3; }
    snprintf(err, cerr_, "%s", e.what());
    return 2;
  } catch (std::exception &e) {
    snprintf(err, cerr_, "%s", e.what());
    return 2;
  }
}
}
