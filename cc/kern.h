// Entry points called by the contracts (pyvc/cc.py): reals and integers in, reals and integers out.
#pragma once
#include "utility_functions.h"
#include <map>
struct Io {
  const vs::rep *rin;
  long nr;
  const int64_t *iin;
  long ni;
  vs::rep *rout;
  long nro, cro;
  int64_t *iout;
  long nio, cio;
  long pr = 0, pi = 0;
  VsReal r() {
    if (pr >= nr) throw std::logic_error("kernel: real input missing");
    return VsReal::raw(rin[pr++]);
  }
  int i() {
    if (pi >= ni) throw std::logic_error("kernel: integer input missing");
    return (int)iin[pi++];
  }
  int64_t i64() {
    if (pi >= ni) throw std::logic_error("kernel: integer input missing");
    return iin[pi++];
  }
  void out(VsReal x) {
    if (nro >= cro) throw std::logic_error("kernel: too many outputs");
    rout[nro++] = x.v;
  }
  void iouti(int64_t x) {
    if (nio >= cio) throw std::logic_error("kernel: too many outputs");
    iout[nio++] = x;
  }
  void rs(VsReal *p, int n) { for (int k = 0; k < n; k++) p[k] = r(); }
  std::vector<VsReal> rv(int n) { std::vector<VsReal> v(n); rs(v.data(), n); return v; }
  void outs(const VsReal *p, int n) { for (int k = 0; k < n; k++) out(p[k]); }
};
typedef void (*KernelFn)(Io &);
std::map<std::string, KernelFn> &kernels();
struct KernelReg { KernelReg(const char *n, KernelFn f) { kernels()[n] = f; } };
#define KERNEL(n) static void k_##n(Io &io); static KernelReg reg_##n(#n, k_##n); static void k_##n(Io &io)
