// Stand-in of rpucuda's rng.h: every draw is a value of its support chosen by the verifier.
#pragma once
#include "math_util.h"
typedef int randomint_t;
namespace RPU {
inline VsReal vs_draw(int kind) {
#ifdef VS_SYM
  return VsReal::raw(vs::chk(vs::hooks.draw(kind)));
#else
  return VsReal(vs::hooks.draw(kind));
#endif
}
template <typename T> class RealWorldRNG {
public:
  explicit RealWorldRNG(unsigned int) {}
  RealWorldRNG() {}
  void setSeed(unsigned int) {}
  T sampleGauss() { return vs_draw(0); }
  T sampleUniform() { return vs_draw(1); }
};
template <typename T> class RNG {
public:
  explicit RNG(unsigned int) {}
  RNG() {}
  void generateNewList() {}
  void generateNewList(int) {}
  void randomizeSeed() {}
  void setSeed(unsigned int) {}
  T sampleUniform() { return vs_draw(2); } // [0, 1]
  T sampleUniform(float min_max) { return (vs_draw(2) - 0.5) * 2.0 * min_max; }
  T sampleUniform(float a, float b) { return vs_draw(2) * (b - a) + a; }
  T sampleGauss() { return vs_draw(0); }
};
} // namespace RPU
