#include "kern.h"
#include "rng.h"
KERNEL(discretize) {
  RPU::RNG<VsReal> g(1);
  VsReal x = io.r(), res = io.r();
  bool sto = io.i();
  io.out(RPU::getDiscretizedValue<VsReal>(x, res, sto, g));
}
