// pulse trains: update management, sparse and dense bit line makers
#include "kern.h"
#include "rpu_weight_updater.h"
#include "sparse_bit_line_maker.h"
#include "dense_bit_line_maker.h"
using namespace RPU;
namespace {
PulsedUpdateMetaParameter<float> up_par(Io &io) {
  PulsedUpdateMetaParameter<float> up;
  up.pulse_type = (PulseType)io.i();
  up.desired_BL = io.i();
  up.fixed_BL = io.i();
  up.update_management = io.i();
  up.update_bl_management = io.i();
  up.sto_round = io.i();
  up.um_grad_scale = io.r();
  up.res = io.r();
  up.x_res_implicit = io.r();
  up.d_res_implicit = io.r();
  up.initialize();
  return up;
}
} // namespace
KERNEL(manage) { // reals: up, x_max, d_max, lr, granularity -> A, B; BL
  int managed = io.i();
  auto up = up_par(io);
  VsReal x = io.r(), d = io.r(), lr = io.r(), g = io.r(), A = 0, B = 0;
  int BL = 0;
  if (managed) up.performUpdateManagement(BL, A, B, up.desired_BL, x, d, lr, g);
  else up.calculateBlAB(BL, A, B, lr, g);
  io.out(A);
  io.out(B);
  io.iouti(BL);
}
KERNEL(trains) { // sparse bit lines: rounds, x size, d size; per round x, d
  int rounds = io.i(), nx = io.i(), nd = io.i(), xi = io.i(), di = io.i();
  auto up = up_par(io);
  VsReal lr = io.r(), g = io.r();
  RNG<float> rng(0);
  std::unique_ptr<SparseBitLineMaker<float>> m(new SparseBitLineMaker<float>(nx, nd));
  for (int q = 0; q < rounds; q++) {
    auto x = io.rv(nx * xi), d = io.rv(nd * di);
    int xz = 0, dz = 0;
    int BL = m->makeCounts(x.data(), xi, xz, d.data(), di, dz, &rng, lr, g, up);
    if (q + 1 < rounds) {
      if (q % 2) { // a copied generator replaces the first one
        std::unique_ptr<SparseBitLineMaker<float>> c(new SparseBitLineMaker<float>(*m));
        m = std::move(c);
      }
      continue;
    }
    io.iouti(BL);
    io.iouti(xz);
    io.iouti(dz);
    if (!BL) continue;
    int *xp, *xn, *dc, **ip, **in, **id;
    bool sep = m->getCountsAndIndices(xp, xn, dc, ip, in, id);
    io.iouti(sep);
    for (int k = 0; k < BL; k++) {
      io.iouti(xp[k]);
      for (int j = 0; j < xp[k]; j++) io.iouti(ip[k][j]);
      io.iouti(sep ? xn[k] : 0);
      if (sep)
        for (int j = 0; j < xn[k]; j++) io.iouti(in[k][j]);
      io.iouti(dc[k]);
      for (int j = 0; j < dc[k]; j++) io.iouti(id[k][j]);
    }
  }
}
KERNEL(coincidences) {
  int rounds = io.i(), nx = io.i(), nd = io.i(), xi = io.i(), di = io.i();
  auto up = up_par(io);
  VsReal lr = io.r(), g = io.r();
  RNG<float> rng(0);
  DenseBitLineMaker<float> m(nx, nd);
  for (int q = 0; q < rounds; q++) {
    auto x = io.rv(nx * xi), d = io.rv(nd * di);
    int xz = 0, dz = 0;
    int *c = m.makeCoincidences(x.data(), xi, xz, d.data(), di, dz, &rng, lr, g, up);
    if (q + 1 < rounds) continue;
    for (int k = 0; k < nx * nd; k++) io.iouti(c[k]);
    io.iouti(xz);
    io.iouti(dz);
  }
}
