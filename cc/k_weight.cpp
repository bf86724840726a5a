// weight clipper, modifier, remapper through the floating point tile
#include "kern.h"
#include "rpu.h"
using namespace RPU;
KERNEL(clip) {
  int type = io.i(), x = io.i(), d = io.i(), warm = io.i();
  RPUSimple<float> rpu(x, d);
  WeightClipParameter p;
  p.type = (WeightClipType)type;
  p.fixed_value = io.r();
  p.sigma = io.r();
  if (warm) {
    auto w0 = io.rv(x * d);
    rpu.setWeights(w0.data());
    rpu.clipWeights(p);
  }
  auto w = io.rv(x * d);
  rpu.setWeights(w.data());
  rpu.clipWeights(p);
  rpu.getWeights(w.data());
  io.outs(w.data(), x * d);
}
KERNEL(clipvalue) { // clipWeights(T)
  int x = io.i(), d = io.i();
  RPUSimple<float> rpu(x, d);
  VsReal c = io.r();
  auto w = io.rv(x * d);
  rpu.setWeights(w.data());
  rpu.clipWeights(c);
  rpu.getWeights(w.data());
  io.outs(w.data(), x * d);
}
KERNEL(modify) { // outputs: forward weights, persistent weights, forward weights during test
  int type = io.i(), x = io.i(), d = io.i(), warm = io.i();
  RPUSimple<float> rpu(x, d);
  WeightModifierParameter<float> p;
  p.type = (WeightModifierType)type;
  p.sto_round = io.i();
  p.copy_last_column = io.i();
  p.rel_to_actual_wmax = io.i();
  p.enable_during_test = io.i();
  p.per_batch_sample = io.i();
  int nc = io.i();
  p.std_dev = io.r();
  p.res = io.r();
  p.dorefa_clip = io.r();
  p.pdrop = io.r();
  p.assumed_wmax = io.r();
  p.g_max = io.r();
  p.coeffs = io.rv(nc);
  if (warm) {
    auto w0 = io.rv(x * d);
    rpu.setWeights(w0.data());
    rpu.modifyFBWeights(p);
  }
  auto w = io.rv(x * d);
  rpu.setWeights(w.data());
  rpu.modifyFBWeights(p);
  io.outs(rpu.getFBWeights(false)[0], x * d);
  rpu.getWeights(w.data());
  io.outs(w.data(), x * d);
  io.outs(rpu.getFBWeights(true)[0], x * d);
}
KERNEL(remap) {
  int type = io.i(), x = io.i(), d = io.i(), warm = io.i();
  RPUSimple<float> rpu(x, d);
  WeightRemapParameter p;
  p.type = (WeightRemapType)type;
  p.clip_if = io.i();
  p.max_scale_range = io.r();
  p.max_scale_ref = io.r();
  p.row_norm = io.r();
  p.remapped_wmax = io.r();
  if (warm) {
    auto w0 = io.rv(x * d), s0 = io.rv(d), b0 = io.rv(d);
    rpu.setWeights(w0.data());
    rpu.remapWeights(p, s0.data(), b0.data());
  }
  auto w = io.rv(x * d), s = io.rv(d), b = io.rv(d);
  rpu.setWeights(w.data());
  rpu.remapWeights(p, s.data(), b.data());
  rpu.getWeights(w.data());
  io.outs(w.data(), x * d);
  io.outs(s.data(), d);
  io.outs(b.data(), d);
}
KERNEL(swa) {
  int type = io.i(), x = io.i(), d = io.i(), scales = io.i();
  RPUSimple<float> rpu(x, d);
  WeightRemapParameter p;
  p.type = (WeightRemapType)type;
  p.swa_every = io.i();
  p.swa_transfer_every = io.i();
  p.swa_start = io.i();
  uint64_t iter = io.i();
  auto w = io.rv(x * d), a = io.rv(x * d), s = io.rv(d), b = io.rv(d);
  rpu.setWeights(w.data());
  bool r = rpu.swaWeights(p, a.data(), iter, scales ? s.data() : nullptr, scales ? b.data() : nullptr);
  rpu.getWeights(w.data());
  io.outs(w.data(), x * d);
  io.outs(a.data(), x * d);
  io.outs(s.data(), d);
  io.outs(b.data(), d);
  io.iouti(r);
}
