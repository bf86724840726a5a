#include "tile.h"
#include "params.inc"
static std::vector<std::unique_ptr<Hnd>> &table() { static std::vector<std::unique_ptr<Hnd>> t; return t; }
Hnd &hnd(Io &io) {
  int k = io.i();
  if (k < 0 || k >= (int)table().size()) throw std::logic_error("kernel: bad handle");
  return *table()[k];
}
static int put(RPUSimple<float> *r) {
  auto h = std::unique_ptr<Hnd>(new Hnd());
  h->rpu.reset(r);
  h->pulsed = dynamic_cast<RPUPulsed<float> *>(r);
  table().push_back(std::move(h));
  return (int)table().size() - 1;
}
int newtile(RPUSimple<float> *r) { return put(r); }
KERNEL(reset) { table().clear(); }
KERNEL(tile) { // kind (0 float, 1 analog), x, d, use createRPUArray, parameters
  int kind = io.i(), x = io.i(), d = io.i(), full = io.i();
  RPUSimple<float> *r;
  if (kind == 0) {
    SimpleMetaParameter<float> p;
    vset(p, io);
    p.use_delayed_update = io.i();
    if (full) r = p.createRPUArray(x, d);
    else { r = new RPUSimple<float>(x, d); r->populateParameter(&p); }
  } else {
    PulsedMetaParameter<float> p;
    vset(p, io);
    std::unique_ptr<DevPar> dp(mkdev(io));
    dp->use_delayed_update = io.i();
    if (full) r = p.createRPUArray(x, d, &*dp);
    else {
      auto *q = new RPUPulsed<float>(x, d);
      r = q;
      q->populateParameter(&p, &*dp);
    }
  }
  io.iouti(put(r));
}
KERNEL(copy) { // 0 copy, 1 copy assignment, 2 move, 3 move assignment
  Hnd &h = hnd(io);
  int how = io.i();
  RPUSimple<float> *r;
  int x = h.rpu->getXSize(), d = h.rpu->getDSize();
  if (h.pulsed) {
    if (how == 0) r = new RPUPulsed<float>(*h.pulsed);
    else if (how == 2) r = new RPUPulsed<float>(std::move(*h.pulsed));
    else {
      auto *q = new RPUPulsed<float>(x, d);
      r = q;
      if (how == 1) *q = *h.pulsed; else *q = std::move(*h.pulsed);
    }
  } else {
    if (how == 0) r = new RPUSimple<float>(*h.rpu);
    else if (how == 2) r = new RPUSimple<float>(std::move(*h.rpu));
    else {
      r = new RPUSimple<float>(x, d);
      if (how == 1) *r = *h.rpu; else *r = std::move(*h.rpu);
    }
  }
  int k = put(r);
  io.iouti(k);
}
KERNEL(set_weights) { Hnd &h = hnd(io); auto w = io.rv(h.rpu->getXSize() * h.rpu->getDSize()); h.rpu->setWeights(w.data()); }
KERNEL(get_weights) {
  Hnd &h = hnd(io);
  int n = h.rpu->getXSize() * h.rpu->getDSize();
  std::vector<float> w(n);
  h.rpu->getWeights(w.data());
  io.outs(w.data(), n);
}
KERNEL(raw_weights) { Hnd &h = hnd(io); io.outs(h.w()[0], h.rpu->getXSize() * h.rpu->getDSize()); } // bypasses the tile
KERNEL(poke_weights) { Hnd &h = hnd(io); io.rs(h.w()[0], h.rpu->getXSize() * h.rpu->getDSize()); }
KERNEL(share_weights) {
  Hnd &h = hnd(io);
  h.shared.resize(h.rpu->getXSize() * h.rpu->getDSize());
  h.rpu->setSharedWeights(h.shared.data());
}
KERNEL(shared) { Hnd &h = hnd(io); io.outs(h.shared.data(), h.shared.size()); }
KERNEL(weights_alpha) { // 0: weights with alpha, 1: weights and bias, 2: both
  Hnd &h = hnd(io);
  int how = io.i(), x = h.rpu->getXSize(), d = h.rpu->getDSize();
  float a = io.r();
  auto w = io.rv(d * (how ? x - 1 : x)), b = io.rv(how ? d : 0);
  if (how == 0) h.rpu->setWeightsWithAlpha(w.data(), a);
  else if (how == 1) h.rpu->setWeightsAndBias(w.data(), b.data());
  else h.rpu->setWeightsAndBiasWithAlpha(w.data(), b.data(), a);
}
KERNEL(set_alpha) { Hnd &h = hnd(io); float f = io.r(), b = io.r(); h.rpu->setFwdAlpha(f, false); h.rpu->setBwdAlpha(b, false); }
KERNEL(get_alpha) { Hnd &h = hnd(io); io.out(h.rpu->getFwdAlpha()); io.out(h.rpu->getBwdAlpha()); }
KERNEL(set_lr) { hnd(io).rpu->setLearningRate(io.r()); }
KERNEL(get_lr) { io.out(hnd(io).rpu->getLearningRate()); }
KERNEL(forward) { // bias, batch, x_trans, d_trans, is_test
  Hnd &h = hnd(io);
  int b = io.i(), m = io.i(), xt = io.i(), dt = io.i(), test = io.i();
  auto X = io.rv((h.rpu->getXSize() - b) * m);
  std::vector<float> D(h.rpu->getDSize() * m);
  h.rpu->forward(X.data(), D.data(), b, m, xt, dt, test);
  io.outs(D.data(), D.size());
}
KERNEL(backward) {
  Hnd &h = hnd(io);
  int b = io.i(), m = io.i(), dt = io.i(), xt = io.i();
  auto D = io.rv(h.rpu->getDSize() * m);
  std::vector<float> X((h.rpu->getXSize() - b) * m);
  h.rpu->backward(D.data(), X.data(), b, m, dt, xt);
  io.outs(X.data(), X.size());
}
KERNEL(update) {
  Hnd &h = hnd(io);
  int b = io.i(), m = io.i(), xt = io.i(), dt = io.i();
  auto X = io.rv((h.rpu->getXSize() - b) * m), D = io.rv(h.rpu->getDSize() * m);
  h.rpu->update(X.data(), D.data(), b, m, xt, dt);
}
KERNEL(forward_tensor) { // bias, batch, dim3, trans, is_test
  Hnd &h = hnd(io);
  int b = io.i(), m = io.i(), d3 = io.i(), t = io.i(), test = io.i();
  auto X = io.rv((h.rpu->getXSize() - b) * m * d3);
  std::vector<float> D(h.rpu->getDSize() * m * d3);
  h.rpu->forwardTensor(X.data(), D.data(), b, m, d3, t, test);
  io.outs(D.data(), D.size());
}
KERNEL(backward_tensor) {
  Hnd &h = hnd(io);
  int b = io.i(), m = io.i(), d3 = io.i(), t = io.i();
  auto D = io.rv(h.rpu->getDSize() * m * d3);
  std::vector<float> X((h.rpu->getXSize() - b) * m * d3);
  h.rpu->backwardTensor(D.data(), X.data(), b, m, d3, t);
  io.outs(X.data(), X.size());
}
KERNEL(update_tensor) {
  Hnd &h = hnd(io);
  int b = io.i(), m = io.i(), d3 = io.i(), t = io.i();
  auto X = io.rv((h.rpu->getXSize() - b) * m * d3), D = io.rv(h.rpu->getDSize() * m * d3);
  h.rpu->updateTensor(X.data(), D.data(), b, m, d3, t);
}
KERNEL(set_indices) {
  Hnd &h = hnd(io);
  int n = io.i();
  h.idx.resize(n);
  for (int &k : h.idx) k = io.i();
  h.rpu->setMatrixIndices(h.idx.data());
}
static std::vector<int> slices(Io &io, int &m_slice) { // 0: no slice
  m_slice = io.i();
  std::vector<int> v(m_slice ? io.i() : 0);
  for (int &k : v) k = io.i();
  return v;
}
KERNEL(forward_indexed) { // input size, batch, dim3, trans, is_test, slice; the slice writes the given output
  Hnd &h = hnd(io);
  int n = io.i(), m = io.i(), d3 = io.i(), t = io.i(), test = io.i(), ms;
  auto v = slices(io, ms);
  auto X = io.rv(n);
  std::vector<float> D(h.rpu->getDSize() * m * d3, (float)0.0);
  if (ms) h.rpu->forwardIndexedSlice(X.data(), D.data(), n, m, d3, t, ms, v.data(), test);
  else h.rpu->forwardIndexed(X.data(), D.data(), n, m, d3, t, test);
  io.outs(D.data(), D.size());
}
KERNEL(backward_indexed) {
  Hnd &h = hnd(io);
  int n = io.i(), m = io.i(), d3 = io.i(), t = io.i(), ms;
  auto v = slices(io, ms);
  auto D = io.rv(h.rpu->getDSize() * m * d3);
  std::vector<float> X(n, (float)0.0);
  if (ms) h.rpu->backwardIndexedSlice(D.data(), X.data(), n, m, d3, t, ms, v.data());
  else h.rpu->backwardIndexed(D.data(), X.data(), n, m, d3, t);
  io.outs(X.data(), X.size());
}
KERNEL(update_indexed) {
  Hnd &h = hnd(io);
  int n = io.i(), m = io.i(), d3 = io.i(), t = io.i(), ms;
  auto v = slices(io, ms);
  auto X = io.rv(n), D = io.rv(h.rpu->getDSize() * m * d3);
  if (ms) h.rpu->updateIndexedSlice(X.data(), D.data(), n, m, d3, t, ms, v.data());
  else h.rpu->updateIndexed(X.data(), D.data(), n, m, d3, t);
}
KERNEL(delta) { // 1: collect updates in a separate buffer, 0: stop
  Hnd &h = hnd(io);
  if (io.i()) {
    h.delta.assign(h.rpu->getXSize() * h.rpu->getDSize(), (float)0.0);
    h.rpu->setDeltaWeights(h.delta.data());
  } else h.rpu->setDeltaWeights(nullptr);
}
KERNEL(get_delta) { Hnd &h = hnd(io); io.outs(h.delta.data(), h.delta.size()); }
KERNEL(reset_update) { // getAndResetWeightUpdate
  Hnd &h = hnd(io);
  int n = h.rpu->getXSize() * h.rpu->getDSize();
  auto w = io.rv(n);
  float s = io.r();
  h.rpu->getAndResetWeightUpdate(w.data(), s);
  io.outs(w.data(), n);
}
KERNEL(apply_update) {
  Hnd &h = hnd(io);
  int n = h.rpu->getXSize() * h.rpu->getDSize();
  auto w = io.rv(n);
  h.rpu->applyWeightUpdate(w.data());
  io.outs(w.data(), n);
}
KERNEL(apply_delayed) { hnd(io).rpu->applyDelayedWeights(); }
KERNEL(decay) { // 0/1 with alpha, bias_no_decay
  Hnd &h = hnd(io);
  int a = io.i(), nb = io.i();
  if (a) h.rpu->decayWeights(io.r(), nb); else h.rpu->decayWeights((bool)nb);
}
KERNEL(diffuse) { hnd(io).rpu->diffuseWeights(); }
KERNEL(drift) { hnd(io).rpu->driftWeights(io.r()); }
KERNEL(tclip) { hnd(io).rpu->clipWeights(io.r()); }
KERNEL(tclip_par) {
  Hnd &h = hnd(io);
  WeightClipParameter p;
  p.type = (WeightClipType)io.i();
  p.fixed_value = io.r();
  p.sigma = io.r();
  h.rpu->clipWeights(p);
}
KERNEL(reset_cols) { Hnd &h = hnd(io); int s = io.i(), n = io.i(); h.rpu->resetCols(s, n, io.r()); }
void setmod(WeightModifierParameter<float> &p, Io &io) { vset(p, io); }
KERNEL(tmodify) { Hnd &h = hnd(io); WeightModifierParameter<float> p; vset(p, io); h.rpu->modifyFBWeights(p); }
KERNEL(fb_weights) { Hnd &h = hnd(io); int test = io.i(); io.outs(h.rpu->getFBWeights(test)[0], h.rpu->getXSize() * h.rpu->getDSize()); }
static void outstr(Io &io, const std::string &s) { io.iouti(s.size()); for (char c : s) io.iouti(c); }
KERNEL(hidden_names) {
  Hnd &h = hnd(io);
  std::vector<std::string> n;
  h.rpu->getDeviceParameterNames(n);
  io.iouti(n.size());
  for (auto &s : n) outstr(io, s);
}
static std::vector<std::vector<float>> hbuf(Hnd &h, std::vector<float *> &p) {
  std::vector<std::string> n;
  h.rpu->getDeviceParameterNames(n);
  std::vector<std::vector<float>> b(n.size(), std::vector<float>(h.rpu->getXSize() * h.rpu->getDSize(), (float)0.0));
  for (auto &v : b) p.push_back(v.data());
  return b;
}
KERNEL(get_hidden) {
  Hnd &h = hnd(io);
  std::vector<float *> p;
  auto b = hbuf(h, p);
  h.rpu->getDeviceParameter(p);
  for (auto &v : b) io.outs(v.data(), v.size());
}
KERNEL(set_hidden) {
  Hnd &h = hnd(io);
  std::vector<float *> p;
  auto b = hbuf(h, p);
  for (auto &v : b) io.rs(v.data(), v.size());
  h.rpu->setDeviceParameter(p);
}
KERNEL(hidden_idx) { Hnd &h = hnd(io); int k = io.i(); if (k >= 0) h.rpu->setHiddenUpdateIdx(k); io.iouti(h.rpu->getHiddenUpdateIdx()); }
KERNEL(dump) { // keys and values
  Hnd &h = hnd(io);
  RPU::state_t s;
  h.rpu->dumpExtra(s, "rpu");
  h.dump = s;
  std::map<std::string, std::vector<double>> m(s.begin(), s.end());
  io.iouti(m.size());
  for (auto &kv : m) {
    outstr(io, kv.first);
    io.iouti(kv.second.size());
    for (auto &v : kv.second) io.out(v);
  }
}
static std::string instr(Io &io) { std::string s(io.i(), ' '); for (char &c : s) c = (char)io.i(); return s; }
KERNEL(load) { // strict, entries
  Hnd &h = hnd(io);
  int strict = io.i(), n = io.i();
  RPU::state_t s;
  while (n--) {
    auto k = instr(io);
    std::vector<double> v(io.i());
    for (auto &x : v) x = io.r();
    s[k] = v;
  }
  h.rpu->loadExtra(s, "rpu", strict);
}
KERNEL(load_from) { // state dumped last by another tile, key by key
  Hnd &h = hnd(io);
  Hnd &o = hnd(io);
  h.rpu->loadExtra(o.dump, "rpu", io.i());
}
// --- device level
KERNEL(sparse) { // row, sign of the row, signed column indices (1-based)
  Hnd &h = hnd(io);
  int i = io.i(), sign = io.i(), n = io.i();
  std::vector<int> v(n);
  for (int &k : v) k = io.i();
  dynamic_cast<PulsedRPUDeviceBase<float> *>(h.dev())->doSparseUpdate(h.w(), i, v.data(), n, sign, &h.rng);
}
KERNEL(dense) { // coincidences
  Hnd &h = hnd(io);
  std::vector<int> v(h.rpu->getXSize() * h.rpu->getDSize());
  for (int &k : v) k = io.i();
  dynamic_cast<PulsedRPUDeviceBase<float> *>(h.dev())->doDenseUpdate(h.w(), v.data(), &h.rng);
}
KERNEL(granularity) {
  Hnd &h = hnd(io);
  auto *d = dynamic_cast<PulsedRPUDeviceBase<float> *>(h.dev());
  io.out(d->getWeightGranularity());
  io.out(d->getNumStates());
}

// what the library holds after taking over a configuration (parameters are cloned)
KERNEL(dev_back) {
  std::unique_ptr<DevPar> dp(mkdev(io));
  std::unique_ptr<DevPar> q(dp->clone());
  dp.reset();
  getdev(*q, io);
}
KERNEL(pars_back) { pars_back(io); }
