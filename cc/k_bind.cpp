// Calls the functions registered by rpu_base_tiles.cpp (compiled unchanged against cc/mock).
#include "rpu_base.h"
#include "rpu_pulsed.h"
#include "weight_clipper.h"
#include "weight_modifier.h"
#include "weight_remapper.h"
#include "tile.h"
namespace torch {
std::set<Storage *> &storages() { static std::set<Storage *> s; return s; }
static bool freed_intact = true;
static VsReal poison(long k) { return VsReal(7340032 + 3 * k); }
Storage::Storage(ScalarType t, long n_) : type(t), n(n_) {
  static long k = 0;
  if (storages().empty()) k = 0;
  if (fp(t)) { f.resize(n + 2 * GUARD); for (auto &x : f) x = poison(k++ % 4096); f0 = f; }
  else if (t == kInt32) i.assign(n + 2 * GUARD, -77777);
  else l.assign(n + 2 * GUARD, -77777);
  storages().insert(this);
}
bool Storage::intact() const {
  for (int j = 0; j < 2 * GUARD; j++) {
    long p = j < GUARD ? j : j + n;
    if (fp(type) ? memcmp(&f[p].v, &f0[p].v, sizeof(vs::rep)) != 0 : type == kInt32 ? i[p] != -77777 : l[p] != -77777) return false;
  }
  return true;
}
Storage::~Storage() { if (!intact()) freed_intact = false; storages().erase(this); }
bool guards_intact() {
  bool ok = freed_intact;
  freed_intact = true;
  for (auto *s : storages()) ok = ok && s->intact();
  return ok;
}
Tensor empty(const std::vector<int64_t> &s, const TensorOptions &o) {
  Tensor t;
  t.sz = s;
  t.sd = Tensor::dense(s);
  t.dev = o.d;
  for (auto k : s) if (k < 0) throw Error("negative dimension");
  t.st = std::make_shared<Storage>(o.t, t.numel());
  return t;
}
static void copy_cell(Storage &a, int64_t i, Storage &b, int64_t j) { // b[j] -> a[i]
  VsReal r;
  int64_t l = 0;
  bool bf = fp(b.type);
  if (bf) r = b.f[GUARD + j];
  else l = b.type == kInt32 ? b.i[GUARD + j] : b.l[GUARD + j];
  if (fp(a.type)) a.f[GUARD + i] = bf ? r : VsReal(l);
  else if (a.type == kInt32) a.i[GUARD + i] = bf ? (int)r : (int)l;
  else a.l[GUARD + i] = bf ? (int64_t)r : l;
}
Tensor Tensor::dup(ScalarType t) const {
  Tensor r = empty(sz, TensorOptions{t, dev});
  auto o = offsets();
  for (size_t k = 0; k < o.size(); k++) copy_cell(*r.st, k, *st, o[k]);
  return r;
}
Tensor zeros(const std::vector<int64_t> &s, const TensorOptions &o) {
  Tensor t = empty(s, o);
  for (int64_t k = 0; k < t.numel(); k++)
    if (fp(o.t)) t.st->f[GUARD + k] = 0; else if (o.t == kInt32) t.st->i[GUARD + k] = 0; else t.st->l[GUARD + k] = 0;
  return t;
}
} // namespace torch
namespace pybind11 {
std::map<std::string, ClassInfo> &registry() { static std::map<std::string, ClassInfo> r; return r; }
std::map<std::string, std::string> &type_names() { static std::map<std::string, std::string> r; return r; }
static std::vector<Function> *find(const std::string &cls, const std::string &name) {
  auto it = registry().find(cls);
  if (it == registry().end()) return nullptr;
  auto f = it->second.fun.find(name);
  if (f != it->second.fun.end()) return &f->second;
  for (auto &b : it->second.bases) if (auto *r = find(b, name)) return r;
  return nullptr;
}
Value invoke(const std::string &cls, const std::string &name, void *self, std::vector<Value> &pos, std::map<std::string, Value> &kw) {
  auto *fs = find(cls, name);
  if (!fs) throw TypeError("no attribute " + name);
  for (auto &f : *fs) {
    if ((int)pos.size() > f.n) continue;
    std::vector<Value> v(pos);
    size_t used = 0;
    bool ok = true;
    for (int k = (int)pos.size(); k < f.n && ok; k++) {
      if (k >= (int)f.args.size()) { ok = false; break; }
      auto it = kw.find(f.args[k].n);
      if (it != kw.end()) { v.push_back(it->second); used++; }
      else if (f.args[k].has) v.push_back(f.args[k].d);
      else ok = false;
    }
    if (!ok || used != kw.size()) continue;
    return f.f(self, v);
  }
  throw TypeError(name + "(): incompatible function arguments");
}
} // namespace pybind11
static std::string instr(Io &io) { std::string s(io.i(), ' '); for (char &c : s) c = (char)io.i(); return s; }
static void outstr(Io &io, const std::string &s) { io.iouti(s.size()); for (char c : s) io.iouti(c); }
static void declare() {
  static bool done = false;
  if (done) return;
  done = true;
  py::module_ m;
  declare_rpu_tiles<float, float>(m, "");
}
static std::map<int, torch::Tensor> &slots() { static std::map<int, torch::Tensor> s; return s; }
static int next_slot = 0;
static torch::Tensor &slot(int k) {
  auto it = slots().find(k);
  if (it == slots().end()) throw std::logic_error("kernel: no tensor");
  return it->second;
}
KERNEL(bind_reset) { slots().clear(); next_slot = 0; torch::guards_intact(); }
KERNEL(bind_tensor) { // type, device, dims, sizes, strides, cells of the storage, values of the storage
  torch::TensorOptions o;
  o.t = (torch::ScalarType)io.i();
  o.d = (torch::Device)io.i();
  int nd = io.i();
  std::vector<int64_t> sz(nd), sd(nd);
  for (auto &x : sz) x = io.i();
  for (auto &x : sd) x = io.i();
  int n = io.i();
  torch::Tensor t = torch::empty({n}, o);
  for (int k = 0; k < n; k++)
    if (torch::fp(o.t)) t.st->f[torch::GUARD + k] = io.r();
    else if (o.t == torch::kInt32) t.st->i[torch::GUARD + k] = io.i();
    else t.st->l[torch::GUARD + k] = io.i();
  t.sz = sz;
  t.sd = sd;
  slots()[next_slot] = t;
  io.iouti(next_slot++);
}
static void out_tensor(Io &io, torch::Tensor &t) { // type, contiguous, dims, sizes, values
  io.iouti(t.st->type);
  io.iouti(t.is_contiguous());
  io.iouti(t.dim());
  for (auto s : t.sz) io.iouti(s);
  for (auto o : t.offsets())
    if (torch::fp(t.st->type)) io.out(t.st->f[torch::GUARD + o]);
    else io.iouti(t.st->type == torch::kInt32 ? t.st->i[torch::GUARD + o] : t.st->l[torch::GUARD + o]);
}
KERNEL(bind_read) { out_tensor(io, slot(io.i())); }
KERNEL(bind_write) { // values in the order of the view
  torch::Tensor &t = slot(io.i());
  for (auto o : t.offsets()) t.st->f[torch::GUARD + o] = io.r();
}
KERNEL(bind_free) { int k = io.i(); slot(k); slots().erase(k); }
static py::Value arg(Io &io) {
  py::Value v;
  switch (io.i()) {
  case 0: return v;
  case 1: return py::to_value((bool)io.i());
  case 2: return py::to_value(io.i());
  case 3: return py::to_value(io.r());
  case 4: { v.k = py::Value::TENSOR; v.t = std::make_shared<torch::Tensor>(slot(io.i())); return v; }
  case 5: {
    RPU::state_t s;
    int n = io.i();
    while (n--) {
      auto k = instr(io);
      std::vector<double> x(io.i());
      for (auto &y : x) y = io.r();
      s[k] = x;
    }
    return py::to_value(s);
  }
  case 6: v.k = py::Value::DICT; return v;
  case 7: { WeightClipParameter p; p.type = (WeightClipType)io.i(); p.fixed_value = io.r(); p.sigma = io.r(); return py::to_value(p); }
  case 8: { WeightModifierParameter<float> p; setmod(p, io); return py::to_value(p); }
  case 9: {
    WeightRemapParameter p;
    p.type = (WeightRemapType)io.i();
    p.max_scale_range = io.r();
    p.max_scale_ref = io.r();
    p.row_norm = io.r();
    p.remapped_wmax = io.r();
    return py::to_value(p);
  }
  }
  throw std::logic_error("kernel: argument kind");
}
KERNEL(bind_call) { // handle, name, positional, keywords -> guards, kind and value of the result
  declare();
  int own = io.i();
  Hnd *h = own >= 0 ? (io.pi--, &hnd(io)) : nullptr;
  std::string name = instr(io);
  std::string cls = instr(io);
  std::vector<py::Value> pos(io.i());
  for (auto &v : pos) v = arg(io);
  std::map<std::string, py::Value> kw;
  int nk = io.i();
  while (nk--) { auto k = instr(io); kw[k] = arg(io); }
  void *self = !h ? nullptr : h->pulsed ? (void *)h->pulsed : (void *)&*h->rpu;
  if (h && h->pulsed && (void *)h->pulsed != (void *)&*h->rpu) throw std::logic_error("kernel: base at another address");
  py::Value r = py::invoke(cls, name, self, pos, kw);
  io.iouti(torch::guards_intact());
  io.iouti(r.k);
  switch (r.k) {
  case py::Value::BOOL: case py::Value::INT: io.iouti(r.i); break;
  case py::Value::REAL: io.out(r.r); break;
  case py::Value::STR: io.iouti(r.s.size()); break;
  case py::Value::STRS: io.iouti(r.v.size()); for (auto &s : r.v) outstr(io, s); break;
  case py::Value::TENSOR: {
    int alias = -1; // an argument or kept tensor with the same storage
    for (auto &kv : slots()) if (kv.second.st == r.t->st) alias = kv.first;
    slots()[next_slot] = *r.t;
    io.iouti(next_slot++);
    io.iouti(alias);
    break;
  }
  case py::Value::STATE: {
    std::map<std::string, std::vector<double>> m(r.st.begin(), r.st.end());
    io.iouti(m.size());
    for (auto &kv : m) { outstr(io, kv.first); io.iouti(kv.second.size()); for (auto &v : kv.second) io.out(v); }
    break;
  }
  case py::Value::OBJ:
    if (*r.ty == typeid(RPUPulsed<float>)) io.iouti(newtile(new RPUPulsed<float>(std::move(*(RPUPulsed<float> *)r.o.get()))));
    else if (*r.ty == typeid(RPUSimple<float>)) io.iouti(newtile(new RPUSimple<float>(std::move(*(RPUSimple<float> *)r.o.get()))));
    else io.iouti(-1);
    break;
  default: break;
  }
}
KERNEL(bind_signature) { // class, name -> overloads: names of the arguments and whether they have a default
  declare();
  auto c = instr(io), n = instr(io);
  auto &fs = py::registry()[c].fun[n];
  io.iouti(fs.size());
  for (auto &f : fs) {
    io.iouti(f.n);
    io.iouti(f.args.size());
    for (auto &a : f.args) { io.iouti(a.has); outstr(io, a.n); }
  }
}
