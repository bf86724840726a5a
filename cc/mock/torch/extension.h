// Assumed contracts of the parts of torch::Tensor used by rpu_base_tiles.cpp: strided views of a storage.
// A storage has guard cells on both sides; cells of torch::empty and of the guards hold distinct values.
#pragma once
#include <bits/stdc++.h>
namespace torch {
enum Device { kCPU, kCUDA };
enum ScalarType { kFloat16, kFloat32, kFloat64, kInt32, kInt64 };
constexpr ScalarType kInt = kInt32, kLong = kInt64, kFloat = kFloat32, kDouble = kFloat64;
constexpr int GUARD = 24;
inline bool fp(ScalarType t) { return t <= kFloat64; }
struct Storage {
  ScalarType type;
  long n;
  std::vector<VsReal> f, f0;
  std::vector<int> i;
  std::vector<int64_t> l;
  Storage(ScalarType t, long n_);
  ~Storage();
  void *base() { return fp(type) ? (void *)(f.data() + GUARD) : type == kInt32 ? (void *)(i.data() + GUARD) : (void *)(l.data() + GUARD); }
  bool intact() const;
};
std::set<Storage *> &storages();
bool guards_intact(); // of all storages alive, and of those freed since the last call
struct TensorOptions {
  ScalarType t = kFloat32;
  Device d = kCPU;
  TensorOptions dtype(ScalarType x) const { TensorOptions o = *this; o.t = x; return o; }
  TensorOptions device(Device x) const { TensorOptions o = *this; o.d = x; return o; }
};
struct Error : std::runtime_error { using std::runtime_error::runtime_error; };
struct Tensor {
  std::shared_ptr<Storage> st;
  std::vector<int64_t> sz, sd;
  Device dev = kCPU;
  static std::vector<int64_t> dense(const std::vector<int64_t> &s) {
    std::vector<int64_t> d(s.size());
    int64_t k = 1;
    for (int j = (int)s.size() - 1; j >= 0; j--) { d[j] = k; k *= s[j] > 1 ? s[j] : 1; }
    return d;
  }
  int64_t dim() const { return (int64_t)sz.size(); }
  const std::vector<int64_t> &sizes() const { return sz; }
  int64_t size(int64_t k) const {
    if (k < -dim() || k >= dim()) throw Error("Dimension out of range");
    return sz[k < 0 ? k + dim() : k];
  }
  int64_t numel() const { int64_t k = 1; for (auto s : sz) k *= s; return k; }
  TensorOptions options() const { return TensorOptions{st->type, dev}; }
  ScalarType dtype() const { return st->type; }
  ScalarType scalar_type() const { return st->type; }
  Device device() const { return dev; }
  bool is_contiguous() const {
    if (numel() == 0) return true;
    int64_t k = 1;
    for (int j = (int)dim() - 1; j >= 0; j--)
      if (sz[j] != 1) { if (sd[j] != k) return false; k *= sz[j]; }
    return true;
  }
  std::vector<int64_t> offsets() const {
    std::vector<int64_t> o;
    int64_t n = numel();
    std::vector<int64_t> ix(sz.size(), 0);
    for (int64_t e = 0; e < n; e++) {
      int64_t p = 0;
      for (size_t j = 0; j < sz.size(); j++) p += ix[j] * sd[j];
      o.push_back(p);
      for (int j = (int)sz.size() - 1; j >= 0; j--) { if (++ix[j] < sz[j]) break; ix[j] = 0; }
    }
    return o;
  }
  Tensor dup(ScalarType t) const;
  Tensor contiguous() const { return is_contiguous() ? *this : dup(st->type); }
  Tensor clone() const { return dup(st->type); }
  Tensor detach() const { return *this; }
  Tensor cpu() const { return to(kCPU); }
  Tensor to(Device d) const { if (d == dev) return *this; Tensor r = dup(st->type); r.dev = d; return r; }
  Tensor to(ScalarType t) const { return t == st->type ? *this : dup(t); }
  Tensor to(const TensorOptions &o) const { return to(o.t).to(o.d); }
  template <class T> T *data_ptr() const {
    bool ok = std::is_same<T, VsReal>::value ? st->type == kFloat32 : std::is_same<T, int>::value ? st->type == kInt32
              : std::is_same<T, int64_t>::value ? st->type == kInt64 : false;
    if (!ok) throw Error("data_ptr: the tensor has another scalar type");
    return (T *)st->base();
  }
};
Tensor empty(const std::vector<int64_t> &s, const TensorOptions &o = TensorOptions());
Tensor zeros(const std::vector<int64_t> &s, const TensorOptions &o = TensorOptions());
} // namespace torch
#define TORCH_CHECK(c, ...) do { if (!(c)) throw torch::Error("check failed: " #c); } while (0)
