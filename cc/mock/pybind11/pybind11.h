// Assumed contracts of the parts of pybind11 used by rpu_base_tiles.cpp: a registry of the bound functions, called with
// positional and keyword arguments.
#pragma once
#include <torch/extension.h>
#include "rpu.h"
namespace pybind11 {
struct dict {};
struct handle {};
struct TypeError : std::runtime_error { using std::runtime_error::runtime_error; };
struct Value {
  enum Kind { NONE, BOOL, INT, REAL, STR, STRS, TENSOR, STATE, OBJ, DICT } k = NONE;
  int64_t i = 0;
  VsReal r;
  std::string s;
  std::vector<std::string> v;
  std::shared_ptr<torch::Tensor> t;
  RPU::state_t st;
  std::shared_ptr<void> o;
  const std::type_info *ty = nullptr;
};
struct arg_v { std::string n; bool has; Value d; };
template <class T> Value to_value(T &&x) {
  typedef typename std::decay<T>::type D;
  Value v;
  if constexpr (std::is_same<D, bool>::value) { v.k = Value::BOOL; v.i = x; }
  else if constexpr (std::is_integral<D>::value) { v.k = Value::INT; v.i = x; }
  else if constexpr (std::is_same<D, VsReal>::value || std::is_same<D, VsDouble>::value || std::is_floating_point<D>::value) { v.k = Value::REAL; v.r = VsReal(x); }
  else if constexpr (std::is_same<D, std::string>::value || std::is_same<D, const char *>::value) { v.k = Value::STR; v.s = x; }
  else if constexpr (std::is_same<D, std::vector<std::string>>::value) { v.k = Value::STRS; v.v = x; }
  else if constexpr (std::is_same<D, torch::Tensor>::value) { v.k = Value::TENSOR; v.t = std::make_shared<torch::Tensor>(x); }
  else if constexpr (std::is_same<D, RPU::state_t>::value) { v.k = Value::STATE; v.st = x; }
  else { v.k = Value::OBJ; v.ty = &typeid(D); v.o = std::shared_ptr<void>(new D(std::forward<T>(x)), [](void *p) { delete (D *)p; }); }
  return v;
}
struct arg : arg_v {
  arg(const char *s) { n = s; has = false; }
  template <class T> arg_v operator=(T &&x) const { arg_v a; a.n = n; a.has = true; a.d = to_value(std::forward<T>(x)); return a; }
};
template <class A> struct Cast {
  typedef typename std::decay<A>::type D;
  static D get(Value &v) {
    if constexpr (std::is_same<D, bool>::value) { if (v.k != Value::BOOL) throw TypeError("incompatible function arguments"); return v.i; }
    else if constexpr (std::is_integral<D>::value) { if (v.k != Value::INT && v.k != Value::BOOL) throw TypeError("incompatible function arguments"); return (D)v.i; }
    else if constexpr (std::is_same<D, VsReal>::value || std::is_same<D, VsDouble>::value) {
      if (v.k == Value::INT || v.k == Value::BOOL) return D(v.i);
      if (v.k != Value::REAL) throw TypeError("incompatible function arguments");
      return D(v.r);
    }
    else if constexpr (std::is_same<D, RPU::state_t>::value) { if (v.k != Value::STATE) throw TypeError("incompatible function arguments"); return v.st; }
    else if constexpr (std::is_same<D, dict>::value) { if (v.k != Value::DICT) throw TypeError("incompatible function arguments"); return dict(); }
    else throw TypeError("incompatible function arguments");
  }
};
template <class A> struct Pass {
  typedef typename std::decay<A>::type D;
  static constexpr bool obj = !std::is_arithmetic<D>::value && !std::is_same<D, VsReal>::value && !std::is_same<D, VsDouble>::value &&
                              !std::is_same<D, RPU::state_t>::value && !std::is_same<D, dict>::value;
  static decltype(auto) get(Value &v) {
    if constexpr (std::is_same<D, torch::Tensor>::value) { if (v.k != Value::TENSOR) throw TypeError("incompatible function arguments"); return (torch::Tensor &)*v.t; }
    else if constexpr (obj) { if (v.k != Value::OBJ || !v.ty || *v.ty != typeid(D)) throw TypeError("incompatible function arguments"); return *(D *)v.o.get(); }
    else return Cast<A>::get(v);
  }
};
struct Function {
  std::vector<arg_v> args; // named arguments, without self
  int n;                   // arguments without self
  std::function<Value(void *, std::vector<Value> &)> f;
};
struct ClassInfo { std::vector<std::string> bases; std::map<std::string, std::vector<Function>> fun; };
std::map<std::string, ClassInfo> &registry();
std::map<std::string, std::string> &type_names();
Value invoke(const std::string &cls, const std::string &name, void *self, std::vector<Value> &pos, std::map<std::string, Value> &kw);
struct module_ {};
typedef module_ module;
template <class... A> struct init {};
template <class F> struct Sig : Sig<decltype(&F::operator())> {};
template <class R_, class C_, class... A> struct Sig<R_ (C_::*)(A...) const> { typedef R_ R; typedef C_ C; typedef std::tuple<A...> T; };
template <class R_, class C_, class... A> struct Sig<R_ (C_::*)(A...)> { typedef R_ R; typedef C_ C; typedef std::tuple<A...> T; };
template <class R_, class... A> struct Sig<R_ (*)(A...)> { typedef R_ R; typedef void C; typedef std::tuple<A...> T; };
template <class C, class... Bases> struct class_ {
  std::string name;
  class_(module_ &, const char *n, const char * = "") : name(n) {
    type_names()[typeid(C).name()] = n;
    ClassInfo &ci = registry()[name];
    (ci.bases.push_back(type_names()[typeid(Bases).name()]), ...);
  }
  static void extra(Function &f, const arg_v &a) { f.args.push_back(a); }
  static void extra(Function &f, const char *) {}
  void add(const char *n, Function &f) {
    if (f.args.size() && (int)f.args.size() != f.n) throw std::logic_error("kernel: number of named arguments of " + std::string(n));
    registry()[name].fun[n].push_back(f);
  }
  template <class R, class Call> static Value ret(Call &&c) {
    if constexpr (std::is_void<R>::value) { c(); return Value(); }
    else return to_value(c());
  }
  template <class R, class... A, size_t... I, class F>
  static Value lam(F &f, void *self, std::vector<Value> &v, std::index_sequence<I...>, std::tuple<A...> *) {
    typedef std::tuple<A...> T;
    return ret<R>([&]() -> R { return f(*(C *)self, Pass<typename std::tuple_element<I + 1, T>::type>::get(v[I])...); });
  }
  template <class R, class... A, size_t... I, class F>
  static Value mem(F f, void *self, std::vector<Value> &v, std::index_sequence<I...>, std::tuple<A...> *) {
    typedef std::tuple<A...> T;
    return ret<R>([&]() -> R { return (((C *)self)->*f)(Pass<typename std::tuple_element<I, T>::type>::get(v[I])...); });
  }
  template <class F, class... E> class_ &def(const char *n, F f, E &&...e) {
    Function g;
    (extra(g, e), ...);
    typedef typename Sig<F>::T T;
    typedef typename Sig<F>::R R;
    if constexpr (std::is_member_function_pointer<F>::value) {
      g.n = std::tuple_size<T>::value;
      g.f = [f](void *s, std::vector<Value> &v) { return mem<R>(f, s, v, std::make_index_sequence<std::tuple_size<T>::value>(), (T *)nullptr); };
    } else {
      g.n = (int)std::tuple_size<T>::value - 1;
      g.f = [f](void *s, std::vector<Value> &v) mutable { return lam<R>(f, s, v, std::make_index_sequence<std::tuple_size<T>::value - 1>(), (T *)nullptr); };
    }
    add(n, g);
    return *this;
  }
  template <class... A, class... E> class_ &def(init<A...>, E &&...e) {
    Function g;
    (extra(g, e), ...);
    g.n = sizeof...(A);
    g.f = [](void *, std::vector<Value> &v) { return make(v, std::make_index_sequence<sizeof...(A)>(), (std::tuple<A...> *)nullptr); };
    add("__init__", g);
    return *this;
  }
  template <class... A, size_t... I> static Value make(std::vector<Value> &v, std::index_sequence<I...>, std::tuple<A...> *) {
    typedef std::tuple<A...> T;
    return to_value(C(Pass<typename std::tuple_element<I, T>::type>::get(v[I])...));
  }
  template <class M> class_ &def_readwrite(const char *, M, const char * = "") { return *this; }
};
} // namespace pybind11
