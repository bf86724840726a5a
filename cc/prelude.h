// Included before every translation unit of rpucuda.  The C++ templates of /repo/src/rpucuda are
// instantiated with a scalar type whose values are terms (-DVS_SYM) or doubles; nothing else of the
// sources changes.  `float` and `double` name that scalar type.
#pragma once
#include <bits/stdc++.h>
#include <cfenv>
#include <math.h>
#include <stdint.h>
#include <string.h>
#include <time.h>

namespace vs {
struct Abort {};
#ifdef VS_SYM
typedef int64_t rep;
struct Hooks {
  int64_t (*constant)(double, int);
  int64_t (*unary)(int, int64_t);
  int64_t (*binary)(int, int64_t, int64_t);
  int64_t (*ite)(int64_t, int64_t, int64_t);
  int64_t (*decide)(int64_t);
  int64_t (*toint)(int64_t, int64_t *);
  int64_t (*draw)(int);
};
#else
typedef double rep;
struct Hooks {
  double (*draw)(int);
};
#endif
extern Hooks hooks;
inline int64_t chk(int64_t r) {
  if (r < 0)
    throw Abort();
  return r;
}
enum Op { ADD, SUB, MUL, DIV, MIN_, MAX_, LT, LE, EQ, POW, FMOD };
enum Un { NEG, ABS, SQRT, EXP, LOG, TANH, RINT, ROUND, FLOOR, CEIL, TRUNC, LOG10, LOG2 };
} // namespace vs

template <int K> struct VsS;
typedef VsS<0> VsReal;
typedef VsS<1> VsDouble;

#ifdef VS_SYM
struct VsBool {
  int64_t id;
  operator bool() const { return vs::chk(vs::hooks.decide(id)) != 0; }
};
#else
typedef bool VsBool;
#endif

template <class U> using VsArith = typename std::enable_if<std::is_arithmetic<U>::value, int>::type;

template <class U> using VsArithNB = typename std::enable_if<std::is_arithmetic<U>::value && !std::is_same<U, bool>::value, int>::type;
template <int K> struct VsS {
  vs::rep v;
  VsS() = default;
#ifdef VS_SYM
  template <class U, VsArith<U> = 0> VsS(U x) {
    v = x == (U)0 ? 0 : vs::chk(vs::hooks.constant((double)x, std::is_same<U, float>::value));
  }
  template <class U, VsArithNB<U> = 0> explicit operator U() const {
    if (std::is_floating_point<U>::value)
      return (U)0; // only used to print
    int64_t r;
    vs::chk(vs::hooks.toint(v, &r));
    return (U)r;
  }
#else
  template <class U, VsArith<U> = 0> VsS(U x) : v((double)x) {}
  template <class U, VsArithNB<U> = 0> explicit operator U() const { return (U)v; }
#endif
  // implicit for VsDouble only (std::vector<bool> from std::vector<double>)
  template <int L = K, typename std::enable_if<L == 1, int>::type = 0> operator bool() const { return truth(); }
  template <int L = K, typename std::enable_if<L == 0, int>::type = 0> explicit operator bool() const { return truth(); }
  bool truth() const;
  VsS(const VsS<1 - K> &o) : v(o.v) {}
  static VsS raw(vs::rep r) {
    VsS x;
    x.v = r;
    return x;
  }
  template <class U> VsS &operator+=(const U &o) { return *this = VsS(*this + o); }
  template <class U> VsS &operator-=(const U &o) { return *this = VsS(*this - o); }
  template <class U> VsS &operator*=(const U &o) { return *this = VsS(*this * o); }
  template <class U> VsS &operator/=(const U &o) { return *this = VsS(*this / o); }
  VsS &operator++() { return *this = VsS(*this + 1); }
  VsS operator++(int) {
    VsS o = *this;
    ++*this;
    return o;
  }
  VsS &operator--() { return *this = VsS(*this - 1); }
};

template <int K> inline bool VsS<K>::truth() const {
#ifdef VS_SYM
  return vs::chk(vs::hooks.decide(vs::chk(vs::hooks.binary(vs::EQ, v, 0)))) == 0;
#else
  return v != 0;
#endif
}
#ifdef VS_SYM
inline VsReal vs_op(int c, VsReal a, VsReal b) { return VsReal::raw(vs::chk(vs::hooks.binary(c, a.v, b.v))); }
inline VsBool vs_cmp(int c, VsReal a, VsReal b) { return VsBool{vs::chk(vs::hooks.binary(c, a.v, b.v))}; }
inline VsReal vs_un(int c, VsReal a) { return VsReal::raw(vs::chk(vs::hooks.unary(c, a.v))); }
#else
inline VsReal vs_op(int c, VsReal a, VsReal b) {
  switch (c) {
  case vs::ADD: return a.v + b.v;
  case vs::SUB: return a.v - b.v;
  case vs::MUL: return a.v * b.v;
  case vs::DIV: return a.v / b.v;
  case vs::MIN_: return a.v < b.v ? a.v : b.v;
  case vs::MAX_: return a.v > b.v ? a.v : b.v;
  case vs::POW: return ::pow(a.v, b.v);
  default: return ::fmod(a.v, b.v);
  }
}
inline bool vs_cmp(int c, VsReal a, VsReal b) {
  return c == vs::LT ? a.v < b.v : c == vs::LE ? a.v <= b.v : a.v == b.v;
}
inline VsReal vs_un(int c, VsReal a) {
  double x = a.v;
  switch (c) {
  case vs::NEG: return -x;
  case vs::ABS: return ::fabs(x);
  case vs::SQRT: return ::sqrt(x);
  case vs::EXP: return ::exp(x);
  case vs::LOG: return ::log(x);
  case vs::TANH: return ::tanh(x);
  case vs::RINT: return ::rint(x);
  case vs::ROUND: return ::round(x);
  case vs::FLOOR: return ::floor(x);
  case vs::CEIL: return ::ceil(x);
  case vs::TRUNC: return ::trunc(x);
  case vs::LOG10: return ::log10(x);
  default: return ::log2(x);
  }
}
#endif

#define VS_DEF(op, fn, code, R)                                                                    \
  template <int K, int L> inline R operator op(const VsS<K> &a, const VsS<L> &b) { return fn(code, a, b); } \
  template <int K, class U, VsArith<U> = 0> inline R operator op(const VsS<K> &a, U b) { return fn(code, a, VsReal(b)); } \
  template <int K, class U, VsArith<U> = 0> inline R operator op(U a, const VsS<K> &b) { return fn(code, VsReal(a), b); }
VS_DEF(+, vs_op, vs::ADD, VsReal)
VS_DEF(-, vs_op, vs::SUB, VsReal)
VS_DEF(*, vs_op, vs::MUL, VsReal)
VS_DEF(/, vs_op, vs::DIV, VsReal)
VS_DEF(<, vs_cmp, vs::LT, VsBool)
VS_DEF(<=, vs_cmp, vs::LE, VsBool)
VS_DEF(==, vs_cmp, vs::EQ, VsBool)
inline VsBool vs_rcmp(int c, VsReal a, VsReal b) { return vs_cmp(c, b, a); }
VS_DEF(>, vs_rcmp, vs::LT, VsBool)
VS_DEF(>=, vs_rcmp, vs::LE, VsBool)
inline bool vs_ne(int c, VsReal a, VsReal b) { return !(bool)vs_cmp(c, a, b); }
VS_DEF(!=, vs_ne, vs::EQ, bool)
template <int K> inline VsReal operator-(const VsS<K> &a) { return vs_un(vs::NEG, a); }
template <int K> inline VsReal operator+(const VsS<K> &a) { return a; }
template <int K> inline bool operator!(const VsS<K> &a) { return !(bool)a; }

#define VS_FUN(name, code)                                                                         \
  template <int K> inline VsReal name(const VsS<K> &a) { return vs_un(vs::code, a); }
#define VS_FUN2(name, code) VS_FUN(name, code) VS_FUN(name##f, code)
VS_FUN2(fabs, ABS)
VS_FUN2(sqrt, SQRT)
VS_FUN2(exp, EXP)
VS_FUN2(log, LOG)
VS_FUN2(tanh, TANH)
VS_FUN2(rint, RINT)
VS_FUN2(round, ROUND)
VS_FUN2(floor, FLOOR)
VS_FUN2(ceil, CEIL)
VS_FUN2(trunc, TRUNC)
VS_FUN2(log10, LOG10)
VS_FUN2(log2, LOG2)
VS_FUN(abs, ABS)
namespace std {
using ::abs;
using ::ceil;
using ::exp;
using ::fabs;
using ::floor;
using ::log;
using ::rint;
using ::round;
using ::sqrt;
using ::tanh;
using ::trunc;
} // namespace std
#define VS_FUNB(name, code)                                                                        \
  template <int K, int L> inline VsReal name(const VsS<K> &a, const VsS<L> &b) { return vs_op(code, a, b); } \
  template <int K, class U, VsArith<U> = 0> inline VsReal name(const VsS<K> &a, U b) { return vs_op(code, a, VsReal(b)); } \
  template <int K, class U, VsArith<U> = 0> inline VsReal name(U a, const VsS<K> &b) { return vs_op(code, VsReal(a), b); }
VS_FUNB(pow, vs::POW)
VS_FUNB(powf, vs::POW)
VS_FUNB(fmod, vs::FMOD)
VS_FUNB(fmodf, vs::FMOD)
VS_FUNB(fminf, vs::MIN_)
VS_FUNB(fmaxf, vs::MAX_)
VS_FUNB(fmin, vs::MIN_)
VS_FUNB(fmax, vs::MAX_)
namespace std {
using ::fmod;
using ::pow;
VS_FUNB(min, vs::MIN_)
VS_FUNB(max, vs::MAX_)
} // namespace std
template <int K, int L> inline VsReal vs_min(const VsS<K> &a, const VsS<L> &b) { return vs_op(vs::MIN_, a, b); }
template <int K, int L> inline VsReal vs_max(const VsS<K> &a, const VsS<L> &b) { return vs_op(vs::MAX_, a, b); }
template <int K, class U, VsArith<U> = 0> inline VsReal vs_min(const VsS<K> &a, U b) { return vs_op(vs::MIN_, a, VsReal(b)); }
template <int K, class U, VsArith<U> = 0> inline VsReal vs_max(const VsS<K> &a, U b) { return vs_op(vs::MAX_, a, VsReal(b)); }
template <int K, class U, VsArith<U> = 0> inline VsReal vs_min(U a, const VsS<K> &b) { return vs_op(vs::MIN_, VsReal(a), b); }
template <int K, class U, VsArith<U> = 0> inline VsReal vs_max(U a, const VsS<K> &b) { return vs_op(vs::MAX_, VsReal(a), b); }
template <class U, class V, VsArith<U> = 0, VsArith<V> = 0>
inline typename std::common_type<U, V>::type vs_min(U a, V b) { return a < b ? a : b; }
template <class U, class V, VsArith<U> = 0, VsArith<V> = 0>
inline typename std::common_type<U, V>::type vs_max(U a, V b) { return a > b ? a : b; }
#define MIN(a, b) vs_min(a, b)
#define MAX(a, b) vs_max(a, b)

template <int K> inline std::ostream &operator<<(std::ostream &o, const VsS<K> &x) {
#ifdef VS_SYM
  return o << "<term>";
#else
  return o << x.v;
#endif
}

namespace std {
template <int K> class numeric_limits<VsS<K>> {
public:
  static constexpr bool is_specialized = true;
  static VsS<K> max() { return VsS<K>(numeric_limits<float>::max()); }
  static VsS<K> min() { return VsS<K>(numeric_limits<float>::min()); }
  static VsS<K> lowest() { return VsS<K>(numeric_limits<float>::lowest()); }
  static VsS<K> epsilon() { return VsS<K>(numeric_limits<float>::epsilon()); }
  static VsS<K> infinity() { return VsS<K>(numeric_limits<float>::infinity()); }
  static constexpr bool has_infinity = true;
};
} // namespace std
#ifdef VS_SYM
template <int K> inline bool isinf(const VsS<K> &x) { return x == std::numeric_limits<float>::infinity() || x == -std::numeric_limits<float>::infinity(); }
template <int K> inline bool isnan(const VsS<K> &x) { return false; }
template <int K> inline bool isfinite(const VsS<K> &x) { return !isinf(x); }
#else
template <int K> inline bool isinf(const VsS<K> &x) { return std::isinf(x.v); }
template <int K> inline bool isnan(const VsS<K> &x) { return std::isnan(x.v); }
template <int K> inline bool isfinite(const VsS<K> &x) { return std::isfinite(x.v); }
#endif
namespace std {
using ::isfinite;
using ::isinf;
using ::isnan;
} // namespace std

// assumed contracts of the BLAS routines
enum CBLAS_ORDER { CblasRowMajor = 101, CblasColMajor = 102 };
enum CBLAS_TRANSPOSE { CblasNoTrans = 111, CblasTrans = 112, CblasConjTrans = 113 };
#define float VsReal
#define double VsDouble
namespace vs {
template <class T> inline const T &at(CBLAS_ORDER o, const T *a, int ld, int i, int j) {
  return o == CblasRowMajor ? a[(size_t)i * ld + j] : a[(size_t)j * ld + i];
}
template <class T> inline T &at(CBLAS_ORDER o, T *a, int ld, int i, int j) {
  return o == CblasRowMajor ? a[(size_t)i * ld + j] : a[(size_t)j * ld + i];
}
inline bool zero(VsReal x) {
#ifdef VS_SYM
  return x.v == 0;
#else
  return x.v == 0.0;
#endif
}
template <class T>
inline void gemm(CBLAS_ORDER o, CBLAS_TRANSPOSE ta, CBLAS_TRANSPOSE tb, int M, int N, int K, T al, const T *A, int lda, const T *B,
                 int ldb, T be, T *C, int ldc) {
  for (int i = 0; i < M; i++)
    for (int j = 0; j < N; j++) {
      T s = 0;
      for (int k = 0; k < K; k++)
        s += (ta == CblasNoTrans ? at(o, A, lda, i, k) : at(o, A, lda, k, i)) *
             (tb == CblasNoTrans ? at(o, B, ldb, k, j) : at(o, B, ldb, j, k));
      T &c = at(o, C, ldc, i, j);
      c = zero(be) ? T(al * s) : T(al * s + be * c);
    }
}
template <class T>
inline void gemv(CBLAS_ORDER o, CBLAS_TRANSPOSE ta, int M, int N, T al, const T *A, int lda, const T *X, int ix, T be, T *Y, int iy) {
  int m = ta == CblasNoTrans ? M : N, n = ta == CblasNoTrans ? N : M;
  for (int i = 0; i < m; i++) {
    T s = 0;
    for (int j = 0; j < n; j++)
      s += (ta == CblasNoTrans ? at(o, A, lda, i, j) : at(o, A, lda, j, i)) * X[j * ix];
    Y[i * iy] = zero(be) ? T(al * s) : T(al * s + be * Y[i * iy]);
  }
}
template <class T>
inline void ger(CBLAS_ORDER o, int M, int N, T al, const T *X, int ix, const T *Y, int iy, T *A, int lda) {
  for (int i = 0; i < M; i++)
    for (int j = 0; j < N; j++)
      at(o, A, lda, i, j) += al * X[i * ix] * Y[j * iy];
}
template <class T> inline size_t iamax(int n, const T *X, int ix) {
  size_t b = 0;
  for (int i = 1; i < n; i++)
    if (fabs(X[i * ix]) > fabs(X[b * ix]))
      b = i;
  return b;
}
template <class T> inline T nrm2(int n, const T *X, int ix) {
  T s = 0;
  for (int i = 0; i < n; i++)
    s += X[i * ix] * X[i * ix];
  return sqrt(s);
}
} // namespace vs
#define VS_BLAS(p, T)                                                                              \
  inline void cblas_##p##gemm(CBLAS_ORDER o, CBLAS_TRANSPOSE ta, CBLAS_TRANSPOSE tb, int M, int N, int K, T al, const T *A, int lda, \
                              const T *B, int ldb, T be, T *C, int ldc) { vs::gemm<T>(o, ta, tb, M, N, K, al, A, lda, B, ldb, be, C, ldc); } \
  inline void cblas_##p##gemv(CBLAS_ORDER o, CBLAS_TRANSPOSE ta, int M, int N, T al, const T *A, int lda, const T *X, int ix, T be, T *Y, \
                              int iy) { vs::gemv<T>(o, ta, M, N, al, A, lda, X, ix, be, Y, iy); } \
  inline void cblas_##p##ger(CBLAS_ORDER o, int M, int N, T al, const T *X, int ix, const T *Y, int iy, T *A, int lda) { \
    vs::ger<T>(o, M, N, al, X, ix, Y, iy, A, lda); } \
  inline void cblas_##p##scal(int n, T al, T *X, int ix) { for (int i = 0; i < n; i++) X[i * ix] *= al; } \
  inline void cblas_##p##copy(int n, const T *X, int ix, T *Y, int iy) { for (int i = 0; i < n; i++) Y[i * iy] = X[i * ix]; } \
  inline void cblas_##p##axpy(int n, T al, const T *X, int ix, T *Y, int iy) { for (int i = 0; i < n; i++) Y[i * iy] += al * X[i * ix]; } \
  inline T cblas_##p##nrm2(int n, const T *X, int ix) { return vs::nrm2<T>(n, X, ix); } \
  inline size_t cblas_i##p##amax(int n, const T *X, int ix) { return vs::iamax<T>(n, X, ix); } \
  inline T cblas_##p##dot(int n, const T *X, int ix, const T *Y, int iy) { T s = 0; for (int i = 0; i < n; i++) s += X[i * ix] * Y[i * iy]; return s; }
VS_BLAS(s, float)
VS_BLAS(d, double)
#define RPU_USE_OPENBLAS
#define private public
#define protected public
