// Reference model of dense tensors, independent of the library: dimensions and a
// column-major vector of elements.
#ifndef VERIF_REF_H
#define VERIF_REF_H
#include <cmath>
#include <complex>
#include <limits>
#include <string>
#include <vector>
#include <tensor/tensor.h>
#include <tensor/io.h>
#include "mc.h"

typedef std::complex<double> cd;
typedef std::vector<long> Dims;

inline long total(const Dims &d) {   // an empty list of dimensions holds no element
  if (d.empty()) return 0;
  long t = 1; for (long x : d) t *= x; return t;
}
inline long prod(const Dims &d, size_t a, size_t b) { long t = 1; for (size_t i = a; i < b; i++) t *= d[i]; return t; }

template <class T> struct Ref {
  Dims d; std::vector<T> v;
  Ref() {}
  explicit Ref(const Dims &dd, T x = T()) : d(dd), v(total(dd), x) {}
  Ref(const Dims &dd, const std::vector<T> &x) : d(dd), v(x) {}
  size_t pos(const Dims &i) const { size_t p = 0; for (size_t k = d.size(); k--; ) p = p * d[k] + i[k]; return p; }
  T &operator()(const Dims &i) { return v[pos(i)]; }
  const T &operator()(const Dims &i) const { return v[pos(i)]; }
};

// every multi-index of d, column-major order
template <class F> void each_index(const Dims &d, F f) {
  for (long x : d) if (x == 0) return;
  Dims i(d.size(), 0);
  for (;;) {
    f((const Dims &)i);
    size_t k = 0;
    while (k < d.size() && ++i[k] == d[k]) { i[k] = 0; k++; }
    if (k == d.size()) return;
  }
}

// every dimension list of the given rank with extents lo..hi
template <class F> void each_shape(int rank, long lo, long hi, F f) {
  mc::all_words(rank, hi - lo + 1, [&](const std::vector<int> &w) {
    Dims d(rank); for (int i = 0; i < rank; i++) d[i] = w[i] + lo;
    f((const Dims &)d);
  });
}

inline tensor::Indices to_indices(const Dims &d) {
  tensor::Indices r((tensor::index)d.size());
  for (size_t i = 0; i < d.size(); i++) r.at(i) = d[i];
  return r;
}
inline Dims from_indices(const tensor::Indices &i) { return Dims(i.begin(), i.end()); }

template <class T> tensor::Tensor<T> to_tensor(const Ref<T> &r) {
  tensor::Tensor<T> t(to_indices(r.d));
  std::copy(r.v.begin(), r.v.end(), t.begin());
  return t;
}
template <class T> Ref<T> from_tensor(const tensor::Tensor<T> &t) {
  Ref<T> r; r.d = from_indices(t.dimensions()); r.v.assign(t.begin_const(), t.end_const()); return r;
}

// REF_SIGNED_ZEROS: 0 and -0 differ (for checks of code that only moves numbers,
// or whose result has a defined sign)
#ifdef REF_SIGNED_ZEROS
inline bool same(double a, double b) { return (a == b && std::signbit(a) == std::signbit(b)) || (std::isnan(a) && std::isnan(b)); }
#else
inline bool same(double a, double b) { return a == b || (std::isnan(a) && std::isnan(b)); }
#endif
inline bool same(const cd &a, const cd &b) { return same(a.real(), b.real()) && same(a.imag(), b.imag()); }
template <class T> bool same(const Ref<T> &a, const Ref<T> &b) {
  if (a.d != b.d || a.v.size() != b.v.size()) return false;
  for (size_t i = 0; i < a.v.size(); i++) if (!same(a.v[i], b.v[i])) return false;
  return true;
}
template <class T> bool bits_same(const Ref<T> &a, const Ref<T> &b) {
  return a.d == b.d && a.v.size() == b.v.size() &&
         (a.v.empty() || !memcmp(&a.v[0], &b.v[0], a.v.size() * sizeof(T)));
}
inline double mag(double x) { return std::fabs(x); }
inline double mag(const cd &x) { return std::abs(x); }
template <class T> bool close(const Ref<T> &a, const Ref<T> &b, double tol) {
  if (a.d != b.d || a.v.size() != b.v.size()) return false;
  for (size_t i = 0; i < a.v.size(); i++) if (!(mag(a.v[i] - b.v[i]) <= tol)) return false;
  return true;
}
template <class T> std::string show(const Ref<T> &r) {
  std::ostringstream s; s.precision(17); s << "dims " << mc::seq(r.d) << " data ";
  if (r.v.size() > 40) { std::vector<T> h(r.v.begin(), r.v.begin() + 40); s << mc::seq(h) << "..."; }
  else s << mc::seq(r.v);
  return s.str();
}
template <class T> std::string show(const tensor::Tensor<T> &t) { return show(from_tensor(t)); }
template <class T> uint64_t hash(const Ref<T> &r, uint64_t salt = 0) {
  mc::Hash h; h.add(salt); h.add(r.d.size()); for (long x : r.d) h.add(x);
  if (!r.v.empty()) h.bytes(&r.v[0], r.v.size() * sizeof(T));
  return h.h;
}

// The library object equals the reference (exactly, NaN==NaN), in every public
// way of looking at it.
template <class T> bool equals(const tensor::Tensor<T> &t, const Ref<T> &r) {
  if (t.rank() != (int)r.d.size() || (size_t)t.size() != r.v.size()) return false;
  for (size_t i = 0; i < r.d.size(); i++) if (t.dimension(i) != r.d[i]) return false;
  const T *p = t.begin_const();
  for (size_t i = 0; i < r.v.size(); i++) if (!same(p[i], r.v[i])) return false;
  return t.end_const() == p + r.v.size();
}
template <class T> bool near(const tensor::Tensor<T> &t, const Ref<T> &r, double tol) {
  if (t.rank() != (int)r.d.size() || (size_t)t.size() != r.v.size()) return false;
  for (size_t i = 0; i < r.d.size(); i++) if (t.dimension(i) != r.d[i]) return false;
  const T *p = t.begin_const();
  for (size_t i = 0; i < r.v.size(); i++) if (!(mag(p[i] - r.v[i]) <= tol)) return false;
  return true;
}
template <class T> void expect(const tensor::Tensor<T> &t, const Ref<T> &r, const char *what) {
  if (!equals(t, r)) mc::fail(std::string(what) + ": got " + show(t) + " expected " + show(r));
}
template <class T> void expect_near(const tensor::Tensor<T> &t, const Ref<T> &r, double tol, const char *what) {
  if (!near(t, r, tol)) mc::fail(std::string(what) + ": got " + show(t) + " expected " + show(r));
}

// distinct values, one per position
template <class T> T label(long k, long base = 0);
template <> inline double label<double>(long k, long base) { return 1 + k + base; }
template <> inline cd label<cd>(long k, long base) { return cd(1 + k + base, -(2 + 3 * k + base)); }
template <class T> Ref<T> labelled(const Dims &d, long base = 0) {
  Ref<T> r(d); for (size_t i = 0; i < r.v.size(); i++) r.v[i] = label<T>(i, base);
#ifdef REF_SPECIALS   // numbers which are not equal to themselves, or equal to another one
  auto put = [&](size_t k, double x) { if (k < r.v.size()) { if (sizeof(T) > 8 && k % 2 == 0) ((double *)&r.v[k])[1] = x; else ((double *)&r.v[k])[0] = x; } };
  put(1, base ? -0.0 : NAN); put(3, base ? NAN : -0.0); put(4, base ? -INFINITY : 0.0); put(6, NAN); put(7, INFINITY);
#endif
  return r;
}
template <class T> const char *tname();
template <> inline const char *tname<double>() { return "real"; }
template <> inline const char *tname<cd>() { return "complex"; }
#endif
