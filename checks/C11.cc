#include <climits>
// C11: sparse arithmetic and products against the defining sums on dense data.
#include "huge.h"
#include "sparse_common.h"

template <class A, class B> struct Mix { typedef cd type; };
template <> struct Mix<double, double> { typedef double type; };
template <class T> static Sparse<T> lib(const Ref<T> &e, unsigned long stored = 0) { return build(e, stored); }

#define GUARD(what, stmt) if (mc::rejects([&] { stmt; })) { mc::fail(std::string(what) + " rejected: " + mc::ending_message); return; }

// every sum, difference and product of two matrices
template <class A, class B> static void sums(const Ref<A> &a, const Ref<B> &b, unsigned long sa = 0, unsigned long sb = 0) {
  typedef typename Mix<A, B>::type T;
  Sparse<A> x = lib(a, sa); Sparse<B> y = lib(b, sb);
  if (x.length() && y.length()) mc::nontrivial();
  Sparse<T> p, m, t;
  std::string n = mc::Str() << show(a) << " and " << show(b);
  GUARD("sum of " + n, p = x + y) GUARD("difference of " + n, m = x - y) GUARD("product of " + n, t = x * y)
  Ref<T> ep(a.d), em(a.d), et(a.d);
  for (size_t i = 0; i < a.v.size(); i++) { ep.v[i] = a.v[i] + b.v[i]; em.v[i] = a.v[i] - b.v[i]; et.v[i] = a.v[i] * b.v[i]; }
  if (!is(p, ep, "sum of " + n) || !is(m, em, "difference of " + n) || !is(t, et, "product of " + n)) return;
  if (!no_zeros(p, "sum of " + n) || !no_zeros(m, "difference of " + n) || !no_zeros(t, "product of " + n)) return;
  // equality of two matrices agrees with the dense one (when no zero is stored)
  if (!sa && !sb && a.d == b.d) {
    bool eq = true; for (size_t i = 0; i < a.v.size(); i++) eq = eq && a.v[i] == b.v[i];
    if constexpr (std::is_same<A, B>::value)
      if (all_equal(x, y) != eq || all_equal(x, to_tensor(b)) != eq || all_equal(to_tensor(a), y) != eq) { mc::fail("all_equal of " + n + " is not " + (eq ? "true" : "false")); return; }
  }
  if (!is(x, a, "first operand") || !is(y, b, "second operand")) return;
}
// with the same object on both sides
template <class T> static void self(const Ref<T> &a) {
  Sparse<T> x = lib(a), h(x);
  Ref<T> ep(a.d), ez(a.d, T(0)), et(a.d);
  for (size_t i = 0; i < a.v.size(); i++) { ep.v[i] = a.v[i] + a.v[i]; et.v[i] = a.v[i] * a.v[i]; }
  if (!is(Sparse<T>(x + x), ep, "A+A") || !is(Sparse<T>(x - x), ez, "A-A") || !is(Sparse<T>(x * x), et, "A*A")) return;
  x = x + h; if (!is(x, ep, "A=A+A")) return;
  is(h, a, "copy of the assigned matrix");
}
template <class A, class B> static void scalar(const Ref<A> &a, B z, unsigned long st = 0) {
  typedef typename Mix<A, B>::type T;
  Sparse<A> x = lib(a, st);
  std::string n = mc::Str() << show(a) << " and " << z;
  Sparse<T> r, l;
  GUARD("product with a number: " + n, r = x * z) GUARD("product with a number: " + n, l = z * x)
  Ref<T> e(a.d); for (size_t i = 0; i < a.v.size(); i++) e.v[i] = a.v[i] * z;
  if (!is(r, e, "matrix times number: " + n) || !is(l, e, "number times matrix: " + n)) return;
  if (z != B(0)) {
    Sparse<T> q; GUARD("quotient: " + n, q = x / z)
    for (size_t i = 0; i < a.v.size(); i++) e.v[i] = a.v[i] / z;
    // as the element-wise quotient, to rounding
    std::string ly = layout(q); if (!ly.empty()) { mc::fail(ly); return; }
    mc::transition(); if (!close(dense_of(q), e, 1e-13 * 20)) { mc::fail("quotient " + n + ": got " + show(dense_of(q))); return; }
  }
  is(x, a, "operand of scalar operations");
}
static void parts(const Ref<double> &a, const Sparse<double> &x) {
  if (!is(Sparse<double>(real(x)), a, "real part") || !is(Sparse<double>(conj(x)), a, "conjugate")) return;
  is(Sparse<double>(imag(x)), Ref<double>(a.d, 0.0), "imaginary part");
}
static void parts(const Ref<cd> &a, const Sparse<cd> &x) {
  Ref<double> r(a.d), i(a.d); for (size_t k = 0; k < a.v.size(); k++) { r.v[k] = a.v[k].real(); i.v[k] = a.v[k].imag(); }
  if (!is(Sparse<double>(real(x)), r, "real part of " + show(a)) || !is(Sparse<double>(imag(x)), i, "imaginary part of " + show(a))) return;
  is(Sparse<cd>(conj(x)), conjd(a), "conjugate of " + show(a));
}
template <class T> static void unary(const Ref<T> &a, unsigned long st = 0) {
  Sparse<T> x = lib(a, st);
  if (x.length()) mc::nontrivial();
  std::string n = show(a);
  Sparse<T> m, t, h; Sparse<cd> c;
  GUARD("negation of " + n, m = -x) GUARD("transpose of " + n, t = transpose(x)) GUARD("adjoint of " + n, h = adjoint(x)) GUARD("complex form of " + n, c = to_complex(x))
  Ref<T> e(a.d); for (size_t i = 0; i < a.v.size(); i++) e.v[i] = -a.v[i];
  if (!is(m, e, "negation of " + n) || !is(t, transposed(a), "transpose of " + n) || !is(h, conjd(transposed(a)), "adjoint of " + n) || !is(c, to_c(a), "complex form of " + n)) return;
  parts(a, x); if (mc::failed()) return;
  Sparse<cd> cc(x); if (!is(cc, to_c(a), "conversion of " + n)) return;
  Tensor<T> f; GUARD("dense form of " + n, f = full(x)) expect(f, a, "dense form");
  is(x, a, "operand of unary operations");
}
template <class T> static void krons(const Ref<T> &a, const Ref<T> &b, unsigned long sa = 0, unsigned long sb = 0) {
  Sparse<T> x = lib(a, sa), y = lib(b, sb), k, k2, s;
  std::string n = mc::Str() << show(a) << " and " << show(b);
  if (x.length() && y.length()) mc::nontrivial();
  GUARD("kron of " + n, k = kron(x, y)) GUARD("kron2 of " + n, k2 = kron2(x, y))
  if (!is(k, ref_kron(a, b), "kron of " + n) || !is(k2, ref_kron(b, a), "kron2 of " + n)) return;
  GUARD("kron2_sum of " + n, s = kron2_sum(x, y))
  if (!is(s, addr(ref_kron(a, ref_eye<T>(b.d[0], b.d[1])), ref_kron(ref_eye<T>(a.d[0], a.d[1]), b)), "kron2_sum of " + n)) return;
  if (a.d[0] == a.d[1] && b.d[0] == b.d[1]) {
    Tensor<T> d; GUARD("dense kron2_sum of " + n, d = kron2_sum(to_tensor(a), to_tensor(b)))
    if (!equals(d, dense_of(s))) { mc::fail("kron2_sum of " + n + " differs from the dense one"); return; }
  }
  if (!is(x, a, "first operand") || !is(y, b, "second operand")) return;
}
// products with tensors on either side and as a linear map
template <class T> static Ref<T> times_left(const Ref<T> &m, const Ref<T> &v) {   // m(i,j) v(j,...)
  Dims d = v.d; d[0] = m.d[0]; Ref<T> e(d, T(0)); long J = m.d[1], L = prod(v.d, 1, v.d.size());
  for (long i = 0; i < m.d[0]; i++) for (long l = 0; l < L; l++) for (long j = 0; j < J; j++) e.v[i + m.d[0] * l] += m.v[i + m.d[0] * j] * v.v[j + J * l];
  return e;
}
template <class T> static Ref<T> times_right(const Ref<T> &v, const Ref<T> &m) {   // v(...,j) m(j,l)
  Dims d = v.d; d.back() = m.d[1]; Ref<T> e(d, T(0)); long J = m.d[0], K = prod(v.d, 0, v.d.size() - 1);
  for (long k = 0; k < K; k++) for (long l = 0; l < m.d[1]; l++) for (long j = 0; j < J; j++) e.v[k + K * l] += v.v[k + K * j] * m.v[j + J * l];
  return e;
}
template <class T> static void product(const Ref<T> &m, const Ref<T> &v, unsigned long st = 0) {
  Sparse<T> x = lib(m, st); Tensor<T> t = to_tensor(v), held(t), mt = to_tensor(m);
  std::string n = mc::Str() << show(m) << " with " << show(v);
  bool okl = v.d[0] == m.d[1], okr = v.d.back() == m.d[0];
  Tensor<T> l, r, ml, mr, dl, dr;
  if (okl) mc::nontrivial();
  bool rl = mc::rejects([&] { l = mmult(x, t); }), rr = mc::rejects([&] { r = mmult(t, x); });
  mc::transition(2);
  if (rl == okl) { mc::fail("matrix times tensor " + n + (rl ? " rejected: " + mc::ending_message : " accepted")); return; }
  if (rr == okr) { mc::fail("tensor times matrix " + n + (rr ? " rejected: " + mc::ending_message : " accepted")); return; }
  Ref<T> el, er;
  if (okl) { el = times_left(m, v); if (!equals(l, el)) { mc::fail("matrix times tensor " + n + ": got " + show(l) + " expected " + show(el)); return; } mc::state(hash(el, 3)); }
  if (okr) { er = times_right(v, m); if (!equals(r, er)) { mc::fail("tensor times matrix " + n + ": got " + show(r) + " expected " + show(er)); return; } mc::state(hash(er, 4)); }
  MatrixMap<Sparse<T> > f(x), g(x, true); MatrixMap<Tensor<T> > df(mt), dg(mt, true);
  const Map<Tensor<T> > &F = f, &G = g, &DF = df, &DG = dg;
  bool r1 = mc::rejects([&] { ml = F(t); }), r2 = mc::rejects([&] { mr = G(t); }), r3 = mc::rejects([&] { dl = DF(t); }), r4 = mc::rejects([&] { dr = DG(t); });
  mc::transition(4);
  // the dense contraction of an empty index is rejected by design: nothing to compare
  bool dokl = okl && !r3, dokr = okr && !r4;
  if (r1 == okl || (r3 == okl && !(okl && !v.d[0])) || r2 == okr || (r4 == okr && !(okr && !v.d.back()))) { mc::fail("linear map of " + n + " wrongly accepted or rejected"); return; }
  if (okl && (!equals(ml, el) || (dokl && !equals(dl, el)))) { mc::fail("linear map of " + n + ": got " + show(ml) + " and " + show(dl) + " expected " + show(el)); return; }
  if (okr && (!equals(mr, er) || (dokr && !equals(dr, er)))) { mc::fail("transposed linear map of " + n + ": got " + show(mr) + " and " + show(dr) + " expected " + show(er)); return; }
  if (!equals(t, v) || !equals(held, v) || !is(x, m, "matrix of a product")) mc::fail("an operand of a product was changed");
}
// elements which are not finite, times zeros
template <class T> static void special_products() {
  for (long R = 1; R <= 3; R++) for (long C = 1; C <= 3; C++) mc::run_case(DESC { return mc::Str() << tname<T>() << " products of " << R << "x" << C << " with infinities and NaN and zeros"; }, [&] {
    mc::group("special products"); mc::nontrivial();
    for (unsigned long bits = 1; bits < (1UL << R * C); bits++) for (double x : {(double)NAN, HUGE_VAL}) for (int at = 0; at < R * C && !mc::failed(); at++) if (bits >> at & 1) {
      if (sizeof(T) > 8 && x == HUGE_VAL) continue;
      Ref<T> m = pattern<T>(R, C, bits, 1); m.v[at] = T(x); Sparse<T> s = lib(m);
      for (long k = 1; k <= 3; k++) for (int zero = 0; zero < 3; zero++) {
        Ref<T> v(Dims{C, k}), w(Dims{k, R}), u(Dims{C}), z(Dims{R});
        auto put = [&](Ref<T> &r) { for (size_t i = 0; i < r.v.size(); i++) r.v[i] = zero == 2 || (long)i % 2 == zero ? T(0) : pickv<T>(i, 4); }; put(v); put(w); put(u); put(z);
        Tensor<T> a, b, c, d; GUARD("special product", (a = mmult(s, to_tensor(v)), b = mmult(to_tensor(w), s), c = mmult(s, to_tensor(u)), d = mmult(to_tensor(z), s)))
        mc::transition(4);
        if (!equals(a, times_left(m, v)) || !equals(c, times_left(m, u))) { mc::fail("product of " + show(m) + " with " + show(v) + ": got " + show(a)); return; }
        if (!equals(b, times_right(w, m)) || !equals(d, times_right(z, m))) { mc::fail("product of " + show(w) + " with " + show(m) + ": got " + show(b)); return; }
      }
    }
  });
}
template <class T> static T small(int k) { return T(k); }
template <class T> static Ref<T> word(const Dims &d, unsigned long w) {   // base-3 digits: 0, 1, -1
  Ref<T> e(d, T(0)); for (auto &x : e.v) { x = w % 3 == 1 ? T(1) : w % 3 == 2 ? T(-1) : T(0); w /= 3; } return e;
}
template <class T> static Ref<T> magnitudes(unsigned long w) {   // 1x2, base-9 digits
  static const double m[] = {0, 1, 5e-324, -1e-310, 1e-200, -1e-155, 1e-16, 1e16, -1e150};
  Ref<T> e(Dims{1, 2}, T(0)); for (auto &x : e.v) { x = T(m[w % 9]); w /= 9; } return e;
}
static void imagify(Ref<double> &) {} static void imagify(Ref<cd> &e) { for (size_t i = 0; i < e.v.size(); i++) if (i % 2) e.v[i] *= cd(0, 1); }

template <class A, class B> static void pairs() {
  bool Th = mc::thorough;
  std::string tn = mc::Str() << tname<A>() << " and " << tname<B>();
  std::vector<Dims> shapes = {{1, 1}, {1, 4}, {4, 1}, {2, 2}, {2, 3}, {3, 2}};
  if (std::string(tname<A>()) == "real" || Th) shapes.push_back({3, 3});
  for (auto &d : shapes) {
    int n = total(d);
    if (n == 9 && std::string(tname<B>()) != "real" && !Th) continue;
    for (unsigned long a = 0; a < (1UL << n); a++) mc::run_case(DESC { return mc::Str() << tn << " dims " << mc::seq(d) << " pattern " << a << " with every other"; }, [&] {
      mc::group("pairs of patterns");
      for (unsigned long b = 0; b < (1UL << n) && !mc::failed(); b++) sums(pattern<A>(d[0], d[1], a, 1), pattern<B>(d[0], d[1], b, 2));
    });
  }
  // all pairs over {0,1,-1}: cancellations
  for (auto &d : std::vector<Dims>{{2, 2}, {1, 4}, {4, 1}}) for (unsigned long a = 0; a < 81; a++) mc::run_case(DESC { return mc::Str() << tn << " dims " << mc::seq(d) << " word " << a << " with every other"; }, [&] {
    mc::group("cancellations");
    for (unsigned long b = 0; b < 81 && !mc::failed(); b++) { Ref<A> x = word<A>(d, a); Ref<B> y = word<B>(d, b); imagify(x); imagify(y); sums(x, y); }
  });
  // magnitudes from the smallest to very large ones: nothing but zero is left out
  for (unsigned long a = 0; a < 81; a++) mc::run_case(DESC { return mc::Str() << tn << " magnitudes " << a << " with every other"; }, [&] {
    mc::group("magnitudes");
    for (unsigned long b = 0; b < 81 && !mc::failed(); b++) { Ref<A> x = magnitudes<A>(a); Ref<B> y = magnitudes<B>(b); if (b % 2) { imagify(x); imagify(y); } sums(x, y); if (a == b) { scalar<A, B>(x, B(1e-100)); scalar<A, B>(x, B(1e100)); unary(x); self(x); product(x, transposed(x)); } }
  });
  // zeros, infinities and NaN
  if (std::is_same<A, B>::value) for (unsigned long a = 0; a < 216; a++) mc::run_case(DESC { return mc::Str() << tn << " special values " << a << " with every other"; }, [&] {
    mc::group("special values");
    for (unsigned long b = 0; b < 216 && !mc::failed(); b++) {
      static const double m[] = {0, 1, HUGE_VAL, -HUGE_VAL, NAN, -3};
      Ref<A> x(Dims{1, 3}, A(0)); Ref<B> y(Dims{1, 3}, B(0)); unsigned long p = a, q = b; for (int k = 0; k < 3; k++) { x.v[k] = A(m[p % 6]); p /= 6; y.v[k] = B(m[q % 6]); q /= 6; }
      sums(x, y);
    }
  });
  // stored zeros
  for (unsigned long sa = 0; sa < 16; sa++) mc::run_case(DESC { return mc::Str() << tn << " stored zeros " << sa; }, [&] {
    mc::group("stored zeros");
    for (unsigned long sb = 0; sb < 16 && !mc::failed(); sb++) for (unsigned long a = 0; a < 16; a++) for (unsigned long b : {0, 1, 6, 9, 15}) sums(pattern<A>(2, 2, a, 1), pattern<B>(2, 2, b, 2), sa, sb);
  });
  // shapes
  for (long r = 0; r <= 4; r++) for (long c = 0; c <= 4; c++) mc::run_case(DESC { return mc::Str() << tn << " " << r << "x" << c << " with other shapes"; }, [&] {
    mc::group("shapes"); mc::nontrivial();
    for (unsigned long s : {0UL, 0x5555UL, ~0UL}) sums(pattern<A>(r, c, ~0UL, 1), pattern<B>(r, c, s, 2));
    for (long r2 = 0; r2 <= 5; r2++) for (long c2 = 0; c2 <= 5; c2++) {
      if (r == r2 && c == c2) continue;
      for (unsigned long s : {0UL, ~0UL}) {
        Sparse<A> x = lib(pattern<A>(r, c, s, 1)); Sparse<B> y = lib(pattern<B>(r2, c2, ~0UL, 2)); Sparse<typename Mix<A, B>::type> z;
        mc::transition(3);
        if (!mc::rejects([&] { z = x + y; }) || !mc::rejects([&] { z = x - y; }) || !mc::rejects([&] { z = x * y; })) { mc::fail(mc::Str() << "accepted " << r << "x" << c << " with " << r2 << "x" << c2); return; }
        if constexpr (std::is_same<A, B>::value) if (all_equal(x, y)) { mc::fail(mc::Str() << "all_equal of " << r << "x" << c << " and " << r2 << "x" << c2); return; }
      }
    }
  });
  std::vector<Dims> big = {{5, 5}, {8, 8}, {1, 40}, {40, 1}, {17, 33}, {64, 3}, {3, 65}, {100, 100}, {129, 2}};
  for (auto &d : big) for (int da : {1, 2, 5, 17}) mc::run_case(DESC { return mc::Str() << tn << " dims " << mc::seq(d) << " one in " << da; }, [&] {
    mc::group("larger");
    for (int db : {1, 3, 7, 40}) for (int sh = 0; sh < 2; sh++) {
      Ref<A> x(d, A(0)); Ref<B> y(d, B(0));
      for (size_t k = 0; k < x.v.size(); k++) { if ((k * 2654435761UL >> 7) % da == 0) x.v[k] = pickv<A>(k, 1); if (((k + sh) * 2246822519UL >> 9) % db == 0) y.v[k] = pickv<B>(k, 2); }
      sums(x, y);
    }
  });
  // numbers
  std::vector<B> zs = {B(0), B(1), B(-1), B(2), B(-0.5), B(3), B(1e10)};
  for (auto &d : std::vector<Dims>{{0, 0}, {0, 3}, {3, 0}, {1, 1}, {2, 2}, {2, 3}, {3, 2}, {3, 3}, {1, 7}, {7, 1}, {20, 20}}) for (auto z : zs)
    mc::run_case(DESC { return mc::Str() << tn << " number " << z << " dims " << mc::seq(d); }, [&] {
      mc::group("numbers");
      int n = total(d); if (n) mc::nontrivial();
      if (n > 9) { scalar<A, B>(pattern<A>(d[0], d[1], ~0UL, 1), z); return; }
      for (unsigned long a = 0; a < (1UL << n) && !mc::failed(); a++) scalar<A, B>(pattern<A>(d[0], d[1], a, 1), z, a * 5);
    });
}
template <class A> static void imaginary() {
  for (cd z : {cd(0, 1), cd(0, -1), cd(1, 1), cd(3, -4), cd(-2, 0.5)}) mc::run_case(DESC { return mc::Str() << tname<A>() << " number " << z; }, [&] {
    mc::group("numbers"); mc::nontrivial();
    for (auto &d : std::vector<Dims>{{1, 1}, {2, 3}, {3, 3}, {0, 2}}) for (unsigned long a = 0; a < (1UL << total(d)) && !mc::failed(); a++) scalar<A, cd>(pattern<A>(d[0], d[1], a, 1), z, a * 5);
  });
}
template <class T> static void all() {
  bool Th = mc::thorough;
  std::string tn = tname<T>();
  for (long r = 0; r <= 4; r++) for (long c = 0; c <= 4; c++) {
    int n = r * c; int hi = n > 8 ? n - 8 : 0; if (n > 12 && !Th) hi = 2;
    for (unsigned long top = 0; top < (1UL << hi); top++) mc::run_case(DESC { return mc::Str() << tn << " unary " << r << "x" << c << " upper bits " << top; }, [&] {
      mc::group("unary");
      for (unsigned long low = 0; low < (1UL << std::min(n, 8)) && !mc::failed(); low++) { unsigned long b = top << 8 | low; if (n > 12 && !Th) b = top * 0x9e37 + low * 0x101; Ref<T> a = pattern<T>(r, c, b, 1); unary(a, 0); unary(a, ~b & 0x33); self(a); }
    });
  }
  for (auto &d : std::vector<Dims>{{17, 17}, {1, 100}, {100, 1}, {33, 65}, {70, 4}, {5, 130}, {100, 100}}) for (int den : {1, 2, 9, 60}) mc::run_case(DESC { return mc::Str() << tn << " unary dims " << mc::seq(d) << " one in " << den; }, [&] {
    mc::group("larger");
    Ref<T> a(d, T(0)); for (size_t k = 0; k < a.v.size(); k++) if ((k * 2654435761UL >> 7) % den == 0) a.v[k] = pickv<T>(k, 3);
    unary(a); self(a);
  });
  // elements with a vanishing real or imaginary part, special values
  mc::run_case(DESC { return tn + " unary of words"; }, [&] {
    mc::group("unary");
    for (unsigned long w = 0; w < 729 && !mc::failed(); w++) { Ref<T> a = word<T>({2, 3}, w); imagify(a); unary(a); self(a); }
  });
  // Kronecker products
  std::vector<Dims> ks; for (long r = 0; r <= 3; r++) for (long c = 0; c <= 3; c++) ks.push_back({r, c});
  for (auto &d : ks) for (auto &e : ks) {
    int n = total(d), m = total(e);
    mc::run_case(DESC { return mc::Str() << tn << " kron " << mc::seq(d) << " with " << mc::seq(e); }, [&] {
      mc::group("Kronecker");
      unsigned long sa = n > 4 && !Th ? (1UL << n) / 11 | 1 : 1, sb = m > 4 && !Th ? (1UL << m) / 11 | 1 : 1;
      if (Th && n + m > 12) sa = sb = 7;
      for (unsigned long a = 0; a < (1UL << n) && !mc::failed(); a += sa) for (unsigned long b = 0; b < (1UL << m) && !mc::failed(); b += sb) krons(pattern<T>(d[0], d[1], a, 1), pattern<T>(e[0], e[1], b, 2), a & 1 ? 6 : 0, b & 1 ? 9 : 0);
      if (!mc::failed()) krons(pattern<T>(d[0], d[1], ~0UL, 1), pattern<T>(e[0], e[1], ~0UL, 2));
    });
  }
  // cancellations of the Kronecker sum, square matrices over {0,1,-1}
  for (unsigned long a = 0; a < 81; a++) mc::run_case(DESC { return mc::Str() << tn << " kron of words " << a; }, [&] {
    mc::group("Kronecker");
    for (unsigned long b = 0; b < 81 && !mc::failed(); b++) { Ref<T> x = word<T>({2, 2}, a), y = word<T>({2, 2}, b); imagify(x); krons(x, y); }
  });
  for (auto &d : std::vector<std::pair<Dims, Dims> >{{{8, 9}, {7, 3}}, {{1, 30}, {20, 1}}, {{12, 12}, {6, 6}}, {{3, 3}, {20, 20}}, {{16, 16}, {2, 2}}}) for (int den : {1, 3, 10}) mc::run_case(DESC { return mc::Str() << tn << " kron " << mc::seq(d.first) << " with " << mc::seq(d.second) << " one in " << den; }, [&] {
    mc::group("larger");
    Ref<T> a(d.first, T(0)), b(d.second, T(0)); for (size_t k = 0; k < a.v.size(); k++) if ((k * 2654435761UL >> 7) % den == 0) a.v[k] = pickv<T>(k, 3); for (size_t k = 0; k < b.v.size(); k++) if ((k * 2246822519UL >> 9) % den == 0) b.v[k] = pickv<T>(k, 4);
    krons(a, b);
  });
  // products: every pattern with tensors of rank 1-4
  for (long r = 0; r <= 3; r++) for (long c = 0; c <= 3; c++) {
    std::vector<Dims> vs; for (long x = 0; x <= 3; x++) { vs.push_back({x}); for (long y = 0; y <= 3; y++) { vs.push_back({x, y}); vs.push_back({x, 2, y}); vs.push_back({x, 2, 3, y}); } }
    for (auto &v : vs) mc::run_case(DESC { return mc::Str() << tn << " product of " << r << "x" << c << " with dims " << mc::seq(v); }, [&] {
      mc::group("products");
      Ref<T> t(v); for (size_t i = 0; i < t.v.size(); i++) t.v[i] = pickv<T>(i, 5);
      int n = r * c; unsigned long step = n > 6 && !Th ? 3 : 1;
      if (v[0] != c && v.back() != r) step = 1UL << n >> 1 | 1;
      for (unsigned long a = 0; a < (1UL << n) && !mc::failed(); a += step) product(pattern<T>(r, c, a, 1), t, a % 4 == 1 ? 10 : 0);
      if (!mc::failed()) product(pattern<T>(r, c, ~0UL, 1), t);
    });
  }
  // every unit matrix with every unit tensor
  for (auto &v : std::vector<Dims>{{3}, {3, 2}, {3, 2, 2}, {2, 3}, {2, 2, 3}}) mc::run_case(DESC { return mc::Str() << tn << " unit operands, dims " << mc::seq(v); }, [&] {
    mc::group("products");
    for (int p = 0; p < 9; p++) for (int q = 0; q < total(v) && !mc::failed(); q++) { Ref<T> m(Dims{3, 3}, T(0)), t(v, T(0)); m.v[p] = label<T>(p); t.v[q] = label<T>(q, 9); product(m, t); }
  });
  for (auto &d : std::vector<Dims>{{17, 17}, {1, 100}, {100, 1}, {33, 65}, {70, 4}, {4, 130}}) for (int den : {1, 2, 9, 60}) mc::run_case(DESC { return mc::Str() << tn << " product dims " << mc::seq(d) << " one in " << den; }, [&] {
    mc::group("larger");
    Ref<T> a(d, T(0)); for (size_t k = 0; k < a.v.size(); k++) if ((k * 2654435761UL >> 7) % den == 0) a.v[k] = pickv<T>(k, 3);
    for (auto &v : std::vector<Dims>{{d[1]}, {d[0]}, {d[1], 5}, {5, d[0]}, {d[1], 2, 3}, {3, 2, d[0]}, {d[1], 64}, {65, d[0]}}) { Ref<T> t(v); for (size_t i = 0; i < t.v.size(); i++) t.v[i] = pickv<T>(i, 5); product(a, t); if (mc::failed()) return; }
  });
}
// Kronecker products whose number of columns cannot be counted
template <class T> static void products_too_wide() {
  const long cs[] = {1, 2, 3, 1L << 20, 1L << 31, (1L << 31) + 1, 1L << 32, (1L << 32) + 1, 1L << 33, 1L << 61, 1L << 62, (1L << 62) + 1, LONG_MAX - 1};
  for (long a : cs) for (long b : cs) mc::run_case(DESC { return mc::Str() << tname<T>() << " Kronecker products of matrices of " << a << " and " << b << " columns"; }, [&] {
    mc::nontrivial();
    for (int pat = 0; pat < 4; pat++) {
      Wide<T> x{2, a, {}}, y{1, b, {}};
      if (pat & 1) { x.v[{0, a - 1}] = pickv<T>(1, 2); x.v[{1, 0}] = pickv<T>(2, 3); } if (pat & 2) { y.v[{0, b - 1}] = pickv<T>(3, 1); y.v[{0, 0}] = pickv<T>(4, 1); }
      Sparse<T> sx = build(x), sy = build(y), g; bool fits = (__int128)a * b < LONG_MAX;
      Wide<T> e{2, fits ? a * b : 0, {}}, f{2, fits ? a * b : 0, {}};
      if (fits) for (auto &p : x.v) for (auto &q : y.v) { e.v[{p.first.first, p.first.second + a * q.first.second}] = p.second * q.second; f.v[{p.first.first, q.first.second + b * p.first.second}] = p.second * q.second; }
      for (int form = 0; form < 4; form++) {
        bool rej = mc::rejects([&] { g = form == 0 ? kron(sy, sx) : form == 1 ? kron2(sx, sy) : form == 2 ? kron(sx, sy) : kron2(sy, sx); }); mc::transition();
        if (rej == fits) { mc::fail(mc::Str() << "pattern " << pat << ", form " << form << (rej ? ": refused" : ": accepted")); return; }
        if (fits && !is(g, form < 2 ? e : f, mc::Str() << "pattern " << pat << ", form " << form)) return;
      }
    }
  });
}
template <class T> static void wide() {
  for (long C : {(1L << 31) + 7, (1L << 32) + 7, (1L << 33) + 3}) for (long R : {1L, 3L}) mc::run_case(DESC { return mc::Str() << tname<T>() << " " << R << "x" << C; }, [&] {
    mc::group("billions of columns"); mc::nontrivial(); mc::note_trace();
    for (int salt = 0; salt < 3; salt++) for (int salt2 = 0; salt2 < 4; salt2++) {
      Wide<T> a = wide_pattern<T>(R, C, salt), b = wide_pattern<T>(R, C, salt2), p{R, C, {}}, m{R, C, {}}, t{R, C, {}}, sc{R, C, {}}, ng{R, C, {}}, cj_{R, C, {}};
      for (auto &x : a.v) { p.v[x.first] += x.second; m.v[x.first] += x.second; sc.v[x.first] = x.second * 4.0; ng.v[x.first] = -x.second; cj_.v[x.first] = cj(x.second); auto it = b.v.find(x.first); if (it != b.v.end()) t.v[x.first] = x.second * it->second; }
      for (auto &x : b.v) { p.v[x.first] += x.second; m.v[x.first] -= x.second; }
      Sparse<T> x = build(a), y = build(b), r;
      #define ONE(what, ex, want) if (mc::rejects([&] { r = ex; })) { mc::fail(what " rejected: " + mc::ending_message); return; } if (!is(r, want, what)) return;
      ONE("sum", x + y, p) ONE("difference", x - y, m) ONE("product", x * y, t) ONE("product with a number", x * 4.0, sc) ONE("quotient by a number", x / 0.25, sc) ONE("negation", -x, ng) ONE("conjugate", conj(x), cj_)
      Ref<T> k = pattern<T>(2, 2, 7 + salt2, salt); Sparse<T> ks = build(k);
      Wide<T> k1{2 * R, 2 * C, {}}, k2{2 * R, 2 * C, {}}; for (auto &e : a.v) for (long i = 0; i < 2; i++) for (long j = 0; j < 2; j++) if (k.v[i + 2 * j] != T(0)) { k1.v[{i * R + e.first.first, j * C + e.first.second}] = k.v[i + 2 * j] * e.second; k2.v[{e.first.first * 2 + i, e.first.second * 2 + j}] = k.v[i + 2 * j] * e.second; }
      ONE("Kronecker product with a wide matrix", kron(ks, x), k1) ONE("Kronecker product of a wide matrix", kron(x, ks), k2)
      if (!is(x, a, "operand") || !is(y, b, "operand")) return;
      // products with a vector that exists only where the matrix does
      if (C * sizeof(T) < (1UL << 37)) { Huge<T> mem(C); if (!mem.p) { mc::group("no address space"); return; } Tensor<T> v = mem.tensor({C}); std::vector<T> want(R, T(0)); for (auto &e : a.v) mem.p[e.first.second] = T(e.first.second % 11 - 4); for (auto &e : a.v) want[e.first.first] += e.second * mem.p[e.first.second];
        Tensor<T> g, h; if (mc::rejects([&] { g = mmult(x, v); h = MatrixMap<Sparse<T> >(x)(v); })) { mc::fail("product with a vector rejected: " + mc::ending_message); return; }
        mc::transition(2); for (long i = 0; i < R; i++) if (g.size() != R || h.size() != R || !(std::abs(g[i] - want[i]) < 1e-9) || !(std::abs(h[i] - want[i]) < 1e-9)) { mc::fail(mc::Str() << "product with a vector: row " << i); return; } }
    }
  });
}
void explore() {
  special_products<double>(); special_products<cd>();
  wide<double>(); wide<cd>();
  products_too_wide<double>(); products_too_wide<cd>();
  pairs<double, double>(); pairs<cd, cd>(); pairs<double, cd>(); pairs<cd, double>();
  imaginary<double>(); imaginary<cd>();
  all<double>(); all<cd>();
}
