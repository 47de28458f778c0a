// C05: tensor contractions against the defining sums.
#include "ref.h"
#include "huge.h"
#include <map>
// the library has these, although its headers do not list them
namespace tensor {
void fold_into(CTensor &, const CTensor &, int, const CTensor &, int) __attribute__((weak));
void foldin_into(CTensor &, const CTensor &, int, const CTensor &, int) __attribute__((weak));
void mmult_into(CTensor &, const CTensor &, const CTensor &) __attribute__((weak));
}
using namespace tensor;

template <class A, class B> struct Mix { typedef cd type; };
template <> struct Mix<double, double> { typedef double type; };
inline double cj(double x) { return x; }
inline cd cj(cd x) { return std::conj(x); }

enum Kind { FOLD, FOLDC, FOLDIN };
static const char *kname[] = {"fold", "foldc", "foldin"};

// C(i,j,k,m) = sum_l A(i,l,j) B(k,l,m)   [foldin: C(k,i,j,m)]
template <class A, class B> static Ref<typename Mix<A, B>::type> ref_fold(Kind kind, const Ref<A> &a, long n1, const Ref<B> &b, long n2) {
  typedef typename Mix<A, B>::type T;
  long I = prod(a.d, 0, n1), L = a.d[n1], J = prod(a.d, n1 + 1, a.d.size()), K = prod(b.d, 0, n2), M = prod(b.d, n2 + 1, b.d.size());
  Dims d;
  if (kind == FOLDIN) d.insert(d.end(), b.d.begin(), b.d.begin() + n2);
  for (size_t k = 0; k < a.d.size(); k++) if ((long)k != n1) d.push_back(a.d[k]);
  if (kind != FOLDIN) d.insert(d.end(), b.d.begin(), b.d.begin() + n2);
  d.insert(d.end(), b.d.begin() + n2 + 1, b.d.end());
  if (d.empty()) d.push_back(1);
  Ref<T> c(d, T(0));
  if (c.v.empty()) return c;
  for (long m = 0; m < M; m++) for (long k = 0; k < K; k++) for (long j = 0; j < J; j++) for (long i = 0; i < I; i++) {
    T s(0);
    for (long l = 0; l < L; l++) {
      A x = a.v[i + I * (l + L * j)];
      s += T(kind == FOLDC ? cj(x) : x) * T(b.v[k + K * (l + L * m)]);
    }
    c.v[kind == FOLDIN ? k + K * (i + I * (j + J * m)) : i + I * (j + J * (k + K * m))] = s;
  }
  return c;
}

// integer-valued generic operands: all arithmetic is exact
template <class T> static T gen(long k, int salt);
template <> double gen<double>(long k, int salt) { return (double)((k * k * 7 + k * 13 + salt * 31 + 5) % 97) - 40; }
template <> cd gen<cd>(long k, int salt) { return cd(gen<double>(k, salt), gen<double>(k + 3, salt + 11)); }
template <class T> static Ref<T> generic(const Dims &d, int salt) { Ref<T> r(d); for (size_t i = 0; i < r.v.size(); i++) r.v[i] = gen<T>(i, salt); return r; }

template <class A, class B> struct Pair {
  typedef typename Mix<A, B>::type T;
  Ref<A> ra; Ref<B> rb; Tensor<A> a; Tensor<B> b;
  Pair(const Ref<A> &x, const Ref<B> &y) : ra(x), rb(y), a(to_tensor(x)), b(to_tensor(y)) {}
  std::string name(const char *op, long n1, long n2) {
    return mc::Str() << op << "(" << tname<A>() << mc::seq(ra.d) << "," << n1 << "," << tname<B>() << mc::seq(rb.d) << "," << n2 << ")";
  }
  // f computes; n1,n2 as passed
  template <class F> void run(Kind kind, const char *op, long n1, long n2, F f) {
    if (mc::failed()) return;
    long p = ra.d.size(), q = rb.d.size();
    bool ok = n1 >= -p && n1 < p && n2 >= -q && n2 < q;
    long m1 = n1 < 0 ? n1 + p : n1, m2 = n2 < 0 ? n2 + q : n2;
    bool empty = false;
    if (ok && ra.d[m1] != rb.d[m2]) ok = false;
    else if (ok && ra.d[m1] == 0) empty = true;   // an empty sum: zeros, or rejected
    Tensor<T> c; mc::transition();
    bool rej = mc::rejects([&] { c = f(); });
    if (!equals(a, ra) || !equals(b, rb)) { mc::fail(name(op, n1, n2) + " changed an operand"); return; }
    if (!ok) { if (!rej) mc::fail(name(op, n1, n2) + " accepted, gave " + show(c)); return; }
    if (rej) { if (!empty) mc::fail(name(op, n1, n2) + " rejected: " + mc::ending_message); return; }
    Ref<T> e = ref_fold(kind, ra, m1, rb, m2);
    if (!equals(c, e)) { mc::fail(name(op, n1, n2) + ": got " + show(c) + " expected " + show(e)); return; }
    if (e.v.size()) mc::nontrivial();
    mc::Hash h; h.str(op); h.add(hash(e)); mc::state(h.h);
  }
};

static void real_ops(Pair<double, double> &P, bool signs) {
  long p = P.ra.d.size(), q = P.rb.d.size();
  for (long n1 = -p - 1; n1 <= p; n1++) for (long n2 = -q - 1; n2 <= q; n2++) {
    if (!signs && ((n1 < 0) != (n2 < 0))) continue;
    P.run(FOLD, "fold", n1, n2, [&] { return fold(P.a, n1, P.b, n2); });
    P.run(FOLDC, "foldc", n1, n2, [&] { return foldc(P.a, n1, P.b, n2); });
    P.run(FOLDIN, "foldin", n1, n2, [&] { return foldin(P.a, n1, P.b, n2); });
    if (n1 < 0 || n2 < 0) continue;
    RTensor out, garbage = to_tensor(generic<double>({3, 2}, 9)), held(garbage);
    P.run(FOLD, "fold_into", n1, n2, [&] { fold_into(out, P.a, n1, P.b, n2); return out; });
    P.run(FOLD, "fold_into (used output)", n1, n2, [&] { fold_into(out, P.a, n1, P.b, n2); return out; });
    P.run(FOLD, "fold_into (shared output)", n1, n2, [&] { fold_into(garbage, P.a, n1, P.b, n2); return garbage; });
    mc::check(equals(held, generic<double>({3, 2}, 9)), "fold_into changed a tensor sharing the output's storage");
    P.run(FOLD, "fold_into (output shares the first)", n1, n2, [&] { RTensor o(P.a); fold_into(o, P.a, n1, P.b, n2); return o; });
    P.run(FOLD, "fold_into (output is the first)", n1, n2, [&] { RTensor o(P.a); fold_into(o, o, n1, P.b, n2); return o; });
    P.run(FOLD, "fold_into (output is the second)", n1, n2, [&] { RTensor o(P.b); fold_into(o, P.a, n1, o, n2); return o; });
    P.run(FOLD, "fold_into (output is an unshared operand)", n1, n2, [&] { RTensor o(to_tensor(P.ra)); fold_into(o, o, n1, P.b, n2); return o; });
    P.run(FOLDIN, "foldin_into (used output)", n1, n2, [&] { foldin_into(out, P.a, n1, P.b, n2); return out; });
    P.run(FOLDIN, "foldin_into (output is the first)", n1, n2, [&] { RTensor o(to_tensor(P.ra)); foldin_into(o, o, n1, P.b, n2); return o; });
    P.run(FOLDIN, "foldin_into (output is the second)", n1, n2, [&] { RTensor o(to_tensor(P.rb)); foldin_into(o, P.a, n1, o, n2); return o; });
  }
  P.run(FOLD, "mmult", p - 1, 0, [&] { return mmult(P.a, P.b); });
  RTensor o(P.a);
  P.run(FOLD, "mmult_into", p - 1, 0, [&] { mmult_into(o, P.a, P.b); return o; });
  P.run(FOLD, "mmult_into (output is the second)", p - 1, 0, [&] { RTensor o(to_tensor(P.rb)); mmult_into(o, P.a, o); return o; });
}

template <class A, class B> static void mixed_ops(Pair<A, B> &P, bool signs) {
  long p = P.ra.d.size(), q = P.rb.d.size();
  for (long n1 = -p - 1; n1 <= p; n1++) for (long n2 = -q - 1; n2 <= q; n2++) {
    if (!signs && ((n1 < 0) || (n2 < 0))) continue;
    P.run(FOLD, "fold", n1, n2, [&] { return fold(P.a, n1, P.b, n2); });
    P.run(FOLDC, "foldc", n1, n2, [&] { return foldc(P.a, n1, P.b, n2); });
  }
  P.run(FOLD, "mmult", p - 1, 0, [&] { return mmult(P.a, P.b); });
}
static void complex_in(Pair<cd, cd> &P, bool signs) {
  long p = P.ra.d.size(), q = P.rb.d.size();
  for (long n1 = -p - 1; n1 <= p; n1++) for (long n2 = -q - 1; n2 <= q; n2++) {
    if (!signs && ((n1 < 0) || (n2 < 0))) continue;
    P.run(FOLDIN, "foldin", n1, n2, [&] { return foldin(P.a, n1, P.b, n2); });
    if (n1 < 0 || n2 < 0) continue;
    void (*fi)(CTensor &, const CTensor &, int, const CTensor &, int) = fold_into, (*gi)(CTensor &, const CTensor &, int, const CTensor &, int) = foldin_into;
    CTensor used = to_tensor(generic<cd>({3, 2}, 9)), held(used);
    if (fi) {
      P.run(FOLD, "fold_into (shared output)", n1, n2, [&] { fi(used, P.a, n1, P.b, n2); return used; });
      mc::check(equals(held, generic<cd>({3, 2}, 9)), "fold_into changed a tensor sharing the output's storage");
      P.run(FOLD, "fold_into (output is the first)", n1, n2, [&] { CTensor o(to_tensor(P.ra)); fi(o, o, n1, P.b, n2); return o; });
      P.run(FOLD, "fold_into (output shares the second)", n1, n2, [&] { CTensor o(P.b); fi(o, P.a, n1, o, n2); return o; });
    }
    if (gi) {
      P.run(FOLDIN, "foldin_into (used output)", n1, n2, [&] { gi(used, P.a, n1, P.b, n2); return used; });
      P.run(FOLDIN, "foldin_into (output is the second)", n1, n2, [&] { CTensor o(to_tensor(P.rb)); gi(o, P.a, n1, o, n2); return o; });
    }
  }
  void (*mi)(CTensor &, const CTensor &, const CTensor &) = mmult_into;
  if (mi) P.run(FOLD, "mmult_into (output is the second)", p - 1, 0, [&] { CTensor o(to_tensor(P.rb)); mi(o, P.a, o); return o; });
}

// the same object as both operands
template <class T> static void squares(const Ref<T> &r) {
  Pair<T, T> P(r, r);
  P.b = P.a;
  long p = r.d.size();
  for (long n1 = 0; n1 < p; n1++) for (long n2 = 0; n2 < p; n2++) {
    P.run(FOLD, "fold of a tensor with itself", n1, n2, [&] { return fold(P.a, n1, P.a, n2); });
    P.run(FOLDC, "foldc of a tensor with itself", n1, n2, [&] { return foldc(P.a, n1, P.a, n2); });
    P.run(FOLDIN, "foldin of a tensor with itself", n1, n2, [&] { return foldin(P.a, n1, P.a, n2); });
  }
}
static void squares_into(const Ref<double> &r) {
  Pair<double, double> P(r, r);
  long p = r.d.size();
  for (long n1 = 0; n1 < p; n1++) for (long n2 = 0; n2 < p; n2++) {
    P.run(FOLD, "fold_into of a tensor with itself over itself", n1, n2, [&] { RTensor o(to_tensor(r)); fold_into(o, o, n1, o, n2); return o; });
    P.run(FOLDIN, "foldin_into of a tensor with itself over itself", n1, n2, [&] { RTensor o(to_tensor(r)); foldin_into(o, o, n1, o, n2); return o; });
  }
}

static void pair_case(const Dims &da, const Dims &db, bool basis, bool signs) {
  mc::run_case(DESC { return "contractions of dims " + mc::seq(da) + " with " + mc::seq(db); }, [&] {
    mc::note_trace();
    for (int s = 0; s < 2; s++) {
      Ref<double> a = generic<double>(da, s), b = generic<double>(db, s + 5);
      Ref<cd> ca = generic<cd>(da, s), cb = generic<cd>(db, s + 5);
      { Pair<double, double> P(a, b); real_ops(P, signs && s == 0); }
      { Pair<cd, cd> P(ca, cb); mixed_ops(P, signs && s == 0); complex_in(P, signs && s == 0); }
      { Pair<double, cd> P(a, cb); mixed_ops(P, signs && s == 0); }
      { Pair<cd, double> P(ca, b); mixed_ops(P, signs && s == 0); }
    }
    if (da == db) { squares(generic<double>(da, 1)); squares(generic<cd>(da, 1)); squares_into(generic<double>(da, 2)); }
    if (!basis || total(da) * total(db) > 144) return;
    // every pair of unit operands: complete by bilinearity
    for (long x = 0; x < total(da); x++) for (long y = 0; y < total(db); y++) {
      Ref<double> a(da, 0), b(db, 0); Ref<cd> ca(da, 0), cb(db, 0);
      a.v[x] = 1; b.v[y] = 1; ca.v[x] = cd(0, 1); cb.v[y] = cd(1, 1);
      Pair<double, double> P(a, b); Pair<cd, cd> Q(ca, cb);
      for (long n1 = 0; n1 < (long)da.size(); n1++) for (long n2 = 0; n2 < (long)db.size(); n2++) {
        if (da[n1] != db[n2]) continue;
        P.run(FOLD, "fold", n1, n2, [&] { return fold(P.a, n1, P.b, n2); });
        P.run(FOLDIN, "foldin", n1, n2, [&] { return foldin(P.a, n1, P.b, n2); });
        Q.run(FOLD, "fold", n1, n2, [&] { return fold(Q.a, n1, Q.b, n2); });
        Q.run(FOLDC, "foldc", n1, n2, [&] { return foldc(Q.a, n1, Q.b, n2); });
        Q.run(FOLDIN, "foldin", n1, n2, [&] { return foldin(Q.a, n1, Q.b, n2); });
      }
    }
  });
}

// a contracted index of more than 2^31 elements, of which a few are not zero
template <class T> struct Few {
  Dims d; std::map<long, T> v; Huge<T> mem;
  Few(const Dims &d_, int axis, int salt) : d(d_), mem(total(d_)) {
    if (!mem.p) return;
    madvise(mem.p, mem.n * sizeof(T), MADV_HUGEPAGE);
    long I = prod(d, 0, axis), L = d[axis], J = prod(d, axis + 1, d.size()), G = 1L << 31;
    for (long l : {0L, 1L, L / 3, L / 2, G - 2, G - 1, G, G + 1, L - 2, L - 1}) if (l < L)
      for (long j = 0; j < J; j++) for (long i = 0; i < I; i++) if ((i + j + l + salt) % 3) { long k = i + I * (l + L * j); mem.p[k] = v[k] = gen<T>((l % 1009) + 3 * i + 5 * j, salt); }
  }
  Tensor<T> tensor() { return mem.tensor(d); }
  bool kept() { for (auto &x : v) if (mem.p[x.first] != x.second) return false; return true; }
};
template <class T> static void huge_case(Kind kind, const Dims &da, int n1, const Dims &db, int n2) {
  mc::run_case(DESC { return mc::Str() << tname<T>() << " " << kname[kind] << " of huge dims " << mc::seq(da) << " index " << n1 << " with " << mc::seq(db) << " index " << n2; }, [&] {
    mc::group("huge"); Few<T> a(da, n1, 1), b(db, n2, 3); if (!a.mem.p || !b.mem.p) { mc::group("huge: no address space"); return; }
    Tensor<T> A = a.tensor(), B = b.tensor();
    long I = prod(da, 0, n1), L = da[n1], J = prod(da, n1 + 1, da.size()), K = prod(db, 0, n2), M = prod(db, n2 + 1, db.size());
    auto one = [&](Kind kind, const char *op, auto f) {
      std::vector<T> e(I * J * K * M, T(0));
      for (auto &x : a.v) for (auto &y : b.v) {
        long i = x.first % I, l = x.first / I % L, j = x.first / I / L, k = y.first % K, q = y.first / K % L, m = y.first / K / L;
        if (l == q) e[kind == FOLDIN ? k + K * (i + I * (j + J * m)) : i + I * (j + J * (k + K * m))] += (kind == FOLDC ? cj(x.second) : x.second) * y.second;
      }
      Tensor<T> c; mc::transition();
      if (mc::rejects([&] { c = f(); })) { mc::fail(mc::Str() << op << " rejected: " << mc::ending_message); return; }
      bool ok = c.size() == (tensor::index)e.size(); for (size_t k = 0; ok && k < e.size(); k++) ok = c[k] == e[k];
      if (!ok) { mc::fail(mc::Str() << op << ": got " << show(c) << " expected " << mc::seq(e)); return; }
      mc::nontrivial(); mc::Hash h; h.str(op); for (auto &x : e) h.add((uint64_t)std::real(x) * 31 + (uint64_t)std::imag(x)); mc::state(h.h);
    };
    if (kind == FOLD && n2 == 0 && n1 + 1 == (int)da.size()) one(FOLD, "mmult", [&] { return mmult(A, B); });
    else if (kind == FOLD) one(FOLD, "fold", [&] { return fold(A, n1, B, n2); });
    else if (kind == FOLDC) one(FOLDC, "foldc", [&] { return foldc(A, n1, B, n2); });
    else one(FOLDIN, "foldin", [&] { return foldin(A, n1 - (int)da.size(), B, n2); });
    mc::check(a.kept() && b.kept(), "contraction changed an operand");
  });
}
// one element is not a number (or infinite): it shows in every sum that takes it, and in no other
template <class T> static T part(double x, int im);
template <> double part<double>(double x, int) { return x; }
template <> cd part<cd>(double x, int im) { return im ? cd(1, x) : cd(x, 1); }
template <class T> static void special_case(const Dims &da, const Dims &db) {
  mc::run_case(DESC { return mc::Str() << tname<T>() << " contractions of special values, dims " << mc::seq(da) << " with " << mc::seq(db); }, [&] {
    mc::group("special values");
    Ref<T> a(da, T(0)), b(db, T(0));
    for (size_t k = 0; k < a.v.size(); k++) a.v[k] = gen<double>(k, 1) == 0 ? T(3) : T(std::abs(gen<double>(k, 1)));
    for (size_t k = 0; k < b.v.size(); k++) b.v[k] = gen<double>(k, 2) == 0 ? T(7) : T(std::abs(gen<double>(k, 2)));
    for (int which = 0; which < 2; which++) for (long x = 0; x < (which ? total(db) : total(da)); x++) for (double value : {(double)NAN, HUGE_VAL}) for (int im = 0; im < (std::is_same<T, cd>::value ? 2 : 1); im++) {
      Ref<T> fa = a, fb = b; (which ? fb : fa).v[x] = part<T>(value, im);
      Tensor<T> A = to_tensor(fa), B = to_tensor(fb);
      for (long n1 = 0; n1 < (long)da.size(); n1++) for (long n2 = 0; n2 < (long)db.size(); n2++) {
        if (da[n1] != db[n2] || mc::failed()) continue;
        for (Kind k : {FOLD, FOLDC, FOLDIN}) {
          Ref<T> e = ref_fold(k, a, n1, b, n2), one(which ? db : da, T(0)); one.v[x] = T(1);
          Ref<T> touched = which ? ref_fold(k, a, n1, one, n2) : ref_fold(k, one, n1, b, n2);
          Tensor<T> c; mc::transition();
          if (mc::rejects([&] { c = k == FOLD ? fold(A, n1, B, n2) : k == FOLDC ? foldc(A, n1, B, n2) : foldin(A, n1, B, n2); })) { mc::fail(std::string(kname[k]) + " rejected: " + mc::ending_message); return; }
          bool ok = c.size() == (tensor::index)e.v.size();
          for (size_t i = 0; ok && i < e.v.size(); i++) {
            T y = c[i]; double re = std::real(y), ig = std::imag(y);
            if (touched.v[i] == T(0)) ok = y == e.v[i];
            else if (value != value) ok = re != re || ig != ig;
            else ok = !(std::isfinite(re) && std::isfinite(ig)) && (std::is_same<T, cd>::value || re == HUGE_VAL);
          }
          if (!ok) { mc::fail(mc::Str() << kname[k] << "(" << show(A) << "," << n1 << "," << show(B) << "," << n2 << "): got " << show(c)); return; }
          mc::nontrivial(); mc::Hash h; h.str(kname[k]); h.add(x); h.add(which); h.add(n1 * 10 + n2); mc::state(h.h);
        }
      }
    }
  });
}
// what was in the memory of the result does not matter
static void nan_output(const Dims &da, const Dims &db) {
  mc::run_case(DESC { return mc::Str() << "contractions over an output full of not-a-numbers, dims " << mc::seq(da) << " with " << mc::seq(db); }, [&] {
    mc::group("special values"); Pair<double, double> P(generic<double>(da, 1), generic<double>(db, 2));
    for (long n1 = 0; n1 < (long)da.size(); n1++) for (long n2 = 0; n2 < (long)db.size(); n2++) if (da[n1] == db[n2]) for (Kind k : {FOLD, FOLDIN}) {
      Ref<double> e = ref_fold(k, P.ra, n1, P.rb, n2); Ref<double> junk(e.d, (double)NAN);
      for (double x : {(double)NAN, HUGE_VAL, 1e308}) { for (auto &v : junk.v) v = x;
        P.run(k, k == FOLD ? "fold_into (output full of special values)" : "foldin_into (output full of special values)", n1, n2, [&] { RTensor o = to_tensor(junk); if (k == FOLD) fold_into(o, P.a, n1, P.b, n2); else foldin_into(o, P.a, n1, P.b, n2); return o; }); }
    }
  });
}
void explore() {
  { const long N = (1L << 31) + 5;
    for (Kind k : {FOLD, FOLDC, FOLDIN}) {
      huge_case<cd>(k, {N}, 0, {N}, 0); huge_case<double>(k, {N}, 0, {N}, 0);
      huge_case<double>(k, {2, N}, 1, {N, 2}, 0);
      if (k != FOLDIN) huge_case<double>(k, {N}, 0, {2, N}, 1);
      if (k == FOLDIN || mc::thorough) huge_case<double>(k, {N, 2}, 0, {N}, 0);
      if (mc::thorough) { huge_case<double>(k, {2, N, 2}, 1, {3, N}, 1); huge_case<cd>(k, {2, N}, 1, {2, N, 2}, 1); huge_case<double>(k, {2 * N}, 0, {2 * N}, 0); huge_case<cd>(k, {N, 2}, 0, {N}, 0); huge_case<cd>(k, {1, N, 2}, 1, {N}, 0); }
    } }
  bool th = mc::thorough;
  std::vector<Dims> s;
  each_shape(1, 0, 4, [&](const Dims &d) { s.push_back(d); });
  each_shape(2, 0, 3, [&](const Dims &d) { s.push_back(d); });
  each_shape(3, 0, th ? 3 : 2, [&](const Dims &d) { s.push_back(d); });
  each_shape(4, 1, 2, [&](const Dims &d) { s.push_back(d); });
  for (auto &a : s) for (auto &b : s) pair_case(a, b, true, a.size() + b.size() <= 5);
  // mixed extents and larger sizes
  std::vector<Dims> m = {{3, 1, 2}, {1, 3, 2}, {2, 3, 1}, {3, 2, 4}, {4, 2, 3}, {2, 4, 3}, {3, 3, 3}, {3, 2, 1, 2}, {1, 2, 3, 2}, {2, 1, 3, 3}, {2, 3, 1, 2, 2}, {2, 1, 2, 3}, {0, 3, 2}, {3, 2, 0}};
  for (auto &a : m) for (auto &b : m) pair_case(a, b, false, false);
  for (auto &a : m) for (auto &b : s) if (b.size() <= 2) { pair_case(a, b, false, false); pair_case(b, a, false, false); }
  std::vector<Dims> l = {{33, 17}, {17, 33}, {17}, {33}, {5, 17, 3}, {3, 33, 5}, {17, 1}, {1, 17}, {1, 33, 4}, {33, 4, 1}, {9, 8, 7}, {8, 9}, {7, 65}, {65, 2}, {130}, {2, 130}, {130, 3}};
  for (auto &a : l) for (auto &b : l) pair_case(a, b, false, false);
  std::vector<Dims> v = {{1}, {3}, {5}, {2, 3}, {3, 2}, {1, 3}, {3, 1}, {3, 3}, {2, 3, 2}, {3, 2, 2}, {2, 2, 3}, {3, 1, 2}, {17}, {17, 3}, {2, 17}, {2, 3, 1, 2}};
  for (auto &a : v) for (auto &b : v) { special_case<double>(a, b); special_case<cd>(a, b); nan_output(a, b); }
  // long contracted and long free indices
  std::vector<Dims> x = {{257}, {1025}, {4099}, {1025, 3}, {3, 1025}, {2, 1025, 3}, {257, 129}, {3, 4099}, {4099, 2}, {3, 257, 5}, {65539}, {2, 65539}, {65539, 3}, {5, 3, 2}};
  for (auto &a : x) for (auto &b : x) {
    double cost = 0; for (long p : a) for (long q : b) if (p == q) cost = std::max(cost, (double)total(a) * total(b) / p);
    if (cost > 0 && cost < (th ? 5e6 : 8e5)) pair_case(a, b, false, false);
  }
}
