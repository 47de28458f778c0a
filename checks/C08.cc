// C08: comparisons, boolean algebra and reductions against their element-wise
// definitions.
#include "ref.h"
#include <climits>
using namespace tensor;
typedef std::vector<long> L;
typedef std::vector<int> B;   // truth values

static std::string showb(const B &b) { return b.size() > 60 ? mc::Str() << b.size() << " values" : (std::string)mc::seq(b); }
static B truth(const Booleans &b) { return B(b.begin_const(), b.end_const()); }
static Booleans booleans(const B &b) { Booleans r((tensor::index)b.size()); Booleans::iterator it = r.begin(); for (int x : b) *it++ = x != 0; return r; }

static bool verify(const std::string &name, bool rej, const Booleans &got, const B &e) {
  mc::transition();
  if (rej) { mc::fail(name + " rejected: " + mc::ending_message); return false; }
  if (truth(got) != e) { mc::fail(name + ": got " + showb(truth(got)) + " expected " + showb(e)); return false; }
  mc::Hash h; h.str(name); for (int x : e) h.add(x); mc::state(h.h);
  return true;
}

#define EQ_OPS(X) X(==) X(!=)
#define ORD_OPS(X) X(==) X(!=) X(<) X(>) X(<=) X(>=)

// A: library container, V: vector of scalars, both orders and number on either side
template <class A, class V> static void compare_ord(const A &a, const V &va, const A &b, const V &vb) {
  size_t n = va.size();
  if (n) mc::nontrivial();
#define X(OP) { B e(n); for (size_t i = 0; i < n; i++) e[i] = va[i] OP vb[i]; Booleans c; bool r = mc::rejects([&] { Booleans t(a OP b); c = t; }); if (!verify("a " #OP " b", r, c, e)) return; }
  ORD_OPS(X)
#undef X
}
template <class A, class V> static void compare_eq(const A &a, const V &va, const A &b, const V &vb) {
  size_t n = va.size();
  if (n) mc::nontrivial();
#define X(OP) { B e(n); for (size_t i = 0; i < n; i++) e[i] = va[i] OP vb[i]; Booleans c; bool r = mc::rejects([&] { Booleans t(a OP b); c = t; }); if (!verify("a " #OP " b", r, c, e)) return; }
  EQ_OPS(X)
#undef X
}
template <class A, class V, class N> static void number_ord(const A &a, const V &va, N x) {
  size_t n = va.size();
  if (n) mc::nontrivial();
#define X(OP) { B e(n), f(n); for (size_t i = 0; i < n; i++) { e[i] = va[i] OP x; f[i] = x OP va[i]; } Booleans c, d; \
    bool r = mc::rejects([&] { Booleans t(a OP x); c = t; }), s = mc::rejects([&] { Booleans t(x OP a); d = t; }); \
    if (!verify("a " #OP " number", r, c, e) || !verify("number " #OP " a", s, d, f)) return; }
  ORD_OPS(X)
#undef X
}
template <class A, class V, class N> static void number_eq(const A &a, const V &va, N x) {
  size_t n = va.size();
  if (n) mc::nontrivial();
#define X(OP) { B e(n), f(n); for (size_t i = 0; i < n; i++) { e[i] = va[i] OP x; f[i] = x OP va[i]; } Booleans c, d; \
    bool r = mc::rejects([&] { Booleans t(a OP x); c = t; }), s = mc::rejects([&] { Booleans t(x OP a); d = t; }); \
    if (!verify("a " #OP " number", r, c, e) || !verify("number " #OP " a", s, d, f)) return; }
  EQ_OPS(X)
#undef X
}

static std::vector<double> reals() { return {0.0, -0.0, 1, -1, 0.5, 1 + 2.220446049250313e-16, 1e308, -1e308, 5e-324, -5e-324, HUGE_VAL, -HUGE_VAL, (double)NAN, 4503599627370496.5, 9007199254740992.0, 9007199254740994.0}; }
static std::vector<cd> complexes() {
  std::vector<cd> v; for (double x : {0.0, -0.0, 1.0, 1 + 2.220446049250313e-16, (double)NAN, HUGE_VAL}) for (double y : {0.0, 2.0, -2.0, (double)NAN}) v.push_back(cd(x, y)); return v;
}
static L longs() { return {0, 1, -1, 2, LONG_MAX, LONG_MIN, LONG_MAX - 1, LONG_MIN + 1, 1L << 53, (1L << 53) + 1, 1L << 31, (1L << 31) - 1, -(1L << 31), 1L << 32, (1L << 32) + 1}; }

template <class T> static Ref<T> vec(const std::vector<T> &v) { return Ref<T>(Dims{(long)v.size()}, v); }
template <class T> static T gen(long k, int salt);
template <> double gen<double>(long k, int salt) { return (double)((k * k * 7 + k * 13 + salt * 31 + (k % (salt + 3)) * 5) % 9) - 4; }
template <> cd gen<cd>(long k, int salt) { return cd(gen<double>(k, salt), gen<double>(k + 3, salt + 11)); }
template <class T> static Ref<T> generic(const Dims &d, int salt) { Ref<T> r(d); for (size_t i = 0; i < r.v.size(); i++) r.v[i] = gen<T>(i, salt); return r; }
static L generic_l(long n, int salt) { L r(n); for (long i = 0; i < n; i++) r[i] = (long)gen<double>(i, salt); return r; }

// with every observable kept: operands are intact and so are their copies
template <class T> static void both_r(const Ref<T> &x, const Ref<T> &y);
template <> void both_r<double>(const Ref<double> &x, const Ref<double> &y) {
  RTensor a = to_tensor(x), b = to_tensor(y), ha(a), hb(b);
  compare_ord(a, x.v, b, y.v);
  if (!equals(a, x) || !equals(b, y) || !equals(ha, x) || !equals(hb, y)) mc::fail("a comparison changed an operand");
}
template <> void both_r<cd>(const Ref<cd> &x, const Ref<cd> &y) {
  CTensor a = to_tensor(x), b = to_tensor(y), ha(a), hb(b);
  compare_eq(a, x.v, b, y.v);
  if (!equals(a, x) || !equals(b, y) || !equals(ha, x) || !equals(hb, y)) mc::fail("a comparison changed an operand");
}
static void both_l(const L &x, const L &y) {
  Indices a = to_indices(x), b = to_indices(y);
  compare_ord(a, x, b, y);
  if (from_indices(a) != x || from_indices(b) != y) mc::fail("a comparison changed an operand");
}
template <class T> static void whole(const Ref<T> &x, const Ref<T> &y) {
  bool e = x.d == y.d; for (size_t i = 0; e && i < x.v.size(); i++) e = x.v[i] == y.v[i];
  Tensor<T> a = to_tensor(x), b = to_tensor(y);
  bool g = !e, h = e, rej = mc::rejects([&] { g = all_equal(a, b); h = some_unequal(a, b); });
  mc::transition(2);
  if (rej) { mc::fail(std::string("all_equal rejected: ") + mc::ending_message); return; }
  if (g != e || h == e) mc::fail(mc::Str() << "all_equal is " << g << ", some_unequal " << h << " for " << show(x) << " and " << show(y));
}
static void whole_l(const L &x, const L &y) {
  bool e = x == y; Indices a = to_indices(x), b = to_indices(y);
  mc::transition(2);
  if (all_equal(a, b) != e || some_unequal(a, b) == e) mc::fail(mc::Str() << "all_equal wrong for index lists " << mc::seq(x) << " and " << mc::seq(y));
}
template <class T, class N> static void whole_number(const Ref<T> &x, N y) {
  bool e = true; for (size_t i = 0; e && i < x.v.size(); i++) e = x.v[i] == y;
  Tensor<T> a = to_tensor(x);
  mc::transition(4);
  if (all_equal(a, y) != e || all_equal(y, a) != e) mc::fail(mc::Str() << "all_equal with a number wrong for " << show(x));
}

static void algebra(const B &x) {
  Booleans a = booleans(x), c;
  size_t n = x.size();
  B e(n); L w; bool all = true, any = false;
  for (size_t i = 0; i < n; i++) { e[i] = !x[i]; all = all && x[i]; any = any || x[i]; if (x[i]) w.push_back(i); }
  if (n) mc::nontrivial();
  bool r = mc::rejects([&] { Booleans t(!a); c = t; });
  if (!verify("not", r, c, e)) return;
  Indices l; bool g1 = false, g2 = false, g3 = false;
  r = mc::rejects([&] { l = which(a); g1 = all_of(a); g2 = any_of(a); g3 = none_of(a); });
  mc::transition(4);
  if (r) { mc::fail("rejected: " + mc::ending_message); return; }
  if (from_indices(l) != w) mc::fail("which of " + showb(x) + " is " + mc::seq(from_indices(l)));
  if (g1 != all || g2 != any || g3 == any) mc::fail("all/any/none wrong for " + showb(x));
  if (truth(a) != x) mc::fail("operand changed");
}
static void algebra2(const B &x, const B &y) {
  Booleans a = booleans(x), b = booleans(y), c;
  size_t n = x.size(); B e(n), f(n);
  if (n) mc::nontrivial();
  for (size_t i = 0; i < n; i++) { e[i] = x[i] && y[i]; f[i] = x[i] || y[i]; }
  bool r = mc::rejects([&] { Booleans t(a && b); c = t; }); if (!verify("and", r, c, e)) return;
  r = mc::rejects([&] { Booleans t(a || b); c = t; }); if (!verify("or", r, c, f)) return;
  if (truth(a) != x || truth(b) != y) mc::fail("operand changed");
}

// ---- reductions -----------------------------------------------------------
static double part(const cd &x) { return std::abs(x); }
static double part(double x) { return std::fabs(x); }
static double cj(double x) { return x; }
static cd cj(const cd &x) { return std::conj(x); }
template <class T> static bool near1(const T &got, const T &want, double scale, const char *name, const Ref<T> &r) {
  mc::transition();
  if (part(got - want) <= scale) return true;
  std::ostringstream s; s.precision(17); s << name << " is " << got << ", expected " << want << ", of " << show(r);
  mc::fail(s.str()); return false;
}
static void extremes(const Ref<double> &r, const RTensor &t) {
  double lo = 0, hi = 0; bool rl = mc::rejects([&] { lo = min(t); }), rh = mc::rejects([&] { hi = max(t); });
  mc::transition(2);
  if (r.v.empty()) { if (!rl || !rh) mc::fail("minimum or maximum of nothing accepted"); return; }
  if (rl || rh) { mc::fail("min/max rejected: " + mc::ending_message); return; }
  double a = r.v[0], b = a; for (double x : r.v) { if (x < a) a = x; if (b < x) b = x; }
  if (a != lo || b != hi) mc::fail(mc::Str() << "min, max are " << lo << ", " << hi << " expected " << a << ", " << b << " of " << show(r));
}
static void extremes(const Ref<cd> &, const CTensor &) {}
template <class T> static void reduce(const Ref<T> &r, bool exact) {
  Tensor<T> t = to_tensor(r), held(t);
  size_t n = r.v.size();
  if (n) mc::nontrivial();
  mc::state(hash(r, 17));
  std::complex<long double> s = 0; long double a = 0, q = 0, m = 0;
  for (const T &x : r.v) { s += std::complex<long double>(cd(x).real(), cd(x).imag()); a += part(x); q += (long double)part(x) * part(x); if (part(x) > m) m = part(x); }
  auto conv = [](std::complex<long double> z) { cd c((double)z.real(), (double)z.imag()); return c; };
  T ts; { cd c = conv(s); ts = *(T *)&c; }
  double u = exact ? 0 : 2.3e-16 * (n + 4) * (double)a;
  T gs{}, gm{}; double g0 = 0, g2 = 0;
  bool rej = mc::rejects([&] { gs = sum(t); g0 = norm0(t); g2 = norm2(t); });
  if (rej) { mc::fail("reduction rejected: " + mc::ending_message); return; }
  if (!near1(gs, ts, u, "sum", r)) return;
  if (n) {
    rej = mc::rejects([&] { gm = mean(t); });
    if (rej) { mc::fail("mean rejected: " + mc::ending_message); return; }
    if (!near1(gm, (T)(ts / (double)n), 2.3e-16 * (n + 4) * (double)a / n, "mean", r)) return;
  }
  if (!(std::fabs(g0 - (double)m) <= 4.5e-16 * m)) { mc::fail(mc::Str() << "norm0 is " << g0 << " expected " << (double)m << " of " << show(r)); return; }
  double e2 = std::sqrt((double)q);
  if (!(std::fabs(g2 - e2) <= 2.3e-16 * (n + 8) * e2)) { mc::fail(mc::Str() << "norm2 is " << g2 << " expected " << e2 << " of " << show(r)); return; }
  extremes(r, t);
  // mean along each index
  int rank = r.d.size();
  for (int k = -rank - 1; k <= rank; k++) {
    Tensor<T> g; rej = mc::rejects([&] { g = mean(t, k); });
    mc::transition();
    if (rank == 0 || k < -rank || k >= rank) { if (!rej) { mc::fail(mc::Str() << "mean along index " << k << " of rank " << rank << " accepted"); return; } continue; }
    int i = k < 0 ? k + rank : k;
    if (r.d[i] == 0) continue;       // mean of no element: undefined
    if (rej) { mc::fail(mc::Str() << "mean along " << k << " rejected: " << mc::ending_message); return; }
    Dims o; for (int j = 0; j < rank; j++) if (j != i) o.push_back(r.d[j]);
    if (rank == 1) o = Dims{1};
    Ref<T> e(o);
    each_index(r.d, [&](const Dims &x) { Dims y; for (int j = 0; j < rank; j++) if (j != i) y.push_back(x[j]); if (rank == 1) y = Dims{0}; e(y) += r(x); });
    for (auto &x : e.v) x /= (double)r.d[i];
    double mx = 0; for (auto &x : r.v) mx = std::max(mx, part(x));
    expect_near(g, e, 2.3e-16 * (r.d[i] + 6) * mx, (std::string("mean along index ") + std::to_string(k)).c_str());
    if (mc::failed()) return;
  }
  double g = 0; rej = mc::rejects([&] { g = matrix_norminf(t); });
  mc::transition();
  if (rank != 2) { if (!rej) mc::fail("matrix_norminf of a non-matrix accepted"); }
  else {
    if (rej) { mc::fail("matrix_norminf rejected: " + mc::ending_message); return; }
    double e = 0; for (long i = 0; i < r.d[0]; i++) { double x = 0; for (long j = 0; j < r.d[1]; j++) x += part(r.v[i + j * r.d[0]]); e = std::max(e, x); }
    if (!(std::fabs(g - e) <= 2.3e-16 * (r.d[1] + 4) * e)) mc::fail(mc::Str() << "matrix_norminf is " << g << " expected " << e << " of " << show(r));
  }
  if (!equals(t, r) || !equals(held, r)) mc::fail("a reduction changed its argument");
}
template <class T> static void scalar_product(const Ref<T> &x, const Ref<T> &y, bool exact) {
  Tensor<T> a = to_tensor(x), b = to_tensor(y); T g{};
  bool rej = mc::rejects([&] { g = scprod(a, b); });
  mc::transition();
  if (x.v.size() != y.v.size()) { if (!rej) mc::fail(mc::Str() << "scprod of " << x.v.size() << " and " << y.v.size() << " elements accepted"); return; }
  if (rej) { if (x.d == y.d) mc::fail("scprod rejected: " + mc::ending_message); return; }
  if (x.v.size()) mc::nontrivial();
  T e{}; double m = 0; for (size_t i = 0; i < x.v.size(); i++) { e += x.v[i] * cj(y.v[i]); m += part(x.v[i]) * part(y.v[i]); }
  near1(g, e, exact ? 0 : 4.6e-16 * (x.v.size() + 4) * m, "scprod", x);
  if (!equals(a, x) || !equals(b, y)) mc::fail("scprod changed an operand");
}

// larger tensors: fewer positions
static long far(long n, long step) { long k = n > 100000 ? n / 3 + 1 : n > 20000 ? n / 20 + 1 : step; return k; }
static std::vector<Dims> shapes() {
  std::vector<Dims> s;
  s.push_back(Dims{});
  for (int r = 1; r <= 5; r++) each_shape(r, 0, r == 1 ? 12 : r == 2 ? (mc::thorough ? 8 : 5) : r == 3 ? (mc::thorough ? 4 : 3) : r == 4 ? (mc::thorough ? 3 : 2) : 2, [&](const Dims &d) { s.push_back(d); });
  s.push_back({1, 2, 1, 3, 1, 2}); s.push_back({2, 3, 1, 2, 2, 3}); s.push_back({17, 5}); s.push_back({5, 17}); s.push_back({64, 3}); s.push_back({3, 129}); s.push_back({33, 31, 2}); s.push_back({2, 70, 3}); s.push_back({7, 6, 5, 4});
  for (long n : {15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 1000, 1023, 1024, 1025, 4095, 4096, 4097, 5000, 10007, 65537, 262147}) s.push_back({n});
  s.push_back({1031, 513}); s.push_back({3, 65539});
  return s;
}

template <class T> static void tensors(const std::vector<T> &alpha) {
  // every pair of alphabet values, at every position of a larger tensor
  mc::run_case(DESC { return std::string(tname<T>()) + " all pairs of special values"; }, [&] {
    mc::group("comparisons, special values");
    Ref<T> a(Dims{(long)alpha.size(), (long)alpha.size()}), b(a.d);
    for (size_t i = 0; i < alpha.size(); i++) for (size_t j = 0; j < alpha.size(); j++) { a.v[i + alpha.size() * j] = alpha[i]; b.v[i + alpha.size() * j] = alpha[j]; }
    both_r(a, b);
    for (auto &x : alpha) for (auto &y : alpha) { whole(vec<T>({x}), vec<T>({y})); whole_number(vec<T>({x}), y); whole(vec<T>({x, T(1)}), vec<T>({x, y})); }
  });
}

void explore() {
  tensors<double>(reals()); tensors<cd>(complexes());
  mc::run_case(DESC { return std::string("index lists: all pairs of special values"); }, [&] {
    L x = longs(), a, b; for (long i : x) for (long j : x) { a.push_back(i); b.push_back(j); }
    both_l(a, b);
    for (long i : x) { number_ord(to_indices(x), x, i); for (long j : x) { whole_l({i}, {j}); whole_l({0, i}, {0, j}); } }
  });
  for (double y : reals()) mc::run_case(DESC { return mc::Str() << "real tensors against the number " << y; }, [&] {
    Ref<double> r = vec(reals()); RTensor t = to_tensor(r); number_ord(t, r.v, y); if (!equals(t, r)) mc::fail("operand changed");
  });
  for (cd y : complexes()) mc::run_case(DESC { return mc::Str() << "complex tensors against the number " << y; }, [&] {
    Ref<cd> r = vec(complexes()); CTensor t = to_tensor(r); number_eq(t, r.v, y); if (y.imag() == 0) { double z = y.real(); number_eq(t, r.v, cd(z)); }
    if (!equals(t, r)) mc::fail("operand changed");
  });
  // all pairs of words
  static const double W[3] = {-1, 0, 2};
  for (int n = 0; n <= (mc::thorough ? 4 : 3); n++) mc::all_words(n, 3, [&](const std::vector<int> &w) {
    mc::run_case(DESC { return mc::Str() << "all pairs of words with " << mc::seq(w); }, [&] {
      mc::group("comparisons, all pairs of words");
      for (int m = 0; m <= 3; m++) mc::all_words(m, 3, [&](const std::vector<int> &v) {
        if (mc::failed()) return;
        Ref<double> a(Dims{n}), b(Dims{m}); Ref<cd> c(Dims{n}), d(Dims{m}); L x(n), y(m);
        for (int i = 0; i < n; i++) { a.v[i] = W[w[i]]; c.v[i] = cd(w[i] / 2, w[i] % 2); x[i] = w[i] - 1; }
        for (int i = 0; i < m; i++) { b.v[i] = W[v[i]]; d.v[i] = cd(v[i] / 2, v[i] % 2); y[i] = v[i] - 1; }
        whole(a, b); whole(c, d); whole_l(x, y);
        if (n == m) { both_r(a, b); both_r(c, d); both_l(x, y); }
        else {
          RTensor ta = to_tensor(a), tb = to_tensor(b); CTensor tc = to_tensor(c), td = to_tensor(d); Indices ia = to_indices(x), ib = to_indices(y);
#define X(OP) if (!mc::rejects([&] { ta OP tb; }) || !mc::rejects([&] { ia OP ib; })) mc::fail(mc::Str() << "comparison " #OP " of " << n << " and " << m << " elements accepted");
          ORD_OPS(X)
#undef X
          if (!mc::rejects([&] { tc == td; }) || !mc::rejects([&] { tc != td; })) mc::fail("comparison of complex tensors of different sizes accepted");
        }
      });
    });
  });
  // sizes and shapes
  std::vector<Dims> S = shapes();
  for (auto &d : S) mc::run_case(DESC { return "shape " + mc::seq(d); }, [&] {
    mc::group("shapes");
    Ref<double> a = generic<double>(d, 1), b = generic<double>(d, 2); Ref<cd> c = generic<cd>(d, 3), e = generic<cd>(d, 4);
    both_r(a, b); both_r(c, e);
    number_ord(to_tensor(a), a.v, 1.0); number_eq(to_tensor(c), c.v, c.v.empty() ? cd(1) : c.v.back()); number_ord(to_tensor(a), a.v, -2);
    if (!d.empty()) { L x = generic_l(total(d), 5), y = generic_l(total(d), 6); both_l(x, y); number_ord(to_indices(x), x, 2L); whole_l(x, y); whole_l(x, x); }
    whole(a, a); whole(c, c); whole(a, b); whole(c, e);
    long n = total(d);
    for (long i = 0; i < n && !mc::failed(); i = n > 600 && i > 3 && i < n - 5 ? std::min(i + far(n, 97), n - 5) : i + 1) {
      Ref<double> a2 = a; a2.v[i] += 0.5; whole(a, a2); whole(a2, a);
      Ref<cd> c2 = c; c2.v[i] += cd(0, 0.5); whole(c, c2); whole(c2, c);
      Ref<double> k(d, 3.0); k.v[i] = 2; whole_number(k, 3.0); Ref<cd> kc(d, cd(3.0, 1)); kc.v[i] = cd(3, 2); whole_number(kc, cd(3, 1));
      B w(n, 0); w[i] = 1; algebra(w); B z(n, 1); z[i] = 0; algebra(z);
    }
    whole_number(Ref<double>(d, 3.0), 3.0); whole_number(Ref<cd>(d, cd(3, 1)), cd(3, 1));
    if (n) { B u(n), v(n); for (long i = 0; i < n; i++) { u[i] = i % 3 == 0; v[i] = (i / 2) % 2; } algebra(u); algebra(v); algebra2(u, v); algebra(B(n, 0)); algebra(B(n, 1)); }
  });
  for (auto &d : S) if (total(d) <= 64) mc::run_case(DESC { return "whole-tensor equality of all dimension lists against " + mc::seq(d); }, [&] {
    mc::group("dimension pairs");
    mc::nontrivial();
    for (auto &o : S) if (total(o) <= 64) { whole(Ref<double>(d, 2), Ref<double>(o, 2)); whole(Ref<cd>(d, 2), Ref<cd>(o, 2)); if (mc::failed()) return; }
  });
  // booleans
  for (int n = 0; n <= (mc::thorough ? 16 : 12); n++) mc::run_case(DESC { return mc::Str() << "all boolean words of length " << n; }, [&] {
    mc::group("booleans"); mc::all_words(n, 2, [&](const B &w) { if (!mc::failed()) algebra(w); });
  });
  for (int n = 0; n <= (mc::thorough ? 8 : 6); n++) for (int m = 0; m <= 8; m++) mc::run_case(DESC { return mc::Str() << "all pairs of boolean words of lengths " << n << "," << m; }, [&] {
    mc::group("booleans");
    if (n == m) mc::all_words(n, 2, [&](const B &w) { mc::all_words(n, 2, [&](const B &v) { if (!mc::failed()) algebra2(w, v); }); });
    else { Booleans a = booleans(B(n, 1)), b = booleans(B(m, 1)); if (!mc::rejects([&] { a && b; }) || !mc::rejects([&] { a || b; })) mc::fail("booleans of different lengths accepted"); }
  });
  // reductions
  for (auto &d : S) for (int cx = 0; cx < 2; cx++) mc::run_case(DESC { return mc::Str() << "reductions, " << (cx ? "complex" : "real") << " dims " << mc::seq(d); }, [&] {
    mc::group("reductions");
    for (int s = 1; s <= 3 && !mc::failed(); s++) {
      if (cx) { Ref<cd> a = generic<cd>(d, s), b = generic<cd>(d, s + 5); reduce(a, true); scalar_product(a, b, true); for (auto &x : a.v) x *= 0.1; for (size_t i = 0; i < b.v.size(); i++) b.v[i] *= 0.3 + i % 5; reduce(b, false); scalar_product(a, b, false); scalar_product(a, a, false); }
      else { Ref<double> a = generic<double>(d, s), b = generic<double>(d, s + 5); reduce(a, true); scalar_product(a, b, true); for (auto &x : a.v) x *= 0.1; for (size_t i = 0; i < b.v.size(); i++) b.v[i] *= 0.3 + i % 5; reduce(b, false); scalar_product(a, b, false); scalar_product(a, a, false); }
    }
    long n = total(d);   // one distinguished element at each position
    for (long i = 0; i < n && !mc::failed(); i = n > 300 && i > 3 && i < n - 5 ? std::min(i + far(n, 211), n - 5) : i + 1) {
      for (double x : {7.0, -7.0}) { if (cx) { Ref<cd> a(d, cd(1, 1)); a.v[i] = cd(0, x); reduce(a, true); } else { Ref<double> a(d, 1.0); a.v[i] = x; reduce(a, true); Ref<double> b(d, -2.0); b.v[i] = x; reduce(b, true); } }
    }
  });
  for (auto &d : S) if (total(d) <= 40) mc::run_case(DESC { return "scalar product of unequal sizes, dims " + mc::seq(d); }, [&] {
    mc::group("scalar product");
    for (auto &o : S) if (total(o) <= 40 && !mc::failed()) { scalar_product(generic<double>(d, 1), generic<double>(o, 2), true); scalar_product(generic<cd>(d, 1), generic<cd>(o, 2), true); }
  });
  // every vector over a small alphabet
  for (int n = 1; n <= (mc::thorough ? 6 : 5); n++) mc::all_words(n > 2 ? n - 2 : 0, 5, [&](const std::vector<int> &p) {
    mc::run_case(DESC { return mc::Str() << "reductions of all words of length " << n << " starting with " << mc::seq(p); }, [&] {
      mc::group("reductions of words");
      static const double A[5] = {-3, -1, 0, 1, 2.5};
      mc::all_words(n - p.size(), 5, [&](const std::vector<int> &q) {
        if (mc::failed()) return;
        Ref<double> a(Dims{n}); for (int i = 0; i < n; i++) a.v[i] = A[i < (int)p.size() ? p[i] : q[i - p.size()]];
        reduce(a, true);
        Ref<cd> c(Dims{n}); for (int i = 0; i < n; i++) c.v[i] = cd(a.v[i], a.v[n - 1 - i]); reduce(c, true);
      });
    });
  });
}
