// C09: index ranges, linear sequences, concatenation, list expressions and sorting.
#include "ref.h"
#include <algorithm>
#include <climits>
#include <map>
using namespace tensor;
typedef std::vector<long> L;

static void same_list(const std::string &what, bool rej, const Indices &g, const L &e) {
  mc::transition();
  if (rej) { mc::fail(what + " rejected: " + mc::ending_message); return; }
  if (from_indices(g) != e || (size_t)g.size() != e.size()) mc::fail(what + ": got " + mc::seq(from_indices(g)) + " expected " + mc::seq(e));
  mc::Hash h; h.str(what.substr(0, 5)); for (long x : e) h.add(x); mc::state(h.h);
}
static void ranges(long lo, long hi, long step) {
  L e; if (lo <= hi) for (unsigned long k = 0, n = ((unsigned long)hi - (unsigned long)lo) / step; k <= n; k++) e.push_back(lo + (long)(k * step));
  if (!e.empty()) mc::nontrivial();
  Indices g; std::string n = mc::Str() << "range " << lo << ":" << step << ":" << hi;
  bool r = mc::rejects([&] { g = Indices::range(lo, hi, step); }); same_list(n, r, g, e);
  r = mc::rejects([&] { g = iota(lo, hi, step); }); same_list("iota " + n, r, g, e);
  if (step == 1) {
    r = mc::rejects([&] { g = iota(lo, hi); }); same_list("iota " + n, r, g, e);
    r = mc::rejects([&] { g = Indices::range(lo, hi); }); same_list(n, r, g, e);
  }
}

static double absv(double x) { return std::fabs(x); }
static double absv(const cd &x) { return std::abs(x); }
template <class T> static void lin_check(const std::string &what, const T *p, long stride, long n, const T &a, const T &b) {
  for (long i = 0; i < n; i++) {
    T e = n == 1 ? a : a + (b - a) * ((double)i / (double)(n - 1)), g = p[i * stride];
    bool ok = i == 0 ? g == a : i == n - 1 ? g == b : absv(g - e) <= 1e-15 * (absv(a) + absv(b));
    if (!ok) { std::ostringstream s; s.precision(17); s << what << ": element " << i << " of " << n << " is " << g << ", expected " << e << " between " << a << " and " << b; mc::fail(s.str()); return; }
  }
}
template <class T> static void lin(const T &a, const T &b, long n) {
  Tensor<T> t; std::string w = mc::Str() << "linspace(" << a << "," << b << "," << n << ")";
  bool r = mc::rejects([&] { if (n == -100) t = linspace(a, b); else t = linspace(a, b, n); });
  mc::transition();
  if (n == -100) n = 100;
  if (n < 0) { if (!r) mc::fail(w + " accepted"); return; }
  if (r) { mc::fail(w + " rejected: " + mc::ending_message); return; }
  if (t.rank() != 1 || t.size() != n || t.dimension(0) != n) { mc::fail(w + " has dimensions " + mc::seq(from_indices(t.dimensions()))); return; }
  if (n) mc::nontrivial();
  mc::state(hash(from_tensor(t), 3));
  lin_check(w, t.begin_const(), 1, n, a, b);
}
template <class T> static void lin_tensor(const Dims &d, long n, int salt) {
  Ref<T> a = labelled<T>(d, salt), b = labelled<T>(d, 7 * salt + 3);
  for (size_t i = 0; i < b.v.size(); i++) if (i % 2) b.v[i] = -b.v[i] / 3.0;
  Tensor<T> x = to_tensor(a), y = to_tensor(b), t;
  std::string w = mc::Str() << "linspace between tensors of dimensions " << mc::seq(d) << ", " << n << " steps";
  bool r = mc::rejects([&] { t = linspace(x, y, n); });
  mc::transition();
  if (r) { mc::fail(w + " rejected: " + mc::ending_message); return; }
  Dims e = d; e.push_back(n); if (total(d) == 1) e = Dims{n};
  Dims got = from_indices(t.dimensions());
  Dims alt = d; alt.push_back(n);   // a one-element start may also keep its dimensions
  if (!(got == e || got == alt) || t.size() != total(d) * n) { mc::fail(w + " has dimensions " + mc::seq(got)); return; }
  if (t.size()) mc::nontrivial();
  for (long k = 0; k < total(d) && !mc::failed(); k++) lin_check(w, t.begin_const() + k, total(d), n, a.v[k], b.v[k]);
  if (!equals(x, a) || !equals(y, b)) mc::fail(w + " changed an argument");
}

static void concat(const L &a, const L &b) {
  Indices x = to_indices(a), y = to_indices(b), hx(x), g;
  L e = a; e.insert(e.end(), b.begin(), b.end());
  if (e.size()) mc::nontrivial();
  bool r = mc::rejects([&] { g = x << y; });
  same_list("concatenation of " + mc::seq(a) + " and " + mc::seq(b), r, g, e);
  if (from_indices(x) != a || from_indices(y) != b || from_indices(hx) != a) mc::fail("concatenation changed an operand");
  if (a == b) { L f = a; f.insert(f.end(), a.begin(), a.end()); r = mc::rejects([&] { g = x << x; }); same_list("concatenation with itself", r, g, f);
    r = mc::rejects([&] { x = x << hx; }); same_list("concatenation assigned to its operand", r, x, f); if (from_indices(hx) != a) mc::fail("concatenation changed a copy"); }
}

template <class G, class T> static void check_list(const std::string &w, const Tensor<T> &t, const L &e) {
  Ref<T> r(Dims{(long)e.size()}); for (size_t i = 0; i < e.size(); i++) r.v[i] = (double)e[i];
  mc::transition(); if (!equals(t, r)) mc::fail(w + ": got " + show(t) + " expected " + mc::seq(e));
}
template <class I, class R, class C> static void list3(const I &i, const R &r, const C &c, const L &e) {
  mc::nontrivial();
  same_list("igen list", false, Indices(i), e);
  { Vector<tensor::index> v = i; L g(v.begin_const(), v.end_const()); if (g != e || v.size() != (long)e.size()) mc::fail("igen list as a vector: " + mc::seq(g)); }
  check_list<int>("rgen list", RTensor(r), e); check_list<int>("cgen list", CTensor(c), e);
  Indices l = to_indices(e);
  if (!(l == i) || !(i == l)) mc::fail("a list equal to the index list compares different");
  L o = e; o.back()++; Indices lo = to_indices(o); if (lo == i || i == lo) mc::fail("a list different from the index list compares equal");
  o = e; o.push_back(9); lo = to_indices(o); if (lo == i || i == lo) mc::fail("a list shorter than the index list compares equal");
  if (i.size() != (long)e.size()) mc::fail("size of a list expression");
  // with dimensions
  long n = e.size();
  for (long p = 0; p <= n + 1; p++) for (long q = 0; q <= n + 1; q++) {
    RTensor t; bool rej = mc::rejects([&] { t = RTensor(r, to_indices(Dims{p, q})); });
    mc::transition();
    if (rej != (p * q != n)) { mc::fail(mc::Str() << "list of " << n << " elements with dimensions " << p << "x" << q << (rej ? " rejected" : " accepted")); return; }
    if (!rej) { Ref<double> x(Dims{p, q}); for (long k = 0; k < n; k++) x.v[k] = e[k]; expect(t, x, "list with dimensions"); }
  }
}
static void lists(long a, long b) {
  L e; for (int i = 0; i < 8; i++) e.push_back(a + (i % 2 ? b * i : -i * i));
#define E(k) e[k - 1]
#define G(g) g << E(1)
  list3(igen << E(1), rgen << E(1), cgen << E(1), L(e.begin(), e.begin() + 1));
  list3(igen << E(1) << E(2), rgen << E(1) << E(2), cgen << E(1) << E(2), L(e.begin(), e.begin() + 2));
  list3(igen << E(1) << E(2) << E(3), rgen << E(1) << E(2) << (long)E(3), cgen << E(1) << E(2) << (double)E(3), L(e.begin(), e.begin() + 3));
  list3(igen << E(1) << E(2) << E(3) << E(4), rgen << E(1) << E(2) << E(3) << E(4), cgen << E(1) << E(2) << E(3) << E(4), L(e.begin(), e.begin() + 4));
  list3(igen << E(1) << E(2) << E(3) << E(4) << E(5), rgen << E(1) << E(2) << E(3) << E(4) << E(5), cgen << E(1) << E(2) << E(3) << E(4) << E(5), L(e.begin(), e.begin() + 5));
  list3(igen << E(1) << E(2) << E(3) << E(4) << E(5) << E(6), rgen << E(1) << E(2) << E(3) << E(4) << E(5) << E(6), cgen << E(1) << E(2) << E(3) << E(4) << E(5) << E(6), L(e.begin(), e.begin() + 6));
  list3(igen << E(1) << E(2) << E(3) << E(4) << E(5) << E(6) << E(7), rgen << E(1) << E(2) << E(3) << E(4) << E(5) << E(6) << E(7), cgen << E(1) << E(2) << E(3) << E(4) << E(5) << E(6) << E(7), L(e.begin(), e.begin() + 7));
  list3(igen << E(1) << E(2) << E(3) << E(4) << E(5) << E(6) << E(7) << E(8), rgen << E(1) << E(2) << E(3) << E(4) << E(5) << E(6) << E(7) << E(8), cgen << E(1) << E(2) << E(3) << E(4) << E(5) << E(6) << E(7) << E(8), L(e.begin(), e.begin() + 8));
}

// ---- sorting --------------------------------------------------------------
template <class V, class X> static void sorted(const V &in, const V &keep, const std::vector<X> &x, bool rev) {
  size_t n = x.size();
  if (n > 1) mc::nontrivial();
  V g; Indices p;
  bool r1 = mc::rejects([&] { if (rev) g = sort(in, true); else g = sort(in); });
  bool r2 = mc::rejects([&] { if (rev) p = sort_indices(in, true); else p = sort_indices(in); });
  mc::transition(2);
  if (r1 || r2) { mc::fail("sort rejected: " + mc::ending_message); return; }
  std::vector<X> e = x; std::sort(e.begin(), e.end()); if (rev) std::reverse(e.begin(), e.end());
  std::vector<X> got(g.begin_const(), g.end_const());
  auto pr = [&](const std::vector<X> &v) { return n <= 40 ? mc::seq(v) : (std::string)(mc::Str() << n << " elements"); };
  if (got != e) { mc::fail("sort" + std::string(rev ? " reversed" : "") + " of " + pr(x) + " gives " + pr(got)); return; }
  if ((size_t)p.size() != n) { mc::fail("sort_indices has the wrong length"); return; }
  std::vector<char> seen(n, 0);
  for (size_t i = 0; i < n; i++) {
    long k = p[i]; if (k < 0 || k >= (long)n || seen[k]) { mc::fail("sort_indices of " + pr(x) + " is not a permutation"); return; }
    seen[k] = 1; if (!(x[k] == e[i])) { mc::fail("sort_indices of " + pr(x) + (rev ? " reversed" : "") + " does not sort it"); return; }
  }
  std::vector<X> a(in.begin_const(), in.end_const()), b(keep.begin_const(), keep.end_const());
  if (a != x || b != x) mc::fail("sort changed its argument");
}
static void sort_longs(const L &x) {
  Indices v = to_indices(x), h(v);
  mc::Hash hh; for (long k : x) hh.add(k); mc::state(hh.h);
  for (int r = 0; r < 2 && !mc::failed(); r++) sorted(v, h, x, r);
}
static void sort_reals(const std::vector<double> &x) {
  RTensor v((tensor::index)x.size()); std::copy(x.begin(), x.end(), v.begin()); RTensor h(v);
  mc::Hash hh; for (double k : x) hh.add(k); mc::state(hh.h);
  for (int r = 0; r < 2 && !mc::failed(); r++) sorted(v, h, x, r);
}

void explore() {
  const bool T = mc::thorough;
  for (long lo = -7; lo <= 7; lo++) mc::run_case(DESC { return mc::Str() << "ranges starting at " << lo; }, [&] {
    mc::group("ranges");
    for (long hi = -9; hi <= 24; hi++) for (long s = 1; s <= 9; s++) ranges(lo, hi, s);
  });
  mc::run_case(DESC { return std::string("ranges at large positions"); }, [&] {
    mc::group("ranges");
    for (long b : {1L << 31, 1L << 32, 1L << 53, (1L << 62) - 5, -(1L << 31), -(1L << 32), -(1L << 53), -(1L << 62)})
      for (long o = -3; o <= 3; o++) for (long n = -2; n <= 12; n++) for (long s : {1L, 2L, 3L, 5L, 1L << 40}) ranges(b + o, b + o + n, s);
    for (long n : {255L, 256L, 257L, 1000L, 65537L, 1048577L}) { ranges(0, n - 1, 1); ranges(-n, n, 3); ranges(5, n, 7); }
    for (long lo : {LONG_MIN, LONG_MIN + 1, -LONG_MAX / 2, -(1L << 62), -7L, -1L, 0L, 1L, LONG_MAX - 1, LONG_MAX}) for (long hi : {LONG_MIN, LONG_MIN + 1, -1L, 0L, 5L, 1L << 62, LONG_MAX / 2, LONG_MAX - 1, LONG_MAX}) for (long s : {LONG_MAX, LONG_MAX - 1, LONG_MAX / 2, LONG_MAX / 2 + 1, LONG_MAX / 3, 1L << 62, 1L << 61, (1L << 60) + 1}) ranges(lo, hi, s);
    ranges(0, 1L << 40, 1L << 37); ranges(-(1L << 40), 1L << 40, (1L << 36) + 1);
  });
  std::vector<double> A = {0, 1, -1, 0.1, 0.3, 1.0 / 3, -7.25, 10, 1e-9, 1e6, 1e100, -3e-200, 3.141592653589793, 123456789.125};
  for (size_t i = 0; i < A.size(); i++) mc::run_case(DESC { return mc::Str() << "linspace from " << A[i]; }, [&] {
    mc::group("linspace");
    for (size_t j = 0; j < A.size() && !mc::failed(); j++) {
      for (long n = -3; n <= (T ? 300 : 130); n++) { lin<double>(A[i], A[j], n); if (n < 40) lin<cd>(cd(A[i], -A[j]), cd(A[j], A[(i + j) % A.size()]), n); if (mc::failed()) return; }
      lin<double>(A[i], A[j], -100); lin<cd>(cd(A[i], A[j]), cd(A[j], 1), -100);
      for (long n : {255, 256, 257, 1000, 1024, 4097, 131077}) lin<double>(A[i], A[j], n);
    }
  });
  for (int rank = 1; rank <= 4; rank++) each_shape(rank, 0, rank == 1 ? 6 : rank == 2 ? 4 : rank == 3 ? 3 : 2, [&](const Dims &d) {
    mc::run_case(DESC { return "linspace between tensors of dimensions " + mc::seq(d); }, [&] {
      mc::group("linspace tensors");
      for (long n = 0; n <= 7 && !mc::failed(); n++) for (int s = 0; s < 3; s++) { lin_tensor<double>(d, n, s); lin_tensor<cd>(d, n, s); }
      lin_tensor<double>(d, 50, 1); lin_tensor<double>(d, 93, 2);
    });
  });
  for (int n = 0; n <= 4; n++) mc::all_words(n, 3, [&](const std::vector<int> &w) {
    mc::run_case(DESC { return "concatenations starting with the word " + mc::seq(w); }, [&] {
      mc::group("concatenation");
      for (int m = 0; m <= 4; m++) mc::all_words(m, 3, [&](const std::vector<int> &v) { if (!mc::failed()) concat(L(w.begin(), w.end()), L(v.begin(), v.end())); });
    });
  });
  mc::run_case(DESC { return std::string("long concatenations"); }, [&] {
    for (long n : {0, 1, 7, 8, 63, 64, 65, 1000}) for (long m : {0, 1, 7, 9, 63, 64, 65, 1000}) { L a, b; for (long i = 0; i < n; i++) a.push_back(i * i - 5); for (long i = 0; i < m; i++) b.push_back(-i); concat(a, b); }
    concat({LONG_MAX, LONG_MIN}, {LONG_MIN, 1L << 53, (1L << 53) + 1});
  });
  for (long a : {0L, 1L, -5L, 1000L, 1L << 31, -(1L << 33)}) for (long b : {1L, -2L, 1L << 20}) mc::run_case(DESC { return mc::Str() << "list expressions of " << a << "," << b; }, [&] { mc::group("lists"); lists(a, b); });
  for (int rank = 0; rank <= 6; rank++) mc::run_case(DESC { return mc::Str() << "total sizes and surrounding dimensions, rank " << rank; }, [&] {
    mc::group("total sizes");
    auto one = [&](const Dims &d) {
      if (mc::failed()) return;
      Indices i = to_indices(d), h(i); bool neg = false; for (long x : d) if (x < 0) neg = true;
      long g = -1; bool r = mc::rejects([&] { g = i.total_size(); });
      mc::transition();
      if (neg) { if (!r) mc::fail("negative dimensions accepted: " + mc::seq(d)); return; }
      mc::nontrivial();
      if (r || g != total(d)) { mc::fail(mc::Str() << "total size of " << mc::seq(d) << " is " << g); return; }
      for (size_t k = 0; k < d.size(); k++) {
        tensor::index a, b, c; surrounding_dimensions(i, k, &a, &b, &c); mc::transition();
        if (a != prod(d, 0, k) || b != d[k] || c != prod(d, k + 1, d.size())) mc::fail(mc::Str() << "surrounding dimensions of " << k << " in " << mc::seq(d));
      }
      if (from_indices(i) != d || from_indices(h) != d) mc::fail("index list changed");
      RTensor t = index_to_tensor(i); Ref<double> e(Dims{(long)d.size()}); for (size_t k = 0; k < d.size(); k++) e.v[k] = d[k];
      expect(t, e, "index list as a tensor");
    };
    each_shape(rank, rank <= 4 ? -1 : 0, rank <= 2 ? 9 : rank <= 4 ? 4 : 2, one);
    if (rank == 3) { one({1000, 1000, 1000}); one({1L << 20, 1L << 20, 1L << 20}); one({65536, 65536, 3}); one({1L << 31, 2, 1}); one({0, 1L << 40, 5}); }
  });
  // sorting: all words
  static const L LV = {LONG_MIN, 3, (1L << 53), (1L << 53) + 1, LONG_MAX, -1};
  static const std::vector<double> DV = {-HUGE_VAL, -1.5, 0.0, 5e-324, 1e308, -0.0};
  for (int n = 0; n <= (T ? 7 : 6); n++) mc::all_words(n > 3 ? n - 3 : 0, 6, [&](const std::vector<int> &p) {
    mc::run_case(DESC { return mc::Str() << "sorting all words of length " << n << " starting with " << mc::seq(p); }, [&] {
      mc::group("sorting words");
      mc::all_words(n - p.size(), 6, [&](const std::vector<int> &q) {
        if (mc::failed()) return;
        L x(n); std::vector<double> y(n); for (int i = 0; i < n; i++) { int k = i < (int)p.size() ? p[i] : q[i - p.size()]; x[i] = LV[k]; y[i] = DV[k]; }
        sort_longs(x); sort_reals(y);
      });
    });
  });
  for (int n = 7; n <= (T ? 14 : 12); n++) mc::run_case(DESC { return mc::Str() << "sorting all words of length " << n << " over two values"; }, [&] {
    mc::group("sorting words");
    mc::all_words(n, 2, [&](const std::vector<int> &q) { if (mc::failed()) return; L x(q.begin(), q.end()); sort_longs(x); sort_reals(std::vector<double>(q.begin(), q.end())); });
  });
  for (int f = 0; f < 8; f++) mc::run_case(DESC { return mc::Str() << "sorting all permutations of " << (T ? 9 : 8) << " starting with " << f; }, [&] {
    mc::group("sorting permutations");
    L x; x.push_back(f); for (int i = 0; i < (T ? 9 : 8); i++) if (i != f) x.push_back(i);
    do { std::vector<double> y(x.begin(), x.end()); sort_longs(x); sort_reals(y); } while (!mc::failed() && std::next_permutation(x.begin() + 1, x.end()));
  });
  std::vector<long> sizes; for (long n = 9; n <= 80; n++) sizes.push_back(n); for (long n : {100, 127, 128, 129, 255, 256, 257, 1000, 1023, 1025, 4096, 5000, 65537, 262147}) sizes.push_back(n);
  for (long n : sizes) mc::run_case(DESC { return mc::Str() << "sorting patterns of " << n << " elements"; }, [&] {
    mc::group("sorting patterns");
    for (int k = 0; k < 12 && !mc::failed(); k++) {
      L x(n); std::vector<double> y(n);
      for (long i = 0; i < n; i++) {
        long v = k == 0 ? i : k == 1 ? n - i : k == 2 ? 7 : k == 3 ? (i < n / 2 ? i : n - i) : k == 4 ? (i * 7919) % n : k == 5 ? (i * i) % 17 : k == 6 ? i % 2 : k == 7 ? (i == n / 2) : k == 8 ? (i * 31 + 7) % 64 - 32 : k == 9 ? (1L << 53) + (i * 13) % 29 : k == 10 ? -(1L << 60) + (i * 5) % n : (i * 2654435761L) % 100003;
        x[i] = v; y[i] = v / 8.0;
      }
      sort_longs(x); sort_reals(y);
    }
  });
}
