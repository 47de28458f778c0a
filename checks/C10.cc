#include <climits>
// C10: sparse matrices are canonical and equivalent to their dense form.
#include "sparse_common.h"
#include <map>

template <class T> static void look(const Sparse<T> &s, const Ref<T> &e, const std::string &what) {
  if (!is(s, e, what)) return;
  Tensor<T> f; bool r = mc::rejects([&] { f = full(s); });
  mc::transition();
  if (r) { mc::fail(what + ": full rejected: " + mc::ending_message); return; }
  expect(f, e, "dense form");
  long R = e.d[0], C = e.d[1];
  bool small = R * C <= 64;
  for (long i = -R - 2; i <= R + 1; i++) for (long j = -C - 2; j <= C + 1; j++) {
    if (!small && (i * 7 + j) % 13) continue;
    bool bad = i < -R || i >= R || j < -C || j >= C; T g = T(0);
    if (bad && small && R * C > 6 && !((i < -R || i >= R) ? (j == 0 || j == C || j == -1) : (i == 0 || i == R - 1))) continue;
    bool rej = mc::rejects([&] { g = s(i, j); });
    mc::transition();
    if (rej != bad) { mc::fail(mc::Str() << what << ": reading (" << i << "," << j << ") of " << R << "x" << C << (bad ? " accepted" : " rejected")); return; }
    if (!bad && !same(g, e.v[(i + R) % R + R * ((j + C) % C)])) { mc::fail(mc::Str() << what << ": element (" << i << "," << j << ") is " << g << " of " << show(e)); return; }
  }
  Sparse<T> copy(s), assigned; assigned = s;
  if (!is(copy, e, what + " copied") || !is(assigned, e, what + " assigned")) return;
  bool nan = false; for (auto &x : e.v) nan = nan || !(x == x);   // equality of elements does not hold for NaN
  if (!nan && (!all_equal(copy, s) || !all_equal(s, f) || !all_equal(f, s))) mc::fail(what + ": comparison with its copy or dense form");
}
template <class T> static void from_dense(const Ref<T> &e) {
  Tensor<T> t = to_tensor(e), held(t); Sparse<T> s;
  for (auto &x : e.v) if (x != T(0)) { mc::nontrivial(); break; }
  bool r = mc::rejects([&] { s = Sparse<T>(t); });
  if (r) { mc::fail("dense matrix rejected: " + mc::ending_message); return; }
  long nz = 0; for (auto &x : e.v) nz += !(x == T(0));
  look(s, e, "from dense");
  if (!mc::failed() && s.length() != nz) mc::fail("from dense: zeros stored or elements missing");
  if (!equals(t, e) || !equals(held, e)) mc::fail("conversion changed the dense matrix");
  Sparse<T> back(full(s));
  if (!is(back, e, "sparse -> dense -> sparse") || back.length() != s.length()) mc::fail("sparse -> dense -> sparse is not the identity: " + layout(back));
  // storage is not shared with the dense matrix
  if (t.size()) { t.at(0) = T(99); if (!is(s, e, "after writing to the dense matrix")) return; }
}

struct Trip { long r, c; int v; };
template <class T> static T tv(int v) { return v == 0 ? T(0) : label<T>(v - 1); }
template <> double tv<double>(int v) { return v == 0 ? 0 : v % 2 ? v : -v; }
template <class T> static void from_triplets(const std::vector<Trip> &l, long R, long C, bool given) {
  size_t n = l.size();
  Indices r((tensor::index)n), c((tensor::index)n); Tensor<T> d((tensor::index)n);
  long nr = R, nc = C; bool neg = false, beyond = false, nonzero_seen = false;
  for (size_t i = 0; i < n; i++) { r.at(i) = l[i].r; c.at(i) = l[i].c; d.at(i) = tv<T>(l[i].v); if (l[i].r < 0 || l[i].c < 0) neg = true; nr = std::max(nr, l[i].r + 1); nc = std::max(nc, l[i].c + 1); if (l[i].v) nonzero_seen = true; }
  if (given && (nr > R || nc > C)) beyond = true;
  Sparse<T> s; bool rej = mc::rejects([&] { if (given) s = Sparse<T>(r, c, d, R, C); else s = Sparse<T>(r, c, d); });
  mc::transition();
  auto name = [&] { mc::Str m; m << n << " triplets"; for (size_t i = 0; i < n && i < 8; i++) m << " (" << l[i].r << "," << l[i].c << "," << tv<T>(l[i].v) << ")"; if (given) m << " in " << R << "x" << C; return (std::string)m; };
  if (neg) { if (!rej) mc::fail(name() + ": negative position accepted"); return; }
  if (rej) { if (!beyond) mc::fail(name() + " rejected: " + mc::ending_message); return; }
  if (nonzero_seen) mc::nontrivial();
  std::string x = layout(s);
  if (!x.empty()) { mc::fail(name() + ": " + x); return; }
  if (!no_zeros(s, name())) return;
  // an element written several times may be any of its values or their sum
  std::map<std::pair<long, long>, std::vector<int>> w;
  for (auto &t : l) w[{t.r, t.c}].push_back(t.v);
  Ref<T> g = dense_of(s);
  if (g.d != (Dims{nr, nc})) { mc::fail(name() + ": dimensions are " + mc::seq(g.d)); return; }
  for (long i = 0; i < nr; i++) for (long j = 0; j < nc; j++) {
    auto it = w.find({i, j}); T y = g.v[i + nr * j]; bool ok;
    if (it == w.end()) ok = y == T(0);
    else { T sum = 0; ok = false; for (int v : it->second) { sum += tv<T>(v); if (y == tv<T>(v)) { if (v || it->second.size() == 1) ok = true; else { bool all0 = true; for (int u : it->second) all0 = all0 && !u; ok = ok || all0; } } } ok = ok || y == sum; }
    if (!ok) { mc::fail(mc::Str() << name() << ": element (" << i << "," << j << ") is " << y); return; }
  }
  mc::state(hash(g, 5));
  if (w.size() == n) { Ref<T> e(Dims{nr, nc}, T(0)); for (auto &t : l) e.v[t.r + nr * t.c] = tv<T>(t.v); look(s, e, name()); }
  for (size_t i = 0; i < n; i++) if (r[i] != l[i].r || c[i] != l[i].c || d[i] != tv<T>(l[i].v)) { mc::fail("construction changed its arguments"); return; }
}

// Histories: every sequence of operations on a pair (current, other).
template <class T> struct Node { Sparse<T> s; Ref<T> e; };
static const char *OPS[] = {"transpose", "adjoint", "+other", "-other", "*other", "negate", "*2", "/2", "*0", "conj", "kron eye", "dense and back", "swap", "self-sum", "self-difference", "real part", "imaginary part", "copy to other", "kron2_sum"};
enum { NOPS = 19 };
template <class T> static Sparse<T> re(const Sparse<T> &s) { return Sparse<T>(real(s)); }
template <class T> static Sparse<T> im(const Sparse<T> &s) { return Sparse<T>(imag(s)); }
static double rep(double x) { return x; } static double imp(double) { return 0; }
static cd rep(const cd &x) { return x.real(); } static cd imp(const cd &x) { return x.imag(); }
template <class T> static bool apply(int op, Node<T> &a, Node<T> &b) {   // false: not enabled
  Sparse<T> s; Ref<T> e = a.e; bool sameshape = a.e.d == b.e.d;
  std::string n = OPS[op];
  bool rej = false;
  #define DO(x) rej = mc::rejects([&] { s = x; })
  switch (op) {
  case 0: DO(transpose(a.s)); e = transposed(a.e); break;
  case 1: DO(adjoint(a.s)); e = conjd(transposed(a.e)); break;
  case 2: if (!sameshape) return false; DO(a.s + b.s); e = addr(a.e, b.e); break;
  case 3: if (!sameshape) return false; DO(a.s - b.s); for (size_t i = 0; i < e.v.size(); i++) e.v[i] -= b.e.v[i]; break;
  case 4: if (!sameshape) return false; DO(a.s * b.s); for (size_t i = 0; i < e.v.size(); i++) e.v[i] *= b.e.v[i]; break;
  case 5: DO(-a.s); for (auto &x : e.v) x = -x; break;
  case 6: DO(a.s * 2.0); for (auto &x : e.v) x *= 2.0; break;
  case 7: DO(a.s / 2.0); for (auto &x : e.v) x /= 2.0; break;
  case 8: DO(0.0 * a.s); for (auto &x : e.v) x = 0.0 * x; break;
  case 9: DO(conj(a.s)); e = conjd(a.e); break;
  case 10: if (total(a.e.d) > 9 || total(a.e.d) == 0) return false; DO(kron(Sparse<T>::eye(1, 2), a.s)); e = ref_kron(ref_eye<T>(1, 2), a.e); break;
  case 11: DO(Sparse<T>(full(a.s))); break;
  case 12: std::swap(a, b); return true;
  case 13: DO(a.s + a.s); for (auto &x : e.v) x += x; break;
  case 14: DO(a.s - a.s); for (auto &x : e.v) x -= x; break;
  case 15: DO(re(a.s)); for (auto &x : e.v) x = rep(x); break;
  case 16: DO(im(a.s)); for (auto &x : e.v) x = imp(x); break;
  case 17: b = a; return true;
  case 18: if (a.e.d[0] * b.e.d[0] > 9 || a.e.d[1] * b.e.d[1] > 9) return false; DO(kron2_sum(a.s, b.s)); e = addr(ref_kron(a.e, ref_eye<T>(b.e.d[0], b.e.d[1])), ref_kron(ref_eye<T>(a.e.d[0], a.e.d[1]), b.e)); break;
  }
  if (rej) { mc::fail(n + " rejected: " + mc::ending_message); return true; }
  if ((op >= 2 && op <= 4) || op == 11 || op == 13 || op == 14) no_zeros(s, n);
  a.s = s; a.e = e;
  return true;
}
template <class T> static void history(Node<T> a, Node<T> b, int depth, std::string path, uint64_t *count) {
  if (mc::failed()) return;
  for (int op = 0; op < NOPS; op++) {
    Node<T> x = a, y = b;
    if (!apply(op, x, y) || mc::failed()) { if (mc::failed()) return; continue; }
    ++*count; mc::transition();
    std::string p = path + ", " + OPS[op];
    if (!is(x.s, x.e, p) || !is(y.s, y.e, p + " (other)") || !is(a.s, a.e, p + " (argument)") || !is(b.s, b.e, p + " (second argument)")) return;
    mc::note_trace();
    if (depth > 1) history(x, y, depth - 1, p, count);
    if (mc::failed()) return;
  }
}

template <class T> static void all() {
  const bool Th = mc::thorough;
  std::string tn = tname<T>();
  for (long R = 0; R <= 5; R++) for (long C = 0; C <= 5; C++) {
    long n = R * C; int lim = Th ? 16 : 12;
    unsigned long hi = n <= lim ? n > 6 ? n - 6 : 0 : 0;
    for (unsigned long top = 0; top < (1UL << hi); top++)
      mc::run_case(DESC { return mc::Str() << tn << " " << R << "x" << C << " all patterns, upper bits " << top; }, [&] {
        mc::group("dense patterns");
        if (n <= lim) for (unsigned long low = 0; low < (1UL << std::min(n, 6L)) && !mc::failed(); low++) from_dense(pattern<T>(R, C, top << 6 | low, (int)top));
        else for (int s = 0; s < 40 && !mc::failed(); s++) from_dense(pattern<T>(R, C, (0x9e3779b97f4a7c15UL * (s + 1)) >> (64 - n) & (s % 3 ? ~0UL : 0x5a5a5a5aUL), s));
      });
  }
  std::vector<Dims> big = {{40, 3}, {3, 70}, {1, 129}, {129, 1}, {17, 17}, {33, 65}, {100, 100}, {0, 9}, {9, 0}};
  for (auto &d : big) for (int den : {1, 2, 3, 7, 50, 1000}) mc::run_case(DESC { return mc::Str() << tn << " dims " << mc::seq(d) << " one in " << den; }, [&] {
    mc::group("dense patterns");
    Ref<T> e(d, T(0)); for (size_t k = 0; k < e.v.size(); k++) if ((k * 2654435761UL >> 7) % den == 0) e.v[k] = pickv<T>(k, den); from_dense(e);
    std::vector<Trip> l; for (size_t k = 0; k < e.v.size(); k++) if (e.v[k] != T(0)) l.push_back(Trip{(long)k % d[0], (long)k / d[0], (int)(k % 9)});
    for (size_t i = l.size(); i > 1; i--) std::swap(l[i - 1], l[(i * 7919) % i]);
    from_triplets<T>(l, d[0], d[1], true); std::reverse(l.begin(), l.end()); from_triplets<T>(l, d[0], d[1], true);
    for (size_t i = 1; i + 1 < l.size(); i++) std::swap(l[i], l[(i * 31 + 17) % l.size()]);
    from_triplets<T>(l, 0, 0, false); size_t h = l.size() / 2; for (size_t i = 0; i < h; i++) l.push_back(l[i * 2]); from_triplets<T>(l, d[0], d[1], true);
  });
  // special values are kept
  mc::run_case(DESC { return tn + " special values"; }, [&] {
    for (double x : {(double)NAN, HUGE_VAL, -HUGE_VAL, 5e-324, -0.0}) { Ref<T> e(Dims{2, 2}, T(0)); e.v[1] = T(x); e.v[2] = T(3); from_dense(e);
      Indices r(2), c(2); Tensor<T> d(2); r.at(0) = 1; c.at(0) = 0; d.at(0) = T(x); r.at(1) = 0; c.at(1) = 1; d.at(1) = T(3); Sparse<T> s(r, c, d); is(s, e, "triplets with a special value"); no_zeros(s, "triplets with a special value"); }
  });
  // matrices of different structure over one list of elements
  mc::run_case(DESC { return tn + " matrices which share their elements"; }, [&] {
    mc::group("shared elements"); mc::nontrivial();
    for (int n = 0; n <= 3; n++) {
      Tensor<T> d(n); for (int k = 0; k < n; k++) d.at(k) = label<T>(k, 3);
      std::vector<Sparse<T>> m; std::vector<Ref<T>> e;
      for (long R = 1; R <= 3; R++) for (long C = 1; C <= 3; C++) for (unsigned long b = 0; b < (1UL << R * C); b++) if (__builtin_popcountl(b) == n) {
        Ref<T> x(Dims{R, C}, T(0)); L rs(1, 0), co; int k = 0;
        for (long i = 0; i < R; i++) { for (long j = 0; j < C; j++) if (b >> (i * C + j) & 1) { x.v[i + R * j] = label<T>(k++, 3); co.push_back(j); } rs.push_back(co.size()); }
        if (m.size() % 7 == 0 || R * C < 7) { m.push_back(Sparse<T>(to_indices(x.d), to_indices(rs), to_indices(co), d)); e.push_back(x); }
      }
      for (size_t i = 0; i < m.size(); i++) for (size_t j = 0; j < m.size() && !mc::failed(); j++) {
        Sparse<T> x(m[i]); x = m[j]; if (!is(x, e[j], "assignment") || !is(m[i], e[i], "assigned over a copy")) return;
        Sparse<T> y(m[j]); if (!is(y, e[j], "copy")) return;
        if (all_equal(m[i], m[j]) != (i == j)) { mc::fail("all_equal of matrices which share their elements: " + show(e[i]) + " and " + show(e[j])); return; }
      }
    }
  });
  // not a matrix
  for (int rank : {0, 1, 3, 4}) mc::run_case(DESC { return mc::Str() << tn << " sparse form of a tensor of rank " << rank; }, [&] {
    mc::nontrivial();
    Tensor<T> t = to_tensor(labelled<T>(Dims(rank, 2))); mc::transition();
    if (!mc::rejects([&] { Sparse<T> s(t); })) mc::fail("accepted");
  });
  // triplets: every list over a grid, in every order
  std::vector<Trip> cells; for (long r = 0; r < 2; r++) for (long c = 0; c < 3; c++) for (int v = 0; v < 3; v++) cells.push_back(Trip{r, c, v});
  for (int n = 0; n <= (Th ? 4 : 3); n++) for (size_t f = 0; f < (n ? cells.size() : 1); f++)
    mc::run_case(DESC { return mc::Str() << tn << " all lists of " << n << " triplets, first " << f; }, [&] {
      mc::group("triplets");
      mc::all_words(std::max(0, n - 1), cells.size(), [&](const std::vector<int> &w) {
        if (mc::failed()) return;
        std::vector<Trip> l; if (n) l.push_back(cells[f]); for (int k : w) l.push_back(cells[k]);
        from_triplets<T>(l, 0, 0, false); from_triplets<T>(l, 2, 3, true); from_triplets<T>(l, 4, 3, true);
        if (n <= 2) { from_triplets<T>(l, 2, 5, true); from_triplets<T>(l, 1, 3, true); from_triplets<T>(l, 2, 2, true); from_triplets<T>(l, 1, 1, true); from_triplets<T>(l, 0, 7, true); }
      });
    });
  for (long R = 1; R <= 3; R++) for (long C = 1; C <= 3; C++) for (unsigned long bits = 0; bits < (1UL << R * C); bits += 8) mc::run_case(DESC { return mc::Str() << tn << " every order of the triplets of " << R << "x" << C << " patterns from " << bits; }, [&] {
    mc::group("triplet orders");
    for (unsigned long b = bits; b < std::min(bits + 8, 1UL << R * C); b++) {
      std::vector<long> p; for (long k = 0; k < R * C; k++) if (b >> k & 1) p.push_back(k);
      if (p.size() > (Th ? 7 : 6)) { for (int rot = 0; rot < (int)p.size(); rot++) { std::vector<Trip> l; for (long k : p) l.push_back(Trip{k % R, k / R, (int)(k + 1)}); std::rotate(l.begin(), l.begin() + rot, l.end()); from_triplets<T>(l, R, C, true); std::reverse(l.begin(), l.end()); from_triplets<T>(l, R, C, true); } continue; }
      do { std::vector<Trip> l; for (long k : p) l.push_back(Trip{k % R, k / R, (int)(k + 1)}); from_triplets<T>(l, R, C, true); } while (!mc::failed() && std::next_permutation(p.begin(), p.end()));
    }
  });
  // sizes and positions that cannot be
  mc::run_case(DESC { return mc::Str() << tn << " impossible sizes and positions"; }, [&] {
    mc::nontrivial(); const long xs[] = {LONG_MIN, LONG_MIN + 1, -(1L << 32), -2, -1, LONG_MAX};
    for (long x : xs) for (long o : {0L, 1L, 3L}) for (int way = 0; way < 2; way++) {
      long r = way ? o : x, c = way ? x : o; bool rej; Sparse<T> out;
      if (x < 0 || !way) for (int nz = 0; nz < 2; nz++) { rej = mc::rejects([&] { out = Sparse<T>((tensor::index)r, (tensor::index)c, (tensor::index)nz); }); mc::transition(); if (!rej) { mc::fail(mc::Str() << "a matrix of " << r << "x" << c << " is accepted"); return; } }
      if (x < 0 || !way) { rej = mc::rejects([&] { out = Sparse<T>(Indices(), Indices(), Tensor<T>((tensor::index)0), r, c); }); if (!rej) { mc::fail(mc::Str() << "no triplets and " << r << "x" << c << " is accepted"); return; } }
      if (x < 0) { rej = mc::rejects([&] { out = Sparse<T>::eye(r, c); }); if (!rej) { mc::fail(mc::Str() << "eye " << r << "x" << c << " is accepted"); return; } }
      for (long v : {1L, 2L}) { Tensor<T> d(2); d.at(0) = tv<T>(1); d.at(1) = tv<T>(v); Indices rr(2), cc(2); rr.at(0) = cc.at(0) = 1; rr.at(1) = r; cc.at(1) = c; rej = mc::rejects([&] { out = Sparse<T>(rr, cc, d, 3, 3); }); mc::transition(); if (!rej) { mc::fail(mc::Str() << "a triplet at " << r << "," << c << " is accepted"); return; } }
    }
    for (long nz : {-1L, -5L, LONG_MIN}) { Sparse<T> out; if (!mc::rejects([&] { out = Sparse<T>((tensor::index)3, (tensor::index)2, (tensor::index)nz); })) mc::fail("a negative number of elements is accepted"); }
    RTensor t(2, 2); t.fill_with_zeros(); t.at(0, 1) = 1; Sparse<double> s(t); double e;
    for (long x : xs) if (x != -1 && x != -2) { if (!mc::rejects([&] { e = s(x, 0); }) || !mc::rejects([&] { e = s(0, x); })) mc::fail(mc::Str() << "element " << x << " is accepted"); }
  });
  for (long r : {-3L, -1L, 0L, 2L}) for (long c : {-2L, -1L, 0L, 3L}) mc::run_case(DESC { return mc::Str() << tn << " triplet at " << r << "," << c; }, [&] {
    mc::nontrivial();
    for (int pos = 0; pos < 3; pos++) for (int v = 0; v < 2; v++) for (int given = 0; given < 2; given++) { if (v == 0 && (r < 0 || c < 0)) continue; std::vector<Trip> l = {{0, 0, 1}, {1, 2, 2}}; l.insert(l.begin() + pos, Trip{r, c, v}); from_triplets<T>(l, given ? 3 : 0, given ? 4 : 0, given); }
    Indices a(2), b(3); a.at(0) = a.at(1) = 0; b.at(0) = b.at(1) = b.at(2) = 1; Tensor<T> d2(2), d3(3); d2.fill_with_zeros(); d3.fill_with_zeros();
    if (!mc::rejects([&] { Sparse<T> s(a, b, d2); }) || !mc::rejects([&] { Sparse<T> s(a, a, d3); }) || !mc::rejects([&] { Sparse<T> s(b, a, d3); })) mc::fail("lists of different lengths accepted");
  });
  // zero and identity matrices
  for (long R = 0; R <= 9; R++) mc::run_case(DESC { return mc::Str() << tn << " zero, identity and random matrices with " << R << " rows"; }, [&] {
    mc::group("special constructors");
    for (long C = 0; C <= 9 && !mc::failed(); C++) {
      look(Sparse<T>(R, C), Ref<T>(Dims{R, C}, T(0)), "zero matrix");
      look(Sparse<T>::eye(R, C), ref_eye<T>(R, C), "identity");
      if (R == C) look(Sparse<T>::eye(R), ref_eye<T>(R, R), "identity");
      Sparse<T> pre(R, C, R * C / 2); if (!same(dense_of(pre), Ref<T>(Dims{R, C}, T(0))) || pre.length() != 0) mc::fail("preallocated matrix not zero");
      expect(full(pre), Ref<T>(Dims{R, C}, T(0)), "preallocated matrix");
      for (double d : {0.1, 0.2, 0.5, 1.0}) { Sparse<T> s = Sparse<T>::random(R, C, d); std::string l = layout(s); if (!l.empty() || s.rows() != R || s.columns() != C) mc::fail("random matrix: " + l); for (tensor::index k = 0; k < s.length(); k++) if (!(mag(s.priv_data()[k]) <= 1)) mc::fail("random matrix has an element above one"); mc::transition(); }
    }
    if (R == 0) look(Sparse<T>(), Ref<T>(Dims{0, 0}), "default");
  });
  // explicit zeros stored
  for (long R = 1; R <= 3; R++) for (long C = 1; C <= 3; C++) mc::run_case(DESC { return mc::Str() << tn << " stored zeros " << R << "x" << C; }, [&] {
    for (unsigned long b = 0; b < (1UL << R * C) && !mc::failed(); b++) for (unsigned long z = 0; z < (1UL << R * C); z += 1 + (R * C > 6 ? 5 : 0)) { Ref<T> e = pattern<T>(R, C, b, 1); Sparse<T> s = build(e, z); if (!is(s, e, "stored zeros")) return; expect(full(s), e, "dense form with stored zeros"); }
  });
  // histories
  std::vector<std::pair<Ref<T>, Ref<T>>> init;
  init.push_back({pattern<T>(2, 3, 0x2d, 1), pattern<T>(2, 3, 0x1b, 2)});
  init.push_back({pattern<T>(2, 2, 0x9, 3), pattern<T>(2, 2, 0x6, 4)});
  init.push_back({pattern<T>(3, 3, 0x111, 3), pattern<T>(3, 3, 0xd2, 4)});
  init.push_back({pattern<T>(1, 3, 0x5, 3), pattern<T>(3, 1, 0x0, 4)});
  init.push_back({Ref<T>(Dims{0, 2}), Ref<T>(Dims{0, 2})}); init.push_back({Ref<T>(Dims{2, 0}), pattern<T>(2, 1, 3, 1)});
  for (size_t k = 0; k < init.size(); k++) for (int o1 = 0; o1 < NOPS; o1++) mc::run_case(DESC { return mc::Str() << tn << " all histories from start " << k << " beginning with " << OPS[o1]; }, [&] {
    mc::group("histories");
    Node<T> a{build(init[k].first), init[k].first}, b{build(init[k].second), init[k].second};
    std::string p = mc::Str() << "history " << OPS[o1];
    if (!apply(o1, a, b) || mc::failed()) return;
    mc::nontrivial();
    if (!is(a.s, a.e, p) || !is(b.s, b.e, p)) return;
    uint64_t n = 0; history(a, b, Th ? 4 : 3, p, &n);
  });
}
template <class T> static void wide() {
  for (long C : {(1L << 31) + 7, (1L << 32) + 7, (1L << 33) + 3, (1L << 62) + 1}) for (long R : {1L, 2L, 4L}) mc::run_case(DESC { return mc::Str() << tname<T>() << " " << R << "x" << C; }, [&] {
    mc::group("billions of columns"); mc::nontrivial(); mc::note_trace();
    for (int salt = 0; salt < 4; salt++) {
      Wide<T> e = wide_pattern<T>(R, C, salt); std::vector<std::pair<std::pair<long, long>, T>> l(e.v.begin(), e.v.end());
      for (int order = 0; order < 4; order++) {
        if (order == 1) std::reverse(l.begin(), l.end()); if (order > 1) for (size_t i = l.size(); i > 1; i--) std::swap(l[i - 1], l[(i * 7919 + order) % i]);
        Indices r((tensor::index)l.size()), c((tensor::index)l.size()); Tensor<T> d((tensor::index)l.size()); for (size_t i = 0; i < l.size(); i++) { r.at(i) = l[i].first.first; c.at(i) = l[i].first.second; d.at(i) = l[i].second; }
        for (int given = 0; given < 2; given++) { Sparse<T> s; if (mc::rejects([&] { if (given) s = Sparse<T>(r, c, d, R, C); else s = Sparse<T>(r, c, d); })) { mc::fail("triplets rejected: " + mc::ending_message); return; }
          Wide<T> w = e; if (!given) { w.R = w.C = 0; for (auto &x : e.v) { w.R = std::max(w.R, x.first.first + 1); w.C = std::max(w.C, x.first.second + 1); } }
          if (!is(s, w, "from triplets")) return; }
      }
      Sparse<T> s = build(e), z(R, C); if (!is(z, Wide<T>{R, C, {}}, "zero matrix")) return;
      L cols = wide_columns(C); for (long x : L(cols)) for (long y : {x + 1, x + 3, x - 2}) if (y >= 0 && y < C) cols.push_back(y);
      for (long i = 0; i < R; i++) for (long j : cols) { auto it = e.v.find({i, j}); T want = it == e.v.end() ? T(0) : it->second; T a = T(0), b = T(0); mc::transition(2); if (mc::rejects([&] { a = s(i, j); b = s(i - R, j - C); }) || a != want || b != want) { mc::fail(mc::Str() << "element (" << i << "," << j << ") is " << a << " " << b << " instead of " << want); return; } }
      for (long j : {C, -C - 1, C + (1L << 32), -C - (1L << 32)}) { mc::transition(); if (!mc::rejects([&] { volatile T x = s(0, j); (void)x; })) { mc::fail(mc::Str() << "reading column " << j << " accepted"); return; } }
      for (long i : {R, -R - 1, R + (1L << 32), -(1L << 32)}) { mc::transition(); if (!mc::rejects([&] { volatile T x = s(i, 0); (void)x; })) { mc::fail(mc::Str() << "reading row " << i << " accepted"); return; } }
      if (!all_equal(s, Sparse<T>(s))) mc::fail("comparison with its copy");
      Wide<T> f = e; auto k = f.v.rbegin()->first; f.v.erase(k); if (C < (1L << 62)) { if (all_equal(s, build(f))) mc::fail("comparison with another matrix"); f.v[{k.first, k.second - (1L << 31)}] = e.v[k]; if (f.v.size() == e.v.size() && all_equal(s, build(f))) mc::fail("comparison with another matrix of another column"); }
      Sparse<T> id = Sparse<T>::eye(R, C); Wide<T> ie{R, C, {}}; for (long i = 0; i < R; i++) ie.v[{i, i}] = T(1); if (!is(id, ie, "identity")) return;
    }
  });
}
void explore() { wide<double>(); wide<cd>();  all<double>(); all<cd>(); }
