// C17: solutions of linear systems satisfy the equations.
#include "linalg_common.h"
#include <tensor/linalg.h>
#include <tensor/sparse.h>
using namespace tensor;
using namespace linalg;
template <class T> static Mat as_mat(const Tensor<T> &t, int rows) { Ref<T> r = from_tensor(t); return to_mat(r, rows, rows ? (int)(r.v.size() / rows) : 0); }
// right-hand sides with n rows: all unit vectors at once, integer vector, tensors of higher rank
template <class T> static std::vector<Ref<T> > sides(int n, bool few) {
  std::vector<Ref<T> > r; Ref<T> e(Dims{n, n}); for (int i = 0; i < n; i++) e.v[i + n * i] = 1; r.push_back(e);
  auto fill = [&](const Dims &d) { Ref<T> x(d); for (size_t k = 0; k < x.v.size(); k++) x.v[k] = narrow<T>(lc((LD)((k * 5 + 3) % 7) - 3, (LD)((k * 3 + 1) % 5) - 2)); return x; };
  r.push_back(fill({n})); if (!few) { r.push_back(fill({n, 1})); r.push_back(fill({n, n + 2})); r.push_back(fill({n, 2, 3})); r.push_back(fill({n, 1, 2, 2})); r.push_back(Ref<T>(Dims{n, 2})); r.push_back(Ref<T>(Dims{n, 0})); }
  return r;
}
template <class T> static void invertible(const Mat &m, const Mat &inv, bool few) {
  Ref<T> A = to_ref<T>(m); int n = m.r; LD na = norm2(m), cond = na * norm2(inv);
  for (auto &B : sides<T>(n, few)) {
    Mat b = to_mat(B, n, (int)(B.v.size() / n)), x = inv * b; LD tol = 200 * n * EPS * cond * std::max(norm2(x), (LD)0);
    for (int w = 0; w < 2; w++) {
      Operand<T> a(A), bb(B); Tensor<T> X; mc::transition();
      bool rej = mc::rejects([&] { X = w ? solve_with_svd(a.t, bb.t) : solve(a.t, bb.t); });
      const char *nm = w ? "solve_with_svd" : "solve";
      if (rej) { mc::fail(S(nm) + " rejects the invertible " + show(m) + ": " + mc::ending_message); return; }
      a.untouched(nm); bb.untouched(nm);
      if (from_indices(X.dimensions()) != B.d) { mc::fail(S(nm) + ": the solution has other dimensions: " + show(X) + " for " + show(m)); return; }
      Mat y = as_mat(X, n);
      if (!small(y - x, tol) || !small(m * y - b, 200 * n * EPS * (na * norm2(x) * (w ? n : 1) + norm2(b)))) { mc::fail(S(nm) + " of " + show(m) + " and " + show(B) + ": got " + show(y) + " expected " + show(x)); return; }
    }
  }
}
template <class T> static void direct(const Mat &m, bool few) {
  Elim e = eliminate(m); mc::state(hash(to_ref<T>(m)));
  if (e.rank == m.r) { invertible<T>(m, inverse(m), few); return; }
  bool nil = false;   // a null row or column
  for (int i = 0; i < m.r; i++) { bool row = true, col = true; for (int j = 0; j < m.r; j++) { row &= m(i, j) == lc(0); col &= m(j, i) == lc(0); } nil |= row || col; }
  if (nil) { Operand<T> a(to_ref<T>(m)), b(to_ref<T>(one(m.r))); mc::transition(); if (!mc::rejects([&] { Tensor<T> x = solve(a.t, b.t); })) mc::fail("solve accepts the singular " + show(m)); a.untouched("solve"); b.untouched("solve"); }
}
// minimum residual and minimum norm for any matrix
template <class T> static void least_squares(const Mat &m, bool few, LD scale = 1) {
  Mat p = pinv(m), sm = lc(scale) * m; mc::state(hash(to_ref<T>(sm), 1)); LD cond = std::max(norm2(m) * norm2(p), (LD)1);
  for (auto &B : sides<T>(m.r, few)) {
    Mat b = to_mat(B, m.r, (int)(B.v.size() / m.r)), x = lc(1 / scale) * (p * b);
    Operand<T> a(to_ref<T>(sm)), bb(B); Tensor<T> X; mc::transition();
    bool rej = mc::rejects([&] { X = solve_with_svd(a.t, bb.t); });
    if (rej) { mc::fail("solve_with_svd rejects " + show(sm) + ": " + mc::ending_message); return; }
    a.untouched("solve_with_svd"); bb.untouched("solve_with_svd");
    Dims d = B.d; d[0] = m.c; if (from_indices(X.dimensions()) != d) { mc::fail("solve_with_svd: dimensions of the solution " + show(X) + " for " + show(sm)); return; }
    if (!small(as_mat(X, m.c) - x, 400 * std::max(m.r, m.c) * EPS * cond * cond * norm2(p) / scale * std::max(norm2(b), (LD)1))) { mc::fail("solve_with_svd of " + show(sm) + " and " + show(B) + ": got " + show(X) + " expected " + show(x)); return; }
  }
}
template <class T> struct Apply { Tensor<T> a; explicit Apply(const Tensor<T> &x) : a(x) {} Tensor<T> operator()(const Tensor<T> &x) const { return mmult(a, x); } };
template <class T> static Tensor<T> apply_to(const Tensor<T> &x, const Tensor<T> &a) { return mmult(a, x); }
// positive definite systems by conjugate gradients, in all forms
template <class T> static void gradients(const Mat &m, bool few) {
  int n = m.r; Mat inv = inverse(m); Ref<T> A = to_ref<T>(m); mc::state(hash(A, 2)); LD na = norm2(m), ni = norm2(inv);
  std::vector<Ref<T> > bs = sides<T>(n, few); 
  for (auto &B : bs) {
    if (B.v.empty() || B.d.size() > 2) continue;
    Mat b = to_mat(B, n, (int)(B.v.size() / n)), x = inv * b;
    Ref<T> sol(B.d); for (size_t k = 0; k < sol.v.size(); k++) sol.v[k] = narrow<T>(x.v[k]);
    Ref<T> far(B.d); for (size_t k = 0; k < far.v.size(); k++) far.v[k] = narrow<T>(lc((LD)(k % 3) - 1, (LD)(k % 2)));
    std::vector<Ref<T> > starts; starts.push_back(Ref<T>(B.d)); starts.push_back(sol); starts.push_back(far);
    for (int e : {-4, -7}) { Ref<T> z(sol); for (size_t k = 0; k < z.v.size(); k++) z.v[k] += (double)std::pow(10.0, e) * far.v[k]; starts.push_back(z); }   // close to the solution
    for (int st = -1; st < 5; st++) if (!few || st != 2) for (int form = 0; form < 5; form++) for (int set = 0; set < (few ? 1 : 3); set++) {
      if (form == 2 && B.d.size() == 1 && false) continue;
      Operand<T> a(A), bb(B), x0(st < 0 ? B : starts[st]); Sparse<T> sp(a.t); Tensor<T> X; mc::transition();
      int it = set == 1 ? 4 * n + 4 : 0; double tol = set == 2 ? 1e-6 : 0; const Tensor<T> *s = st < 0 ? 0 : &x0.t;
      bool rej = mc::rejects([&] {
        Apply<T> f(a.t);
        switch (form) {
        case 0: X = cgs(a.t, bb.t, s, it, tol); break;
        case 1: X = cgs(sp, bb.t, s, it, tol); break;
        case 2: X = cgs(f, bb.t, s, it, tol); break;
        case 3: X = do_cgs(new MatrixMap<Tensor<T> >(a.t), bb.t, s, it, tol); break;
        case 4: X = cgs(with_args(apply_to<T>, a.t), bb.t, s, it, tol); break;
        } });
      const char *nm[] = {"dense", "sparse", "function", "map", "closure"};
      S how = mc::Str() << "cgs (" << nm[form] << ", start " << st << ", settings " << set << ") of " << show(m) << " and " << show(B);
      if (rej) { mc::fail(how + ": rejected: " + mc::ending_message); return; }
      a.untouched("cgs"); bb.untouched("cgs"); x0.untouched("cgs");
      if (from_indices(X.dimensions()) != B.d) { mc::fail(how + ": dimensions " + show(X)); return; }
      LD goal = set == 2 ? 1e-6L : 1e-10L; Mat y = as_mat(X, n);
      if (!small(m * y - b, 4 * goal + 1000 * n * EPS * (na * norm2(x) + norm2(b)))) { mc::fail(how + ": got " + show(y) + " expected " + show(x)); return; }
      if (!small(y - x, ni * (4 * goal + 1000 * n * EPS * (na * norm2(x) + norm2(b))))) { mc::fail(how + ": inaccurate"); return; }
    }
  }
}
template <class T> static void wrong_shapes() {
  for (int r = 1; r <= 4; r++) for (int c = 1; c <= 4; c++) for (int br = 1; br <= 4; br++) for (int k = 0; k < 3; k++) {
    Ref<T> A(Dims{r, c}); for (int i = 0; i < std::min(r, c); i++) A.v[i + r * i] = 2; Ref<T> B = k == 0 ? Ref<T>(Dims{br}, 1) : k == 1 ? Ref<T>(Dims{br, 2}, 1) : Ref<T>(Dims{br, 2, 2}, 1);
    Operand<T> a(A), b(B); bool square = r == c, fits = br == r; Tensor<T> X; mc::transition(3);
    bool rej = mc::rejects([&] { X = solve(a.t, b.t); }); if (rej != !(square && fits)) { mc::fail(mc::Str() << "solve of " << r << "x" << c << " and " << br << " rows: " << (rej ? "rejected" : "accepted")); return; }
    rej = mc::rejects([&] { X = solve_with_svd(a.t, b.t); }); if (rej != !fits) { mc::fail(mc::Str() << "solve_with_svd of " << r << "x" << c << " and " << br << " rows: " << (rej ? "rejected" : "accepted")); return; }
    if (k < 2) { rej = mc::rejects([&] { X = cgs(a.t, b.t); }); if (!(square && fits) && !rej) { mc::fail(mc::Str() << "cgs of " << r << "x" << c << " and " << br << " rows: accepted"); return; } 
      for (int xr = 1; xr <= 4; xr++) { if (!square || !fits || xr == br) continue; Operand<T> x0(Ref<T>(k ? Dims{xr, 2} : Dims{xr}, 1)); if (!mc::rejects([&] { X = cgs(a.t, b.t, &x0.t); })) { mc::fail(mc::Str() << "cgs accepts a start of " << xr << " rows for " << br); return; } } }
    a.untouched("rejected call"); b.untouched("rejected call");
  }
  for (auto d : std::vector<Dims>{{4}, {2, 2, 2}, {2, 2, 1}, {1, 2, 2}, {2, 2, 2, 2}}) { Operand<T> a(Ref<T>(d, 1)), b(Ref<T>(Dims{d[0]}, 1)); a.r.v[0] = 3; a.t = to_tensor(a.r); a.sharer = a.t; Tensor<T> X; if (!mc::rejects([&] { X = solve(a.t, b.t); })) mc::fail("solve accepts a matrix of dimensions " + mc::seq(d)); if (!mc::rejects([&] { X = solve_with_svd(a.t, b.t); })) mc::fail("solve_with_svd accepts a matrix of dimensions " + mc::seq(d)); }
}
// explicit tolerances: singular values not above it are left out
template <class T> static void tolerances(const std::vector<double> &s, const std::vector<int> &perm, double tol) {
  int n = (int)s.size(); Mat m(n, n), p(n, n); for (int i = 0; i < n; i++) { lc ph = i % 2 ? lc(-1) : lc(1); m(perm[i], i) = ph * (LD)s[i]; p(i, perm[i]) = s[i] > tol ? ph / (LD)s[i] : lc(0); }
  Operand<T> a(to_ref<T>(m)), b(to_ref<T>(one(n))); Tensor<T> X; mc::transition();
  if (mc::rejects([&] { X = solve_with_svd(a.t, b.t, tol); })) { mc::fail("solve_with_svd rejects"); return; }
  if (!small(to_mat(X) - p, 1e-12L * (1 + biggest(p)))) mc::fail(mc::Str() << "solve_with_svd with tolerance " << tol << " of " << show(m) << ": got " << show(X) << " expected " << show(p));
}
void explore() {
  const bool Th = mc::thorough;
  const Alphabet pm = {0, 1, -1}, six = {0, 1, -1, 2, -2, 0.5}, wide = {0, 1, -1, 2, 0.5, -3, 7, 1e-3, 1e3, 0.1};
  const Alphabet cx = {0, 1, lc(0, 1), lc(1, -1)}, cx7 = {0, 1, -1, lc(0, 1), lc(0, -1), lc(1, 1), 2};
  auto real = [&](int n, const Alphabet &a, bool few) { all_matrices(n, n, a, "real", [&, few](const Mat &m) { mc::group("direct"); mc::nontrivial(); direct<double>(m, few); }); };
  auto cplx = [&](int n, const Alphabet &a, bool few) { all_matrices(n, n, a, "complex", [&, few](const Mat &m) { mc::group("direct"); mc::nontrivial(); direct<cd>(m, few); }); };
  real(1, wide, false); real(2, six, false); real(3, pm, false); cplx(1, cx7, false); cplx(2, cx, false); cplx(2, cx7, false); cplx(3, {0, 1, lc(0, 1)}, true); real(4, {0, 1}, true);
  if (Th) { real(2, wide, false); cplx(3, {0, 1, lc(0, 1)}, false); cplx(3, {0, 1, lc(1, -1)}, true); real(3, {0, 1, 2, -1}, true); real(3, {0, 1, -2, 0.5, 3}, true); cplx(2, {0, 1, -1, 2, lc(0, 1), lc(0, -1), lc(1, 1), lc(1, -2), lc(0.5, 0)}, true); }
  for (int k = 0; k < NSTRUCT; k++) for (int n = 1; n <= 131; n = n < 10 ? n + 1 : n < 36 ? n + 13 : n < 40 ? n + 5 : n == 131 ? 999 : n < 66 ? 66 : 131) for (int z = 0; z < 2; z++) mc::run_case(DESC { return mc::Str() << "structured " << k << " size " << n << (z ? " complex" : " real"); }, [&] {
    mc::group("structured"); Mat m = structured(k, n); if (!z && is_complex(m)) return; mc::nontrivial();
    if (z) { direct<cd>(m, n > 12); least_squares<cd>(m, true); } else { direct<double>(m, n > 12); least_squares<double>(m, true); }
    if (k == 0 || k == 7 || k == 8 || k == 9) { if (k == 7 && n > 4) return; if ((k == 0 || k == 9) && n > 8) return; if (z) gradients<cd>(m, n > 6); else gradients<double>(m, n > 6); }
  });
  // permutations with signs, as the pivoting sees them
  for (int n = 2; n <= (Th ? 6 : 5); n++) mc::run_case(DESC { return mc::Str() << "signed permutations " << n; }, [&] { mc::group("direct"); mc::nontrivial(); std::vector<int> p(n); for (int i = 0; i < n; i++) p[i] = i; do { Mat m(n, n); for (int i = 0; i < n; i++) m(p[i], i) = i % 2 ? -2 : 1; direct<double>(m, true); if (mc::failed()) return; } while (std::next_permutation(p.begin(), p.end())); });
  for (int r = 1; r <= 3; r++) for (int c = 1; c <= 3; c++) {
    all_matrices(r, c, r * c <= 4 ? six : pm, "least squares real", [&, r, c](const Mat &m) { mc::group("least squares"); mc::nontrivial(); least_squares<double>(m, r * c > 4); });
    all_matrices(r, c, r * c <= 4 ? cx : Alphabet{0, lc(0, 1)}, "least squares complex", [&, r, c](const Mat &m) { mc::group("least squares"); mc::nontrivial(); least_squares<cd>(m, r * c > 4); });
  }
  all_matrices(4, 2, {0, 1, -1}, "least squares real", [&](const Mat &m) { mc::group("least squares"); mc::nontrivial(); least_squares<double>(m, true); });
  all_matrices(2, 4, {0, 1, -1}, "least squares real", [&](const Mat &m) { mc::group("least squares"); mc::nontrivial(); least_squares<double>(m, true); });
  all_matrices(4, 4, {0, 1}, "least squares real", [&](const Mat &m) { mc::group("least squares"); mc::nontrivial(); least_squares<double>(m, true); });
  if (Th) { all_matrices(3, 3, {0, 1, lc(0, 1)}, "least squares complex", [&](const Mat &m) { mc::group("least squares"); mc::nontrivial(); least_squares<cd>(m, true); }); all_matrices(3, 4, {0, 1}, "least squares real", [&](const Mat &m) { mc::group("least squares"); mc::nontrivial(); least_squares<double>(m, true); }); }
  for (LD s : {1e-30L, 1e-17L, 1e-8L, 1e8L, 1e30L}) for (int n = 1; n <= 3; n++) all_matrices(n, n, n < 3 ? pm : Alphabet{0, 1}, "scaled", [&, s](const Mat &m) { mc::group("scaled"); mc::nontrivial(); least_squares<double>(m, true, s); least_squares<cd>(m, true, s); });
  for (auto s : std::vector<std::vector<double> >{{4, 1}, {1, 1e-3, 1e-6}, {3, 2, 1}, {5, 0, 5}, {8, 4, 2, 1}}) for (double tol : {1e-20, 1e-9, 1e-4, 0.01, 0.5, 1.5, 2.5, 3.5, 4.5, 7.0, 100.0}) mc::run_case(DESC { return mc::Str() << "tolerance " << tol << " singular values " << mc::seq(s); }, [&] { mc::group("tolerances"); mc::nontrivial(); std::vector<int> p; for (size_t i = 0; i < s.size(); i++) p.push_back((int)i); do { tolerances<double>(s, p, tol); tolerances<cd>(s, p, tol); if (mc::failed()) return; } while (std::next_permutation(p.begin(), p.end())); });
  // positive definite: M^H M + 1
  for (int n = 1; n <= 3; n++) all_matrices(n, n, n < 3 ? Alphabet{0, 1, -1, 2} : Alphabet{0, 1, -1}, "gradients real", [&, n](const Mat &m) { mc::group("gradients"); mc::nontrivial(); gradients<double>(adj(m) * m + one(n), n == 3); });
  for (int n = 1; n <= 2; n++) all_matrices(n, n, cx, "gradients complex", [&, n](const Mat &m) { mc::group("gradients"); mc::nontrivial(); gradients<cd>(adj(m) * m + one(n), n == 2); });
  mc::run_case(DESC { return S("shapes, real"); }, [&] { mc::group("shapes"); mc::nontrivial(); wrong_shapes<double>(); });
  mc::run_case(DESC { return S("shapes, complex"); }, [&] { mc::group("shapes"); mc::nontrivial(); wrong_shapes<cd>(); });
}
