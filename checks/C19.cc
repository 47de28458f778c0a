// C19: eigenvalue routines return true eigenpairs; the exponential is exact.
#include "linalg_common.h"
#include <tensor/linalg.h>
#include <tensor/map.h>
using namespace tensor;
using namespace linalg;
typedef std::vector<lc> Vals;
static S show(const Vals &v) { mc::Str s; s << "("; for (size_t i = 0; i < v.size() && i < 12; i++) s << (i ? " " : "") << cd(v[i]); s << ")"; return s; }
template <class T> static Vals to_vals(const Tensor<T> &t) { Vals v; for (size_t i = 0; i < t.size(); i++) v.push_back(lc(t[i])); return v; }
// coefficients of det(x - A), by Faddeev and LeVerrier
static Vals charpoly(const Mat &a) {
  int n = a.r; Vals c(n + 1); c[n] = 1; Mat m(n, n);
  for (int k = 1; k <= n; k++) { m = a * m; for (int i = 0; i < n; i++) m(i, i) += c[n - k + 1]; Mat am = a * m; lc t = 0; for (int i = 0; i < n; i++) t += am(i, i); c[n - k] = -t / (LD)k; }
  return c;
}
static Vals from_roots(const Vals &r) { Vals c(1, 1); for (auto x : r) { Vals d(c.size() + 1); for (size_t i = 0; i < c.size(); i++) { d[i + 1] += c[i]; d[i] -= x * c[i]; } c = d; } return c; }
// the values are the eigenvalues of a slightly perturbed matrix, with multiplicity
static bool spectrum(const Mat &m, const Vals &got, LD tol) {
  int n = m.r; LD na = norm2(m); if ((int)got.size() != n) return false;
  for (auto x : got) if (!(std::abs(x) <= na * (1 + 1e-9L))) return false;
  if (na == 0) return true;
  if (n <= 6) { Mat u = lc(1 / na) * m; Vals g; for (auto x : got) g.push_back(x / na); Vals a = charpoly(u), b = from_roots(g); for (int i = 0; i <= n; i++) if (!(std::abs(a[i] - b[i]) <= tol * (1 << n))) return false; return true; }
  Mat p = lc(1 / na) * m, q = p; Vals w(got); for (auto &x : w) x /= na; Vals z(w);
  for (int k = 1; k <= 6; k++) { lc t = 0, s = 0; for (int i = 0; i < n; i++) { t += p(i, i); s += z[i]; } if (!(std::abs(t - s) <= tol * n * k)) return false; p = p * q; for (int i = 0; i < n; i++) z[i] *= w[i]; }
  return true;
}
// eigenvalues of a Hermitian matrix by Jacobi rotations
static std::vector<LD> hermitian(Mat a) {
  int n = a.r;
  for (int sweep = 0; sweep < 80; sweep++) { LD off = 0; for (int p = 0; p < n; p++) for (int q = p + 1; q < n; q++) {
    lc z = a(p, q); LD m = std::abs(z); if (m <= 1e-22L * (std::abs(a(p, p)) + std::abs(a(q, q))) || m < 1e-4000L) continue; off = std::max(off, m);
    lc ph = z / m; LD t = (a(q, q).real() - a(p, p).real()) / (2 * m); t = (t >= 0 ? 1 : -1) / (std::abs(t) + std::sqrt(1 + t * t)); LD c = 1 / std::sqrt(1 + t * t), s = c * t;
    for (int i = 0; i < n; i++) { lc u = a(i, p), v = std::conj(ph) * a(i, q); a(i, p) = c * u - s * v; a(i, q) = s * u + c * v; }
    for (int i = 0; i < n; i++) { lc u = a(p, i), v = ph * a(q, i); a(p, i) = c * u - s * v; a(q, i) = s * u + c * v; }
    a(p, q) = a(q, p) = 0;
  } if (off == 0) break; }
  std::vector<LD> r; for (int i = 0; i < n; i++) r.push_back(a(i, i).real()); std::sort(r.begin(), r.end()); return r;
}
static Mat diagonal(const Vals &v) { Mat d(v.size(), v.size()); for (size_t i = 0; i < v.size(); i++) d(i, i) = v[i]; return d; }
static bool nonzero_columns(const Mat &m) { for (int j = 0; j < m.c; j++) { LD n = norm2(col(m, j)); if (!(n > 1e-3L) || !(n < 1e3L)) return false; } return true; }

template <class T> static void general(const Mat &m) {
  const int n = m.r; Ref<T> A = to_ref<T>(m); LD na = norm2(m), tol = 100 * n * EPS; mc::state(hash(A));
  for (int req = 0; req < 4; req++) {
    Operand<T> a(A); Operand<cd> oldr(Ref<cd>(Dims{2, 1}, cd(5))), oldl(Ref<cd>(Dims{n, n}, cd(7))); CTensor R(oldr.t), L(oldl.t), s; mc::transition();
    S how = mc::Str() << "eig" << (req & 1 ? " R" : "") << (req & 2 ? " L" : "") << " of " << show(m);
    if (mc::rejects([&] { s = eig(a.t, req & 1 ? &R : 0, req & 2 ? &L : 0); })) { mc::fail(how + ": rejected: " + mc::ending_message); return; }
    a.untouched("eig"); oldr.untouched("another tensor"); oldl.untouched("another tensor");
    if (!(req & 1) && !bits_same(from_tensor(R), oldr.r)) { mc::fail(how + ": R was not asked for"); return; }
    if (!(req & 2) && !bits_same(from_tensor(L), oldl.r)) { mc::fail(how + ": L was not asked for"); return; }
    Vals v = to_vals(s);
    if (from_indices(s.dimensions()) != Dims{n} || !spectrum(m, v, tol)) { mc::fail(how + ": eigenvalues " + show(v)); return; }
    Mat d = diagonal(v);
    if (req & 1) { if (from_indices(R.dimensions()) != Dims{n, n}) { mc::fail(how + ": dimensions of R"); return; } Mat r = to_mat(R); if (!nonzero_columns(r) || !small(m * r - r * d, tol * na)) { mc::fail(how + ": eigenvalues " + show(v) + " not with right vectors " + show(r)); return; } }
    if (req & 2) { if (from_indices(L.dimensions()) != Dims{n, n}) { mc::fail(how + ": dimensions of L"); return; } Mat l = to_mat(L); if (!nonzero_columns(l) || !small(adj(l) * m - d * adj(l), tol * na)) { mc::fail(how + ": eigenvalues " + show(v) + " not with left vectors " + show(l)); return; } }
  }
}
template <class T> static void symmetric(const Mat &m) {   // m is Hermitian
  const int n = m.r; Ref<T> A = to_ref<T>(m); LD na = norm2(m), tol = 60 * n * EPS; std::vector<LD> want = hermitian(m); mc::state(hash(A));
  for (int req = 0; req < 2; req++) {
    Operand<T> a(A), old(Ref<T>(Dims{n, n}, T(3))); Tensor<T> V(old.t); RTensor s; mc::transition(); S how = S("eig_sym of ") + show(m);
    if (mc::rejects([&] { s = eig_sym(a.t, req ? &V : 0); })) { mc::fail(how + ": rejected: " + mc::ending_message); return; }
    a.untouched("eig_sym"); old.untouched("another tensor"); if (!req && !bits_same(from_tensor(V), old.r)) { mc::fail(how + ": V was not asked for"); return; }
    if (from_indices(s.dimensions()) != Dims{n}) { mc::fail(how + ": number of eigenvalues"); return; }
    for (int i = 0; i < n; i++) if (!(std::abs(s[i] - want[i]) <= tol * na) || (i && !(s[i] >= s[i - 1]))) { mc::fail(how + ": eigenvalues " + show(to_vals(s))); return; }
    if (req) { if (from_indices(V.dimensions()) != Dims{n, n}) { mc::fail(how + ": dimensions of V"); return; } Mat v = to_mat(V); if (!small(adj(v) * v - one(n), tol)) { mc::fail(how + ": vectors are not orthonormal " + show(v)); return; } if (!small(m * v - v * diagonal(to_vals(s)), tol * na)) { mc::fail(how + ": vectors " + show(v) + " are not those of " + show(to_vals(s))); return; } }
  }
  { Tensor<T> x = to_tensor(A), y(x); RTensor s = eig_sym(x, &x); mc::transition(); Mat v = to_mat(x); if (!small(m * v - v * diagonal(to_vals(s)), tol * na) || !bits_same(from_tensor(y), A)) mc::fail(S("the argument of eig_sym as its own output: ") + show(m)); }
}
// exponential series in extended precision
static LD onenorm(const Mat &m) { LD b = 0; for (int i = 0; i < m.r; i++) { LD s = 0; for (int j = 0; j < m.c; j++) s += std::abs(m(i, j)); b = std::max(b, s); } return b; }
static Mat series(const Mat &m) { LD na = onenorm(m); int s = 0; while (na > 0.5L) { na /= 2; s++; } Mat a = lc(std::pow(2.0L, -s)) * m, t = one(m.r), e = t; for (int k = 1; k < 26; k++) { t = lc(1 / (LD)k) * (t * a); e = e + t; } for (; s; s--) e = e * e; return e; }
template <class T> static void exponential(const Mat &m, bool orders) {
  const int n = m.r; Ref<T> A = to_ref<T>(m); LD na = onenorm(m); Mat want = series(m); mc::state(hash(A));
  for (int q = orders ? 1 : 7; q <= (orders ? 12 : 7); q++) {
    Operand<T> a(A); Tensor<T> e; mc::transition(); S how = mc::Str() << "expm of " << show(m) << " order " << q;
    if (mc::rejects([&] { e = q == 7 ? expm(a.t) : expm(a.t, q); })) { mc::fail(how + ": rejected: " + mc::ending_message); return; }
    a.untouched("expm"); if (from_indices(e.dimensions()) != Dims{n, n}) { mc::fail(how + ": dimensions"); return; }
    // the approximation is the exponential of m + E, |E| bounded by the order (Golub and van Loan 11.3.1, for a norm below 1 after scaling)
    LD b = 16; for (int k = 1; k <= q; k++) b *= k * (LD)k; for (int k = 1; k <= 2 * q; k++) b /= k; for (int k = 1; k <= 2 * q + 1; k++) b /= k;
    LD E = b * na + 30 * n * EPS * (1 + na); if (!small(to_mat(e) - want, E * std::exp(na + E))) { mc::fail(how + ": " + show(to_mat(e)) + " is not " + show(want)); return; }
  }
}
// exponentials of normal matrices of any norm are as accurate as their condition allows
static Mat reflection(const Mat &v) { Mat h = one(v.r); LD s = norm2(v); for (int i = 0; i < v.r; i++) for (int j = 0; j < v.r; j++) h(i, j) -= lc(2 / (s * s)) * v.v[i] * std::conj(v.v[j]); return h; }
template <class T> static void oscillation(int n, int family, LD w) {
  const bool z = sizeof(T) > 8; Mat m(n, n), e(n, n); LD top = -1e30L;
  auto put = [&](int i, lc d) { m(i, i) = d; e(i, i) = std::exp(d); };
  for (int i = 0; i < n; i++) {
    LD x = family == 0 ? 0 : family == 1 ? -w * i / n : family == 2 ? -w - i : (i % 2 ? -w : 1.0L), y = w * (i / 2 + 1) / n; top = std::max(top, x);
    if (z) put(i, lc(x, (i % 2 ? -1 : 1) * y));
    else if (i + 1 < n && i % 2 == 0) { LD x1 = x; m(i, i) = m(i + 1, i + 1) = x1; m(i, i + 1) = -y; m(i + 1, i) = y; LD g = std::exp(x1); e(i, i) = e(i + 1, i + 1) = g * std::cos(y); e(i, i + 1) = -g * std::sin(y); e(i + 1, i) = g * std::sin(y); i++; }
    else put(i, lc(x));
  }
  for (int k = 1; k <= 2 && n > 1; k++) { Mat v(n, 1); for (int i = 0; i < n; i++) v(i, 0) = z ? lc(1 + ((i * 7 + k * 3) % 5), ((i * 5 + k) % 7) - 3.0L) : lc(1 + ((i * 7 + k * 3) % 5)); Mat h = reflection(v); m = h * m * h; e = h * e * h; }
  Ref<T> A = to_ref<T>(m); LD na = onenorm(m); mc::state(hash(A));
  for (int q = 5; q <= 9; q++) {
    Operand<T> a(A); Tensor<T> x; mc::transition(); S how = mc::Str() << "expm of a normal matrix of size " << n << " family " << family << " norm " << (double)na << " order " << q;
    if (mc::rejects([&] { x = q == 7 ? expm(a.t) : expm(a.t, q); })) { mc::fail(how + ": rejected: " + mc::ending_message); return; }
    a.untouched("expm"); if (from_indices(x.dimensions()) != Dims{n, n}) { mc::fail(how + ": dimensions"); return; }
    LD b = 16; for (int k = 1; k <= q; k++) b *= k * (LD)k; for (int k = 1; k <= 2 * q; k++) b /= k; for (int k = 1; k <= 2 * q + 1; k++) b /= k;
    LD E = 2 * n * (b * na + 60 * n * EPS * (1 + na)), o = biggest(to_mat(x) - e); if (!(o <= E * std::exp(std::max(top, -40.0L)))) { mc::fail(mc::Str() << how << ": off by " << (double)o << ", bound " << (double)E); return; }
  }
}
// power iteration: dominant eigenvalue with a gap, from a given start or a random one
template <class T> static Sparse<T> sparse_of(const Ref<T> &A) { std::vector<int> r, c; std::vector<T> d; for (int i = 0; i < A.d[0]; i++) for (int j = 0; j < A.d[1]; j++) if (A.v[i + (size_t)j * A.d[0]] != T(0)) { r.push_back(i); c.push_back(j); d.push_back(A.v[i + (size_t)j * A.d[0]]); } Indices ri(r.size()), ci(r.size()); Vector<T> v(r.size()); for (size_t i = 0; i < r.size(); i++) { ri.at(i) = r[i]; ci.at(i) = c[i]; v.at(i) = d[i]; } return Sparse<T>(ri, ci, v, A.d[0], A.d[1]); }
template <class T> struct Apply { Tensor<T> m; bool left; Tensor<T> operator()(const Tensor<T> &x) const { return left ? mmult(x, m) : mmult(m, x); } };
template <class T> static void power(const Mat &m, lc top, const Mat &rightv, const Mat &leftv) {
  const int n = m.r; Ref<T> A = to_ref<T>(m); LD na = norm2(m);
  for (int left = 0; left < 2; left++) for (int form = 0; form < 3; form++) for (int st = 0; st < 3; st++) for (int it = 0; it < 3; it++) {
    Operand<T> a(A); Sparse<T> sp = sparse_of(A); Ref<T> start(Dims{st == 2 ? n + 1 : n}); for (int i = 0; i < start.d[0]; i++) start.v[i] = st ? T(1 + (i * 3) % 4) : T(0.01 * (i + 1)); LD over = 0; { lc o = 0; for (int i = 0; i < n; i++) o += (left ? rightv : leftv).v[i] * lc(start.v[i]); over = std::abs(o) / norm2(left ? rightv : leftv); } if (st < 2 && over < 1e-3L) continue;   // no component to grow
    Operand<T> v0(start); Tensor<T> v(v0.t); if (st == 2 && it == 1) v = Tensor<T>();
    T e; mc::transition(); S how = mc::Str() << (left ? "eig_power_left" : "eig_power_right") << " form " << form << " start " << st << " iterations " << it << " of " << show(m);
    size_t iter = it == 0 ? 0 : it == 1 ? 60 : 1000; double tol = it == 2 ? 1e-13 : 1e-11; Apply<T> ap = {a.t, (bool)left};
    if (mc::rejects([&] { e = form == 0 ? (it ? (left ? eig_power_left(a.t, &v, iter, tol) : eig_power_right(a.t, &v, iter, tol)) : (left ? eig_power_left(a.t, &v) : eig_power_right(a.t, &v))) : form == 1 ? (left ? eig_power_left(sp, &v, iter, tol) : eig_power_right(sp, &v, iter, tol)) : eig_power(ap, n, &v, iter, tol); })) { mc::fail(how + ": rejected: " + mc::ending_message); return; }
    a.untouched("power iteration"); v0.untouched("another tensor");
    if ((int)v.size() != n) { mc::fail(how + ": size of the vector"); return; }
    Mat x(n, 1); for (int i = 0; i < n; i++) x(i, 0) = lc(v[i]); Mat lhs(n, 1); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) lhs(i, 0) += (left ? m(j, i) : m(i, j)) * x(j, 0);
    if (!(std::abs(norm2(x) - 1) < 1e-12L) || !(std::abs(lc(e) - top) <= 1e-7L * na) || !small(lhs - lc(e) * x, 1e-6L * na)) { mc::fail(how + mc::Str().operator<<(": eigenvalue ").operator<<(e).operator std::string() + " vector " + show(x)); return; }
  }
}
// partial solvers
#ifndef REPEAT
#define REPEAT 1
#endif
static LD key(int type, lc x) { switch (type) { case 0: return -std::abs(x); case 1: return std::abs(x); case 2: return -x.real(); case 3: return x.real(); case 4: return -x.imag(); } return x.imag(); }
template <class T> struct Fn { const Tensor<T> *m; Tensor<T> operator()(const Tensor<T> &x) const { return mmult(*m, x); } };
template <class T> static Tensor<T> call_eigs(int form, const Tensor<T> &a, const Sparse<T> &sp, int type, int k, Tensor<T> *v, bool *conv) { Fn<T> f = {&a}; return form == 0 ? eigs(a, type, k, v, conv) : form == 1 ? eigs(sp, type, k, v, conv) : eigs(f, a.columns(), type, k, v, conv); }
// spectra on which the iteration may give up: an answer is right or there is none
template <class T> static void stubborn(int n, int spectrum) {
  Ref<T> A(Dims{n, n}); std::vector<LD> d; LD top = 0;
  for (int i = 0; i < n; i++) { LD x = spectrum == 0 ? 1 + i * 1e-9L : spectrum == 1 ? 1 + i * 1e-4L : spectrum == 2 ? std::pow(0.5L, i) : spectrum == 3 ? (i % 2 ? -1 : 1) * (1 + i * 1e-6L) : spectrum == 4 ? std::cos(3.14159265358979L * (i + 0.5L) / n) : i * (LD)i * i; A.v[i + (size_t)i * n] = T((double)x); d.push_back((double)x); top = std::max(top, std::abs(x)); }
  for (int type = 0; type < (sizeof(T) > 8 ? 6 : 4); type++) for (int k : {1, 4}) for (int form = 0; form < 3; form++) {
    Operand<T> a(A); Sparse<T> sp = sparse_of(A); Ref<T> start(Dims{n}); for (int i = 0; i < n; i++) start.v[i] = T(1 + (i * 7) % 5); S how = mc::Str() << "eigs form " << form << " type " << type << " of " << k << " from spectrum " << spectrum << " of size " << n;
    for (int c = 0; c < 2; c++) {   // with and without asking for convergence; Fortran keeps the state of its random numbers, so that two calls need not agree
      bool conv = type & 1; Tensor<T> s, v = to_tensor(start); mc::transition(); bool rej = mc::rejects([&] { s = call_eigs(form, a.t, sp, type, k, &v, c ? 0 : &conv); }); a.untouched("eigs");
      if (rej) { if (!c) { mc::fail(how + ": ends the program"); return; } mc::group("not converged"); continue; }
      if (from_indices(s.dimensions()) != Dims{k}) { mc::fail(how + ": number of values"); return; }
      mc::Hash h; h.add(n); h.add(spectrum); h.add(type); h.add(k); h.add(form); h.add(c); h.add(conv); mc::state(h.h);
      if (!c && !conv) { mc::group("not converged"); for (int i = 0; i < k; i++) if (s[i] != T(0)) mc::fail(how + ": values without convergence"); continue; }
      mc::group("eigs"); if (from_indices(v.dimensions()) != Dims{n, k}) { mc::fail(how + ": dimensions of the vectors"); return; }
      for (int j = 0; j < k; j++) { LD e = 0, nn = 0; for (int i = 0; i < n; i++) { lc x = (lc(d[i]) - lc(s[j])) * lc(v(i, j)); e += std::norm(x); nn += std::norm(lc(v(i, j))); } if (!(std::sqrt(e) <= 1e-7L * top) || !(std::abs(nn - 1) <= 1e-6L)) { mc::fail(mc::Str() << how << ": vector " << j << " does not belong to its value (" << (double)std::sqrt(e) << ")"); return; } }
    }
  }
}
template <class T> static void partial(const Mat &m, const Vals &spec, LD loose, int onlyform = -1) {   // spec: every eigenvalue
  Vals all(spec);  const int n = m.r; Ref<T> A = to_ref<T>(m); LD na = norm2(m); Sparse<T> sp = sparse_of(A); mc::state(hash(A));
  bool cplx = sizeof(T) > sizeof(double);
  // Krylov methods may miss copies of a repeated eigenvalue: then only the pairs themselves are checked
  bool simple = n <= 4; if (!simple) { simple = true; for (size_t i = 0; i < all.size(); i++) for (size_t j = 0; j < i; j++) if (std::abs(all[i] - all[j]) < 1e-5L * na) simple = false; }
  for (int rep = 0; rep < REPEAT; rep++) for (int type = 0; type < (cplx ? 6 : 4); type++) for (int k = 1; k <= (n <= 4 ? n : std::min(n - 2, 6)); k++) for (int form = 0; form < 3; form++) for (int req = 0; req < 4; req++) {
    if (onlyform >= 0 && form != onlyform) continue;
    if (n > 4 && req == 1) continue;
    if (n > 20 && (!simple || type == 1 || type > 3)) continue;   // not a full factorisation: interior eigenvalues need not converge
    Ref<T> first(req == 3 ? Dims{n, 1} : Dims{1, 1}); for (size_t i = 0; i < first.v.size(); i++) first.v[i] = T(1 + (i * 7 + i * i) % 5 + 0.125 * i); Operand<T> a(A), old(first); Tensor<T> v(old.t), *pv = req ? &v : 0; bool conv = false; Tensor<T> s; mc::transition();
    static const char *const names[6] = {"LM", "SM", "LR", "SR", "LI", "SI"};
    S how = mc::Str() << "eigs form " << form << " " << names[type] << " " << k << " request " << req << " of " << show(m);
    if (mc::rejects([&] { s = call_eigs(form, a.t, sp, type, k, pv, req == 2 ? 0 : &conv); })) { if (n > 20 && req == 2) { mc::group("not converged"); continue; } mc::fail(how + ": rejected: " + mc::ending_message); return; }
    a.untouched("eigs"); old.untouched("another tensor"); if (!req && !bits_same(from_tensor(v), old.r)) { mc::fail(how + ": vectors were not asked for"); return; }
    if (req != 2 && !conv) { if (n > 20) { mc::group("not converged"); continue; } mc::fail(how + ": reports that it did not converge"); return; }
    Vals got = to_vals(s); if (from_indices(s.dimensions()) != Dims{k}) { mc::fail(how + ": number of eigenvalues"); return; }
    LD tol = n <= 4 ? loose : std::max<LD>(loose, 1e-8L);
    Vals rest; for (int i = 0; i < (simple ? 1 : k); i++) rest.insert(rest.end(), all.begin(), all.end()); std::vector<LD> keys, mine; for (auto x : all) keys.push_back(key(type, x)); std::sort(keys.begin(), keys.end());
    for (auto x : got) { int b = -1; for (size_t i = 0; i < rest.size(); i++) if (b < 0 || std::abs(rest[i] - x) < std::abs(rest[b] - x)) b = i; if (!(std::abs(rest[b] - x) <= tol * na)) { mc::fail(how + ": " + show(got) + " are not among the eigenvalues " + show(all)); return; } rest.erase(rest.begin() + b); mine.push_back(key(type, x)); }
    std::sort(mine.begin(), mine.end()); for (int i = 0; i < k && simple; i++) if (!(std::abs(mine[i] - keys[i]) <= tol * na)) { mc::fail(how + ": " + show(got) + " are not the ones chosen among " + show(all)); return; }
    if (req) {
      if (from_indices(v.dimensions()) != Dims{n, k}) { mc::fail(how + ": dimensions of the vectors"); return; } Mat r = to_mat(v);
      if (!nonzero_columns(r) || !small(m * r - r * diagonal(got), (n <= 4 ? 200 * n * EPS : 1e-9L) * na)) { mc::fail(how + ": vectors " + show(r) + " are not those of " + show(got)); return; }
    }
  }
}
static Vals lib_roots(const Mat &m) { return to_vals(eig(to_tensor(to_ref<cd>(m)))); }   // checked by general()
// a double eigenvalue without a second vector may leave the real axis by rounding: not decided
static bool real_spectrum(const Mat &m) { for (auto x : lib_roots(m)) if (std::abs(x.imag()) > 1e-12L) return false; for (auto x : to_vals(eig(to_tensor(to_ref<double>(m))))) if (std::abs(x.imag()) > 1e-12L) return false; return true; }

void explore() {
  const bool Th = mc::thorough;
  const Alphabet pm = {0, 1, -1}, five = {0, 1, -1, 2, 0.5}, cx = {0, 1, lc(0, 1), lc(1, -1)}, ci = {0, 1, lc(0, 1)}, zi = {0, lc(0, 1)};
  for (int n = 1; n <= 3; n++) {
    all_matrices(n, n, n < 3 ? five : pm, "eig real", [&](const Mat &m) { mc::group("eig"); mc::nontrivial(); general<double>(m); });
    all_matrices(n, n, n < 3 ? cx : Th ? ci : zi, "eig complex", [&](const Mat &m) { mc::group("eig"); mc::nontrivial(); general<cd>(m); });
    all_matrices(n, n, n < 3 ? five : pm, "expm real", [&](const Mat &m) { mc::group("expm"); mc::nontrivial(); exponential<double>(m, m.r < 3); });
    all_matrices(n, n, n < 3 ? cx : Th ? ci : zi, "expm complex", [&](const Mat &m) { mc::group("expm"); mc::nontrivial(); exponential<cd>(m, m.r < 3); });
    all_matrices(n, n, n < 3 ? five : Th ? pm : Alphabet{0, 1}, "eigs real", [&](const Mat &m) { if (!real_spectrum(m)) return; Vals r = lib_roots(m); mc::group("eigs"); mc::nontrivial(); partial<double>(m, r, 1e-3L); });
    all_matrices(n, n, n < 3 ? cx : zi, "eigs complex", [&](const Mat &m) { mc::group("eigs"); mc::nontrivial(); partial<cd>(m, lib_roots(m), 1e-3L); });
  }
  all_matrices(4, 4, {0, 1}, "eig real", [&](const Mat &m) { unsigned h = 0; for (auto &x : m.v) h = h * 2 + (x != lc(0)); if (!Th && h % 4 != 1) return; mc::group("eig"); mc::nontrivial(); general<double>(m); if (h % 8 == 1) exponential<double>(m, false); });
  // symmetric: the upper triangle over an alphabet
  for (int n = 1; n <= 4; n++) for (int z = 0; z < 2; z++) {
    int up = n * (n + 1) / 2; const Alphabet a = n < 4 ? five : pm, c = n < 3 ? Alphabet{0, 1, lc(0, 1), lc(1, -1), -2} : ci; size_t base = z ? c.size() : n == 4 ? 3 : 5;
    mc::all_words(std::min(2, up), base, [&](const std::vector<int> &h) { mc::run_case(DESC { return mc::Str() << "eig_sym " << n << "x" << n << (z ? " complex" : " real") << " first elements " << mc::seq(h); }, [&] {
      mc::group("eig_sym"); mc::nontrivial();
      mc::all_words(up - (int)h.size(), base, [&](const std::vector<int> &t) { if (mc::failed()) return; std::vector<int> w(h); w.insert(w.end(), t.begin(), t.end()); Mat m(n, n); int k = 0; for (int j = 0; j < n; j++) for (int i = 0; i <= j; i++, k++) { lc x = z ? c[w[k]] : a[w[k]]; if (i == j) x = x.real() + x.imag() * 2; m(i, j) = x; m(j, i) = std::conj(x); } if (n == 4 && !Th && (w[0] + 2 * w[3] + w[9] + w[5]) % 3) return; if (z) symmetric<cd>(m); else symmetric<double>(m); });
    }); });
  }
  // structured ones of any size
  for (int k = 0; k < NSTRUCT; k++) for (int n = 1; n <= 131; n = n < 12 ? n + 1 : n < 33 ? n + 7 : n < 36 ? n + 3 : n == 131 ? 999 : n < 66 ? 66 : 131) for (int z = 0; z < 2; z++) mc::run_case(DESC { return mc::Str() << "structured " << k << " size " << n << (z ? " complex" : " real"); }, [&] {
    mc::group("structured"); Mat m = structured(k, n); if (!z && is_complex(m)) return; mc::nontrivial();
    Mat e = lc(2 / onenorm(m)) * m; Mat h = m + adj(m);
    for (auto &x : e.v) x = lc((double)x.real(), (double)x.imag());   // what the library is given
    if (z) { general<cd>(m); symmetric<cd>(h); exponential<cd>(e, n < 6); if (n < 13) exponential<cd>(m, false); Mat i(m); for (auto &x : i.v) x *= lc(0, 1); general<cd>(i); }
    else { general<double>(m); symmetric<double>(h); exponential<double>(e, n < 6); if (n < 13) exponential<double>(m, false); }
  });
  // exponentials over scales; nilpotent, skew
  for (LD s : {1e-300L, 1e-20L, 1e-3L, 0.25L, 0.49L, 0.5L, 0.51L, 0.99L, 1.0L, 1.01L, 3.0L, 10.0L, 30.0L}) for (int n = 1; n <= 2; n++) all_matrices(n, n, pm, "expm scaled", [&, s](const Mat &m) { mc::group("expm"); mc::nontrivial(); Mat x = lc((double)s) * m; exponential<double>(x, false); exponential<cd>(x, false); for (auto &y : x.v) y *= lc(0, 1); exponential<cd>(x, false); });
  for (int n = 1; n <= (Th ? 9 : 6); n++) for (int family = 0; family < 4; family++) mc::run_case(DESC { return mc::Str() << "expm of normal matrices of size " << n << " family " << family; }, [&] {
    mc::group("expm"); mc::nontrivial(); for (LD w = 0.1L; w < 1e7L && !mc::failed(); w *= Th ? 1.3L : 2.1L) { oscillation<double>(n, family, w); oscillation<cd>(n, family, w); } });
  // power iteration on P D P^-1 with integer factors and a dominant element of D
  for (int n = 1; n <= 6; n++) for (int pos = 0; pos < n; pos++) for (int kind = 0; kind < 4; kind++) for (int z = 0; z < 2; z++) mc::run_case(DESC { return mc::Str() << "power iteration size " << n << " dominant " << pos << " kind " << kind << (z ? " complex" : " real"); }, [&] {
    mc::group("power"); mc::nontrivial(); Mat D(n, n), P = one(n), Q = one(n);
    for (int i = 0; i < n; i++) D(i, i) = i == pos ? lc(kind % 2 ? -64 : 32) * (z && kind > 1 ? lc(0, 1) : lc(1)) : lc((i % 3) - 1);
    if (kind) for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { if (i < j) P(i, j) = (i + j) % 2; if (i > j) Q(i, j) = (i * j) % 2 ? lc(z ? lc(0, 1) : lc(-1)) : lc(1); }
    Mat X = P * Q; Mat m = X * D * inverse(X); for (auto &x : m.v) x = lc(std::round(x.real()), std::round(x.imag()));   // integers, exactly
    Mat l(n, 1), Xi = inverse(X); for (int j = 0; j < n; j++) l(j, 0) = Xi(pos, j); for (int k : {0, -66, 66, -400, 400}) { LD s = std::ldexp(1.0L, k); Mat ms(lc(s) * m); lc top = D(pos, pos) * lc(s);
      if (z) power<cd>(ms, top, col(X, pos), l); else power<double>(ms, top, col(X, pos), l); if (mc::failed()) break; }
  });
  // partial solvers through ARPACK: Hermitian families and matrices of known spectrum
  for (int n = 4; n <= (Th ? 30 : 25); n += Th || n < 14 ? 1 : 11) for (int k = 0; k < NSTRUCT; k++) for (int z = 0; z < 2; z++) mc::run_case(DESC { return mc::Str() << "eigs structured " << k << " size " << n << (z ? " complex" : " real"); }, [&] {
    mc::group("eigs"); Mat m = structured(k, n); m = m + adj(m); if (!z && is_complex(m)) return; mc::nontrivial(); std::vector<LD> w = hermitian(m); Vals all(w.begin(), w.end());
    if (z) partial<cd>(m, all, 1e-10L, n > 8 ? k % 3 : -1); else partial<double>(m, all, 1e-10L, n > 8 ? (k + 1) % 3 : -1);
  });
  for (int n = 3; n <= (Th ? 16 : 9); n++) for (int kind = 0; kind < 3; kind++) mc::run_case(DESC { return mc::Str() << "eigs known spectrum size " << n << " kind " << kind; }, [&] {
    mc::group("eigs"); mc::nontrivial(); Mat D(n, n), P = one(n), Q = one(n); Vals all; for (int i = 0; i < n; i++) { D(i, i) = kind == 0 ? lc(i + 1 + (i % 2) * 2, 3 * ((i * 5) % n) - n) : kind == 1 ? lc(2 * i - n + 0.5L, i * i % 7 + 0.125L * i) : lc((i + 1) * (i % 2 ? 1 : -1), 0.25L * i); all.push_back(D(i, i)); }
    for (int i = 0; i + 1 < n; i++) { P(i, i + 1) = kind ? lc(0, 1) : lc(1); Q(i + 1, i) = i % 2 ? 1 : -1; }
    Mat X = kind == 2 ? P : P * Q; Mat m = X * D * inverse(X); for (auto &x : m.v) x = lc(std::round(x.real() * 8) / 8, std::round(x.imag() * 8) / 8);
    partial<cd>(m, all, 1e-9L);
  });
  // real matrices that are not symmetric, larger than 4x4
  for (int n = 3; n <= 6; n++) mc::run_case(DESC { return mc::Str() << "eigs real, not symmetric, size " << n; }, [&] {
    mc::group("eigs"); mc::nontrivial(); Mat m(n, n); Vals all; for (int i = 0; i < n; i++) { m(i, i) = i + 1; all.push_back(i + 1); for (int j = i + 1; j < n; j++) m(i, j) = 1; }
    partial<double>(m, all, 1e-9L);
  });
  // selections that cannot be computed
  for (int n : Th ? std::vector<int>{6, 30, 100, 220} : std::vector<int>{6, 26, 90}) for (int s = 0; s < 6; s++) for (int z = 0; z < 2; z++) mc::run_case(DESC { return mc::Str() << "eigs spectrum " << s << " size " << n << (z ? " complex" : " real"); }, [&] { mc::nontrivial(); mc::group("eigs"); if (z) stubborn<cd>(n, s); else stubborn<double>(n, s); });
  for (int n = 1; n <= 7; n++) mc::run_case(DESC { return mc::Str() << "eigs impossible counts, size " << n; }, [&] {
    mc::group("shapes"); mc::nontrivial(); Mat m = structured(0, n); RTensor a = to_tensor(to_ref<double>(m)); CTensor z = to_tensor(to_ref<cd>(m)); RSparse sp = sparse_of(to_ref<double>(m)); CSparse sz = sparse_of(to_ref<cd>(m));
    for (int k : {0, n + 1, n + 7}) for (int form = 0; form < 3; form++) { mc::transition(2); if (!mc::rejects([&] { call_eigs<double>(form, a, sp, 0, k, 0, 0); }) || !mc::rejects([&] { call_eigs<cd>(form, z, sz, 0, k, 0, 0); })) { mc::fail(mc::Str() << "form " << form << " computes " << k << " eigenvalues"); return; } }
  });
  for (int what = 0; what < 14; what++) mc::run_case(DESC { return mc::Str() << "rejected shapes " << what; }, [&] {
    mc::group("shapes"); mc::nontrivial();
    for (auto d : std::vector<Dims>{{2, 3}, {3, 2}, {1, 2}, {2, 1}, {6, 7}, {7, 6}, {5, 8}, {8, 5}, {2}, {1}, {2, 2, 1}, {2, 2, 2}, {1, 1, 1}, {6, 6, 1}}) {
      Operand<double> a(Ref<double>(d, 1)); Operand<cd> z(Ref<cd>(d, 1)); RTensor V; CTensor W; bool two = d.size() == 2; mc::transition();
      if (what >= 8 && what <= 13 && !two) continue;
      RSparse sp; CSparse sz; if (two) { sp = sparse_of(a.r); sz = sparse_of(z.r); }
      bool ok = mc::rejects([&] { switch (what) {
        case 0: eig(a.t); break; case 1: eig(z.t, &W); break; case 2: eig_sym(a.t, &V); break; case 3: eig_sym(z.t); break; case 4: expm(a.t); break; case 5: expm(z.t); break;
        case 6: eigs(a.t, 0, 1, &V); break; case 7: eigs(z.t, 0, 1, &W); break; case 8: eigs(sp, 0, 1, &V); break; case 9: eigs(sz, 0, 1, &W); break;
        case 10: eig_power_right(a.t, &V); break; case 11: eig_power_left(z.t, &W); break; case 12: eig_power_right(sz, &W); break; default: eig_power_left(sp, &V); } });
      if (!ok) { mc::fail("accepts dimensions " + mc::seq(d)); return; }
      a.untouched("rejected call"); z.untouched("rejected call");
    }
  });
}
