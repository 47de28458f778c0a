// Shared by the checks of linear algebra: small dense matrices in extended
// precision, independent of the library.
#include "ref.h"
#include <algorithm>
#include <functional>
typedef std::string S;
typedef long double LD;
typedef std::complex<LD> lc;
struct Mat {
  int r, c; std::vector<lc> v;
  Mat(int rr = 0, int cc = 0) : r(rr), c(cc), v((size_t)rr * cc) {}
  lc &operator()(int i, int j) { return v[i + (size_t)j * r]; }
  const lc &operator()(int i, int j) const { return v[i + (size_t)j * r]; }
};
static inline Mat operator*(const Mat &a, const Mat &b) { Mat m(a.r, b.c); for (int j = 0; j < b.c; j++) for (int k = 0; k < a.c; k++) { lc x = b(k, j); if (x != lc(0)) for (int i = 0; i < a.r; i++) m(i, j) += a(i, k) * x; } return m; }
static inline Mat operator-(Mat a, const Mat &b) { for (size_t i = 0; i < a.v.size(); i++) a.v[i] -= b.v[i]; return a; }
static inline Mat operator+(Mat a, const Mat &b) { for (size_t i = 0; i < a.v.size(); i++) a.v[i] += b.v[i]; return a; }
static inline Mat operator*(lc x, Mat a) { for (auto &y : a.v) y *= x; return a; }
static inline Mat adj(const Mat &a) { Mat m(a.c, a.r); for (int i = 0; i < a.r; i++) for (int j = 0; j < a.c; j++) m(j, i) = std::conj(a(i, j)); return m; }
static inline Mat one(int n) { Mat m(n, n); for (int i = 0; i < n; i++) m(i, i) = 1; return m; }
static inline LD biggest(const Mat &a) { LD m = 0; for (auto &x : a.v) { LD y = std::abs(x); if (!(y <= m)) m = y; } return m; }   // NaN propagates
static inline bool small(const Mat &a, LD tol) { for (auto &x : a.v) if (!(std::abs(x) <= tol)) return false; return true; }
static inline Mat col(const Mat &a, int j) { Mat m(a.r, 1); for (int i = 0; i < a.r; i++) m(i, 0) = a(i, j); return m; }
static inline LD norm2(const Mat &a) { LD s = 0; for (auto &x : a.v) s += std::norm(x); return std::sqrt(s); }

// Gaussian elimination with full pivoting; rank with respect to the largest element
struct Elim { int rank; lc det; std::vector<int> cols; Mat echelon; };
static inline Elim eliminate(Mat a, LD eps = 1e-12L) {
  Elim e; e.rank = 0; e.det = 1; LD top = biggest(a); int rows = a.r; Mat w = a; std::vector<int> rp(rows), cp(a.c);
  for (int i = 0; i < rows; i++) rp[i] = i; for (int j = 0; j < a.c; j++) cp[j] = j;
  int k = 0;
  for (; k < std::min(rows, a.c); k++) {
    int bi = k, bj = k; LD best = 0; for (int i = k; i < rows; i++) for (int j = k; j < a.c; j++) if (std::abs(w(i, j)) > best) { best = std::abs(w(i, j)); bi = i; bj = j; }
    if (!(best > eps * top)) break;
    if (bi != k) { for (int j = 0; j < a.c; j++) std::swap(w(k, j), w(bi, j)); e.det = -e.det; }
    if (bj != k) { for (int i = 0; i < rows; i++) std::swap(w(i, k), w(i, bj)); std::swap(cp[k], cp[bj]); e.det = -e.det; }
    e.det *= w(k, k);
    for (int i = k + 1; i < rows; i++) { lc f = w(i, k) / w(k, k); w(i, k) = 0; if (f != lc(0)) for (int j = k + 1; j < a.c; j++) w(i, j) -= f * w(k, j); }
  }
  e.rank = k; e.cols.assign(cp.begin(), cp.begin() + k); if (k < rows || k < a.c) e.det = 0;
  return e;
}
static inline int rank(const Mat &a) { return eliminate(a).rank; }
static inline Mat inverse(const Mat &a) {   // a is invertible
  int n = a.r; Mat w(n, 2 * n); for (int i = 0; i < n; i++) { for (int j = 0; j < n; j++) w(i, j) = a(i, j); w(i, n + i) = 1; }
  for (int k = 0; k < n; k++) {
    int b = k; for (int i = k; i < n; i++) if (std::abs(w(i, k)) > std::abs(w(b, k))) b = i;
    if (b != k) for (int j = 0; j < 2 * n; j++) std::swap(w(k, j), w(b, j));
    lc p = w(k, k); for (int j = 0; j < 2 * n; j++) w(k, j) /= p;
    for (int i = 0; i < n; i++) if (i != k) { lc f = w(i, k); if (f != lc(0)) for (int j = k; j < 2 * n; j++) w(i, j) -= f * w(k, j); }
  }
  Mat m(n, n); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) m(i, j) = w(i, n + j); return m;
}
// pseudo-inverse from a rank factorisation
static inline Mat pinv(const Mat &a) {
  Elim e = eliminate(a); if (e.rank == 0) return Mat(a.c, a.r);
  Mat C(a.r, e.rank); for (int j = 0; j < e.rank; j++) for (int i = 0; i < a.r; i++) C(i, j) = a(i, e.cols[j]);
  Mat Ca = adj(C), F = inverse(Ca * C) * Ca * a, Fa = adj(F);   // a = C F
  return Fa * inverse(F * Fa) * inverse(Ca * C) * Ca;
}
template <class T> T narrow(lc x);
template <> inline double narrow<double>(lc x) { return (double)x.real(); }
template <> inline cd narrow<cd>(lc x) { return cd((double)x.real(), (double)x.imag()); }
template <class T> Ref<T> to_ref(const Mat &m) { Ref<T> r(Dims{m.r, m.c}); for (size_t i = 0; i < m.v.size(); i++) r.v[i] = narrow<T>(m.v[i]); return r; }
template <class T> Mat to_mat(const Ref<T> &r, int rows, int cols) { Mat m(rows, cols); for (size_t i = 0; i < m.v.size(); i++) m.v[i] = lc(r.v[i]); return m; }
template <class T> Mat to_mat(const tensor::Tensor<T> &t) { Ref<T> r = from_tensor(t); return to_mat(r, r.d.size() > 0 ? r.d[0] : 0, r.d.size() > 1 ? r.d[1] : 1); }
static inline S show(const Mat &m) { mc::Str s; s.s.precision(17); s << m.r << "x" << m.c << " ["; for (size_t i = 0; i < m.v.size() && i < 40; i++) { s << (i ? " " : ""); if (m.v[i].imag() != 0) s << m.v[i]; else s << m.v[i].real(); } s << "]"; return s; }
static const LD EPS = 2.220446049250313e-16L;

// all matrices over an alphabet, grouped by their first column
typedef std::vector<lc> Alphabet;
static inline Mat word_matrix(int r, int c, const Alphabet &a, const std::vector<int> &w) { Mat m(r, c); for (size_t i = 0; i < w.size(); i++) m.v[i] = a[w[i]]; return m; }
// f(matrix) inside cases of at most |alphabet|^inner matrices
static inline void all_matrices(int r, int c, const Alphabet &a, const char *what, const std::function<void(const Mat &)> &f) {
  int n = r * c, inner = 0; double p = 1; while (inner < n && p * a.size() <= 700) { inner++; p *= a.size(); }
  mc::all_words(n - inner, (int)a.size(), [&](const std::vector<int> &head) {
    mc::run_case(DESC { return mc::Str() << what << " " << r << "x" << c << " over " << a.size() << " values, last elements " << mc::seq(head); }, [&] {
      mc::all_words(inner, (int)a.size(), [&](const std::vector<int> &tail) {
        if (mc::failed()) return;
        std::vector<int> w(tail); w.insert(w.end(), head.begin(), head.end());
        f(word_matrix(r, c, a, w));
      });
    });
  });
}
// structured matrices of any size
static inline Mat structured(int kind, int n) {
  Mat m(n, n);
  for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) switch (kind) {
    case 0: m(i, j) = i == j ? 2 : std::abs(i - j) == 1 ? -1 : 0; break;               // Laplacian
    case 1: m(i, j) = (i + 1) % n == j ? 1 : 0; break;                                 // cyclic shift
    case 2: m(i, j) = i + j == n - 1 ? i + 1 : 0; break;                               // anti-diagonal
    case 3: m(i, j) = j >= i ? 1 : 0; break;                                           // upper triangular
    case 4: m(i, j) = i >= j ? 1 + (i == j) : 0; break;                                // lower triangular
    case 5: m(i, j) = i == j ? n + 1 : (LD)((i * 7 + j * 3) % 5) - 2; break;           // dominant, not symmetric
    case 6: m(i, j) = lc((i * 5 + j * 11) % 7 - 3 + (i == j ? n : 0), (i * 3 + j * 2) % 5 - 2); break;   // complex
    case 7: m(i, j) = std::min(i, j) + 1; break;                                       // positive definite
    case 8: m(i, j) = lc(i == j ? n + 2 : (i * j) % 3 - 1, i < j ? (i + j) % 3 - 1 : i > j ? -((i + j) % 3 - 1) : 0); break;  // Hermitian
    case 9: m(i, j) = i == j ? std::pow(2.0L, (i % 7) - 3) : 0; break;                 // diagonal
    case 10: m(i, j) = (i / 2 == j / 2) ? (i == j ? 0 : i < j ? 1 : -1) : 0; break;    // rotations by 90 degrees
  }
  if (kind == 10 && n % 2) m(n - 1, n - 1) = 1;
  return m;
}
static const int NSTRUCT = 11;
static inline bool is_complex(const Mat &m) { for (auto &x : m.v) if (x.imag() != 0) return true; return false; }
// operand with a handle that shares its storage: neither may change
template <class T> struct Operand {
  tensor::Tensor<T> t, sharer; Ref<T> r;
  explicit Operand(const Ref<T> &x) : t(to_tensor(x)), sharer(t), r(x) {}
  void untouched(const char *what) { if (!bits_same(from_tensor(t), r) || !bits_same(from_tensor(sharer), r)) mc::fail(S("changed its argument: ") + what); }
};
