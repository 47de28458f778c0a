#include "ref.h"
#include <algorithm>
#include <tensor/sparse.h>
#include <tensor/map.h>
using namespace tensor;
typedef std::vector<long> L;

// the documented layout is complete and consistent
template <class T> static std::string layout(const Sparse<T> &s) {
  L d = from_indices(s.priv_dims()), r = from_indices(s.priv_row_start()), c = from_indices(s.priv_column());
  mc::Str m; m << "dims " << mc::seq(d) << " row_start " << mc::seq(r) << " column " << mc::seq(c) << " data size " << s.priv_data().size();
  if (d.size() != 2 || d[0] < 0 || d[1] < 0) return "bad dimensions: " + (std::string)m;
  if (s.rows() != d[0] || s.columns() != d[1] || s.dimension(0) != d[0] || s.dimension(1) != d[1] || from_indices(s.dimensions()) != d) return "dimensions disagree: " + (std::string)m;
  if ((long)r.size() != d[0] + 1 || r[0] != 0) return "bad row pointers: " + (std::string)m;
  if (r.back() != (long)c.size() || (long)c.size() != (long)s.priv_data().size() || s.length() != (long)c.size()) return "sizes disagree: " + (std::string)m;
  for (long i = 0; i < d[0]; i++) {
    if (r[i] > r[i + 1]) return "row pointers not monotone: " + (std::string)m;
    for (long j = r[i]; j < r[i + 1]; j++) if (c[j] < 0 || c[j] >= d[1] || (j > r[i] && c[j] <= c[j - 1])) return "bad columns: " + (std::string)m;
  }
  if (s.is_empty() != (d[0] == 0 || d[1] == 0)) return "is_empty wrong: " + (std::string)m;
  return "";
}
template <class T> static Ref<T> dense_of(const Sparse<T> &s) {   // from the layout, without the library
  Ref<T> r(Dims{s.priv_dims()[0], s.priv_dims()[1]}, T(0));
  for (long i = 0; i < r.d[0]; i++) for (long j = s.priv_row_start()[i]; j < s.priv_row_start()[i + 1]; j++) r.v[i + r.d[0] * s.priv_column()[j]] = s.priv_data()[j];
  return r;
}
// s is canonical and is the matrix e
template <class T> static bool is(const Sparse<T> &s, const Ref<T> &e, const std::string &what) {
  mc::transition();
  std::string l = layout(s);
  if (!l.empty()) { mc::fail(what + ": " + l); return false; }
  Ref<T> g = dense_of(s);
  if (!same(g, e)) { mc::fail(what + ": got " + show(g) + " expected " + show(e)); return false; }
  mc::state(hash(e, 77));
  return true;
}
// no element of the arrays is spent on a zero: matrices which are equal compare equal
template <class T> static bool no_zeros(const Sparse<T> &s, const std::string &what) {
  for (tensor::index k = 0; k < s.length(); k++) if (s.priv_data()[k] == T(0)) { mc::fail(what + ": stores a zero, so that it does not compare equal to the same matrix built otherwise"); return false; }
  return true;
}
template <class T> static T pickv(long k, int salt);
template <> double pickv<double>(long k, int salt) { return (k * 7 + salt * 3) % 11 - 5 == 0 ? 6 : (k * 7 + salt * 3) % 11 - 5; }
template <> cd pickv<cd>(long k, int salt) { return cd(pickv<double>(k, salt), (k + salt) % 3 - 1); }
template <class T> static Ref<T> pattern(long r, long c, unsigned long bits, int salt) {
  Ref<T> e(Dims{r, c}, T(0)); for (long k = 0; k < r * c; k++) if (bits >> k & 1) e.v[k] = pickv<T>(k, salt); return e;
}
// hand-built sparse matrix (internal representation constructor), optionally with
// explicitly stored zeros
template <class T> static Sparse<T> build(const Ref<T> &e, unsigned long stored = 0) {
  L rs(1, 0), co; std::vector<T> da;
  for (long i = 0; i < e.d[0]; i++) { for (long j = 0; j < e.d[1]; j++) { long k = i + e.d[0] * j; if (e.v[k] != T(0) || (k < 64 && (stored >> k & 1))) { co.push_back(j); da.push_back(e.v[k]); } } rs.push_back(co.size()); }
  Tensor<T> data((tensor::index)da.size()); std::copy(da.begin(), da.end(), data.begin());
  return Sparse<T>(to_indices(e.d), to_indices(rs), to_indices(co), data);
}
template <class T> static Ref<T> transposed(const Ref<T> &a) { Ref<T> e(Dims{a.d[1], a.d[0]}); for (long i = 0; i < a.d[0]; i++) for (long j = 0; j < a.d[1]; j++) e.v[j + a.d[1] * i] = a.v[i + a.d[0] * j]; return e; }
static double cj(double x) { return x; }
static cd cj(const cd &x) { return std::conj(x); }
template <class T> static Ref<T> conjd(Ref<T> a) { for (auto &x : a.v) x = cj(x); return a; }
template <class T> static Ref<T> ref_kron(const Ref<T> &a, const Ref<T> &b) {
  Ref<T> e(Dims{a.d[0] * b.d[0], a.d[1] * b.d[1]});
  for (long i = 0; i < a.d[0]; i++) for (long j = 0; j < a.d[1]; j++) for (long k = 0; k < b.d[0]; k++) for (long l = 0; l < b.d[1]; l++)
    e.v[i * b.d[0] + k + e.d[0] * (j * b.d[1] + l)] = a.v[i + a.d[0] * j] * b.v[k + b.d[0] * l];
  return e;
}
template <class T> static Ref<T> ref_eye(long r, long c) { Ref<T> e(Dims{r, c}, T(0)); for (long i = 0; i < std::min(r, c); i++) e.v[i + r * i] = 1; return e; }
template <class T> static Ref<T> addr(const Ref<T> &a, const Ref<T> &b) { Ref<T> e = a; for (size_t i = 0; i < e.v.size(); i++) e.v[i] += b.v[i]; return e; }
static Ref<cd> to_c(const Ref<double> &a) { Ref<cd> e(a.d); for (size_t i = 0; i < a.v.size(); i++) e.v[i] = a.v[i]; return e; }
static Ref<cd> to_c(const Ref<cd> &a) { return a; }
// matrices with few rows and billions of columns, kept as a list of their elements
#include <map>
template <class T> struct Wide { long R, C; std::map<std::pair<long, long>, T> v; };
template <class T> static bool is(const Sparse<T> &s, const Wide<T> &e, const std::string &what) {
  mc::transition(); std::string l = layout(s); if (!l.empty()) { mc::fail(what + ": " + l); return false; }
  std::map<std::pair<long, long>, T> g; for (long i = 0; i < s.rows(); i++) for (long j = s.priv_row_start()[i]; j < s.priv_row_start()[i + 1]; j++) if (s.priv_data()[j] != T(0)) g[{i, s.priv_column()[j]}] = s.priv_data()[j];
  std::map<std::pair<long, long>, T> w; for (auto &x : e.v) if (x.second != T(0)) w[x.first] = x.second;
  if (s.rows() != e.R || s.columns() != e.C || g != w) { mc::Str m; m << what << ": " << s.rows() << "x" << s.columns(); for (auto &x : g) m << " (" << x.first.first << "," << x.first.second << ")=" << x.second; m << " instead of " << e.R << "x" << e.C; for (auto &x : w) m << " (" << x.first.first << "," << x.first.second << ")=" << x.second; mc::fail(m); return false; }
  return true;
}
template <class T> static Sparse<T> build(const Wide<T> &e) {
  L rs(1, 0), co; std::vector<T> da; long i = 0;
  for (auto &x : e.v) { while (i < x.first.first) { rs.push_back(co.size()); i++; } co.push_back(x.first.second); da.push_back(x.second); }
  while (i < e.R) { rs.push_back(co.size()); i++; }
  Tensor<T> data((tensor::index)da.size()); std::copy(da.begin(), da.end(), data.begin());
  return Sparse<T>(to_indices(Dims{e.R, e.C}), to_indices(rs), to_indices(co), data);
}
// columns around every position where a narrower integer would wrap
static L wide_columns(long C) { L c; for (long x : {0L, 1L, 5L, (1L << 31) - 1, 1L << 31, (1L << 31) + 5, (1L << 32) - 1, 1L << 32, (1L << 32) + 1, (1L << 32) + 5, C / 2, C - 2, C - 1}) if (x >= 0 && x < C) c.push_back(x); std::sort(c.begin(), c.end()); c.erase(std::unique(c.begin(), c.end()), c.end()); return c; }
template <class T> static Wide<T> wide_pattern(long R, long C, int salt) { Wide<T> e{R, C, {}}; L c = wide_columns(C); for (long i = 0; i < R; i++) for (size_t k = 0; k < c.size(); k++) if (((i * 5 + k * 3 + salt * 7 + k * k) % 4) != 0) e.v[{i, c[k]}] = pickv<T>(i + 3 * k, salt); return e; }
