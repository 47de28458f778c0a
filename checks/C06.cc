// C06: diagonals, traces, scalings, Kronecker products and sums, constant tensors.
#include "ref.h"
using namespace tensor;

template <class T> static T gen(long k, int salt);
template <> double gen<double>(long k, int salt) { return (double)((k * k * 7 + k * 13 + salt * 31 + 5) % 97) - 40; }
template <> cd gen<cd>(long k, int salt) { return cd(gen<double>(k, salt), gen<double>(k + 3, salt + 11)); }
template <class T> static Ref<T> generic(const Dims &d, int salt) { Ref<T> r(d); for (size_t i = 0; i < r.v.size(); i++) r.v[i] = gen<T>(i, salt); return r; }

enum Want { OK, REJECT, EITHER };
template <class T, class F> static void op(const std::string &name, Want w, const Ref<T> &e, F f) {
  if (mc::failed()) return;
  Tensor<T> got; mc::transition();
  bool rej = mc::rejects([&] { got = f(); });
  if (w == REJECT) { if (!rej) mc::fail(name + " accepted, gave " + show(got)); return; }
  if (rej) { if (w == OK) mc::fail(name + " rejected: " + mc::ending_message); return; }
  if (!equals(got, e)) mc::fail(name + ": got " + show(got) + " expected " + show(e));
  if (e.v.size()) mc::nontrivial();
  mc::Hash h; h.str(name); h.add(hash(e)); mc::state(h.h);
}
template <class T> static void unchanged(const Tensor<T> &t, const Ref<T> &r) { if (!equals(t, r)) mc::fail("an argument was changed: " + show(t)); }

// numbers for which x*0, x-x or x==x is not what it is for the others; one set of
// values per salt, every pair of them meets in the products
static const double special_values[] = {0.0, 1.0, HUGE_VAL, -2.0, NAN, -0.0, -HUGE_VAL, 1e200, -1.0, 5e-324};
static Ref<double> special(const Dims &d, int salt) { Ref<double> r(d); for (size_t i = 0; i < r.v.size(); i++) r.v[i] = special_values[(i + salt) % 10]; return r; }
// one value that is not a number among finite ones: it may reach the elements it belongs to only
template <class T> static Ref<T> one_nan(const Dims &d, size_t at, double x) { Ref<T> r = generic<T>(d, 2); r.v[at] = T(x); return r; }
// ------------------------------------------------------------------ diag
template <class T> static void diag_cases() {
  bool th = mc::thorough;
  for (long n = 0; n <= (th ? 8 : 6); n++)
    mc::run_case(DESC { return mc::Str() << tname<T>() << " diag of a vector of length " << n; }, [&] {
      Ref<T> r = generic<T>({n}, 1); Tensor<T> t = to_tensor(r), held(t);
      mc::note_trace();
      for (long w = -5; w <= 5; w++) {
        long m = n + std::labs(w);
        Ref<T> e(Dims{m, m}, T(0));
        for (long i = 0; i < n; i++) e({i + (w < 0 ? -w : 0), i + (w > 0 ? w : 0)}) = r.v[i];
        op(mc::Str() << "diag(v" << n << "," << w << ")", OK, e, [&] { return diag(t, w); });
        if (w == 0) op(mc::Str() << "diag(v" << n << ")", OK, e, [&] { return diag(t); });
        for (long rows = 0; rows <= 9; rows++) for (long cols = 0; cols <= 9; cols++) {
          long r0 = w < 0 ? -w : 0, c0 = w > 0 ? w : 0, l = std::min(rows - r0, cols - c0);
          Ref<T> x(Dims{rows, cols}, T(0));
          bool ok = l == n;
          if (ok) for (long i = 0; i < n; i++) x({i + r0, i + c0}) = r.v[i];
          op(mc::Str() << "diag(v" << n << "," << w << "," << rows << "," << cols << ")", ok ? OK : REJECT, x, [&] { return diag(t, w, rows, cols); });
        }
      }
      unchanged(t, r); unchanged(held, r);
    });
}
// ------------------------------------------------------------------ take_diag, trace, scale
// diagonal A(..i..i+w..): the index with the smaller number is kept
template <class T> static Ref<T> ref_take(const Ref<T> &a, long w, long n1, long n2) {
  long d1 = a.d[n1], d2 = a.d[n2], lo = std::max(0L, -w), hi = std::min(d1, d2 - w), len = std::max(0L, hi - lo);
  long keep = std::min(n1, n2), drop = std::max(n1, n2);
  Dims d; for (long k = 0; k < (long)a.d.size(); k++) if (k == keep) d.push_back(len); else if (k != drop) d.push_back(a.d[k]);
  Ref<T> r(d);
  each_index(d, [&](const Dims &i) {
    Dims j; size_t q = 0;
    for (long k = 0; k < (long)a.d.size(); k++) j.push_back(k == drop ? 0 : i[q++]);
    long l = i[keep];
    j[n1] = lo + l; j[n2] = lo + l + w;
    r(i) = a(j);
  });
  return r;
}
template <class T> static Ref<T> ref_trace(const Ref<T> &a, long n1, long n2) {
  Dims d; for (long k = 0; k < (long)a.d.size(); k++) if (k != n1 && k != n2) d.push_back(a.d[k]);
  if (d.empty()) d.push_back(1);
  Ref<T> r(d, T(0));
  each_index(a.d, [&](const Dims &i) {
    if (i[n1] != i[n2]) return;
    Dims j; for (long k = 0; k < (long)a.d.size(); k++) if (k != n1 && k != n2) j.push_back(i[k]);
    if (j.empty()) j.push_back(0);
    r(j) += a(i);
  });
  return r;
}
template <class T, class V> static void scale_ops(const Dims &d) {
  long n = d.size();
  Ref<T> r = generic<T>(d, 3); Tensor<T> t = to_tensor(r), held(t);
  for (long k = -n - 1; k <= n; k++) for (long len : {k >= -n && k < n ? d[(k + n) % n] : 2L, (k >= -n && k < n ? d[(k + n) % n] : 2L) + 1, 0L, 1L}) {
    bool ok = k >= -n && k < n && d[(k + n) % n] == len;
    Ref<V> v = generic<V>({len}, 8); Tensor<V> vt = to_tensor(v), vheld(vt);
    Ref<T> e(r);
    if (ok) each_index(d, [&](const Dims &i) { e(i) = r(i) * v.v[i[(k + n) % n]]; });
    std::string a = mc::Str() << "(" << tname<T>() << mc::seq(d) << "," << k << "," << tname<V>() << "[" << len << "])";
    op("scale" + a, ok ? OK : REJECT, e, [&] { return scale(t, k, vt); });
    unchanged(t, r);
    op("scale_inplace" + a, ok ? OK : REJECT, e, [&] { Tensor<T> x(t); scale_inplace(x, k, vt); return x; });
    op("scale_inplace (unshared)" + a, ok ? OK : REJECT, e, [&] { Tensor<T> x(to_tensor(r)); scale_inplace(x, k, vt); return x; });
    unchanged(t, r); unchanged(held, r); unchanged(vt, v); unchanged(vheld, v);
  }
}
template <class T> static void self_scale(const Dims &d) {
  Ref<T> r = generic<T>(d, 3), e(r); for (auto &x : e.v) x = x * x;
  if (d.size() != 1) return;
  Tensor<T> t = to_tensor(r);
  op("scale(v,0,v)", OK, e, [&] { return scale(t, 0, t); });
  op("scale_inplace(v,0,v)", OK, e, [&] { Tensor<T> x(to_tensor(r)); scale_inplace(x, 0, x); return x; });
  op("scale_inplace(v,0,copy of v)", OK, e, [&] { Tensor<T> x(t); scale_inplace(x, 0, t); return x; });
  unchanged(t, r);
}
static void special_scale() {
  mc::run_case(DESC { return std::string("scale of and by zeros, infinities and NaN"); }, [&] {
    for (const Dims &d : {Dims{10}, Dims{10, 3}, Dims{3, 10}, Dims{1, 10, 1}, Dims{2, 10, 3}, Dims{10, 10}})
      for (size_t k = 0; k < d.size(); k++) if (d[k] == 10) for (int p = 0; p < 10; p++) for (int q = 0; q < 2; q++) {
        Ref<double> r = special(d, q), v = special({10}, p), e(d); RTensor t = to_tensor(r), vt = to_tensor(v);
        each_index(d, [&](const Dims &i) { e(i) = r(i) * v.v[i[k]]; });
        std::string a = mc::Str() << "(special values " << mc::seq(d) << "," << k << ",rotated by " << p << ")";
        op("scale" + a, OK, e, [&] { return scale(t, k, vt); });
        op("scale_inplace" + a, OK, e, [&] { RTensor x(t); scale_inplace(x, k, vt); return x; });
        unchanged(t, r); unchanged(vt, v);
        for (double nan : {(double)NAN, HUGE_VAL}) for (long at : {0L, (long)r.v.size() - 1, 4L}) {
          Ref<cd> z = one_nan<cd>(d, at, nan), w = one_nan<cd>({10}, (at + p) % 10, NAN), f(d), g(d), one = generic<cd>({10}, 1); w.v[(p + 3) % 10] = cd(0, 0); one.v[p] = cd(0, 0);
          each_index(d, [&](const Dims &i) { f(i) = z(i) * w.v[i[k]]; g(i) = z(i) * one.v[i[k]]; });
          op("complex scale" + a, OK, f, [&] { return scale(to_tensor(z), k, to_tensor(w)); });
          op("complex scale" + a, OK, g, [&] { return scale(to_tensor(z), k, to_tensor(one)); });
          op("complex scale_inplace" + a, OK, f, [&] { CTensor x(to_tensor(z)); scale_inplace(x, k, to_tensor(w)); return x; });
          op("complex scale_inplace" + a, OK, g, [&] { CTensor x(to_tensor(z)); scale_inplace(x, k, to_tensor(one)); return x; });
        }
      }
  });
}
template <class T> static void basis_of(const Ref<T> &g, const std::function<void(const Ref<T> &)> &f) {
  f(g);
  if (g.v.size() > 32) return;
  for (size_t k = 0; k < g.v.size(); k++) { Ref<T> e(g.d, T(0)); e.v[k] = g.v[k] == T(0) ? T(1) : g.v[k]; f(e); }
  for (size_t k = 0; k < g.v.size() && g.v.size() <= 16; k++) { Ref<T> e(g); e.v[k] = T(k % 2 ? (double)NAN : HUGE_VAL); f(e); }
}
template <class T> static void shape_case(const Dims &d) {
  mc::run_case(DESC { return mc::Str() << tname<T>() << " take_diag/trace/scale on dims " << mc::seq(d); }, [&] {
    long n = d.size(); mc::note_trace();
    std::function<void(const Ref<T> &)> f = [&](const Ref<T> &r) {
      Tensor<T> t = to_tensor(r), held(t);
      for (long a = -n - 1; a <= n; a++) for (long b = -n - 1; b <= n; b++) {
        bool ok = a >= -n && a < n && b >= -n && b < n;
        long p = (a + n) % n, q = (b + n) % n;
        if (ok && p == q) {
          op(mc::Str() << "trace(" << mc::seq(d) << "," << a << "," << b << ")", REJECT, r, [&] { return trace(t, a, b); });
          continue;
        }
        std::string s = mc::Str() << mc::seq(d) << "," << a << "," << b << ")";
        op("trace(" + s, ok ? OK : REJECT, ok ? ref_trace(r, p, q) : r, [&] { return trace(t, (tensor::index)a, (tensor::index)b); });
        if (!ok) { op("take_diag(0," + s, REJECT, r, [&] { return take_diag(t, 0, a, b); }); continue; }
        for (long w = -d[p] - 1; w <= d[q] + 1; w++) {
          if (total(d) > 1500 && d[p] + d[q] > 100 && std::abs(w) > 1 && w > -d[p] + 2 && w < d[q] - 2 && w % 257 && w % 512) continue;
          Ref<T> e = ref_take(r, w, p, q);
          bool in = w > -d[p] && w < d[q];
          // an offset outside the matrix is rejected; where the diagonal index is
          // empty both answers are sensible
          op(mc::Str() << "take_diag(" << w << "," << s, in ? OK : (d[p] == 0 || d[q] == 0) ? EITHER : REJECT, e, [&] { return take_diag(t, w, a, b); });
          if (in && p == 0 && q == n - 1) op(mc::Str() << "take_diag(" << w << "," << mc::seq(d), OK, e, [&] { return take_diag(t, w); });
          if (in) { Tensor<T> m(t); op(mc::Str() << "diag of a tensor (" << w << "," << s, OK, e, [&] { return m.diag(w, a, b); }); if (p == 0 && q == n - 1) op(mc::Str() << "diag of a tensor (" << w, OK, e, [&] { return m.diag(w); }); if (w == 0 && p == 0 && q == n - 1) op("diag of a tensor", OK, e, [&] { return m.diag(); }); }
          if (in && w == 0 && p == 0 && q == n - 1) op("take_diag(" + mc::seq(d), OK, e, [&] { return take_diag(t); });
        }
      }
      if (n == 2) {
        Ref<T> e = ref_trace(r, 0, 1);
        op("matrix trace" + mc::seq(d), OK, e, [&] { Tensor<T> x(1); x.at(0) = trace(t); return x; });
      } else mc::check(mc::rejects([&] { trace(t); }), "matrix trace of a tensor that is not a matrix accepted");
      unchanged(t, r); unchanged(held, r);
    };
    basis_of<T>(generic<T>(d, 1), f);
    scale_ops<T, T>(d);
    self_scale<T>(d);
  });
}
static void mixed_scale(const Dims &d) { mc::run_case(DESC { return "complex scale by real on dims " + mc::seq(d); }, [&] { scale_ops<cd, double>(d); }); }

// ------------------------------------------------------------------ kron
template <class T> static Ref<T> eye(long r, long c) { Ref<T> e(Dims{r, c}, T(0)); for (long i = 0; i < std::min(r, c); i++) e({i, i}) = T(1); return e; }
// Matlab order: the second factor's index runs faster
template <class T> static Ref<T> ref_kron(const Ref<T> &a, const Ref<T> &b) {
  Dims d; for (size_t k = 0; k < a.d.size(); k++) d.push_back(a.d[k] * b.d[k]);
  Ref<T> c(d, T(0));
  each_index(a.d, [&](const Dims &i) { each_index(b.d, [&](const Dims &j) {
    Dims k; for (size_t q = 0; q < i.size(); q++) k.push_back(i[q] * b.d[q] + j[q]);
    c(k) = a(i) * b(j); }); });
  return c;
}
template <class T> static Ref<T> ref_kron_sum(const Ref<T> &a, const Ref<T> &b) {
  Ref<T> ia, ib;
  if (a.d.size() == 1) { ia = Ref<T>(a.d, T(1)); ib = Ref<T>(b.d, T(1)); }
  else { ia = eye<T>(a.d[0], a.d[1]); ib = eye<T>(b.d[0], b.d[1]); }
  Ref<T> x = ref_kron(ia, b), y = ref_kron(a, ib);
  for (size_t i = 0; i < x.v.size(); i++) x.v[i] += y.v[i];
  return x;
}
template <class T> static void kron_case(const Dims &da, const Dims &db, bool basis) {
  mc::run_case(DESC { return mc::Str() << tname<T>() << " kron of dims " << mc::seq(da) << " and " << mc::seq(db); }, [&] {
    mc::note_trace();
    auto pair = [&](const Ref<T> &ra, const Ref<T> &rb) {
      Tensor<T> a = to_tensor(ra), b = to_tensor(rb);
      std::string s = mc::seq(da) + mc::seq(db);
      if (da.size() != db.size() || da.size() > 2) {
        op("kron" + s, REJECT, ra, [&] { return kron(a, b); });
        op("kron2" + s, REJECT, ra, [&] { return kron2(a, b); });
        op("kron2_sum" + s, REJECT, ra, [&] { return kron2_sum(a, b); });
        return;
      }
      op("kron" + s, OK, ref_kron(ra, rb), [&] { return kron(a, b); });
      op("kron2" + s, OK, ref_kron(rb, ra), [&] { return kron2(a, b); });
      op("kron2_sum" + s, OK, ref_kron_sum(ra, rb), [&] { return kron2_sum(a, b); });
      if (da == db) op("kron of a tensor with itself" + s, OK, ref_kron(ra, ra), [&] { return kron(a, a); });
      unchanged(a, ra); unchanged(b, rb);
    };
    Ref<T> a = generic<T>(da, 2), b = generic<T>(db, 4);
    pair(a, b);
    if (basis && total(da) * total(db) <= 81)
      for (long i = 0; i < total(da); i++) for (long j = 0; j < total(db); j++) {
        Ref<T> x(da, T(0)), y(db, T(0)); x.v[i] = gen<T>(i, 2); y.v[j] = gen<T>(j, 6); pair(x, y);
      }
  });
}
static void special_kron() {
  mc::run_case(DESC { return std::string("kron of zeros, infinities and NaN"); }, [&] {
    for (const Dims &da : {Dims{10}, Dims{2, 5}, Dims{10, 1}, Dims{1, 10}}) for (const Dims &db : {Dims{10}, Dims{5, 2}, Dims{10, 1}, Dims{1, 10}})
      if (da.size() == db.size()) for (int p = 0; p < 10; p++) {
        Ref<double> a = special(da, 0), b = special(db, p); RTensor x = to_tensor(a), y = to_tensor(b);
        op("kron of special values", OK, ref_kron(a, b), [&] { return kron(x, y); });
        op("kron2 of special values", OK, ref_kron(b, a), [&] { return kron2(x, y); });
        unchanged(x, a); unchanged(y, b);
        Ref<cd> z = one_nan<cd>(da, p, p % 2 ? (double)NAN : HUGE_VAL), w = generic<cd>(db, 1); w.v[(p + 3) % 10] = cd(0, 0);
        op("complex kron of special values", OK, ref_kron(z, w), [&] { return kron(to_tensor(z), to_tensor(w)); });
        op("complex kron of special values", OK, ref_kron(w, z), [&] { return kron(to_tensor(w), to_tensor(z)); });
        op("complex kron2 of special values", OK, ref_kron(w, z), [&] { return kron2(to_tensor(z), to_tensor(w)); });
      }
  });
}
// ------------------------------------------------------------------ constants
template <class T> static void constants() {
  mc::run_case(DESC { return std::string(tname<T>()) + " constant tensors"; }, [&] {
    for (long r = 0; r <= 5; r++) {
      op("eye", OK, eye<T>(r, r), [&] { return Tensor<T>::eye(r); });
      op("zeros", OK, Ref<T>(Dims{r, r}, T(0)), [&] { return Tensor<T>::zeros(r); });
      op("ones", OK, Ref<T>(Dims{r, r}, T(1)), [&] { return Tensor<T>::ones(r); });
      for (long c = 0; c <= 5; c++) {
        op("eye", OK, eye<T>(r, c), [&] { return Tensor<T>::eye(r, c); });
        op("zeros", OK, Ref<T>(Dims{r, c}, T(0)), [&] { return Tensor<T>::zeros(r, c); });
        op("ones", OK, Ref<T>(Dims{r, c}, T(1)), [&] { return Tensor<T>::ones(r, c); });
      }
    }
    for (int rank = 1; rank <= 6; rank++) each_shape(rank, 0, rank > 4 ? 2 : 3, [&](const Dims &d) {
      Ref<T> z(d, T(0)), o(d, T(1));
      op("zeros(dims)", OK, z, [&] { return Tensor<T>::zeros(to_indices(d)); });
      op("ones(dims)", OK, o, [&] { return Tensor<T>::ones(to_indices(d)); });
      op("fill_with", OK, Ref<T>(d, gen<T>(3, 1)), [&] { Tensor<T> t(to_indices(d)); t.fill_with(gen<T>(3, 1)); return t; });
      op("fill_with_zeros over shared storage", OK, z, [&] { Tensor<T> t(to_tensor(o)), u(t); t.fill_with_zeros(); unchanged(u, o); return t; });
      switch (rank) {
        case 3: op("zeros3", OK, z, [&] { return Tensor<T>::zeros(d[0], d[1], d[2]); }); op("ones3", OK, o, [&] { return Tensor<T>::ones(d[0], d[1], d[2]); }); break;
        case 4: op("zeros4", OK, z, [&] { return Tensor<T>::zeros(d[0], d[1], d[2], d[3]); }); op("ones4", OK, o, [&] { return Tensor<T>::ones(d[0], d[1], d[2], d[3]); }); break;
        case 5: op("zeros5", OK, z, [&] { return Tensor<T>::zeros(d[0], d[1], d[2], d[3], d[4]); }); op("ones5", OK, o, [&] { return Tensor<T>::ones(d[0], d[1], d[2], d[3], d[4]); }); break;
        case 6: op("zeros6", OK, z, [&] { return Tensor<T>::zeros(d[0], d[1], d[2], d[3], d[4], d[5]); }); op("ones6", OK, o, [&] { return Tensor<T>::ones(d[0], d[1], d[2], d[3], d[4], d[5]); }); break;
      }
    });
  });
}

template <class T> static void all() {
  bool th = mc::thorough;
  diag_cases<T>();
  constants<T>();
  std::vector<Dims> s;
  each_shape(1, 0, 5, [&](const Dims &d) { s.push_back(d); });
  each_shape(2, 0, th ? 6 : 5, [&](const Dims &d) { s.push_back(d); });
  each_shape(3, 0, th ? 4 : 3, [&](const Dims &d) { s.push_back(d); });
  each_shape(4, 0, th ? 3 : 2, [&](const Dims &d) { s.push_back(d); });
  for (Dims d : {Dims{2, 3, 4, 3}, Dims{4, 3, 2, 3}, Dims{3, 1, 3, 2}, Dims{2, 3, 2, 3, 2}, Dims{1, 2, 3, 2, 1, 3}, Dims{17, 33}, Dims{33, 17}, Dims{9, 40, 3}, Dims{3, 9, 40}, Dims{40, 3, 9}, Dims{70, 2}, Dims{300}, Dims{2, 2, 2, 2, 2, 2}, Dims{1025, 3}, Dims{3, 1025}, Dims{65, 130, 3}, Dims{130, 131}, Dims{4099}, Dims{2, 300, 2, 5}, Dims{65539, 3}, Dims{3, 65539}, Dims{65539, 2, 2}, Dims{2, 65539, 2}, Dims{1031, 513}}) s.push_back(d);
  for (auto &d : s) { shape_case<T>(d); if (sizeof(T) > 8) mixed_scale(d); }
  std::vector<Dims> k;
  each_shape(1, 0, 4, [&](const Dims &d) { k.push_back(d); });
  each_shape(2, 0, 3, [&](const Dims &d) { k.push_back(d); });
  k.push_back({1, 2, 2});
  for (auto &a : k) for (auto &b : k) kron_case<T>(a, b, true);
  std::vector<Dims> l = {{4, 7}, {7, 4}, {1, 9}, {9, 1}, {5, 5}, {17, 2}, {2, 17}, {33, 1}};
  for (auto &a : l) for (auto &b : l) kron_case<T>(a, b, false);
  kron_case<T>({17}, {9}, false); kron_case<T>({300}, {70}, false); kron_case<T>({3}, {1030}, false); kron_case<T>({70, 3}, {5, 66}, false); kron_case<T>({3, 70}, {66, 5}, false); kron_case<T>({1, 300}, {300, 1}, false); kron_case<T>({1031}, {1033}, false); kron_case<T>({65539}, {3}, false); kron_case<T>({3, 65539}, {2, 2}, false); kron_case<T>({2, 3}, {65539, 1}, false);
}
void explore() { special_scale(); special_kron(); all<double>(); all<cd>(); }
