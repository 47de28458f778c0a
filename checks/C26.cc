// C26: maps and closures apply exactly what they wrap, as it was when they were made.
#include "ref.h"
#include <tensor/linalg.h>
#include <tensor/map.h>
#include <memory>
using namespace tensor;
typedef std::string S;
template <class T> static T val(int k) { return T(k); }
template <> cd val<cd>(int k) { return cd(k % 3 - 1, k / 3); }
// sum_j a(..., j) b(j, ...)
template <class T> static Ref<T> product(const Ref<T> &a, const Ref<T> &b) {
  Dims d(a.d.begin(), a.d.end() - 1); d.insert(d.end(), b.d.begin() + 1, b.d.end()); int k = b.d[0]; size_t rows = a.v.size() / std::max(k, 1), cols = b.v.size() / std::max(k, 1); if (!k) { rows = cols = 1; for (size_t i = 0; i + 1 < a.d.size(); i++) rows *= a.d[i]; for (size_t i = 1; i < b.d.size(); i++) cols *= b.d[i]; }
  Ref<T> r(d); for (size_t j = 0; j < cols; j++) for (size_t i = 0; i < rows; i++) { T s = T(0); for (int l = 0; l < k; l++) s += a.v[i + rows * l] * b.v[l + (size_t)k * j]; r.v[i + rows * j] = s; } return r;
}
template <class T> struct Wrap { typedef Tensor<T> type; static type make(const Ref<T> &r) { return to_tensor(r); } };
template <class T> struct WrapSp { typedef Sparse<T> type; static type make(const Ref<T> &r) { return Sparse<T>(to_tensor(r)); } };
template <class T> static void spoil(Tensor<T> &t) { for (size_t i = 0; i < t.size(); i++) t.at(i) = T(77); }
template <class T> static void spoil(Sparse<T> &t) { t = Sparse<T>(t.rows(), t.columns()); }
template <class W, class T> static void one_map(const Ref<T> &m, const char *who) {
  typedef typename W::type M;
  for (int tr = 0; tr < 2; tr++) {
    M mat = W::make(m);
    std::unique_ptr<Map<Tensor<T> > > f(new MatrixMap<M>(mat, tr)), g(tr ? 0 : new MatrixMap<M>(mat));
    const int in = tr ? m.d[0] : m.d[1];
    std::vector<Dims> args; args.push_back(Dims{in}); args.push_back(tr ? Dims{2, in} : Dims{in, 2}); args.push_back(tr ? Dims{2, 3, in} : Dims{in, 3, 2}); args.push_back(tr ? Dims{1, in} : Dims{in, 1});
    for (int round = 0; round < 2; round++) {
      for (auto &d : args) {
        Ref<T> x(d); for (size_t i = 0; i < x.v.size(); i++) x.v[i] = val<T>((int)(i * 5 + 2) % 7); Ref<T> want = tr ? product(x, m) : product(m, x);
        Tensor<T> t = to_tensor(x), keep(t), y, z; mc::transition(2); S how = mc::Str() << who << (tr ? " transposed" : "") << " map of " << mc::seq(m.d) << " on " << mc::seq(d) << (round ? " after the matrix changed" : "");
        if (mc::rejects([&] { y = (*f)(t); z = g.get() ? (*g)(t) : (*f)(t); })) { mc::fail(how + ": refused: " + mc::ending_message); return; }
        if (!equals(y, want) || !equals(z, want)) { mc::fail(how + ": " + mc::seq(from_tensor(y).d)); return; }
        if (!bits_same(from_tensor(t), x) || !bits_same(from_tensor(keep), x)) { mc::fail(how + ": changed its argument"); return; }
        mc::Hash h; h.add(m.d.size()); for (auto &v : m.v) h.add(v); h.add(d.size()); mc::state(h.h);
      }
      Tensor<T> bad(igen << (tensor::index)(in + 1)); bad.fill_with(T(1)); if (!mc::rejects([&] { (*f)(bad); })) { mc::fail(mc::Str() << who << " map of " << mc::seq(m.d) << (tr ? " transposed" : "") << " accepts a vector of " << in + 1); return; }
      // the map keeps the matrix it was given
      if (!round) { Ref<T> o(m.d); for (auto &v : o.v) v = T(99); mat = W::make(o); M copy = W::make(m); f.reset(new MatrixMap<M>(copy, tr)); g.reset(); spoil(copy); }
    }
  }
}
template <class T> static void maps(int r, int c, int base) {
  int n = r * c, inner = 0; long p = 1; while (inner < n && p * base <= 300) { inner++; p *= base; }
  mc::all_words(n - inner, base, [&](const std::vector<int> &head) { mc::run_case(DESC { return mc::Str() << (sizeof(T) > 8 ? "complex" : "real") << " matrices " << r << "x" << c << " ending in " << mc::seq(head); }, [&] {
    mc::group("matrix maps"); mc::nontrivial();
    mc::all_words(inner, base, [&](const std::vector<int> &w) { if (mc::failed()) return; Ref<T> m(Dims{r, c}); for (int i = 0; i < n; i++) m.v[i] = val<T>(i < inner ? w[i] : head[i - inner]); one_map<Wrap<T>, T>(m, "dense"); if (!mc::failed()) one_map<WrapSp<T>, T>(m, "sparse"); });
  }); });
}
// functions that tell their arguments apart
static double f1(double a, double b) { return a + 10 * b; }
static double f2(double a, double b, int c) { return a + 10 * b + 100 * c; }
static double f3(double a, int b, double c, long d) { return a + 10 * b + 100 * c + 1000 * d; }
static double f4(double a, double b, double c, double d, double e) { return a + 10 * b + 100 * c + 1000 * d + 10000 * e; }
static double f5(double a, double b, double c, double d, double e, double f) { return a + 10 * b + 100 * c + 1000 * d + 10000 * e + 100000 * f; }
template <class T> static const Tensor<T> t1(const Tensor<T> &x, const Tensor<T> &a) { return x * T(2) + a; }
template <class T> static const Tensor<T> t2(const Tensor<T> &x, const Tensor<T> &a, const T &s) { return x * s + a; }
template <class T> static const Tensor<T> t3(const Tensor<T> &x, const Tensor<T> &a, const Tensor<T> &b, T s) { return x * s + a - b * T(3); }
template <class T> static const Tensor<T> t4(const Tensor<T> &x, const Tensor<T> &a, const Tensor<T> &b, T s, int k) { return x * s + a - b * T(k); }
template <class T> static const Tensor<T> t5(const Tensor<T> &x, const Tensor<T> &a, const Tensor<T> &b, T s, int k, const S &w) { return x * s + a - b * T(k) + Tensor<T>::ones(x.dimensions()) * T((double)w.size()); }
static int calls; static double counting(double x, int *p) { calls++; ++*p; return x + *p; }
static void closures() {
  for (int n = 1; n <= 5; n++) mc::run_case(DESC { return mc::Str() << "closures of " << n << " numbers"; }, [&] {
    mc::group("closures"); mc::nontrivial();
    mc::all_words(n + 1, n < 4 ? 5 : 4, [&](const std::vector<int> &w) {
      if (mc::failed()) return; double v[6] = {}; for (int i = 0; i <= n; i++) v[i] = w[i] + 1; double want = 0, ten = 1; for (int i = 0; i <= n; i++, ten *= 10) want += ten * v[i];
      double got = 0, again = 0, copied = 0; mc::transition(3);
#define TRY(...) { auto c = with_args(__VA_ARGS__); for (int i = 1; i < 6; i++) v[i] = -5; got = c(v[0]); auto d = c; copied = d(v[0]); again = c(v[0]); }
      double b = v[1], c3 = v[3], d4 = v[4], e5 = v[5]; int i1 = (int)v[1], i2 = (int)v[2]; double x2 = v[2]; long l3 = (long)v[3];
      switch (n) { case 1: TRY(f1, b) break; case 2: TRY(f2, b, i2) break; case 3: TRY(f3, i1, x2, l3) break; case 4: TRY(f4, b, x2, c3, d4) break; default: TRY(f5, b, x2, c3, d4, e5) }
      if (got != want || again != want || copied != want) mc::fail(mc::Str() << "arguments " << mc::seq(w) << " give " << got << ", " << copied << ", " << again << " instead of " << want);
      mc::Hash h; h.add(n); for (int x : w) h.add(x); mc::state(h.h);
    });
  });
}
template <class T> static void tensors() {
  for (int n = 1; n <= 5; n++) for (int len = 0; len <= 4; len++) mc::run_case(DESC { return mc::Str() << "closures of " << n << (sizeof(T) > 8 ? " complex" : " real") << " tensors of " << len; }, [&] {
    mc::group("closures of tensors"); mc::nontrivial();
    for (int salt = 0; salt < 12 && !mc::failed(); salt++) {
      Ref<T> x(Dims{len}), a(Dims{len}), b(Dims{len}), want(Dims{len}); for (int i = 0; i < len; i++) { x.v[i] = val<T>((i + salt) % 7); a.v[i] = val<T>((3 * i + salt + 1) % 8); b.v[i] = val<T>((5 * i + 2 * salt) % 6); }
      T s = val<T>(salt % 5 + 1); int k = salt - 4; S w(salt, 'x');
      for (int i = 0; i < len; i++) want.v[i] = n == 1 ? x.v[i] * T(2) + a.v[i] : x.v[i] * s + a.v[i] - (n < 3 ? T(0) : b.v[i] * T(n == 3 ? 3 : k)) + (n == 5 ? T((double)w.size()) : T(0));
      Tensor<T> tx = to_tensor(x), ta = to_tensor(a), tb = to_tensor(b), y1, y2, y3; T ts(s); int tk = k; S tw(w); mc::transition(3);
      // called directly, through a map and after the arguments changed
#define THRICE(...) { auto c = with_args(__VA_ARGS__); y1 = c(tx); FunctionMap<decltype(c), Tensor<T> > f(c); const Map<Tensor<T> > &g = f; y2 = g(tx); spoil(ta); spoil(tb); ts = T(55); tk = 1000; tw = "changed"; y3 = g(tx); }
      bool rej = mc::rejects([&] { switch (n) { case 1: THRICE(t1<T>, ta) break; case 2: THRICE(t2<T>, ta, ts) break; case 3: THRICE(t3<T>, ta, tb, ts) break; case 4: THRICE(t4<T>, ta, tb, ts, tk) break; default: THRICE(t5<T>, ta, tb, ts, tk, tw) } });
      if (rej) mc::fail("refused"); else if (!equals(y1, want) || !equals(y2, want) || !equals(y3, want)) mc::fail(mc::Str() << "salt " << salt << ": another result (" << equals(y1, want) << equals(y2, want) << equals(y3, want) << ")");
      if (!bits_same(from_tensor(tx), x)) mc::fail("the argument changed");
    }
  });
}
void explore() {
  const bool Th = mc::thorough;
  for (int r = 1; r <= 3; r++) for (int c = 1; c <= 3; c++) { int n = r * c; int b = n <= 4 ? 5 : n <= 6 ? (Th ? 4 : 3) : (Th ? 3 : 2); maps<double>(r, c, b); maps<cd>(r, c, n <= 4 ? 6 : b); }
  for (auto d : std::vector<Dims>{{1, 7}, {7, 1}, {5, 6}, {8, 3}}) { maps<double>(d[0], d[1], 1); maps<cd>(d[0], d[1], 1); }
  for (int kind = 0; kind < 12; kind++) mc::run_case(DESC { return mc::Str() << "larger matrices " << kind; }, [&] { mc::group("matrix maps"); mc::nontrivial(); for (auto d : std::vector<Dims>{{5, 6}, {9, 4}, {1, 12}, {16, 16}, {4, 33}}) { Ref<double> m(d); Ref<cd> z(d); for (size_t i = 0; i < m.v.size(); i++) { int k = (int)(i * (kind + 3) + i / 4) % (kind + 2); m.v[i] = k == 1 ? 0 : k - 2; z.v[i] = k == 1 ? cd(0) : cd(k, 1 - k); } one_map<Wrap<double>, double>(m, "dense"); one_map<WrapSp<double>, double>(m, "sparse"); one_map<Wrap<cd>, cd>(z, "dense"); one_map<WrapSp<cd>, cd>(z, "sparse"); if (mc::failed()) return; } });
  closures(); tensors<double>(); tensors<cd>();
  mc::run_case(DESC { return S("the plain map and a function of its own state"); }, [&] {
    mc::group("closures"); mc::nontrivial(); Map<RTensor> id; RTensor x = RTensor::random(4); if (!bits_same(from_tensor(id(x)), from_tensor(x))) mc::fail("the plain map is not the identity");
    int n = 5; calls = 0; auto c = with_args(counting, &n); if (c(1.0) != 7 || c(1.0) != 8 || n != 7 || calls != 2) mc::fail("a pointer is not passed on, or a function is not called once per call");
  });
}
