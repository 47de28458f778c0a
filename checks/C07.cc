// C07: element-wise arithmetic and functions against scalar arithmetic.
#include "ref.h"
using namespace tensor;

template <class A, class B> struct Mix { typedef cd type; };
template <> struct Mix<double, double> { typedef double type; };

template <class T> static T gen(long k, int salt);
template <> double gen<double>(long k, int salt) { return ((double)((k * k * 7 + k * 13 + salt * 31 + 5) % 97) - 40.5) / 3; }
template <> cd gen<cd>(long k, int salt) { return cd(gen<double>(k, salt), gen<double>(k + 3, salt + 11)); }
template <class T> static Ref<T> generic(const Dims &d, int salt) { Ref<T> r(d); for (size_t i = 0; i < r.v.size(); i++) r.v[i] = gen<T>(i, salt); return r; }

#define EACH_OP(X) X(+, "plus") X(-, "minus") X(*, "times") X(/, "divided")

template <class T> static bool verify(const std::string &name, bool rej, const Tensor<T> &got, const Ref<T> &e) {
  mc::transition();
  if (rej) { mc::fail(name + " rejected: " + mc::ending_message); return false; }
  if (!equals(got, e)) { mc::fail(name + ": got " + show(got) + " expected " + show(e)); return false; }
  if (sizeof(T) == sizeof(double)) { const T *g = got.begin_const(); for (size_t i = 0; i < e.v.size(); i++)   // real zeros have a defined sign
    if (e.v[i] == T(0) && std::signbit(std::real(g[i])) != std::signbit(std::real(e.v[i]))) { mc::fail(name + ": the zero at " + std::to_string(i) + " has the wrong sign, in " + show(got) + " expected " + show(e)); return false; } }
  mc::Hash h; h.str(name); h.add(hash(e)); mc::state(h.h);
  return true;
}
template <class A, class B> static std::string opname(const char *s, const char *form, const Dims &d) {
  return mc::Str() << form << " " << s << " of " << tname<A>() << " and " << tname<B>() << ", dims " << mc::seq(d);
}

// out-of-place: tensor-tensor, tensor-number, number-tensor
template <class A, class B> static void binary(const Ref<A> &ra, const Ref<B> &rb) {
  typedef typename Mix<A, B>::type T;
  Tensor<A> a = to_tensor(ra), ha(a); Tensor<B> b = to_tensor(rb), hb(b);
  size_t n = ra.v.size();
  if (n) mc::nontrivial();
#define X(OP, NAME) { \
    Ref<T> e(ra.d); for (size_t i = 0; i < n; i++) e.v[i] = ra.v[i] OP rb.v[i]; \
    Tensor<T> c; bool rej = mc::rejects([&] { c = a OP b; }); \
    if (!verify(opname<A, B>(NAME, "tensor-tensor", ra.d), rej, c, e)) return; }
  EACH_OP(X)
#undef X
  if (!equals(a, ra) || !equals(b, rb) || !equals(ha, ra) || !equals(hb, rb)) mc::fail("an operand was changed");
}
template <class A, class B> static void with_number(const Ref<A> &ra, const B &y) {
  typedef typename Mix<A, B>::type T;
  Tensor<A> a = to_tensor(ra), ha(a);
  size_t n = ra.v.size();
#define X(OP, NAME) { \
    Ref<T> e(ra.d), f(ra.d); for (size_t i = 0; i < n; i++) { e.v[i] = ra.v[i] OP y; f.v[i] = y OP ra.v[i]; } \
    Tensor<T> c, d; bool r1 = mc::rejects([&] { c = a OP y; }), r2 = mc::rejects([&] { d = y OP a; }); \
    if (!verify(opname<A, B>(NAME, "tensor-number", ra.d), r1, c, e) || !verify(opname<A, B>(NAME, "number-tensor", ra.d), r2, d, f)) return; }
  EACH_OP(X)
#undef X
  if (!equals(a, ra) || !equals(ha, ra)) mc::fail("an operand was changed");
}
// in place, shared and unshared target
template <class A, class B> static void in_place(const Ref<A> &ra, const Ref<B> &rb) {
  Tensor<A> ha = to_tensor(ra); Tensor<B> b = to_tensor(rb), hb(b);
  size_t n = ra.v.size();
#define X(OP, NAME) { \
    Ref<A> e(ra.d); for (size_t i = 0; i < n; i++) e.v[i] = ra.v[i] OP rb.v[i]; \
    Tensor<A> c(ha), d(to_tensor(ra)); bool r1 = mc::rejects([&] { c OP##= b; }), r2 = mc::rejects([&] { d OP##= b; }); \
    if (!verify(opname<A, B>(NAME, "in-place (shared)", ra.d), r1, c, e) || !verify(opname<A, B>(NAME, "in-place", ra.d), r2, d, e)) return; \
    if (!equals(ha, ra) || !equals(b, rb) || !equals(hb, rb)) { mc::fail("in-place operator changed another tensor"); return; } }
  EACH_OP(X)
#undef X
}
template <class A, class B> static void in_place_number(const Ref<A> &ra, const B &y) {
  Tensor<A> ha = to_tensor(ra);
  size_t n = ra.v.size();
#define X(OP, NAME) { \
    Ref<A> e(ra.d); for (size_t i = 0; i < n; i++) e.v[i] = ra.v[i] OP y; \
    Tensor<A> c(ha), d(to_tensor(ra)); bool r1 = mc::rejects([&] { c OP##= y; }), r2 = mc::rejects([&] { d OP##= y; }); \
    if (!verify(opname<A, B>(NAME, "in-place number (shared)", ra.d), r1, c, e) || !verify(opname<A, B>(NAME, "in-place number", ra.d), r2, d, e)) return; \
    if (!equals(ha, ra)) { mc::fail("in-place operator changed another tensor"); return; } }
  EACH_OP(X)
#undef X
}
template <class T> static void alias(const Ref<T> &r) {
  size_t n = r.v.size();
#define X(OP, NAME) { \
    Ref<T> e(r.d); for (size_t i = 0; i < n; i++) e.v[i] = r.v[i] OP r.v[i]; \
    for (int mode = 0; mode < 6; mode++) { \
      Tensor<T> a = to_tensor(r), keep; if (mode & 1) keep = a; \
      Tensor<T> c; bool rej = mc::rejects([&] { \
        if (mode < 2) c = a OP a; else if (mode < 4) { a OP##= a; c = a; } else { Tensor<T> s(a); a OP##= s; c = a; if (!equals(s, r)) mc::fail("copy used as operand was changed"); } }); \
      if (!verify(opname<T, T>(NAME, mode < 2 ? "same tensor" : mode < 4 ? "in-place with itself" : "in-place with its copy", r.d), rej, c, e)) return; \
      if ((mode & 1) && !equals(keep, r)) { mc::fail("tensor sharing storage was changed"); return; } } \
    { Tensor<T> a = to_tensor(r), b(a); bool rej = mc::rejects([&] { a = a OP b; }); if (!verify(opname<T, T>(NAME, "assignment to an operand", r.d), rej, a, e) || !equals(b, r)) { mc::fail("operand changed"); return; } } \
    for (size_t k = 0; k < n && k < 8; k++) { \
      Ref<T> f(r.d), g(r.d); for (size_t i = 0; i < n; i++) { f.v[i] = r.v[i] OP r.v[k]; g.v[i] = r.v[k] OP r.v[i]; } \
      for (int mode = 0; mode < 5; mode++) { \
        Tensor<T> a = to_tensor(r), keep; if (mode == 1 || mode == 3) keep = a; \
        const Tensor<T> &ca = a; \
        bool rej = mc::rejects([&] { if (mode < 2) a OP##= ca[k]; else if (mode < 4) a = a OP ca[k]; else a = ca[k] OP a; }); \
        if (!verify(opname<T, T>(NAME, mode < 2 ? "in-place with one of its elements" : "with one of its elements", r.d), rej, a, mode < 4 ? f : g)) return; \
        if (keep.size() && !equals(keep, r)) { mc::fail("tensor sharing storage was changed"); return; } } } }
  EACH_OP(X)
#undef X
}
template <class A, class B> static void mismatch(const Dims &d, const Dims &o) {
  Ref<A> ra = generic<A>(d, 1); Ref<B> rb = generic<B>(o, 2);
  Tensor<A> a = to_tensor(ra); Tensor<B> b = to_tensor(rb);
  mc::transition(4);
#define X(OP, NAME) if (!mc::rejects([&] { auto c = a OP b; })) mc::fail(mc::Str() << NAME << " of dims " << mc::seq(d) << " and " << mc::seq(o) << " accepted");
  EACH_OP(X)
#undef X
  if (!equals(a, ra) || !equals(b, rb)) mc::fail("rejected operation changed an operand");
}
template <class A, class B> static void mismatch_in(const Dims &d, const Dims &o) {
  Ref<A> ra = generic<A>(d, 1); Ref<B> rb = generic<B>(o, 2);
  Tensor<B> b = to_tensor(rb);
  mc::transition(4);
#define X(OP, NAME) { Tensor<A> a = to_tensor(ra); if (!mc::rejects([&] { a OP##= b; })) mc::fail(mc::Str() << "in-place " << NAME << " of dims " << mc::seq(d) << " and " << mc::seq(o) << " accepted"); \
    if (!equals(a, ra)) mc::fail("rejected operation changed its target"); }
  EACH_OP(X)
#undef X
  if (!equals(b, rb)) mc::fail("rejected operation changed an operand");
}

template <class T> static std::vector<T> alphabet(bool special);
template <> std::vector<double> alphabet<double>(bool special) {
  std::vector<double> v = {1, -1, 2, -0.5, 3.25, 0.1, -7e100, 1e-200, 1e308, -1e-308};
  if (special) for (double x : {0.0, -0.0, HUGE_VAL, -HUGE_VAL, (double)NAN, 5e-324, -1.7976931348623157e308}) v.push_back(x);
  return v;
}
template <> std::vector<cd> alphabet<cd>(bool special) {
  std::vector<cd> v;
  for (double x : {1.0, -0.5, 3.25, 0.1}) for (double y : {2.0, -1.0, 0.3}) v.push_back(cd(x, y));
  v.push_back(cd(1e-100, 1e100)); v.push_back(cd(2, 0)); v.push_back(cd(0, -3));
  if (special) for (double x : {0.0, HUGE_VAL, (double)NAN, 1.5}) for (double y : {0.0, -HUGE_VAL, -2.0}) v.push_back(cd(x, y));
  return v;
}
// a tensor pair holding every pair of alphabet values
template <class A, class B> static void all_pairs(bool special) {
  std::vector<A> x = alphabet<A>(special); std::vector<B> y = alphabet<B>(special);
  Ref<A> a(Dims{(long)x.size(), (long)y.size()}); Ref<B> b(a.d);
  for (size_t i = 0; i < x.size(); i++) for (size_t j = 0; j < y.size(); j++) { a.v[i + x.size() * j] = x[i]; b.v[i + x.size() * j] = y[j]; }
  binary(a, b);
  Ref<A> l(Dims{(long)x.size()}, x);
  for (auto &n : y) with_number(l, n);
}
template <class A, class B> static void all_pairs_in(bool special) {
  std::vector<A> x = alphabet<A>(special); std::vector<B> y = alphabet<B>(special);
  Ref<A> a(Dims{(long)x.size(), (long)y.size()}); Ref<B> b(a.d);
  for (size_t i = 0; i < x.size(); i++) for (size_t j = 0; j < y.size(); j++) { a.v[i + x.size() * j] = x[i]; b.v[i + x.size() * j] = y[j]; }
  in_place(a, b);
  Ref<A> l(Dims{(long)x.size()}, x);
  for (auto &n : y) in_place_number(l, n);
}

template <class T, class S, class F, class G> static void unary(const char *name, const Ref<T> &r, F lib, G scalar) {
  if (mc::failed()) return;
  Tensor<T> t = to_tensor(r), held(t);
  Ref<S> e(r.d); for (size_t i = 0; i < r.v.size(); i++) e.v[i] = scalar(r.v[i]);
  Tensor<S> c; bool rej = mc::rejects([&] { c = lib((const Tensor<T> &)t); });
  if (!verify(std::string(name) + " of " + tname<T>() + " dims " + mc::seq(r.d), rej, c, e)) return;
  if (!equals(t, r) || !equals(held, r)) { mc::fail(std::string(name) + " changed its argument"); return; }
  if (c.size()) { c.at_seq(0) = S(77); if (!equals(t, r)) mc::fail(std::string("result of ") + name + " shares its argument's storage"); }
}
static void unaries(const Ref<double> &r, const Ref<cd> &z) {
#define U(T, S, NAME, LIB, SC) unary<T, S>(NAME, sizeof(T) > 8 ? *(Ref<T> *)(void *)&z : *(Ref<T> *)(void *)&r, [](const Tensor<T> &x) -> Tensor<S> { return LIB; }, [](T x) -> S { return SC; });
  U(double, double, "negation", -x, -x) U(cd, cd, "negation", -x, -x)
#define F(NAME) U(double, double, #NAME, tensor::NAME(x), std::NAME(x)) U(cd, cd, #NAME, tensor::NAME(x), std::NAME(x))
  F(cos) F(sin) F(tan) F(cosh) F(sinh) F(tanh) F(exp) F(sqrt) F(log)
  U(double, double, "abs", tensor::abs(x), std::fabs(x)) U(cd, double, "abs", tensor::abs(x), std::abs(x))
  U(double, double, "round", tensor::round(x), ::round(x))
  U(double, double, "real", tensor::real(x), x) U(double, double, "imag", tensor::imag(x), (x, 0.0)) U(double, double, "conj", tensor::conj(x), x)
  U(cd, double, "real", tensor::real(x), x.real()) U(cd, double, "imag", tensor::imag(x), x.imag()) U(cd, cd, "conj", tensor::conj(x), std::conj(x))
  U(double, cd, "to_complex", tensor::to_complex(x), cd(x, 0)) U(cd, cd, "to_complex", tensor::to_complex(x), x)
  U(double, cd, "conversion to complex", CTensor(x), cd(x, 0))
}
static void assemble(const Ref<double> &a, const Ref<double> &b) {
  RTensor x = to_tensor(a), y = to_tensor(b);
  bool ok = a.d == b.d;
  CTensor c; bool rej = mc::rejects([&] { c = to_complex(x, y); });
  mc::transition();
  if (!ok) { if (!rej) mc::fail("to_complex of different dimensions accepted: " + mc::seq(a.d) + mc::seq(b.d)); return; }
  Ref<cd> e(a.d); for (size_t i = 0; i < e.v.size(); i++) e.v[i] = cd(a.v[i], b.v[i]);
  verify("to_complex(re,im) dims " + mc::seq(a.d), rej, c, e);
  if (!rej && !(equals(real(c), a) && equals(imag(c), b))) mc::fail("real/imag do not recover the parts");
  if (!equals(x, a) || !equals(y, b)) mc::fail("to_complex changed an argument");
  if (!rej) {   // same tensor as both parts
    CTensor s = to_complex(x, x); for (size_t i = 0; i < e.v.size(); i++) e.v[i] = cd(a.v[i], a.v[i]);
    verify("to_complex(t,t)", false, s, e);
  }
}

static void shape_case(const Dims &d, bool big) {
  mc::run_case(DESC { return "arithmetic on dims " + mc::seq(d); }, [&] {
    mc::note_trace();
    for (int s = 0; s < 2; s++) {
      Ref<double> a = generic<double>(d, s), b = generic<double>(d, s + 5); Ref<cd> z = generic<cd>(d, s + 9), w = generic<cd>(d, s + 3);
      binary(a, b); binary(z, w); binary(a, w); binary(z, b);
      with_number(a, 0.7); with_number(z, cd(0.3, -2)); with_number(a, cd(0.3, -2)); with_number(z, 0.7);
      in_place(a, b); in_place(z, w); in_place(z, b);
      in_place_number(a, -0.7); in_place_number(z, cd(0.3, -2)); in_place_number(z, 0.7);
      if (!s) { alias(a); alias(z); }
      unaries(a, z); assemble(a, b);
    }
  });
}

void explore() {
  mc::run_case(DESC { return std::string("every pair of values"); }, [&] {
    mc::note_trace();
    all_pairs<double, double>(true); all_pairs<cd, cd>(true); all_pairs<double, cd>(false); all_pairs<cd, double>(false);
    all_pairs_in<double, double>(true); all_pairs_in<cd, cd>(true); all_pairs_in<cd, double>(false);
    std::vector<double> x = alphabet<double>(true); std::vector<cd> y = alphabet<cd>(true);
    for (double k : {0.5, -0.5, 1.5, 2.5, -2.5, 0.49999999999999994, 4503599627370497.5, 1e300, -1.5}) x.push_back(k);
    unaries(Ref<double>(Dims{(long)x.size()}, x), Ref<cd>(Dims{(long)y.size()}, y));
    assemble(Ref<double>(Dims{(long)x.size()}, x), Ref<double>(Dims{(long)x.size()}, x));
  });
  // every small tensor over a tiny alphabet, both operands
  for (int n = 1; n <= (mc::thorough ? 4 : 3); n++) mc::all_words(n, 4, [&](const std::vector<int> &w) {
    mc::run_case(DESC { return "arithmetic on words " + mc::seq(w); }, [&] {
      double al[4] = {0, 1, -2, 0.5}; cd az[4] = {cd(0, 0), cd(1, 0), cd(0, -2), cd(0.5, 3)};
      Ref<double> a(Dims{n}); Ref<cd> z(Dims{n}); for (int i = 0; i < n; i++) { a.v[i] = al[w[i]]; z.v[i] = az[w[i]]; }
      alias(a); alias(z); unaries(a, z);
      mc::all_words(n, 4, [&](const std::vector<int> &u) {
        Ref<double> b(Dims{n}); Ref<cd> y(Dims{n}); for (int i = 0; i < n; i++) { b.v[i] = al[u[i]]; y.v[i] = az[u[i]]; }
        binary(a, b); binary(z, y); in_place(a, b); in_place(z, y); binary(a, y); assemble(a, b);
      });
    });
  });
  shape_case(Dims(), false);
  for (long n = 0; n <= 40; n++) shape_case({n}, true);
  for (long n : {63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 1000, 1023, 1024, 1025, 4096, 5000}) shape_case({n}, true);
  for (auto &d : std::vector<Dims>{{65539}, {1048583}, {1031, 257}, {3, 65537}, {65537, 3}, {257, 2, 259}}) shape_case(d, false);
  each_shape(2, 0, 6, [&](const Dims &d) { shape_case(d, false); });
  each_shape(3, 0, 3, [&](const Dims &d) { shape_case(d, false); });
  each_shape(4, 0, 2, [&](const Dims &d) { shape_case(d, false); });
  each_shape(5, 1, 2, [&](const Dims &d) { shape_case(d, false); });
  each_shape(6, 1, 2, [&](const Dims &d) { shape_case(d, false); });
  std::vector<Dims> s;
  for (int r = 1; r <= 3; r++) each_shape(r, 0, r == 1 ? 6 : 3, [&](const Dims &d) { s.push_back(d); });
  s.push_back({2, 1, 3, 1}); s.push_back({1, 1, 1, 1}); s.push_back({6, 1}); s.push_back({1, 6});
  for (auto &d : s)
    mc::run_case(DESC { return "operands of different dimensions, first " + mc::seq(d); }, [&] {
      for (auto &o : s) if (o != d) {
        mismatch<double, double>(d, o); mismatch<cd, cd>(d, o); mismatch<double, cd>(d, o); mismatch<cd, double>(d, o);
        mismatch_in<double, double>(d, o); mismatch_in<cd, cd>(d, o); mismatch_in<cd, double>(d, o);
        assemble(generic<double>(d, 1), generic<double>(o, 1));
      }
    });
}
