// C27: text output shows every value; numbers and option flags keep what they were given.
#include "ref.h"
#include <tensor/tensor.h>
#include <tensor/sparse.h>
#include <tensor/io.h>
#include <tensor/flags.h>
#include <limits>
#include <map>
using namespace tensor;
typedef std::string S;
// how a stream shows one element
struct Format { int precision; std::ios::fmtflags flags; const char *name; };
static const Format F[] = {{6, std::ios::fmtflags(0), "default"}, {17, std::ios::fmtflags(0), "17 digits"}, {2, std::ios::fixed, "fixed"}, {3, std::ios::scientific, "scientific"}, {6, std::ios::showpos, "signs"}, {1, std::ios::showpoint, "points"}};
static void set(std::ostream &s, const Format &f) { s.precision(f.precision); s.setf(f.flags); }
static S num(double x, const Format &f) { std::ostringstream s; set(s, f); s << x; return s.str(); }
static S num(cd x, const Format &f) { return num(x.real(), f) + " " + num(x.imag(), f); }
static S num(tensor::index x, const Format &f) { std::ostringstream s; set(s, f); s << x; return s.str(); }
template <class V> static S list(const V &v, const Format &f) { S s = "["; for (size_t i = 0; i < v.size(); i++) s += (i ? ", " : "") + num(v[i], f); return s + "]"; }
static S dims(const Dims &d, const Format &f) { std::vector<tensor::index> v(d.begin(), d.end()); return list(v, f); }
template <class T> static T val(int k);
static const double V[] = {0, 1, -2.5, 1e-300, 123456789.0, -0.0, 0.1, 1e17, 1.0 / 3, -7};
template <> double val<double>(int k) { return k >= 10 ? (k == 10 ? std::numeric_limits<double>::infinity() : k == 11 ? -std::numeric_limits<double>::infinity() : k == 12 ? std::numeric_limits<double>::max() : 5e-324) : V[k]; }
template <> cd val<cd>(int k) { return cd(val<double>(k), val<double>((k * 3 + 1) % 10)); }
template <class X> static bool shows(const X &x, const S &want, const Format &f, const S &what) {
  std::ostringstream s; set(s, f); s << "<"; std::ostream *r = 0; mc::transition();
  if (mc::rejects([&] { r = &(s << x); })) { mc::fail(what + ": refused: " + mc::ending_message); return false; }
  s << ">"; if (r != &s) { mc::fail(what + ": returns another stream"); return false; }
  if (s.str() != "<" + want + ">") { mc::fail(what + " (" + f.name + "): shows " + s.str().substr(0, 200) + " instead of " + want.substr(0, 200)); return false; }
  if (s.precision() != f.precision || (s.flags() & f.flags) != f.flags || s.width() != 0) { mc::fail(what + ": changed the format of the stream"); return false; }
  return true;
}
template <class T> static S matrix(const Ref<T> &r, const Format &f) { S s = "["; if (r.d.size() == 1) { for (int i = 0; i < r.d[0]; i++) s += (i ? ", " : "") + num(r.v[i], f); return s + "]"; } for (int i = 0; i < r.d[0]; i++) { if (i) s += "\n "; for (int j = 0; j < r.d[1]; j++) s += (j ? ", " : "") + num(r.v[i + (size_t)r.d[0] * j], f); } return s + "]"; }
template <class T> static void one(const Ref<T> &r) {
  S what = mc::Str() << (sizeof(T) > 8 ? "complex" : "real") << " tensor of " << mc::seq(r.d);
  for (auto &f : F) {
    Tensor<T> t = to_tensor(r), keep(t);
    if (!shows(t, "(" + dims(r.d, f) + ")/" + list(r.v, f), f, what)) return;
    Vector<T> v(r.v.size()); std::copy(r.v.begin(), r.v.end(), v.begin()); if (!shows(v, list(r.v, f), f, "vector")) return;
    if (!shows(t.dimensions(), dims(r.d, f), f, "dimensions")) return;
    if (r.d.size() == 1 || r.d.size() == 2) { if (!shows(matrix_form(t), matrix(r, f), f, "matrix form of " + what)) return; }
    else if (r.d.size() > 2) { std::ostringstream s; if (!mc::rejects([&] { s << matrix_form(t); })) { mc::fail("matrix form of " + what + ": accepted"); return; } }
    if (r.d.size() == 2) { Ref<T> z(r); for (auto &x : z.v) if (x == T(0)) x = T(0); Sparse<T> sp(t); if (!shows(sp, "(" + dims(r.d, f) + ")/" + list(z.v, f), f, "sparse")) return; if (!shows(matrix_form(sp), matrix(z, f), f, "matrix form of a sparse matrix")) return; }
    if (!bits_same(from_tensor(t), r) || !bits_same(from_tensor(keep), r)) { mc::fail(what + ": changed by output"); return; }
  }
  mc::Hash h; for (int d : r.d) h.add(d); for (auto &x : r.v) h.add(x); mc::state(h.h);
}
template <class T> static void texts() {
  const bool Th = mc::thorough;
  std::vector<Dims> shapes; for (int r = 1; r <= 4; r++) mc::all_words(r, r < 3 ? 5 : r == 3 ? 4 : 3, [&](const std::vector<int> &w) { shapes.push_back(Dims(w.begin(), w.end())); });
  for (auto d : std::vector<Dims>{{100}, {1, 40}, {40, 1}, {12, 11}, {2, 1, 3, 2, 2}, {1, 1, 1, 1, 1, 1}}) shapes.push_back(d);
  for (auto &d : shapes) mc::run_case(DESC { return mc::Str() << (sizeof(T) > 8 ? "complex" : "real") << " " << mc::seq(d); }, [&] { mc::group("shapes"); Ref<T> r(d); if (r.v.size()) mc::nontrivial(); for (int salt = 0; salt < (Th ? 14 : 7) && !mc::failed(); salt++) { for (size_t i = 0; i < r.v.size(); i++) r.v[i] = val<T>((int)((i * 3 + i / 7 + salt * 5) % 14)); one(r); } });
  for (int n = 1; n <= (Th ? 4 : 3); n++) for (int k = 0; k < 14; k++) mc::run_case(DESC { return mc::Str() << (sizeof(T) > 8 ? "complex" : "real") << " words of " << n << " beginning with " << val<T>(k); }, [&] { mc::group("words"); mc::nontrivial(); mc::all_words(n - 1, 14, [&](const std::vector<int> &w) { if (mc::failed()) return; Ref<T> r(n == 2 ? Dims{1, 2} : Dims{n}); r.v[0] = val<T>(k); for (int i = 1; i < n; i++) r.v[i] = val<T>(w[i - 1]); one(r); }); });
}
template <class T> static bool same(T a, T b) { return memcmp(&a, &b, sizeof a) == 0; }
static void numbers() {
  mc::run_case(DESC { return S("functions of numbers"); }, [&] {
    mc::group("numbers"); mc::nontrivial();
    std::vector<double> v = {0, 1, -1, 0.5, -0.5, 2.5, -2.5, 1.49999, 1e9 + 0.5, -3, 7, 1e150, -1e-160, 0.49999999999999994};
    for (double x : v) { mc::transition(12);
      if (!same(tensor::real(x), x) || tensor::imag(x) != 0 || !same(tensor::conj(x), x) || tensor::abs2(x) != x * x || tensor::square(x) != x * x || to_complex(x) != cd(x, 0)) mc::fail(mc::Str() << "functions of " << x);
      for (double y : v) { cd z(x, y); mc::transition(12);
        if (!same(tensor::real(z), x) || !same(tensor::imag(z), y) || tensor::conj(z) != std::conj(z) || tensor::abs2(z) != x * x + y * y || to_complex(x, y) != z || to_complex(z) != z || tensor::square(z) != z * z) mc::fail(mc::Str() << "functions of " << z);
        cd r = tensor::round(z); if (r != cd(::round(x), ::round(y))) mc::fail(mc::Str() << "round of " << z << " is " << r);
        for (auto &f : F) { std::ostringstream s; set(s, f); tensor::operator<<(s, z); if (s.str() != num(z, f)) mc::fail(mc::Str() << "complex number shown as " << s.str()); if (f.precision == 17) { std::istringstream in(s.str() + " 9"); cd w(-1, -1); double rest = 0; tensor::operator>>(in, w) >> rest; if (w != z || rest != 9) mc::fail(mc::Str() << "reads " << w << " from " << s.str()); } } } }
    if (number_zero<double>() != 0 || number_one<double>() != 1 || number_zero<cd>() != cd(0) || number_one<cd>() != cd(1)) mc::fail("zero or one");
  });
}
// all histories of an array of flags
static void flags(int depth) {
  static const double X[] = {0, 1.5, -3};
  for (int first = 0; first < 9; first++) mc::run_case(DESC { return mc::Str() << "flags, history beginning with " << first; }, [&] {
    mc::group("flags"); mc::nontrivial();
    for (int n = 1; n <= depth; n++) mc::all_words(n - 1, 9, [&](const std::vector<int> &w) {   // 0-2 a new key; 3-8 set key 0-1 to a value
      if (mc::failed()) return; mc::note_trace(); Flags f; std::vector<double> model;
      for (int i = 0; i < n; i++) { int o = i ? w[i - 1] : first; mc::transition();
        if (o < 3) { unsigned k = f.create_key(X[o]); if (k != model.size()) { mc::fail("a key is given twice or left out"); return; } model.push_back(X[o]); }
        else { unsigned k = (o - 3) / 3; double x = X[o % 3]; Flags *r = 0; bool rej = mc::rejects([&] { r = &f.set(k, x); }); if (rej != (k >= model.size())) { mc::fail("set of an unknown key accepted or of a known one refused"); return; } if (!rej) { if (r != &f) { mc::fail("set returns another array"); return; } model[k] = x; } }
        Flags copy(f); for (unsigned k = 0; k < model.size() + 2; k++) { double x = 99; bool rej = mc::rejects([&] { x = copy.get(k); }); if (rej != (k >= model.size()) || (!rej && !same(x, model[k]))) { mc::fail(mc::Str() << "key " << k << " of " << model.size() << (rej ? " refused" : " gives ") << x); return; } }
        mc::Hash h; for (double x : model) h.add(x); mc::state(h.h); }
    });
  });
  mc::run_case(DESC { return S("the flags of the library"); }, [&] { mc::group("flags"); mc::nontrivial(); if (FLAGS.get(TENSOR_DEBUG_BLOCK_SVD) != 0) mc::fail("debugging is on from the start"); unsigned k = FLAGS.create_key(4), l = FLAGS.create_key(5); if (k == TENSOR_DEBUG_BLOCK_SVD || l == k || FLAGS.get(k) != 4 || FLAGS.get(l) != 5) mc::fail("keys"); FLAGS.set(k, 6).set(l, 7); if (FLAGS.get(k) != 6 || FLAGS.get(l) != 7 || FLAGS.get(TENSOR_DEBUG_BLOCK_SVD) != 0) mc::fail("values"); if (!mc::rejects([&] { FLAGS.get(l + 1000); }) || !mc::rejects([&] { FLAGS.set(l + 1, 0); }) || !mc::rejects([&] { FLAGS.get((unsigned)-1); })) mc::fail("unknown keys accepted"); });
}
void explore() {
  texts<double>(); texts<cd>(); numbers(); flags(mc::thorough ? 6 : 5);
  mc::run_case(DESC { return S("lists of indices and flags"); }, [&] { mc::group("shapes"); mc::nontrivial(); for (int n = 0; n <= 4; n++) mc::all_words(n, 4, [&](const std::vector<int> &w) { Indices x(n); Booleans b(n); std::vector<tensor::index> v; S bs = "["; for (int i = 0; i < n; i++) { x.at(i) = (w[i] - 1) * 1000003; b.at(i) = w[i] % 2; v.push_back(x[i]); bs += S(i ? ", " : "") + (w[i] % 2 ? "1" : "0"); } for (auto &f : F) { shows(x, list(v, f), f, "indices"); if (!(f.flags & std::ios::showpos)) shows(b, bs + "]", f, "flags"); } }); });
}
