// C20: Fourier transforms equal the discrete Fourier sum; shifts move every frequency.
#include "linalg_common.h"
#include <tensor/fftw.h>
using namespace tensor;
static const LD PI2 = 6.283185307179586476925286766559005768L;
static lc root(long j, long n, int sign) { j %= n; LD t = PI2 * j / n; return lc(std::cos(t), sign * std::sin(t)); }
// the sum along one index
static std::vector<lc> dft1(const std::vector<lc> &x, const Dims &d, int k, int sign) {
  long before = 1, n = d[k]; for (int i = 0; i < k; i++) before *= d[i]; std::vector<lc> y(x.size()), w(n); for (long j = 0; j < n; j++) w[j] = root(j, n, sign);
  for (size_t p = 0; p < x.size(); p++) { if (x[p] == lc(0)) continue; long j = p / before % n; size_t base = p - j * before; for (long f = 0; f < n; f++) y[base + f * before] += x[p] * w[f * j % n]; }
  return y;
}
static Ref<cd> shift1(const Ref<cd> &x, int k, int sign) {   // sign -1: zero frequency to the middle
  long before = 1, n = x.d[k]; for (int i = 0; i < k; i++) before *= x.d[i]; Ref<cd> y(x.d);
  for (size_t p = 0; p < x.v.size(); p++) { long j = p / before % n, t = sign < 0 ? (j + n / 2) % n : (j + n - n / 2) % n; y.v[p + (t - j) * before] = x.v[p]; }
  return y;
}
static Booleans booleans(int mask, int n) { Booleans b(n); for (int i = 0; i < n; i++) b.at(i) = mask >> i & 1; return b; }
static const char *const forms[] = {"all indices", "one index", "chosen indices"};
static void call(const Ref<cd> &in, int form, int which, int sign) {   // which: index or mask
  const int r = in.d.size(); const int mask = form == 0 ? (1 << r) - 1 : form == 1 ? 1 << which : which; mc::transition(5);
  S how = mc::Str() << forms[form] << " " << which << (sign < 0 ? " forward" : " backward") << " of dimensions " << mc::seq(in.d) << " data " << mc::seq(std::vector<cd>(in.v.begin(), in.v.begin() + std::min<size_t>(in.v.size(), 40)));
  std::vector<lc> w(in.v.begin(), in.v.end()); Ref<cd> sh(in), un(in); LD mag = 0; for (auto &x : w) mag += std::abs(x); LD scale = 1;
  for (int k = 0; k < r; k++) if (mask >> k & 1) { w = dft1(w, in.d, k, sign); sh = shift1(sh, k, sign); scale *= in.d[k]; }
  Operand<cd> a(in); CTensor out, back, s, u; Operand<cd> b(in);
  bool rej = mc::rejects([&] {
    if (form == 0) { out = fftw(a.t, sign); back = fftw(out, -sign); fftw_inplace(b.t, sign); s = fftshift(a.t, sign); u = fftshift(s, -sign); }
    else if (form == 1) { out = fftw(a.t, (tensor::index)which, sign); back = fftw(out, (tensor::index)which, -sign); fftw_inplace(b.t, (tensor::index)which, sign); s = fftshift(a.t, (tensor::index)which, sign); u = fftshift(s, (tensor::index)which, -sign); }
    else { Booleans c = booleans(which, r), c0(c); out = fftw(a.t, c, sign); back = fftw(out, c, -sign); fftw_inplace(b.t, c, sign); s = fftshift(a.t, c, sign); u = fftshift(s, c, -sign); for (int i = 0; i < r; i++) if (c[i] != c0[i]) mc::fail(how + ": changed the list of indices"); }
  });
  if (rej) { mc::fail(how + ": rejected: " + mc::ending_message); return; }
  a.untouched("transform"); if (!bits_same(from_tensor(b.sharer), in)) { mc::fail(how + ": the transform in place changed a tensor that shares its storage"); return; }
  LD tol = 30 * EPS * (mag + 1e-300L);
  Ref<cd> o = from_tensor(out), i = from_tensor(b.t), k = from_tensor(back);
  if (o.d != in.d || i.d != in.d || k.d != in.d) { mc::fail(how + ": dimensions " + mc::seq(o.d) + mc::seq(i.d)); return; }
  for (size_t p = 0; p < w.size(); p++) {
    if (!(std::abs(lc(o.v[p]) - w[p]) <= tol)) { mc::fail(how + mc::Str().operator<<(": element ").operator<<(p).operator<<(" is ").operator<<(o.v[p]).operator<<(" not ").operator<<(cd(w[p])).operator std::string()); return; }
    if (!(std::abs(lc(i.v[p]) - w[p]) <= tol)) { mc::fail(how + mc::Str().operator<<(": in place, element ").operator<<(p).operator<<(" is ").operator<<(i.v[p]).operator<<(" not ").operator<<(cd(w[p])).operator std::string()); return; }
    if (!(std::abs(lc(k.v[p]) - scale * lc(in.v[p])) <= tol * scale)) { mc::fail(how + ": the opposite transform does not restore the input"); return; }
  }
  if (!bits_same(from_tensor(s), sh)) { mc::fail(how + ": shift gives " + show(s)); return; }
  if (!bits_same(from_tensor(u), in)) { mc::fail(how + ": the opposite shift does not restore the input"); return; }
}
static void every_call(const Ref<cd> &in) { const int r = in.d.size(); mc::state(hash(in)); for (int sign = -1; sign <= 1 && !mc::failed(); sign += 2) { call(in, 0, 0, sign); for (int k = 0; k < r && !mc::failed(); k++) call(in, 1, k, sign); for (int m = 0; m < (1 << r) && !mc::failed(); m++) call(in, 2, m, sign); } }
static Ref<cd> dense(const Dims &d, int kind) { Ref<cd> x(d); for (size_t i = 0; i < x.v.size(); i++) x.v[i] = kind == 0 ? cd((double)(i + 1), 0) : kind == 1 ? cd((double)((i * 7 + 3) % 11) - 5, (double)((i * 5 + i / 3) % 7) - 3) : kind == 2 ? cd(1e150 * (1 + i % 3), -1e150 * (i % 2)) : cd(1e-150 * (i % 5), 1e-150); return x; }
static void longer(const Dims &d) {   // few elements, so that the sums are short
  mc::run_case(DESC { return mc::Str() << "few elements of dimensions " << mc::seq(d); }, [&] {
    mc::group("long"); mc::nontrivial(); Ref<cd> e(d); size_t n = e.v.size(); e.v[0] = cd(1, 2); e.v[1] = cd(-3, 0.5); e.v[n / 3] = cd(0.25, 4); e.v[n - 1] = cd(-1, 7);
    mc::state(hash(e)); for (int sign = -1; sign <= 1 && !mc::failed(); sign += 2) for (int k = 0; k < (int)d.size() && !mc::failed(); k++) { call(e, 1, k, sign); call(e, 2, 1 << k, sign); }
    if (!mc::failed()) call(e, 0, 0, -1);
  });
}
static void shape(const Dims &d, bool units) {
  mc::run_case(DESC { return mc::Str() << "dimensions " << mc::seq(d); }, [&] {
    Ref<cd> z(d); mc::group("shapes"); if (z.v.size() > 1) mc::nontrivial();
    if (units) for (size_t p = 0; p < z.v.size() && !mc::failed(); p++) { Ref<cd> e(d); e.v[p] = 1; every_call(e); e.v[p] = cd(0, 1); if (z.v.size() <= 36 && !mc::failed()) every_call(e); }
    for (int k = 0; k < 4 && !mc::failed(); k++) every_call(dense(d, k));
    if (!mc::failed()) every_call(z);
  });
}
void explore() {
  const bool Th = mc::thorough;
  for (int n = 1; n <= (Th ? 140 : 70); n++) shape(Dims{n}, n <= (Th ? 100 : 48));
  for (int n : {81, 96, 97, 100, 101, 121, 125, 127, 128, 129, 210, 243, 251, 256, 257, 500, 509, 512, 720, 1000, 1009, 1024, 2048, 2310}) shape(Dims{n}, false);
  for (int r = 2; r <= 4; r++) mc::all_words(r, r == 2 ? (Th ? 12 : 9) : r == 3 ? (Th ? 6 : 4) : Th ? 4 : 3, [&](const std::vector<int> &w) { Dims d; for (int x : w) d.push_back(x + 1); shape(d, true); });
  for (auto d : std::vector<Dims>{{5, 4, 7}, {4, 6, 5}, {6, 1, 8}, {7, 5, 1}, {2, 5, 3, 4}, {4, 3, 5, 2}, {5, 1, 4, 2}, {2, 2, 2, 2, 2}, {2, 3, 1, 2, 3}, {3, 2, 4, 1, 2}, {1, 1, 1, 1, 1}, {2, 1, 2, 3, 2, 2}, {16, 17}, {33, 4}, {64, 64}, {31, 33}, {10, 11, 12}, {20, 1, 30}, {128, 3}, {3, 128}}) shape(d, false);
  for (auto d : std::vector<Dims>{{8191}, {8192}, {32768}, {65536}, {65537}, {100000}, {100003}, {131072}, {262145}, {1048576}, {3, 65537}, {65537, 3}, {1, 131073}, {131071, 1}, {1023, 130}, {2, 40001, 3}}) longer(d);
  // no elements: no sum to compute
  for (auto d : std::vector<Dims>{{0}, {0, 1}, {1, 0}, {0, 0}, {3, 0}, {0, 3}, {2, 0, 3}, {0, 2, 2}, {2, 2, 0}, {1, 0, 2, 1}}) shape(d, false);
  mc::run_case(DESC { return S("a tensor without dimensions"); }, [&] {
    mc::group("shapes"); mc::transition(4);
    for (int sign = -1; sign <= 1; sign += 2) for (int form = 0; form < 3; form++) {
      if (form == 1) continue;   // there is no index
      CTensor x, y, o, s; bool rej = mc::rejects([&] { if (form == 0) { o = fftw(x, sign); fftw_inplace(y, sign); s = fftshift(x, sign); } else { o = fftw(x, Booleans(0), sign); fftw_inplace(y, Booleans(0), sign); s = fftshift(x, Booleans(0), sign); } });
      if (!rej && (o.size() || y.size() || s.size())) { mc::fail("the transform of a tensor without elements has elements"); return; }
    }
  });
  // arguments that are refused
  for (int r = 1; r <= 4; r++) for (int sign = -1; sign <= 1; sign += 2) for (int n = 1; n <= 3; n++) mc::run_case(DESC { return mc::Str() << "rank " << r << " extents " << n << " refused arguments, direction " << sign; }, [&] {
    mc::group("refused"); mc::nontrivial(); Ref<cd> x(Dims(r, n), cd(1, 2));
    for (int k : {-1, -2, -r - 1, r, r + 1, 1000}) { Operand<cd> a(x); mc::transition(3);
      if (!mc::rejects([&] { fftw(a.t, (tensor::index)k, sign); }) || !mc::rejects([&] { fftw_inplace(a.t, (tensor::index)k, sign); }) || !mc::rejects([&] { fftshift(a.t, (tensor::index)k, sign); })) { mc::fail(mc::Str() << "accepts index " << k); return; } a.untouched("refused call"); }
    for (int k : {0, r - 1, r + 1, r + 2}) { if (k == r) continue; Operand<cd> a(x); mc::transition(3);
      if (!mc::rejects([&] { fftw(a.t, booleans(-1, k), sign); }) || !mc::rejects([&] { fftw_inplace(a.t, booleans(-1, k), sign); }) || !mc::rejects([&] { fftshift(a.t, booleans(-1, k), sign); })) { mc::fail(mc::Str() << "accepts " << k << " choices"); return; } a.untouched("refused call"); }
  });
}
