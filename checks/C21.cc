// C21: random numbers are reproducible and stay in range.
#include "ref.h"
#include <tensor/rand.h>
#include <tensor/tensor.h>
#include <tensor/sparse.h>
#include <climits>
#include <cfloat>
#include <random>
#include <algorithm>
using namespace tensor;
typedef std::string S;
typedef unsigned long UL;
static_assert(sizeof(long) == 8, "64-bit generator expected");
// the reference: the published 64-bit Mersenne twister, as given by the standard library
struct Stream { std::mt19937_64 g; explicit Stream(UL s) : g(s) {} UL raw() { return g(); } double real() { return (double)(g() >> 11) * (1.0 / 9007199254740992.0); } };
static const int OPS = 16;
static const char *const names[OPS] = {"int", "unsigned", "long", "unsigned long", "float", "double", "complex", "int<7", "long<10^12", "unsigned long<3", "int in [-5,5)", "long in [-2^40,2^40)", "double<2.5", "float<3", "real tensor", "complex tensor"};
static S show(UL seed, int skip, const std::vector<int> &w, size_t n) { mc::Str s; s << "seed " << seed << ", after " << skip << " draws:"; for (size_t i = 0; i < n && i < w.size(); i++) s << " " << names[w[i]]; return s; }
static bool perm(std::vector<double> a, std::vector<double> b) { std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end()); return a == b; }
// one draw compared with the reference; empty if it is as it should
static S draw(int op, Stream &r) {
  mc::transition(); mc::Str e; e.s.precision(17);
  switch (op) {
    case 0: { int x = rand<int>(); UL y = r.raw(); if (x != (int)(y >> 1)) e << x << " expected " << (int)(y >> 1); break; }
    case 1: { unsigned x = rand<unsigned>(); UL y = r.raw(); if (x != (unsigned)y) e << x << " expected " << (unsigned)y; break; }
    case 2: { long x = rand<long>(); UL y = r.raw(); if (x != (long)(y >> 1)) e << x << " expected " << (long)(y >> 1); break; }
    case 3: { UL x = rand<UL>(); UL y = r.raw(); if (x != y) e << x << " expected " << y; break; }
    case 4: { float x = rand<float>(); double y = r.real(); if (!(std::fabs(x - y) <= 6e-8) || !(x >= 0) || !(x < 1)) e << x << " expected " << y; break; }
    case 5: { double x = rand<double>(), y = r.real(); if (x != y) e << x << " expected " << y; break; }
    case 6: { cdouble x = rand<cdouble>(); double y = r.real(), z = r.real(); if (!(x == cdouble(y, z)) && !(x == cdouble(z, y))) e << x << " expected " << y << " and " << z; break; }   // either order of evaluation
    case 7: { int x = rand<int>(7); unsigned y = (unsigned)r.raw() % 7u; if (x != (int)y) e << x << " expected " << y; break; }
    case 8: { long x = rand<long>(1000000000000L); UL y = r.raw() % 1000000000000UL; if (x != (long)y) e << x << " expected " << y; break; }
    case 9: { UL x = rand<UL>((UL)3), y = r.raw() % 3; if (x != y) e << x << " expected " << y; break; }
    case 10: { int x = rand<int>(-5, 5), y = (int)((unsigned)r.raw() % 10u) - 5; if (x != y) e << x << " expected " << y; break; }
    case 11: { long h = 1L << 40, x = rand<long>(-h, h), y = (long)(r.raw() % (UL)(2 * h)) - h; if (x != y) e << x << " expected " << y; break; }
    case 12: { double x = rand<double>(2.5), y = 2.5 * r.real(); if (!(std::fabs(x - y) <= 1e-15) || !(x < 2.5)) e << x << " expected " << y; break; }
    case 13: { float x = rand<float>(3.0f); double y = 3 * r.real(); if (!(std::fabs(x - y) <= 6e-7) || !(x >= 0) || !(x < 3)) e << x << " expected " << y; break; }
    case 14: { RTensor t = RTensor::random(2, 3); std::vector<double> a, b; for (int i = 0; i < 6; i++) { a.push_back(t.size() == 6 ? t[i] : -1); b.push_back(r.real()); } if (from_indices(t.dimensions()) != Dims{2, 3} || !perm(a, b)) e << mc::seq(a) << " expected " << mc::seq(b); break; }
    default: { CTensor t = CTensor::random(3); std::vector<double> a, b; for (int i = 0; i < 3; i++) { a.push_back(t.size() == 3 ? t[i].real() : -1); a.push_back(t.size() == 3 ? t[i].imag() : -1); } for (int i = 0; i < 6; i++) b.push_back(r.real()); if (from_indices(t.dimensions()) != Dims{3} || !perm(a, b)) e << mc::seq(a) << " expected " << mc::seq(b); }
  }
  return e;
}
static void history(UL seed, int skip, const std::vector<int> &w) {
  set_seed(seed); Stream r(seed); for (int i = 0; i < skip; i++) { rand<UL>(); r.raw(); }
  for (size_t i = 0; i < w.size(); i++) { S e = draw(w[i], r); if (!e.empty()) { mc::fail(show(seed, skip, w, i + 1) + ": " + e); return; } }
  UL x = rand<UL>(), y = r.raw(); mc::transition(); if (x != y) mc::fail(show(seed, skip, w, w.size()) + mc::Str().operator<<(": the next number is ").operator<<(x).operator<<(" expected ").operator<<(y).operator std::string());
  mc::Hash h; h.add(x); mc::state(h.h);
}
template <class F> static void below(const char *what, F f) { mc::run_case(DESC { return S("limits: ") + what; }, [&] { mc::group("limits"); mc::nontrivial(); f(); }); }
static const UL seeds[] = {0, 1, 2, 42, 5489, 19650218, 0x7fffffffUL, 0x80000000UL, 0xffffffffUL, 0x100000000UL, 0x123456789abcdefUL, 1UL << 63, ~0UL};
void explore() {
  const bool Th = mc::thorough;
  // the stream itself, long enough for several refills of the generator
  for (UL s : seeds) for (int op = 0; op < OPS; op++) mc::run_case(DESC { return mc::Str() << "stream of " << names[op] << " after seed " << s; }, [&] { mc::group("streams"); mc::nontrivial(); std::vector<int> w(Th ? 200000 : 20000, op); history(s, 0, w); });
  for (UL base = 0; base < 64; base++) mc::run_case(DESC { return mc::Str() << "seeds with bit " << base << " and neighbours"; }, [&] { mc::group("streams"); mc::nontrivial(); for (long d = -8; d <= 8 && !mc::failed(); d++) history((1UL << base) + d, 0, std::vector<int>(1000, 3)); });
  // every history of draws of different types, at every point around a refill
  for (int len = 1; len <= (Th ? 5 : 4); len++) mc::all_words(std::min(len, 2), OPS, [&](const std::vector<int> &head) {
    mc::run_case(DESC { return mc::Str() << "histories of length " << len << " starting with " << names[head[0]] << (len > 1 ? names[head[1]] : ""); }, [&] {
      mc::group("histories"); mc::nontrivial(); set_seed(1);
      static const int skips[] = {0, 155, 308, 309, 310, 311, 312, 623};
      for (size_t k = 0; k < sizeof skips / sizeof *skips; k++) { if (len >= 4 && !Th && k != 4 && k != 0) continue; if (len == 5 && k != 4) continue;
        mc::all_words(len - (int)head.size(), OPS, [&](const std::vector<int> &tail) { if (mc::failed()) return; std::vector<int> w(head); w.insert(w.end(), tail.begin(), tail.end()); history(len > 3 ? 42 : seeds[(w[0] + w.back() + len) % 13], skips[k], w); }); }
    });
  });
  // seeding in the middle of a stream, at every state of a block
  for (int part = 0; part < 16; part++) mc::run_case(DESC { return mc::Str() << "seeding again, part " << part; }, [&] {
    mc::group("seeding"); mc::nontrivial();
    for (int used = part; used <= 640 && !mc::failed(); used += 16) { set_seed(3); for (int i = 0; i < used; i++) rand<UL>(); history(77 + used, used % 5, {3, 5, 0, 6, 14}); }
  });
  // reseeding takes the number given by the environment
  mc::run_case(DESC { return S("RANDSEED"); }, [&] {
    mc::group("seeding"); mc::nontrivial();
    for (int s : {0, 1, 42, 1000000, INT_MAX}) for (int used : {0, 1, 311, 312}) {
      setenv("RANDSEED", std::to_string(s).c_str(), 1); set_seed(9); for (int i = 0; i < used; i++) rand<UL>(); std::streambuf *b = std::cout.rdbuf(0); rand_reseed(); std::cout.rdbuf(b); std::cout.clear(); Stream r(s); mc::transition();
      for (int i = 0; i < 700; i++) { UL x = rand<UL>(), y = r.raw(); if (x != y) { mc::fail(mc::Str() << "RANDSEED=" << s << ": number " << i << " is " << x << " expected " << y); return; } }
    }
    unsetenv("RANDSEED"); std::vector<UL> first; for (int i = 0; i < 4; i++) { rand_reseed(); first.push_back(rand<UL>()); } std::sort(first.begin(), first.end()); for (int i = 0; i < 3; i++) if (first[i] == first[i + 1]) { mc::fail("seeding from the system twice gives the same numbers"); return; }
    // afterwards the program is reproducible again
    history(5, 0, {3, 3, 5});
  });
  // limits: every small one, and the extremes
  below("int", [&] {
    set_seed(11); std::vector<int> lim; for (int i = 1; i <= 300; i++) lim.push_back(i); for (int b = 8; b < 31; b++) for (int d = -1; d <= 1; d++) lim.push_back((1 << b) + d); lim.push_back(INT_MAX); lim.push_back(INT_MAX - 1); lim.push_back(INT_MAX - (1 << 29));
    for (int u : lim) { int seen[8] = {0}; for (int i = 0; i < 400; i++) { int x = rand<int>(u); mc::transition(); if (x < 0 || x >= u) { mc::fail(mc::Str() << "rand<int>(" << u << ") is " << x); return; } if (u <= 8) seen[x]++; } for (int k = 0; k < std::min(u, 8) && u <= 8; k++) if (!seen[k]) { mc::fail(mc::Str() << "rand<int>(" << u << ") never gives " << k); return; } }
    for (int l = -20; l <= 20; l++) for (int u = l + 1; u <= 21; u++) for (int i = 0; i < 60; i++) { int x = rand<int>(l, u); mc::transition(); if (x < l || x >= u) { mc::fail(mc::Str() << "rand<int>(" << l << "," << u << ") is " << x); return; } }
    for (auto p : std::vector<std::pair<int, int> >{{INT_MIN, -1}, {INT_MIN, INT_MIN + 1}, {INT_MIN, INT_MIN + 5}, {0, INT_MAX}, {INT_MAX - 1, INT_MAX}, {INT_MAX - 9, INT_MAX}, {-(1 << 30), (1 << 30) - 1}}) for (int i = 0; i < 3000; i++) { int x = rand<int>(p.first, p.second); mc::transition(); if (x < p.first || x >= p.second) { mc::fail(mc::Str() << "rand<int>(" << p.first << "," << p.second << ") is " << x); return; } }
    for (int v : {0, 1, -1, 7, INT_MAX, INT_MIN}) { if (rand<int>(v, v) != v) mc::fail("empty interval of integers"); } if (rand<int>(0) != 0) mc::fail("rand<int>(0)");
  });
  below("long", [&] {
    set_seed(12); std::vector<long> lim; for (int i = 1; i <= 300; i++) lim.push_back(i); for (int b = 8; b < 63; b++) for (int d = -1; d <= 1; d++) lim.push_back((1L << b) + d); lim.push_back(LONG_MAX); lim.push_back(3L << 61); lim.push_back(5L << 60);
    for (long u : lim) for (int i = 0; i < 400; i++) { if (u < 0) break; long x = rand<long>(u); mc::transition(); if (x < 0 || x >= u) { mc::fail(mc::Str() << "rand<long>(" << u << ") is " << x); return; } }
    for (long l = -20; l <= 20; l++) for (long u = l + 1; u <= 21; u++) for (int i = 0; i < 60; i++) { long x = rand<long>(l, u); mc::transition(); if (x < l || x >= u) { mc::fail(mc::Str() << "rand<long>(" << l << "," << u << ") is " << x); return; } }
    for (auto p : std::vector<std::pair<long, long> >{{LONG_MIN, -1}, {LONG_MIN, LONG_MIN + 1}, {0, LONG_MAX}, {LONG_MAX - 1, LONG_MAX}, {-(1L << 62), (1L << 62) - 1}, {-3000000000L, 3000000000L}}) for (int i = 0; i < 3000; i++) { long x = rand<long>(p.first, p.second); mc::transition(); if (x < p.first || x >= p.second) { mc::fail(mc::Str() << "rand<long>(" << p.first << "," << p.second << ") is " << x); return; } }
    for (long v : {0L, 1L, -1L, 7L, LONG_MAX, LONG_MIN}) if (rand<long>(v, v) != v) mc::fail("empty interval of long integers"); if (rand<long>(0L) != 0) mc::fail("rand<long>(0)");
    // the whole range is used
    UL all = 0; bool high = false; for (int i = 0; i < 2000; i++) { all |= (UL)rand<long>(3L << 61); high = high || rand<long>(LONG_MAX) > LONG_MAX / 2; } if (all >> 61 == 0 || !high) mc::fail("large limits are not reached");
  });
  below("unsigned long", [&] {
    set_seed(13); std::vector<UL> lim; for (int i = 1; i <= 300; i++) lim.push_back(i); for (int b = 8; b < 64; b++) for (int d = -1; d <= 1; d++) lim.push_back((1UL << b) + d); lim.push_back(~0UL); lim.push_back(3UL << 62);
    for (UL u : lim) for (int i = 0; i < 400; i++) { UL x = rand<UL>(u); mc::transition(); if (x >= u) { mc::fail(mc::Str() << "rand<unsigned long>(" << u << ") is " << x); return; } }
    for (auto p : std::vector<std::pair<UL, UL> >{{0, 1}, {5, 9}, {~0UL - 1, ~0UL}, {1UL << 63, ~0UL}, {0, ~0UL}}) for (int i = 0; i < 3000; i++) { UL x = rand<UL>(p.first, p.second); mc::transition(); if (x < p.first || x >= p.second) { mc::fail(mc::Str() << "rand<unsigned long>(" << p.first << "," << p.second << ") is " << x); return; } }
    for (UL v : {0UL, 1UL, ~0UL}) if (rand<UL>(v, v) != v) mc::fail("empty interval of unsigned integers"); if (rand<UL>(0UL) != 0) mc::fail("rand<unsigned long>(0)");
  });
  below("double", [&] {
    set_seed(14); std::vector<double> lim = {1, 2, 0.5, 3, 1e-3, 1e300, DBL_MAX, 1e-300, DBL_MIN, 1 + DBL_EPSILON, 2 - DBL_EPSILON, 1.0 / 3};
    for (double u : lim) for (int i = 0; i < 4000; i++) { double x = rand<double>(u); mc::transition(); if (!(x >= 0) || !(x < u)) { mc::fail(mc::Str() << "rand<double>(" << u << ") is " << x); return; } }
    for (auto p : std::vector<std::pair<double, double> >{{-1, 1}, {2, 5}, {-3, -2.5}, {0, 1e-9}, {-1e300, 1e300}}) { double lo = p.second, hi = p.first; for (int i = 0; i < 4000; i++) { double x = rand<double>(p.first, p.second); mc::transition(); if (!(x >= p.first) || !(x <= p.second)) { mc::fail(mc::Str() << "rand<double>(" << p.first << "," << p.second << ") is " << x); return; } lo = std::min(lo, x); hi = std::max(hi, x); } double d = p.second - p.first; if (!(lo - p.first < d / 20) || !(p.second - hi < d / 20)) { mc::fail(mc::Str() << "rand<double>(" << p.first << "," << p.second << ") does not fill its interval"); return; } }
    if (rand<double>(0.0) != 0 || rand<double>(2.5, 2.5) != 2.5) mc::fail("empty interval of reals");
  });
  // reals at the extremes of the generator: every number of a long stream whose leading bits are all ones or zeros
  for (int part = 0; part < 16; part++) mc::run_case(DESC { return mc::Str() << "extreme numbers, part " << part; }, [&] {
    mc::group("extremes"); mc::nontrivial(); const UL seed = 1000 + part; const long N = Th ? 400000000L : 60000000L; set_seed(seed); std::mt19937_64 g(seed);
    // kinds of draw follow one another; positions are those where rounding to 24 bits would give the limit
    static const float fl[] = {1.0f, 3.0f, 0.1f, 16777216.0f}; static const double dl[] = {1.0, 3.0, 1 + DBL_EPSILON, 1e300};
    for (long i = 0; i < N && !mc::failed(); i++) {
      UL y = g(); bool top = y >= 0xffffff8000000000UL, low = y < 0x8000000000UL; if (!top && !low) { UL x = rand<UL>(); if (x != y) mc::fail(mc::Str() << "seed " << seed << " number " << i << " is " << x << " expected " << y); continue; }
      mc::transition(); switch ((i >> 3) % 3) {
        case 0: { float x = rand<float>(); if (!(x >= 0) || !(x < 1)) mc::fail(mc::Str() << "seed " << seed << " number " << i << ": rand<float>() is " << x); break; }
        case 1: { float u = fl[i % 4], x = rand<float>(u); if (!(x >= 0) || !(x < u)) mc::fail(mc::Str() << "seed " << seed << " number " << i << ": rand<float>(" << u << ") is " << x); break; }
        default: { double u = dl[i % 4], x = rand<double>(u); if (!(x >= 0) || !(x < u)) mc::fail(mc::Str() << "seed " << seed << " number " << i << ": rand<double>(" << u << ") is " << x); }
      }
    }
  });
  // shapes of random tensors, and what shares their storage
  for (int r = 1; r <= 6; r++) mc::run_case(DESC { return mc::Str() << "random tensors of rank " << r; }, [&] {
    mc::group("shapes"); mc::nontrivial(); set_seed(21);
    mc::all_words(r, r <= 3 ? 4 : 3, [&](const std::vector<int> &d) {
      if (mc::failed()) return; Dims want(d.begin(), d.end()); long n = total(want); Indices dims(r); for (int i = 0; i < r; i++) dims.at(i) = d[i]; mc::transition(4);
      RTensor a, b; CTensor y, z;
      for (int again = 0; again < 2; again++) { set_seed(22 + r); RTensor t = r == 1 ? RTensor::random(d[0]) : r == 2 ? RTensor::random(d[0], d[1]) : r == 3 ? RTensor::random(d[0], d[1], d[2]) : r == 4 ? RTensor::random(d[0], d[1], d[2], d[3]) : r == 5 ? RTensor::random(d[0], d[1], d[2], d[3], d[4]) : RTensor::random(d[0], d[1], d[2], d[3], d[4], d[5]); CTensor u = r == 1 ? CTensor::random(d[0]) : r == 2 ? CTensor::random(d[0], d[1]) : r == 3 ? CTensor::random(d[0], d[1], d[2]) : r == 4 ? CTensor::random(d[0], d[1], d[2], d[3]) : r == 5 ? CTensor::random(d[0], d[1], d[2], d[3], d[4]) : CTensor::random(d[0], d[1], d[2], d[3], d[4], d[5]); UL next = rand<UL>();
        std::mt19937_64 g(22 + r); g.discard(3 * n); if (next != g()) { mc::fail(mc::Str() << "random tensors of dimensions " << mc::seq(d) << " draw another amount of numbers than their elements"); return; }
        if (again) { if (!bits_same(from_tensor(t), from_tensor(a)) || !bits_same(from_tensor(u), from_tensor(y))) { mc::fail("the same seed gives other tensors of dimensions " + mc::seq(d)); return; } } else { a = t; y = u; } }
      set_seed(22 + r); b = RTensor::random(dims); z = CTensor::random(dims);
      if (from_indices(a.dimensions()) != want || from_indices(b.dimensions()) != want || from_indices(y.dimensions()) != want || from_indices(z.dimensions()) != want) { mc::fail("random tensors of other dimensions than " + mc::seq(d)); return; }
      for (long i = 0; i < n; i++) if (!(a[i] >= 0 && a[i] < 1 && b[i] >= 0 && b[i] < 1 && y[i].real() >= 0 && y[i].real() < 1 && y[i].imag() >= 0 && y[i].imag() < 1 && z[i].real() < 1)) { mc::fail("elements out of [0,1)"); return; }
      std::vector<double> p, q; set_seed(5); RTensor s(a); Ref<double> before = from_tensor(a); s.randomize(); Stream st(5); for (long i = 0; i < n; i++) { p.push_back(s[i]); q.push_back(st.real()); }
      if (!perm(p, q) || from_indices(s.dimensions()) != want) { mc::fail("randomize of dimensions " + mc::seq(d)); return; } if (!bits_same(from_tensor(a), before)) mc::fail("randomize changed another tensor");
    });
  });
  mc::run_case(DESC { return S("random sparse matrices"); }, [&] {
    mc::group("shapes"); mc::nontrivial();
    for (int r = 0; r <= 6; r++) for (int c = 0; c <= 6; c++) for (double dens : {0.0, 0.2, 0.5, 1.0}) { RSparse m[2]; CSparse z[2]; UL next[2]; for (int k = 0; k < 2; k++) { set_seed(r * 7 + c); m[k] = RSparse::random(r, c, dens); z[k] = CSparse::random(r, c, dens); next[k] = rand<UL>(); } mc::transition(2);
      if (m[0].rows() != r || m[0].columns() != c || z[0].rows() != r || z[0].columns() != c) { mc::fail("shape of a random sparse matrix"); return; }
      if (next[0] != next[1] || !bits_same(from_tensor(full(m[0])), from_tensor(full(m[1]))) || !bits_same(from_tensor(full(z[0])), from_tensor(full(z[1])))) { mc::fail("the same seed gives another sparse matrix"); return; } }
  });
}
