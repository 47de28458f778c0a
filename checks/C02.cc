#include <climits>
// C02: element addressing.  Every rank, every small dimension list, every index
// tuple from -d-1 (one below the valid range) to d (one above), on const reads,
// on mutable access and on writes; every wrong arity; every dimension query.
#include "huge.h"
using namespace tensor;

template <class T> const T &get(const Tensor<T> &t, const Dims &i) {
  switch (i.size()) {
    case 1: return t(i[0]);
    case 2: return t(i[0], i[1]);
    case 3: return t(i[0], i[1], i[2]);
    case 4: return t(i[0], i[1], i[2], i[3]);
    case 5: return t(i[0], i[1], i[2], i[3], i[4]);
    default: return t(i[0], i[1], i[2], i[3], i[4], i[5]);
  }
}
template <class T> T &at(Tensor<T> &t, const Dims &i) {
  switch (i.size()) {
    case 1: return t.at(i[0]);
    case 2: return t.at(i[0], i[1]);
    case 3: return t.at(i[0], i[1], i[2]);
    case 4: return t.at(i[0], i[1], i[2], i[3]);
    case 5: return t.at(i[0], i[1], i[2], i[3], i[4]);
    default: return t.at(i[0], i[1], i[2], i[3], i[4], i[5]);
  }
}
template <class T> Tensor<T> make(const Dims &d) {
  switch (d.size()) {
    case 1: return Tensor<T>(d[0]);
    case 2: return Tensor<T>(d[0], d[1]);
    case 3: return Tensor<T>(d[0], d[1], d[2]);
    case 4: return Tensor<T>(d[0], d[1], d[2], d[3]);
    case 5: return Tensor<T>(d[0], d[1], d[2], d[3], d[4]);
    default: return Tensor<T>(d[0], d[1], d[2], d[3], d[4], d[5]);
  }
}
template <class T> bool get_dims(const Tensor<T> &t, int n, Dims &o) {
  tensor::index x[6] = {-7, -7, -7, -7, -7, -7};
  bool r = mc::rejects([&] {
    switch (n) {
      case 1: t.get_dimensions(x); break;
      case 2: t.get_dimensions(x, x + 1); break;
      case 3: t.get_dimensions(x, x + 1, x + 2); break;
      case 4: t.get_dimensions(x, x + 1, x + 2, x + 3); break;
      case 5: t.get_dimensions(x, x + 1, x + 2, x + 3, x + 4); break;
      default: t.get_dimensions(x, x + 1, x + 2, x + 3, x + 4, x + 5);
    }
  });
  o.assign(x, x + n);
  return !r;
}

template <class T> void shape_case(const Dims &d, bool probe_outside) {
  mc::run_case(DESC { return mc::Str() << tname<T>() << " tensor of dims " << mc::seq(d); }, [&] {
    Ref<T> r = labelled<T>(d);
    Tensor<T> t = d.empty() ? Tensor<T>() : make<T>(d);
    if (t.size() != (tensor::index)r.v.size()) { mc::fail("constructor gives wrong size"); return; }
    std::copy(r.v.begin(), r.v.end(), t.begin());
    const Tensor<T> &ct = t;
    expect(t, r, "freshly filled tensor");
    if (total(d) > 1) mc::nontrivial();
    mc::note_trace();
    // queries
    for (int k = -3; k <= 8; k++) {
      tensor::index got = -1;
      bool rej = mc::rejects([&] { got = ct.dimension(k); });
      bool valid = k >= 0 && k < (int)d.size();
      if (valid ? (rej || got != d[k]) : !rej) mc::fail(mc::Str() << "dimension(" << k << ") " << (rej ? "rejected" : "returned ") << got);
      mc::transition();
    }
    for (int n = 1; n <= 6; n++) {
      Dims o; bool ok = get_dims(ct, n, o);
      if (n == (int)d.size() ? (!ok || o != d) : ok) mc::fail(mc::Str() << "get_dimensions with " << n << " arguments " << (ok ? "gave " + mc::seq(o) : std::string("was rejected")));
      mc::transition();
    }
    if (d.size() >= 1) mc::check(ct.rows() == d[0], "rows()"); else mc::check(mc::rejects([&] { ct.rows(); }), "rows() accepted");
    if (d.size() >= 2) mc::check(ct.columns() == d[1], "columns()"); else mc::check(mc::rejects([&] { ct.columns(); }), "columns() accepted");
    mc::check(ct.rank() == (int)d.size() && ct.is_empty() == (total(d) == 0), "rank/is_empty");
    // flat access
    for (long k = 0; k < total(d); k++) {
      mc::check(same(ct[k], r.v[k]) && same(t.at_seq(k), r.v[k]), "flat access");
      T old = r.v[k];
      t.at_seq(k) = label<T>(k, 1000); r.v[k] = label<T>(k, 1000);
      expect(t, r, "after flat write");
      t.at_seq(k) = old; r.v[k] = old;
    }
    // wrong arity
    for (int n = 1; n <= 6; n++) {
      if (n == (int)d.size()) continue;
      mc::all_words(n, 2, [&](const std::vector<int> &w) {
        Dims i(w.begin(), w.end());
        for (auto &x : i) x = -x;
        if (!mc::rejects([&] { volatile T x = get(ct, i); (void)x; })) mc::fail("read with wrong number of indices accepted: " + mc::seq(i));
        if (n > 1 && !mc::rejects([&] { at(t, i) = T(); })) mc::fail("write with wrong number of indices accepted: " + mc::seq(i));
        mc::transition(2);
      });
    }
    expect(t, r, "after rejected accesses");
    if (d.size() != 1)   // at(i) on other ranks is flat access or rejected
      for (long k : {-total(d) - 1, total(d), total(d) + 5, -total(d) - 7, (long)1 << 40, -((long)1 << 40)})
        mc::check(mc::rejects([&] { t.at(k) = T(); }), "flat write outside accepted");
    if (d.size() != 1)
      for (long k = -total(d); k < total(d); k++) {
        T x = T();
        if (!mc::rejects([&] { x = t.at(k); })) mc::check(same(x, r.v[k < 0 ? k + total(d) : k]), "at(k) on a tensor of higher rank");
      }
    if (d.empty()) return;
    // every index tuple
    Dims span(d.size());
    for (size_t k = 0; k < d.size(); k++) span[k] = probe_outside ? 2 * d[k] + 2 : 2 * d[k];
    each_index(span, [&](const Dims &w) {
      if (mc::failed()) return;
      Dims i(d.size()), n(d.size()); bool valid = true;
      for (size_t k = 0; k < d.size(); k++) {
        i[k] = w[k] - d[k] - (probe_outside ? 1 : 0);
        n[k] = i[k] < 0 ? i[k] + d[k] : i[k];
        if (n[k] < 0 || n[k] >= d[k]) valid = false;
      }
      T x = T(), y = T();
      bool r1 = mc::rejects([&] { x = get(ct, i); });
      bool r2 = mc::rejects([&] { y = at(t, i); });
      mc::transition(2);
      if (!valid) {
        if (!r1 || !r2) mc::fail(mc::Str() << "index " << mc::seq(i) << " outside the dimensions was accepted by " << (r1 ? "write" : "read") << " access");
        return;
      }
      if (r1 || r2) { mc::fail("valid index rejected: " + mc::seq(i)); return; }
      if (!same(x, r(n)) || !same(y, r(n))) { mc::fail(mc::Str() << "index " << mc::seq(i) << " read " << x << " / " << y << " expected " << r(n)); return; }
      T old = r(n), neu = label<T>(7, 1000);
      Tensor<T> copy(t);
      at(t, i) = neu; r(n) = neu; mc::transition();
      expect(t, r, ("after writing " + mc::seq(i)).c_str());
      r(n) = old;
      expect(copy, r, "copy taken before the write");
      at(t, i) = old;
    });
    // far outside, one index at a time
    for (size_t k = 0; k < d.size(); k++)
      for (long far : {-d[k] - 2, d[k] + 1, 2 * d[k] + 1, -2 * d[k] - 1, (long)1 << 33, -((long)1 << 33), std::numeric_limits<long>::min(), std::numeric_limits<long>::max()}) {
        Dims i(d.size(), 0); i[k] = far;
        if (!mc::rejects([&] { volatile T x = get(ct, i); (void)x; })) mc::fail("read outside accepted: " + mc::seq(i));
        if (!mc::rejects([&] { at(t, i) = T(); })) mc::fail("write outside accepted: " + mc::seq(i));
        mc::transition(2);
      }
    expect(t, r, "at the end");
    mc::state(hash(r));
  });
}

// every way to build a tensor from elements
template <class T> void construction_case(const Dims &d) {
  mc::run_case(DESC { return mc::Str() << tname<T>() << " constructed with dims " << mc::seq(d); }, [&] {
    Ref<T> r = labelled<T>(d), flat(Dims{(long)r.v.size()}); flat.v = r.v; if (total(d) > 1) mc::nontrivial(); mc::note_trace(); const long n = total(d);
    const std::vector<T> list(r.v); std::vector<T> own(list);
    { Tensor<T> t(own); mc::transition(); expect(t, flat, "tensor of a std::vector"); std::fill(own.begin(), own.end(), T(-1)); expect(t, flat, "tensor of a std::vector that changed"); Tensor<T> u(to_indices(d), t); expect(u, r, "tensor of dimensions and elements");
      for (long k = 0; k < n && !mc::failed(); k++) { u.at_seq(k) = T(-5); expect(t, flat, "elements given to a tensor that changed"); }
      for (long m : {n - 1, n + 1, 2 * n, 0L}) if (m != n && m >= 0) { Tensor<T> w((tensor::index)m); mc::transition(); if (!mc::rejects([&] { Tensor<T> x(to_indices(d), w); })) mc::fail(mc::Str() << m << " elements accepted"); } }
    { Vector<T> v(n); std::copy(list.begin(), list.end(), v.begin()); Tensor<T> t(v), u(to_indices(d), v); Vector<T> back(t); mc::transition(); expect(t, flat, "tensor of a Vector"); expect(u, r, "tensor of dimensions and a Vector"); if (n) { v.at(n / 2) = T(-3); back.at(0) = T(-4); } expect(t, flat, "tensor of a Vector that changed"); expect(u, r, "tensor of dimensions and a Vector that changed");
      Vector<T> w(t); if (!(w == Vector<T>(u)) || w.size() != n) mc::fail("elements as a Vector"); if (n && w == v) mc::fail("different vectors are equal"); }
    { Tensor<T> t(to_indices(d)); mc::transition(); std::copy(list.begin(), list.end(), t.begin()); expect(t, r, "tensor of dimensions"); Tensor<cd> z(t), y; y = t; Ref<cd> c(d); for (long k = 0; k < n; k++) c.v[k] = cd(list[k]); expect(z, c, "complex tensor of a tensor"); expect(y, c, "complex tensor assigned from a tensor"); if (n) { z.at_seq(n - 1) = cd(-9, 9); expect(t, r, "tensor of which a complex one was made"); }
      const Tensor<T> &ct = t; if (ct.end() - ct.begin() != n || ct.end_const() - ct.begin_const() != n || t.end() - t.begin() != n || t.end_const() != ct.end() || t.begin_const() != ct.begin()) mc::fail("iterators");
      if (n) { Tensor<T> s(t); *s.begin() = T(-6); expect(t, r, "tensor whose copy was written through an iterator"); *(s.end() - 1) = T(-7); expect(t, r, "tensor whose copy was written through an iterator"); } }
    mc::state(hash(r));
  });
}
template <class T> void generator_case() {
  mc::run_case(DESC { return mc::Str() << tname<T>() << " constructed from generators"; }, [&] {
    mc::nontrivial(); mc::note_trace(); T x[7]; for (int i = 0; i < 7; i++) x[i] = label<T>(i, 3);
    auto list = [&](const Dims &d) { Ref<T> r(d); for (size_t i = 0; i < r.v.size(); i++) r.v[i] = x[i]; return r; };
    expect(Tensor<T>(gen<T>(x[0])), list({1}), "one element"); expect(Tensor<T>(gen<T>(x[0]) << x[1]), list({2}), "two elements"); expect(Tensor<T>(xgen << x[0] << x[1] << x[2]), list({3}), "three elements"); mc::transition(3);
    auto six = gen<T>(x[0]) << x[1] << x[2] << x[3] << x[4] << x[5];
    for (auto d : std::vector<Dims>{{6}, {1, 6}, {6, 1}, {2, 3}, {3, 2}, {1, 2, 3}, {3, 1, 2}, {2, 1, 1, 3}, {1, 1, 3, 1, 2}, {1, 3, 1, 2, 1, 1}}) { mc::transition(); expect(Tensor<T>(six, to_indices(d)), list(d), "six elements"); }
    for (auto d : std::vector<Dims>{{5}, {7}, {2, 2}, {0, 6}, {6, 2}, {1, 1, 1}}) { mc::transition(); if (!mc::rejects([&] { Tensor<T> t(six, to_indices(d)); })) mc::fail("six elements accepted for dimensions " + mc::seq(d)); }
  });
}
// positions that do not fit in 31 or 32 bits
template <class T> void huge_case(const Dims &d) {
  mc::run_case(DESC { return mc::Str() << tname<T>() << " tensor of huge dims " << mc::seq(d); }, [&] {
    mc::group("huge"); Huge<T> mem(total(d)); if (!mem.p) { mc::group("huge: no address space"); return; }
    mc::nontrivial(); mc::note_trace(); Tensor<T> t = mem.tensor(d); const Tensor<T> &ct = t;
    if ((size_t)t.size() != mem.n || from_indices(t.dimensions()) != d) { mc::fail("size or dimensions"); return; }
    for (size_t k = 0; k < d.size(); k++) if (ct.dimension(k) != d[k]) { mc::fail("dimension"); return; }
    std::vector<Dims> picks; Dims count; for (long x : d) { picks.push_back(huge_picks(x)); count.push_back(picks.back().size()); }
    long k = 0; std::vector<std::pair<size_t, T>> wrote;
    each_index(count, [&](const Dims &w) {
      if (mc::failed()) return; ++k;
      Dims i(d.size()), n(d.size()), m(d.size()); for (size_t q = 0; q < d.size(); q++) { i[q] = picks[q][w[q]]; n[q] = i[q] - d[q]; m[q] = (k >> q & 1) ? n[q] : i[q]; }
      size_t pos = 0; for (size_t q = d.size(); q--;) pos = pos * d[q] + i[q];
      T v = label<T>(k, 11); mc::transition(6);
      at(t, i) = v; if (mem.p[pos] != v) { mc::fail("write to " + mc::seq(i) + " does not reach its element"); return; }
      if (!same(get(ct, i), v) || !same(get(ct, n), v) || !same(get(ct, m), v) || !same(ct[pos], v)) { mc::fail("read of " + mc::seq(i)); return; }
      v = label<T>(k, 23); at(t, m) = v; if (mem.p[pos] != v) { mc::fail("write to " + mc::seq(m) + " does not reach its element"); return; }
      wrote.push_back({pos, v});
    });
    for (auto &x : wrote) if (mem.p[x.first] != x.second || !same(t.at_seq(x.first), x.second)) { mc::fail("a write changed another element"); return; }
    for (size_t q = 0; q < d.size(); q++) for (long far : {d[q], -d[q] - 1, d[q] + (1L << 32), d[q] - (1L << 32) - d[q] - 1, d[q] - (1L << 33)}) { Dims i(d.size(), 0); i[q] = far; if (far >= -d[q] && far < d[q]) continue;
      if (!mc::rejects([&] { volatile T x = get(ct, i); (void)x; })) mc::fail("read outside accepted: " + mc::seq(i)); if (!mc::rejects([&] { at(t, i) = T(); })) mc::fail("write outside accepted: " + mc::seq(i)); mc::transition(2); }
    if (t.begin_const() != mem.p) mc::fail("the only user of a memory copied it");
  });
}
// Shapes with negative dimensions, or with more elements than can be counted or
// addressed: every way to make a tensor of such a shape must end the program, also when the product of
// the dimensions wraps to a number that fits.
template <class T> static bool made(int how, const Dims &d, const Tensor<T> &four, Tensor<T> &out) {   // false: no such form
  switch (how) {
    case 0: out = Tensor<T>(to_indices(d)); return true;
    case 1: switch (d.size()) {
      case 1: out = Tensor<T>((tensor::index)d[0]); return true;
      case 2: out = Tensor<T>(d[0], d[1]); return true;
      case 3: out = Tensor<T>(d[0], d[1], d[2]); return true;
      case 4: out = Tensor<T>(d[0], d[1], d[2], d[3]); return true;
      case 5: out = Tensor<T>(d[0], d[1], d[2], d[3], d[4]); return true;
      case 6: out = Tensor<T>(d[0], d[1], d[2], d[3], d[4], d[5]); return true;
    } return false;
    case 2: out = Tensor<T>(to_indices(d), four); return true;
    case 3: out = Tensor<T>(to_indices(d), (Vector<T>)four); return true;
    case 4: out = reshape(four, to_indices(d)); return true;
    case 5: out = four; out.reshape(to_indices(d)); return true;
    case 6: out = Tensor<T>::zeros(to_indices(d)); return true;
    case 7: out = Tensor<T>::ones(to_indices(d)); return true;
    case 8: out = Tensor<T>::random(to_indices(d)); return true;
    case 9: if (d.size() != 2) return false; out = Tensor<T>::eye(d[0], d[1]); return true;
    case 10: if (d.size() != 1) return false; out = Tensor<T>::eye(d[0]); return true;
    case 11: switch (d.size()) {
      case 1: out = reshape(four, d[0]); return true;
      case 2: out = reshape(four, d[0], d[1]); return true;
      case 3: out = reshape(four, d[0], d[1], d[2]); return true;
      case 4: out = reshape(four, d[0], d[1], d[2], d[3]); return true;
      case 5: out = reshape(four, d[0], d[1], d[2], d[3], d[4]); return true;
      case 6: out = reshape(four, d[0], d[1], d[2], d[3], d[4], d[5]); return true;
    } return false;
    case 12: if (d.size() != 2) return false; out = Tensor<T>::zeros(d[0], d[1]); return true;
    case 13: if (d.size() != 3) return false; out = Tensor<T>::zeros(d[0], d[1], d[2]); return true;
  }
  return false;
}
template <class T> static void impossible_shapes() {
  const long G = 1L << 32, Q = 1L << 62;
  std::vector<long> alphabet = {-Q, -G, -4, -2, -1, 0, 1, 2, 4, 1L << 16, 1L << 31, G, G + 1, Q, Q + 1, Q - 1, LONG_MAX, LONG_MIN, (1L << 60) + 1, (1L << 61) + 2, 3074457345618258603L /* times 6: 2 mod 2^64 */, 6148914691236517206L /* times 3: 2 mod 2^64 */, 3, 6};
  for (int rank = 1; rank <= 6; rank++) for (int how = 0; how < 14; how++)
    mc::run_case(DESC { return mc::Str() << tname<T>() << " impossible shapes of rank " << rank << ", form " << how; }, [&] {
      mc::nontrivial();
      std::vector<long> al = alphabet; if (rank == 4) al = {-2, 0, 1, 2, 4, 1L << 16, G, Q + 1, LONG_MAX}; if (rank == 5) al = {-2, 0, 2, 1L << 16, G, Q}; if (rank == 6) al = {-1, 0, 2, G, 1L << 16};
      Tensor<T> four(4); for (int k = 0; k < 4; k++) four.at(k) = label<T>(k);
      bool done = false;
      mc::all_words(rank, (int)al.size(), [&](const std::vector<int> &w) {
        if (mc::failed() || done) return;
        Dims d; for (int i : w) d.push_back(al[i]);
        bool neg = false, zero = false; for (long x : d) { neg = neg || x < 0; zero = zero || x == 0; }
        double size = 1; for (long x : d) size *= (double)x;
        bool data = (how >= 2 && how <= 5) || how == 11, must;
        long exact = 1; if (!neg && !zero && size < 1e6) for (long x : d) exact *= x; else exact = zero && !neg ? 0 : -1;
        // with data the number of elements must be right; without them it must be possible
        if (how == 10 && d[0] > 1000 && d[0] < (1L << 31)) return;   // n x n elements
        if (data) must = exact != 4;
        else if (neg) must = true;
        else if (zero || size < 1000) must = false;
        else if (size > 1.9e18 || how == 10) must = true;
        else return;   // possible in principle
        if (how == 10 && neg) must = true;
        Tensor<T> out; bool form = true;
        bool rej = mc::rejects([&] { form = made<T>(how, d, four, out); });
        if (!form) { done = true; return; }
        mc::transition();
        if (rej != must) { mc::fail(mc::Str() << "shape " << mc::seq(d) << (rej ? " is refused" : " is accepted")); return; }
        if (!rej) { Dims e = d; if (how == 10) e.push_back(d[0]); bool same = out.rank() == (int)e.size(); for (int k = 0; same && k < out.rank(); k++) same = out.dimension(k) == e[k]; if (!same) { mc::fail(mc::Str() << "shape " << mc::seq(d) << ": other dimensions"); return; } long n = 1; for (long x : e) n *= x; if (zero) n = 0; if (out.size() != n) mc::fail(mc::Str() << "shape " << mc::seq(d) << ": " << out.size() << " elements"); }
      });
      for (int k = 0; k < 4; k++) if (four[k] != label<T>(k) || four.size() != 4 || four.rank() != 1) mc::fail("the original changed");
    });
}

void explore() {
  impossible_shapes<double>(); impossible_shapes<cd>();
  for (int rank = 1; rank <= 6; rank++) for (auto &d : huge_shapes(rank)) { huge_case<double>(d); if (rank % 2 == 0) huge_case<cd>(d); }
  for (int ty = 0; ty < 2; ty++) { auto one = [&](const Dims &d) { if (ty) construction_case<cd>(d); else construction_case<double>(d); };
    for (int rank = 1; rank <= 6; rank++) each_shape(rank, 0, rank < 3 ? 5 : rank == 3 ? 3 : 2, one); one({17}); one({3, 4, 5, 6}); if (ty) generator_case<cd>(); else generator_case<double>(); }
  for (int ty = 0; ty < 2; ty++) {
    auto one = [&](const Dims &d, bool out) { if (ty) shape_case<cd>(d, out); else shape_case<double>(d, out); };
    one(Dims(), true);
    each_shape(1, 0, mc::thorough ? 12 : 8, [&](const Dims &d) { one(d, true); });
    each_shape(2, 0, mc::thorough ? 9 : 7, [&](const Dims &d) { one(d, true); });
    each_shape(3, 0, mc::thorough ? 5 : 4, [&](const Dims &d) { one(d, true); });
    each_shape(4, 0, mc::thorough ? 3 : 2, [&](const Dims &d) { one(d, true); });
    each_shape(5, 0, 2, [&](const Dims &d) { if (mc::thorough || ty == 0) one(d, true); });
    each_shape(6, 0, 2, [&](const Dims &d) { if (mc::thorough || ty == 0 || d[0] == 2) one(d, true); });
    // distinct extents: all rotations
    Dims big = {2, 3, 4, 5, 1, 3};
    for (int rank = 2; rank <= 6; rank++)
      for (int s = 0; s < 6; s++) {
        Dims d; for (int k = 0; k < rank; k++) d.push_back(rank >= 5 ? 1 + big[(k + s) % 6] % 4 : big[(k + s) % 6]);
        if (prod(d, 0, d.size()) > (mc::thorough ? 800 : 400)) continue;
        one(d, rank <= (mc::thorough ? 5 : 4));
      }
  }
}
