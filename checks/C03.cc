#include <climits>
// C03: slices.  Every combination of selectors (all, single, start-stop,
// start-stop-step, index list; negative, descending, repeated, empty, out of
// range) over every small shape of ranks 1-6, for reading and for every form of
// assignment, including from the tensor itself or one sharing its storage.
#define REF_SIGNED_ZEROS
#define REF_SPECIALS
#include "huge.h"
#include <map>
#include <memory>
using namespace tensor;

struct Sel {
  enum Kind { FULL, SINGLE, STEP2, STEP3, LIST } kind;
  long a, b, c; Dims l;
  std::string str() const {
    switch (kind) {
      case FULL: return "range()";
      case SINGLE: return mc::Str() << "range(" << a << ")";
      case STEP2: return mc::Str() << "range(" << a << "," << b << ")";
      case STEP3: return mc::Str() << "range(" << a << "," << b << "," << c << ")";
      default: return "range(" + mc::seq(l) + ")";
    }
  }
};
static Sel full_sel() { return Sel{Sel::FULL, 0, 0, 0, {}}; }
static Sel single(long a) { return Sel{Sel::SINGLE, a, 0, 0, {}}; }
static Sel step(long a, long b) { return Sel{Sel::STEP2, a, b, 1, {}}; }
static Sel step(long a, long b, long c) { return Sel{Sel::STEP3, a, b, c, {}}; }
static Sel list(const Dims &l) { return Sel{Sel::LIST, 0, 0, 0, l}; }

static PRange lib(const Sel &s) {
  switch (s.kind) {
    case Sel::FULL: return range();
    case Sel::SINGLE: return range((tensor::index)s.a);
    case Sel::STEP2: return range((tensor::index)s.a, (tensor::index)s.b);
    case Sel::STEP3: return range((tensor::index)s.a, (tensor::index)s.b, (tensor::index)s.c);
    default: return range(to_indices(s.l));
  }
}

enum Verdict { OK, REJECT, EITHER };
// positions selected out of 0..d-1
static Verdict resolve(const Sel &s, long d, Dims &o) {
  o.clear();
  auto norm = [&](long x) { return x < 0 ? x + d : x; };
  auto in = [&](long x) { return x >= 0 && x < d; };
  switch (s.kind) {
    case Sel::FULL: for (long i = 0; i < d; i++) o.push_back(i); return OK;
    case Sel::SINGLE: o.push_back(norm(s.a)); return in(o[0]) ? OK : REJECT;
    case Sel::LIST: for (long x : s.l) { if (!in(norm(x))) return REJECT; o.push_back(norm(x)); } return OK;
    default: {
      if (s.c == 0) return REJECT;
      long a = norm(s.a), b = norm(s.b);
      if (s.c > 0 ? a <= b : a >= b) { if (!in(a) || !in(b)) return REJECT; }
      for (__int128 i = a; s.c > 0 ? i <= b : i >= b; i += s.c) o.push_back((long)i);
      if (o.empty()) return in(a) && in(b) ? OK : EITHER;
      return in(a) && in(b) ? OK : REJECT;
    }
  }
}

template <class T> static Tensor<T> read(const Tensor<T> &t, const std::vector<Sel> &s) {
  switch (s.size()) {
    case 1: return t(lib(s[0]));
    case 2: return t(lib(s[0]), lib(s[1]));
    case 3: return t(lib(s[0]), lib(s[1]), lib(s[2]));
    case 4: return t(lib(s[0]), lib(s[1]), lib(s[2]), lib(s[3]));
    case 5: return t(lib(s[0]), lib(s[1]), lib(s[2]), lib(s[3]), lib(s[4]));
    default: return t(lib(s[0]), lib(s[1]), lib(s[2]), lib(s[3]), lib(s[4]), lib(s[5]));
  }
}
template <class T, class V> static void write(Tensor<T> &t, const std::vector<Sel> &s, const V &v) {
  switch (s.size()) {
    case 1: t.at(lib(s[0])) = v; break;
    case 2: t.at(lib(s[0]), lib(s[1])) = v; break;
    case 3: t.at(lib(s[0]), lib(s[1]), lib(s[2])) = v; break;
    case 4: t.at(lib(s[0]), lib(s[1]), lib(s[2]), lib(s[3])) = v; break;
    case 5: t.at(lib(s[0]), lib(s[1]), lib(s[2]), lib(s[3]), lib(s[4])) = v; break;
    default: t.at(lib(s[0]), lib(s[1]), lib(s[2]), lib(s[3]), lib(s[4]), lib(s[5])) = v;
  }
}
template <class T> static void copy_view(Tensor<T> &t, const std::vector<Sel> &s, const Tensor<T> &u, const std::vector<Sel> &r) {
  switch (r.size()) {
    case 1: write(t, s, u(lib(r[0]))); break;
    case 2: write(t, s, u(lib(r[0]), lib(r[1]))); break;
    case 3: write(t, s, u(lib(r[0]), lib(r[1]), lib(r[2]))); break;
    case 4: write(t, s, u(lib(r[0]), lib(r[1]), lib(r[2]), lib(r[3]))); break;
    case 5: write(t, s, u(lib(r[0]), lib(r[1]), lib(r[2]), lib(r[3]), lib(r[4]))); break;
    default: write(t, s, u(lib(r[0]), lib(r[1]), lib(r[2]), lib(r[3]), lib(r[4]), lib(r[5])));
  }
}

static std::string str(const std::vector<Sel> &s) {
  std::string o; for (auto &x : s) o += (o.empty() ? "" : ", ") + x.str(); return o;
}

// flat positions selected by s in a tensor of dims d, and the selection's dims
static Verdict select(const std::vector<Sel> &s, const Dims &d, Dims &pos, Dims &dims) {
  Verdict v = OK; std::vector<Dims> p(s.size());
  Dims dd = s.size() == d.size() ? d : Dims(1, total(d));
  dims.clear(); pos.clear();
  for (size_t k = 0; k < s.size(); k++) {
    Verdict w = resolve(s[k], dd[k], p[k]);
    if (w == REJECT) return REJECT;
    if (w == EITHER) v = EITHER;
    dims.push_back(p[k].size());
  }
  each_index(dims, [&](const Dims &i) {
    long q = 0;
    for (size_t k = s.size(); k--;) q = q * dd[k] + p[k][i[k]];
    pos.push_back(q);
  });
  return v;
}

template <class T> static bool acceptable(const Ref<T> &before, const Dims &pos, const std::vector<T> &vals, const Tensor<T> &now) {
  if (from_indices(now.dimensions()) != before.d || (size_t)now.size() != before.v.size()) return false;
  std::vector<char> sel(before.v.size(), 0), ok(before.v.size(), 0);
  for (size_t i = 0; i < pos.size(); i++) { sel[pos[i]] = 1; if (same(now[pos[i]], vals[i])) ok[pos[i]] = 1; }
  for (size_t i = 0; i < before.v.size(); i++) if (sel[i] ? !ok[i] : !same(now[i], before.v[i])) return false;
  return true;
}

template <class T> static void one(const Dims &d, const std::vector<Sel> &s, int depth) {
  if (mc::failed()) return;
  Ref<T> r = labelled<T>(d); Dims pos, sd;
  Verdict v = select(s, d, pos, sd);
  Tensor<T> t = to_tensor(r); const Tensor<T> held(t);
  auto where = [&](const char *op) { return std::string(op) + " " + str(s) + " on dims " + mc::seq(d); };
  // read
  Tensor<T> got; bool rej = mc::rejects([&] { got = read((const Tensor<T> &)t, s); });
  mc::transition();
  if (!equals(t, r) || !equals(held, r)) { mc::fail(where("reading") + " changed the tensor"); return; }
  if (v == REJECT || (v == EITHER && rej)) {
    if (!rej) { mc::fail(where("reading") + " accepted, gave " + show(got)); return; }
    if (v == REJECT) {
      bool w = mc::rejects([&] { write(t, s, T(5)); });
      mc::transition();
      if (!w) mc::fail(where("assigning to") + " accepted");
      if (!equals(t, r) || !equals(held, r)) mc::fail(where("rejected assignment to") + " changed a tensor");
    }
    return;
  }
  Ref<T> e(sd); for (size_t i = 0; i < pos.size(); i++) e.v[i] = r.v[pos[i]];
  if (rej) { mc::fail(where("reading") + " rejected: " + mc::ending_message); return; }
  if (!equals(got, e)) { mc::fail(where("reading") + ": got " + show(got) + " expected " + show(e)); return; }
  if (pos.size() > 0) mc::nontrivial();
  if (depth == 0) return;
  auto verify = [&](const char *op, const std::vector<T> &vals, bool rejd) {
    mc::transition();
    if (rejd) { mc::fail(where(op) + " rejected: " + mc::ending_message); return false; }
    if (!acceptable(r, pos, vals, t)) { mc::fail(where(op) + ": tensor became " + show(t)); return false; }
    if (!equals(held, r)) { mc::fail(where(op) + " changed another tensor"); return false; }
    t = to_tensor(r);
    return true;
  };
  // scalar; the tensor shares its storage
  t = held;
  rej = mc::rejects([&] { write(t, s, label<T>(0, 500)); });
  if (!verify("assigning a number to", std::vector<T>(pos.size(), label<T>(0, 500)), rej)) return;
  // scalar; not shared
  rej = mc::rejects([&] { write(t, s, label<T>(0, 500)); });
  if (!verify("assigning a number to", std::vector<T>(pos.size(), label<T>(0, 500)), rej)) return;
  // tensor
  Ref<T> src = labelled<T>(sd, 700); Tensor<T> st = to_tensor(src), keep(st);
  rej = mc::rejects([&] { write(t, s, st); });
  if (!verify("assigning a tensor to", src.v, rej)) return;
  if (!equals(st, src)) { mc::fail(where("assigning to") + " changed the source"); return; }
  // slice of another tensor of the same dims
  Ref<T> o = labelled<T>(d, 300); Tensor<T> ot = to_tensor(o);
  std::vector<T> ov; for (long p : pos) ov.push_back(o.v[p]);
  rej = mc::rejects([&] { copy_view(t, s, (const Tensor<T> &)ot, s); });
  if (!verify("assigning the same slice of another tensor to", ov, rej)) return;
  if (!equals(ot, o)) { mc::fail(where("assigning to") + " changed the source"); return; }
  // full slice of a tensor holding exactly the selection
  if (sd.size() == s.size()) {
    std::vector<Sel> all(sd.size(), full_sel());
    rej = mc::rejects([&] { copy_view(t, s, (const Tensor<T> &)st, all); });
    if (!verify("assigning a whole-tensor slice to", src.v, rej)) return;
  }
  // itself
  rej = mc::rejects([&] { copy_view(t, s, (const Tensor<T> &)t, s); });
  if (!verify("assigning the slice of the tensor itself to", e.v, rej)) return;
  // wrong sizes
  for (long extra : {-1, 1}) {
    long n = (long)pos.size() + extra;
    if (n < 0) continue;
    Tensor<T> w = to_tensor(labelled<T>(Dims{n}, 900));
    rej = mc::rejects([&] { write(t, s, w); });
    mc::transition();
    if (!rej) { mc::fail(where("assigning a tensor of the wrong size to") + " accepted"); return; }
    if (!equals(t, r)) { mc::fail(where("rejected assignment to") + " changed the tensor"); return; }
    std::vector<Sel> all(1, full_sel());
    rej = mc::rejects([&] { copy_view(t, s, (const Tensor<T> &)w, all); });
    mc::transition();
    if (!rej) { mc::fail(where("assigning a slice of the wrong size to") + " accepted"); return; }
    if (!equals(t, r)) { mc::fail(where("rejected assignment to") + " changed the tensor"); return; }
  }
  // the whole tensor into a slice of itself (permutations)
  if ((long)pos.size() == total(d)) {
    rej = mc::rejects([&] { write(t, s, t); });
    if (!verify("assigning the tensor itself to", r.v, rej)) return;
    Tensor<T> sh(t);
    rej = mc::rejects([&] { write(t, s, sh); });
    if (!verify("assigning a tensor sharing its storage to", r.v, rej)) return;
    if (!equals(sh, r)) mc::fail(where("assigning to") + " changed the tensor sharing storage");
  }
  mc::Hash h; h.str(str(s)); for (long x : d) h.add(x); h.add(sizeof(T)); mc::state(h.h);
}

// t.at(s) = t(u), and from a sharing tensor, for every pair
template <class T> static void alias(const Dims &d, const std::vector<Sel> &s, const std::vector<Sel> &u) {
  if (mc::failed()) return;
  Dims p, q, a, b;
  if (select(s, d, p, a) != OK || select(u, d, q, b) != OK || p.size() != q.size() || a != b) return;
  Ref<T> r = labelled<T>(d);
  std::vector<T> vals; for (long x : q) vals.push_back(r.v[x]);
  for (int mode = 0; mode < 3; mode++) {
    Tensor<T> t = to_tensor(r), sh; if (mode) sh = t;
    bool rej = mode < 2 ? mc::rejects([&] { copy_view(t, s, (const Tensor<T> &)t, u); })
                        : mc::rejects([&] { copy_view(t, s, (const Tensor<T> &)sh, u); });
    mc::transition();
    if (rej || !acceptable(r, p, vals, t) || (mode && !equals(sh, r))) {
      mc::fail(mc::Str() << "t(" << str(s) << ") = " << (mode == 2 ? "sharing " : "") << "t(" << str(u) << ") on dims " << mc::seq(d)
               << (rej ? " rejected" : " gave " + show(t)));
      return;
    }
  }
  mc::nontrivial();
}

static std::vector<Sel> everything(long d, int steps) {
  std::vector<Sel> o; o.push_back(full_sel());
  for (long k = -d - 2; k <= d + 1; k++) o.push_back(single(k));
  for (long a = -d - 1; a <= d; a++) for (long b = -d - 1; b <= d; b++) {
    o.push_back(step(a, b));
    for (long c = -steps; c <= steps; c++) o.push_back(step(a, b, c));
  }
  o.push_back(list({}));
  for (long a = -d - 1; a <= d; a++) {
    o.push_back(list({a}));
    for (long b = -d - 1; b <= d; b++) o.push_back(list({a, b}));
  }
  for (long a = 0; a < d; a++) for (long b = 0; b < d; b++) for (long c = 0; c < d; c++) {
    o.push_back(list({a, b, c}));
    if (d == 4) for (long e = 0; e < d; e++) o.push_back(list({a, b, c, e - d}));
  }
  return o;
}
static std::vector<Sel> some(long d) {
  std::vector<Sel> o; o.push_back(full_sel());
  o.push_back(single(0)); o.push_back(single(-1)); o.push_back(single(d / 2)); o.push_back(single(d)); o.push_back(single(-d - 1));
  o.push_back(step(0, d - 1)); o.push_back(step(1, -1)); o.push_back(step(-1, -d)); o.push_back(step(0, d));
  o.push_back(step(d - 1, 0, -1)); o.push_back(step(0, -1, 2)); o.push_back(step(1, d - 1, 2)); o.push_back(step(1, 0)); o.push_back(step(-d - 1, 0));
  o.push_back(list({})); o.push_back(list({d - 1, 0, -1})); o.push_back(list({0})); o.push_back(list({0, d})); o.push_back(list({-d - 1})); o.push_back(list({-d, 0, -1}));
  return o;
}
static std::vector<Sel> few(long d) {
  return {full_sel(), single(-1), step(d - 1, 0, -1), list({d - 1, 0}), step(0, d - 1, 2), single(d), step(d > 1 ? 1 : 0, -1)};
}

// positions and steps at the ends of the range of integers
static std::vector<Sel> extremes(long d) {
  std::vector<Sel> o; const long far[] = {LONG_MIN, LONG_MIN + 1, LONG_MIN + d, -(1L << 62), -(1L << 32), 1L << 32, 1L << 62, LONG_MAX - 1, LONG_MAX};
  const long steps[] = {LONG_MIN, LONG_MIN + 1, -(1L << 62), -(1L << 32), -1, 1, 1L << 31, 1L << 32, 1L << 62, LONG_MAX - 1, LONG_MAX, LONG_MAX / 2 + 1};
  std::vector<long> near; for (long k = -d; k < d; k++) near.push_back(k);
  for (long f : far) { o.push_back(single(f)); o.push_back(list({f})); o.push_back(list({0, f})); o.push_back(step(f, f)); for (long k : near) { o.push_back(step(k, f)); o.push_back(step(f, k)); } }
  for (long c : steps) { for (long a : near) for (long b : near) o.push_back(step(a, b, c)); for (long f : far) for (long g : far) o.push_back(step(f, g, c)); for (long f : far) for (long k : near) { o.push_back(step(f, k, c)); o.push_back(step(k, f, c)); } }
  return o;
}
template <class T, class F, class G> static void shape_cases(const Dims &d, F first, G rest, int depth) {
  std::vector<Sel> f = first(d[0]);
  for (size_t i = 0; i < f.size(); i++) {
    mc::run_case(DESC { return mc::Str() << tname<T>() << " slices of dims " << mc::seq(d) << " starting with " << f[i].str(); }, [&] {
      std::vector<std::vector<Sel> > o(d.size());
      for (size_t k = 1; k < d.size(); k++) o[k] = rest(d[k]);
      std::vector<size_t> w(d.size(), 0);
      mc::note_trace();
      for (;;) {
        std::vector<Sel> s(1, f[i]);
        for (size_t k = 1; k < d.size(); k++) s.push_back(o[k][w[k]]);
        one<T>(d, s, depth);
        size_t k = 1;
        while (k < d.size() && ++w[k] == o[k].size()) w[k++] = 0;
        if (k >= d.size() || mc::failed()) break;
      }
    });
  }
}

template <class T> static void arity(const Dims &d) {
  mc::run_case(DESC { return mc::Str() << tname<T>() << " wrong number of selectors on dims " << mc::seq(d); }, [&] {
    Tensor<T> t = to_tensor(labelled<T>(d));
    for (size_t n = 2; n <= 6; n++) {
      if (n == d.size()) continue;
      std::vector<Sel> s(n, full_sel()), z(n, single(0));
      mc::check(mc::rejects([&] { read((const Tensor<T> &)t, s); }), "read accepted");
      mc::check(mc::rejects([&] { read((const Tensor<T> &)t, z); }), "read accepted");
      mc::check(mc::rejects([&] { write(t, z, T(1)); }), "write accepted");
      mc::transition(3);
    }
    expect(t, labelled<T>(d), "after rejections");
  });
}

template <class T> static void all(bool lead) {
  bool th = mc::thorough;
  for (long d = 0; d <= (th ? 8 : 6); d++) shape_cases<T>({d}, [&](long n) { return everything(n, th ? 5 : 3); }, some, 1);
  // pairs of selections of the same tensor
  for (long d = 1; d <= (th ? 5 : 4); d++) {
    std::vector<Sel> f = everything(d, 2);
    for (size_t i = 0; i < f.size(); i++)
      mc::run_case(DESC { return mc::Str() << tname<T>() << " self-assignment in dims [" << d << "] of " << f[i].str(); }, [&] {
        for (auto &u : f) alias<T>({d}, {f[i]}, {u});
      });
  }
  each_shape(2, 1, lead ? 3 : 2, [&](const Dims &d) {
    std::vector<Sel> a = some(d[0]), b = some(d[1]);
    for (auto &x : a)
      mc::run_case(DESC { return mc::Str() << tname<T>() << " self-assignment in dims " << mc::seq(d) << " of " << x.str(); }, [&] {
        for (auto &y : b) for (auto &u : a) for (auto &v : b) alias<T>(d, {x, y}, {u, v});
      });
  });
  // flat selections of tensors of higher rank
  for (Dims d : {Dims{2, 3}, Dims{0, 2}, Dims{2, 2, 2}, Dims{1, 2, 1, 2}})
    for (auto &x : everything(total(d), 2))
      mc::run_case(DESC { return mc::Str() << tname<T>() << " flat slices of dims " << mc::seq(d) << " by " << x.str(); }, [&] { one<T>(d, {x}, 1); });
  each_shape(2, 0, th ? 4 : 3, [&](const Dims &d) {
    if (lead || d[0] != d[1]) {
      shape_cases<T>(d, [&](long n) { return everything(n, 2); }, some, 1);
      shape_cases<T>(d, some, [&](long n) { return everything(n, 2); }, 1);
    } else shape_cases<T>(d, some, some, 1);
  });
  for (Dims d : {Dims{5, 7}, Dims{7, 5}, Dims{9, 1}, Dims{1, 9}, Dims{17, 33}}) shape_cases<T>(d, some, some, 1);
  shape_cases<T>({300}, some, some, 1); shape_cases<T>({4099}, few, few, 1); shape_cases<T>({1030, 7}, few, few, 1); shape_cases<T>({3, 1030}, few, few, 1); shape_cases<T>({40, 5, 70}, few, few, 1);
  each_shape(3, lead ? 0 : 1, lead ? 3 : 2, [&](const Dims &d) {
    if (th || total(d) <= 12) shape_cases<T>(d, some, th ? some : few, 1);
    if (!th && d[0] != d[1] && lead) shape_cases<T>(d, few, some, total(d) > 12 ? 0 : 1);
  });
  shape_cases<T>({2, 3, 4}, some, few, 1);
  shape_cases<T>({4, 3, 2}, few, some, 1);
  each_shape(4, lead ? 0 : 1, 2, [&](const Dims &d) { shape_cases<T>(d, few, few, 1); });
  shape_cases<T>({2, 3, 1, 4}, few, few, 1);
  shape_cases<T>({3, 2, 4, 2}, few, few, 1);
  if (lead || th) {
    auto tiny = [](long d) { return std::vector<Sel>{full_sel(), single(-1), step(d - 1, 0, -1), list({d - 1, 0})}; };
    each_shape(5, 1, 2, [&](const Dims &d) { shape_cases<T>(d, few, tiny, 1); });
    shape_cases<T>({2, 3, 2, 1, 3}, few, tiny, 1);
    each_shape(6, 1, 2, [&](const Dims &d) { if (th || d[0] == 2) shape_cases<T>(d, tiny, tiny, th); });
    shape_cases<T>({2, 1, 3, 2, 1, 2}, few, tiny, 1);
    shape_cases<T>({2, 0, 1, 2, 1}, few, tiny, 1);
    shape_cases<T>({2, 2, 1, 0, 1, 2}, few, tiny, 1);
  } else {
    auto tiny = [](long d) { return std::vector<Sel>{full_sel(), single(-1), step(d - 1, 0, -1), list({d - 1, 0})}; };
    shape_cases<T>({2, 3, 2, 1, 3}, few, tiny, 1);
    shape_cases<T>({2, 1, 3, 2, 1, 2}, few, tiny, 1);
  }
  for (Dims d : {Dims{1}, Dims{2, 3}, Dims{2, 3, 2}, Dims{1, 1, 1, 1}, Dims{1, 2, 1, 1, 1}, Dims{1, 1, 1, 2, 1, 1}}) arity<T>(d);
}

// selections from tensors of billions of elements
template <class T> static void huge_case(const Dims &d) {
  mc::run_case(DESC { return mc::Str() << tname<T>() << " slices of huge dims " << mc::seq(d); }, [&] {
    mc::group("huge"); Huge<T> mem(total(d)); if (!mem.p) { mc::group("huge: no address space"); return; }
    mc::nontrivial(); mc::note_trace(); Tensor<T> t = mem.tensor(d); const Tensor<T> &ct = t; long salt = 0;
    std::vector<std::vector<Sel>> pool;
    for (long x : d) { std::vector<Sel> o; if (x < 9) o.push_back(full_sel()); o.push_back(single(-1)); if (x > 2) { o.push_back(step(x - 3, x - 1)); o.push_back(step(0, x - 1, (x - 1) / 2)); o.push_back(step(-1, 0, -std::max(1L, x / 3))); o.push_back(list({x - 1, 0, x / 2, -x})); } else o.push_back(step(x - 1, 0, -1)); pool.push_back(o); }
    Dims count; for (auto &o : pool) count.push_back(o.size());
    each_index(count, [&](const Dims &w) {
      if (mc::failed()) return;
      std::vector<Sel> s; Dims pos, sd; std::vector<Dims> p(d.size()); for (size_t q = 0; q < d.size(); q++) { s.push_back(pool[q][w[q]]); resolve(s[q], d[q], p[q]); sd.push_back(p[q].size()); }
      each_index(sd, [&](const Dims &i) { long q = 0; for (size_t k = d.size(); k--;) q = q * d[k] + p[k][i[k]]; pos.push_back(q); });
      Ref<T> e(sd); for (size_t i = 0; i < pos.size(); i++) mem.p[pos[i]] = label<T>(++salt, 5); for (size_t i = 0; i < pos.size(); i++) e.v[i] = mem.p[pos[i]];
      Tensor<T> got; if (mc::rejects([&] { got = read(ct, s); })) { mc::fail("reading " + str(s) + " rejected: " + mc::ending_message); return; }
      mc::transition(); if (!equals(got, e)) { mc::fail("reading " + str(s) + ": got " + show(got) + " expected " + show(e)); return; }
      Ref<T> f(sd); for (size_t i = 0; i < pos.size(); i++) f.v[i] = label<T>(++salt, 7);
      if (mc::rejects([&] { write(t, s, to_tensor(f)); })) { mc::fail("assigning to " + str(s) + " rejected: " + mc::ending_message); return; }
      mc::transition(); std::map<long, std::vector<T>> may; for (size_t i = 0; i < pos.size(); i++) may[pos[i]].push_back(f.v[i]);
      for (auto &x : may) if (std::find(x.second.begin(), x.second.end(), mem.p[x.first]) == x.second.end()) { mc::fail(mc::Str() << "assigning to " << str(s) << ": element " << x.first << " is " << mem.p[x.first]); return; }
      if (mc::rejects([&] { write(t, s, T(6)); })) { mc::fail("filling " + str(s) + " rejected: " + mc::ending_message); return; }
      mc::transition(); for (long q : pos) if (mem.p[q] != T(6)) { mc::fail("filling " + str(s)); return; }
    });
    for (size_t q = 0; q < d.size(); q++) for (long far : {d[q], -d[q] - 1, d[q] + (1L << 32), -(1L << 33) - 1}) { std::vector<Sel> s(d.size(), single(0)); for (auto &bad : {single(far), step(far, far), step(0, far, std::max(d[q], 1L << 30)), list({0, far})}) { s[q] = bad; Dims pp; if (resolve(bad, d[q], pp) != REJECT) continue; mc::transition(); if (!mc::rejects([&] { Tensor<T> x = read(ct, s); })) { mc::fail("reading " + str(s) + " accepted"); return; } } }
    if (t.begin_const() != mem.p) mc::fail("the only user of a memory copied it");
  });
}
void explore() {
  for (int rank = 1; rank <= 6; rank++) for (auto &d : huge_shapes(rank)) { huge_case<double>(d); if (rank % 2) huge_case<cd>(d); }
  for (long d = 1; d <= 4; d++) { shape_cases<double>({d}, extremes, extremes, 0); shape_cases<cd>({d}, extremes, extremes, 0); }
  auto ends = [](long d) { return std::vector<Sel>{full_sel(), step(0, d - 1, LONG_MAX), step(d - 1, 0, LONG_MIN), step(-1, -d, -LONG_MAX), single(0)}; };
  for (Dims d : {Dims{3, 2}, Dims{2, 3}, Dims{2, 2, 3}}) { shape_cases<double>(d, extremes, ends, 0); shape_cases<cd>(d, ends, ends, 1); }
  all<double>(true); all<cd>(false); }
