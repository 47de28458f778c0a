// C01: value semantics of copy-on-write storage.
//
// Explicit-state exploration.  A state is (dimensions and elements of K live
// handles in the deep-copying model) + (which handles the implementation makes
// share storage, and with how many references).  From the initial states every
// operation is applied in every reachable state up to a depth; the history that
// led to a state is re-executed on the real classes, so every model trace is
// replayed on the implementation.  After every step all handles must equal the
// model, and after destroying the handles the number of live heap blocks must be
// what it was before (AddressSanitizer watches for double release and use after
// release).
#define REF_SIGNED_ZEROS
#define REF_SPECIALS
#include "ref.h"
#include <new>
#include <unordered_set>
#include <set>
#include <deque>
#include <algorithm>
#include <tensor/sparse.h>
using namespace tensor;

// ---------------------------------------------------------------- tensors
template <class T> struct Sys {
  typedef Tensor<T> X;
  typedef Ref<T> M;
  struct Op {
    std::string name;
    std::function<bool(const std::vector<M> &)> on;
    std::function<void(std::vector<M> &)> model;
    std::function<void(std::vector<X> &)> impl;
  };
  int K;
  std::vector<Op> ops;

  static T val(int k) { return label<T>(k, 40); }
  static const size_t CAP = 6;

  void add(const std::string &n, std::function<bool(const std::vector<M> &)> on,
           std::function<void(std::vector<M> &)> m, std::function<void(std::vector<X> &)> x) {
    ops.push_back(Op{n, on, m, x});
  }
  static M mflat(const M &a) { return M(Dims{(long)a.v.size()}, a.v); }
  static M mtrans(const M &a) {
    M r(Dims{a.d[1], a.d[0]});
    for (long i = 0; i < a.d[0]; i++) for (long j = 0; j < a.d[1]; j++) r(Dims{j, i}) = a(Dims{i, j});
    return r;
  }

  explicit Sys(int k, bool rich) : K(k) {
    auto nm = [](const char *f, int i, int j = -1) { char b[80]; snprintf(b, 80, f, i, j); return std::string(b); };
    auto yes = [](const std::vector<M> &) { return true; };
    for (int i = 0; i < K; i++) {
      auto nonempty = [i](const std::vector<M> &m) { return !m[i].v.empty(); };
      for (int j = 0; j < K; j++) {
        add(nm("h%d = h%d", i, j), yes, [=](std::vector<M> &m) { m[i] = M(m[j]); }, [=](std::vector<X> &x) { x[i] = x[j]; });
        if (i != j) {
          add(nm("destroy h%d, construct it as a copy of h%d", i, j), yes, [=](std::vector<M> &m) { m[i] = m[j]; },
              [=](std::vector<X> &x) { x[i].~X(); new (&x[i]) X(x[j]); });
          if (i < j) add(nm("swap(h%d,h%d)", i, j), yes, [=](std::vector<M> &m) { std::swap(m[i], m[j]); }, [=](std::vector<X> &x) { std::swap(x[i], x[j]); });
          add(nm("h%d = flatten(h%d)", i, j), [=](const std::vector<M> &m) { return !m[j].d.empty(); }, [=](std::vector<M> &m) { m[i] = mflat(m[j]); },
              [=](std::vector<X> &x) { x[i] = flatten(x[j]); });
          add(nm("h%d = Tensor(Vector(h%d))", i, j), yes, [=](std::vector<M> &m) { m[i] = mflat(m[j]); },
              [=](std::vector<X> &x) { Vector<T> v = x[j]; x[i] = X(v); if (v.size()) v.at(0) = T(99); });
          add(nm("h%d = transpose(h%d)", i, j), [=](const std::vector<M> &m) { return m[j].d.size() == 2; },
              [=](std::vector<M> &m) { m[i] = mtrans(m[j]); }, [=](std::vector<X> &x) { x[i] = transpose(x[j]); });
          add(nm("h%d = Tensor(reversed dims, h%d)", i, j), [=](const std::vector<M> &m) { return m[j].d.size() == 2; },
              [=](std::vector<M> &m) { Dims d = {m[j].d[1], m[j].d[0]}; m[i] = M(d, m[j].v); },
              [=](std::vector<X> &x) { Indices d = x[j].dimensions(); tensor::index a = d[0]; d.at(0) = d[1]; d.at(1) = a; x[i] = X(d, x[j]); d.at(0) = 77; });
          if (rich) {
            add(nm("h%d = permute(h%d,0,0)", i, j), [=](const std::vector<M> &m) { return !m[j].d.empty(); },
                [=](std::vector<M> &m) { m[i] = m[j]; }, [=](std::vector<X> &x) { x[i] = permute(x[j], 0, 0); });
            add(nm("h%d = change_dimension(h%d,0,same)", i, j), [=](const std::vector<M> &m) { return !m[j].d.empty() && !m[j].v.empty(); },
                [=](std::vector<M> &m) { m[i] = m[j]; }, [=](std::vector<X> &x) { x[i] = change_dimension(x[j], 0, x[j].dimension(0)); });
            add(nm("h%d = conj(conj(h%d))", i, j), [=](const std::vector<M> &m) { return true; },
                [=](std::vector<M> &m) { m[i] = m[j]; }, [=](std::vector<X> &x) { x[i] = conj(conj(x[j])); });
            add(nm("h%d = h%d(range())", i, j), [=](const std::vector<M> &m) { return m[j].d.size() == 1; },
                [=](std::vector<M> &m) { m[i] = m[j]; }, [=](std::vector<X> &x) { x[i] = X(x[j](range())); });
            add(nm("h%d = reshape(h%d,1,n)", i, j), [=](const std::vector<M> &m) { return true; },
                [=](std::vector<M> &m) { m[i] = M(Dims{1, (long)m[j].v.size()}, m[j].v); },
                [=](std::vector<X> &x) { x[i] = reshape(x[j], 1, x[j].size()); });
          }
          // slice assignment between handles
          add(nm("h%d(all) = h%d", i, j), [=](const std::vector<M> &m) { return m[i].d.size() == 1 && m[i].d == m[j].d && !m[i].v.empty(); },
              [=](std::vector<M> &m) { m[i].v = m[j].v; }, [=](std::vector<X> &x) { x[i].at(range()) = x[j]; });
          add(nm("h%d(0:0) = h%d(last)", i, j), [=](const std::vector<M> &m) { return m[i].d.size() == 1 && m[j].d.size() == 1 && !m[i].v.empty() && !m[j].v.empty(); },
              [=](std::vector<M> &m) { m[i].v[0] = m[j].v.back(); },
              [=](std::vector<X> &x) { x[i].at(range(0, 0)) = x[j](range(x[j].size() - 1)); });
        }
        add(nm("h%d += h%d", i, j), [=](const std::vector<M> &m) { return m[i].d == m[j].d && !m[i].v.empty() && mag(m[i].v[0]) + mag(m[j].v[0]) < 1e6; },
            [=](std::vector<M> &m) { for (size_t k = 0; k < m[i].v.size(); k++) m[i].v[k] += T(m[j].v[k]); },
            [=](std::vector<X> &x) { x[i] += x[j]; });
        if (rich)
          add(nm("h%d = h%d", i, i) + nm(" - h%d", j), [=](const std::vector<M> &m) { return m[i].d == m[j].d && !m[i].v.empty(); },
              [=](std::vector<M> &m) { std::vector<T> b = m[j].v; for (size_t k = 0; k < m[i].v.size(); k++) m[i].v[k] -= b[k]; },
              [=](std::vector<X> &x) { x[i] = X(x[i] - x[j]); });
      }
      add(nm("h%d.at(first) = v", i), nonempty, [=](std::vector<M> &m) { m[i].v[0] = val(0); }, [=](std::vector<X> &x) { x[i].at_seq(0) = val(0); });
      add(nm("h%d.at(-1) = w", i), nonempty, [=](std::vector<M> &m) { m[i].v.back() = val(1); },
          [=](std::vector<X> &x) { if (x[i].rank() == 2) x[i].at(-1, -1) = val(1); else x[i].at(-1) = val(1); });
      add(nm("h%d written through its iterators", i), nonempty,
          [=](std::vector<M> &m) { for (auto &e : m[i].v) e = e + T(1); if (mag(m[i].v[0]) > 1e6) m[i].v[0] = T(0); },
          [=](std::vector<X> &x) { for (T *p = x[i].begin(), *e = x[i].end(); p != e; ++p) *p = *p + T(1); if (mag(x[i][0]) > 1e6) x[i].at_seq(0) = T(0); });
      add(nm("h%d.fill_with(u)", i), [=](const std::vector<M> &) { return true; },
          [=](std::vector<M> &m) { std::fill(m[i].v.begin(), m[i].v.end(), val(2)); }, [=](std::vector<X> &x) { x[i].fill_with(val(2)); });
      add(nm("h%d(0:0 or row 0) = z", i), [=](const std::vector<M> &m) { return !m[i].v.empty(); },
          [=](std::vector<M> &m) { if (m[i].d.size() == 2) for (long c = 0; c < m[i].d[1]; c++) m[i](Dims{0, c}) = val(3); else m[i].v[0] = val(3); },
          [=](std::vector<X> &x) { if (x[i].rank() == 2) x[i].at(range(0), range()) = val(3); else x[i].at(range(0, 0)) = val(3); });
      add(nm("h%d.reshape(reversed)", i), [=](const std::vector<M> &m) { return m[i].d.size() == 2 && m[i].d[0] != m[i].d[1]; },
          [=](std::vector<M> &m) { std::swap(m[i].d[0], m[i].d[1]); },
          [=](std::vector<X> &x) { x[i].reshape(igen << x[i].dimension(1) << x[i].dimension(0)); });
      add(nm("h%d = fresh 2x2", i), yes, [=](std::vector<M> &m) { m[i] = labelled<T>(Dims{2, 2}, 10); },
          [=](std::vector<X> &x) { x[i] = to_tensor(labelled<T>(Dims{2, 2}, 10)); });
      add(nm("h%d = Tensor()", i), yes, [=](std::vector<M> &m) { m[i] = M(); }, [=](std::vector<X> &x) { x[i] = X(); });
      add(nm("dims copy of h%d modified", i), [=](const std::vector<M> &m) { return !m[i].d.empty(); }, [=](std::vector<M> &m) {},
          [=](std::vector<X> &x) { Indices d = x[i].dimensions(); d.at(0) = 1000; Indices e(d); *e.begin() = 5; d = x[i].dimensions(); *(d.end() - 1) = 3; });
      add(nm("by-value argument of h%d modified", i), nonempty, [=](std::vector<M> &m) {},
          [=](std::vector<X> &x) { auto f = [](X c) { c.at_seq(0) = T(1234); c.reshape(igen << 1 << c.size()); c.fill_with_zeros(); }; f(x[i]); });
      add(nm("h%d *= 2 (halved if large)", i), nonempty,
          [=](std::vector<M> &m) { T f = mag(m[i].v[0]) > 1000 ? T(0.0) : T(2.0); for (auto &e : m[i].v) e = e * f; },
          [=](std::vector<X> &x) { T f = mag(x[i][0]) > 1000 ? T(0.0) : T(2.0); x[i] *= f; });
      if (rich) {
        add(nm("vector of copies of h%d", i), nonempty, [=](std::vector<M> &m) { m[i].v[0] = val(5); },
            [=](std::vector<X> &x) {
              std::vector<X> v(3, x[i]); v.push_back(x[i]); v[1].at_seq(0) = T(777); v.erase(v.begin());
              x[i].at_seq(0) = val(5); v.insert(v.begin(), x[i]); v[0].at_seq(0) = T(778); });
        add(nm("scale_inplace(h%d,0,2)", i), [=](const std::vector<M> &m) { return !m[i].v.empty() && mag(m[i].v[0]) < 1e6; },
            [=](std::vector<M> &m) { for (auto &e : m[i].v) e = e * T(2.0); },
            [=](std::vector<X> &x) { X v((tensor::index)x[i].dimension(0)); v.fill_with(T(2.0)); scale_inplace(x[i], 0, v); });
      }
    }
  }

  std::vector<M> init(int which) const {
    std::vector<M> m(K);
    if (which == 0) { m[0] = labelled<T>(Dims{2, 2}); m[1] = labelled<T>(Dims{3}, 20); }
    else if (which == 3) { m[0] = labelled<T>(Dims{70, 61}); m[1] = labelled<T>(Dims{4100}, 20); if (K > 2) m[2] = m[0]; }
    else if (which == 2) { m[0] = labelled<T>(Dims{4}); m[1] = labelled<T>(Dims{2}, 20); if (K > 2) m[2] = labelled<T>(Dims{2, 1}, 30); }
    else { m[0] = labelled<T>(Dims{1, 3}); m[1] = labelled<T>(Dims{2}, 20); if (K > 2) m[2] = labelled<T>(Dims{2}, 30); }
    return m;
  }

  // Initial state 2 wraps memory that the library does not own.
  T memory[24];
  void fill(int in, std::vector<X> &x, const std::vector<M> &m) {
    for (int i = 0; i < K; i++) if (!m[i].d.empty()) {
      if (in == 3 && i == 2) { x[2] = x[0]; continue; }
      if (in != 2) { x[i] = to_tensor(m[i]); continue; }
      std::copy(m[i].v.begin(), m[i].v.end(), memory + 8 * i);
      X t(Vector<T>((tensor::index)m[i].v.size(), memory + 8 * i));
      if (m[i].d.size() == 1) x[i] = t; else x[i] = X(to_indices(m[i].d), t);
    }
  }

  static uint64_t digest(const std::vector<M> &m, const std::vector<X> &x) {
    mc::Hash h;
    for (auto &a : m) h.add(hash(a));
    for (size_t i = 0; i < x.size(); i++) {
      h.add(x[i].ref_count());
      for (size_t j = 0; j < i; j++) h.add((bool)(x[i].begin_const() == x[j].begin_const() && x[i].size()));
    }
    return h.h;
  }
  std::string text(int init, const std::vector<int> &w) const {
    std::string s = std::string(tname<T>()) + " handles, initial state " + std::to_string(init) + ": ";
    for (size_t i = 0; i < w.size(); i++) s += (i ? "; " : "") + ops[w[i]].name;
    return s;
  }

  // Executes a history from scratch; compares after every step >= from.
  // Returns false on mismatch (already reported).  *digest_out after last step.
  bool execute(int in, const std::vector<int> &w, std::vector<M> &m, uint64_t *dig) {
    m = init(in);
    bool ok = true;
    {
      std::vector<X> x(K);
      fill(in, x, m);
      for (size_t s = 0; s < w.size() && ok; s++) {
        ops[w[s]].model(m);
        ops[w[s]].impl(x);
        mc::transition();
        if (s + 1 == w.size())
          for (int i = 0; i < K; i++)
            if (!equals(x[i], m[i])) {
              mc::fail("after [" + text(in, w) + "] handle h" + std::to_string(i) + " is " + show(x[i]) + " expected " + show(m[i]));
              ok = false; break;
            }
      }
      if (ok && dig) *dig = digest(m, x);
    }
    // Once more without the model: the storage balance.
    std::vector<M> m0 = init(in);
    long before = mc::live_blocks;
    if (ok) {
      std::vector<X> x(K);
      fill(in, x, m0);
      for (size_t s = 0; s < w.size(); s++) ops[w[s]].impl(x);
    }
    if (ok && mc::live_blocks != before) {
      mc::fail("after [" + text(in, w) + "] and destruction of all handles " + std::to_string(mc::live_blocks - before) + " heap blocks remain");
      ok = false;
    }
    return ok;
  }

  // Breadth-first over distinct states to depth pre (every shard, cheap), then one
  // case per distinct state at depth pre: every continuation of up to extra
  // operations, again merging equal states.
  void explore_from(int in, int pre, int extra) {
    std::vector<std::vector<int>> frontier(1), next;
    std::unordered_set<uint64_t> known;
    for (int lev = 1; lev <= pre; lev++) {
      mc::prelude([&]() -> std::string { return text(in, {}) + "all histories of length " + std::to_string(lev); }, [&] {
        next.clear();
        for (auto &w : frontier) {
          std::vector<M> base = init(in), m; uint64_t d;
          for (int o : w) ops[o].model(base);
          for (size_t o = 0; o < ops.size(); o++) {
            if (!ops[o].on(base)) continue;
            std::vector<int> w2 = w; w2.push_back(o);
            if (!execute(in, w2, m, &d)) continue;
            mc::note_trace();
            size_t tot = 0; for (auto &q : m) tot += q.v.size();
            if (tot > 3 * CAP && in != 3) continue;
            if (known.insert(d).second) { mc::state(d); next.push_back(w2); }
          }
        }
        mc::nontrivial();
      });
      frontier.swap(next);
    }
    if (!extra) return;
    for (auto &w0 : frontier)
      mc::run_case([&]() -> std::string { return text(in, w0) + "; then every continuation of up to " + std::to_string(extra) + " operations"; }, [&] {
        std::vector<M> m; uint64_t d;
        std::unordered_set<uint64_t> seen;
        std::deque<std::vector<int>> queue(1, w0);
        mc::nontrivial();
        while (!queue.empty()) {
          std::vector<int> w = queue.front(); queue.pop_front();
          std::vector<M> base = init(in);
          for (int o : w) ops[o].model(base);
          for (size_t o = 0; o < ops.size(); o++) {
            if (!ops[o].on(base)) continue;
            std::vector<int> w2 = w; w2.push_back(o);
            if (!execute(in, w2, m, &d)) return;
            mc::note_trace();
            size_t tot = 0; for (auto &q : m) tot += q.v.size();
            if ((tot > 3 * CAP && in != 3) || known.count(d)) continue;
            if (seen.insert(d).second) { mc::state(d); if ((int)w2.size() < pre + extra) queue.push_back(w2); }
          }
        }
      });
  }
};

// ---------------------------------------------------------------- index lists
static void indices_histories(int depth) {
  // Operations over three index lists; all words of the given length.
  struct Op { const char *name; int i, j, kind; };
  std::vector<Op> ops;
  for (int i = 0; i < 3; i++)
    for (int j = 0; j < 3; j++) {
      ops.push_back(Op{"assign", i, j, 0});
      if (i != j) ops.push_back(Op{"construct copy", i, j, 1});
      ops.push_back(Op{"concatenate", i, j, 2});
      ops.push_back(Op{"through Vector", i, j, 6});
    }
  for (int i = 0; i < 3; i++) {
    ops.push_back(Op{"write first", i, i, 3}); ops.push_back(Op{"write by iterator", i, i, 4});
    ops.push_back(Op{"clear", i, i, 5}); ops.push_back(Op{"grow and refill", i, i, 7});
  }
  mc::all_words(2, ops.size(), [&](const std::vector<int> &pre) {
    mc::run_case([&]() -> std::string {
      return std::string("index lists: ") + ops[pre[0]].name + std::to_string(ops[pre[0]].i) + std::to_string(ops[pre[0]].j) + "; " +
             ops[pre[1]].name + std::to_string(ops[pre[1]].i) + std::to_string(ops[pre[1]].j) + "; then every continuation"; }, [&] {
      mc::nontrivial();
      mc::all_words(depth - 2, ops.size(), [&](const std::vector<int> &post) {
        if (mc::failed()) return;
        std::vector<int> w(pre); w.insert(w.end(), post.begin(), post.end());
        std::vector<Dims> m = {{1, 2, 3}, {7}, {}};
        long before = mc::live_blocks;
        {
          std::vector<Indices> x; for (auto &d : m) x.push_back(to_indices(d));
          long before2 = 0; (void)before2;
          for (int o : w) {
            const Op &p = ops[o];
            switch (p.kind) {
              case 0: m[p.i] = Dims(m[p.j]); x[p.i] = x[p.j]; break;
              case 1: m[p.i] = m[p.j]; x[p.i].~Indices(); new (&x[p.i]) Indices(x[p.j]); break;
              case 2: if (m[p.i].size() + m[p.j].size() <= 12) { Dims c(m[p.i]); c.insert(c.end(), m[p.j].begin(), m[p.j].end()); m[p.i] = c; x[p.i] = x[p.i] << x[p.j]; } break;
              case 3: if (!m[p.i].empty()) { m[p.i][0] += 100; x[p.i].at(0) += 100; } break;
              case 4: if (!m[p.i].empty()) { m[p.i].back() = -5; *(x[p.i].end() - 1) = -5; } break;
              case 5: m[p.i].clear(); x[p.i] = Indices(); break;
              case 6: { Vector<tensor::index> v = x[p.j]; x[p.i] = Indices(v); m[p.i] = Dims(m[p.j]); if (v.size()) v.at(v.size() - 1) = 555; } break;
              case 7: { m[p.i] = {4, 5}; x[p.i].resize(2); x[p.i].at(0) = 4; x[p.i].at(1) = 5; } break;
            }
            mc::transition();
          }
          mc::Hash h;
          for (int i = 0; i < 3; i++) {
            if (from_indices(x[i]) != m[i] || x[i].size() != (tensor::index)m[i].size())
              mc::fail("index list " + std::to_string(i) + " is " + mc::seq(from_indices(x[i])) + " expected " + mc::seq(m[i]) + " after ops " + mc::seq(w));
            for (long q : m[i]) h.add(q);
            h.add(x[i].ref_count());
          }
          mc::state(h.h); mc::note_trace();
        }
        std::vector<Dims>().swap(m);
        (void)before;
      });
    });
  });
}

// ---------------------------------------------------------------- not owned data
// Vectors over memory that the library does not own.  Two words of operations:
//  (a) handles over disjoint parts of the memory: every operation, deep copies as
//      the model (a write through a sole wrapper may or may not reach the memory,
//      a write through any other handle must not);
//  (b) handles over every pair of (offset, length) parts of the same memory: only
//      assignments, copies and new storage, so again plain values are the model.
// After the handles are gone, no heap block may remain.
template <class T> static T fval(int k) { return (T)(double)(k + 1); }
template <class T> static bool vsame(const Vector<T> &x, const std::vector<T> &m) {
  if ((size_t)x.size() != m.size() || x.end() - x.begin() != (long)m.size()) return false;
  for (size_t k = 0; k < m.size(); k++) if (!(x[k] == m[k])) return false;
  return true;
}
template <class T> static void foreign_words(const char *ty, int depth) {
  typedef Vector<T> V;
  struct Op { const char *name; int i, j, kind; };
  std::vector<Op> ops;
  for (int i = 0; i < 3; i++)
    for (int j = 0; j < 3; j++) {
      ops.push_back(Op{"assign", i, j, 0});
      if (i != j) ops.push_back(Op{"construct copy", i, j, 1});
      if (i != j) ops.push_back(Op{"copy, write the copy", i, j, 2});
    }
  size_t pure = ops.size();
  for (int i = 0; i < 3; i++) {
    ops.push_back(Op{"resize", i, i, 3});
    ops.push_back(Op{"clear", i, i, 4});
  }
  size_t upto_b = ops.size();
  for (int i = 0; i < 3; i++) {
    ops.push_back(Op{"write first", i, i, 5});
    ops.push_back(Op{"write last through the iterator", i, i, 6});
  }
  (void)pure;
  static const int parts[][6] = {   // offset and length of the three parts, disjoint
    {0, 2, 2, 3, 5, 1}, {0, 1, 1, 1, 2, 4}, {0, 0, 0, 3, 3, 3}};
  auto run = [&](const int *part, const std::vector<int> &w) {
    T buf[6]; T orig[6];
    for (int k = 0; k < 6; k++) orig[k] = buf[k] = fval<T>(k);
    std::vector<std::vector<T>> m(3);
    for (int h = 0; h < 3; h++) m[h].assign(buf + part[2 * h], buf + part[2 * h] + part[2 * h + 1]);
    long before = mc::live_blocks, after = 0;
    bool wrote = false;
    for (int pass = 0; pass < 2; pass++) {     // the second pass: storage balance, no model
      for (int k = 0; k < 6; k++) buf[k] = orig[k];
      before = mc::live_blocks;
      {
        V x[3] = {V(part[1], buf + part[0]), V(part[3], buf + part[2]), V(part[5], buf + part[4])};
        int nv = 100;
        for (int o : w) {
          const Op &p = ops[o];
          switch (p.kind) {
            case 0: if (!pass) m[p.i] = std::vector<T>(m[p.j]); x[p.i] = x[p.j]; break;
            case 1: if (!pass) m[p.i] = m[p.j]; x[p.i].~V(); new (&x[p.i]) V(x[p.j]); break;
            case 2: { V c(x[p.j]); if (c.size()) { c.at(0) = fval<T>(500); c.at(c.size() - 1) = fval<T>(501); } if (!pass) m[p.i] = m[p.j]; x[p.i] = x[p.j]; } break;
            case 3: { int n = (nv % 3) + 1; if (!pass) { m[p.i].assign(n, T()); for (int k = 0; k < n; k++) m[p.i][k] = fval<T>(nv + k); }
                      x[p.i].resize(n); T *q = x[p.i].begin(); for (int k = 0; k < n; k++) q[k] = fval<T>(nv + k); nv += n; } break;
            case 4: if (!pass) m[p.i].clear(); x[p.i] = V(); break;
            case 5: if (x[p.i].size()) { if (!pass) m[p.i][0] = fval<T>(nv); x[p.i].at(0) = fval<T>(nv); nv++; wrote = true; } break;
            case 6: if (x[p.i].size()) { if (!pass) m[p.i].back() = fval<T>(nv); *(x[p.i].end() - 1) = fval<T>(nv); nv++; wrote = true; } break;
          }
          mc::transition();
          if (!pass)
            for (int h = 0; h < 3; h++)
              if (!vsame(x[h], m[h])) {
                mc::fail(std::string(ty) + " vectors over foreign memory: wrong contents or length of vector " + std::to_string(h) + " after " + p.name + " " +
                         std::to_string(p.i) + " " + std::to_string(p.j) + " in the word " + mc::seq(w));
                return;
              }
        }
        if (!pass) {
          mc::Hash h;
          for (int q = 0; q < 3; q++) { h.add(m[q].size()); for (auto &e : m[q]) h.add((long)std::abs(e)); h.add(x[q].ref_count());
            h.add((long)(x[q].begin_const() >= buf && x[q].begin_const() < buf + 6)); }
          mc::state(h.h); mc::note_trace();
        }
      }
      after = mc::live_blocks;
      if (!wrote) for (int k = 0; k < 6; k++) if (!(buf[k] == orig[k])) { mc::fail(std::string(ty) + " vectors: foreign memory changed without a write to its wrapper, word " + mc::seq(w)); return; }
    }
    if (after != before)
      mc::fail(std::string(ty) + " vectors over foreign memory: " + std::to_string(after - before) + " heap blocks remain after the word " + mc::seq(w));
  };
  for (auto &part : parts)
    for (size_t o = 0; o < ops.size(); o++)
      mc::run_case([&]() -> std::string { return std::string(ty) + " vectors over parts " + mc::seq(std::vector<int>(part, part + 6)) + " of foreign memory, words starting with " + ops[o].name + " " + std::to_string(ops[o].i) + std::to_string(ops[o].j); }, [&] {
        mc::nontrivial();
        for (int len = 0; len < depth; len++)
          mc::all_words(len, ops.size(), [&](const std::vector<int> &rest) {
            if (mc::failed()) return;
            std::vector<int> w(1, o); w.insert(w.end(), rest.begin(), rest.end());
            run(part, w);
          });
      });
  for (int off = 0; off <= 3; off++)
    for (int len = 0; off + len <= 3; len++)
      mc::run_case([&]() -> std::string { return std::string(ty) + " vectors over overlapping parts of foreign memory, the first " + std::to_string(len) + " elements from " + std::to_string(off); }, [&] {
        mc::nontrivial();
        for (int off2 = 0; off2 <= 3; off2++)
          for (int len2 = 0; off2 + len2 <= 3; len2++) {
            int part[6] = {off, len, off2, len2, 0, 3};
            for (int l = 1; l <= (depth > 3 ? 3 : 2); l++)
              mc::all_words(l, upto_b, [&](const std::vector<int> &w) { if (!mc::failed()) run(part, w); });
          }
      });
}

// Tensors made from vectors over foreign memory: assignment between tensors over
// every pair of parts of the same memory, and a private copy on the first write.
template <class T> static void foreign_tensors() {
  for (int off = 0; off <= 3; off++)
    for (int len = 0; off + len <= 4; len++)
      mc::run_case([&]() -> std::string { return std::string(tname<T>()) + " tensors over foreign memory from " + std::to_string(off) + " length " + std::to_string(len); }, [&] {
        mc::nontrivial();
        for (int off2 = 0; off2 <= 3; off2++)
          for (int len2 = 0; off2 + len2 <= 4; len2++)
            for (int pass = 0; pass < 2; pass++) {
              T *buf = new T[4];
              for (int k = 0; k < 4; k++) buf[k] = label<T>(k);
              Ref<T> ra(Dims{len}, std::vector<T>(buf + off, buf + off + len)), rb(Dims{len2}, std::vector<T>(buf + off2, buf + off2 + len2));
              bool ok = true;
              std::string why;
              long before = mc::live_blocks;
              {
                Tensor<T> a(Vector<T>(len, buf + off)), b(Vector<T>(len2, buf + off2)), c(a);
                Tensor<T> d = a;
                if (!pass) ok = equals(a, ra) && equals(b, rb) && equals(c, ra) && equals(d, ra);
                c = b;
                if (!pass) ok = ok && equals(c, rb) && equals(a, ra) && equals(b, rb);
                c = a; a = b;
                if (!pass) ok = ok && equals(c, ra) && equals(a, rb) && equals(b, rb) && equals(d, ra);
                b = c;
                if (!pass) ok = ok && equals(c, ra) && equals(a, rb) && equals(b, ra) && equals(d, ra);
                // b, c, d look at the first part
                if (len) { b.at(0) = label<T>(0, 70); if (!pass) ok = ok && b[0] == label<T>(0, 70) && equals(c, ra) && equals(d, ra); }
                if (len) { Tensor<T> e = d; e.fill_with(label<T>(1, 70)); if (!pass) ok = ok && equals(d, ra) && equals(c, ra); }
                if (len) { Tensor<T> e(igen << 1 << len, d); *(e.end() - 1) = T(); if (!pass) ok = ok && equals(d, ra) && equals(c, ra); }
                if (!pass) ok = ok && equals(c, ra) && equals(d, ra);
              }
              long after = mc::live_blocks;
              for (int k = 0; k < 4; k++) if (!(buf[k] == label<T>(k))) ok = false;
              delete[] buf;   // a double release is reported by the sanitizer
              mc::transition(9);
              if (!ok) mc::fail("values differ for the second part at " + std::to_string(off2) + " of length " + std::to_string(len2));
              if (pass && after != before) mc::fail(std::to_string(after - before) + " heap blocks remain, second part at " + std::to_string(off2) + " of length " + std::to_string(len2));
            }
      });
}

static void foreign_data(bool th) {
  foreign_words<double>("real", th ? 4 : 3);
  foreign_words<cd>("complex", th ? 4 : 3);
  foreign_words<tensor::index>("index", th ? 4 : 3);
  foreign_tensors<double>();
  foreign_tensors<cd>();
}

// ---------------------------------------------------------------- sparse values
static void sparse_copies() {
  for (int ty = 0; ty < 2; ty++)
    for (int pat = 0; pat < 16; pat++)
      mc::run_case([&]() -> std::string { return "sparse matrix copies, pattern " + std::to_string(pat) + (ty ? " complex" : " real"); }, [&] {
        RTensor d = RTensor::zeros(2, 2);
        for (int k = 0; k < 4; k++) if (pat >> k & 1) d.at_seq(k) = k + 1;
        RSparse a(d), b(a), c;
        c = b; b = -b; b = b + a; c = c * 2.0; RSparse e = transpose(a); e = e - e;
        mc::check(all_equal(full(a), d), "sparse source changed by operations on its copies");
        mc::check(all_equal(full(c), RTensor(d * 2.0)), "copy of copy wrong");
        mc::transition(6);
      });
}

// Many owners of the same storage: one of them writes, all others keep their values, in
// every order of release; around powers of two, where a counter of owners might wrap.
template <class V, class Mk, class Wr, class Eq> static void many_owners(const char *ty, Mk make, Wr write, Eq same) {
  std::vector<int> counts = {2, 3, 15, 16, 17, 127, 128, 129, 254, 255, 256, 257, 258, 511, 512, 513, 1025};
  if (mc::thorough) for (int k : {4095, 4096, 4097, 16385}) counts.push_back(k);
  for (int k : {32767, 32768, 32769, 65534, 65535, 65536, 65537, 65538, 131073}) counts.push_back(k);
  for (int n : counts)
    for (int who = 0; who < 3; who++)
      for (int order = 0; order < 3; order++)
        mc::run_case([&]() -> std::string { return std::string(ty) + ": " + std::to_string(n) + " owners of one storage, writer " + std::to_string(who) + ", order of release " + std::to_string(order); }, [&] {
          mc::nontrivial();
          long before = mc::live_blocks;
          bool ok = true;
          {
            std::vector<V *> h;
            h.reserve(n);
            for (int k = 0; k < n; k++) h.push_back(k == 0 ? new V(make(0)) : order == 1 ? new V(*h[k - 1]) : new V(*h[0]));
            if (order == 2) for (int k = 0; k < n; k++) { V other(make(1)); *h[k] = other; *h[k] = *h[k ? 0 : n - 1]; if (k == 0) *h[0] = make(0); }
            int w = who == 0 ? 0 : who == 1 ? n / 2 : n - 1;
            write(*h[w]);
            for (int k = 0; k < n; k++) if (!same(*h[k], k == w ? 2 : 0)) { ok = false; break; }
            // release some, then let another one write
            for (int k = 0; k < n; k++) { int r = order ? n - 1 - k : k; if (r != w && k > n / 3) { delete h[r]; h[r] = 0; } }
            for (int k = 0; k < n && ok; k++) if (h[k] && !same(*h[k], k == w ? 2 : 0)) ok = false;
            for (int k = 0; k < n; k++) if (h[k] && k != w) { write(*h[k]); ok = ok && same(*h[k], 2); delete h[k]; h[k] = 0; break; }
            for (int k = 0; k < n; k++) if (h[k]) { ok = ok && same(*h[k], k == w ? 2 : 0); delete h[k]; }
            mc::transition(2 * n);
          }
          if (!ok) mc::fail("an owner's value changed");
          else if (mc::live_blocks != before) mc::fail(std::to_string(mc::live_blocks - before) + " heap blocks remain");
        });
}
static void owners() {
  many_owners<RTensor>("real tensors", [](int k) { RTensor t(2, 2); t.fill_with(k + 1.5); return t; }, [](RTensor &t) { t.at(1, 1) = 7; },
                       [](const RTensor &t, int k) { return t.rank() == 2 && t.rows() == 2 && t.columns() == 2 && t[0] == 1.5 && t[1] == 1.5 && t[2] == 1.5 && t[3] == (k == 2 ? 7 : 1.5); });
  many_owners<CTensor>("complex tensors", [](int k) { CTensor t(igen << 2); t.fill_with(cd(k, 1)); return t; }, [](CTensor &t) { t *= cd(0, 1); },
                       [](const CTensor &t, int k) { return t.size() == 2 && t[0] == (k == 2 ? cd(-1, 0) : cd(0, 1)) && t[1] == t[0]; });
  many_owners<Indices>("index lists", [](int k) { Indices t(2); t.at(0) = k; t.at(1) = 5; return t; }, [](Indices &t) { t.at(0) = 9; },
                       [](const Indices &t, int k) { return t.size() == 2 && t[0] == (k == 2 ? 9 : 0) && t[1] == 5; });
  many_owners<RSparse>("sparse matrices", [](int k) { RTensor t = RTensor::zeros(2, 2); t.at(0, 1) = k + 1; return RSparse(t); }, [](RSparse &t) { t = t * 3.0; },
                       [](const RSparse &t, int k) { return t.rows() == 2 && t.length() == 1 && t(0, 1) == (k == 2 ? 3 : 1) && t(1, 1) == 0; });
}

template <class T> static void run_sys(int K, bool rich, int pre, int extra, int inits, int first = 0) {
  Sys<T> sys(K, rich);
  for (int in = first; in < inits; in++) sys.explore_from(in, pre, extra);
}

void explore() {
  bool th = mc::thorough;
  foreign_data(th);
  owners();
  sparse_copies();
  indices_histories(th ? 5 : 4);
  run_sys<double>(3, true, 2, th ? 3 : 2, 1);
  run_sys<double>(3, true, 2, th ? 2 : 1, 2);
  run_sys<double>(3, false, 2, th ? 3 : 2, 1);
  run_sys<cd>(3, true, 2, th ? 2 : 1, 2);
  run_sys<double>(2, true, 2, th ? 2 : 1, 3, 2);
  run_sys<cd>(2, true, 2, th ? 2 : 1, 3, 2);
  run_sys<double>(2, true, 3, th ? 3 : 1, 2);
  run_sys<cd>(2, true, 3, th ? 2 : 1, 1);
  run_sys<double>(3, true, 4, 1, 1, 3);   // thousands of elements
  run_sys<cd>(3, true, 4, 1, th ? 2 : 1, 3);
}
