// C04: reshape, flatten, squeeze, permute, transpose, adjoint, change_dimension.
#define REF_SIGNED_ZEROS
#define REF_SPECIALS
#include "ref.h"
using namespace tensor;

template <class T> struct C {
  Dims d; Ref<T> r; Tensor<T> t; Tensor<T> held;
  C(const Dims &dd) : d(dd), r(labelled<T>(dd)), t(to_tensor(r)), held(t) {}
  // result of an operation: compare, then check that it is an independent value
  void result(Tensor<T> &got, const Ref<T> &e, const std::string &op) {
    mc::transition();
    if (!equals(got, e)) { mc::fail(op + " on dims " + mc::seq(d) + ": got " + show(got) + " expected " + show(e)); return; }
    if (!equals(t, r) || !equals(held, r)) { mc::fail(op + " changed its argument"); t = to_tensor(r); held = t; return; }
    if (got.size()) {
      got.at_seq(got.size() - 1) = label<T>(0, 5000); got.at_seq(0) = label<T>(0, 5000);
      if (!equals(t, r) || !equals(held, r)) { mc::fail("writing to the result of " + op + " changed its argument"); t = to_tensor(r); held = t; }
    }
    mc::Hash h; h.str(op); h.add(hash(e)); mc::state(h.h);
  }
  template <class F> void expect_ok(F f, const Ref<T> &e, const std::string &op) {
    Tensor<T> got;
    if (mc::rejects([&] { got = f((const Tensor<T> &)t); })) { mc::fail(op + " on dims " + mc::seq(d) + " rejected: " + mc::ending_message); return; }
    result(got, e, op);
  }
  template <class F> void expect_rejected(F f, const std::string &op) {
    Tensor<T> got; mc::transition();
    if (!mc::rejects([&] { got = f((const Tensor<T> &)t); })) mc::fail(op + " on dims " + mc::seq(d) + " accepted, giving " + show(got));
    if (!equals(t, r)) mc::fail("rejected " + op + " changed its argument");
  }
};

template <class F> static void divisors(long n, int rank, Dims &d, F f) {
  if (rank == 1) { d.push_back(n); f((const Dims &)d); d.pop_back(); return; }
  for (long x = 1; x <= n; x++) if (n % x == 0) { d.push_back(x); divisors(n / x, rank - 1, d, f); d.pop_back(); }
}
template <class T> static Tensor<T> reshape_n(const Tensor<T> &t, const Dims &d) {
  switch (d.size()) {
    case 1: return reshape(t, d[0]);
    case 2: return reshape(t, d[0], d[1]);
    case 3: return reshape(t, d[0], d[1], d[2]);
    case 4: return reshape(t, d[0], d[1], d[2], d[3]);
    case 5: return reshape(t, d[0], d[1], d[2], d[3], d[4]);
    default: return reshape(t, d[0], d[1], d[2], d[3], d[4], d[5]);
  }
}

template <class T> static void reshape_case(const Dims &d) {
  mc::run_case(DESC { return mc::Str() << tname<T>() << " reshape/flatten/squeeze of dims " << mc::seq(d); }, [&] {
    C<T> c(d); long n = total(d);
    mc::note_trace();
    if (n > 1) mc::nontrivial();
    auto to = [&](const Dims &e) {
      Ref<T> x(e, c.r.v);
      c.expect_ok([&](const Tensor<T> &t) { return reshape(t, to_indices(e)); }, x, "reshape to " + mc::seq(e));
      c.expect_ok([&](const Tensor<T> &t) { return reshape_n(t, e); }, x, "reshape to " + mc::seq(e));
      c.expect_ok([&](const Tensor<T> &t) { return Tensor<T>(to_indices(e), t); }, x, "construction with dims " + mc::seq(e));
    };
    auto bad = [&](const Dims &e) {
      if (total(e) == n && std::find_if(e.begin(), e.end(), [](long x) { return x < 0; }) == e.end()) return;
      c.expect_rejected([&](const Tensor<T> &t) { return reshape(t, to_indices(e)); }, "reshape to " + mc::seq(e));
      if (!e.empty()) c.expect_rejected([&](const Tensor<T> &t) { return reshape_n(t, e); }, "reshape to " + mc::seq(e));
    };
    for (int rank = 1; rank <= 6; rank++) {
      Dims e;
      if (n) divisors(n, rank, e, to);
      else each_shape(rank, 0, rank > 4 ? 1 : 2, [&](const Dims &e) { if (total(e) == 0) to(e); });
      Dims m(rank, 1);
      for (long x : {n + 1, n - 1, 2 * n, n / 2, (long)0, (long)1, -n}) for (int k = 0; k < rank; k++) { Dims q(m); q[k] = x; bad(q); }
      if (rank >= 2) { Dims q(m); q[0] = -n; q[1] = -1; bad(q); q[0] = -1; q[rank - 1] = -n; if (rank > 2) q[1] = 1; bad(q); }
    }
    // plan at depth 2: chains of reshapes end in the same sequence
    each_shape(2, 1, 6, [&](const Dims &e) {
      if (total(e) != n) return;
      Ref<T> x(d, c.r.v);
      c.expect_ok([&](const Tensor<T> &t) { return reshape(flatten(reshape(t, to_indices(e))), to_indices(d)); }, x, "reshape, flatten and reshape back");
    });
    c.expect_ok([&](const Tensor<T> &t) { return flatten(t); }, Ref<T>(Dims{n}, c.r.v), "flatten");
    Dims s; for (long x : d) if (x != 1) s.push_back(x);
    if (s.empty()) s.push_back(1);   // a one-element tensor keeps one dimension
    c.expect_ok([&](const Tensor<T> &t) { return squeeze(t); }, Ref<T>(s, c.r.v), "squeeze");
  });
}

template <class T> static Ref<T> ref_permute(const Ref<T> &r, long a, long b) {
  Dims e = r.d; std::swap(e[a], e[b]);
  Ref<T> x(e);
  each_index(r.d, [&](const Dims &i) { Dims j = i; std::swap(j[a], j[b]); x(j) = r(i); });
  return x;
}

template <class T> static void permute_case(const Dims &d) {
  mc::run_case(DESC { return mc::Str() << tname<T>() << " permute/transpose of dims " << mc::seq(d); }, [&] {
    C<T> c(d); long n = d.size();
    mc::note_trace();
    if (total(d) > 1) mc::nontrivial();
    for (long a = -n - 1; a <= n; a++) for (long b = -n - 1; b <= n; b++) {
      bool ok = a >= -n && a < n && b >= -n && b < n;
      std::string op = mc::Str() << "permute(" << a << "," << b << ")";
      auto f = [&](const Tensor<T> &t) { return permute(t, a, b); };
      if (ok) c.expect_ok(f, ref_permute(c.r, (a + n) % n, (b + n) % n), op); else c.expect_rejected(f, op);
    }
    c.expect_ok([&](const Tensor<T> &t) { return permute(t); }, ref_permute(c.r, 0, n - 1), "permute()");
    for (long a = -n; a < n; a++) c.expect_ok([&](const Tensor<T> &t) { return permute(t, a); }, ref_permute(c.r, (a + n) % n, n - 1), "permute(a)");
    if (n == 2) {
      Ref<T> x = ref_permute(c.r, 0, 1), y = x;
      for (auto &e : y.v) e = tensor::conj(e);
      c.expect_ok([&](const Tensor<T> &t) { return transpose(t); }, x, "transpose");
      c.expect_ok([&](const Tensor<T> &t) { return adjoint(t); }, y, "adjoint");
      c.expect_ok([&](const Tensor<T> &t) { return transpose(transpose(t)); }, c.r, "double transpose");
    } else {
      c.expect_rejected([&](const Tensor<T> &t) { return transpose(t); }, "transpose");
      c.expect_rejected([&](const Tensor<T> &t) { return adjoint(t); }, "adjoint");
    }
  });
}

template <class T> static void change_case(const Dims &d) {
  mc::run_case(DESC { return mc::Str() << tname<T>() << " change_dimension of dims " << mc::seq(d); }, [&] {
    C<T> c(d); long n = d.size();
    mc::note_trace();
    if (total(d) > 1) mc::nontrivial();
    for (long k = -n; k < n; k++)
      for (long s = 0; s <= d[(k + n) % n] + 3; s++) {
        long o = d[(k + n) % n]; if (total(d) > 3000 && s > 2 && s != 63 && s != 64 && s != o / 2 && s != 1024 && (s < o - 1 || s > o + 1)) continue;
        Dims e = d; e[(k + n) % n] = s;
        Ref<T> x(e, T(0));
        each_index(e, [&](const Dims &i) { if (i[(k + n) % n] < d[(k + n) % n]) x(i) = c.r(i); });
        c.expect_ok([&](const Tensor<T> &t) { return change_dimension(t, k, s); }, x, mc::Str() << "change_dimension(" << k << "," << s << ")");
      }
    for (long k : {-n - 1, n, n + 4, -2 * n - 3}) c.expect_rejected([&](const Tensor<T> &t) { return change_dimension(t, k, 2); }, mc::Str() << "change_dimension(" << k << ",2)");
    for (long k = 0; k < n; k++) if (prod(d, 0, k) * prod(d, k + 1, n)) c.expect_rejected([&](const Tensor<T> &t) { return change_dimension(t, k, -1); }, mc::Str() << "change_dimension(" << k << ",-1)");
  });
}

template <class T> static void all(bool lead) {
  bool th = mc::thorough;
  auto three = [&](const Dims &d) { reshape_case<T>(d); permute_case<T>(d); change_case<T>(d); };
  each_shape(1, 0, th ? 20 : 12, three);
  each_shape(2, 0, th ? 8 : 6, three);
  each_shape(3, 0, th ? 5 : 4, three);
  each_shape(4, 0, th ? 4 : 3, three);
  each_shape(5, 0, th ? 3 : 2, [&](const Dims &d) { if (lead || th || d[4] != 1) three(d); });
  each_shape(6, 0, 2, [&](const Dims &d) { if (lead || th || d[5] == 2) three(d); });
  Dims b = {2, 3, 5, 4, 1, 2};
  for (int rank = 3; rank <= 6; rank++) for (int s = 0; s < 6; s++) {
    Dims d; for (int k = 0; k < rank; k++) d.push_back(b[(k + s) % 6]);
    permute_case<T>(d); change_case<T>(d);
  }
  for (Dims d : {Dims{33, 17}, Dims{64, 5}, Dims{3, 70}, Dims{128, 2}, Dims{7, 40, 3}, Dims{40, 3, 9}, Dims{9, 1, 33, 2}, Dims{3, 9, 8, 4, 2}, Dims{1025, 3}, Dims{3, 1025}, Dims{257, 259}, Dims{1, 1030, 5}, Dims{130, 3, 131}, Dims{5, 1030, 2, 3}, Dims{2, 3, 1030, 2}, Dims{65539, 2}, Dims{2, 65539}, Dims{65539}, Dims{1048583}, Dims{1031, 1033}, Dims{3, 262147}, Dims{262147, 3}, Dims{2, 65539, 3, 2}}) { permute_case<T>(d); change_case<T>(d); }
}

void explore() { all<double>(true); all<cd>(false); }
