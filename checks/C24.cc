// C24: the ARPACK drivers follow their protocol: every history of calls.
#include "linalg_common.h"
#include <tensor/linalg.h>
#include <tensor/arpack.h>
#include <tensor/arpack_d.h>
#include <tensor/arpack_z.h>
#include <map>
#include <memory>
using namespace tensor;
using namespace linalg;
typedef std::vector<lc> Vals;
enum { INIT = 1, RUN = 2, DONE = 3, ERR = 4, TOOMANY = 5, NOCONV = 6 };
static const char *KIND[] = {"LM", "SM", "LR", "SR", "LI", "SI"};
template <class T> struct Which;
template <> struct Which<double> { typedef RArpack A; static const bool cplx = false; };
template <> struct Which<cd> { typedef CArpack A; static const bool cplx = true; };

// a matrix of known spectrum: D conjugated by reflections (normal)
struct Problem { int n, kind, nev; Mat m; std::vector<double> dm; std::vector<cd> zm; Vals all; std::vector<cd> start; S name; };
static LD order(lc x, int kind) { switch (kind) { case 0: return -std::abs(x); case 1: return std::abs(x); case 2: return -x.real(); case 3: return x.real(); case 4: return -x.imag(); default: return x.imag(); } }
static Problem problem(int n, int kind, int nev, int family, bool cplx) {
  Problem p; p.n = n; p.kind = kind; p.nev = nev; p.name = mc::Str() << (cplx ? "complex" : "real") << " size " << n << " " << (kind >= 0 && kind < 6 ? KIND[kind] : "?") << " " << nev << " of family " << family;
  Vals d; for (int i = 0; i < n; i++) {
    LD x = family == 0 ? (i + 1) * (i % 2 ? -1.0L : 1.0L) * (1 + 0.25L * i) : family == 1 ? 1 + i * 1.5L : family == 2 ? 2 + i * 0.01L : -3 - (LD)i * i;
    d.push_back(cplx ? lc(x, family == 3 ? 0 : 0.5L * (i + 1) * (i % 3 == 1 ? -1 : 1)) : lc(x));
  }
  p.all = d; Mat m(n, n); for (int i = 0; i < n; i++) m(i, i) = d[i];
  for (int k = 1; k <= 2; k++) { Mat v(n, 1); for (int i = 0; i < n; i++) v(i, 0) = cplx ? lc(1 + ((i * 7 + k * 3) % 5), ((i * 5 + k) % 7) - 3.0L) : lc(1 + ((i * 7 + k * 3) % 5) - 2.5L); LD nn = norm2(v); Mat h = one(n) - lc(2 / (nn * nn)) * (v * adj(v)); m = h * m * adj(h); }
  p.m = m; for (auto x : m.v) { p.dm.push_back(narrow<double>(x)); p.zm.push_back(narrow<cd>(x)); } for (int i = 0; i < n; i++) p.start.push_back(cplx ? cd(1 + (i % 4) * 0.3, 0.2 * (i % 3)) : cd(1 + (i % 4) * 0.3));
  return p;
}
static inline void axpy(int n, double *y, const double *a, double x) { for (int i = 0; i < n; i++) y[i] += a[i] * x; }
static inline void axpy(int n, cd *y, const cd *a, cd x) { double r = x.real(), s = x.imag(); for (int i = 0; i < n; i++) y[i] += cd(a[i].real() * r - a[i].imag() * s, a[i].real() * s + a[i].imag() * r); }
static inline const double *numbers(const Problem &p, double) { return p.dm.data(); }
static inline const cd *numbers(const Problem &p, cd) { return p.zm.data(); }
template <class T> static std::vector<T> multiply(const Problem &p, const T *x) { std::vector<T> y(p.n); const T *a = numbers(p, T()); for (int j = 0; j < p.n; j++) axpy(p.n, y.data(), a + j * p.n, x[j]); return y; }
template <class T> static std::vector<T> column(const std::vector<cd> &v) { std::vector<T> r; for (auto x : v) r.push_back(narrow<T>(lc(x))); return r; }
// the values are the wanted ones, in any order, and the vectors belong to them
template <class T> static S wrong(const Problem &p, const Tensor<T> &vals, const Tensor<T> *vecs, LD tol) {
  if (from_indices(vals.dimensions()) != Dims{p.nev}) return mc::Str() << "values of dimensions " << mc::seq(from_indices(vals.dimensions()));
  LD na = norm2(p.m); Vals left(p.all);
  std::vector<LD> keys; for (auto x : p.all) keys.push_back(order(x, p.kind)); std::sort(keys.begin(), keys.end()); LD limit = keys[p.nev - 1] + tol * na;
  for (int k = 0; k < p.nev; k++) { lc v = lc(vals[k]); int b = -1; for (size_t i = 0; i < left.size(); i++) if (b < 0 || std::abs(left[i] - v) < std::abs(left[b] - v)) b = i;
    if (!(std::abs(left[b] - v) <= tol * na)) return mc::Str() << "value " << cd(v) << " is not an eigenvalue";
    if (!(order(left[b], p.kind) <= limit)) return mc::Str() << "value " << cd(v) << " is not among those asked for";
    left.erase(left.begin() + b); }
  if (vecs) {
    if (from_indices(vecs->dimensions()) != Dims{p.n, p.nev}) return mc::Str() << "vectors of dimensions " << mc::seq(from_indices(vecs->dimensions()));
    Mat V = to_mat(*vecs); for (int k = 0; k < p.nev; k++) { Mat v = col(V, k); LD nn = norm2(v); if (!(std::abs(nn - 1) <= 1e-8L)) return mc::Str() << "vector " << k << " has norm " << (double)nn;
      if (!(norm2(p.m * v - lc(vals[k]) * v) <= 50 * tol * na)) return mc::Str() << "vector " << k << " does not belong to its value"; }
  }
  return "";
}
template <class T> static void apply(typename Which<T>::A &a, const Problem &p, int way) {
  if (way == 0) { std::vector<T> y = multiply(p, a.get_x_vector()); std::copy(y.begin(), y.end(), a.get_y_vector()); }
  else { const Tensor<T> x = a.get_x(); std::vector<T> y = multiply(p, x.begin_const()); a.set_y(Tensor<T>(Vector<T>(y.size(), way == 1 ? y.data() : std::copy(y.begin(), y.end(), a.get_y_vector()) - y.size()))); }
}
template <class T> struct Answer { int updates, status; Tensor<T> vals, vecs; };
template <class T> static Answer<T> reference(const Problem &p, int maxiter = 0) {
  typename Which<T>::A a(p.n, (EigType)p.kind, p.nev); std::vector<T> s = column<T>(p.start); a.set_start_vector(s.data()); if (maxiter) a.set_maxiter(maxiter);
  Answer<T> r; r.updates = 1; int st = a.update(); while (st == RUN && r.updates < 20000) { apply<T>(a, p, 0); st = a.update(); r.updates++; mc::transition(); }
  r.status = st; if (st == DONE) r.vals = a.get_data(&r.vecs); return r;
}
// one driver with a model of what it must do
enum Op { START, RANDOM, TOL, MAXIT, UPDATE, XVEC, YVEC, GETX, GETY, SETY, QUERY, VALUES, NOPS };
static const char *ONAME[] = {"set_start_vector", "set_random_start_vector", "set_tolerance", "set_maxiter", "update", "get_x_vector", "get_y_vector", "get_x", "get_y", "set_y", "get_status", "get_data"};
template <class T> struct Machine {
  const Problem &p; typename Which<T>::A a; int state; bool random, loose; long count; std::vector<T> y; bool have_y; bool taken;
  Machine(const Problem &q) : p(q), a(q.n, (EigType)q.kind, q.nev), state(INIT), random(true), loose(false), count(0), have_y(false), taken(false) {}
  // the iteration goes on: y = A x and update
  bool go(int way) { if (state == RUN) { if (have_y && way == 3) {} else apply<T>(a, p, way % 3); } else if (state != INIT) return false; have_y = false; int was = state; int s = a.update(); count++; mc::transition(); if (s != a.get_status()) { mc::fail("update returns another status than get_status"); return false; }
    if (s != RUN && s != DONE && s != TOOMANY && s != NOCONV) { mc::fail(mc::Str() << "update " << count << " from status " << was << " gives status " << s); return false; } state = s; return true; }
  void op(Op o) {
    S how = mc::Str() << ONAME[o] << " in status " << state << " after " << count << " updates";
    const bool running = state == RUN, early = state < RUN; bool rej; mc::transition();
    switch (o) {
    case START: { std::vector<T> s = column<T>(p.start); rej = mc::rejects([&] { a.set_start_vector(s.data()); }); if (rej == early) mc::fail(how + (rej ? ": refused" : ": accepted")); if (early) random = false; std::fill(s.begin(), s.end(), T(-77)); break; }
    case RANDOM: if (!early) return; if (mc::rejects([&] { a.set_random_start_vector(); })) mc::fail(how + ": refused"); random = true; break;
    case TOL: rej = mc::rejects([&] { a.set_tolerance(1e-10); }); if (rej == early) mc::fail(how + (rej ? ": refused" : ": accepted")); if (early) loose = true; break;
    case MAXIT: rej = mc::rejects([&] { a.set_maxiter(2000); }); if (rej == early) mc::fail(how + (rej ? ": refused" : ": accepted")); break;
    case UPDATE: if (state <= RUN) { go((int)(count % 3)); break; } else { int s = -1; rej = mc::rejects([&] { s = a.update(); }); if (!rej && (s != ERR || a.get_status() != ERR || a.error_message().empty())) mc::fail(how + mc::Str().operator<<(": status ").operator<<(s).operator std::string()); state = ERR; break; }
    case XVEC: { T *x = 0; rej = mc::rejects([&] { x = a.get_x_vector(); }); if (rej == running) mc::fail(how + (rej ? ": refused" : ": accepted")); if (!rej && !x) mc::fail(how + ": nothing"); break; }
    case YVEC: { T *x = 0; rej = mc::rejects([&] { x = a.get_y_vector(); }); if (rej == running) mc::fail(how + (rej ? ": refused" : ": accepted")); if (!rej && (!x || x == a.get_x_vector())) mc::fail(how + ": no vector of its own"); break; }
    case GETX: case GETY: { Tensor<T> t; rej = mc::rejects([&] { t = o == GETX ? Tensor<T>(a.get_x()) : a.get_y(); }); if (rej == running) mc::fail(how + (rej ? ": refused" : ": accepted"));
      if (!rej) { if (from_indices(t.dimensions()) != Dims{p.n}) mc::fail(how + ": dimensions"); else { const T *v = o == GETX ? a.get_x_vector() : a.get_y_vector(); if (memcmp(v, t.begin_const(), sizeof(T) * p.n)) mc::fail(how + ": other numbers"); } } break; }
    case SETY: { std::vector<T> v; if (running) v = multiply(p, a.get_x_vector()); else v.resize(p.n); Tensor<T> t(Vector<T>(p.n, v.data())); std::vector<T> x; if (running) x.assign(a.get_x_vector(), a.get_x_vector() + p.n); rej = mc::rejects([&] { a.set_y(t); }); if (rej == running) mc::fail(how + (rej ? ": refused" : ": accepted"));
      if (!rej && (memcmp(a.get_y_vector(), v.data(), sizeof(T) * p.n) || memcmp(a.get_x_vector(), x.data(), sizeof(T) * p.n))) mc::fail(how + ": other numbers"); have_y |= running;
      if (running) for (int l : {0, p.n - 1, p.n + 1}) { Tensor<T> y(igen << (tensor::index)l); if (!mc::rejects([&] { a.set_y(y); }) || memcmp(a.get_y_vector(), v.data(), sizeof(T) * p.n)) mc::fail(how + mc::Str().operator<<(": accepts a vector of ").operator<<(l).operator std::string()); }
      break; }
    case QUERY: if ((int)a.get_status() != state) mc::fail(how + mc::Str().operator<<(": is ").operator<<((int)a.get_status()).operator std::string()); if ((int)a.get_vector_size() != p.n) mc::fail(how + ": vector size"); (void)a.error_message().size(); break;
    case VALUES: if (state != DONE || taken) return; { Tensor<T> v = a.get_data((Tensor<T> *)0); S w = wrong<T>(p, v, 0, loose ? 1e-7L : 1e-9L); if (!w.empty()) mc::fail(how + ": " + w); } break;
    default: break;
    }
    if ((int)a.get_status() != state && !mc::failed()) mc::fail(how + mc::Str().operator<<(": status becomes ").operator<<((int)a.get_status()).operator std::string());
    mc::Hash h; h.add(p.n); h.add(p.kind); h.add(p.nev); h.add(state); h.add(count); h.add(have_y); h.add(random); h.add(loose); mc::state(h.h);
  }
  // to the end; the results are right, and those of the reference if nothing differed
  void finish(const Answer<T> &r, int way) {
    while (state <= RUN && !mc::failed()) { if (!go(way)) break; if (count > 20000) { mc::fail("the iteration does not end"); return; } }
    if (mc::failed() || state == ERR) return;
    if (state != DONE) { if (random && loose) return; mc::fail(mc::Str() << "ends with status " << state); return; }
    taken = true; Tensor<T> vecs, vals; if (way == 1) { vecs = Tensor<T>(p.n, p.nev); vals = a.get_data(vecs.begin()); } else vals = a.get_data(&vecs);
    S w = wrong<T>(p, vals, &vecs, loose ? 1e-7L : 1e-9L); if (!w.empty()) { mc::fail(w); return; }
    if (!random && !loose) { if (count != r.updates) mc::fail(mc::Str() << count << " updates instead of " << r.updates); else if (!bits_same(from_tensor(vals), from_tensor(r.vals)) || !bits_same(from_tensor(vecs), from_tensor(r.vecs))) mc::fail("the results are not those of the undisturbed iteration"); }
  }
};
template <class T> static void words(const Problem &p, int len, int maxstage) {
  for (int stage = 0; stage <= maxstage + 1; stage++) for (int first = 0; first < NOPS; first++) mc::run_case(DESC { return mc::Str() << p.name << ": calls after " << stage << (stage > maxstage ? " (finished)" : " updates") << " beginning with " << ONAME[first]; }, [&] {
    mc::group("histories"); Answer<T> r = reference<T>(p); if (r.status != DONE) { mc::fail("the reference iteration does not converge"); return; }
    if (stage <= maxstage && stage >= r.updates) return;
    mc::nontrivial();
    for (int l = 0; l < len; l++) mc::all_words(l, NOPS, [&](const std::vector<int> &w) {
      if (mc::failed()) return; mc::note_trace();
      Machine<T> m(p); if (stage) m.op(START);
      if (stage > maxstage) { while (m.state <= RUN && !mc::failed()) m.go(0); } else for (int k = 0; k < stage && !mc::failed(); k++) m.go(k % 3);
      m.op((Op)first); for (int o : w) if (!mc::failed()) m.op((Op)o);
      if (!mc::failed()) m.finish(r, (int)(w.size() % 4));
      if (mc::failed()) { S s; for (int o : w) s += S(" ") + ONAME[o]; fprintf(stderr, "history:%s\n", s.c_str()); }
    });
  });
}
template <class T> static void disturbances(const Problem &p, int upto) {
  // at every point of the iteration, each call
  mc::run_case(DESC { return p.name + ": each call at each point"; }, [&] {
    Answer<T> r = reference<T>(p); if (r.status != DONE) { mc::fail("the reference iteration does not converge"); return; } mc::group("each point"); mc::nontrivial(); S w = wrong<T>(p, r.vals, &r.vecs, 1e-9L); if (!w.empty()) { mc::fail(w); return; }
    for (int k = 0; k < std::min(r.updates, upto) && !mc::failed(); k++) for (int o = 0; o < NOPS && !mc::failed(); o++) { if (o == UPDATE) continue; Machine<T> m(p); m.op(START); for (int i = 0; i < k; i++) m.go(0); m.op((Op)o); if (!mc::failed()) m.finish(r, 2); }
  });
  // iterations abandoned at every point leave nothing behind
  mc::run_case(DESC { return p.name + ": after abandoned iterations"; }, [&] {
    Answer<T> r = reference<T>(p); if (r.status != DONE) { mc::fail("the reference iteration does not converge"); return; } mc::group("abandoned"); mc::nontrivial();
    for (int k = 0; k < std::min(r.updates, upto) && !mc::failed(); k++) for (int keep = 0; keep < 2 && !mc::failed(); keep++) {
      std::unique_ptr<Machine<T> > old(new Machine<T>(p)); for (int i = 0; i < k; i++) old->go(0); if (!keep) old.reset();
      Machine<T> m(p); m.op(START); m.finish(r, keep);
    }
  });
}
// a real and a complex iteration side by side
static void sideways(const Problem &p, const Problem &q, int len) {
  mc::all_words(4, 2, [&](const std::vector<int> &head) { mc::run_case(DESC { return p.name + " beside " + q.name + " beginning with " + mc::seq(head); }, [&] {
    mc::group("interleaved"); mc::nontrivial(); Answer<double> r = reference<double>(p); Answer<cd> s = reference<cd>(q); if (r.status != DONE || s.status != DONE) { mc::fail("the reference iteration does not converge"); return; }
    mc::all_words(len - 4, 2, [&](const std::vector<int> &w) { if (mc::failed()) return; mc::note_trace(); Machine<double> a(p); Machine<cd> b(q); a.op(START); b.op(START);
      auto step = [&](int k) { if (k == 0) { if (a.state <= RUN) a.go(0); } else if (b.state <= RUN) b.go(0); };
      for (int k : head) step(k); for (int k : w) step(k);
      while ((a.state <= RUN || b.state <= RUN) && !mc::failed()) { step(0); step(1); }
      if (!mc::failed()) a.finish(r, 0); if (!mc::failed()) b.finish(s, 0); });
  }); });
}
template <class T> static void limits(const Problem &p, int top) {
  mc::run_case(DESC { return p.name + ": limited iterations"; }, [&] {
    mc::group("limits"); mc::nontrivial(); int finished = 0, stopped = 0;
    for (int k = 1; k <= top && !mc::failed(); k++) {
      Machine<T> m(p); m.op(START); m.a.set_maxiter(k); long n = 0; while (m.state <= RUN && !mc::failed() && n++ < 20000) m.go(0); if (mc::failed()) return;
      if (m.state == DONE) { finished++; Tensor<T> v, x = m.a.get_data(&v); S w = wrong<T>(p, x, &v, 1e-9L); if (!w.empty()) mc::fail(mc::Str() << "limit " << k << ": " << w); }
      else { stopped++; if (finished) mc::fail(mc::Str() << "limit " << k << " does not suffice although a smaller one does"); if (m.a.error_message().empty()) mc::fail("no message"); m.op(QUERY); for (int o = 0; o < NOPS && !mc::failed(); o++) if (o != UPDATE && o != QUERY) m.op((Op)o); if (!mc::failed()) m.op(UPDATE); if (!mc::failed()) m.op(QUERY); }
    }
    if (!stopped || !finished) { if (p.n > 20 && !mc::failed()) mc::fail(mc::Str() << "of " << top << " limits, " << finished << " suffice"); }
  });
  mc::run_case(DESC { return p.name + ": tolerances"; }, [&] {
    mc::group("tolerances"); mc::nontrivial();
    for (double tol : {0.0, -1.0, 1e-3, 1e-6, 1e-9, 1e-12}) { Machine<T> m(p); m.op(START); m.a.set_tolerance(tol); while (m.state <= RUN && !mc::failed()) m.go(0); if (mc::failed()) return; if (m.state != DONE) { mc::fail(mc::Str() << "tolerance " << tol << " ends with status " << m.state); return; }
      Tensor<T> v, x = m.a.get_data(&v); LD na = norm2(p.m); Mat V = to_mat(v); for (int k = 0; k < p.nev; k++) { Mat c = col(V, k); if (!(norm2(p.m * c - lc(x[k]) * c) <= 20 * std::max<LD>(tol, 1e-10L) * na)) { mc::fail(mc::Str() << "tolerance " << tol << ": vector " << k); return; } } }
  });
  mc::run_case(DESC { return p.name + ": starts"; }, [&] {
    mc::group("starts"); mc::nontrivial(); Answer<T> r = reference<T>(p);
    for (int k = 0; k < p.n + 3 && !mc::failed(); k++) { Problem q(p); for (int i = 0; i < p.n; i++) q.start[i] = k < p.n ? cd(i == k) : k == p.n ? cd(0) : cd(std::pow(-1.0, i) * (k == p.n + 1 ? 1e-200 : 1e200));
      if (k == p.n) { std::vector<T> z(p.n); bool rej = mc::rejects([&] { typename Which<T>::A a(p.n, (EigType)p.kind, p.nev); a.set_start_vector(z.data()); int s = a.update(); int n = 0; while (s == RUN && n++ < 5000) { apply<T>(a, p, 0); s = a.update(); } if (s == DONE) { Tensor<T> x = a.get_data((Tensor<T> *)0); if (!wrong<T>(p, x, 0, 1e-9L).empty()) mc::fail("a zero start gives other values"); } }); (void)rej; continue; }
      Machine<T> m(q); m.op(START); m.loose = true; m.finish(r, 0); }
  });
}
template <class T> static void refusals() {
  typedef typename Which<T>::A A; const bool Z = Which<T>::cplx;
  for (int n = 0; n <= 7; n++) mc::run_case(DESC { return mc::Str() << (Z ? "complex" : "real") << " drivers of size " << n; }, [&] {
    mc::group("refusals"); mc::nontrivial();
    for (int kind = 0; kind <= 7; kind++) for (int nev = 0; nev <= 9; nev++) {
      bool ok = kind < (Z ? 6 : 4) && nev >= 1 && nev <= n - 1; mc::transition(); int s = -1;
      bool rej = mc::rejects([&] { A a(n, (EigType)kind, nev); s = a.get_status(); if ((int)a.get_vector_size() != n) mc::fail("size"); if (!a.error_message().empty()) mc::fail("a new driver has an error message"); });
      if (rej == ok) { mc::fail(mc::Str() << "kind " << kind << ", " << nev << " values: " << (rej ? "refused" : "accepted")); return; }
      if (ok && s != INIT) { mc::fail("a new driver is not ready"); return; }
      if (ok && n >= 3) { Problem p = problem(n, kind, nev, 1, Z); bool r = mc::rejects([&] { Answer<T> x = reference<T>(p); if (x.status == DONE) { S w = wrong<T>(p, x.vals, &x.vecs, 1e-9L); if (!w.empty()) mc::fail(p.name + ": " + w); } else mc::fail(mc::Str() << p.name << ": status " << x.status); });
        if (r && !(Z && nev > n - 2)) mc::fail(p.name + ": ends the program: " + mc::ending_message); }
    }
  });
}
template <class A> static void sorting(const char *who, int len) {
  static const cd V[] = {cd(0), cd(1), cd(-1), cd(0, 1), cd(0, -2), cd(1, 1), cd(-3, 0.5)};
  for (int l = 0; l <= len; l++) for (int kind = 0; kind < 6; kind++) mc::run_case(DESC { return mc::Str() << who << " sort_values of " << l << " by " << KIND[kind]; }, [&] {
    mc::group("sort_values"); mc::nontrivial();
    mc::all_words(l, 7, [&](const std::vector<int> &w) { if (mc::failed()) return; mc::transition(); CTensor t(igen << (tensor::index)l); for (int i = 0; i < l; i++) t.at(i) = V[w[i]]; Indices x = A::sort_values(t, (EigType)kind);
      std::vector<int> seen(l); bool ok = (int)x.size() == l; for (int i = 0; ok && i < l; i++) { ok = x[i] >= 0 && x[i] < l && !seen[x[i]]++; if (ok && i) ok = order(lc(V[w[x[i - 1]]]), kind) <= order(lc(V[w[x[i]]]), kind); }
      if (!ok) mc::fail("wrong order of " + mc::seq(w)); });
  });
}
void explore() {
  const bool Th = mc::thorough;
  refusals<double>(); refusals<cd>();
  sorting<RArpack>("RArpack", Th ? 6 : 5); sorting<CArpack>("CArpack", Th ? 6 : 5);
  const int L = Th ? 4 : 3;
  for (int kind = 0; kind < 4; kind++) for (int nev : {1, 3}) words<double>(problem(6, kind, nev, kind == 1 ? 0 : 1, false), L, 3);
  words<double>(problem(30, 0, 2, 1, false), L - 1, 4); words<double>(problem(30, 3, 3, 2, false), L - 1, 4);
  for (int kind = 0; kind < 6; kind++) for (int nev : {1, 3}) words<cd>(problem(6, kind, nev, 1, true), L, 3);
  words<cd>(problem(30, 0, 2, 1, true), L - 1, 4); words<cd>(problem(30, 2, 3, 1, true), L - 1, 4);
  for (int n : {3, 4, 5, 7, 10, 20, 21, 30, 41}) for (int fam : {0, 1, 3}) for (int kind = 0; kind < 6; kind++) for (int nev : {1, 2, 4, 11}) {
    if (nev > n - 2 || (n > 30 && nev > 4)) continue;
    if (n > 20 && kind == 1 && fam != 1) continue;   // the smallest need many restarts
    if (kind < 4) disturbances<double>(problem(n, kind, nev, fam, false), Th ? 200 : n > 20 ? 24 : 12);
    if (fam != 3 || kind < 4) disturbances<cd>(problem(n, kind, nev, fam, true), Th ? 200 : n > 20 ? 24 : 12);
  }
  for (int n : {5, 30}) { sideways(problem(n, 0, 2, 1, false), problem(n, 0, 2, 1, true), Th ? 12 : 10); sideways(problem(n, 3, 1, 3, false), problem(8, 2, 2, 1, true), Th ? 12 : 9); }
  for (int n : {6, 24, 40}) for (int kind = 0; kind < 6; kind++) for (int nev : {1, 3}) { if (kind == 1 && n > 20) continue; if (kind < 4) limits<double>(problem(n, kind, nev, 1, false), n > 20 ? 40 : 6); if (kind != 5 || n < 20) limits<cd>(problem(n, kind, nev, 1, true), n > 20 ? 40 : 6); }
}
