// C22: every operation gives back the memory and the descriptors it took.
#include "ref.h"
#include <tensor/sparse.h>
#include <tensor/linalg.h>
#include <tensor/fftw.h>
#include <tensor/map.h>
#include <tensor/arpack_d.h>
#include <tensor/arpack_z.h>
#include <tensor/sdf.h>
#include <tensor/jobs.h>
#include <tensor/rand.h>
#include <tensor/tools.h>
#include <fcntl.h>
#include <cerrno>
#include <dirent.h>
#include <unistd.h>
#include <sys/stat.h>
using namespace tensor;
typedef std::string S;

// Every allocation of the process, whoever makes it (C++, C, Fortran, libraries).
extern "C" { void *__libc_malloc(size_t); void __libc_free(void *); void *__libc_calloc(size_t, size_t); void *__libc_realloc(void *, size_t); void *__libc_memalign(size_t, size_t); }
static long blocks = 0;
extern "C" {
void *malloc(size_t n) { void *p = __libc_malloc(n); if (p) ++blocks; return p; }
void free(void *p) { if (p) --blocks; __libc_free(p); }
void *calloc(size_t a, size_t b) { void *p = __libc_calloc(a, b); if (p) ++blocks; return p; }
void *realloc(void *q, size_t n) { void *p = __libc_realloc(q, n); if (!q && p) ++blocks; if (q && !n) --blocks; return p; }
void *memalign(size_t a, size_t n) { void *p = __libc_memalign(a, n); if (p) ++blocks; return p; }
void *aligned_alloc(size_t a, size_t n) { return memalign(a, n); }
int posix_memalign(void **r, size_t a, size_t n) { void *p = memalign(a, n); if (!p) return ENOMEM; *r = p; return 0; }
}
static int descriptors() { int n = 0; for (int i = 0; i < 256; i++) if (fcntl(i, F_GETFD) != -1) n++; return n; }

static void balance(const S &what, const std::function<void()> &f) {
  if (mc::failed()) return;
  // values that are not numbers may be refused at any of the calls
  for (int k = 0; k < 2; k++) if (mc::rejects(f)) { mc::group("refused"); return; }   // tables built by the first uses
  long m = blocks; int d = descriptors();
  for (int k = 0; k < 3; k++) if (mc::rejects(f)) { mc::group("refused"); return; }
  mc::transition(5);
  { mc::Hash h; h.str(what); mc::state(h.h); }
  long left = blocks - m; int open = descriptors() - d;
  if (left != 0) mc::fail(what + (mc::Str() << ": " << left << " blocks more after three calls").operator std::string());
  else if (open != 0) mc::fail(what + (mc::Str() << ": " << open << " descriptors more after three calls").operator std::string());
  mc::nontrivial();
}

static const int STATES = 3;
static const char *const states[STATES] = {"own", "shared", "foreign"};
static double buffer_d[4096]; static cd buffer_z[4096];
static double *buffer(double) { return buffer_d; }
static cd *buffer(cd) { return buffer_z; }
template <class T> static T value(long k) { return T((k * 7) % 11 - 5 + (k % 3) * 0.25); }
template <> cd value<cd>(long k) { return cd((k * 7) % 11 - 5, (k * 3) % 5 - 2); }
// an operand in a state; keep holds what makes it so
template <class T> struct Arg {
  Tensor<T> t, other;
  Arg(const Dims &d, int state, int salt = 0) {
    long n = total(d);
    if (state == 2) { T *p = buffer(T()) + 1024 * salt; for (long i = 0; i < n; i++) p[i] = value<T>(i + salt); t = Tensor<T>(to_indices(d), Tensor<T>(Vector<T>(n, p))); }
    else { t = Tensor<T>(to_indices(d)); T *p = t.begin(); for (long i = 0; i < n; i++) p[i] = value<T>(i + salt); }
    if (state == 1) other = t;
  }
};
template <class T> struct Op1 { const char *name; Tensor<T> (*f)(const Tensor<T> &); };
template <class T> struct Op2 { const char *name; Tensor<T> (*f)(const Tensor<T> &, const Tensor<T> &); };
template <class T> Tensor<T> wr(const RTensor &r); 
template <> RTensor wr<double>(const RTensor &r) { return r; }
template <> CTensor wr<cd>(const RTensor &r) { return to_complex(r); }
template <class T> Tensor<T> num(T x) { Tensor<T> t(1); t.at(0) = x; return t; }
template <class T> Tensor<T> ix(const Indices &i) { Tensor<T> t(i.size()); for (tensor::index k = 0; k < i.size(); k++) t.at(k) = (double)i[k]; return t; }
template <class T> Tensor<T> bx(const Booleans &b) { return ix<T>(which(b)); }
#define O1(n, e) {n, [](const Tensor<T> &a) -> Tensor<T> { return e; }}
#define O2(n, e) {n, [](const Tensor<T> &a, const Tensor<T> &b) -> Tensor<T> { return e; }}
template <class T> static Tensor<T> nthop(Tensor<T> a, int k) {   // changes of a handle
  switch (k) {
    case 0: a.at(0) = T(3); break;
    case 1: a.fill_with(T(2)); break;
    case 2: a.randomize(); break;
    case 3: a.reshape(igen << a.size()); break;
    case 4: a += a; break;
    case 5: { Tensor<T> c = a; c -= a; a = c; break; }
    case 6: a = a; break;
    case 7: { Tensor<T> c(a.dimensions()); c = a; a = c; c = Tensor<T>(); break; }
    case 8: *a.begin() = T(1); break;
    case 9: a *= T(2); break;
    case 10: a = Tensor<T>(a.dimensions(), a); break;
    case 11: { Vector<T> v(a); v.resize(v.size() + 3); v.at(0) = T(1); a = Tensor<T>(v); break; }
    case 12: { Vector<T> v(a), w; w = v; w.at(0) = T(4); v = w; a = Tensor<T>(v); break; }
    default: { std::vector<Tensor<T> > v(3, a); v[1].at(0) = T(1); v.push_back(v[0]); a = v[3]; }
  }
  return a;
}
template <class T> static const std::vector<Op1<T> > &unary() {
  static const std::vector<Op1<T> > v = {
    O1("copy", a), O1("-", -a), O1("+n", a + T(2)), O1("n-", T(2) - a), O1("*n", a * T(2)), O1("/n", a / T(2)), O1("n/", T(2) / (a + T(100))), O1("n+", T(1) + a), O1("n*", T(3) * a),
    O1("abs", wr<T>(abs(a))), O1("cos", cos(a)), O1("sin", sin(a)), O1("tan", tan(a)), O1("cosh", cosh(a)), O1("sinh", sinh(a)), O1("tanh", tanh(a)), O1("exp", exp(a)), O1("sqrt", sqrt(a)), O1("log", log(a)),
    O1("conj", conj(a)), O1("real", wr<T>(real(a))), O1("imag", wr<T>(imag(a))), O1("to_complex", wr<T>(real(to_complex(a)))),
    O1("sum", num<T>(sum(a))), O1("mean", num<T>(mean(a))), O1("mean 0", mean(a, 0)), O1("mean -1", mean(a, -1)), O1("norm0", num<T>(norm0(a))), O1("norm2", num<T>(norm2(a))), O1("norminf", num<T>(matrix_norminf(a))), O1("scprod", num<T>(scprod(a, a))),
    O1("flatten", flatten(a)), O1("reshape", reshape(a, a.size())), O1("reshape 2", reshape(a, 1, a.size())), O1("reshape 3", reshape(a, 1, a.size(), 1)), O1("reshape i", reshape(a, igen << 1 << 1 << 1 << a.size())), O1("squeeze", squeeze(a)),
    O1("permute", permute(a)), O1("permute 1 2", permute(a, 1, 2)), O1("transpose", transpose(a)), O1("adjoint", adjoint(a)), O1("change_dimension +", change_dimension(a, 0, a.dimension(0) + 2)), O1("change_dimension -", change_dimension(a, -1, 1)), O1("change_dimension =", change_dimension(a, 0, a.dimension(0))),
    O1("diag", diag(a)), O1("diag 1", diag(a, 1)), O1("diag r", diag(a, 0, 7, 9)), O1("take_diag", take_diag(a)), O1("take_diag 1", take_diag(a, 1)), O1("take_diag 0 1 2", take_diag(a, 0, 1, 2)), O1("a.diag", Tensor<T>(a).diag()), O1("trace", num<T>(trace(a))), O1("trace 0 1", trace(a, 0, 1)), O1("trace 0 -1", trace(a, 0, -1)),
    O1("scale 0", scale(a, 0, Tensor<T>::ones(igen << a.dimension(0)))), O1("scale -1", scale(a, -1, Tensor<T>::ones(igen << a.dimension(-1 + a.rank())))), O1("scale real", (scale(a, 0, RTensor::ones(igen << a.dimension(0))))),
    O1("scale_inplace", ([](Tensor<T> t) { scale_inplace(t, 0, Tensor<T>::ones(igen << t.dimension(0))); return t; })(a)), O1("scale_inplace -1", ([](Tensor<T> t) { scale_inplace(t, -1, RTensor::ones(igen << t.dimension(t.rank() - 1))); return t; })(a)),
    O1("sort", wr<T>(sort(real(a)))), O1("sort_indices", ix<T>(sort_indices(real(a), true))), O1("sort_indices i", ix<T>(sort_indices(sort_indices(real(a))))), O1("sort i", ix<T>(sort(sort_indices(real(a)), true))), O1("max min", num<T>(max(real(a)) + min(real(a)))), O1("round", wr<T>(round(real(a)))), O1("index_to_tensor", wr<T>(index_to_tensor(a.dimensions()))),
    O1("linspace", Tensor<T>(linspace(T(1), T(2), 5))), O1("linspace t", Tensor<T>(linspace(a, a, 3))),
    O1("== n", bx<T>(a == T(1))), O1("!= n", bx<T>(a != T(1))), O1("< n", bx<T>(real(a) < 1.0)), O1("> n", bx<T>(real(a) > 1.0)), O1("<= n", bx<T>(real(a) <= 1.0)), O1(">= n", bx<T>(real(a) >= 1.0)), O1("n ==", bx<T>(T(1) == a)), O1("!", bx<T>(!(a == T(1)))), O1("&& ||", bx<T>(((a == T(1)) && (a != T(2))) || (a == T(3)))), O1("all any", num<T>(all_of(a == a) + any_of(a == a) + none_of(a == a))), O1("all_equal n", num<T>(all_equal(a, T(1)))), O1("some_unequal", num<T>(some_unequal(a, T(1)))),
    O1("eye", Tensor<T>::eye(a.dimension(0))), O1("zeros", Tensor<T>::zeros(a.dimensions())), O1("ones", Tensor<T>::ones(a.dimensions())), O1("random", Tensor<T>::random(a.dimensions())), O1("random 2", Tensor<T>::random(2, 3)),
    O1("view all 1", a(range())), O1("view all 2", a(range(), range())), O1("view all 3", a(range(), range(), range())), O1("view step", a(range(0, -1, 2))), O1("view single", a(range(0), range())), O1("view single 2", a(range(), range(-1))), O1("view list", a(range(Indices(igen << 0 << 0)))), O1("view list 2", a(range(Indices(igen << 0)), range(0, -1))), O1("view 3", a(range(0), range(), range(0, 0))), O1("view 4", a(range(0), range(), range(0, 0), range(Indices(igen << 0)))),
    O1("view 5", a(range(), range(0), range(), range(), range(0))), O1("view 6", a(range(), range(0), range(), range(), range(0), range())),
    O1("set view n", ([](Tensor<T> t) { t.at(range()) = T(1); return t; })(a)), O1("set view n 2", ([](Tensor<T> t) { t.at(range(), range(0)) = T(1); return t; })(a)), O1("set view t 2", ([](Tensor<T> t) { t.at(range(0), range()) = Tensor<T>::ones(igen << 1 << t.dimension(1)); return t; })(a)), O1("set view self", ([](Tensor<T> t) { t.at(range()) = t(range()); return t; })(a)), O1("set view list", ([](Tensor<T> t) { t.at(range(Indices(igen << 0))) = T(5); return t; })(a)), O1("set view 3", ([](Tensor<T> t) { t.at(range(), range(0), range(0, -1)) = T(5); return t; })(a)),
    O1("set view 6", ([](Tensor<T> t) { t.at(range(), range(0), range(0, -1), range(), range(), range(0)) = T(5); return t; })(a)),
    O1("view unused", ([](Tensor<T> t) { t(range(0), range()); t.at(range(0), range()); return t; })(a)), O1("view copied", ([](const Tensor<T> &t) { const typename Tensor<T>::view v = t(range(), range(0)); Tensor<T> x(v), y; y = v; return x + y; })(a)),
    O1("indices", ix<T>(Indices::range(0, 7, 2) << Indices(igen << 1 << 2))), O1("generators", Tensor<T>(Tensor<T>(igen << 2 << 2, xgen << T(1) << T(2) << T(3) << T(4)))),
    O1("h set", nthop(a, 0)), O1("h fill", nthop(a, 1)), O1("h randomize", nthop(a, 2)), O1("h reshape", nthop(a, 3)), O1("h +=", nthop(a, 4)), O1("h -=", nthop(a, 5)), O1("h self", nthop(a, 6)), O1("h assign", nthop(a, 7)), O1("h begin", nthop(a, 8)), O1("h *=", nthop(a, 9)), O1("h construct", nthop(a, 10)), O1("h resize", nthop(a, 11)), O1("h vector", nthop(a, 12)), O1("h list", nthop(a, 13)),
    O1("full sparse", full(Sparse<T>(a))), O1("sparse copy", ([](const Sparse<T> &s) { Sparse<T> x(s), y; y = x; x = Sparse<T>(3, 4); return full(y); })(Sparse<T>(a))), O1("sparse transpose", full(transpose(Sparse<T>(a)))), O1("sparse adjoint", full(adjoint(Sparse<T>(a)))), O1("sparse -", full(-Sparse<T>(a))), O1("sparse *n", full(Sparse<T>(a) * T(2))), O1("sparse n*", full(T(2) * Sparse<T>(a))), O1("sparse /n", full(Sparse<T>(a) / T(2))), O1("sparse real imag conj", wr<T>(full(real(Sparse<T>(a)))) + wr<T>(full(imag(Sparse<T>(a)))) + full(conj(Sparse<T>(a)))), O1("sparse eye", full(Sparse<T>::eye(3, 4))), O1("sparse random", full(Sparse<T>::random(4, 5, 0.5))), O1("sparse coords", full(Sparse<T>(igen << 2 << 0 << 2, igen << 0 << 1 << 0, Tensor<T>::ones(igen << 3)))), O1("sparse element", num<T>(Sparse<T>(a)(0, 0))), O1("sparse to_complex", wr<T>(real(full(to_complex(Sparse<T>(a)))))),
    O1("svd", wr<T>(linalg::svd(a))), O1("svd U", ([](const Tensor<T> &t) { Tensor<T> u; linalg::svd(t, &u); return u; })(a)), O1("svd V", ([](const Tensor<T> &t) { Tensor<T> u; linalg::svd(t, 0, &u); return u; })(a)), O1("svd UV", ([](const Tensor<T> &t) { Tensor<T> u, v; linalg::svd(t, &u, &v); linalg::svd(t, &u, &v, true); return u; })(a)),
    O1("svd in place", ([](const Tensor<T> &t) { Tensor<T> u = t, v; linalg::svd(u, &u, &v, true); return u; })(a)), O1("accurate svd", ([](const Tensor<T> &t) { linalg::accurate_svd = !linalg::accurate_svd; Tensor<T> u, v; linalg::svd(t, &u, &v); linalg::accurate_svd = !linalg::accurate_svd; return u; })(a)),
    O1("block_svd", wr<T>(linalg::block_svd(a))), O1("block_svd UV", ([](const Tensor<T> &t) { Tensor<T> u, v; linalg::block_svd(t, &u, &v); linalg::block_svd(t, &u, &v, true); linalg::block_svd(t, 0, &v, true); linalg::block_svd(t, &u); return u; })(a)),
    O1("eig", wr<T>(real(linalg::eig(a)))), O1("eig R", ([](const Tensor<T> &t) { CTensor r; linalg::eig(t, &r); return wr<T>(real(r)); })(a)), O1("eig L", ([](const Tensor<T> &t) { CTensor r; linalg::eig(t, 0, &r); return wr<T>(real(r)); })(a)), O1("eig RL", ([](const Tensor<T> &t) { CTensor r, l; linalg::eig(t, &r, &l); return wr<T>(real(r)); })(a)),
    O1("expm", linalg::expm(a)), O1("expm 3", linalg::expm(a / T(50), 3)), O1("eig_power", ([](const Tensor<T> &t) { Tensor<T> v; linalg::eig_power_right(t, &v, 5); linalg::eig_power_left(t, &v, 5); return v; })(a)), O1("eig_power sparse", ([](const Tensor<T> &t) { Tensor<T> v; linalg::eig_power_right(Sparse<T>(t), &v, 5); linalg::eig_power_left(Sparse<T>(t), &v, 5); return v; })(a)), O1("eig_power map", ([](const Tensor<T> &t) { Tensor<T> v; linalg::do_eig_power(new MatrixMap<Tensor<T> >(t), t.rows(), &v, 5); return v; })(a)),
    O1("eigs", ([](const Tensor<T> &t) { Tensor<T> v; bool c; linalg::eigs(t, 0, 1, &v, &c); Tensor<T> w; linalg::eigs(t, 2, 2, &w, &c); linalg::eigs(t, 1, 1, (Tensor<T> *)0, &c); return v; })(a)), O1("eigs sparse", ([](const Tensor<T> &t) { Tensor<T> v; bool c; linalg::eigs(Sparse<T>(t), 0, 1, &v, &c); linalg::eigs(Sparse<T>(t), 0, 2, (Tensor<T> *)0, &c); return v; })(a)), O1("eigs map", ([](const Tensor<T> &t) { Tensor<T> v; bool c; linalg::do_eigs(new MatrixMap<Tensor<T> >(t), t.rows(), 0, 1, &v, &c); linalg::do_eigs(new MatrixMap<Sparse<T> >(Sparse<T>(t)), t.rows(), 0, 2, (Tensor<T> *)0, &c); return v; })(a)),
    O1("print", ([](const Tensor<T> &t) { std::ostringstream s; s << t << t.dimensions(); return num<T>(s.str().size()); })(a)),
  };
  return v;
}
template <class T> static const std::vector<Op2<T> > &binary() {
  static const std::vector<Op2<T> > v = {
    O2("+", a + b), O2("-", a - b), O2("*", a * b), O2("/", a / (b + T(100))), O2("+ mixed", Tensor<T>(a + real(b))), O2("mixed *", Tensor<T>(real(a) * b)),
    O2("+=", ([](Tensor<T> t, const Tensor<T> &u) { t += u; return t; })(a, b)), O2("-=", ([](Tensor<T> t, const Tensor<T> &u) { t -= u; return t; })(a, b)), O2("=", ([](Tensor<T> t, const Tensor<T> &u) { Tensor<T> k = t; t = u; k = t; return t; })(a, b)),
    O2("fold 0 0", fold(a, 0, b, 0)), O2("fold -1 0", fold(a, -1, b, 0)), O2("fold -1 -1", fold(a, -1, b, -1)), O2("foldc 0 0", foldc(a, 0, b, 0)), O2("foldc -1 0", foldc(a, -1, b, 0)), O2("foldc -1 -1", foldc(a, -1, b, -1)), O2("foldin 0 0", foldin(a, 0, b, 0)), O2("foldin 0 -1", foldin(a, 0, b, -1)), O2("foldin -1 1", foldin(a, -1, b, 1)), O2("mmult", mmult(a, b)), O2("mmult mixed", Tensor<T>(mmult(real(a), b))), O2("fold mixed", Tensor<T>(fold(a, -1, real(b), 0))),
    O2("== t", bx<T>(a == b)), O2("!= t", bx<T>(a != b)), O2("< t", bx<T>(real(a) < real(b))), O2(">= t", bx<T>(real(a) >= real(b))), O2("all_equal", num<T>(all_equal(a, b))), O2("scprod", num<T>(scprod(a, b))),
    O2("kron", kron(a, b)), O2("kron2", kron2(a, b)), O2("kron2_sum", kron2_sum(a, b)), O2("scale", scale(a, 0, b)), O2("linspace", Tensor<T>(linspace(a, b, 4))), O2("to_complex", wr<T>(real(to_complex(real(a), real(b))))), O2("set view", ([](Tensor<T> t, const Tensor<T> &u) { t.at(range()) = u; return t; })(a, b)), O2("set view 2", ([](Tensor<T> t, const Tensor<T> &u) { t.at(range(), range()) = u; return t; })(a, b)), O2("set view from view", ([](Tensor<T> t, const Tensor<T> &u) { t.at(range(0), range()) = u(range(0), range()); return t; })(a, b)),
    O2("sparse +", full(Sparse<T>(a) + Sparse<T>(b))), O2("sparse -", full(Sparse<T>(a) - Sparse<T>(b))), O2("sparse *", full(Sparse<T>(a) * Sparse<T>(b))), O2("sparse mmult l", mmult(Sparse<T>(a), b)), O2("sparse mmult r", mmult(a, Sparse<T>(b))), O2("sparse kron", full(kron(Sparse<T>(a), Sparse<T>(b)))), O2("sparse kron2", full(kron2(Sparse<T>(a), Sparse<T>(b)))), O2("sparse kron2_sum", full(kron2_sum(Sparse<T>(a), Sparse<T>(b)))), O2("sparse all_equal", num<T>(all_equal(Sparse<T>(a), Sparse<T>(b)) + all_equal(Sparse<T>(a), b))),
    O2("solve", linalg::solve(a, b)), O2("solve_with_svd", linalg::solve_with_svd(a, b)), O2("solve_with_svd tol", linalg::solve_with_svd(a, b, 0.1)), O2("cgs", linalg::cgs(a, b)), O2("cgs start", linalg::cgs(a, b, &b, 3)), O2("cgs sparse", linalg::cgs(Sparse<T>(a), b, (const Tensor<T> *)0, 3)), O2("cgs map", linalg::do_cgs(new MatrixMap<Tensor<T> >(a), b, (const Tensor<T> *)0, 3)), O2("cgs null", linalg::cgs(a, b * T(0))), O2("cgs exact", linalg::cgs(Tensor<T>::eye(b.dimension(0)), b, &b)),
    O2("maps", ([](const Tensor<T> &t, const Tensor<T> &u) { Map<Tensor<T> > *m[4] = {new MatrixMap<Tensor<T> >(t), new MatrixMap<Tensor<T> >(t, true), new MatrixMap<Sparse<T> >(Sparse<T>(t)), new Map<Tensor<T> >()}; Tensor<T> r; for (int i = 0; i < 4; i++) r = (*m[i])(u); for (int i = 0; i < 4; i++) delete m[i]; return r; })(a, b)),
  };
  return v;
}
#undef O1
#define O1(n, e) {n, [](const CTensor &a) -> CTensor { return e; }}
static const std::vector<Op1<cd> > &fourier() {
  static const std::vector<Op1<cd> > v = {
    O1("fftw", fftw(a, FFTW_FORWARD)), O1("fftw back", fftw(a, FFTW_BACKWARD)), O1("fftw 0", fftw(a, (tensor::index)0, FFTW_FORWARD)), O1("fftw last", fftw(a, (tensor::index)(a.rank() - 1), FFTW_FORWARD)), O1("fftw some", fftw(a, ([](int r) { Booleans b(r); for (int i = 0; i < r; i++) b.at(i) = i % 2 == 0; return b; })(a.rank()), FFTW_BACKWARD)), O1("fftw none", fftw(a, ([](int r) { Booleans b(r); for (int i = 0; i < r; i++) b.at(i) = false; return b; })(a.rank()), FFTW_FORWARD)),
    O1("fftw_inplace", ([](CTensor t) { fftw_inplace(t, FFTW_FORWARD); return t; })(a)), O1("fftw_inplace 0", ([](CTensor t) { fftw_inplace(t, (tensor::index)0, FFTW_FORWARD); return t; })(a)), O1("fftw_inplace some", ([](CTensor t) { Booleans b(t.rank()); for (int i = 0; i < t.rank(); i++) b.at(i) = i == 1; fftw_inplace(t, b, FFTW_FORWARD); return t; })(a)),
    O1("fftshift", fftshift(a, FFTW_FORWARD)), O1("fftshift back", fftshift(a, FFTW_BACKWARD)), O1("fftshift 0", fftshift(a, (tensor::index)0, FFTW_FORWARD)), O1("fftshift some", fftshift(a, ([](int r) { Booleans b(r); for (int i = 0; i < r; i++) b.at(i) = i % 2 == 1; return b; })(a.rank()), FFTW_BACKWARD)),
    O1("eigs imag", ([](const CTensor &t) { CTensor v; bool c; linalg::eigs(t, 4, 1, &v, &c); linalg::eigs(t, 5, 2, &v, &c); return v; })(a)),
  };
  return v;
}
static const std::vector<Op1<double> > &realonly() {
#undef O1
#define O1(n, e) {n, [](const RTensor &a) -> RTensor { return e; }}
  static const std::vector<Op1<double> > v = {
    O1("eig_sym", linalg::eig_sym(a + transpose(a))), O1("eig_sym R", ([](const RTensor &t) { RTensor r; linalg::eig_sym(t + transpose(t), &r); return r; })(a)), O1("fold_into", ([](const RTensor &t) { RTensor o; fold_into(o, t, 0, t, 0); fold_into(o, t, 0, t, 0); return o; })(a)), O1("foldin_into", ([](const RTensor &t) { RTensor o; foldin_into(o, t, 0, t, 0); return o; })(a)), O1("mmult_into", ([](const RTensor &t) { RTensor o; mmult_into(o, t, t); return o; })(a)), O1("to_complex parts", real(to_complex(a, a))), O1("converted", real(CTensor(a))), O1("sparse converted", real(full(CSparse(RSparse(a))))), O1("sort reverse", sort(a, true)),
  };
  return v;
}

static S shape(const Dims &d) { return mc::seq(d); }
template <class T> static void one(const char *type, const std::vector<Op1<T> > &ops, const std::vector<Dims> &shapes) {
  for (const Op1<T> &o : ops) mc::run_case(DESC { return mc::Str() << type << " " << o.name; }, [&] {
    mc::group("one operand");
    for (const Dims &d : shapes) for (int st = 0; st < STATES; st++) {
      S w = S(type) + " " + o.name + " " + shape(d) + " " + states[st];
      balance(w, [&] { Arg<T> a(d, st); Tensor<T> r = o.f(a.t); });
      if (d.size() < 3) { balance(w + ", assigned back", [&] { Arg<T> a(d, st); a.t = o.f(a.t); }); balance(w + ", result unused", [&] { Arg<T> a(d, st); o.f(a.t); }); }
    }
  });
}
template <class T> static void two(const char *type, const std::vector<Dims> &shapes) {
  for (const Op2<T> &o : binary<T>()) mc::run_case(DESC { return mc::Str() << type << " " << o.name; }, [&] {
    mc::group("two operands");
    for (const Dims &d : shapes) for (const Dims &e : shapes) for (int st = 0; st < STATES; st++) for (int su = 0; su < STATES; su += d == e ? 1 : 2) {
      S w = S(type) + " " + o.name + " " + shape(d) + " " + states[st] + " " + shape(e) + " " + states[su];
      balance(w, [&] { Arg<T> a(d, st), b(e, su, 1); Tensor<T> r = o.f(a.t, b.t); });
      if (d == e && su == 0) balance(w + ", both the same", [&] { Arg<T> a(d, st); a.t = o.f(a.t, a.t); });
    }
  });
}
// every word of operations applied to one handle, some of them refused
template <class T> static void words(const char *type, int len) {
  const std::vector<Op1<T> > &ops = unary<T>(); static const Dims ds[] = {{2}, {2, 2}, {3, 3}};
  size_t n = ops.size();
  for (size_t i = 0; i < n; i++) mc::run_case(DESC { return mc::Str() << type << " histories starting with " << ops[i].name; }, [&] {
    mc::group("histories"); if (len > 2 && !mc::mine_next()) {}
    for (size_t j = 0; j < n; j++) for (const Dims &d : ds) for (int st = 0; st < STATES; st += 2 - (d.size() == 1)) {
      balance(S(type) + " " + ops[i].name + " then " + ops[j].name + " " + shape(d) + " " + states[st], [&] { Arg<T> a(d, st); Tensor<T> k = a.t, m; m = k; m = ops[i].f(m); k = m; m = ops[j].f(m); });
      if (len > 2) for (int k = 0; k < 14; k++) balance(S(type) + " " + ops[i].name + " then " + ops[j].name + " then change " + std::to_string(k) + " " + shape(d) + " " + states[st], [&] { Arg<T> a(d, st); Tensor<T> m = ops[j].f(ops[i].f(a.t)); m = nthop(m, k); });
    }
  });
}
static S path(const char *n) { return mc::need_scratch() + "/" + n; }
static void removed(const S &p) { ::unlink(p.c_str()); ::unlink((p + ".tmp").c_str()); ::unlink((p + ".lck").c_str()); }
template <class F> static void item(const char *g, const S &name, F f) { mc::run_case(DESC { return S(g) + ": " + name; }, [&] { mc::group(g); balance(name, f); }); }
template <class A> static void arpack_session(size_t n, int kind, size_t nev, int steps) {
  typedef typename A::elt_t T; A d(n, (linalg::EigType)kind, nev); d.set_tolerance(1e-8); d.set_maxiter(50);
  std::vector<T> v(n, T(1)); if (steps % 2) d.set_start_vector(&v[0]); else d.set_random_start_vector();
  for (int i = 0; i < steps && d.update() < A::Finished; i++) { Tensor<T> x = d.get_x(), y(x.dimensions()); T *q = y.begin(); for (size_t k = 0; k < n; k++) q[k] = T(1.0 + k) * x[k]; d.set_y(y); }
  if (d.get_status() == A::Finished) { Tensor<T> vec; d.get_data(&vec); d.get_data((Tensor<T> *)0); }
}
struct Doubler { RTensor operator()(const RTensor &x) const { return x * 2.0; } CTensor operator()(const CTensor &x) const { return x * cd(2); } };
static RTensor timesby(const RTensor &x, double a) { return x * a; }
static RTensor axpy(const RTensor &x, double a, RTensor b) { return x * a + b; }
void explore() {
  const bool Th = mc::thorough;
  std::vector<Dims> s1 = {{}, {0}, {1}, {2}, {5}, {0, 0}, {0, 2}, {1, 1}, {1, 3}, {2, 2}, {3, 2}, {2, 5}, {3, 3}, {6, 6}, {9, 9}, {1, 1, 1}, {2, 3, 2}, {2, 0, 2}, {2, 2, 2}, {2, 1, 2, 2}, {1, 2, 1, 2, 2}, {1, 2, 1, 2, 1, 2}, {40}, {12, 12}};
  std::vector<Dims> s2 = {{0}, {1}, {3}, {6}, {0, 3}, {1, 1}, {2, 2}, {3, 3}, {3, 1}, {3, 6}, {6, 6}, {2, 2, 2}, {3, 2, 3}};
  if (Th) { each_shape(2, 0, 4, [&](const Dims &d) { s1.push_back(d); }); each_shape(3, 0, 2, [&](const Dims &d) { s1.push_back(d); }); each_shape(2, 0, 3, [&](const Dims &d) { s2.push_back(d); }); s1.push_back({30, 30}); }
  one<double>("real", unary<double>(), s1); one<cd>("complex", unary<cd>(), s1); one<cd>("complex", fourier(), s1); one<double>("real", realonly(), s1);
  two<double>("real", s2); two<cd>("complex", s2);
  words<double>("real", Th ? 3 : 2); words<cd>("complex", Th ? 3 : 2);
  // Krylov iterations, finished and abandoned, of every kind
  for (size_t n : {5, 6, 12, 25}) for (int kind = 0; kind < 6; kind++) for (size_t nev = 1; nev <= 3; nev++) for (int steps : {0, 1, 2, 7, 500, 501}) {
    S nm = mc::Str() << "dimension " << n << " kind " << kind << " values " << nev << " steps " << steps;
    item("krylov real", nm, [=] { arpack_session<linalg::RArpack>(n, kind, nev, steps); });
    item("krylov complex", nm, [=] { arpack_session<linalg::CArpack>(n, kind, nev, steps); });
  }
  for (size_t n : {3, 4, 5, 6, 12}) for (int form = 0; form < 3; form++) for (int conv = 0; conv < 2; conv++) for (int start = 0; start < 2; start++) {
    S nm = mc::Str() << "dimension " << n << " form " << form << (conv ? " converging" : " a rotation") << (start ? " with start" : "");
    item("eigs", nm, [=] {
      RTensor m = RTensor::zeros(n, n); for (size_t i = 0; i < n; i++) { if (conv) m.at(i, i) = i + 1; else m.at(i, (i + 1) % n) = 1; }
      RTensor v = start ? RTensor::ones(n, 1) : RTensor(); CTensor z = to_complex(v); bool c; Doubler f;
      switch (form) { case 0: linalg::eigs(m, 0, 2, &v, &c); linalg::eigs(to_complex(m), 0, 2, &z, &c); break; case 1: linalg::eigs(RSparse(m), 0, 2, &v, &c); linalg::eigs(CSparse(to_complex(m)), 0, 2, &z, &c); break;
        default: linalg::eigs(f, n, 0, 1, &v, &c); linalg::eigs(f, n, 0, 1, &z, &c); }
    });
  }
  // solvers that stop before, at and after convergence, power iteration over maps
  for (int n = 1; n <= 8; n++) for (int it : {0, 1, 2, 50}) item("iterations", mc::Str() << "size " << n << " iterations " << it, [=] {
    RTensor m = RTensor::eye(n) * 2.0; for (int i = 0; i + 1 < n; i++) m.at(i, i + 1) = m.at(i + 1, i) = -0.5; RTensor b = RTensor::ones(igen << n), x = b; CTensor mz = to_complex(m), bz = to_complex(b), xz = bz; Doubler f;
    linalg::cgs(m, b, &x, it); linalg::cgs(RSparse(m), b, &x, it); linalg::cgs(f, b, &x, it); linalg::cgs(mz, bz, &xz, it); linalg::cgs(CSparse(mz), bz, &xz, it); linalg::cgs(f, bz, &xz, it);
    linalg::eig_power_right(m, &x, it); linalg::eig_power_left(RSparse(m), &x, it); linalg::eig_power_right(CSparse(mz), &xz, it); linalg::eig_power_left(mz, &xz, it); linalg::eig_power(f, n, &x, it); linalg::eig_power(f, n, &xz, it);
    linalg::solve(m, b); linalg::solve(mz, bz); linalg::solve_with_svd(m, b); linalg::solve_with_svd(mz, bz); linalg::eig_sym(mz, &mz); linalg::eig_sym(m, &m); linalg::expm(mz); });
  // functional forms
  item("maps", "closures", [] { double a = 3; RTensor b = RTensor::ones(igen << 4); Map<RTensor> *m[2]; auto c1 = with_args(timesby, a); auto c2 = with_args(axpy, a, b); m[0] = new FunctionMap<decltype(c1), RTensor>(c1); m[1] = new FunctionMap<decltype(c2), RTensor>(c2); for (int i = 0; i < 2; i++) (*m[i])(b); delete m[0]; delete m[1]; });
  // handles of other types
  item("handles", "shared_ptr", [] { shared_ptr<std::vector<int> > p(new std::vector<int>(3)), q(p), r(new std::vector<int>(1)); r = q; q = shared_ptr<std::vector<int> >(new std::vector<int>(4)); r = r; });
  for (int n : {0, 1, 2, 9}) item("handles", mc::Str() << "lists of " << n, [=] { Indices i(n), j; j = i; if (n) j.at(0) = 3; Booleans b(n), c; c = b; if (n) c.at(0) = true; i = i << j; Vector<cd> v(n), w(v); if (n) w.at(0) = 2; v = w; w.resize(n + 2); v = v; std::vector<Indices> l(5, i); l.resize(2); Range *r[2] = {product(range(0, -1), range()), product(range(Indices(igen << 0)), range(0))}; for (int k = 0; k < 2; k++) { r[k]->set_limit(6); delete r[k]; } });
  // random numbers
  item("random", "seeds", [] { set_seed(3); rand<double>(); rand_reseed(); rand<cd>(); setenv("RANDSEED", "17", 1); rand_reseed(); unsetenv("RANDSEED"); RTensor::random(40, 20); });
  item("tools", "clock", [] { double t = tic(); toc(); toc(t); });
  // data files: every mode, contents and way of ending
  for (int mode : {0, 1, 4}) for (int how = 0; how < 4; how++) for (int what = 0; what < 9; what++) for (int n : {0, 1, 7}) item("files", mc::Str() << "mode " << mode << " ending " << how << " record " << what << " of " << n, [=] {
    S p = path("f"); removed(p);
    auto put = [&](sdf::OutDataFile &o) { switch (what) { case 0: o.dump(3, "x"); break; case 1: o.dump((size_t)3, "x"); break; case 2: o.dump(3.5, "x"); break; case 3: o.dump(cd(3, 4), "x"); break; case 4: o.dump(RTensor::ones(igen << n), "x"); break; case 5: o.dump(CTensor::ones(igen << n << 2), "x"); break; case 6: o.dump(std::vector<RTensor>(n, RTensor::ones(2, 2)), "x"); break; case 7: o.dump(std::vector<CTensor>(n, CTensor::ones(2, 3)), "x"); break; } };
    { sdf::OutDataFile o(p, mode); for (int k = 0; k < (n == 7 ? 3 : 1); k++) put(o); if (how & 1) o.close(); }
    if (how & 2) { sdf::OutDataFile o(p, mode); put(o); }
    { sdf::InDataFile f(p, mode); int i; size_t s; double d; cd z; RTensor r; CTensor c; std::vector<RTensor> vr; std::vector<CTensor> vc; switch (what) { case 0: f.load(&i, "x"); break; case 1: f.load(&s, "x"); break; case 2: f.load(&d, "x"); break; case 3: f.load(&z, "x"); break; case 4: f.load(&r, "x"); break; case 5: f.load(&c, "x"); break; case 6: f.load(&vr, "x"); break; case 7: f.load(&vc, "x"); break; } if (how & 1) f.close(); }
    sdf::file_exists(p); sdf::isdir(p); sdf::rename_file(p, p + "2"); sdf::rename_file(p + "2", p, true); sdf::delete_file(p); sdf::delete_file(p); S q = path("dir"); sdf::make_directory(q); sdf::make_directory(q); sdf::isdir(q); ::rmdir(q.c_str());
  });
  // jobs: every way of giving the variables, copies, data sets
  for (int n = 0; n <= 3; n++) for (int how = 0; how < 5; how++) item("jobs", mc::Str() << n << " variables, form " << how, [=] {
    std::vector<S> w = {"prog"}; static const char *nm[] = {"a", "b", "c"};
    if (how < 3 || n == 0) for (int i = 0; i < n; i++) { w.push_back("--variable"); w.push_back(S(nm[i]) + ",0,1," + std::to_string(i + 2)); }
    else { FILE *f = fopen(path("job").c_str(), "w"); for (int i = 0; i < n; i++) fprintf(f, "%s,0,1,%d\n", nm[i], i + 2); fclose(f); w.push_back("--job"); w.push_back(path("job")); }
    if (how == 1 || how == 4) { w.push_back("--job-blocks"); w.push_back("2"); w.push_back("--this-job"); w.push_back("1"); } if (how == 2) { w.push_back("--first-job"); w.push_back("0"); w.push_back("--last-job"); w.push_back("0"); }
    std::vector<const char *> av; for (S &x : w) av.push_back(x.c_str());
    jobs::Job j(av.size(), &av[0]); jobs::Job k(j), l(j); l = k; for (; j.to_do(); ++j) { j.get_value_with_default("a", 1); j.get_value_with_default("zz", 1); if (n) j.get_value("a"); }
    S q = path("set"); { jobs::Job::dataset d = l.open_dataset(q), e = d; if (d.operator->()) l.dump_variables(*d); } { l.dataset_record_exists(q); jobs::Job::dataset d = l.open_dataset(q); } for (int i = 0; i < 24; i++) ::unlink((q + "/" + std::to_string(i)).c_str()); ::rmdir(q.c_str()); ::unlink(path("job").c_str());
  });
}
