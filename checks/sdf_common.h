// Shared by the checks of data files: reference values, dumping and loading.
#include "ref.h"
#include <algorithm>
#include <dirent.h>
#include <fcntl.h>
#include <fstream>
#include <sys/stat.h>
#include <unistd.h>
#include <tensor/sdf.h>
using namespace tensor;
typedef std::string S;
enum Kind { INT, SIZE, REAL, CPLX, RT, CT, RV, CV, NKINDS };
static const char *KNAME[] = {"int", "size_t", "double", "cdouble", "RTensor", "CTensor", "vector<RTensor>", "vector<CTensor>"};
static int family(int k) { return k == INT || k == SIZE || k == REAL || k == RT ? 0 : k == CPLX || k == CT ? 1 : k == RV ? 2 : 3; }

struct Val {
  Kind k; S name;
  int i; size_t z; double d; cd c; std::vector<Ref<double> > r; std::vector<Ref<cd> > q;
  Val() : k(INT), i(0), z(0), d(0), c(0) {}
};
static Val vint(int x) { Val v; v.k = INT; v.i = x; return v; }
static Val vsize(size_t x) { Val v; v.k = SIZE; v.z = x; return v; }
static Val vreal(double x) { Val v; v.k = REAL; v.d = x; return v; }
static Val vcplx(cd x) { Val v; v.k = CPLX; v.c = x; return v; }
static Val vrt(const Ref<double> &x) { Val v; v.k = RT; v.r.push_back(x); return v; }
static Val vct(const Ref<cd> &x) { Val v; v.k = CT; v.q.push_back(x); return v; }
static Val vrv(const std::vector<Ref<double> > &x) { Val v; v.k = RV; v.r = x; return v; }
static Val vcv(const std::vector<Ref<cd> > &x) { Val v; v.k = CV; v.q = x; return v; }
static Val named(Val v, const S &n) { v.name = n; return v; }
static Ref<double> rnum(const Dims &d, int salt = 0) { Ref<double> r(d); for (size_t k = 0; k < r.v.size(); k++) r.v[k] = (k + 1) * 0.37 - salt * 1.5; return r; }
static Ref<cd> cnum(const Dims &d, int salt = 0) { Ref<cd> r(d); for (size_t k = 0; k < r.v.size(); k++) r.v[k] = cd((k + 1) * 0.37 - salt * 1.5, 2.5 - k); return r; }
static S show(const Val &v) {
  mc::Str m; m << KNAME[v.k] << " '" << v.name << "' ";
  switch (v.k) {
  case INT: m << v.i; break; case SIZE: m << v.z; break; case REAL: m << v.d; break; case CPLX: m << v.c; break;
  case RT: case RV: for (auto &x : v.r) m << mc::seq(x.d); break;
  default: for (auto &x : v.q) m << mc::seq(x.d);
  }
  return m;
}
static void dump(sdf::OutDataFile &f, const Val &v) {
  mc::transition();
  switch (v.k) {
  case INT: f.dump(v.i, v.name); break; case SIZE: f.dump(v.z, v.name); break;
  case REAL: f.dump(v.d, v.name); break; case CPLX: f.dump(v.c, v.name); break;
  case RT: { Tensor<double> t = to_tensor(v.r[0]); f.dump(t, v.name); if (!bits_same(from_tensor(t), v.r[0])) mc::fail("dump changed the tensor"); break; }
  case CT: { Tensor<cd> t = to_tensor(v.q[0]); f.dump(t, v.name); if (!bits_same(from_tensor(t), v.q[0])) mc::fail("dump changed the tensor"); break; }
  case RV: { std::vector<Tensor<double> > t; for (auto &x : v.r) t.push_back(to_tensor(x)); f.dump(t, v.name); break; }
  case CV: { std::vector<Tensor<cd> > t; for (auto &x : v.q) t.push_back(to_tensor(x)); f.dump(t, v.name); break; }
  default: break;
  }
}
// loads a value of the given kind, asking for the given name
static Val load(sdf::InDataFile &f, Kind k, const S &name) {
  mc::transition();
  Val v; v.k = k; v.name = name;
  switch (k) {
  case INT: v.i = 12345; f.load(&v.i, name); break; case SIZE: v.z = 12345; f.load(&v.z, name); break;
  case REAL: v.d = 777; f.load(&v.d, name); break; case CPLX: v.c = cd(7, 7); f.load(&v.c, name); break;
  // the target holds something else, shared with another tensor
  case RT: { Tensor<double> t = to_tensor(rnum({2, 2}, 9)), h(t); f.load(&t, name); v.r.push_back(from_tensor(t)); if (!equals(h, rnum({2, 2}, 9))) mc::fail("loading changed another tensor"); break; }
  case CT: { Tensor<cd> t = to_tensor(cnum({2, 2}, 9)), h(t); f.load(&t, name); v.q.push_back(from_tensor(t)); if (!equals(h, cnum({2, 2}, 9))) mc::fail("loading changed another tensor"); break; }
  case RV: { Tensor<double> h = to_tensor(rnum({3}, 9)); std::vector<Tensor<double> > t(2, h); f.load(&t, name); for (auto &x : t) v.r.push_back(from_tensor(x)); if (!equals(h, rnum({3}, 9))) mc::fail("loading changed another tensor"); break; }
  case CV: { Tensor<cd> h = to_tensor(cnum({3}, 9)); std::vector<Tensor<cd> > t(2, h); f.load(&t, name); for (auto &x : t) v.q.push_back(from_tensor(x)); if (!equals(h, cnum({3}, 9))) mc::fail("loading changed another tensor"); break; }
  default: break;
  }
  return v;
}
template <class T> static bool bits(const T &a, const T &b) { return !memcmp(&a, &b, sizeof(T)); }
static bool same_value(const Val &a, const Val &b) {
  if (a.k != b.k) return false;
  switch (a.k) {
  case INT: return a.i == b.i; case SIZE: return a.z == b.z; case REAL: return bits(a.d, b.d); case CPLX: return bits(a.c, b.c);
  case RT: case RV: if (a.r.size() != b.r.size()) return false; for (size_t i = 0; i < a.r.size(); i++) if (!bits_same(a.r[i], b.r[i])) return false; return true;
  default: if (a.q.size() != b.q.size()) return false; for (size_t i = 0; i < a.q.size(); i++) if (!bits_same(a.q[i], b.q[i])) return false; return true;
  }
}
static S slurp(const S &f) { std::ifstream s(f.c_str(), std::ios::binary); return S(std::istreambuf_iterator<char>(s), std::istreambuf_iterator<char>()); }
static void spew(const S &f, const S &b) { std::ofstream s(f.c_str(), std::ios::binary | std::ios::trunc); s.write(b.data(), b.size()); }
static bool present(const S &f) { struct stat s; return stat(f.c_str(), &s) == 0; }
static void wipe(const S &dir) {   // a scratch directory of ours, flat
  DIR *d = opendir(dir.c_str()); if (!d) return;
  for (struct dirent *e; (e = readdir(d)); ) { S n = e->d_name; if (n != "." && n != "..") unlink((dir + "/" + n).c_str()); }
  closedir(d);
}
// A rejected call never destroys its files: their descriptors (and locks) are
// dropped here, as the end of the program would do.
static int free_fd() { int f = dup(2); close(f); return f; }
static bool rejected(const std::function<void()> &f) {
  int base = free_fd();
  bool r = mc::rejects(f);
  if (r) for (int k = base; k < base + 16; k++) close(k);
  return r;
}
static const int MODES[] = {sdf::DataFile::SDF_SHARED, sdf::DataFile::SDF_OVERWRITE, sdf::DataFile::SDF_PARANOID};
static const char *MNAME[] = {"shared", "overwrite", "paranoid"};
