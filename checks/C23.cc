// C23: the Python reader returns what the library wrote.
#include "ref.h"
#include <tensor/sdf.h>
#include <cstdlib>
#include <map>
#include <algorithm>
#include <unistd.h>
#include <signal.h>
#include <sys/prctl.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <fstream>
using namespace tensor;
typedef std::string S;
typedef std::vector<S> Words;

// the reader, in a process of its own for each shard
struct Server {
  FILE *in, *out; pid_t pid; char *line; size_t cap;
  Server() : in(0), out(0), pid(0), line(0), cap(0) {}
  void start() {
    if (pid) return;
    int a[2], b[2]; if (pipe(a) || pipe(b)) abort();
    pid = fork();
    if (!pid) {
      prctl(PR_SET_PDEATHSIG, SIGKILL);
      dup2(a[0], 0); dup2(b[1], 1); for (int i = 3; i < 64; i++) close(i);
      const char *dir = getenv("MC_VERIF"); S s = S(dir ? dir : "/verif") + "/checks/C23_server.py";
      setenv("OPENBLAS_NUM_THREADS", "1", 1);
      const char *py[] = {"/opt/veriftools/pyvenv/bin/python3", "/opt/veriftools/pyvenv/bin/python", "python3-vt", "python3"};
      for (const char *p : py) execlp(p, p, "-B", s.c_str(), (char *)0);
      _exit(127);
    }
    close(a[0]); close(b[1]); in = fdopen(a[1], "w"); out = fdopen(b[0], "r");
  }
  S ask(const S &q) {
    start(); fprintf(in, "%s\n", q.c_str()); fflush(in);
    ssize_t n = getline(&line, &cap, out);
    mc::transition();
    if (n <= 0) { waitpid(pid, 0, 0); pid = 0; fclose(in); fclose(out); return "NO ANSWER"; }
    if (line[n - 1] == '\n') n--;
    return S(line, n);
  }
} server;

static S hex(const void *p, size_t n) { static const char *d = "0123456789abcdef"; S s; const unsigned char *c = (const unsigned char *)p; for (size_t i = 0; i < n; i++) { s += d[c[i] >> 4]; s += d[c[i] & 15]; } return s; }
static S dims(const Dims &d) { S s = "("; for (size_t i = 0; i < d.size(); i++) s += (i ? "," : "") + std::to_string(d[i]); return s + ")"; }
static S text(const Ref<double> &r) { return "d" + dims(r.d.empty() ? Dims{0} : r.d) + hex(r.v.data(), 8 * r.v.size()); }
static S text(const Ref<cd> &r) { return "z" + dims(r.d.empty() ? Dims{0} : r.d) + hex(r.v.data(), 16 * r.v.size()); }
// a value of a kind of record; salt makes it different from others of its kind
template <class T> static T number(long k);
template <> double number<double>(long k) { static const double sp[] = {0.0, -0.0, 1.5, -1e300, 5e-324, INFINITY, -INFINITY, 1.0 / 3}; return k < 8 ? sp[k] : 0.37 * k - 11; }
template <> cd number<cd>(long k) { return cd(number<double>(k), number<double>(k + 1)); }
template <class T> static Ref<T> block(const Dims &d, int salt) { Ref<T> r(d); for (size_t i = 0; i < r.v.size(); i++) r.v[i] = number<T>(i + 3 * salt); return r; }
struct Value { int kind; std::vector<Ref<double> > d; std::vector<Ref<cd> > z; };   // kind 0-3 scalars, 4 real, 5 complex, 6 real list, 7 complex list
static const std::vector<Dims> shapes = {{}, {0}, {1}, {3}, {2, 3}, {2, 0}, {0, 2}, {2, 2, 2}, {1, 3, 1, 2}, {1, 1, 1, 1, 2}, {3, 1, 2, 1, 2, 1}, {300}};
static const int KINDS = 4 + 12 + 5 + 5 + 4;
static Value make(int k, int salt) {
  Value v; v.kind = 4;
  if (k < 4) { v.kind = k; if (k == 3) v.z.push_back(Ref<cd>(Dims{1}, cd(salt + 0.5, -salt))); else v.d.push_back(Ref<double>(Dims{1}, k == 0 ? -3.0 - salt : k == 1 ? 4.0 + salt : salt * 0.1 - 2)); return v; }
  k -= 4; if (k < 12) { v.d.push_back(block<double>(shapes[k], salt)); return v; }
  k -= 12; if (k < 5) { static const int w[] = {0, 3, 4, 5, 8}; v.kind = 5; v.z.push_back(block<cd>(shapes[w[k]], salt)); return v; }
  k -= 5; if (k < 5) { v.kind = 6; static const int n[] = {0, 1, 2, 3, 20}; for (int i = 0; i < n[k]; i++) v.d.push_back(block<double>(shapes[(3 + i) % 12], salt + i)); return v; }
  k -= 5; v.kind = 7; static const int n[] = {0, 1, 3, 2}; for (int i = 0; i < n[k]; i++) v.z.push_back(block<cd>(shapes[k == 3 ? i : 4 + i], salt + i)); return v;
}
static S text(const Value &v) {
  if (v.kind == 3 || v.kind == 5) return text(v.z[0]); if (v.kind < 5) return text(v.d[0]);
  S s = "["; for (size_t i = 0; i < v.d.size(); i++) s += (i ? "," : "") + text(v.d[i]); for (size_t i = 0; i < v.z.size(); i++) s += (i ? "," : "") + text(v.z[i]); return s + "]";
}
static void put(sdf::OutDataFile &o, const Value &v, const S &name) {
  mc::transition();
  switch (v.kind) { case 0: o.dump((int)v.d[0].v[0], name); break; case 1: o.dump((size_t)v.d[0].v[0], name); break; case 2: o.dump(v.d[0].v[0], name); break; case 3: o.dump(v.z[0].v[0], name); break; case 4: o.dump(to_tensor(v.d[0]), name); break; case 5: o.dump(to_tensor(v.z[0]), name); break;
    case 6: { std::vector<RTensor> l; for (auto &x : v.d) l.push_back(to_tensor(x)); o.dump(l, name); break; } default: { std::vector<CTensor> l; for (auto &x : v.z) l.push_back(to_tensor(x)); o.dump(l, name); } }
}
struct Record { S name; Value v; };
static S expected(const std::vector<Record> &r) {   // a dictionary: the last record of each name, in the order of the first
  std::vector<std::pair<S, S> > d; for (auto &x : r) { bool f = false; for (auto &y : d) if (y.first == x.name) { y.second = text(x.v); f = true; } if (!f) d.push_back({x.name, text(x.v)}); }
  S s = "OK "; for (size_t i = 0; i < d.size(); i++) s += (i ? ";" : "") + hex(d[i].first.data(), d[i].first.size()) + "=" + d[i].second; return s;
}
static S cut(const S &s) { return s.size() > 300 ? s.substr(0, 300) + "..." : s; }
static S path(const char *n) { return mc::need_scratch() + "/" + n; }
static void compare(const S &got, const S &want, const S &what) { if (got != want) mc::fail(what + ": the reader answers " + cut(got) + " expected " + cut(want)); else { mc::Hash h; h.str(got); mc::state(h.h); } }
static void write(const S &p, const std::vector<Record> &r, int mode = 0, int sessions = 1) {
  ::unlink(p.c_str()); size_t n = r.size();
  for (int s = 0; s < sessions; s++) { sdf::OutDataFile o(p, mode); for (size_t i = n * s / sessions; i < n * (s + 1) / sessions; i++) put(o, r[i].v, r[i].name); if (s % 2) o.close(); }
}
static S slurp(const S &p) { std::ifstream f(p.c_str(), std::ios::binary); return S(std::istreambuf_iterator<char>(f), std::istreambuf_iterator<char>()); }
static void spill(const S &p, const S &b) { std::ofstream f(p.c_str(), std::ios::binary | std::ios::trunc); f.write(b.data(), b.size()); }
static void round(const std::vector<Record> &r, const S &what, int mode = 0, int sessions = 1) {
  S p = path("f"); write(p, r, mode, sessions); compare(server.ask("load\t" + p), expected(r), what); ::unlink(p.c_str());
}
// the same records as bytes of the documented layout, for machines of other kinds
struct Bytes {
  S s; bool big; int width; std::vector<size_t> ends;
  Bytes(bool b, int w) : big(b), width(w) {}
  void raw(const void *p, size_t n) { S x((const char *)p, n); if (big) std::reverse(x.begin(), x.end()); s += x; }
  void count(long n) { if (width == 8) { int64_t x = n; raw(&x, 8); } else { int32_t x = n; raw(&x, 4); } }
  void name(const S &n) { S x = n; x.resize(64, 0); s += x; }
  void real(double x) { raw(&x, 8); }
  template <class T> void tensor(const Ref<T> &r) { count(r.d.size()); for (long x : r.d) count(x); count(r.v.size()); for (auto &x : r.v) { real(std::real(x)); if (sizeof(T) == 16) real(std::imag(x)); } }
  void record(const Record &r) {
    name(r.name); int k = r.v.kind; bool z = k == 3 || k == 5 || k == 7; count(k < 6 ? z : k == 6 ? 2 : 3);
    if (k < 6) { if (z) tensor(r.v.z[0]); else tensor(r.v.d[0]); }
    else { count(r.v.d.size() + r.v.z.size()); for (auto &x : r.v.d) { name(""); count(0); tensor(x); } for (auto &x : r.v.z) { name(""); count(1); tensor(x); } }
    ends.push_back(s.size());
  }
  void header(const S &like) { S h = like; h[4] = '0' + width; h[5] = big ? '0' : '1'; s = h; }
};
static S header_of() { static S h; if (h.empty()) { S p = path("h"); write(p, {}); h = slurp(p); ::unlink(p.c_str()); } return h; }
static std::vector<Record> records(const std::vector<int> &w) { std::vector<Record> r; for (size_t i = 0; i < w.size(); i++) r.push_back({S(1, 'a' + i), make(w[i], i)}); return r; }
void explore() {
  const bool Th = mc::thorough;
  if (!getenv("HOME")) setenv("HOME", "/tmp", 0);
  // every sequence of records
  for (int len = 0; len <= 2; len++) mc::all_words(std::min(len, 1), KINDS, [&](const std::vector<int> &head) {
    mc::run_case(DESC { return mc::Str() << len << " records starting with kinds " << mc::seq(head); }, [&] {
      mc::group("sequences"); mc::nontrivial();
      mc::all_words(len - head.size(), KINDS, [&](const std::vector<int> &tail) { if (mc::failed()) return; std::vector<int> w(head); w.insert(w.end(), tail.begin(), tail.end()); round(records(w), "kinds " + mc::seq(w)); }); });
  });
  static const int few[] = {0, 3, 4, 6, 8, 11, 17, 18, 21, 23, 26, 27, 28}; const int F = Th ? KINDS : 13;
  mc::all_words(2, F, [&](const std::vector<int> &head) {
    mc::run_case(DESC { return mc::Str() << "3 records starting with kinds " << mc::seq(head); }, [&] {
      mc::group("sequences"); mc::nontrivial();
      for (int k = 0; k < F && !mc::failed(); k++) { std::vector<int> w = {head[0], head[1], k}; if (!Th) for (int &x : w) x = few[x]; round(records(w), "kinds " + mc::seq(w)); } });
  });
  // sessions and modes
  for (int mode : {0, 1, 4}) for (int s = 1; s <= (mode == 1 ? 4 : 1); s++) for (int k = 0; k < KINDS; k++) mc::run_case(DESC { return mc::Str() << "mode " << mode << " written in " << s << " sessions, kinds from " << k; }, [&] { mc::group("sessions"); mc::nontrivial(); for (int n = 0; n <= 4; n++) { std::vector<int> w; for (int i = 0; i < n; i++) w.push_back((k + 7 * i) % KINDS); round(records(w), "kinds " + mc::seq(w), mode, s); } });
  // names
  std::vector<S> names; for (int n = 0; n <= 63; n++) names.push_back(S(n, 'n')); for (auto x : {"sdf", "sdf4", "sdf_1", "sdf481", "sdf  4 1", "sdf880", "sd", "x", "0", "a b", "a=b;c", "\xc3\xa9", "name with spaces", "None", "'", "\"", "\\", "sdf\xc3\xa9", "tab_", "_"}) names.push_back(x); { S h = header_of(); names.push_back(h.substr(0, std::min<size_t>(63, strnlen(h.data(), 63)))); }
  for (size_t i = 0; i < names.size(); i++) mc::run_case(DESC { return "record named '" + names[i] + "'"; }, [&] {
    mc::group("names"); mc::nontrivial(); for (int k : {0, 6, 8, 17, 23, 28}) { Record a{names[i], make(k, 1)}, b{"b", make(4, 2)}, c{"c", make(k, 3)}; round({a}, "alone"); round({a, b}, "first"); round({b, a, c}, "second"); round({b, c, a}, "last"); round({a, b, {names[i], make((k + 1) % KINDS, 5)}}, "twice"); } });
  // names that differ in one character: every one alone, before, behind and inside another
  std::vector<S> letters; for (int c = 1; c < 128; c++) letters.push_back(S(1, (char)c)); for (auto u : {"\xc3\xa9", "e\xcc\x81", "\xc2\xa0", "\xe2\x80\x8b", "\xe2\x80\xa8", "\xef\xbb\xbf", "\xf0\x9f\x98\x80", "\xc2\x85", "\xef\xac\x81", "fi"}) letters.push_back(u);
  for (size_t i = 0; i < letters.size(); i++) mc::run_case(DESC { return mc::Str() << "names with the character " << i + 1; }, [&] {
    mc::group("names"); mc::nontrivial(); const S &l = letters[i]; std::vector<S> all = {"n", l, "n" + l, l + "n", "n" + l + "n", "n" + l + l, l + l, S("N")}; std::vector<Record> r;
    for (size_t k = 0; k < all.size(); k++) { bool old = false; for (size_t m = 0; m < k; m++) old |= all[m] == all[k]; if (!old) r.push_back({all[k], make((int)(k * 5 + i) % KINDS, (int)k)}); }
    round(r, "together"); for (auto &x : r) { if (!mc::failed()) round({x}, "alone"); for (auto &y : r) if (&x != &y && !mc::failed()) round({x, y}, "two"); } });
  // other machines
  for (int big = 0; big < 2; big++) for (int width : {4, 8}) for (int k = 0; k < KINDS; k++) mc::run_case(DESC { return mc::Str() << (big ? "big" : "little") << " endian, counts of " << width << " bytes, kind " << k; }, [&] {
    mc::group("other machines"); mc::nontrivial(); S p = path("m");
    for (int j = -1; j < KINDS && !mc::failed(); j++) {
      std::vector<Record> r = records(j < 0 ? std::vector<int>{k} : std::vector<int>{k, j, k}); Bytes b(big, width); b.header(header_of()); for (auto &x : r) b.record(x);
      if (!big && width == 8) { S q = path("f"); write(q, r); if (slurp(q) != b.s) mc::fail(mc::Str() << "kinds " << k << "," << j << ": the file does not have the documented layout"); ::unlink(q.c_str()); }
      spill(p, b.s); compare(server.ask("load\t" + p), expected(r), mc::Str() << "kinds " << k << "," << j);
    }
    ::unlink(p.c_str()); });
  // files that end early or hold tags of no kind
  for (int big = 0; big < 2; big++) for (int width : {4, 8}) for (int k = 0; k < KINDS; k++) mc::run_case(DESC { return mc::Str() << "damaged files, " << (big ? "big" : "little") << " endian, counts of " << width << " bytes, kind " << k; }, [&] {
    mc::group("damaged files"); mc::nontrivial(); S p = path("t"); std::vector<Record> r = records({8, k, 4}); Bytes b(big, width); b.header(header_of()); size_t h = b.s.size(); for (auto &x : r) b.record(x);
    for (size_t n = 0; n < b.s.size() && !mc::failed(); n += n > 900 && n + 200 < b.s.size() ? 13 : 1) {
      std::vector<Record> whole; bool boundary = n == h || n == 0; for (size_t i = 0; i < r.size(); i++) if (b.ends[i] <= n) { whole.push_back(r[i]); if (b.ends[i] == n) boundary = true; }
      spill(p, b.s.substr(0, n)); S a = server.ask("load\t" + p); bool exc = a.compare(0, 3, "EXC") == 0;
      if (boundary && n ? a != expected(whole) : n < h ? !exc && a != "OK " : !exc) mc::fail(mc::Str() << "the first " << n << " of " << b.s.size() << " bytes: the reader answers " << cut(a) << (boundary ? " expected " + cut(expected(whole)) : S(" expected an error")));
    }
    for (long tag : {-1L, 4L, 5L, 100L, 256L, 65536L}) for (size_t i = 0; i < r.size() && !mc::failed(); i++) { Bytes t(big, width); t.count(tag); S x = b.s; x.replace((i ? b.ends[i - 1] : h) + 64, width, t.s); spill(p, x); S a = server.ask("load\t" + p); if (a.compare(0, 3, "EXC")) mc::fail(mc::Str() << "record " << i << " with tag " << tag << ": the reader answers " << cut(a) << " expected an error"); }
    ::unlink(p.c_str()); });
  // directories of files
  for (int n = 1; n <= 4; n++) for (int k = 0; k < KINDS; k++) mc::run_case(DESC { return mc::Str() << "data set of " << n << " files, kind " << k; }, [&] {
    mc::group("data sets"); mc::nontrivial(); S dir = path("d"); ::mkdir(dir.c_str(), 0777); std::vector<int> order(n); for (int i = 0; i < n; i++) order[i] = i;
    do {
      for (int i = 0; i < n; i++) write(dir + "/" + std::to_string(i * 7 % 10), {{"x", make(k, order[i])}, {"key", make(2, order[i])}});
      std::vector<Value> xs, ks; for (int i = 0; i < n; i++) { xs.push_back(make(k, i)); ks.push_back(make(2, i)); }
      auto stack = [&](const std::vector<Value> &v) -> S {   // along a new last index
        if (v[0].kind > 5) { S s = "["; for (size_t i = 0; i < v.size(); i++) s += (i ? "," : "") + text(v[i]); return s + "]"; }
        if (v[0].kind == 3 || v[0].kind == 5) { Ref<cd> r = v[0].z[0]; if (r.d.empty()) r.d = {0}; for (size_t i = 1; i < v.size(); i++) r.v.insert(r.v.end(), v[i].z[0].v.begin(), v[i].z[0].v.end()); r.d.push_back(v.size()); return text(r); }
        Ref<double> r = v[0].d[0]; if (r.d.empty()) r.d = {0}; for (size_t i = 1; i < v.size(); i++) r.v.insert(r.v.end(), v[i].d[0].v.begin(), v[i].d[0].v.end()); r.d.push_back(v.size()); return text(r); };
      S want = "OK " + hex("x", 1) + "=" + stack(xs) + ";" + hex("key", 3) + "=" + stack(ks);
      compare(server.ask("sorted\t" + dir + "\tkey"), want, "sorted by key, order " + mc::seq(order));
      // in any order, but the same one for all the names
      S a = server.ask("dataset\t" + dir); bool any = false; std::vector<int> p(n); for (int i = 0; i < n; i++) p[i] = i;
      do { std::vector<Value> x, y; for (int i : p) { x.push_back(xs[i]); y.push_back(ks[i]); } if (a == "OK " + hex("x", 1) + "=" + stack(x) + ";" + hex("key", 3) + "=" + stack(y)) any = true; } while (!any && std::next_permutation(p.begin(), p.end()));
      if (!any) mc::fail("order " + mc::seq(order) + ": the reader answers " + cut(a));
    } while (!mc::failed() && std::next_permutation(order.begin(), order.end()));
    for (int i = 0; i < n; i++) ::unlink((dir + "/" + std::to_string(i * 7 % 10)).c_str()); ::rmdir(dir.c_str()); });
}
