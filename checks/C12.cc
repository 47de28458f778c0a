// C12: data files return exactly what was written.
#include "sdf_common.h"
typedef std::vector<Val> File;

static S path() { return mc::need_scratch() + "/f.dat"; }
static S showf(const File &f) { S s; for (auto &v : f) s += show(v) + "; "; return s.substr(0, 600); }

static void session(const S &p, int mode, const File &w, bool by_close) {
  sdf::OutDataFile f(p, mode);
  for (auto &v : w) dump(f, v);
  if (by_close) f.close();
}
// how: bit 0 ask for names, bit 1 close explicitly, bits 2.. reading mode
static void read_back(const S &p, const File &e, int how, const S &what) {
  S before = slurp(p);
  bool r = rejected([&] {
    sdf::InDataFile f(p, MODES[how / 4 % 3]);
    for (size_t i = 0; i < e.size(); i++) {
      Val g = load(f, e[i].k, how & 1 ? e[i].name : S());
      if (!same_value(g, e[i])) { mc::fail(what + ": record " + std::to_string(i) + " read as " + show(g) + " instead of " + show(e[i]) + " in " + showf(e)); break; }
    }
    if (how & 2) f.close();
  });
  if (r) mc::fail(what + ": reading rejected (" + mc::ending_message + "): " + showf(e) + (how & 1 ? "by name " : "without name ") + MNAME[how / 4 % 3]);
  if (slurp(p) != before) mc::fail(what + ": reading changed the file");
  mc::Hash h; h.str(before); mc::state(h.h);
}
static void round_trip(const File &w, int mode, int how) {
  S p = path(); unlink(p.c_str()); unlink((p + ".lck").c_str()); unlink((p + ".tmp").c_str());
  if (!w.empty()) mc::nontrivial();
  bool r = rejected([&] { session(p, MODES[mode], w, how & 1); });
  if (r) { mc::fail("writing rejected (" + mc::ending_message + "): " + showf(w)); return; }
  read_back(p, w, how, MNAME[mode]);
  mc::note_trace();
}
static std::vector<double> special() {
  std::vector<double> x = {0.0, -0.0, 1.0, -1.5, 0.1, 5e-324, -2.2250738585072014e-308, 1.7976931348623157e308, HUGE_VAL, -HUGE_VAL, NAN, 9007199254740993.0};
  double y; uint64_t b = 0x7ff0000000000123ULL; memcpy(&y, &b, 8); x.push_back(y); b = 0xfff8000000000abcULL; memcpy(&y, &b, 8); x.push_back(y); b = 0x0d0a1a00ff0a0d1aULL; memcpy(&y, &b, 8); x.push_back(y); b = 0xffffffffffffffffULL; memcpy(&y, &b, 8); x.push_back(y);
  return x;
}
static std::vector<Val> alphabet() {
  std::vector<Val> a;
  a.push_back(named(vint(-7), "i")); a.push_back(named(vsize(1UL << 40), "size")); a.push_back(named(vreal(-0.0), "d")); a.push_back(named(vcplx(cd(1, -2)), "c"));
  a.push_back(named(vrt(rnum({2, 3}, 1)), "r")); a.push_back(named(vrt(rnum({0, 3})), "")); a.push_back(named(vrt(rnum({})), "empty")); a.push_back(named(vct(cnum({3}, 2)), "ct")); a.push_back(named(vct(cnum({1, 2, 2})), ""));
  a.push_back(named(vrv({rnum({2}), rnum({1, 1}), rnum({0})}), "v")); a.push_back(named(vrv({}), "nothing")); a.push_back(named(vcv({cnum({2, 2}, 3)}), S(63, 'n'))); a.push_back(named(vcv({cnum({}), cnum({1})}), "i"));
  return a;
}
static File take(const std::vector<int> &w) { static std::vector<Val> a = alphabet(); File f; for (int i : w) f.push_back(a[i]); return f; }

void explore() {
  const bool Th = mc::thorough;
  // single values, every mode
  std::vector<Val> one;
  for (int x : {0, 1, -1, 7, 255, 256, -128, 65536, 2147483647, -2147483647 - 1}) one.push_back(vint(x));
  for (size_t x : {0UL, 1UL, 255UL, 1UL << 31, 1UL << 32, (1UL << 32) + 1, (1UL << 53) - 1, 1UL << 53, 1UL << 62, 1UL << 63}) one.push_back(vsize(x));
  for (double x : special()) { one.push_back(vreal(x)); for (double y : special()) one.push_back(vcplx(cd(x, y))); }
  for (int rank = 0; rank <= 4; rank++) each_shape(rank, 0, rank <= 2 ? 5 : rank == 3 ? 3 : 2, [&](const Dims &d) { one.push_back(vrt(rnum(d, 1))); one.push_back(vct(cnum(d, 1))); });
  for (auto &d : std::vector<Dims>{{1, 2, 1, 2, 1}, {2, 1, 2, 1, 2, 1}, {1, 1, 1, 1, 1, 1, 1}, {1000}, {1, 4097}, {33, 65}, {64, 64, 4}, {65536}, {131073}, {3, 349531}, {7, 0, 9, 2, 3}}) { one.push_back(vrt(rnum(d))); one.push_back(vct(cnum(d))); }
  { Ref<double> r(Dims{(long)special().size()}, special()); one.push_back(vrt(r)); Ref<cd> c(Dims{(long)special().size()}); for (size_t i = 0; i < c.v.size(); i++) c.v[i] = cd(special()[i], special()[c.v.size() - 1 - i]); one.push_back(vct(c)); one.push_back(vrv({r, r})); one.push_back(vcv({c, c})); }
  for (int n = 0; n <= 6; n++) { std::vector<Ref<double> > r; std::vector<Ref<cd> > c; for (int i = 0; i < n; i++) { Dims d(i % 4, (i + n) % 3); r.push_back(rnum(d, i)); c.push_back(cnum(d, i)); } one.push_back(vrv(r)); one.push_back(vcv(c)); }
  for (int n : {255, 256, 300}) { one.push_back(vrv(std::vector<Ref<double> >(n, rnum({2})))); one.push_back(vcv(std::vector<Ref<cd> >(n, cnum({1})))); }
  for (auto &v : one) mc::run_case(DESC { return "single " + show(v); }, [&] {
    mc::group("single values");
    for (int mode = 0; mode < 3; mode++) for (int how = 0; how < 12; how += (v.r.size() + v.q.size() > 0 && how > 3) ? 4 : 1) { round_trip({named(v, "x")}, mode, how); if (mc::failed()) return; }
    round_trip({v, v, vint(3)}, 0, 2);
  });
  // integers that no double holds
  for (size_t x : {(1UL << 53) + 1, (1UL << 62) + 1, ~0UL, 1234567890123456789UL}) mc::run_case(DESC { return mc::Str() << "integer beyond doubles " << x; }, [&] { mc::group("single values"); round_trip({named(vsize(x), "x")}, 0, 1); });
  // names
  std::vector<S> names;
  for (int n = 0; n <= 80; n++) names.push_back(S(n, 'a' + n % 26));
  for (const char *n : {"x", "X", "x ", " x", "x1", "a b", "sdf", "sdf841", "\n", "\xc3\xa9", "a/b", "%s%n", "0"}) names.push_back(n);
  { S all; for (int c = 1; c < 256; c++) { all += (char)c; if (all.size() == 60) { names.push_back(all); all = ""; } } names.push_back(all); }
  for (auto &n : names) mc::run_case(DESC { return mc::Str() << "name of " << n.size() << " characters '" << n << "'"; }, [&] {
    mc::group("names");
    for (auto &v : {vint(5), vcplx(cd(1, 2)), vrt(rnum({2})), vct(cnum({2, 1})), vrv({rnum({1})}), vcv({})}) for (int how : {0, 1}) { round_trip({named(v, n), named(vint(1), n), named(v, "z")}, 0, how); if (mc::failed()) return; }
    if (n.size() > 63) return;
    // every other name is refused
    S p = path(); S b = slurp(p);
    for (auto &m : names) {
      if (m == n || m.empty() || m.size() > 63) continue;
      unlink((p + ".lck").c_str());
      if (!rejected([&] { sdf::InDataFile f(p); std::vector<CTensor> v; f.load(&v, m); })) { mc::fail("record '" + n + "' loaded as '" + m + "'"); return; }
      mc::transition();
    }
    if (slurp(p) != b) mc::fail("refusing a name changed the file");
  });
  // words of records in one session
  int A = alphabet().size(), L = Th ? 4 : 3;
  for (int a = 0; a < A; a++) for (int b = 0; b < A; b++) mc::run_case(DESC { return mc::Str() << "words of records starting with " << a << "," << b; }, [&] {
    mc::group("words of records");
    int k = 0;
    round_trip(take({a}), b % 3, b % 12); round_trip(take({a, b}), (a + b) % 3, (a * 5 + b) % 12);
    for (int l = 1; l <= L - 2; l++) mc::all_words(l, A, [&](const std::vector<int> &w) { if (mc::failed()) return; std::vector<int> x = {a, b}; x.insert(x.end(), w.begin(), w.end()); k++; round_trip(take(x), k % 3, k % 12); });
  });
  // wrong kinds at every position
  for (int a = 0; a < A; a++) mc::run_case(DESC { return mc::Str() << "wrong requests for record " << a; }, [&] {
    mc::group("wrong requests"); mc::nontrivial();
    for (int b = 0; b < A; b++) for (int pos = 0; pos < 2; pos++) {
      File w = pos ? take({b, a}) : take({a, b}); S p = path(); unlink(p.c_str()); unlink((p + ".lck").c_str());
      session(p, 0, w, true); S bytes = slurp(p);
      for (int k = 0; k < NKINDS; k++) for (int m = 0; m < 3; m++) {
        const Val &t = w[pos]; long n1 = t.k == RT ? t.r[0].v.size() : t.k == CT ? t.q[0].v.size() : 1;
        bool scalar = k == INT || k == SIZE || k == REAL || k == CPLX;
        bool wrong_kind = family(k) != family(t.k) || (scalar && n1 != 1), wrong_name = m == 2 || (m == 1 && t.name.empty());
        S n = m == 0 ? S() : m == 1 ? (t.name.empty() ? S("j") : t.name) : t.name + "?";
        if (t.name.size() == 63 && m == 2) n = t.name.substr(1);
        if (!wrong_kind && !wrong_name) continue;
        bool rej = rejected([&] { sdf::InDataFile f(p); if (pos) load(f, w[0].k, ""); load(f, (Kind)k, n); });
        if (!rej) { mc::fail("record " + show(t) + " loaded as " + KNAME[k] + " '" + n + "'"); return; }
        if (slurp(p) != bytes) { mc::fail("a refused request changed the file"); return; }
        unlink((p + ".lck").c_str());
      }
      // and past the end
      for (int k = 0; k < NKINDS; k++) { if (!rejected([&] { sdf::InDataFile f(p); load(f, w[0].k, ""); load(f, w[1].k, ""); load(f, (Kind)k, ""); })) { mc::fail(S("a record was read past the end as ") + KNAME[k]); return; } unlink((p + ".lck").c_str()); }
      read_back(p, w, b % 12, "after refused requests");
    }
  });
  // histories of sessions
  std::vector<File> words; { auto a = alphabet(); words.push_back({}); words.push_back({a[4]}); words.push_back({a[9], a[0]}); if (Th) words.push_back({a[7], a[7], a[3]}); }
  int W = words.size(), D = Th ? 6 : 5;
  for (int first = 0; first < 3 * W; first++) for (int second = 0; second < 3 * W; second++) mc::run_case(DESC { return mc::Str() << "histories of sessions starting " << MNAME[first % 3] << " " << first / 3 << ", " << MNAME[second % 3] << " " << second / 3; }, [&] {
    mc::group("histories of sessions"); mc::nontrivial();
    mc::all_words(D - 2, 3 * W, [&](const std::vector<int> &rest) {
      if (mc::failed()) return;
      S p = path(); unlink(p.c_str()); unlink((p + ".lck").c_str()); unlink((p + ".tmp").c_str());
      std::vector<int> h = {first, second}; h.insert(h.end(), rest.begin(), rest.end());
      File e; S what = "sessions";
      for (size_t i = 0; i < h.size(); i++) {
        int mode = h[i] % 3; const File &w = words[h[i] / 3];
        what += S(" ") + MNAME[mode] + " " + std::to_string(h[i] / 3);
        if (rejected([&] { session(p, MODES[mode], w, i & 1); })) { mc::fail(what + " rejected: " + mc::ending_message); return; }
        if (mode != 0) e.clear();
        e.insert(e.end(), w.begin(), w.end());
        if (i + 1 == h.size() || (first + second + i) % 3 == 0) read_back(p, e, (first + i * 5 + rest[0]) % 12, what);
        if (mc::failed()) return;
      }
      mc::note_trace();
    });
  });
  // two files open at once, records interleaved in every order
  for (int mode = 0; mode < 9; mode++) mc::run_case(DESC { return mc::Str() << "two files " << MNAME[mode % 3] << " " << MNAME[mode / 3]; }, [&] {
    mc::group("two files"); mc::nontrivial();
    mc::all_words(5, 2, [&](const std::vector<int> &o) {
      if (mc::failed()) return;
      S p = path(), q = mc::need_scratch() + "/g.dat"; for (auto &x : {p, q}) { unlink(x.c_str()); unlink((x + ".lck").c_str()); }
      File e, g;
      { sdf::OutDataFile f(p, MODES[mode % 3]), h(q, MODES[mode / 3]); for (int i = 0; i < 5; i++) { Val v = take({(i * 3 + mode) % 13})[0]; if (o[i]) { dump(f, v); e.push_back(v); } else { dump(h, v); g.push_back(v); } } }
      read_back(p, e, 1, "two files"); read_back(q, g, 0, "two files");
      sdf::InDataFile f(p), h(q); size_t a = 0, b = 0;
      for (int i = 0; i < 5; i++) { if (o[i]) { if (!same_value(load(f, e[a].k, ""), e[a])) mc::fail("two readers"); a++; } else { if (!same_value(load(h, g[b].k, ""), g[b])) mc::fail("two readers"); b++; } }
    });
  });
  // the record alphabet many times over
  for (int n : {20, 50, 200}) mc::run_case(DESC { return mc::Str() << n << " records"; }, [&] {
    mc::group("words of records");
    for (int mode = 0; mode < 3; mode++) { std::vector<int> w; for (int i = 0; i < n; i++) w.push_back((i * i + i * 7 + mode) % A); round_trip(take(w), mode, mode * 4 + 1); }
  });
}
