// C16: job splitting covers every combination of values exactly once.
#include "ref.h"
#include <algorithm>
#include <new>
#include <fstream>
#include <iostream>
#include <map>
#include <set>
#include <tensor/jobs.h>
#include <tensor/sdf.h>
#include <unistd.h>
#include <climits>
typedef std::string S;
typedef std::vector<S> Words;
struct Var { S name; double lo, hi; int n; S text; };
typedef std::vector<Var> Vars;
typedef std::vector<double> Point;
typedef std::map<long, Point> Map;

struct Visit { bool refused; std::vector<long> order; Map at; long total; S why; };
static Words options(const Vars &vs) { Words w; for (auto &v : vs) { w.push_back("--variable"); w.push_back(v.text); } return w; }
static Words operator+(Words a, const Words &b) { a.insert(a.end(), b.begin(), b.end()); return a; }
static S num(double x) { mc::Str s; s.s.precision(17); s << x; return s; }
static Visit once(const Words &w, const Vars &vs, int fill) {
  Visit v; v.refused = false; v.total = -1;
  std::vector<const char *> av; av.push_back("program"); for (auto &s : w) av.push_back(s.c_str());
  mc::transition();
  v.refused = mc::rejects([&] {
    // in memory that held something else
    alignas(16) static unsigned char room[sizeof(jobs::Job)]; memset(room, fill, sizeof room);
    struct Held { jobs::Job *j; ~Held() { if (j) j->~Job(); } } held = {0}; held.j = new (room) jobs::Job((int)av.size(), &av[0]); jobs::Job &j = *held.j;
    v.total = j.number_of_jobs();
    long guard = 0;
    for (; j.to_do(); ++j) {
      long k = j.current_job(); v.order.push_back(k);
      Point p; for (auto &x : vs) p.push_back(j.get_value(x.name));
      for (auto &x : vs) if (j.get_value_with_default(x.name, -77) != j.get_value(x.name)) mc::fail("get_value_with_default ignores the variable");
      if (j.get_value_with_default("nobody", -77) != -77) mc::fail("get_value_with_default of an unknown variable");
      if (v.at.count(k)) v.why = mc::Str() << "job " << k << " is visited twice"; else v.at[k] = p;
      if (++guard > 20000) { v.why = "the jobs never end"; break; }
    }
    // nothing comes back after the end
    for (int i = 0; i < 3; i++) { ++j; if (j.to_do() && v.why.empty()) v.why = "jobs to do after the last one"; }
  });
  return v;
}
static Visit go(const Words &w, const Vars &vs) {
  Visit a = once(w, vs, 0x00), b = once(w, vs, 0x5a);
  if (a.refused != b.refused || a.order != b.order || a.at != b.at) mc::fail("the jobs depend on what was in memory before");
  return a;
}
static S line(const Words &w) { S s; for (auto &x : w) s += (s.empty() ? "" : " ") + x; return s; }
static std::vector<double> values(const Var &v) { std::vector<double> r; for (int i = 0; i < v.n; i++) r.push_back(v.n == 1 ? v.lo : i == v.n - 1 ? v.hi : v.lo + i * (v.hi - v.lo) / (v.n - 1)); return r; }
static bool near(double a, double b) { return std::abs(a - b) <= 1e-12 * std::max(1.0, std::max(std::abs(a), std::abs(b))); }
// position of a value in the list of a variable (-1: none)
static int which(const Var &v, double x) { std::vector<double> r = values(v); for (size_t i = 0; i < r.size(); i++) if (near(r[i], x)) return (int)i; return -1; }
// what a run over everything must be
static bool complete(const Visit &v, const Vars &vs, const S &how) {
  long n = 1; for (auto &x : vs) n *= x.n;
  if (v.refused) { mc::fail(how + ": refused: " + mc::ending_message); return false; }
  if (!v.why.empty()) { mc::fail(how + ": " + v.why); return false; }
  if (v.total != n) { mc::fail(mc::Str() << how << ": number of jobs is " << v.total << ", not " << n); return false; }
  if ((long)v.at.size() != n) { mc::fail(mc::Str() << how << ": visits " << v.at.size() << " jobs of " << n); return false; }
  std::set<std::vector<int> > seen;
  for (auto &kv : v.at) {
    if (kv.first < 0 || kv.first >= n) { mc::fail(how + ": a job number out of range"); return false; }
    std::vector<int> d; for (size_t i = 0; i < vs.size(); i++) { int w = which(vs[i], kv.second[i]); if (w < 0) { mc::fail(mc::Str() << how << ": job " << kv.first << ": " << num(kv.second[i]) << " is not a value of " << vs[i].name); return false; } d.push_back(w); }
    if (!seen.insert(d).second) { mc::fail(mc::Str() << how << ": job " << kv.first << " repeats a combination"); return false; }
  }
  return true;
}
static bool subset_of(const Visit &v, const Map &all, const S &how) {
  if (!v.why.empty()) { mc::fail(how + ": " + v.why); return false; }
  for (auto &kv : v.at) { auto f = all.find(kv.first); if (f == all.end()) { mc::fail(mc::Str() << how << ": job " << kv.first << " does not exist"); return false; } if (f->second != kv.second) { mc::fail(mc::Str() << how << ": job " << kv.first << " means another combination"); return false; } }
  return true;
}
static bool exactly(const Visit &v, const Map &all, long a, long b, const S &how) {   // jobs a..b
  if (v.refused) { mc::fail(how + ": refused"); return false; }
  if (!subset_of(v, all, how)) return false;
  bool ok = (long)v.at.size() == std::max(0L, b - a + 1); for (long k = a; k <= b && ok; k++) ok = v.at.count(k) > 0;
  if (!ok) { mc::fail(mc::Str() << how << ": visits " << v.at.size() << " jobs instead of " << a << " to " << b); return false; }
  return true;
}
static void nothing(const Visit &v, const S &how) { if (!v.refused && (!v.order.empty() || !v.why.empty())) mc::fail(mc::Str() << how << ": runs job " << (v.order.empty() ? -1 : v.order[0])); }
static void refused(const Visit &v, const S &how) { if (!v.refused) mc::fail(how + ": accepted"); }
static S str(long k) { return mc::Str() << k; }
static Var var(const S &n, double lo, double hi, int steps) { Var v; v.name = n; v.lo = lo; v.hi = hi; v.n = steps; v.text = n + "," + num(lo) + "," + num(hi) + "," + str(steps); return v; }
static Var var(const S &n, double lo, double hi) { Var v = var(n, lo, hi, 10); v.text = n + "," + num(lo) + "," + num(hi); return v; }
static Var var(const S &n, double lo) { Var v = var(n, lo, lo, 1); v.text = n + "," + num(lo); return v; }

static void partitions(const Vars &vs, bool all_intervals) {
  Words o = options(vs);
  Visit all = go(o, vs);
  mc::state(std::hash<S>()(line(o)));
  if (!complete(all, vs, line(o))) return;
  const long n = all.total; const Map &m = all.at;
  // one by one, also beyond the end
  for (long k = -3; k < n + 4 && !mc::failed(); k++) {
    Words w = o + Words{"--this-job", str(k)}; Visit v = go(w, vs);
    if (k >= 0 && k < n) exactly(v, m, k, k, line(w)); else nothing(v, line(w));
  }
  // blocks
  std::vector<long> counts; for (long b = 1; b <= std::min(n + 3, 40L); b++) counts.push_back(b);
  for (long b = 41; b <= n + 3; b++) if (n <= 130 || n % b < 2 || b % 97 == 0 || b > n - 3) counts.push_back(b);
  counts.push_back(3 * n + 7); counts.push_back(2147483647);
  for (long b : counts) {
    std::set<long> seen;
    std::vector<long> ks; for (long k = 0; k < std::min(b, n + 3); k++) ks.push_back(k);
    if (b > n + 3) { ks.push_back(b / 2); ks.push_back(b - 1); }
    for (long k : ks) {
      if (mc::failed()) return;
      Words w = o + Words{"--job-blocks", str(b), "--this-job", str(k)}; Visit v = go(w, vs);
      if (v.refused) { mc::fail(line(w) + ": refused"); return; }
      if (!subset_of(v, m, line(w))) return;
      for (auto &kv : v.at) if (!seen.insert(kv.first).second) { mc::fail(mc::Str() << line(w) << ": job " << kv.first << " belongs to two blocks"); return; }
    }
    if ((long)seen.size() != n) { mc::fail(mc::Str() << line(o) << ": " << b << " blocks visit " << seen.size() << " jobs of " << n); return; }
    for (long k : {b, b + 1, -1L, -b}) { Words w = o + Words{"--job-blocks", str(b), "--this-job", str(k)}; nothing(go(w, vs), line(w)); }
    { Words w = o + Words{"--job-blocks", str(b)}; Visit v = go(w, vs), z = go(w + Words{"--this-job", "0"}, vs); if (v.refused || v.at != z.at) mc::fail(line(w) + " is not the first block"); }
  }
  // intervals
  if (all_intervals) for (long a = -2; a < n + 2 && !mc::failed(); a++) {
    { Words w = o + Words{"--first-job", str(a)}; Visit v = go(w, vs); if (a < 0 || a >= n) refused(v, line(w)); else exactly(v, m, a, n - 1, line(w)); }
    for (long b = -2; b < n + 3 && !mc::failed(); b++) {
      Words w = o + Words{"--first-job", str(a), "--last-job", str(b)}; Visit v = go(w, vs);
      if (a < 0 || a >= n || b < a) refused(v, line(w)); else exactly(v, m, a, std::min(b, n - 1), line(w));
    }
  }
}
static S captured(const std::function<void()> &f, mc::Ending &e) {
  std::ostringstream os; std::streambuf *old = std::cout.rdbuf(os.rdbuf()); e = mc::guarded(f); std::cout.rdbuf(old); return os.str();
}
static void construct(const Words &w) { std::vector<const char *> av; av.push_back("program"); for (auto &s : w) av.push_back(s.c_str()); jobs::Job j((int)av.size(), &av[0]); }

void explore() {
  const bool Th = mc::thorough;
  const char *names[] = {"a", "beta", "c_3", "D"};
  const double los[] = {0, -1.5, 10, 0.1}, his[] = {1, 2.25, 7, 0.7};
  // every list of up to four variables
  int maxn[] = {0, Th ? 60 : 30, Th ? 8 : 6, Th ? 4 : 3, Th ? 3 : 2};
  for (int k = 0; k <= 4; k++) mc::all_words(k, k ? maxn[k] : 1, [&](const std::vector<int> &d) {
    mc::run_case(DESC { return mc::Str() << "values of the variables " << mc::seq(d) << "+1"; }, [&] {
      mc::group("partitions"); Vars vs; long n = 1; for (int i = 0; i < k; i++) { vs.push_back(var(names[i], los[i], his[i], d[i] + 1)); n *= d[i] + 1; }
      if (n > 1) mc::nontrivial();
      partitions(vs, n <= 40);
    });
  });
  // larger ones
  for (auto d : std::vector<std::vector<int> >{{100}, {10, 10}, {7, 11, 13}, {2, 3, 4, 5}, {64, 2}, {1, 100}, {100, 1}, {127}, {128}, {129}, {3, 1, 33}}) mc::run_case(DESC { return mc::Str() << "values " << mc::seq(d); }, [&] {
    mc::group("partitions"); mc::nontrivial(); Vars vs; for (size_t i = 0; i < d.size(); i++) vs.push_back(var(names[i], los[i], his[i], d[i])); partitions(vs, false);
  });
  // names that begin or end like others
  { std::vector<S> alike = {"a", "ab", "abc", "b", "bc", "A"}; for (size_t i = 0; i < alike.size(); i++) for (size_t j = 0; j < alike.size(); j++) for (size_t k = 0; k < alike.size(); k++) if (i != j && j != k && i != k) mc::run_case(DESC { return "names " + alike[i] + " " + alike[j] + " " + alike[k]; }, [&] {
    mc::group("names"); mc::nontrivial(); Vars vs = {var(alike[i], 0, 1, 2), var(alike[j], 10, 11, 3), var(alike[k], 20, 21, 2)}; partitions(vs, false);
    Words o = options(vs); std::vector<const char *> av; av.push_back("p"); for (auto &w : o) av.push_back(w.c_str()); jobs::Job J((int)av.size(), &av[0]); double x = 0;
    for (auto &n : std::vector<S>{"", "a", "ab", "abc", "b", "bc", "c", "A", "abcd", "B", "ca", "aa", "a "}) { bool known = n == alike[i] || n == alike[j] || n == alike[k]; if (mc::rejects([&] { x = J.get_value(n); }) == known) { mc::fail("get_value of '" + n + "'"); return; } if (!known && J.get_value_with_default(n, -5.5) != -5.5) { mc::fail("default of '" + n + "'"); return; } }
  }); }
  // more jobs than 16, 31, 32 or 33 bits count
  for (auto d : std::vector<std::vector<int> >{{300, 300}, {2000, 33}, {256, 256}, {1291, 1291, 1291}, {256, 256, 256, 256}, {256, 256, 256, 257}, {2000, 1500, 1600}, {16, 2048, 1024, 512}, {300, 301, 302, 303}}) mc::run_case(DESC { return mc::Str() << "many jobs " << mc::seq(d); }, [&] {
    mc::group("many jobs"); mc::nontrivial(); Vars vs; long n = 1; for (size_t i = 0; i < d.size(); i++) { vs.push_back(var(names[i], i * 7.0, i * 7.0 + d[i] - 1, d[i])); n *= d[i]; }
    Words o = options(vs); std::map<Point, long> at; Map m;
    std::set<long> ks; for (long c : {0L, 1L << 15, 1L << 16, (1L << 31), 1L << 32, 1L << 33, n / 2, n}) for (long e = -2; e <= 2; e++) ks.insert(c + e);
    for (long k : ks) {
      Words w = o + Words{"--this-job", str(k)}; Visit v = go(w, vs); if (mc::failed()) return;
      if (k < 0 || k >= n) { nothing(v, line(w)); if (mc::failed()) return; continue; }
      if (v.refused) { mc::fail(line(w) + ": refused"); return; }
      if (v.total != n) { mc::fail(mc::Str() << line(w) << ": " << v.total << " jobs instead of " << n); return; }
      if (v.order.size() != 1 || v.order[0] != k) { mc::fail(line(w) + ": not this job"); return; }
      for (size_t i = 0; i < vs.size(); i++) { double x = v.at[k][i] - i * 7.0; if (std::abs(x - std::floor(x + 0.5)) > 1e-6 || x < -0.5 || x > d[i] - 0.5) { mc::fail(line(w) + ": not a value of " + vs[i].name); return; } }
      Point p; for (double x : v.at[k]) p.push_back(std::floor(x + 0.5));
      if (!at.insert(std::make_pair(p, k)).second) { mc::fail(mc::Str() << line(w) << ": same values as job " << at[p]); return; }
      m[k] = v.at[k];
    }
    for (long k : ks) if (k >= 0 && k + 2 < n) for (int b = 0; b < 3; b++) {
      Words w = o + Words{"--first-job", str(k), "--last-job", str(k + b)}; Visit v = go(w, vs); if (mc::failed()) return;
      bool ok = !v.refused && v.why.empty() && (long)v.order.size() == b + 1; for (int i = 0; ok && i <= b; i++) { ok = v.at.count(k + i) > 0; if (ok && m.count(k + i)) ok = m[k + i] == v.at[k + i]; }
      if (!ok) { mc::fail(line(w) + ": wrong jobs"); return; }
    }
    // consecutive blocks of one or two jobs each: the first ones, the last ones and those in the middle
    for (long b : {n, n - 1, n / 2 + 1, (n + 1) / 2}) if (b <= 2147483647) for (long c : {0L, b / 2, b}) {
      long last = -1; for (long k = std::max(0L, c - 3); k < std::min(b, c + 3); k++) { Words w = o + Words{"--job-blocks", str(b), "--this-job", str(k)}; Visit v = go(w, vs); if (mc::failed()) return;
        if (v.refused || !v.why.empty()) { mc::fail(line(w) + ": refused or wrong"); return; }
        for (long x : v.order) { if (last >= 0 && x != last + 1) { mc::fail(line(w) + ": jobs left out or repeated between blocks"); return; } last = x; if (m.count(x) && m[x] != v.at[x]) { mc::fail(line(w) + ": other values"); return; } }
        if (k == 0 && !v.order.empty() && v.order[0] != 0) { mc::fail(line(w) + ": the first block does not begin with job 0"); return; }
        if (k == b - 1 && last >= 0 && last != n - 1) { mc::fail(line(w) + ": the last block does not end with the last job"); return; }
      }
    }
  });
  // numbers at the ends of the range of integers: products and sums of them must not wrap
  for (auto d : std::vector<std::vector<int> >{{}, {1}, {4}, {16}, {3, 5}, {2, 2, 2, 2}, {300, 60}}) mc::run_case(DESC { return mc::Str() << "extreme options for " << mc::seq(d); }, [&] {
    mc::group("extreme options"); mc::nontrivial(); Vars vs; long n = 1; for (size_t i = 0; i < d.size(); i++) { vs.push_back(var(names[i], i * 7.0, i * 7.0 + d[i] - 1, d[i])); n *= d[i]; }
    Words o = options(vs); Visit all = go(o, vs); const Map &m = all.at;
    std::set<long> xs; for (int b = 2; b < 63; b++) for (long e = -2; e <= 2; e++) { xs.insert((1L << b) + e); xs.insert(-(1L << b) + e); } for (long e = 0; e < 20; e++) { xs.insert(LONG_MAX - e); xs.insert(LONG_MIN + e); xs.insert(LONG_MAX / 2 + e - 10); xs.insert(LONG_MAX / 3 + e - 10); xs.insert(LONG_MAX / n - e); xs.insert(LONG_MAX / n + e - 5); }
    for (long x : xs) {
      { Words w = o + Words{"--this-job", str(x)}; Visit v = go(w, vs); if (x >= 0 && x < n) exactly(v, m, x, x, line(w)); else nothing(v, line(w)); }
      { Words w = o + Words{"--first-job", str(x)}; Visit v = go(w, vs); if (x < 0 || x >= n) refused(v, line(w)); else if (n - x < 100) exactly(v, m, x, n - 1, line(w)); }
      if (n < 100) for (long a : {0L, n - 1}) { Words w = o + Words{"--first-job", str(a), "--last-job", str(x)}; Visit v = go(w, vs); if (x < a) refused(v, line(w)); else exactly(v, m, a, std::min(x, n - 1), line(w)); }
      for (long b : {1L, 2L, 3L, 4L, 7L, n, n + 1}) if (x < 0 || x >= b) { Words w = o + Words{"--job-blocks", str(b), "--this-job", str(x)}; nothing(go(w, vs), line(w)); }
      if (x <= 0) refused(go(o + Words{"--job-blocks", str(x)}, vs), line(o) + " --job-blocks " + str(x));
      if (x > n && n < 100) {   // more blocks than jobs: each job in one of them
        std::set<long> seen; std::set<long> ks = {x, x - 1, x - 2, x / 2, x / 2 + 1, x / 3, LONG_MAX}; for (long k = 0; k <= n; k++) ks.insert(k);
        for (long k : ks) {
          Words w = o + Words{"--job-blocks", str(x), "--this-job", str(k)}; Visit v = go(w, vs); if (mc::failed()) return;
          if (k >= x) { nothing(v, line(w)); continue; }
          if (v.refused) { mc::fail(line(w) + ": refused"); return; }
          if (!subset_of(v, m, line(w))) return;
          for (auto &kv : v.at) if (!seen.insert(kv.first).second) { mc::fail(mc::Str() << line(w) << ": job " << kv.first << " belongs to two blocks"); return; }
        }
      }
      if (mc::failed()) return;
    }
  });
  // more combinations than can be counted
  for (int a = 1; a <= 5; a++) for (int b = 0; b < 3; b++) mc::run_case(DESC { return mc::Str() << a << " variables of 65536 values, form " << b; }, [&] {
    mc::group("many jobs"); mc::nontrivial(); Vars vs; for (int i = 0; i < a; i++) vs.push_back(var(S("v") + char('a' + i), 0, 1, 65536 - (b == 1 && i == 0))); if (b == 2) vs.push_back(var("w", 0, 1, 32767));
    Words o = options(vs); __int128 n = 1; for (auto &v : vs) n *= v.n;
    for (auto &x : std::vector<Words>{{"--this-job", "0"}, {"--job-blocks", "3", "--this-job", "5"}, {"--first-job", "0", "--last-job", "0"}, {"--print-jobs"}}) {
      mc::transition();
      if (n <= LONG_MAX) {
        if (x[0] == "--print-jobs") { long want = 1; for (auto &v : vs) want *= v.n; mc::Ending e; S out = captured([&] { construct(o + x); }, e); while (!out.empty() && isspace((unsigned char)out.back())) out.erase(out.size() - 1); if (out != str(want)) { mc::fail(line(o + x) + ": prints " + out); return; } continue; }
        Visit v = go(o + x, vs); if (v.refused) { mc::fail(line(o + x) + ": refused"); return; }
      } else { mc::Ending e = mc::EXITED; bool r = x[0] == "--print-jobs" ? mc::rejects([&] { captured([&] { construct(o + x); }, e); }) || (e != mc::EXITED && e != mc::RETURNED) : go(o + x, vs).refused; if (!r) { mc::fail(line(o + x) + ": accepted"); return; } }
    }
  });
  // short forms
  for (int f = 0; f < 3; f++) for (int g = 0; g < 3; g++) for (int r = 0; r < 4; r++) mc::run_case(DESC { return mc::Str() << "forms " << f << g << r; }, [&] {
    mc::group("variable syntax"); mc::nontrivial(); auto mk = [&](int t, const char *n) { return t == 0 ? var(n, los[r]) : t == 1 ? var(n, los[r], his[r]) : var(n, los[r], his[r], 3); };
    partitions({mk(f, "x"), mk(g, "yy")}, true);
  });
  // spellings of the numbers and separators, on the command line and in a file
  const char *seps[] = {",", ";", " ", "\t", ", ", " , ", ";;", " \t,;"};
  const char *nums[][3] = {{"0", "1", "2"}, {"-2.5", "+3.5", "4"}, {"1e3", "1E-3", "3"}, {".5", "5.", "2"}, {"3", "-3", "7"}, {"0.0", "-0", "1"}, {"1", "1", "3"}};
  for (auto &nu : nums) for (auto sep : seps) for (int form = 1; form <= 3; form++) for (int ends = 0; ends < 4; ends++) mc::run_case(DESC { return mc::Str() << "number " << nu[0] << " " << nu[1] << " " << nu[2] << " separator '" << sep << "' form " << form << " surroundings " << ends; }, [&] {
    mc::group("variable syntax"); mc::nontrivial();
    S t = S("name") + sep + nu[0]; if (form > 1) t += S(sep) + nu[1]; if (form > 2) t += S(sep) + nu[2];
    if (ends & 1) t = S(sep) + t; if (ends & 2) t += sep;
    double lo = atof(nu[0]), hi = form > 1 ? atof(nu[1]) : lo; int n = form == 1 ? 1 : form == 2 ? 10 : atoi(nu[2]);
    Visit v = go({"--variable", t}, {var("name", lo, hi, n)});
    if (v.refused || v.total != n || (long)v.at.size() != n) { mc::fail("'" + t + "' is not understood"); return; }
    std::vector<double> want = values(var("name", lo, hi, n)), got; for (auto &kv : v.at) got.push_back(kv.second[0]);
    std::sort(want.begin(), want.end()); std::sort(got.begin(), got.end());
    for (int i = 0; i < n; i++) if (!near(want[i], got[i])) { mc::fail("'" + t + "': value " + num(got[i]) + " instead of " + num(want[i])); return; }
    for (int eol = 0; eol < 4; eol++) {   // the same in a file
      S p = mc::need_scratch() + "/job"; { std::ofstream f(p.c_str(), std::ios::binary); if (eol == 3) f << "\n \t\n"; f << t; if (eol == 1) f << "\n"; if (eol == 2) f << "\r\n"; if (eol == 3) f << "\n\n\n"; }
      Visit u = go({"--job", p}, {var("name", lo, hi, n)});
      if (u.refused || u.total != v.total || u.at != v.at || u.order != v.order) { mc::fail(mc::Str() << "'" << t << "' in a file is not the same as on the command line"); return; }
    }
  });
  // variables split in every way among command line and files, before and after other options
  std::vector<Vars> lists = {{var("a", 0, 1, 2)}, {var("a", 0, 1, 2), var("b", -1, 1, 3)}, {var("a", 5), var("b", 2, 4, 3), var("c", 0, 9)}, {var("a", 0, 1, 3), var("b", 3, 2, 2), var("c", 1, 2, 2), var("d", 9)}};
  for (auto &vs : lists) mc::all_words((int)vs.size(), 3, [&](const std::vector<int> &where) {
    for (int opt = 0; opt < 4; opt++) mc::run_case(DESC { return mc::Str() << vs.size() << " variables given in places " << mc::seq(where) << ", options " << opt; }, [&] {
      mc::group("files and command line"); mc::nontrivial(); Words o = options(vs); Words extra[] = {{}, {"--this-job", "3"}, {"--job-blocks", "2", "--this-job", "1"}, {"--first-job", "1", "--last-job", "1"}};
      Visit want = go(o + extra[opt], vs);
      // 0 command line, 1 appended to the current file, 2 begins a new file
      Words w; S body; int files = 0; auto flush = [&] { if (body.empty()) return; S p = mc::need_scratch() + "/job" + str(files++); { std::ofstream f(p.c_str()); f << body; } w.push_back("--job"); w.push_back(p); body.clear(); };
      for (size_t i = 0; i < vs.size(); i++) { if (where[i] != 1) flush(); if (where[i] == 0) { w.push_back("--variable"); w.push_back(vs[i].text); } else { S t = vs[i].text; for (auto &c : t) if (c == ',') c = i % 2 ? '\t' : ' '; body += t + "\n"; } }
      flush();
      for (int order = 0; order < 2; order++) { Visit v = go(order ? extra[opt] + w : w + extra[opt], vs); if (v.refused || want.refused || v.at != want.at || v.order != want.order || v.total != want.total) { mc::fail(mc::Str() << "differs from the command line" << (order ? " (options first)" : "")); return; } }
      // other arguments belong to the program
      Words x; for (size_t i = 0; i < w.size(); i += 2) { x.push_back("--other"); x.push_back("7"); x.push_back(w[i]); x.push_back(w[i + 1]); }
      Visit v = go(x + extra[opt] + Words{"file", "-x"}, vs); if (v.refused || v.at != want.at) mc::fail("other arguments change the jobs");
    });
  });
  // every order of the options
  mc::run_case(DESC { return S("orders of the options"); }, [&] {
    mc::group("option orders"); mc::nontrivial(); Vars vs = {var("a", 0, 1, 3), var("b", 0, 1, 4)};
    std::vector<std::vector<Words> > sets = {{{"--variable", vs[0].text}, {"--variable", vs[1].text}, {"--job-blocks", "5"}, {"--this-job", "2"}}, {{"--variable", vs[0].text}, {"--variable", vs[1].text}, {"--this-job", "7"}}, {{"--variable", vs[0].text}, {"--variable", vs[1].text}, {"--first-job", "3"}, {"--last-job", "8"}}};
    for (auto &set : sets) {
      Words base; for (auto &x : set) base = base + x; Visit want = go(base, vs); if (want.refused) { mc::fail(line(base) + ": refused"); return; }
      std::vector<int> p; for (size_t i = 0; i < set.size(); i++) p.push_back((int)i);
      std::map<long, std::map<S, double> > byname; for (auto &kv : want.at) for (int i = 0; i < 2; i++) byname[kv.first][vs[i].name] = kv.second[i];
      do {
        Words w; int pa = 0, pb = 0, pf = -1, pl = -1; for (size_t i = 0; i < p.size(); i++) { w = w + set[p[i]]; if (p[i] == 0) pa = (int)i; if (p[i] == 1) pb = (int)i; if (set[p[i]][0] == "--first-job") pf = (int)i; if (set[p[i]][0] == "--last-job") pl = (int)i; }
        Visit v = go(w, vs);
        if (pf >= 0 && pl < pf && v.refused) continue;   // --last-job must come second
        if (v.refused || v.order.size() != want.order.size()) { mc::fail(line(w) + ": differs from other orders"); return; }
        std::set<long> x(v.order.begin(), v.order.end()), y(want.order.begin(), want.order.end()); if (x != y) { mc::fail(line(w) + ": other jobs"); return; }
        if (pa < pb && v.at != want.at) { mc::fail(line(w) + ": other values"); return; }
      } while (std::next_permutation(p.begin(), p.end()));
    }
  });
  // refusals
  std::vector<Words> bad;
  for (auto o : {"--job", "--this-job", "--job-blocks", "--first-job", "--variable"}) bad.push_back({o});
  bad.push_back({"--first-job", "0", "--last-job"}); bad.push_back({"--last-job", "1"}); bad.push_back({"--last-job", "1", "--first-job", "0"});
  for (auto b : {"0", "-1", "-7"}) { bad.push_back({"--job-blocks", b}); bad.push_back({"--job-blocks", b, "--this-job", "0"}); }
  std::vector<Words> pieces = {{"--job-blocks", "2"}, {"--first-job", "0"}, {"--first-job", "0", "--last-job", "1"}, {"--this-job", "0"}};
  for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) if (i != j && !(i == 0 && j == 3) && !(i == 3 && j == 0) && !(i + j == 3 && i && j)) bad.push_back(pieces[i] + pieces[j]);
  bad.push_back({"--first-job", "0", "--last-job", "1", "--this-job", "1", "--job-blocks", "2"});
  for (auto t : {"", ",", " ", "x", "x,", "x,1,2,3,4", "x,1,2,0", "x,1,2,-1", "x,1,2,-10", "x,one", "x,1,two", "x,1,2,three", "x,1,2,2.5", "x,1,2,3x", "x,1x", "x,1,2y", "x,1,2,1e1", "x,--1", "x,1-2", "x,,"}) bad.push_back({"--variable", t});
  for (auto o : {"--this-job", "--job-blocks", "--first-job"}) for (auto t : {"", "x", "1x", "one", "1.5", "0x", "--", " ", "1 2", "99999999999999999999"}) bad.push_back({o, t});
  for (auto t : {"", "x", "1x"}) bad.push_back({"--first-job", "0", "--last-job", t});
  for (auto &w : bad) mc::run_case(DESC { return "refuse: " + line(w); }, [&] {
    mc::group("refusals"); mc::nontrivial();
    Vars v2 = {var("a", 0, 1, 3), var("b", 0, 1, 2)}; Words o = options(v2);
    refused(go(w, {}), line(w)); refused(go(o + w, v2), line(o + w));
    if (w[0] != "--variable" && w.size() > 1) { Visit v = go(w + o, v2); refused(v, line(w + o)); }
    if (w[0] == "--variable" && w.size() > 1) {   // the same line in a file: blank lines say nothing, others are errors
      for (int before = 0; before < 4; before++) for (int after = 0; after < 2; after++) {
        S p = mc::need_scratch() + "/job"; { std::ofstream f(p.c_str()); for (int i = 0; i < before; i++) f << "v" << i << " 0 1 2\n"; f << w[1] << "\n"; if (after) f << "z 0 1 2\n"; }
        bool blank = w[1].find_first_not_of(", ") == S::npos;
        Visit v = go({"--job", p}, {}); if (blank) { if (v.refused || v.total != (1L << (before + after))) mc::fail("a file with an empty line"); } else refused(v, mc::Str() << "'" << w[1] << "' in line " << before + 1 << " of a file");
      }
    }
  });
  mc::run_case(DESC { return S("missing job file, directory as job file"); }, [&] { mc::group("refusals"); mc::nontrivial(); refused(go({"--job", mc::need_scratch() + "/missing"}, {}), "missing file"); S e = mc::need_scratch() + "/empty"; { std::ofstream f(e.c_str()); } Visit v = go({"--job", e}, {}); if (v.refused || v.total != 1) mc::fail("an empty file"); });
  mc::run_case(DESC { return S("unknown variables"); }, [&] {
    mc::group("refusals"); mc::nontrivial(); for (auto nm : {"", "b", "A", "a ", "aa"}) { const char *av[] = {"p", "--variable", "a,1,2,2"}; jobs::Job j(3, av); double x = 0; if (!mc::rejects([&] { x = j.get_value(nm); })) mc::fail(S("get_value of unknown variable '") + nm + "'"); if (j.get_value_with_default(nm, 4.5) != 4.5) mc::fail("default value"); if (j.get_value("a") != 1) mc::fail("value afterwards"); }
  });
  // --print-jobs, --help, copies of a job, saved variables
  for (auto d : std::vector<std::vector<int> >{{}, {1}, {7}, {3, 4}, {2, 3, 5}}) mc::run_case(DESC { return mc::Str() << "number of jobs, copies and records for " << mc::seq(d); }, [&] {
    mc::group("other uses"); mc::nontrivial(); Vars vs; long n = 1; for (size_t i = 0; i < d.size(); i++) { vs.push_back(var(names[i], los[i], his[i], d[i])); n *= d[i]; }
    Words o = options(vs);
    for (int pos = 0; pos < 2; pos++) { mc::Ending e; S out = captured([&] { construct(pos ? Words{"--print-jobs"} + o : o + Words{"--print-jobs"}); }, e); while (!out.empty() && isspace((unsigned char)out.back())) out.erase(out.size() - 1); if (e != mc::EXITED || out != str(n)) { mc::fail("--print-jobs prints '" + out + "' instead of " + str(n)); return; } if (mc::rejects([&] { captured([&] { construct(o + Words{"--print-jobs"}); }, e); })) mc::fail("--print-jobs is an error"); }
    mc::Ending e; S help = captured([&] { construct({"--help"}); }, e); if (e != mc::EXITED || help.find("--variable") == S::npos) mc::fail("--help");
    std::vector<const char *> av; av.push_back("p"); for (auto &s : o) av.push_back(s.c_str());
    jobs::Job j((int)av.size(), &av[0]); Map m; { jobs::Job k(j); for (; k.to_do(); ++k) { Point p; for (auto &v : vs) p.push_back(k.get_value(v.name)); m[k.current_job()] = p; } }
    if (j.current_job() != 0 || !j.to_do()) mc::fail("a copy changed the job");
    for (; j.to_do(); ++j) {
      jobs::Job before(j); S p = mc::need_scratch() + "/vars.dat"; unlink(p.c_str());
      { sdf::OutDataFile f(p, sdf::DataFile::SDF_OVERWRITE); j.dump_variables(f); }
      { sdf::InDataFile f(p, sdf::DataFile::SDF_OVERWRITE); for (size_t i = 0; i < vs.size(); i++) { double x; f.load(&x, vs[i].name); if (x != m[j.current_job()][i]) mc::fail("dump_variables stores another value"); } }
      { jobs::Job k(j); ++k; ++k; } for (size_t i = 0; i < vs.size(); i++) if (before.get_value(vs[i].name) != j.get_value(vs[i].name) || j.get_value(vs[i].name) != m[j.current_job()][i]) mc::fail("a copy changed the values");
    }
  });
}
