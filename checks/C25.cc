// C25: the processes of a campaign of jobs complete one data set together, under
// every schedule and after every kill and restart.
#include "sdf_common.h"
#include "trace.h"
#include <tensor/jobs.h>
#include <map>
#include <set>
enum { DONE_BEFORE = 1, WORKED = 2 };
// style of a process: n asks whether the record exists first; o only opens; k keeps its
// handles until the end; c closes through a copy of the handle; t one job after another by
// --this-job (a program for each)
struct Config { int vars, njobs, blocks; S styles; int kept; bool dir, tmp; int bound, victim; };
static S dir() { return mc::need_scratch() + "/c"; }
static S set() { return dir() + "/set"; }
static S record(int j) { return mc::Str() << set() << "/" << j; }
static S describe(const Config &c) {
  mc::Str s; s << c.njobs << " jobs of " << c.vars << " variables in " << c.blocks << " processes (" << c.styles << ")" << (c.dir ? ", data set present" : ", no data set"); for (int j = 0; j < c.njobs; j++) if (c.kept >> j & 1) s << ", record " << j << " done";
  if (c.tmp) s << ", remains of interrupted writers"; s << ", " << c.bound << " preemptions"; if (c.victim >= 0) s << ", process " << c.victim << " is killed and started again"; return s;
}
static void work(jobs::Job &j, sdf::OutDataFile &f) { j.dump_variables(f); f.dump((int)j.current_job() + 100, "result"); f.dump(to_tensor(rnum({j.current_job() % 2 ? 3 : 1200}, (int)j.current_job())), "data"); }
static std::vector<S> arguments(const Config &c, int who) {
  std::vector<S> a; a.push_back("prog"); 
  if (c.vars == 1) { a.push_back("--variable"); a.push_back(mc::Str() << "alpha,1," << c.njobs << "," << c.njobs); }
  else { a.push_back("--variable"); a.push_back("alpha,1,2,2"); a.push_back("--variable"); a.push_back(mc::Str() << "beta,5," << 4 + c.njobs / 2 << "," << c.njobs / 2); }
  if (who >= 0) { a.push_back("--job-blocks"); a.push_back(mc::Str() << c.blocks); a.push_back("--this-job"); a.push_back(mc::Str() << who); }
  return a;
}
static int campaign(const Config &c, int who) {
  char style = c.styles[who]; std::vector<S> a = arguments(c, who); std::vector<const char *> av; for (auto &s : a) av.push_back(s.c_str());
  std::vector<jobs::Job::dataset> held;
  jobs::Job j((int)av.size(), &av[0]);
  for (; j.to_do(); ++j) {
    if (style == 'n' && j.dataset_record_exists(set())) { tr::mark(DONE_BEFORE, j.current_job()); continue; }
    jobs::Job::dataset d = j.open_dataset(set());
    if (d.operator->() == 0) { tr::mark(DONE_BEFORE, j.current_job()); continue; }
    tr::mark(WORKED, j.current_job());
    if (style == 'k') held.push_back(d);
    if (style == 'c') { jobs::Job::dataset e(d); d = jobs::Job::dataset(0); work(j, *e); } else work(j, *d);
  }
  return 0;
}
static std::map<std::pair<int, int>, S> memo;
static const S &complete(const Config &c, int job) {   // the bytes of a complete record
  std::pair<int, int> key(c.vars * 100 + c.njobs, job); if (memo.count(key)) return memo[key];
  std::vector<S> a = arguments(c, -1); a.push_back("--this-job"); a.push_back(mc::Str() << job); std::vector<const char *> av; for (auto &s : a) av.push_back(s.c_str());
  S p = mc::need_scratch() + "/ref.dat"; unlink(p.c_str());
  std::streambuf *o = std::cout.rdbuf(0);
  { jobs::Job j((int)av.size(), &av[0]); sdf::OutDataFile f(p, sdf::DataFile::SDF_OVERWRITE);   // expected contents, from the description alone
    if (c.vars == 1) f.dump((double)(job + 1), "alpha"); else { f.dump((double)(1 + job % 2), "alpha"); f.dump((double)(5 + job / 2), "beta"); }
    f.dump(job + 100, "result"); f.dump(to_tensor(rnum({job % 2 ? 3 : 1200}, job)), "data"); }
  std::cout.rdbuf(o); std::cout.clear();
  return memo[key] = slurp(p);
}
static int owner(const Config &c, int job) { int delta = (c.njobs + c.blocks - 1) / c.blocks; return job / delta; }

struct Choice { int chosen; std::vector<int> others; bool free; };
struct Run { std::vector<Choice> steps; S message; };
static const int MAXP = 4;
static void prepare(const Config &c) {
  mkdir(dir().c_str(), 0777); wipe(set()); rmdir(set().c_str()); wipe(dir());
  if (c.dir || c.kept || c.tmp) mkdir(set().c_str(), 0777);
  for (int j = 0; j < c.njobs; j++) { if (c.kept >> j & 1) spew(record(j), "a record made before"); else if (c.tmp) spew(record(j) + ".tmp", "remains of an interrupted writer, longer than a header of sixty-four bytes, so that it shows"); }
}
static Run run(const Config &c, const std::vector<int> &prefix, long kill_at) {
  Run out; mc::note_trace(); prepare(c);
  const int n = c.blocks; tr::Proc p[MAXP]; std::set<int> worked[MAXP], skipped[MAXP]; bool killed = false; S trail;
  auto bad = [&](const S &m) { if (out.message.empty()) out.message = m; };
  auto settle = [&](int i) {
    for (;;) {
      if (!p[i].advance([&](long a, long b) { (a == WORKED ? worked : skipped)[i].insert((int)b); })) { if (!p[i].ended_well()) bad(mc::Str() << "process " << i << " failed"); return; }
      if (tr::classify(p[i].call) != tr::SLEEP) return;
      if (!p[i].replace(0)) return;
    }
  };
  for (int i = 0; i < n; i++) { p[i].start([&, i] { return campaign(c, i); }); if (p[i].alive) settle(i); }
  int cur = 0; 
  for (long step = 0; out.message.empty(); step++) {
    if (step == kill_at && p[c.victim].alive) { p[c.victim].kill(); killed = true; p[c.victim].~Proc(); new (&p[c.victim]) tr::Proc(); p[c.victim].start([&] { return campaign(c, c.victim); }); if (p[c.victim].alive) settle(c.victim); worked[c.victim].clear(); skipped[c.victim].clear(); }
    bool any = false; for (int i = 0; i < n; i++) any |= p[i].alive;
    if (!any) break;
    if (step > 3000) { bad("a process never ends"); break; }
    Choice ch; ch.free = !p[cur].alive;
    std::vector<int> en; for (int k = 0; k < n; k++) { int i = (cur + k) % n; if (p[i].alive) en.push_back(i); }
    int i = step < (long)prefix.size() ? prefix[step] : en[0];
    if (std::find(en.begin(), en.end(), i) == en.end()) { bad("harness: a schedule cannot be repeated"); break; }
    ch.chosen = i; for (int e : en) if (e != i) ch.others.push_back(e);
    out.steps.push_back(ch); cur = i; trail += (char)('0' + i);
    mc::transition(); long nr = p[i].call.nr;
    if (!p[i].execute()) { bad("a process died in a call"); break; }
    // at every moment a record is absent or complete
    if (nr != SYS_write && nr != SYS_writev && nr != SYS_access && nr != SYS_fstat && nr != SYS_newfstatat && nr != SYS_read)
      for (int j = 0; j < c.njobs; j++) if (present(record(j))) { S b = slurp(record(j)); if (b != ((c.kept >> j & 1) ? S("a record made before") : complete(c, j))) bad(mc::Str() << "after " << tr::name(nr) << " of process " << i << " record " << j << " is there but is not complete (" << b.size() << " bytes)"); }
    settle(i);
    mc::Hash h; for (int q = 0; q < n; q++) { h.add(p[q].alive ? p[q].call.nr : -1); h.add(worked[q].size()); h.add(skipped[q].size()); } for (int j = 0; j < c.njobs; j++) { h.add(present(record(j))); h.add(present(record(j) + ".tmp")); } mc::state(h.h);
  }
  for (int i = 0; i < n; i++) p[i].kill();
  if (out.message.empty()) for (int j = 0; j < c.njobs; j++) {
    int o = owner(c, j); const bool kept = c.kept >> j & 1; S b = present(record(j)) ? slurp(record(j)) : "";
    if (b != (kept ? S("a record made before") : complete(c, j))) { bad(mc::Str() << "at the end record " << j << (b.empty() ? " is missing" : " is wrong")); break; }
    if (present(record(j) + ".tmp") && !kept) { bad(mc::Str() << "a temporary file of record " << j << " remains"); break; }
    for (int i = 0; i < n; i++) if (i != o && (worked[i].count(j) || skipped[i].count(j))) bad(mc::Str() << "process " << i << " visits job " << j);
    if (kept ? worked[o].count(j) || !skipped[o].count(j) : !(killed && o == c.victim) && (!worked[o].count(j) || skipped[o].count(j))) bad(mc::Str() << "job " << j << (kept ? " was done although its record exists" : " was not done"));
    if (!kept && killed && o == c.victim && !worked[o].count(j) && !skipped[o].count(j)) bad(mc::Str() << "job " << j << " was not visited by the process started again");
  }
  if (out.message.empty()) { DIR *d = opendir(set().c_str()); int files = 0; if (d) { while (dirent *e = readdir(d)) if (e->d_name[0] != '.') files++; closedir(d); } if (files != c.njobs) bad(mc::Str() << "the data set has " << files << " files"); }
  if (!out.message.empty()) out.message += " [schedule " + trail + (kill_at >= 0 ? S(mc::Str() << ", killed at step " << kill_at) : S()) + "]";
  return out;
}
static void search(const Config &c, const std::vector<int> &prefix, int left, long kill_at, int part, int parts) {
  Run r = run(c, prefix, kill_at);
  if (!r.message.empty()) { mc::fail(r.message); return; }
  for (size_t k = prefix.size(); k < r.steps.size() && !mc::failed(); k++) {
    if (parts > 1 && (int)(k % parts) != part) continue;
    if (!r.steps[k].free && left == 0) continue;
    for (int o : r.steps[k].others) {
      std::vector<int> np; for (size_t j = 0; j < k; j++) np.push_back(r.steps[j].chosen);
      np.push_back(o); search(c, np, r.steps[k].free ? left : left - 1, kill_at, 0, 1);
      if (mc::failed()) return;
    }
  }
}
void explore() {
  const int x = mc::thorough ? 1 : 0; std::vector<Config> all;
  auto add = [&](int vars, int njobs, const S &styles, int kept, bool d, bool t, int bound, int victim = -1) { Config c; c.vars = vars; c.njobs = njobs; c.blocks = styles.size(); c.styles = styles; c.kept = kept; c.dir = d; c.tmp = t; c.bound = bound; c.victim = victim; all.push_back(c); };
  for (int d = 0; d < 2; d++) for (int t = 0; t < 2; t++) {
    if (t && !d) continue;
    for (const char *s : {"nn", "no", "oo", "kc"}) add(1, 2, s, 0, d, t, (d ? 1 : 2) + x);
    for (const char *s : {"nn", "ok", "cn"}) add(2, 4, s, 0, d, t, 1 + x);
    add(1, 3, "nno", 0, d, t, 1 + x); add(1, 4, "noko", 0, d, t, 1);
    if (d && t) for (int k = 1; k < 4; k++) add(1, 2, k == 2 ? "on" : "nk", k, d, t, 2 + x);
    if (d) for (int k = 1; k < 16; k++) add(2, 4, k % 2 ? "no" : "kn", k, d, t, 1);
    for (int v = 0; v < 2; v++) { add(1, 2, "no", 0, d, t, (d == t ? 1 : 0) + x, v); add(2, 4, "nk", 0, d, t, x, v); add(2, 4, "on", 5, d, t, x, v); add(1, 3, "non", 0, d, t, x, v); }
    add(2, 4, "n", 0, d, t, 0, 0); add(2, 4, "o", 6, d, t, 0, 0); add(1, 3, "k", 0, d, t, 0, 0); add(2, 6, "c", 0, d, t, 0, 0);
  }
  // more jobs than fit in 32 bits: every job has a record of its own
  for (int first = 0; first < 3; first++) mc::run_case(DESC { return mc::Str() << "jobs of a large number, in order " << first; }, [&] {
    mc::group("large numbers"); mc::nontrivial(); prepare(all[0]);
    std::vector<long> js; for (long b : {0L, 1L << 31, 1L << 32, (1L << 32) + (1L << 31), 1L << 33}) for (long e : {-7L, -1L, 0L, 1L, 5L}) if (b + e >= 0) js.push_back(b + e);
    js.push_back((1L << 34) - 1); if (first == 1) std::reverse(js.begin(), js.end()); if (first == 2) for (size_t i = 0; i < js.size(); i++) std::swap(js[i], js[i * 7 % js.size()]);
    std::set<long> done;
    for (int round = 0; round < 2; round++) for (long J : js) {
      S n = mc::Str() << J; const char *av[] = {"prog", "--variable", "a,0,65535,65536", "--variable", "b,0,65535,65536", "--variable", "c,0,3,4", "--this-job", n.c_str()};
      bool there = false, opened = false, todo = false; S m; std::streambuf *o = std::cout.rdbuf(0);
      mc::transition(); bool rej = mc::rejects([&] { jobs::Job j(9, av); todo = j.to_do(); there = j.dataset_record_exists(set()); jobs::Job::dataset d = j.open_dataset(set()); opened = d.operator->() != 0; if (opened) j.dump_variables(*d); });
      std::cout.rdbuf(o); std::cout.clear();
      if (rej || !todo) { mc::fail(mc::Str() << "job " << J << (rej ? " ends the program: " + mc::ending_message : S(" is not to do"))); return; }
      if (there != (round == 1) || opened != (round == 0)) { mc::fail(mc::Str() << "job " << J << (round ? " is repeated although it was done" : " is taken for done")); return; }
      if (!present(mc::Str() << set() << "/" << J)) { mc::fail(mc::Str() << "job " << J << " has no record of its name"); return; }
      mc::Hash h; h.add(J); h.add(round); mc::state(h.h); done.insert(J);
    }
    for (long J : js) { double x[3] = {-1, -1, -1}; mc::transition(); if (mc::rejects([&] { sdf::InDataFile f(mc::Str() << set() << "/" << J); f.load(&x[0], "a"); f.load(&x[1], "b"); f.load(&x[2], "c"); }) || x[0] != J % 65536 || x[1] != (J >> 16) % 65536 || x[2] != (J >> 32)) { mc::fail(mc::Str() << "the record of job " << J << " holds other values"); return; } }
    prepare(all[0]); wipe(set());
  });
  // uneven blocks
  add(1, 3, "nn", 0, 0, 0, 1 + x); add(1, 1, "nn", 0, 0, 0, 2); add(1, 2, "nnn", 0, 0, 0, 1 + x); add(2, 6, "noc", 0, 0, 0, 1);
  for (auto &c : all) {
    long steps = -1;
    if (c.victim < 0) { int parts = c.bound > 1 ? 4 : 1; for (int part = 0; part < parts; part++) mc::run_case(DESC { return mc::Str() << describe(c) << ", part " << part; }, [&] { mc::group("schedules"); mc::nontrivial(); search(c, std::vector<int>(), c.bound, -1, part, parts); }); }
    else for (int from = 0; from < 100; from += 10) mc::run_case(DESC { return mc::Str() << describe(c) << ", between steps " << from << " and " << from + 9; }, [&] {
      mc::group("restarts"); if (steps < 0) { Run r = run(c, std::vector<int>(), -1); if (!r.message.empty()) { mc::fail(r.message); return; } steps = r.steps.size(); }
      if (from < steps) mc::nontrivial();
      for (long k = from; k < from + 10 && k < steps + 4 && !mc::failed(); k++) search(c, std::vector<int>(), c.bound, k, 0, 1); });
  }
}
