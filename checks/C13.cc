// C13: replace-on-close files are atomic at every crash point and after every
// failed call.
#include "sdf_common.h"
#include "trace.h"
#include <memory>
#include <tensor/jobs.h>
typedef std::vector<Val> File;
static S showf(const File &f) { S s; for (auto &v : f) s += show(v) + "; "; return s.substr(0, 200); }

enum Ends { CLOSE, DESTROY, LEAVE, DIES, DATASET, COPIES, RENAME, NENDS };
static const char *ENAME[] = {"closed", "destroyed", "left open at exit", "dies before closing", "job record", "job record with copies of its handle", "rename_file"};
struct Scenario {
  int ends; bool old_present, stale_tmp, dir_present; int words; S name;
  S dir() const { return mc::need_scratch() + "/s"; }
  bool job() const { return ends == DATASET || ends == COPIES; }
  S target() const { return job() ? dir() + "/set/2" : dir() + "/f.dat"; }
};
static File records(int w) {
  File f;
  if (w >= 1) f.push_back(named(vreal(0.5), "a"));
  if (w >= 2) { f.push_back(named(vrt(rnum({3, 2})), "tensor")); f.push_back(named(vcv({cnum({2}), cnum({0})}), "")); }
  if (w >= 3) f.push_back(named(vrt(rnum({70, 40})), "big"));
  return f;
}
static int body(const Scenario &s, int words) {
  if (s.ends == RENAME) return sdf::rename_file(s.dir() + "/source", s.target(), true) ? 0 : 1;
  if (s.job()) {
    const char *av[] = {"prog", "--variable", "a,1,3,3", "--variable", "b,0,1,2", "--this-job", "2"};
    jobs::Job j(7, av);
    bool there = j.dataset_record_exists(s.dir() + "/set");
    jobs::Job::dataset d = j.open_dataset(s.dir() + "/set");
    bool open = d.operator->() != 0;
    tr::mark(2, open ? 1 : 0);
    if (!open) return there ? 0 : 96;
    if (s.ends == COPIES) {   // handles come and go, the file is closed by the last one
      jobs::Job::dataset other(0);
      { jobs::Job::dataset copy(d); other = copy; other = other; jobs::Job::dataset third(other); d = third; }
      j.dump_variables(*other);
      other = jobs::Job::dataset(0);
      for (auto &v : records(words)) { jobs::Job::dataset copy(d); dump(*copy, v); }
      return 0;
    }
    j.dump_variables(*d);
    for (auto &v : records(words)) dump(*d, v);
    return 0;
  }
  if (s.ends == LEAVE || s.ends == DIES) {
    sdf::OutDataFile *f = new sdf::OutDataFile(s.target(), sdf::DataFile::SDF_PARANOID);
    for (auto &v : records(words)) dump(*f, v);
    if (s.ends == DIES) abort();
    return 0;
  }
  sdf::OutDataFile f(s.target(), sdf::DataFile::SDF_PARANOID);
  for (auto &v : records(words)) dump(f, v);
  if (s.ends == CLOSE) f.close();
  return 0;
}
static File expected(const Scenario &s, int words) {
  File f;
  if (s.job()) { f.push_back(named(vreal(3), "a")); f.push_back(named(vreal(0), "b")); }
  for (auto &v : records(words)) f.push_back(v);
  return f;
}
// child processes without any control, for preparation and recovery
static bool plain(const std::function<int()> &f) {
  pid_t p = fork();
  if (p == 0) { mc::detach(); int c = 99; try { c = f(); } catch (...) {} _exit(c); }
  int st; return waitpid(p, &st, 0) == p && WIFEXITED(st) && WEXITSTATUS(st) == 0;
}
static S OLD;   // complete old contents
static void prepare(const Scenario &s) {
  mkdir(s.dir().c_str(), 0777); wipe(s.dir() + "/set"); rmdir((s.dir() + "/set").c_str()); wipe(s.dir());
  if (s.job() && (s.dir_present || s.old_present)) { mkdir((s.dir() + "/set").c_str(), 0777); spew(s.dir() + "/set/1", "other record"); }
  if (s.old_present) spew(s.target(), OLD);
  if (s.stale_tmp) spew(s.target() + ".tmp", "remains of an interrupted writer");
  if (s.ends == RENAME) spew(s.dir() + "/source", "the new contents");
}
struct Plan { long at; int what; int err; bool sticky; long len; Plan() : at(-1), what(0), err(0), sticky(false), len(0) {} };
enum { NOTHING, KILL, FAIL, SHORT, SHORT_KILL, SHORT_FULL };
struct Outcome { long calls; std::vector<tr::Call> seen; std::vector<long> lengths; S message; bool well; bool refused; S final_state; bool changed_call; };
static const S ABSENT("\0absent", 7);
static S look(const Scenario &s) { return present(s.target()) ? slurp(s.target()) : ABSENT; }

static bool is_write(long nr) { return nr == SYS_write || nr == SYS_pwrite64 || nr == SYS_writev; }
static Outcome run(const Scenario &s, const Plan &pl, const S &full) {
  Outcome o; o.calls = 0; o.well = false; o.refused = false; o.changed_call = false;
  prepare(s);
  S before = look(s);
  tr::Proc p;
  p.start([&] { return body(s, s.words); });
  auto marker = [&](long a, long b) { if (a == 2 && b == 0) o.refused = true; };
  auto instant = [&](const char *when, const tr::Call &c) {
    mc::transition();
    S now = look(s);
    if (now == before || (!full.empty() && now == full)) return true;
    o.message = mc::Str() << when << " call " << o.calls << " (" << tr::name(c.nr) << ") the file " << (now == ABSENT ? S("does not exist") : S(mc::Str() << "holds " << now.size() << " bytes, neither the old (" << (before == ABSENT ? 0 : before.size()) << ") nor the new (" << full.size() << ") contents"));
    return false;
  };
  bool sticky = false;
  while (p.advance(marker)) {
    if (o.calls > 20000) { o.message = "the process never ends"; break; }
    tr::Call c = p.call; bool last = false;
    o.seen.push_back(c); o.lengths.push_back(is_write(c.nr) ? p.write_length() : 0);
    if (o.calls == pl.at || sticky) {
      if (pl.what == KILL) { p.kill(); o.calls++; break; }
      bool change = tr::classify(c) == tr::CHANGE;
      if (pl.what == FAIL && (!sticky || change)) { o.changed_call = true; sticky = pl.sticky; if (!p.replace(-pl.err)) break; o.calls++; if (!instant("after", c)) break; continue; }
      if (pl.what == SHORT || pl.what == SHORT_KILL || pl.what == SHORT_FULL) {
        if (o.calls == pl.at) {
          o.changed_call = true;
          p.cut_write(pl.len);
          if (pl.what == SHORT_KILL) last = true;
          if (pl.what == SHORT_FULL) sticky = true;
        } else if (sticky && is_write(c.nr)) { if (!p.replace(-ENOSPC)) break; o.calls++; if (!instant("after", c)) break; continue; }
      }
    }
    if (!p.execute()) break;
    o.calls++;
    if (!full.empty() && !instant("after", c)) break;
    if (last) { p.kill(); break; }
    if (o.calls > 20000) { o.message = "the process never ends"; break; }
  }
  if (p.alive) p.kill(); else o.well = p.ended_well();
  o.final_state = look(s);
  return o;
}
// after a crash: the next writer gets its file complete, whatever was left behind
static S recover(const Scenario &s, const S &full) {
  if (s.ends == RENAME) return "";
  bool was = present(s.target());
  Scenario t = s; if (s.ends == LEAVE || s.ends == DIES) t.ends = CLOSE;
  if (!plain([&] { return body(t, t.words); })) return "the next writer fails";
  S now = look(t);
  if (s.job()) { if (was ? now != full && now != OLD : now != full) return "the record is not complete after the next run"; }
  else if (now != full) return "the file is not complete after the next writer";
  return "";
}
static S describe(const Scenario &s) { return mc::Str() << ENAME[s.ends] << ", old " << (s.old_present ? "present" : "absent") << (s.stale_tmp ? ", stale temporary" : "") << (s.job() ? s.dir_present || s.old_present ? ", directory present" : ", directory absent" : "") << ", records " << showf(records(s.words)); }

void explore() {
  const bool Th = mc::thorough;
  mc::prelude(DESC { return S("a complete old file"); }, [&] {
    S p = mc::need_scratch() + "/old.dat"; if (!plain([&] { sdf::OutDataFile f(p, sdf::DataFile::SDF_PARANOID); for (int i = 0; i < 4; i++) f.dump(i * 1.5, "old"); return 0; })) mc::fail("cannot write the old file");
    OLD = slurp(p);
  });
  std::vector<Scenario> all;
  for (int e = 0; e < NENDS; e++) for (int old = 0; old < 2; old++) for (int stale = 0; stale < 2; stale++) for (int w = 0; w < 4; w++) for (int dir = 0; dir < 2; dir++) {
    if ((e == RENAME) && (w || stale)) continue;
    if (e != DATASET && e != COPIES && dir) continue;
    if ((e == DATASET || e == COPIES) && !dir && (old || stale)) continue;
    Scenario s; s.ends = e; s.old_present = old; s.stale_tmp = stale; s.words = w; s.dir_present = dir; all.push_back(s);
  }
  std::vector<int> errs = {ENOSPC, EIO, EACCES, EINTR};
  if (Th) for (int e : {EDQUOT, EROFS, EMFILE, ENOENT, EEXIST, EPERM, EBUSY}) errs.push_back(e);
  for (auto &s : all) for (int part = 0; part < 8; part++) mc::run_case(DESC { return mc::Str() << describe(s) << ", part " << part; }, [&] {
    mc::nontrivial();
    // the uninterrupted run
    Outcome ref = run(s, Plan(), "");
    bool finishes = s.ends == CLOSE || s.ends == DESTROY || s.job() || s.ends == RENAME;
    S full;
    if (s.ends == DIES ? ref.well : !ref.well) { mc::fail("the uninterrupted run ended badly"); return; }
    if (!finishes) {
      if (ref.final_state != (s.old_present ? OLD : ABSENT)) { mc::fail("a file that was never closed appeared"); return; }
      Scenario t = s; t.ends = CLOSE; full = run(t, Plan(), "").final_state;
    } else if (s.job() && s.old_present) {
      if (!ref.refused || ref.final_state != OLD) { mc::fail("an existing record was not respected"); return; }
      Scenario t = s; t.old_present = false; full = run(t, Plan(), "").final_state;
    } else full = ref.final_state;
    if (full == ABSENT) { mc::fail("no file was written"); return; }
    if (s.ends == RENAME) { if (full != "the new contents") { mc::fail("rename_file did not replace the file"); return; } }
    else {   // it is what was written
      spew(mc::need_scratch() + "/copy.dat", full); File e = expected(s, s.words);
      bool rej = rejected([&] { sdf::InDataFile f(mc::need_scratch() + "/copy.dat"); for (auto &v : e) if (!same_value(load(f, v.k, v.name), v)) mc::fail("the file does not hold what was written"); });
      unlink((mc::need_scratch() + "/copy.dat.lck").c_str());
      if (rej) mc::fail("the complete file cannot be read: " + mc::ending_message);
      bool more = !rejected([&] { sdf::InDataFile f(mc::need_scratch() + "/copy.dat"); for (auto &v : e) load(f, v.k, v.name); double x; f.load(&x); });
      unlink((mc::need_scratch() + "/copy.dat.lck").c_str());
      if (more) mc::fail("the file holds more than what was written");
      if (mc::failed()) return;
    }
    bool replaced = finishes && !(s.job() && s.old_present);
    S allowed_new = replaced ? full : (s.old_present ? OLD : ABSENT);
    auto verdict = [&](const Outcome &o, const S &how, bool report) {
      mc::note_trace();
      mc::state(std::hash<S>()(o.final_state + describe(s) + how));
      if (!o.message.empty()) { mc::fail(how + ": " + o.message); return; }
      if (report && o.well && o.changed_call && replaced && o.final_state != full) { mc::fail(how + ": the process ended normally but the new contents are not there"); return; }
    };
    long n = ref.calls, k0 = 0;
    for (long k = 0; k <= n && !mc::failed(); k++) {
      if (k0++ % 8 != part) continue;
      // large records: crash points inside a long run of writes are alike; all are still taken
      Plan pl; pl.at = k; pl.what = KILL; mc::group("kills");
      Outcome o = run(s, pl, allowed_new);
      verdict(o, mc::Str() << "killed before call " << k, false); if (mc::failed()) return;
      S r = recover(s, full); if (!r.empty()) { mc::fail(mc::Str() << "killed before call " << k << ": " << r); return; }
      if (k >= n) break;
      tr::Call c = ref.seen[k];
      bool change = tr::classify(c) == tr::CHANGE;
      // queries that fail although the file is there are not explored
      if (change) for (int e : errs) for (int st = 0; st < 2; st++) {
        if (st && e == EINTR) continue;   // an endless storm of signals
        if (s.words == 3 && !Th && e != ENOSPC && e != EIO) continue;
        pl.what = FAIL; pl.err = e; pl.sticky = st; mc::group("failed calls");
        o = run(s, pl, allowed_new);
        verdict(o, mc::Str() << "call " << k << " (" << tr::name(c.nr) << ") fails with " << strerror(e) << (st ? " and so do all later ones" : ""), change); if (mc::failed()) return;
        if (o.final_state != full || !o.well) { S r = recover(s, full); if (!r.empty()) { mc::fail(mc::Str() << "call " << k << " (" << tr::name(c.nr) << ") failed with " << strerror(e) << ": " << r); return; } }
      }
      if (is_write(c.nr)) {
        long len = ref.lengths[k];
        std::vector<long> cut; for (long j : {0L, 1L, len / 2, len - 1}) if (j >= 0 && j < len && std::find(cut.begin(), cut.end(), j) == cut.end()) cut.push_back(j);
        for (long j : cut) for (int w : {SHORT, SHORT_KILL, SHORT_FULL}) {
          if (j == 0 && w == SHORT) continue;
          pl.what = w; pl.len = j; pl.sticky = false; mc::group("torn writes");
          o = run(s, pl, allowed_new);
          verdict(o, mc::Str() << "write " << k << " cut to " << j << " bytes" << (w == SHORT ? "" : w == SHORT_KILL ? " and killed" : " and the disk is full"), true); if (mc::failed()) return;
          if (w != SHORT || !o.well) { S r = recover(s, full); if (!r.empty()) { mc::fail(mc::Str() << "write " << k << " torn: " << r); return; } }
        }
      }
    }
  });
  // rename_file without permission to overwrite
  mc::run_case(DESC { return S("rename_file refuses to overwrite"); }, [&] {
    mc::nontrivial(); mc::group("rename_file");
    S a = mc::need_scratch() + "/a", b = mc::need_scratch() + "/b"; spew(a, "aa"); spew(b, "bb");
    bool ok = false; bool rej = mc::rejects([&] { ok = sdf::rename_file(a, b, false); });
    if ((!rej && ok) || slurp(a) != "aa" || slurp(b) != "bb") mc::fail("overwrote its destination");
    unlink(b.c_str()); rej = mc::rejects([&] { ok = sdf::rename_file(a, b, false); });
    if (rej || !ok || slurp(b) != "aa" || present(a)) mc::fail("did not rename");
    rej = mc::rejects([&] { ok = sdf::rename_file(a, b, true); });
    if ((!rej && ok) || slurp(b) != "aa") mc::fail("renaming a missing file");
  });
}
