// C15: a data file opened in shared mode has one owner at a time.
// Real processes run under a controlled scheduler which decides, before every
// file-system call, who goes on; all schedules up to a number of preemptions are
// explored.
#include "sdf_common.h"
#include "trace.h"
#include <memory>
#include <map>
#include <set>
enum { ENTER = 1, WRONG = 2, LEAVE = 100 };
// one letter per session of a process:
// W writer closed by name, D writer destroyed, X small writer never closed,
// R reader, N writer that has another shared file open, S writer of small records
struct Config { std::vector<S> procs; bool file, lock; int bound; int victim; };
static S path() { return mc::need_scratch() + "/f.dat"; }
static S describe(const Config &c) {
  mc::Str s; for (size_t i = 0; i < c.procs.size(); i++) s << (i ? " | " : "") << c.procs[i];
  s << (c.file ? ", file present" : ", no file") << (c.lock ? ", stale lock file" : "") << ", " << c.bound << " preemptions";
  if (c.victim >= 0) s << ", process " << c.victim << " is killed";
  return s;
}
static const int BIG = 1100;
static void put(sdf::OutDataFile &f, int id, int size) { f.dump(id, "session"); f.dump(to_tensor(rnum({size}, id)), "data"); }
static int session(char what, int id) {
  const int flags = sdf::DataFile::SDF_SHARED;
  switch (what) {
  case 'W': case 'S': { sdf::OutDataFile f(path(), flags); tr::mark(ENTER); put(f, id, what == 'W' ? BIG : 3); tr::mark(LEAVE); f.close(); return 0; }
  case 'D': { sdf::OutDataFile f(path(), flags); tr::mark(ENTER); put(f, id, BIG); tr::mark(LEAVE); return 0; }
  case 'N': { sdf::OutDataFile g(mc::Str() << path() << id, flags); sdf::OutDataFile f(path(), flags); tr::mark(ENTER); put(g, id, 2); put(f, id, BIG); tr::mark(LEAVE); f.close(); return 0; }
  case 'X': { sdf::OutDataFile *f = new sdf::OutDataFile(path(), flags); tr::mark(ENTER); put(*f, id, 3); tr::mark(LEAVE); _exit(0); }
  case 'R': {
    sdf::InDataFile f(path(), flags); tr::mark(ENTER);
    struct stat st; if (stat(path().c_str(), &st)) tr::mark(WRONG, 1);
    long left = (long)st.st_size - 64;
    while (left > 0) {   // whole sessions only
      int k; f.load(&k, "session"); tensor::RTensor t; f.load(&t, "data");
      if (!equals(t, rnum({(int)t.size()}, k))) tr::mark(WRONG, 2);
      left -= (64 + 8 + 8 + 8 + 8 + 8) + (64 + 8 + 8 + 8 + 8 + 8 * (long)t.size());
    }
    if (left) tr::mark(WRONG, 3);
    tr::mark(LEAVE); return 0; }
  }
  return 98;
}
static int program(const S &p, int who) { for (size_t i = 0; i < p.size(); i++) { int r = session(p[i], 10 * (who + 1) + (int)i); if (r) return r; } return 0; }

static S HEADER, INITIAL;
static S bytes_of(char kind, int id) {   // what a session appends
  static std::map<std::pair<char, int>, S> memo;
  std::pair<char, int> key(kind, id); if (memo.count(key)) return memo[key];
  S p = mc::need_scratch() + "/ref.dat"; unlink(p.c_str());
  { sdf::OutDataFile f(p, sdf::DataFile::SDF_OVERWRITE); put(f, id, kind == 'S' || kind == 'X' ? 3 : BIG); }
  S b = slurp(p); HEADER = b.substr(0, 64);
  return memo[key] = b.substr(64);
}
static bool appends(char c) { return c != 'R'; }
static bool may_vanish(char c) { return c == 'X'; }   // never closed

struct Choice { int chosen; std::vector<int> others; bool free; };
struct Run { std::vector<Choice> steps; S message; };
static const int MAXP = 4;

// Runs the processes: the given choices first, then every process as long as it
// can go on.  kill_at: the step before which the victim is killed (-1 never).
static Run run(const Config &c, const std::vector<int> &prefix, long kill_at) {
  Run out;
  mc::note_trace();
  const int n = (int)c.procs.size();
  wipe(mc::need_scratch());
  for (int i = 0; i < n; i++) for (size_t k = 0; k < c.procs[i].size(); k++) bytes_of(c.procs[i][k], 10 * (i + 1) + (int)k);
  if (c.file) spew(path(), HEADER + bytes_of('W', 1));
  if (c.lock) spew(path() + ".lck", "");
  tr::Proc p[MAXP]; bool waiting[MAXP] = {}; int inside = -1; std::set<int> locked[MAXP]; bool recordlock[MAXP] = {};
  bool torn = false; int entered[MAXP] = {}; bool killed = false;
  // the owner reads and writes without interruption after its first such call:
  // nobody else may look at the file, which is what ENTER checks
  int touched[MAXP] = {}; auto k_is_data = [](long nr) { return nr == SYS_write || nr == SYS_writev || nr == SYS_read || nr == SYS_readv; };
  S trail;
  auto bad = [&](const S &m) { if (out.message.empty()) out.message = m; };
  int fruitless = 0;
  auto wake = [&](int by) { fruitless = 0; for (int i = 0; i < n; i++) if (i != by) waiting[i] = false; };
  auto settle = [&](int i) {   // to the next call of process i
    for (;;) {
      if (!p[i].advance([&](long a, long b) {
            if (a == ENTER) { if (inside >= 0) bad(mc::Str() << "processes " << inside << " and " << i << " own the file at the same time"); inside = i; entered[i]++; touched[i] = 0; }
            if (a == WRONG) bad(mc::Str() << "reader " << i << " found an incomplete session (" << b << ")");
          })) { if (inside == i) inside = -1; wake(i); if (!p[i].ended_well()) bad(mc::Str() << "process " << i << " failed"); return; }
      if (inside == i && (k_is_data(p[i].call.nr)) && touched[i]++) { mc::transition(); if (!p[i].execute()) return; continue; }
      if (tr::classify(p[i].call) != tr::SLEEP) return;
      waiting[i] = true;
      if (!p[i].replace(0)) return;
    }
  };
  for (int i = 0; i < n; i++) { p[i].start([&, i] { return program(c.procs[i], i); }); if (p[i].alive) settle(i); }
  int cur = 0; long step = 0, streak = 0;
  for (; out.message.empty(); step++) {
    if (step == kill_at && p[c.victim].alive) {
      p[c.victim].kill(); killed = true; if (inside == c.victim) inside = -1; wake(c.victim);
      // does the file end in the middle of a session?
      S now = slurp(path()); size_t o = 0; bool ok = true;
      if (!now.empty()) { ok = now.size() >= 64; o = 64; }
      if (ok && c.file) { o += bytes_of('W', 1).size(); }
      while (ok && o < now.size()) {
        bool hit = false;
        for (int i = 0; i < n && !hit; i++) for (size_t k = 0; k < c.procs[i].size() && !hit; k++) if (appends(c.procs[i][k])) { const S &b = bytes_of(c.procs[i][k], 10 * (i + 1) + (int)k); if (now.compare(o, b.size(), b) == 0) { o += b.size(); hit = true; } }
        if (!hit) ok = false;
      }
      torn = !ok;
      // another process may be writing at the same moment: only the victim tears
      if (torn && inside >= 0) torn = false;
    }
    bool any = false, runnable = false;
    for (int i = 0; i < n; i++) { any |= p[i].alive; runnable |= p[i].alive && !waiting[i]; }
    if (!any) break;
    if (!runnable) {   // everybody sleeps: time passes
      if (++fruitless > 6) { bad("every process waits for ever"); break; }
      for (int i = 0; i < n; i++) waiting[i] = false;
    }
    if (step > 4000) { bad("a process never gets the file"); break; }
    Choice ch; ch.free = !(p[cur].alive && !waiting[cur]) || streak > 200;
    std::vector<int> en; for (int k = 0; k < n; k++) { int i = (cur + k) % n; if (p[i].alive && !waiting[i]) en.push_back(i); }
    if (streak > 200 && en.size() > 1) { std::rotate(en.begin(), en.begin() + 1, en.end()); }
    int i = step < (long)prefix.size() ? prefix[step] : en[0];
    if (step < (long)prefix.size() && std::find(en.begin(), en.end(), i) == en.end()) { bad("harness: a schedule cannot be repeated"); break; }
    ch.chosen = i; for (int e : en) if (e != i) ch.others.push_back(e);
    out.steps.push_back(ch);
    streak = i == cur ? streak + 1 : 0; if (streak > 200 && ch.free) streak = 0;
    cur = i; trail += (char)('0' + i);
    // the call of process i happens
    mc::transition();
    tr::Call k = p[i].call;
    if (k.nr == tr::MARK) { if (inside == i) inside = -1; if (!p[i].execute()) break; settle(i); continue; }
    bool blocking = (k.nr == SYS_flock && !(k.a[1] & LOCK_NB) && !(k.a[1] & LOCK_UN)) || (k.nr == SYS_fcntl && ((int)k.a[1] == F_SETLKW || (int)k.a[1] == 38));
    if (blocking) p[i].set_arg(1, k.nr == SYS_flock ? k.a[1] | LOCK_NB : k.a[1] - 1);
    if (!p[i].execute()) { bad("a process died in a call"); break; }
    long r = p[i].result;
    if (blocking && (r == -EAGAIN || r == -EACCES)) { p[i].again(k); waiting[i] = true; settle(i); waiting[i] = true; continue; }
    int fd = (int)k.a[0];
    if (k.nr == SYS_flock && r == 0) { if (k.a[1] & LOCK_UN) { locked[i].erase(fd); wake(i); } else locked[i].insert(fd); }
    if (k.nr == SYS_fcntl && r == 0) { recordlock[i] = true; wake(i); }
    if (k.nr == SYS_close && (locked[i].erase(fd) || recordlock[i])) wake(i);
    if ((k.nr == SYS_unlink || k.nr == SYS_unlinkat || k.nr == SYS_rename || k.nr == SYS_renameat || k.nr == SYS_renameat2 || k.nr == SYS_rmdir || k.nr == SYS_ftruncate) && r == 0) wake(i);
    settle(i);
    mc::Hash h; for (int q = 0; q < n; q++) { h.add(p[q].alive ? p[q].call.nr : -1); h.add(entered[q]); h.add((char)waiting[q]); h.add(locked[q].size()); } h.add(inside); struct stat st; h.add(stat((path() + ".lck").c_str(), &st) == 0); h.add((long)(stat(path().c_str(), &st) == 0 ? st.st_size : -1)); mc::state(h.h);
  }
  for (int i = 0; i < n; i++) p[i].kill();
  if (out.message.empty()) {
    for (int i = 0; i < n; i++) if (!(killed && i == c.victim) && entered[i] != (int)c.procs[i].size()) bad(mc::Str() << "process " << i << " did not get the file");
    if (!torn) {   // every session is there, whole
      S now = slurp(path()); std::set<std::pair<int, int> > want;
      for (int i = 0; i < n; i++) for (size_t k = 0; k < c.procs[i].size(); k++) if (appends(c.procs[i][k])) want.insert(std::make_pair(i, (int)k));
      size_t o = 64;
      if (now.empty()) { if (!c.file && !want.empty() && !(killed && n == 1)) { bool need = false; for (auto &w : want) need |= !(killed && w.first == c.victim) && !may_vanish(c.procs[w.first][w.second]); if (need) bad("the file is empty"); } o = 0; }
      else if (now.substr(0, 64) != HEADER) bad("the file does not begin with one header");
      if (c.file && out.message.empty()) { if (now.compare(64, bytes_of('W', 1).size(), bytes_of('W', 1))) bad("the old contents of the file are gone"); o += bytes_of('W', 1).size(); }
      while (o < now.size() && out.message.empty()) {
        bool hit = false;
        for (auto it = want.begin(); it != want.end() && !hit; ++it) { const S &b = bytes_of(c.procs[it->first][it->second], 10 * (it->first + 1) + it->second); if (now.compare(o, b.size(), b) == 0) { o += b.size(); want.erase(it); hit = true; break; } }
        if (!hit) bad(mc::Str() << "the file holds something that is not a whole session at byte " << o);
      }
      for (auto &w : want) if (!(killed && w.first == c.victim) && !may_vanish(c.procs[w.first][w.second])) bad(mc::Str() << "session " << w.second << " of process " << w.first << " is lost");
    }
  }
  if (!out.message.empty()) out.message += " [schedule " + trail + (kill_at >= 0 ? S(mc::Str() << ", killed at step " << kill_at) : S()) + "]";
  return out;
}
// depth-first search over the choices after the prefix
static void search(const Config &c, const std::vector<int> &prefix, int left, long kill_at, int part, int parts) {
  Run r = run(c, prefix, kill_at);
  if (!r.message.empty()) { mc::fail(r.message); return; }
  for (size_t k = prefix.size(); k < r.steps.size() && !mc::failed(); k++) {
    if (parts > 1 && (int)(k % parts) != part) continue;
    if (!r.steps[k].free && left == 0) continue;
    for (int o : r.steps[k].others) {
      std::vector<int> np; for (size_t j = 0; j < k; j++) np.push_back(r.steps[j].chosen);
      np.push_back(o);
      search(c, np, r.steps[k].free ? left : left - 1, kill_at, 0, 1);
      if (mc::failed()) return;
    }
  }
}
void explore() {
  const bool Th = mc::thorough; const int x = Th ? 1 : 0;
  std::vector<Config> all;
  auto add = [&](std::vector<S> ps, bool f, bool l, int bound, int victim = -1) { Config c; c.procs = ps; c.file = f; c.lock = l; c.bound = bound; c.victim = victim; all.push_back(c); };
  for (int f = 0; f < 2; f++) for (int l = 0; l < 2; l++) {
    add({"S", "S"}, f, l, 4 + x); add({"W", "W"}, f, l, 3 + x); add({"S", "D"}, f, l, 3 + x); add({"X", "W"}, f, l, 3 + x);
    add({"SS", "SS"}, f, l, 2 + x); add({"WD", "SX"}, f, l, 2); add({"N", "S"}, f, l, 2 + x);
    add({"S", "S", "S"}, f, l, 2 + x); add({"W", "X", "S"}, f, l, 2);
    add({"W"}, f, l, 0); add({"WSD"}, f, l, 0); add({"SX"}, f, l, 0);
  }
  for (int l = 0; l < 2; l++) {
    add({"R", "S"}, 1, l, 4 + x); add({"R", "W"}, 1, l, 3 + x); add({"R", "R"}, 1, l, 3 + x); add({"RW", "WR"}, 1, l, 2 + x); add({"R", "W", "R"}, 1, l, 2); add({"RR", "SD"}, 1, l, 2 + x);
    add({"WR", "R"}, 1, l, 2 + x);
  }
  add({"WR", "WR"}, 0, 0, 2 + x);
  add({"S", "S", "S", "S"}, 0, 0, 1 + x); add({"SS", "SS", "SS"}, 0, 0, 1 + x); add({"SSS", "SSS"}, 0, 0, 2);
  // kills
  for (int f = 0; f < 2; f++) for (int l = 0; l < 2; l++) {
    add({"S", "S"}, f, l, 2 + x, 0); add({"W", "S"}, f, l, 1 + x, 0); add({"S", "S", "S"}, f, l, 1 + x, 0); add({"SS", "SS"}, f, l, 1 + x, 0);
  }
  add({"R", "W"}, 1, 0, 2 + x, 0); add({"RR", "SR"}, 1, 0, 1 + x, 0);
  const int parts = 16;
  for (auto &c : all) for (int part = 0; part < parts; part++) mc::run_case(DESC { return mc::Str() << describe(c) << ", part " << part; }, [&] {
    mc::nontrivial(); mc::group(c.victim >= 0 ? "schedules with a kill" : c.procs.size() == 2 ? "two processes" : c.procs.size() > 2 ? "three or four processes" : "one process");
    if (c.victim < 0) { search(c, std::vector<int>(), c.bound, -1, part, parts); return; }
    Run r = run(c, std::vector<int>(), -1); if (!r.message.empty()) { mc::fail(r.message); return; }
    for (long k = part; k <= (long)r.steps.size() + 4 && !mc::failed(); k += parts) search(c, std::vector<int>(), c.bound, k, 0, 1);
  });
}
