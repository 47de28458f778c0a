#include "mc.h"
#include <atomic>
#include <cerrno>
#include <csetjmp>
#include <csignal>
#include <cstdlib>
#include <ctime>
#include <exception>
#include <fcntl.h>
#include <iostream>
#include <map>
#include <new>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

#if defined(__SANITIZE_ADDRESS__)
extern "C" const char *__asan_default_options() {
  return "detect_leaks=0:abort_on_error=0:exitcode=97:malloc_fill_byte=190:"
         "max_malloc_fill_size=1073741824:max_free_fill_size=0:"
         "allocator_may_return_null=1:detect_stack_use_after_return=0:"
         "handle_abort=0:quarantine_size_mb=8:thread_local_quarantine_size_kb=64:print_legend=0:alloc_dealloc_mismatch=1";
}
#endif

namespace mc {

bool thorough = false;
unsigned long seed = 1;
std::string ending_message;
std::string scratch;
long live_blocks = 0;

static const size_t TABLE = 1u << 25;     // distinct-state table slots
static const int MAXG = 64;

struct Shared {
  struct Slot {
    std::atomic<uint64_t> current;   // case being executed (+1), 0 = none
    std::atomic<uint64_t> last;      // last case number finished/started (+1)
    std::atomic<uint64_t> evals, nontriv, trans, traces, fails;
    std::atomic<uint64_t> beat;
    std::atomic<int> done;
    std::atomic<int> describing, prelude;
  } slot[64];
  std::atomic<uint64_t> total_cases;
  std::atomic<uint64_t> states, table_full;
  std::atomic<int> ngroups, glock;
  char gname[MAXG][40];
  std::atomic<uint64_t> gcount[64][MAXG];
  std::atomic<uint64_t> table[TABLE];
};
static Shared *sh;
static int shard = 0, nshards = 1;
static uint64_t counter = 0, resume = 0;
static long only = -1;
static bool describe_only = false;
static int vfd = -1;
static bool case_failed = false, in_case = false, case_nontrivial = false;
static const std::function<std::string()> *cur_desc = 0;
static uint64_t cur_index = 0;
static int max_fail_records = 4000;
static double deadline = 0;
static std::vector<std::string> group_ids;

static sigjmp_buf *jb = 0;
static Ending jending;

static double now() {
  struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t);
  return t.tv_sec + 1e-9 * t.tv_nsec;
}

static std::string jstr(const std::string &s) {
  std::string o = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
    else o += c;
  }
  return o + "\"";
}

static void emit(const char *kind, uint64_t idx, const std::string &desc, const std::string &msg) {
  std::string l = std::string("{\"kind\":\"") + kind + "\",\"case\":" + std::to_string(idx) +
                  ",\"desc\":" + jstr(desc) + ",\"msg\":" + jstr(msg) + "}\n";
  if (vfd >= 0) { ssize_t r = write(vfd, l.data(), l.size()); (void)r; }
}

void fail(const std::string &msg) {
  if (case_failed) return;
  case_failed = true;
  sh->slot[shard].fails++;
  if (only >= 0 || sh->slot[shard].fails.load() <= (uint64_t)max_fail_records)
    emit("violation", cur_index, cur_desc ? (*cur_desc)() : "?", msg);
}
bool failed() { return case_failed; }
void transition(uint64_t n) { sh->slot[shard].trans.fetch_add(n, std::memory_order_relaxed); }
void nontrivial() { if (!case_nontrivial) { case_nontrivial = true; sh->slot[shard].nontriv.fetch_add(1, std::memory_order_relaxed); } }
void note_trace() { sh->slot[shard].traces.fetch_add(1, std::memory_order_relaxed); }

void state(uint64_t h) {
  if (!h) h = 1;
  size_t i = (h ^ (h >> 31)) % TABLE;
  for (int probe = 0; probe < 64; probe++) {
    uint64_t v = sh->table[i].load(std::memory_order_relaxed);
    if (v == h) return;
    if (v == 0) {
      if (sh->table[i].compare_exchange_strong(v, h)) { sh->states++; return; }
      if (v == h) return;
    }
    i = (i + 1) % TABLE;
  }
  sh->table_full++;
}

void group(const char *label, uint64_t n) {
  static std::map<const void *, int> cache;
  std::map<const void *, int>::iterator it = cache.find(label);
  int id;
  if (it != cache.end()) id = it->second;
  else {
    static std::map<std::string, int> byname;
    std::map<std::string, int>::iterator jt = byname.find(label);
    if (jt == byname.end()) {
      id = -1;
      for (;;) {
        int e = 0;
        if (!sh->glock.compare_exchange_strong(e, 1)) continue;
        int k = sh->ngroups.load();
        for (int i = 0; i < k && i < MAXG; i++) if (!strncmp(sh->gname[i], label, 39)) id = i;
        if (id < 0 && k < MAXG) { strncpy(sh->gname[k], label, 39); sh->ngroups.store(k + 1); id = k; }
        sh->glock.store(0);
        break;
      }
      byname[label] = id;
    } else id = jt->second;
    cache[label] = id;
  }
  if (id >= 0) sh->gcount[shard][id].fetch_add(n, std::memory_order_relaxed);
}

Ending guarded(const std::function<void()> &f) {
  sigjmp_buf here, *saved = jb;
  Ending e = RETURNED;
  ending_message.clear();
  if (sigsetjmp(here, 0) == 0) {
    jb = &here;
    try { f(); }
    catch (const std::exception &x) { jb = saved; ending_message = std::string("exception ") + x.what(); return THREW; }
    catch (...) { jb = saved; ending_message = "exception"; return THREW; }
  } else {
    e = jending;
  }
  jb = saved;
  return e;
}
bool rejects(const std::function<void()> &f) { return guarded(f) != RETURNED; }
void detach() { jb = 0; }

bool mine_next() {
  uint64_t k = counter;
  if (only >= 0) return (uint64_t)only == k;
  return k % nshards == (uint64_t)shard && k >= resume;
}

static void finish_shard(int code);

void run_case(const std::function<std::string()> &desc, const std::function<void()> &body) {
  uint64_t k = counter++;
  if (only >= 0) { if ((uint64_t)only != k) return; }
  else if (k % nshards != (uint64_t)shard || k < resume) return;
  cur_index = k; cur_desc = &desc; case_failed = false; case_nontrivial = false;
  if (describe_only) { emit("describe", k, desc(), ""); _exit(0); }
  Shared::Slot &s = sh->slot[shard];
  s.current.store(k + 1, std::memory_order_relaxed);
  s.beat.fetch_add(1, std::memory_order_relaxed);
  uint64_t n = s.evals.fetch_add(1, std::memory_order_relaxed);
  if (n < 2 && shard == 0) emit("sample", k, desc(), "");
  if (only < 0 && shard == (int)(k / 7 % nshards) && (n & (n - 1)) == 0 && n > 64) emit("sample", k, desc(), "");
  in_case = true;
  Ending e = guarded(body);
  in_case = false;
  if (e != RETURNED) fail("the program ended: " + ending_message);
  s.current.store(0, std::memory_order_relaxed);
  cur_desc = 0;
  if (deadline > 0 && (n & 63) == 0 && now() > deadline) finish_shard(3);
}

void prelude(const std::function<std::string()> &desc, const std::function<void()> &body) {
  uint64_t k = counter;
  bool owner = only >= 0 ? (uint64_t)only == k : k % nshards == (uint64_t)shard && k >= resume;
  if (owner) { run_case(desc, body); return; }
  counter++;
  if (only >= 0 && (uint64_t)only < k) return;
  // executed silently; a crash is attributed to this case and ends the shard
  cur_index = k; cur_desc = &desc;
  Shared::Slot &s = sh->slot[shard];
  uint64_t t = s.trans, tr = s.traces;
  s.prelude.store(1);
  s.current.store(k + 1);
  case_failed = true;      // failures are recorded by the owner
  guarded(body);
  s.current.store(0);
  s.prelude.store(0);
  s.trans.store(t); s.traces.store(tr);
  cur_desc = 0;
}

const std::string &need_scratch() {
  if (scratch.empty()) {
    const char *base = getenv("MC_SCRATCH");
    std::string b = base ? base : "/tmp";
    std::string d = b + "/mc." + std::to_string((long)getpid());
    mkdir(d.c_str(), 0777);
    scratch = d;
  }
  return scratch;
}

static void finish_shard(int code) {
  sh->slot[shard].done.store(code == 0 ? 1 : 2);
  fflush(0);
  _exit(code);
}

}  // namespace mc

// ---------------------------------------------------------------------------
// Interception of the ways in which the library ends the program.
extern "C" void __assert_fail(const char *a, const char *file, unsigned line, const char *fn) noexcept {
  using namespace mc;
  if (jb) {
    const char *b = strrchr(file, '/');
    ending_message = std::string("assertion '") + a + "' at " + (b ? b + 1 : file);
    jending = ASSERTED;
    siglongjmp(*jb, 1);
  }
  fprintf(stderr, "%s:%u: %s: Assertion `%s' failed.\n", file, line, fn, a);
  _exit(98);
}
extern "C" void abort(void) noexcept {
  using namespace mc;
  if (jb) { ending_message = "abort()"; jending = ABORTED; siglongjmp(*jb, 1); }
  static const char m[] = "abort() called\n";
  ssize_t r = write(2, m, sizeof m - 1); (void)r;
  _exit(98);
}
extern "C" void __real_exit(int code);
extern "C" void __wrap_exit(int code) {
  using namespace mc;
  if (jb) { ending_message = "exit(" + std::to_string(code) + ")"; jending = EXITED; siglongjmp(*jb, 1); }
  __real_exit(code);
}

#ifdef MC_COUNT_NEW
void *operator new(size_t n) { void *p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); mc::live_blocks++; return p; }
void *operator new[](size_t n) { void *p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); mc::live_blocks++; return p; }
void operator delete(void *p) noexcept { if (p) { mc::live_blocks--; free(p); } }
void operator delete[](void *p) noexcept { if (p) { mc::live_blocks--; free(p); } }
void operator delete(void *p, size_t) noexcept { if (p) { mc::live_blocks--; free(p); } }
void operator delete[](void *p, size_t) noexcept { if (p) { mc::live_blocks--; free(p); } }
#endif

// ---------------------------------------------------------------------------
using namespace mc;

static std::string outdir;

static pid_t start(int s, uint64_t from, long only_case, bool describe, const char *vname) {
  fflush(0);
  pid_t p = fork();
  if (p) return p;
  shard = s; resume = from; only = only_case; describe_only = describe;
  vfd = open((outdir + "/" + vname).c_str(), O_WRONLY | O_CREAT | O_APPEND, 0666);
  int efd = open((outdir + "/stderr." + std::to_string(s)).c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0666);
  if (efd >= 0) { dup2(efd, 2); close(efd); }
  int nul = open("/dev/null", O_WRONLY);
  if (nul >= 0 && !getenv("MC_KEEP_STDOUT")) { dup2(nul, 1); close(nul); }
  std::cerr.rdbuf(0); std::cerr.clear();
  if (!getenv("MC_KEEP_STDOUT")) { std::cout.rdbuf(0); std::cout.clear(); }
  explore();
  uint64_t t = counter;
  sh->total_cases.store(t);
  finish_shard(0);
  _exit(0);
}

static std::string tail(const std::string &file) {
  FILE *f = fopen(file.c_str(), "r");
  if (!f) return "";
  std::string all; char b[4096]; size_t n;
  while ((n = fread(b, 1, sizeof b, f)) > 0 && all.size() < 20000) all.append(b, n);
  fclose(f);
  size_t i = all.find("ERROR: AddressSanitizer");
  std::string out;
  if (i != std::string::npos) {
    out = all.substr(i, all.find('\n', i) - i);
    // first frame inside the repository
    size_t j = all.find("/repo/", i);
    if (j != std::string::npos) out += " near " + all.substr(j, all.find('\n', j) - j);
  } else out = all.substr(0, 300);
  return out;
}

int main(int argc, char **argv) {
  std::string tier = "quick";
  double budget = 0, hang = 120;
  long replay = -1;
  nshards = 8;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    if (a == "--tier") tier = argv[++i];
    else if (a == "--out") outdir = argv[++i];
    else if (a == "--shards") nshards = atoi(argv[++i]);
    else if (a == "--budget") budget = atof(argv[++i]);
    else if (a == "--hang") hang = atof(argv[++i]);
    else if (a == "--seed") seed = strtoul(argv[++i], 0, 10);
    else if (a == "--replay") replay = atol(argv[++i]);
  }
  if (outdir.empty()) { fprintf(stderr, "--out needed\n"); return 2; }
  thorough = tier == "thorough";
  sh = (Shared *)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (sh == MAP_FAILED) { perror("mmap"); return 2; }
  if (budget > 0) deadline = now() + budget;
  if (replay >= 0) {
    nshards = 1;
    pid_t p = start(0, 0, replay, false, "replay.jsonl");
    int st; double t0 = 0;   // since when the case is running
    while (waitpid(p, &st, WNOHANG) == 0) {
      usleep(5000);
      if (!sh->slot[0].current.load()) t0 = 0;
      else if (!t0) t0 = now();
      else if (now() - t0 > hang) { kill(p, SIGKILL); t0 = now() + 1e6; }
    }
    bool bad = sh->slot[0].fails.load() > 0 || !WIFEXITED(st) || WEXITSTATUS(st) != 0;
    if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0))
      printf("died: status %d %s\n", st, tail(outdir + "/stderr.0").c_str());
    return bad ? 1 : 0;
  }
  struct W { pid_t pid; uint64_t beat; double when; int crashes, hangs; };
  std::vector<W> w(nshards);
  for (int s = 0; s < nshards; s++) {
    w[s].pid = start(s, 0, -1, false, ("v." + std::to_string(s)).c_str());
    w[s].beat = 0; w[s].when = now(); w[s].crashes = w[s].hangs = 0;
  }
  int running = nshards, truncated = 0;
  while (running > 0) {
    int st; pid_t p = waitpid(-1, &st, WNOHANG);
    if (p <= 0) {
      usleep(20000);
      for (int s = 0; s < nshards; s++) {
        if (!w[s].pid) continue;
        uint64_t b = sh->slot[s].beat.load();
        if (b != w[s].beat) { w[s].beat = b; w[s].when = now(); }
        else if (now() - w[s].when > hang && sh->slot[s].current.load()) {
          kill(w[s].pid, SIGKILL); w[s].when = now() + 1e6; w[s].hangs++;
        }
      }
      continue;
    }
    int s = -1;
    for (int k = 0; k < nshards; k++) if (w[k].pid == p) s = k;
    if (s < 0) continue;
    if (WIFEXITED(st) && (WEXITSTATUS(st) == 0 || WEXITSTATUS(st) == 3) && sh->slot[s].done.load()) {
      if (WEXITSTATUS(st) == 3) truncated = 1;
      w[s].pid = 0; running--; continue;
    }
    // died inside a case
    uint64_t cur = sh->slot[s].current.load();
    std::string why = WIFSIGNALED(st) ? (WTERMSIG(st) == SIGKILL ? "hang (killed)" : "killed by signal " + std::to_string(WTERMSIG(st)))
                                      : "exit status " + std::to_string(WEXITSTATUS(st));
    std::string t = tail(outdir + "/stderr." + std::to_string(s));
    sh->slot[s].current.store(0);
    if (!cur) {
      FILE *f = fopen((outdir + "/v." + std::to_string(s)).c_str(), "a");
      fprintf(f, "{\"kind\":\"harness-error\",\"case\":0,\"desc\":\"outside any case\",\"msg\":%s}\n", jstr(why + " " + t).c_str());
      fclose(f);
      w[s].pid = 0; running--; continue;
    }
    sh->slot[s].fails++;
    // describe it
    std::string dname = "describe." + std::to_string(s);
    unlink((outdir + "/" + dname).c_str());
    pid_t d = start(s, 0, (long)(cur - 1), true, dname.c_str());
    int dst; waitpid(d, &dst, 0);
    std::string desc = "?";
    FILE *f = fopen((outdir + "/" + dname).c_str(), "r");
    std::string line; char b[8192];
    if (f) { while (fgets(b, sizeof b, f)) line += b; fclose(f); }
    size_t i = line.find("\"desc\":"), j = line.rfind(",\"msg\"");
    std::string dj = (i != std::string::npos && j != std::string::npos && j > i) ? line.substr(i + 7, j - i - 7) : "\"?\"";
    f = fopen((outdir + "/v." + std::to_string(s)).c_str(), "a");
    fprintf(f, "{\"kind\":\"violation\",\"case\":%llu,\"desc\":%s,\"msg\":%s}\n", (unsigned long long)(cur - 1), dj.c_str(),
            jstr("process died: " + why + " " + t).c_str());
    fclose(f);
    if (++w[s].crashes > 25 || w[s].hangs > 1 || sh->slot[s].prelude.load()) { w[s].pid = 0; running--; truncated = 1; continue; }
    w[s].pid = start(s, cur, -1, false, ("v." + std::to_string(s)).c_str());
    w[s].when = now();
  }
  uint64_t ev = 0, nt = 0, tr = 0, tc = 0, fl = 0;
  for (int s = 0; s < nshards; s++) {
    ev += sh->slot[s].evals; nt += sh->slot[s].nontriv; tr += sh->slot[s].trans; tc += sh->slot[s].traces; fl += sh->slot[s].fails;
  }
  FILE *f = fopen((outdir + "/summary.json").c_str(), "w");
  fprintf(f, "{\"cases\":%llu,\"evaluations\":%llu,\"nontrivial\":%llu,\"transitions\":%llu,\"traces\":%llu,\"failures\":%llu,\"states\":%llu,\"states_table_full\":%llu,\"truncated\":%d,\"groups\":{",
          (unsigned long long)sh->total_cases.load(), (unsigned long long)ev, (unsigned long long)nt, (unsigned long long)tr,
          (unsigned long long)tc, (unsigned long long)fl, (unsigned long long)sh->states.load(), (unsigned long long)sh->table_full.load(), truncated);
  std::map<std::string, uint64_t> g;
  for (int i = 0; i < sh->ngroups.load() && i < MAXG; i++)
    for (int s = 0; s < nshards; s++) g[sh->gname[i]] += sh->gcount[s][i].load();
  bool first = true;
  for (auto &kv : g) { fprintf(f, "%s%s:%llu", first ? "" : ",", jstr(kv.first).c_str(), (unsigned long long)kv.second); first = false; }
  fprintf(f, "}}\n");
  fclose(f);
  return fl ? 1 : 0;
}
