// Bounded-exhaustive explorer core shared by all checks.
//
// A check defines  void explore();  which enumerates, in a fixed order, every
// case inside its bounds and calls run_case() on each.  The driver forks N
// shard processes; case number k is executed by shard k % N.  A shard that dies
// (signal, sanitizer report) or hangs is restarted just after the fatal case,
// which is recorded as a violation of that case.
#ifndef VERIF_MC_H
#define VERIF_MC_H
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <functional>
#include <sstream>
#include <string>
#include <vector>

namespace mc {

extern bool thorough;            // tier
extern unsigned long seed;

// How a guarded call ended.
enum Ending { RETURNED = 0, ASSERTED, ABORTED, EXITED, THREW };
extern std::string ending_message;   // text of the last non-RETURNED ending

// Runs f; a failed assertion, abort(), exit(n) or exception inside it comes back
// here as the returned value.
Ending guarded(const std::function<void()> &f);
// True when f ended the program with an error (assert/abort/exit!=0/exception).
bool rejects(const std::function<void()> &f);

// One explored case.  desc is only evaluated when needed.
void run_case(const std::function<std::string()> &desc,
              const std::function<void()> &body);
// A case whose effects (e.g. a computed frontier) every shard needs: executed by
// all shards, reported once.
void prelude(const std::function<std::string()> &desc,
             const std::function<void()> &body);
// True if the next case belongs to this shard (so that expensive preparation can
// be skipped); does not advance.
bool mine_next();
// Skip n cases of the enumeration (they are counted by number only).

// Record a failure of the current case (first one is kept, rest ignored).
void fail(const std::string &msg);
inline void check(bool ok, const char *msg) { if (!ok) fail(msg); }
inline void check(bool ok, const std::string &msg) { if (!ok) fail(msg); }
bool failed();

void transition(uint64_t n = 1);     // library operations executed
void state(uint64_t hash);           // distinct state seen (global set)
void nontrivial();                   // the current case is non-trivial
void note_trace();                   // a history/model trace replayed on the code

// Groups: counts per label for the evidence file (small number of labels).
void group(const char *label, uint64_t n = 1);

struct Hash {
  uint64_t h;
  Hash() : h(1469598103934665603ULL) {}
  void bytes(const void *p, size_t n) {
    const unsigned char *c = (const unsigned char *)p;
    for (size_t i = 0; i < n; i++) { h ^= c[i]; h *= 1099511628211ULL; }
    h ^= h >> 29;
  }
  template <class T> void add(const T &t) { bytes(&t, sizeof t); }
  void str(const std::string &s) { add(s.size()); bytes(s.data(), s.size()); }
};

// live bytes/blocks allocated by C++ new (see mc.cc)
extern long live_blocks;

struct Str {
  std::ostringstream s;
  template <class T> Str &operator<<(const T &t) { s << t; return *this; }
  operator std::string() const { return s.str(); }
};

template <class V> std::string seq(const V &v) {
  std::ostringstream s; s << "[";
  for (size_t i = 0; i < v.size(); i++) s << (i ? "," : "") << v[i];
  s << "]"; return s.str();
}

// All vectors of length n with digits in [0,base): f(vector)
template <class F> void all_words(int n, int base, F f) {
  std::vector<int> w(n, 0);
  for (;;) {
    f((const std::vector<int> &)w);
    int i = 0;
    while (i < n && ++w[i] == base) { w[i] = 0; i++; }
    if (i == n) return;
  }
}

extern std::string scratch;   // private scratch directory of this shard (may be "")
const std::string &need_scratch();

}  // namespace mc

void explore();   // supplied by the check
#define DESC [&]() -> std::string
#endif
