// Processes under a controlled scheduler: every child stops before each of its
// file-system calls, which the explorer then executes, alters, fails or never
// lets happen.  Only processes forked here are traced.
#ifndef VERIF_TRACE_H
#define VERIF_TRACE_H
#include <cerrno>
#include <csignal>
#include <cstddef>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <functional>
#include <string>
#include <sys/file.h>
#include <sys/ptrace.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <sys/user.h>
#include <sys/wait.h>
#include <unistd.h>

#include "mc.h"
namespace mc { void detach(); }

namespace tr {

enum { MARK = 9999 };   // a call that does not exist: tells the explorer something
inline void mark(long what, long arg = 0) { syscall(MARK, what, arg); }

struct Call { long nr; unsigned long a[6]; Call() : nr(-1) { memset(a, 0, sizeof a); } };

enum Class { INVISIBLE, LOOK, CHANGE, SLEEP, MARKER };
// what a call is about
inline Class classify(const Call &c) {
  int fd = (int)c.a[0];
  switch (c.nr) {
  case MARK: return MARKER;
  case SYS_nanosleep: case SYS_clock_nanosleep: case SYS_sched_yield: case SYS_pause: return SLEEP;
  case SYS_poll: case SYS_ppoll: case SYS_select: case SYS_pselect6: return SLEEP;
  case SYS_access: case SYS_faccessat: case 439: case SYS_stat: case SYS_lstat: case SYS_newfstatat: case SYS_statx: case SYS_readlink: case SYS_readlinkat: return LOOK;
  case SYS_read: case SYS_pread64: case SYS_readv: case SYS_fstat: case SYS_getdents64: return fd > 2 ? LOOK : INVISIBLE;
  case SYS_open: case SYS_openat: case SYS_creat: case 437: case SYS_unlink: case SYS_unlinkat: case SYS_rename: case SYS_renameat: case SYS_renameat2:
  case SYS_link: case SYS_linkat: case SYS_symlink: case SYS_symlinkat: case SYS_mkdir: case SYS_mkdirat: case SYS_rmdir: case SYS_truncate: case SYS_chmod: case SYS_fchmodat: return CHANGE;
  case SYS_write: case SYS_pwrite64: case SYS_writev: case SYS_pwritev: case SYS_ftruncate: case SYS_close: case SYS_flock: case SYS_fsync: case SYS_fdatasync: case SYS_fallocate: return fd > 2 ? CHANGE : INVISIBLE;
  case SYS_fcntl: { int k = (int)c.a[1]; return k == F_SETLK || k == F_SETLKW || k == 37 || k == 38 ? CHANGE : INVISIBLE; }   // OFD locks
  case SYS_lseek: return fd > 2 && (int)c.a[2] == SEEK_END ? LOOK : INVISIBLE;
  case SYS_sendfile: case SYS_copy_file_range: case SYS_splice: return CHANGE;
  }
  return INVISIBLE;
}
inline const char *name(long nr) {
  switch (nr) {
#define N(x) case SYS_##x: return #x;
  N(access) N(faccessat) N(stat) N(lstat) N(newfstatat) N(statx) N(read) N(readv) N(fstat) N(open) N(openat) N(creat) N(unlink) N(unlinkat) N(rename) N(renameat) N(renameat2)
  N(link) N(mkdir) N(mkdirat) N(rmdir) N(truncate) N(ftruncate) N(write) N(writev) N(pwrite64) N(close) N(flock) N(fsync) N(fcntl) N(nanosleep) N(clock_nanosleep) N(sched_yield)
#undef N
  case 439: return "faccessat2"; case 437: return "openat2"; case MARK: return "mark";
  }
  return "call";
}

class Proc {
public:
  pid_t pid; bool alive, at_entry; Call call; int status; long result;
  Proc() : pid(-1), alive(false), at_entry(false), status(0), result(0), changed(false), poked(0), poked_old(0) {}
  ~Proc() { kill(); }
  // runs f in a child; stops before its first visible call
  void start(const std::function<int()> &f) {
    pid = fork();
    if (pid == 0) {
      mc::detach();
      ptrace(PTRACE_TRACEME, 0, 0, 0);
      raise(SIGSTOP);
      int c = 99;
      try { c = f(); } catch (...) { c = 97; }
      _exit(c);
    }
    alive = pid > 0; at_entry = false;
    int st; if (alive && waitpid(pid, &st, __WALL) == pid && WIFSTOPPED(st)) ptrace(PTRACE_SETOPTIONS, pid, 0, PTRACE_O_TRACESYSGOOD | PTRACE_O_EXITKILL);
    else { alive = false; status = -1; mc::fail("harness: the child cannot be traced"); }
  }
  std::string text(int k) const { return text_at(call.a[k]); }
  std::string text_at(unsigned long addr) const {   // a string in the memory of our own child
    std::string s;
    for (int i = 0; i < 64; i++) { errno = 0; long w = ptrace(PTRACE_PEEKDATA, pid, addr + 8 * i, 0); if (errno) break; const char *p = (const char *)&w; for (int j = 0; j < 8; j++) { if (!p[j]) return s; s += p[j]; } }
    return s;
  }
  std::string path() const {   // the path a call names ("" if none)
    switch (call.nr) {
    case SYS_access: case SYS_stat: case SYS_lstat: case SYS_open: case SYS_creat: case SYS_unlink: case SYS_rename: case SYS_mkdir: case SYS_rmdir: case SYS_truncate: case SYS_link: return text(0);
    case SYS_faccessat: case 439: case SYS_newfstatat: case SYS_statx: case SYS_openat: case 437: case SYS_unlinkat: case SYS_renameat: case SYS_renameat2: case SYS_mkdirat: return text(1);
    }
    return "";
  }
  // continues to the entry of the next visible call; false when the child ended
  bool advance(const std::function<void(long, long)> &marker = std::function<void(long, long)>()) {
    while (alive) {
      if (!to_stop()) return false;
      if (!entry()) continue;
      Class c = classify(call);
      if (c == MARKER && call.a[0] >= 100) { at_entry = true; return true; }   // a stop of its own
      if (c == MARKER) { if (marker) marker((long)call.a[0], (long)call.a[1]); at_entry = false; continue; }
      if (c == INVISIBLE) { at_entry = false; continue; }
      at_entry = true;
      return true;
    }
    return false;
  }
  // executes the call the child is stopped at; false if the child ended in it
  bool execute() {
    at_entry = false; if (!to_stop()) return false;
    if (changed) {   // the child finds its registers and memory as it left them
      struct user_regs_struct r; ptrace(PTRACE_GETREGS, pid, 0, &r); result = (long)r.rax;
      r.rdi = orig.a[0]; r.rsi = orig.a[1]; r.rdx = orig.a[2]; r.r10 = orig.a[3]; r.r8 = orig.a[4]; r.r9 = orig.a[5]; ptrace(PTRACE_SETREGS, pid, 0, &r);
      if (poked) ptrace(PTRACE_POKEDATA, pid, poked, poked_old);
      changed = false; poked = 0; return true;
    }
    result = get_result(); return true;
  }
  // the call does not happen and returns this
  bool replace(long ret) {
    struct user_regs_struct r; ptrace(PTRACE_GETREGS, pid, 0, &r); r.orig_rax = (unsigned long)-1; ptrace(PTRACE_SETREGS, pid, 0, &r);
    at_entry = false; if (!to_stop()) return false;
    ptrace(PTRACE_GETREGS, pid, 0, &r); r.rax = ret; ptrace(PTRACE_SETREGS, pid, 0, &r); result = ret;
    return true;
  }
  // arguments of the pending call only
  void set_arg(int k, unsigned long v) {
    if (!changed) { changed = true; orig = call; }
    struct user_regs_struct r; ptrace(PTRACE_GETREGS, pid, 0, &r);
    unsigned long long *p[] = {&r.rdi, &r.rsi, &r.rdx, &r.r10, &r.r8, &r.r9}; *p[k] = v; ptrace(PTRACE_SETREGS, pid, 0, &r); call.a[k] = v;
  }
  // bytes the pending write would write (the first two pieces of a writev)
  long write_length() { return call.nr == SYS_writev ? peek(call.a[1] + 8) + (call.a[2] > 1 ? peek(call.a[1] + 24) : 0) : (long)call.a[2]; }
  // the pending write only writes the first n bytes
  void cut_write(long n) {
    if (call.nr != SYS_writev) { set_arg(2, n); return; }
    unsigned long v = call.a[1]; long first = peek(v + 8);
    if (n <= first) { set_arg(2, 1); poke(v + 8, n); } else { set_arg(2, 2); poke(v + 24, n - first); }
  }
  long peek(unsigned long addr) { return ptrace(PTRACE_PEEKDATA, pid, addr, 0); }
  // the call just executed will be made again
  void again(const Call &orig) {
    struct user_regs_struct r; ptrace(PTRACE_GETREGS, pid, 0, &r); r.rax = orig.nr; r.rip -= 2;
    r.rdi = orig.a[0]; r.rsi = orig.a[1]; r.rdx = orig.a[2]; r.r10 = orig.a[3]; ptrace(PTRACE_SETREGS, pid, 0, &r);
  }
  void poke(unsigned long addr, long v) { if (!changed) { changed = true; orig = call; } poked = addr; poked_old = ptrace(PTRACE_PEEKDATA, pid, addr, 0); ptrace(PTRACE_POKEDATA, pid, addr, v); }
  void kill() { if (alive) { ::kill(pid, SIGKILL); int st; while (waitpid(pid, &st, __WALL) == pid && !WIFEXITED(st) && !WIFSIGNALED(st)) {} alive = false; status = -9; } }
  bool ended_well() const { return !alive && WIFEXITED(status) && WEXITSTATUS(status) == 0; }
private:
  bool changed; Call orig; unsigned long poked; long poked_old;
  bool to_stop() {
    int sig = 0;
    for (;;) {
      if (ptrace(PTRACE_SYSCALL, pid, 0, sig) < 0) { alive = false; status = -1; return false; }
      int st;
      if (waitpid(pid, &st, __WALL) != pid) { alive = false; status = -1; return false; }
      if (WIFEXITED(st) || WIFSIGNALED(st)) { alive = false; status = st; return false; }
      if (WSTOPSIG(st) == (SIGTRAP | 0x80)) return true;
      sig = WSTOPSIG(st) == SIGTRAP ? 0 : WSTOPSIG(st);
    }
  }
  bool entry() {
    struct __ptrace_syscall_info i; memset(&i, 0, sizeof i);
    long n = ptrace((enum __ptrace_request)PTRACE_GET_SYSCALL_INFO, pid, sizeof i, &i);
    if (n <= 0 || i.op != PTRACE_SYSCALL_INFO_ENTRY) return false;
    call.nr = i.entry.nr; for (int k = 0; k < 6; k++) call.a[k] = i.entry.args[k];
    return true;
  }
  long get_result() { struct user_regs_struct r; ptrace(PTRACE_GETREGS, pid, 0, &r); return (long)r.rax; }
  Proc(const Proc &); void operator=(const Proc &);
};

}  // namespace tr
#endif
