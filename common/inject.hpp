// Runs a tool under ptrace: records its system calls on files below a root
// directory, and optionally makes one of them fail, shortens it, or kills the
// process at it.  Events are named by (kind, file, occurrence) so that the
// names do not depend on how threads interleave.
#pragma once
#include <sys/ptrace.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <sys/user.h>
#include "util.hpp"
#include <memory>

namespace inject {

struct Event
{
  std::string kind, path; // path relative to the root
  int occ = 0;
  bool output = false;    // opened for writing
  size_t size = 0;        // bytes asked for
  std::string name() const { return kind + " " + path + " #" + std::to_string(occ); }
  bool operator<(const Event &o) const { return std::tie(path, kind, occ) < std::tie(o.path, o.kind, o.occ); }
};

struct Plan
{
  enum Action { None, Error, Short, KillBefore, KillAfter, Torn } action = None;
  std::string kind, path;
  int occ = 0;
  int error = 0;
  bool persistent = false; // all later events of the same kind and file, too
  size_t size = 0;         // for Short and Torn
  bool output = false;     // of a file opened for writing
};

struct Run : ToolRun
{
  std::vector<Event> events;
  bool hit = false;
};

class Tracer
{
  struct Thread { bool seen = false; int pending = -1; std::string path; bool out = false; long force = 0; bool forced = false, killAfter = false; bool isOpen = false, isClose = false; long fd = -1; };
  struct File { std::string path; bool out = false; };
  std::map<pid_t, Thread> threads;
  std::map<long, File> fds;
  std::map<std::string, int> occ;
  std::map<std::string, std::string> alias;
  std::string root, cwd, tmpPrefix;
  const std::vector<Plan> &plans;
  Run &run;
  pid_t leader = -1;

  static std::string readStr(pid_t t, unsigned long addr)
  {
    std::string s;
    while (s.size() < 4096)
    {
      char b[256];
      // do not read beyond the page
      size_t n = std::min<size_t>(sizeof b, 4096 - addr % 4096);
      iovec l{b, n}, r{(void *)addr, n};
      if (::process_vm_readv(t, &l, 1, &r, 1, 0) <= 0) break;
      void *z = memchr(b, 0, n);
      if (z) { s.append(b, (char *)z - b); return s; }
      s.append(b, n);
      addr += n;
    }
    return s;
  }
  // path below the root, or ""
  std::string below(std::string p)
  {
    if (p.empty()) return "";
    if (p[0] != '/') p = cwd + "/" + p;
    // normalize
    std::vector<std::string> parts;
    std::istringstream is(p);
    std::string e;
    while (std::getline(is, e, '/'))
    {
      if (e.empty() || e == ".") continue;
      if (e == "..") { if (!parts.empty()) parts.pop_back(); continue; }
      parts.push_back(e);
    }
    p.clear();
    for (auto &x : parts) p += "/" + x;
    if (p != root && p.rfind(root + "/", 0) != 0) return "";
    p = p.substr(root.size());
    if (p.empty()) p = "/";
    if (!tmpPrefix.empty() && p.rfind(tmpPrefix, 0) == 0)
    {
      // random names are numbered
      auto i = alias.find(p);
      if (i == alias.end()) i = alias.emplace(p, tmpPrefix + "#" + std::to_string(alias.size())).first;
      return i->second;
    }
    return p;
  }
  const Plan *matching(const Event &e) const
  {
    for (auto &p : plans)
      if (p.action != Plan::None && e.kind == p.kind && e.path == p.path && (p.persistent ? e.occ >= p.occ : e.occ == p.occ)) return &p;
    return nullptr;
  }

  void entry(pid_t t, Thread &th, const __ptrace_syscall_info &si)
  {
    const auto nr = si.entry.nr;
    const auto *a = si.entry.args;
    th = Thread();
    th.seen = true;
    std::string kind, path;
    bool out = false;
    size_t size = 0;
    int sizeArg = -1;
    auto byFd = [&](const char *k, long fd) {
      auto f = fds.find((int)fd);
      if (f == fds.end()) return;
      kind = k;
      path = f->second.path;
      out = f->second.out;
    };
    auto byPath = [&](const char *k, unsigned long addr) {
      const std::string p = below(readStr(t, addr));
      if (p.empty()) return;
      kind = k;
      path = p;
    };
    int flags = 0;
    switch (nr)
    {
    case SYS_open: flags = (int)a[1]; byPath("open", a[0]); th.isOpen = true; break;
    case SYS_creat: flags = O_WRONLY | O_CREAT | O_TRUNC; byPath("open", a[0]); th.isOpen = true; break;
    case SYS_openat: flags = (int)a[2]; byPath("open", a[1]); th.isOpen = true; break;
    case SYS_close: byFd("close", (long)a[0]); th.isClose = true; th.fd = (int)a[0]; break;
    case SYS_read: byFd("read", (long)a[0]); size = a[2]; sizeArg = 2; break;
    case SYS_pread64: byFd("read", (long)a[0]); size = a[2]; sizeArg = 2; break;
    case SYS_readv: byFd("read", (long)a[0]); break;
    case SYS_write: byFd("write", (long)a[0]); size = a[2]; sizeArg = 2; break;
    case SYS_pwrite64: byFd("write", (long)a[0]); size = a[2]; sizeArg = 2; break;
    case SYS_writev: byFd("write", (long)a[0]); break;
    case SYS_lseek: byFd("seek", (long)a[0]); break;
    case SYS_fstat: byFd("stat", (long)a[0]); break;
    case SYS_stat: case SYS_lstat: case SYS_access: byPath("stat", a[0]); break;
    case SYS_newfstatat:
      byPath("stat", a[1]);
      if (kind.empty() && readStr(t, a[1]).empty()) byFd("stat", (long)a[0]);
      break;
    case SYS_statx: case SYS_faccessat: case 439:
      byPath("stat", a[1]);
      if (kind.empty() && readStr(t, a[1]).empty()) byFd("stat", (long)a[0]);
      break;
    case SYS_unlink: case SYS_rmdir: byPath("unlink", a[0]); break;
    case SYS_unlinkat: byPath("unlink", a[1]); break;
    case SYS_rename: byPath("rename", a[0]); break;
    case SYS_renameat: case SYS_renameat2: byPath("rename", a[1]); break;
    case SYS_mkdir: byPath("mkdir", a[0]); break;
    case SYS_mkdirat: byPath("mkdir", a[1]); break;
    case SYS_truncate: byPath("truncate", a[0]); break;
    case SYS_ftruncate: byFd("truncate", (long)a[0]); break;
    case SYS_fsync: case SYS_fdatasync: byFd("sync", (long)a[0]); break;
    case SYS_getdents64: byFd("list", (long)a[0]); break;
    default: break;
    }
    if (th.isOpen && !kind.empty())
    {
      out = (flags & O_ACCMODE) != O_RDONLY;
      th.path = path;
      th.out = out;
      if (out) kind = "create";
    }
    if (kind.empty()) { th.isOpen = th.isClose = false; return; }
    Event e;
    e.kind = kind;
    e.path = path;
    e.output = out;
    e.size = size;
    e.occ = occ[kind + " " + path]++;
    run.events.push_back(e);
    const Plan *m = matching(e);
    if (!m) return;
    const Plan &plan = *m;
    run.hit = true;
    user_regs_struct regs;
    switch (plan.action)
    {
    case Plan::Error:
      ::ptrace(PTRACE_GETREGS, t, 0, &regs);
      // a close that fails has closed the file nevertheless
      if (nr != SYS_close)
      {
        regs.orig_rax = (unsigned long)-1;
        ::ptrace(PTRACE_SETREGS, t, 0, &regs);
      }
      th.forced = true;
      th.force = -plan.error;
      break;
    case Plan::Short:
    case Plan::Torn:
      if (sizeArg == 2 && size > 1)
      {
        ::ptrace(PTRACE_GETREGS, t, 0, &regs);
        regs.rdx = std::max<size_t>(1, std::min(size - 1, plan.size ? plan.size : size / 2));
        ::ptrace(PTRACE_SETREGS, t, 0, &regs);
      }
      else if (nr == SYS_writev)
      {
        // only the first vector; an empty first vector means nothing is shortened
        ::ptrace(PTRACE_GETREGS, t, 0, &regs);
        if (regs.rdx > 1) regs.rdx = 1;
        ::ptrace(PTRACE_SETREGS, t, 0, &regs);
      }
      if (plan.action == Plan::Torn) th.killAfter = true;
      break;
    case Plan::KillAfter: th.killAfter = true; break;
    case Plan::KillBefore: ::kill(leader, SIGKILL); break;
    default: break;
    }
  }

  void leave(pid_t t, Thread &th, const __ptrace_syscall_info &si)
  {
    long rv = (long)si.exit.rval;
    if (th.forced)
    {
      user_regs_struct regs;
      ::ptrace(PTRACE_GETREGS, t, 0, &regs);
      regs.rax = (unsigned long)th.force;
      ::ptrace(PTRACE_SETREGS, t, 0, &regs);
      if (!th.isClose) rv = th.force;
    }
    if (th.isOpen && rv >= 0) fds[rv] = {th.path, th.out};
    if (th.isClose) fds.erase(th.fd);
    if (th.killAfter) ::kill(leader, SIGKILL);
    th = Thread();
    th.seen = true;
  }

public:
  Tracer(const std::string &root, const std::string &cwd, const std::string &tmpPrefix, const std::vector<Plan> &p, Run &r) : root(root), cwd(cwd), tmpPrefix(tmpPrefix), plans(p), run(r) {}

  void go(const std::vector<std::string> &args, const std::string &dir, const std::string &in, double limit)
  {
    run.args = args;
    const std::string fi = dir + "/.in", fo = dir + "/.out", fe = dir + "/.err";
    spit(fi, in);
    std::vector<char *> av;
    for (auto &a : args) av.push_back(const_cast<char *>(a.c_str()));
    av.push_back(nullptr);
    fflush(nullptr);
    const pid_t pid = ::fork();
    if (pid == 0)
    {
      if (::chdir(cwd.c_str())) ::_exit(126);
      int i = ::open(fi.c_str(), O_RDONLY), o = ::open(fo.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0666), e = ::open(fe.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0666);
      ::dup2(i, 0);
      ::dup2(o, 1);
      ::dup2(e, 2);
      ::close_range(3, ~0u, 0);
      ::prctl(PR_SET_PDEATHSIG, SIGKILL);
      if (::ptrace(PTRACE_TRACEME, 0, 0, 0)) ::_exit(125);
      ::raise(SIGSTOP);
      ::execv(av[0], av.data());
      ::_exit(127);
    }
    leader = pid;
    int status = 0;
    ::waitpid(pid, &status, __WALL);
    if (!WIFSTOPPED(status)) throw std::runtime_error("ptrace is not possible here");
    if (::ptrace(PTRACE_SETOPTIONS, pid, 0, PTRACE_O_TRACESYSGOOD | PTRACE_O_TRACECLONE | PTRACE_O_TRACEEXEC | PTRACE_O_EXITKILL))
      throw std::runtime_error("ptrace options");
    threads[pid].seen = true;
    ::ptrace(PTRACE_SYSCALL, pid, 0, 0);
    const double end = mc::now() + limit;
    bool alive = true;
    // wakes up waitpid
    struct sigaction sa, old;
    memset(&sa, 0, sizeof sa);
    sa.sa_handler = [](int) {};
    ::sigaction(SIGALRM, &sa, &old);
    itimerval tick{{1, 0}, {1, 0}}, off{{0, 0}, {0, 0}};
    ::setitimer(ITIMER_REAL, &tick, nullptr);
    while (alive)
    {
      const pid_t t = ::waitpid(-1, &status, __WALL);
      if (mc::now() > end && !run.hung) { run.hung = true; ::kill(pid, SIGKILL); }
      if (t < 0 && errno == EINTR) continue;
      if (t < 0) break;
      if (WIFEXITED(status) || WIFSIGNALED(status))
      {
        threads.erase(t);
        if (t == pid)
        {
          alive = false;
          if (!run.hung && WIFEXITED(status)) { run.exited = true; run.code = WEXITSTATUS(status); }
          if (!run.hung && WIFSIGNALED(status)) run.sig = WTERMSIG(status);
        }
        continue;
      }
      if (!WIFSTOPPED(status)) continue;
      const int sig = WSTOPSIG(status);
      int deliver = 0;
      Thread &th = threads[t];
      if (sig == (SIGTRAP | 0x80))
      {
        __ptrace_syscall_info si;
        memset(&si, 0, sizeof si);
        if (::ptrace((__ptrace_request)PTRACE_GET_SYSCALL_INFO, t, sizeof si, &si) > 0)
        {
          if (si.op == PTRACE_SYSCALL_INFO_ENTRY) entry(t, th, si);
          else if (si.op == PTRACE_SYSCALL_INFO_EXIT) leave(t, th, si);
        }
      }
      else if (sig == SIGTRAP && (status >> 16)) {} // clone, exec
      else if (sig == SIGSTOP && !th.seen) th.seen = true; // a new thread
      else if (sig != SIGTRAP) deliver = sig;
      ::ptrace(PTRACE_SYSCALL, t, 0, deliver);
    }
    ::setitimer(ITIMER_REAL, &off, nullptr);
    ::sigaction(SIGALRM, &old, nullptr);
    // reap the remaining threads
    while (::waitpid(-1, &status, __WALL | WNOHANG) > 0) {}
    run.out = slurp(fo);
    run.err = slurp(fe);
  }
};

inline Run traced(const std::vector<std::string> &args, const std::string &root, const std::string &dir, const std::vector<Plan> &plans, const std::string &cwd, const std::string &tmpPrefix = "",
                  const std::string &in = "", double limit = 30)
{
  Run r;
  Tracer t(root, cwd, tmpPrefix, plans, r);
  t.go(args, dir, in, limit);
  return r;
}

} // namespace inject
