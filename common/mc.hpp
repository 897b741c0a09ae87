// mc.hpp - exhaustive exploration of a bounded choice tree over real code.
//
// A harness describes one execution as a function of the choices it draws from
// a Ctx.  The explorer enumerates ALL sequences of choices depth first (no
// sampling).  W worker processes share the tree: each enumerates the prefixes
// up to Ctx::shard() and executes only those whose hash belongs to it.
//
// Violations are never reported unseen: every failure, crash and hang is
// replayed alone in a fresh process first.
#pragma once
#include <algorithm>
#include <atomic>
#include <chrono>
#include <cinttypes>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <unordered_set>
#include <vector>
#include <dirent.h>
#include <fcntl.h>
#include <ftw.h>
#include <poll.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <unistd.h>

namespace mc {

struct Skip {};
struct Fail { std::string sig, msg; };
struct Diverged { std::string msg; };

inline double now()
{
  using namespace std::chrono;
  return duration<double>(steady_clock::now().time_since_epoch()).count();
}

inline uint64_t mix(uint64_t h, uint64_t v)
{
  h ^= v + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2);
  h *= 0xff51afd7ed558ccdULL;
  h ^= h >> 33;
  return h;
}
inline uint64_t hashOf(const void *p, size_t n, uint64_t h = 0xcbf29ce484222325ULL)
{
  const unsigned char *b = (const unsigned char *)p;
  for (size_t i = 0; i < n; ++i) { h ^= b[i]; h *= 0x100000001b3ULL; }
  return mix(h, n);
}
inline uint64_t hashOf(const std::string &s) { return hashOf(s.data(), s.size()); }

inline std::string jstr(const std::string &s)
{
  std::string o = "\"";
  char b[8];
  for (unsigned char c : s)
  {
    if (c == '"' || c == '\\') { o += '\\'; o += char(c); }
    else if (c == '\n') o += "\\n";
    else if (c < 32 || c >= 127) { snprintf(b, sizeof b, "\\u%04x", c); o += b; }
    else o += char(c);
  }
  return o + "\"";
}

constexpr size_t MaxDepth = 20000;
struct Slot
{
  std::atomic<uint64_t> beat;
  std::atomic<uint64_t> execs;
  std::atomic<uint32_t> depth;
  uint32_t path[MaxDepth];
};

struct Options
{
  std::string tier = "quick", out, replay, prop, scratch, known;
  unsigned workers = 0;
  double budget = 0; // seconds for all explorations together; 0: none
  double started = now();
  std::map<std::string, std::string> args;
  bool thorough() const { return tier == "thorough"; }
  std::string arg(const std::string &k, const std::string &d = "") const
  {
    auto i = args.find(k);
    return i == args.end() ? d : i->second;
  }
};
inline Options opt;

struct Stats
{
  uint64_t execs = 0, transitions = 0, skipped = 0, maxDepth = 0;
  bool capped = false;
  std::unordered_set<uint64_t> states, outcomes;
  std::vector<std::string> samples;
  std::map<std::string, uint64_t> counters;
};

class Ctx
{
public:
  struct E { uint32_t c, n; };
  std::vector<E> stack;
  size_t pos = 0;
  unsigned me = 0, W = 1;
  bool sharded = false, replaying = false, verbose = false;
  Slot *slot = nullptr;
  Stats *st = nullptr;
  std::ostringstream noteS;
  std::vector<std::string> notes;

  // One of n alternatives; all are explored.
  uint32_t choose(size_t n)
  {
    if (n == 0) throw Diverged{"choose(0)"};
    if (n == 1) return 0;
    if (pos < stack.size())
    {
      if (stack[pos].n == 0) stack[pos].n = (uint32_t)n; // taken from a crashed worker: arity unknown
      if (stack[pos].n != n)
        throw Diverged{"replay diverged at " + std::to_string(pos) + ": " + std::to_string(stack[pos].n) + " != " + std::to_string(n)};
      return stack[pos++].c;
    }
    if (stack.size() >= MaxDepth) throw Diverged{"too deep"};
    stack.push_back({0, (uint32_t)n});
    if (slot) { slot->path[pos] = 0; slot->depth = (uint32_t)stack.size(); }
    ++pos;
    return 0;
  }
  bool flag() { return choose(2) == 1; }
  template <class C> auto pick(const C &v) -> decltype(v[0]) { return v[choose(v.size())]; }

  // End of the cheap prefix: only one worker goes on with this prefix.
  void shard()
  {
    if (sharded) return;
    sharded = true;
    if (replaying) return;
    uint64_t h = 1469598103934665603ULL;
    for (size_t i = 0; i < pos; ++i) h = mix(h, stack[i].c + 1);
    if (h % W != me) throw Skip{};
  }
  // From here on the work is divided by the first k deviations (choices other
  // than the first alternative): all workers go through the paths with fewer.
  void softShard(unsigned k)
  {
    if (sharded) return;
    sharded = true;
    softPos = pos;
    softK = k;
  }
  static constexpr size_t None = ~size_t(0);
  static unsigned deviations(const std::vector<E> &s, size_t from)
  {
    unsigned d = 0;
    for (size_t i = from; i < s.size(); ++i) d += s[i].c != 0;
    return d;
  }
  static bool owned(const std::vector<E> &s, unsigned me, unsigned W)
  {
    uint64_t h = 1469598103934665603ULL;
    size_t n = s.size();
    while (n && !s[n - 1].c) --n;
    for (size_t i = 0; i < n; ++i) h = mix(h, s[i].c + 1);
    return (h >> 7) % W == me;
  }
  size_t softPos = None;
  unsigned softK = 0;
  [[noreturn]] void fail(const std::string &sig, const std::string &msg) { throw Fail{sig, msg}; }
  void check(bool ok, const std::string &sig, const std::string &msg) { if (!ok) fail(sig, msg); }
  void step(uint64_t n = 1) { st->transitions += n; if (slot) slot->beat.fetch_add(1, std::memory_order_relaxed); }
  void state(uint64_t h) { if (st->states.size() < 6000000) st->states.insert(h); }
  void outcome(const std::string &s) { if (st->outcomes.size() < 1000000) st->outcomes.insert(hashOf(s)); }
  void count(const std::string &k, uint64_t n = 1) { st->counters[k] += n; }
  void note(const std::string &s)
  {
    if (replaying || st->samples.size() < 4) notes.push_back(s);
    if (verbose) fprintf(stderr, "  %s\n", s.c_str());
  }
  bool wantNotes() const { return replaying || st->samples.size() < 4; }
  std::string dir() const { return opt.scratch + "/w" + std::to_string(me); } // private scratch directory
};

using Body = std::function<void(Ctx &)>;

struct Violation { std::string explore, sig, msg, path, notes; bool known = false; };

struct Report
{
  std::string name;
  Stats st;
  bool exhaustive = true;
  double wall = 0;
};

inline std::vector<Report> reports;
inline std::vector<Violation> violations;
inline std::set<std::string> knownSigs; // "explore sig"
inline std::map<std::string, Violation> knownHits;

inline std::string pathText(const std::vector<Ctx::E> &s)
{
  std::string r;
  for (auto &e : s) r += (r.empty() ? "" : ",") + std::to_string(e.c) + "/" + std::to_string(e.n);
  return r;
}

inline std::vector<Ctx::E> parsePath(const std::string &path)
{
  std::vector<Ctx::E> p;
  std::istringstream is(path.substr(0, path.find(' ')));
  std::string el;
  while (std::getline(is, el, ','))
  {
    size_t s = el.find('/');
    p.push_back({(uint32_t)std::stoul(el), (uint32_t)std::stoul(el.substr(s + 1))});
  }
  return p;
}

inline void wrAll(int fd, const std::string &s)
{
  size_t o = 0;
  while (o < s.size())
  {
    ssize_t n = ::write(fd, s.data() + o, s.size() - o);
    if (n <= 0) { if (errno == EINTR) continue; break; }
    o += (size_t)n;
  }
}

inline int rmOne(const char *p, const struct stat *, int, struct FTW *) { return ::remove(p); }
inline void rmTree(const std::string &p)
{
  if (p.size() < 6) return;
  ::nftw(p.c_str(), rmOne, 16, FTW_DEPTH | FTW_PHYS);
}
inline void freshDir(const std::string &p)
{
  rmTree(p);
  ::mkdir(p.c_str(), 0777);
}

inline void hush(const std::string &errFile)
{
  int n = ::open("/dev/null", O_RDWR);
  ::dup2(n, 0);
  ::dup2(n, 1);
  ::close(n);
  int e = ::open(errFile.c_str(), O_CREAT | O_TRUNC | O_WRONLY | O_APPEND, 0666);
  ::dup2(e, 2);
  ::close(e);
}

inline std::string readTail(const std::string &f, size_t max = 3000)
{
  std::ifstream i(f, std::ios::binary);
  std::string s((std::istreambuf_iterator<char>(i)), {});
  // a sanitizer report starts with its headline; prefer the head then
  size_t h = s.find("ERROR: AddressSanitizer");
  if (h != std::string::npos) return s.substr(h, max);
  return s.size() > max ? s.substr(s.size() - max) : s;
}

// Runs one execution; returns "" or "sig\tmsg".
inline bool runOne(Ctx &c, const Body &body, std::string &sig, std::string &msg)
{
  try
  {
    body(c);
    return true;
  }
  catch (const Fail &f) { sig = f.sig; msg = f.msg; return false; }
  catch (const std::exception &e) { sig = "exception"; msg = std::string("unexpected exception: ") + e.what(); return false; }
}

// Patience with a process and those below it: time in which they could run but
// got no processor does not count, so that a busy machine is no hang.
struct Patience
{
  pid_t root;
  double limit, spent = 0, first = now(), last = first;
  unsigned long cpu = ~0ul;
  Patience(pid_t root, double limit) : root(root), limit(limit) {}
  bool over() // to be asked once a second or more often
  {
    const double t = now(), dt = t - last;
    if (dt < 0.5) return false;
    last = t;
    std::map<long, long> parent;
    std::map<long, unsigned long> used;
    auto stat = [](const std::string &file, char &state, long &ppid, unsigned long &ticks) {
      std::ifstream f(file);
      std::string l;
      if (!std::getline(f, l)) return false;
      const size_t e = l.rfind(')');
      unsigned long u = 0, k = 0;
      if (e == std::string::npos || sscanf(l.c_str() + e + 1, " %c %ld %*d %*d %*d %*d %*u %*u %*u %*u %*u %lu %lu", &state, &ppid, &u, &k) != 4) return false;
      ticks = u + k;
      return true;
    };
    if (DIR *d = opendir("/proc"))
    {
      while (dirent *e = readdir(d))
      {
        char state;
        long pp;
        unsigned long ticks;
        if (e->d_name[0] < '1' || e->d_name[0] > '9' || !stat(std::string("/proc/") + e->d_name + "/stat", state, pp, ticks)) continue;
        parent[atol(e->d_name)] = pp;
        used[atol(e->d_name)] = ticks;
      }
      closedir(d);
    }
    unsigned long sum = 0;
    bool busy = false;
    for (auto &x : used)
    {
      long p = x.first;
      for (int i = 0; i < 50 && p > 1 && p != root; ++i) { auto q = parent.find(p); p = q == parent.end() ? 0 : q->second; }
      if (p != root) continue;
      sum += x.second;
      const std::string tasks = "/proc/" + std::to_string(x.first) + "/task";
      if (DIR *d = opendir(tasks.c_str()))
      {
        while (dirent *e = readdir(d))
        {
          char state;
          long pp;
          unsigned long ticks;
          if (e->d_name[0] != '.' && stat(tasks + "/" + e->d_name + "/stat", state, pp, ticks) && (state == 'R' || state == 'D')) busy = true;
        }
        closedir(d);
      }
    }
    const double ran = cpu == ~0ul || sum < cpu ? 0 : double(sum - cpu) / double(sysconf(_SC_CLK_TCK));
    cpu = sum;
    if (!busy || ran > 0.3 * dt) spent += std::min(dt, 2.0);
    return spent > limit || t - first > std::max(300.0, 3 * limit);
  }
};

struct ReplayResult { bool failed = false; std::string sig, msg, notes, path; };

// Executes a path alone in a fresh process.
inline ReplayResult replayAlone(const Body &body, const std::vector<Ctx::E> &path, double limit, bool verbose = false)
{
  ReplayResult r;
  int fd[2];
  if (pipe2(fd, O_CLOEXEC)) abort();
  const std::string err = opt.scratch + "/replay.err";
  pid_t pid = fork();
  if (pid == 0)
  {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    setpgid(0, 0);
    ::close(fd[0]);
    if (!verbose) hush(err);
    Stats st;
    Ctx c;
    c.me = 99;
    c.st = &st;
    c.replaying = true;
    c.verbose = verbose;
    c.stack = path;
    freshDir(c.dir());
    std::string sig, msg, out;
    try
    {
      bool ok = runOne(c, body, sig, msg);
      std::string notes;
      for (auto &n : c.notes) notes += n + "\n";
      out = (ok ? "O" : "F") + std::string("\t") + sig + "\n" + msg + "\n\001" + pathText(c.stack) + "\001" + notes;
    }
    catch (const Diverged &d) { out = "D\t" + d.msg; }
    catch (const Skip &) { out = "O\t\n\001\001"; }
    wrAll(fd[1], out);
    ::_exit(0);
  }
  setpgid(pid, pid);
  ::close(fd[1]);
  std::string got;
  Patience patience(pid, limit);
  bool hang = false;
  for (;;)
  {
    if (patience.over()) { hang = true; break; }
    pollfd p{fd[0], POLLIN, 0};
    int n = poll(&p, 1, 1000);
    if (n > 0)
    {
      char b[65536];
      ssize_t k = ::read(fd[0], b, sizeof b);
      if (k <= 0) break;
      got.append(b, (size_t)k);
    }
  }
  ::close(fd[0]);
  if (hang) ::kill(-pid, SIGKILL);
  int status = 0;
  waitpid(pid, &status, 0);
  ::kill(-pid, SIGKILL);
  if (hang) { r.failed = true; r.sig = "hang"; r.msg = "no progress within " + std::to_string(int(limit)) + " s"; return r; }
  if (got.empty())
  {
    r.failed = true;
    r.sig = "crash";
    r.msg = WIFSIGNALED(status) ? "killed by signal " + std::to_string(WTERMSIG(status)) : "exited with " + std::to_string(WEXITSTATUS(status));
    r.msg += "\n" + readTail(err);
    return r;
  }
  size_t sep = got.find('\001');
  if (sep != std::string::npos)
  {
    size_t sep2 = got.find('\001', sep + 1);
    r.path = got.substr(sep + 1, sep2 - sep - 1);
    r.notes = got.substr(sep2 + 1);
    got.resize(sep);
  }
  if (got[0] == 'D') { fprintf(stderr, "ERROR: %s\n", got.c_str()); r.sig = "diverged"; return r; }
  if (got[0] == 'F')
  {
    r.failed = true;
    size_t nl = got.find('\n');
    r.sig = got.substr(2, nl - 2);
    r.msg = got.substr(nl + 1);
  }
  return r;
}

inline bool stopAll = false;

struct ExploreOpts
{
  double hang = 20;        // seconds without a step
  double share = 1e9;      // seconds for this exploration
  unsigned workers = 0;
  std::function<void(unsigned)> init; // once per worker
};

inline void explore(const std::string &name, const Body &body, ExploreOpts eo = {})
{
  if (stopAll) return;
  if (!opt.replay.empty())
  {
    // replay file: line 1 explore name, line 2 path
    std::ifstream f(opt.replay);
    std::string line, ename, path;
    while (std::getline(f, line))
    {
      if (line.rfind("explore=", 0) == 0) ename = line.substr(8);
      if (line.rfind("path=", 0) == 0) path = line.substr(5);
    }
    if (ename != name) return;
    std::vector<Ctx::E> p = parsePath(path);
    if (eo.init) eo.init(99);
    ReplayResult r = replayAlone(body, p, 120, true);
    printf("replay of %s: %s %s\n%s\n", name.c_str(), r.failed ? "FAILED" : "ok", r.sig.c_str(), r.msg.c_str());
    if (r.failed) violations.push_back({name, r.sig, r.msg, path, r.notes, false});
    return;
  }
  const double t0 = now();
  double deadline = t0 + eo.share;
  if (opt.budget > 0) deadline = std::min(deadline, opt.started + opt.budget);
  const unsigned W = eo.workers ? eo.workers : opt.workers;
  Slot *slots = (Slot *)mmap(nullptr, sizeof(Slot) * W, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  struct Worker { pid_t pid = -1; int fd = -1; std::string buf; uint64_t beat = 0; double seen = 0; bool done = false; std::vector<Ctx::E> start; bool confirm = false, quit = false, violated = false, again = false; double patience = 1; std::string sig, path; };
  std::vector<Worker> ws(W);
  Report rep;
  rep.name = name;

  auto launch = [&](unsigned w) {
    int fd[2];
    if (pipe2(fd, O_CLOEXEC)) abort();
    fflush(nullptr);
    pid_t pid = fork();
    if (pid == 0)
    {
      prctl(PR_SET_PDEATHSIG, SIGKILL);
      setpgid(0, 0);
      ::close(fd[0]);
      hush(opt.scratch + "/w" + std::to_string(w) + ".err");
      Stats st;
      std::vector<Ctx::E> stack = ws[w].start;
      Ctx probe;
      probe.me = w;
      freshDir(probe.dir());
      if (eo.init) eo.init(w);
      bool more = true;
      std::string out;
      while (more)
      {
        if (now() > deadline) { st.capped = true; break; }
        Ctx c;
        c.me = w;
        c.W = W;
        c.slot = &slots[w];
        c.st = &st;
        c.stack.swap(stack);
        for (size_t i = 0; i < c.stack.size(); ++i) c.slot->path[i] = c.stack[i].c;
        c.slot->depth = (uint32_t)c.stack.size();
        c.slot->beat.fetch_add(1);
        bool counted = true;
        const uint64_t before = st.transitions;
        std::string sig, msg;
        try
        {
          bool ok = runOne(c, body, sig, msg);
          if (!c.sharded && w != 0) counted = false;
          if (c.softPos != Ctx::None && Ctx::deviations(c.stack, c.softPos) < c.softK) counted = Ctx::owned(c.stack, w, W);
          if (!ok && counted)
          {
            std::string notes;
            for (auto &n : c.notes) notes += n + "\n";
            out = "V\t" + sig + "\t" + pathText(c.stack) + "\t" + std::to_string(slots[w].execs.load()) + "\n" + msg + "\n\001\n";
            wrAll(fd[1], out);
            if (!knownSigs.count(name + " " + sig)) { ::_exit(0); }
          }
        }
        catch (const Skip &) { counted = false; ++st.skipped; }
        catch (const Diverged &d)
        {
          wrAll(fd[1], "E\t" + d.msg + "\n\001\n");
          ::_exit(0);
        }
        if (!counted) st.transitions = before;
        if (counted)
        {
          ++st.execs;
          slots[w].execs.fetch_add(1);
          st.maxDepth = std::max<uint64_t>(st.maxDepth, c.pos);
          if (st.samples.size() < 4 && (st.execs == 1 || st.execs == 10 || st.execs == 100 || st.execs == 1000))
          {
            std::string s;
            for (auto &n : c.notes) s += (s.empty() ? "" : "; ") + n;
            if (s.empty()) s = "choices (index/alternatives): " + pathText(c.stack);
            st.samples.push_back(s.substr(0, 600));
          }
        }
        stack.swap(c.stack);
        stack.resize(std::min(stack.size(), c.pos)); // choices beyond the end of a skipped prefix
        for (;;)
        {
          while (!stack.empty() && stack.back().c + 1 >= stack.back().n) stack.pop_back();
          if (stack.empty()) { more = false; break; }
          ++stack.back().c;
          if (c.softPos != Ctx::None && stack.size() > c.softPos && Ctx::deviations(stack, c.softPos) == c.softK && !Ctx::owned(stack, w, W)) continue;
          break;
        }
      }
      std::ostringstream os;
      os << "R\t" << st.execs << ' ' << st.transitions << ' ' << st.skipped << ' ' << st.maxDepth << ' ' << st.capped << '\n';
      for (auto &s : st.samples) os << "S" << s << '\n';
      for (auto &k : st.counters) os << "K" << k.second << ' ' << k.first << '\n';
      os << "\001\n";
      wrAll(fd[1], os.str());
      {
        std::ofstream f(opt.scratch + "/states." + std::to_string(w), std::ios::binary);
        for (uint64_t h : st.states) f.write((char *)&h, 8);
        std::ofstream g(opt.scratch + "/outcomes." + std::to_string(w), std::ios::binary);
        for (uint64_t h : st.outcomes) g.write((char *)&h, 8);
      }
      wrAll(fd[1], "Q\n\001\n");
      ::_exit(0);
    }
    setpgid(pid, pid);
    ::close(fd[1]);
    ws[w].pid = pid;
    ws[w].fd = fd[0];
    ws[w].buf.clear();
    ws[w].beat = 0;
    ws[w].seen = now();
    ws[w].done = ws[w].quit = ws[w].violated = ws[w].again = false;
  };
  for (unsigned w = 0; w < W; ++w) { slots[w].execs = 0; launch(w); }

  auto record = [&](const std::string &sig, const std::string &msg, const std::string &path, const std::string &notes) {
    Violation v{name, sig, msg, path, notes, false};
    if (knownSigs.count(name + " " + sig)) { v.known = true; knownHits[name + " " + sig] = v; return; }
    for (auto &o : violations) if (o.explore == name && o.sig == sig) return;
    violations.push_back(v);
    stopAll = true;
  };
  bool fatal = false;
  auto error = [&](const std::string &m) {
    fprintf(stderr, "ERROR: %s: %s\n", name.c_str(), m.c_str());
    violations.push_back({name, "ERROR", m, "", "", false});
    fatal = stopAll = true;
  };
  while (!fatal)
  {
    std::vector<pollfd> pf;
    std::vector<unsigned> idx;
    for (unsigned w = 0; w < W; ++w)
      if (!ws[w].done) { pf.push_back({ws[w].fd, POLLIN, 0}); idx.push_back(w); }
    if (pf.empty()) break;
    poll(pf.data(), pf.size(), 200);
    for (size_t i = 0; i < pf.size() && !fatal; ++i)
    {
      Worker &k = ws[idx[i]];
      const unsigned w = idx[i];
      uint64_t b = slots[w].beat.load();
      if (b != k.beat) { k.beat = b; k.seen = now(); }
      bool ended = false, crashed = false, hung = false;
      int status = 0;
      if (pf[i].revents)
      {
        char bufr[65536];
        ssize_t n = ::read(k.fd, bufr, sizeof bufr);
        if (n > 0) k.buf.append(bufr, (size_t)n);
        else { ended = true; waitpid(k.pid, &status, 0); }
      }
      else if (now() - k.seen > eo.hang * k.patience)
      {
        hung = ended = true;
        ::kill(-k.pid, SIGKILL);
        waitpid(k.pid, &status, 0);
      }
      bool &quit = k.quit, &violated = k.violated, &again = k.again;
      size_t sep;
      while ((sep = k.buf.find("\n\001\n")) != std::string::npos)
      {
        std::string m = k.buf.substr(0, sep);
        k.buf.erase(0, sep + 3);
        if (m[0] == 'Q') quit = true;
        else if (m[0] == 'E') error(m);
        else if (m[0] == 'V')
        {
          violated = true;
          size_t nl = m.find('\n');
          std::string head = m.substr(2, nl - 2), msg = nl == std::string::npos ? "" : m.substr(nl + 1);
          size_t t1 = head.find('\t'), t2 = head.find('\t', t1 + 1);
          std::string sig = head.substr(0, t1), path = head.substr(t1 + 1, t2 - t1 - 1);
          ReplayResult r = replayAlone(body, parsePath(path), 60);
          if (r.failed) record(r.sig == sig || knownSigs.count(name + " " + r.sig) == 0 ? sig : r.sig, msg, path, r.notes);
          else if (!k.confirm) { again = true; k.sig = sig; k.path = path; }
          else if (k.sig == sig && k.path == path)
            record(sig, msg + "\n(shows only after the preceding executions of the same process)", path + " worker=" + std::to_string(w) + "/" + std::to_string(W), r.notes);
          else error("unstable failure " + sig + ": " + msg);
        }
        else if (m[0] == 'R')
        {
          std::istringstream is(m.substr(2));
          std::string line;
          std::getline(is, line);
          std::istringstream l(line);
          uint64_t e, t, s, d;
          int c;
          l >> e >> t >> s >> d >> c;
          rep.st.execs += e;
          rep.st.transitions += t;
          rep.st.maxDepth = std::max(rep.st.maxDepth, d);
          if (c) rep.exhaustive = false;
          while (std::getline(is, line))
          {
            if (line[0] == 'S' && rep.st.samples.size() < 6) rep.st.samples.push_back(line.substr(1));
            if (line[0] == 'K') { size_t sp = line.find(' '); rep.st.counters[line.substr(sp + 1)] += std::stoull(line.substr(1)); }
          }
        }
      }
      if (ended)
      {
        ::close(k.fd);
        k.done = true;
        ::kill(-k.pid, SIGKILL); // children of the worker
        if (!hung && !quit && !violated) crashed = true;
        if (quit && !hung)
          for (int kind = 0; kind < 2; ++kind)
          {
            std::ifstream f(opt.scratch + (kind ? "/outcomes." : "/states.") + std::to_string(w), std::ios::binary);
            uint64_t h;
            while (f.read((char *)&h, 8)) (kind ? rep.st.outcomes : rep.st.states).insert(h);
          }
        if ((crashed || hung) && !fatal)
        {
          // reconstruct the path with arities by replaying the bare choices
          std::vector<Ctx::E> p;
          const uint32_t depth = slots[w].depth.load();
          std::string txt;
          for (uint32_t q = 0; q < depth; ++q)
          {
            p.push_back({slots[w].path[q], 0});
            txt += (txt.empty() ? "" : ",") + std::to_string(p.back().c) + "/0";
          }
          const std::string err = readTail(opt.scratch + "/w" + std::to_string(w) + ".err");
          ReplayResult r = replayAlone(body, p, hung ? 60 : 120);
          if (r.failed) record(r.sig, r.msg, txt, r.notes);
          else if (hung)
          {
            fprintf(stderr, "worker %u made no progress for %.0f s, goes on at %s\n", w, eo.hang * k.patience, r.path.c_str());
            // slow, not hung: go on with it
            k.start = parsePath(r.path);
            k.patience *= 4;
            slots[w].execs = 0;
            launch(w);
          }
          else if (!k.confirm) { again = true; k.sig = "crash"; k.path = txt; }
          else if (k.sig == "crash" && k.path == txt)
            record("crash", "a worker process died (" + (WIFSIGNALED(status) ? "signal " + std::to_string(WTERMSIG(status)) : "exit " + std::to_string(WEXITSTATUS(status))) + ")\n" + err, txt + " worker=" + std::to_string(w) + "/" + std::to_string(W), "");
          else error("unstable crash\n" + err);
        }
        else if (quit && k.confirm) error("failure does not happen again: " + k.sig + " " + k.path);
        if (again && !fatal)
        {
          k.confirm = true;
          slots[w].execs = 0;
          launch(w);
        }
      }
      if (stopAll) fatal = true;
    }
  }
  for (auto &k : ws)
    if (!k.done)
    {
      ::kill(-k.pid, SIGKILL);
      waitpid(k.pid, nullptr, 0);
      ::close(k.fd);
      rep.exhaustive = false;
    }
  munmap(slots, sizeof(Slot) * W);
  for (unsigned w = 0; w < W; ++w) rmTree(opt.scratch + "/w" + std::to_string(w));
  rep.wall = now() - t0;
  fprintf(stderr, "%-28s execs=%" PRIu64 " transitions=%" PRIu64 " states=%zu outcomes=%zu depth=%" PRIu64 " %s %.1fs\n", name.c_str(), rep.st.execs,
          rep.st.transitions, rep.st.states.size(), rep.st.outcomes.size(), rep.st.maxDepth, rep.exhaustive ? "exhaustive" : "CAPPED", rep.wall);
  reports.push_back(std::move(rep));
}

inline void parseArgs(int argc, char **argv)
{
  for (int i = 1; i < argc; ++i)
  {
    std::string a = argv[i];
    if (a.rfind("--", 0) != 0) continue;
    a = a.substr(2);
    size_t e = a.find('=');
    std::string k = a.substr(0, e), v = e == std::string::npos ? "1" : a.substr(e + 1);
    if (k == "tier") opt.tier = v;
    else if (k == "out") opt.out = v;
    else if (k == "replay") opt.replay = v;
    else if (k == "prop") opt.prop = v;
    else if (k == "scratch") opt.scratch = v;
    else if (k == "workers") opt.workers = (unsigned)std::stoul(v);
    else if (k == "budget") opt.budget = std::stod(v);
    else if (k == "known") { std::istringstream is(v); std::string s; while (std::getline(is, s, ';')) knownSigs.insert(s); }
    else opt.args[k] = v;
  }
  if (!opt.workers) opt.workers = (unsigned)std::max(1L, sysconf(_SC_NPROCESSORS_ONLN));
  if (opt.scratch.empty()) { fprintf(stderr, "--scratch missing\n"); exit(2); }
  signal(SIGPIPE, SIG_IGN);
}

inline int finish()
{
  std::ostringstream o;
  o << "{\"explorations\":[";
  bool first = true;
  for (auto &r : reports)
  {
    o << (first ? "" : ",\n") << "{\"name\":" << jstr(r.name) << ",\"executions\":" << r.st.execs << ",\"transitions\":" << r.st.transitions
      << ",\"states\":" << r.st.states.size() << ",\"outcomes\":" << r.st.outcomes.size() << ",\"max_choices\":" << r.st.maxDepth
      << ",\"exhaustive\":" << (r.exhaustive ? "true" : "false") << ",\"wall_s\":" << r.wall << ",\"samples\":[";
    for (size_t i = 0; i < r.st.samples.size(); ++i) o << (i ? "," : "") << jstr(r.st.samples[i]);
    o << "],\"counters\":{";
    bool f2 = true;
    for (auto &k : r.st.counters) { o << (f2 ? "" : ",") << jstr(k.first) << ":" << k.second; f2 = false; }
    o << "}}";
    first = false;
  }
  o << "],\n\"violations\":[";
  auto put = [&](const Violation &v) {
    o << "{\"explore\":" << jstr(v.explore) << ",\"sig\":" << jstr(v.sig) << ",\"msg\":" << jstr(v.msg) << ",\"path\":" << jstr(v.path) << ",\"notes\":" << jstr(v.notes)
      << ",\"known\":" << (v.known ? "true" : "false") << "}";
  };
  first = true;
  for (auto &v : violations) { if (!first) o << ",\n"; put(v); first = false; }
  for (auto &v : knownHits) { if (!first) o << ",\n"; put(v.second); first = false; }
  o << "]}\n";
  if (!opt.out.empty()) { std::ofstream f(opt.out); f << o.str(); }
  return violations.empty() ? 0 : 1;
}

} // namespace mc
