#include "mcrt.hpp"
#include <cerrno>
#include <climits>
#include <cstdarg>
#include <linux/futex.h>
#include <malloc.h>
#include <poll.h>
#include <pthread.h>
#include <sys/epoll.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unordered_map>

namespace mcrt {

constexpr int MaxThreads = 40;
struct VC
{
  uint32_t c[MaxThreads] = {};
  void join(const VC &o) { for (int i = 0; i < MaxThreads; ++i) c[i] = std::max(c[i], o.c[i]); }
};

enum State { Ready, OnMutex, OnCond, OnJoin, OnOnce, OnRead, OnWrite, OnPoll, OnKey, Done, Idle };
struct Thr
{
  int id = 0;
  State st = Ready;
  void *obj = nullptr, *obj2 = nullptr;
  std::atomic<int> go{0};
  VC vc;
  void *(*fn)(void *) = nullptr;
  void *arg = nullptr, *ret = nullptr;
  pthread_t real{};
  bool timed = false, timedOut = false;
  int poll = -1;         // OnPoll: descriptor of the events
  uint64_t deadline = 0; // and end of the waiting, in ns
  int gate = 0;          // OnKey
  bool idle = false;     // it got its key because no thread could go on
  uint32_t ops = 0;
  const char *what = "start";
  int quiet = 0;
};

struct Mutex { int owner = -1, depth = 0; VC vc; };
struct RW { int writer = -1; std::vector<int> readers; VC vc; };
struct Once { int state = 0; VC vc; };

struct Shared // with the worker
{
  uint32_t n;
  mc::Ctx::E stack[mc::MaxDepth];
  uint32_t status; // 0 running, 1 ok, 2 fail, 3 skip, 4 diverged
  uint64_t steps;
  uint32_t nstates;
  uint64_t states[30000];
  char sig[64];
  char msg[60000];
  uint32_t nnotes;
  char notes[20000];
  char outcome[2000];
};

static bool active = false;
static Config cfg;
static mc::Ctx *ctx = nullptr;
static Shared *sh = nullptr;
static Thr *cur = nullptr;
static std::vector<Thr *> *thr = nullptr;
static std::map<void *, Mutex> *mutexes = nullptr;
static std::map<void *, std::vector<Thr *>> *conds = nullptr;
static std::map<void *, RW> *rws = nullptr;
static std::map<void *, Once> *onces = nullptr;
static std::map<void *, VC> *atomics = nullptr;
static std::vector<Event> *events = nullptr;
static uint64_t eventHash = 0, steps = 0;
static int preLeft = 0, spuLeft = 0, freeLeft = 0;
static int inside = 0; // runtime code is running
static size_t keyAt = 0;
static int keysAllowed = 0;
static uint64_t clockNow = 0; // ns, if the clock is controlled

struct In { In() { ++inside; } ~In() { --inside; } };

static void futexWait(std::atomic<int> &a) { while (!a.load()) ::syscall(SYS_futex, &a, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0); a = 0; }
static void futexWake(std::atomic<int> &a) { a = 1; ::syscall(SYS_futex, &a, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0); }

static std::string describe()
{
  static const char *names[] = {"ready", "waits for a mutex", "waits for a condition", "waits for the end of a thread", "waits for an initialization", "waits to read", "waits to write", "waits for events", "waits for a key", "ended", "waits until nothing can run"};
  std::string s;
  for (auto t : *thr) s += "thread " + std::to_string(t->id) + ": " + (t->st == Ready ? "can run" : names[t->st]) + " (" + t->what + ")\n";
  return s;
}
[[noreturn]] static void finishWith(uint32_t status, const std::string &sig, const std::string &msg)
{
  sh->steps = steps;
  snprintf(sh->sig, sizeof sh->sig, "%s", sig.c_str());
  snprintf(sh->msg, sizeof sh->msg, "%s", msg.c_str());
  std::string notes;
  for (auto &n : ctx->notes) notes += n + "\n";
  snprintf(sh->notes, sizeof sh->notes, "%s", notes.c_str());
  sh->status = status;
  ::_exit(0);
}
static std::string log()
{
  std::string s = "events (kind:id@thread):";
  for (auto &e : *events) s += " " + std::to_string(e.kind) + ":" + std::to_string(e.id) + "@" + std::to_string(e.thread);
  return s + "\n";
}
[[noreturn]] static void failure(const std::string &sig, const std::string &msg) { finishWith(2, sig, msg + "\n" + describe() + log()); }

static uint32_t draw(size_t n)
{
  if (n <= 1) return 0;
  try
  {
    const uint32_t r = ctx->choose(n);
    sh->stack[ctx->pos - 1] = ctx->stack[ctx->pos - 1];
    sh->n = (uint32_t)ctx->pos;
    return r;
  }
  catch (const mc::Skip &) { finishWith(3, "", ""); }
  catch (const mc::Diverged &d) { finishWith(4, "diverged", d.msg); }
}

static bool runnable(Thr *t)
{
  switch (t->st)
  {
  case Ready: return true;
  case OnMutex: { auto i = mutexes->find(t->obj); return i == mutexes->end() || i->second.owner < 0; }
  case OnJoin: return ((Thr *)t->obj)->st == Done;
  case OnOnce: return (*onces)[t->obj].state != 1;
  case OnRead: return (*rws)[t->obj].writer < 0;
  case OnWrite: { auto &r = (*rws)[t->obj]; return r.writer < 0 && r.readers.empty(); }
  case OnPoll:
  {
    if (clockNow >= t->deadline) return true;
    pollfd p{t->poll, POLLIN, 0};
    return ::poll(&p, 1, 0) > 0;
  }
  case OnKey: return t->gate > 0 && keysAllowed >= t->gate;
  default: return false;
  }
}
static bool mutexFree(void *m) { auto i = mutexes->find(m); return i == mutexes->end() || i->second.owner < 0; }

static void switchTo(Thr *next)
{
  if (next == cur) return;
  Thr *me = cur;
  const int depth = inside;
  cur = next;
  futexWake(next->go);
  futexWait(me->go);
  inside = depth;
}

// Decides who runs next.  Called with the state of the current thread set.
static void schedule(bool yields = false)
{
  if (++steps > cfg.maxSteps) failure("livelock", "more than " + std::to_string(cfg.maxSteps) + " steps: the scenario does not end");
  ctx->step();
  // a state: how far each thread got, and the log
  if (sh->nstates < 30000)
  {
    uint64_t h = eventHash;
    for (auto t : *thr) h = mc::mix(h, (uint64_t)t->ops * 16 + t->st);
    sh->states[sh->nstates++] = h;
  }
  struct Opt { Thr *t; bool spurious; };
  Opt opts[2 * MaxThreads];
  size_t n = 0;
  const bool self = runnable(cur) && !yields;
  if (self) opts[n++] = {cur, false};
  const int cost = self ? 1 : 0;
  const bool mayLeave = self ? preLeft > 0 : true;
  if (mayLeave)
    for (size_t i = 0; i < thr->size(); ++i)
    {
      // round robin beginning behind the current thread
      Thr *t = (*thr)[(i + (size_t)cur->id + 1) % thr->size()];
      if (t != cur && runnable(t)) opts[n++] = {t, false};
    }
  if (!self && n > 1 && freeLeft == 0) n = 1;
  if (yields && n == 0 && runnable(cur)) opts[n++] = {cur, false};
  if (n == 0)
    for (auto t : *thr) if (t->st == Idle) opts[n++] = {t, false};
  if (n == 0)
    for (auto t : *thr)
      if (t->st == OnKey)
      {
        t->idle = true;
        opts[n++] = {t, false};
      }
  if (spuLeft > 0 || n == 0)
    for (auto t : *thr)
      if (t->st == OnCond && mutexFree(t->obj2) && (t->timed || spuLeft > 0)) opts[n++] = {t, true};
  if (n == 0) failure("deadlock", "all threads wait");
  const uint32_t k = draw(n);
  if (k && !opts[k].spurious)
  {
    if (self) preLeft -= cost;
    else --freeLeft;
  }
  if (opts[k].spurious)
  {
    if (!opts[k].t->timed || spuLeft > 0) --spuLeft;
    auto &w = (*conds)[opts[k].t->obj];
    w.erase(std::find(w.begin(), w.end(), opts[k].t));
    opts[k].t->timedOut = opts[k].t->timed;
    opts[k].t->st = Ready;
  }
  switchTo(opts[k].t);
}

static inline bool on() { return active && !inside; }
// after each release the clock advances
static void tick() { ++cur->vc.c[cur->id]; }
static void op(const char *what) { ++cur->ops; cur->what = what; }

static void visible(const char *what)
{
  op(what);
  cur->st = Ready;
  schedule();
}

static void block(State s, void *obj, const char *what)
{
  op(what);
  if (s == OnOnce) // nothing to decide when the initialization is complete or yet to begin
  {
    cur->st = s;
    cur->obj = obj;
    while (!runnable(cur)) schedule();
    cur->st = Ready;
    return;
  }
  cur->st = s;
  cur->obj = obj;
  schedule();
  while (!runnable(cur)) schedule();
  cur->st = Ready;
}

// ------------------------------------------------------- accesses
struct Rec { uint32_t pc, clk; uint8_t tid, mask, write; }; // static executable: addresses are small
struct Cell { Rec r[6]; uint8_t n, next; }; // of 8 bytes; zero to begin with
struct Page { Cell c[16]; uint16_t dead; };
// zeroed memory of the child; large pages, for page faults are expensive
static char *arena = nullptr;
static size_t arenaAt = 0;
constexpr size_t ArenaSize = 64 << 20;
static void makeArena()
{
  arena = (char *)::mmap(nullptr, ArenaSize + (2 << 20), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (arena == MAP_FAILED) { arena = nullptr; return; }
  arena = (char *)(((uintptr_t)arena + (2 << 20) - 1) & ~(uintptr_t)((2 << 20) - 1));
  ::madvise(arena, ArenaSize, MADV_HUGEPAGE);
}
static void *zeroed(size_t n)
{
  n = (n + 15) & ~size_t(15);
  if (!arena || arenaAt + n > ArenaSize) return calloc(1, n);
  arenaAt += n;
  return arena + arenaAt - n;
}
// open addressing, never shrinks
template <class P, int Shift> struct Table
{
  struct Slot { uintptr_t key; P *p; };
  Slot *slots = nullptr;
  size_t size = 0, used = 0;
  Slot recent[64] = {};
  P *find(uintptr_t a, bool make)
  {
    const uintptr_t k = (a >> Shift) + 1;
    Slot &r = recent[(k ^ k >> 6) & 63];
    if (r.key == k) return r.p;
    if (!slots || used * 2 > size) grow();
    size_t i = (k * 0x9e3779b97f4a7c15ULL >> 20) & (size - 1);
    while (slots[i].key && slots[i].key != k) i = (i + 1) & (size - 1);
    if (!slots[i].key)
    {
      if (!make) return nullptr;
      slots[i] = {k, (P *)zeroed(sizeof(P))};
      ++used;
    }
    r = slots[i];
    return r.p;
  }
  void grow()
  {
    const size_t n = size ? size * 2 : 1024;
    Slot *old = slots;
    const size_t m = size;
    slots = (Slot *)zeroed(n * sizeof(Slot));
    size = n;
    for (size_t j = 0; j < m; ++j)
      if (old[j].key)
      {
        size_t i = (old[j].key * 0x9e3779b97f4a7c15ULL >> 20) & (size - 1);
        while (slots[i].key) i = (i + 1) & (size - 1);
        slots[i] = old[j];
      }
  }
};
static Table<Page, 7> shadow;
struct Freed { uintptr_t end, pc; int tid; };
static std::map<uintptr_t, Freed> *freed = nullptr;
// standard streams, and the cache of the classic ctype facet (libstdc++ fills
// it without synchronization, bug 77704): not the code under test
static uintptr_t ioLo[5], ioHi[5];

static std::string threadName(int t) { return "thread " + std::to_string(t); }

static void lifetime(uintptr_t a, size_t n, uintptr_t pc, const char *what)
{
  if (!freed || freed->empty()) return;
  auto i = freed->upper_bound(a + n - 1);
  if (i == freed->begin()) return;
  --i;
  if (a < i->second.end)
    failure("use-after-free", threadName(cur->id) + " " + what + " memory that " + threadName(i->second.tid) + " has freed\n  access at pc=" + std::to_string(pc) + "\n  freed at pc=" + std::to_string(i->second.pc));
}

static void access(uintptr_t a, size_t n, bool write, uintptr_t pc)
{
  if (!active || inside || !cfg.races || cur->quiet) return;
  In in;
  for (int i = 0; i < 5; ++i) if (a >= ioLo[i] && a < ioHi[i]) return;
  while (n)
  {
    const uintptr_t g = a & ~uintptr_t(7);
    const size_t off = a - g, len = std::min<size_t>(n, 8 - off);
    const uint8_t mask = uint8_t(((1u << len) - 1) << off);
    Page &pg = *shadow.find(g, true);
    Cell &c = pg.c[(g >> 3) & 15];
    if (pg.dead >> ((g >> 3) & 15) & 1) lifetime(a, len, pc, write ? "writes" : "reads");
    bool done = false;
    for (int i = 0; i < c.n; ++i)
    {
      Rec &r = c.r[i];
      if (!(r.mask & mask)) continue;
      if (r.tid == cur->id)
      {
        if (r.mask == mask && r.write == (uint8_t)write) { r.clk = cur->vc.c[cur->id]; r.pc = (uint32_t)pc; done = true; }
        continue;
      }
      if ((write || r.write) && r.clk > cur->vc.c[r.tid])
        failure("race", threadName(cur->id) + (write ? " writes" : " reads") + " what " + threadName(r.tid) + (r.write ? " writes" : " reads") + " without synchronization\n  access at pc=" + std::to_string(pc) + "\n  other at pc=" + std::to_string(r.pc));
    }
    if (!done)
    {
      if (write)
      {
        // a write ordered after all earlier accesses supersedes them
        uint8_t k = 0;
        for (int i = 0; i < c.n; ++i)
          if ((c.r[i].mask & ~mask) || c.r[i].clk > cur->vc.c[c.r[i].tid]) c.r[k++] = c.r[i];
        c.n = k;
      }
      int at;
      if (c.n < 6) at = c.n++;
      else { at = c.next; c.next = uint8_t((c.next + 1) % 6); }
      c.r[at] = {(uint32_t)pc, cur->vc.c[cur->id], (uint8_t)cur->id, mask, (uint8_t)write};
    }
    a += len;
    n -= len;
  }
}
// use of a synchronization object
static void use(void *o, size_t n, uintptr_t pc)
{
  if (cfg.races && !cur->quiet) lifetime((uintptr_t)o, n, pc, "uses");
}
static void freeing(void *p, uintptr_t pc)
{
  const size_t n = malloc_usable_size(p);
  if (!n) return;
  const uintptr_t a = (uintptr_t)p;
  auto i = freed->upper_bound(a);
  if (i != freed->begin() && std::prev(i)->second.end > a) failure("double-free", threadName(cur->id) + " frees memory that has been freed already\n  at pc=" + std::to_string(pc));
  for (uintptr_t g = a & ~uintptr_t(7); g < a + n;)
  {
    Page *p = shadow.find(g, true);
    const uintptr_t end = std::min<uintptr_t>((g | 127) + 1, a + n);
    for (; g < end; g += 8)
    {
      p->dead |= uint16_t(1u << ((g >> 3) & 15));
      if (cur->quiet) continue;
      const Cell &s = p->c[(g >> 3) & 15];
      for (int k = 0; k < s.n; ++k)
      {
        const Rec &r = s.r[k];
        if (r.tid != cur->id && r.clk > cur->vc.c[r.tid])
          failure("race", threadName(cur->id) + " frees what " + threadName(r.tid) + (r.write ? " writes" : " reads") + " without synchronization\n  free at pc=" + std::to_string(pc) + "\n  other at pc=" + std::to_string(r.pc));
      }
    }
  }
  (*freed)[a] = {a + n, pc, cur->id};
}

// ------------------------------------------------------- interface
void event(int kind, int id)
{
  if (!active) return;
  In in;
  visible("event");
  note(kind, id);
}
void note(int kind, int id)
{
  if (!active) return;
  In in;
  events->push_back({kind, id, cur->id});
  eventHash = mc::mix(eventHash, (uint64_t)kind * 64 + (uint64_t)id);
}
void point()
{
  if (!active) return;
  In in;
  visible("point");
}
void settle()
{
  if (!active) return;
  In in;
  op("settle");
  cur->st = Idle;
  schedule();
  cur->st = Ready;
}
unsigned choose(unsigned n)
{
  In in;
  return draw(n);
}
void allowKey()
{
  In in;
  ++keysAllowed;
}
void advance(double seconds)
{
  In in;
  clockNow += (uint64_t)(seconds * 1e9);
}
int eventsSoFar(int kind, int id)
{
  In in;
  int n = 0;
  for (auto &e : *events) n += e.kind == kind && (id < 0 || e.id == id);
  return n;
}
Quiet::Quiet() { if (cur) ++cur->quiet; }
Quiet::~Quiet() { if (cur) --cur->quiet; }

std::string where(uintptr_t pc)
{
  char exe[4096], cmd[4300];
  const ssize_t n = ::readlink("/proc/self/exe", exe, sizeof exe - 1);
  if (n < 0) return "";
  exe[n] = 0;
  snprintf(cmd, sizeof cmd, "addr2line -Cfpi -e '%s' 0x%lx 2>/dev/null", exe, (unsigned long)pc - 1);
  FILE *f = ::popen(cmd, "r");
  if (!f) return "";
  char b[2000];
  std::string s;
  while (fgets(b, sizeof b, f)) s += b;
  ::pclose(f);
  return s;
}

static void pin(unsigned w)
{
  cpu_set_t have, one;
  if (::sched_getaffinity(0, sizeof have, &have)) return;
  const int n = CPU_COUNT(&have);
  if (n < 1) return;
  int k = (int)((w + (unsigned)::getppid() * 3u) % (unsigned)n); // several runs at once with few workers each do not share the first processors
  for (int i = 0; i < CPU_SETSIZE; ++i)
    if (CPU_ISSET(i, &have) && k-- == 0)
    {
      CPU_ZERO(&one);
      CPU_SET(i, &one);
      ::sched_setaffinity(0, sizeof one, &one);
      return;
    }
}

// The kernel takes back the memory of ended children later, and falls behind on a busy machine.
static void waitForMemory()
{
  static unsigned n = 0;
  if (++n % 32) return;
  for (int i = 0; i < 500; ++i)
  {
    FILE *f = ::fopen("/proc/meminfo", "r");
    if (!f) return;
    char line[200];
    unsigned long kb = ~0ul;
    while (fgets(line, sizeof line, f))
      if (sscanf(line, "MemAvailable: %lu", &kb) == 1) break;
    ::fclose(f);
    if (kb > 6ul << 20) return;
    ::usleep(10000);
  }
}

void execute(mc::Ctx &c, const Config &config, const std::function<void()> &scenario, const Oracle &oracle)
{
  static bool pinned = false;
  if (!sh) // the unwinder prepares its tables once, not once per child
  {
    try { throw std::runtime_error(""); } catch (const std::exception &) {}
    makeArena();
  }
  if (!sh) sh = (Shared *)::mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (!pinned && c.me < 64) { pin(c.me); pinned = true; }
  c.softShard(config.shardAt);
  sh->status = 0;
  sh->n = 0;
  sh->nstates = 0;
  sh->steps = 0;
  sh->msg[0] = sh->sig[0] = sh->notes[0] = sh->outcome[0] = 0;
  for (size_t i = 0; i < c.pos; ++i) sh->stack[i] = c.stack[i];
  sh->n = (uint32_t)c.pos;
  fflush(nullptr);
  waitForMemory();
  const pid_t pid = ::fork();
  if (pid == 0)
  {
    ::prctl(PR_SET_PDEATHSIG, SIGKILL);
    cfg = config;
    ctx = &c;
    if (!c.verbose)
    {
      const int z = ::open("/dev/null", O_WRONLY);
      ::dup2(z, 1);
      if (!c.replaying) ::dup2(z, 2);
    }
    thr = new std::vector<Thr *>;
    mutexes = new std::map<void *, Mutex>;
    conds = new std::map<void *, std::vector<Thr *>>;
    rws = new std::map<void *, RW>;
    onces = new std::map<void *, Once>;
    atomics = new std::map<void *, VC>;
    events = new std::vector<Event>;
    freed = new std::map<uintptr_t, Freed>;
    std::ios *io[] = {&std::cin, &std::cout, &std::cerr, &std::clog};
    for (int i = 0; i < 4; ++i)
    {
      ioLo[i] = (uintptr_t)io[i] - 16;
      ioHi[i] = (uintptr_t)io[i] + sizeof(std::ios);
    }
    const auto &facet = std::use_facet<std::ctype<char>>(std::locale::classic());
    ioLo[4] = (uintptr_t)&facet;
    ioHi[4] = ioLo[4] + sizeof facet;
    cur = new Thr;
    cur->vc.c[0] = 1;
    thr->push_back(cur);
    preLeft = cfg.preemptions;
    spuLeft = cfg.spurious;
    freeLeft = cfg.freeChoices;
    keyAt = 0;
    keysAllowed = 0;
    clockNow = 1000000000000000ull;
    active = true;
    try { scenario(); }
    catch (const std::exception &e) { active = false; failure("exception", std::string("exception in the scenario: ") + e.what()); }
    In in;
    Result r;
    r.events = *events;
    r.steps = steps;
    for (auto t : *thr)
      if (t != cur && t->st != Done) r.unfinished.push_back(threadName(t->id) + ": " + t->what);
    active = false;
    try
    {
      oracle(c, r);
    }
    catch (const mc::Skip &) { finishWith(3, "", ""); }
    catch (const mc::Fail &f) { finishWith(2, f.sig, f.msg + "\n" + describe() + log()); }
    catch (const std::exception &e) { finishWith(2, "oracle", e.what()); }
    if (c.wantNotes()) c.notes.push_back(log());
    std::string o;
    for (auto &e : *events) o += std::to_string(e.kind) + ":" + std::to_string(e.id) + " ";
    snprintf(sh->outcome, sizeof sh->outcome, "%s", o.c_str());
    finishWith(1, "", "");
  }
  if (pid < 0) throw std::runtime_error("fork");
  int status = 0;
  ::waitpid(pid, &status, 0);
  c.stack.assign(sh->stack, sh->stack + sh->n);
  c.pos = sh->n;
  if (c.slot)
  {
    for (size_t i = 0; i < c.stack.size(); ++i) c.slot->path[i] = c.stack[i].c;
    c.slot->depth = (uint32_t)c.stack.size();
  }
  c.step(sh->steps);
  {
    std::istringstream is(sh->notes);
    std::string l;
    while (std::getline(is, l)) c.notes.push_back(l);
  }
  if (sh->status == 3) throw mc::Skip{};
  if (sh->status == 4) throw mc::Diverged{sh->msg};
  if (sh->status == 0)
    throw mc::Fail{"crash", WIFSIGNALED(status) ? "the process is killed by signal " + std::to_string(WTERMSIG(status)) : "the process exits with " + std::to_string(WEXITSTATUS(status))};
  for (uint32_t i = 0; i < sh->nstates; ++i) c.state(sh->states[i]);
  if (sh->status == 2)
  {
    std::string msg = sh->msg;
    size_t p = 0;
    std::string locs;
    while ((p = msg.find("pc=", p)) != std::string::npos)
    {
      p += 3;
      locs += "  " + where(strtoull(msg.c_str() + p, nullptr, 10));
    }
    throw mc::Fail{sh->sig, msg + locs};
  }
  c.outcome(sh->outcome);
}

} // namespace mcrt

using namespace mcrt;
#define PC ((uintptr_t)__builtin_return_address(0))

// ------------------------------------------------------- pthread
extern "C" {
int __real_pthread_create(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
int __real_pthread_join(pthread_t, void **);
int __real_pthread_detach(pthread_t);
int __real_pthread_mutex_lock(pthread_mutex_t *);
int __real_pthread_mutex_trylock(pthread_mutex_t *);
int __real_pthread_mutex_unlock(pthread_mutex_t *);
int __real_pthread_cond_wait(pthread_cond_t *, pthread_mutex_t *);
int __real_pthread_cond_timedwait(pthread_cond_t *, pthread_mutex_t *, const timespec *);
int __real_pthread_cond_clockwait(pthread_cond_t *, pthread_mutex_t *, clockid_t, const timespec *);
int __real_pthread_cond_signal(pthread_cond_t *);
int __real_pthread_cond_broadcast(pthread_cond_t *);
int __real_pthread_once(pthread_once_t *, void (*)());
int __real_pthread_setschedparam(pthread_t, int, const sched_param *);
int __real_pthread_getschedparam(pthread_t, int *, sched_param *);
int __real_pthread_rwlock_rdlock(pthread_rwlock_t *);
int __real_pthread_rwlock_wrlock(pthread_rwlock_t *);
int __real_pthread_rwlock_unlock(pthread_rwlock_t *);
int __real_get_nprocs();
int __real_getchar();
int __real_getchar_unlocked();
int __real_getc(FILE *);
int __real_fgetc(FILE *);
int __real___uflow(FILE *);
ssize_t __real_read(int, void *, size_t);
int __real_sched_yield();
int __real_nanosleep(const timespec *, timespec *);
int __real_usleep(useconds_t);
void __real_free(void *);
int __real___cxa_guard_acquire(int64_t *);
void __real___cxa_guard_release(int64_t *);
void __real___cxa_guard_abort(int64_t *);

static void *trampoline(void *p)
{
  Thr *t = (Thr *)p;
  futexWait(t->go);
  inside = 0;
  t->ret = t->fn(t->arg);
  ++inside;
  op("end");
  t->st = Done;
  schedule(); // never comes back
  for (;;) ::pause();
}

int __wrap_pthread_create(pthread_t *out, const pthread_attr_t *attr, void *(*fn)(void *), void *arg)
{
  if (!on()) return __real_pthread_create(out, attr, fn, arg);
  In in;
  if (thr->size() >= MaxThreads) failure("threads", "too many threads");
  Thr *t = new Thr;
  t->id = (int)thr->size();
  t->fn = fn;
  t->arg = arg;
  t->vc = cur->vc;
  t->vc.c[t->id] = 1;
  tick();
  thr->push_back(t);
  pthread_attr_t a;
  pthread_attr_init(&a);
  const size_t size = 512 << 10;
  void *stack = ::mmap(nullptr, size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  pthread_attr_setstack(&a, stack, size);
  const int rc = __real_pthread_create(&t->real, &a, trampoline, t);
  if (rc) failure("create", "cannot create a thread");
  *out = t->real;
  visible("create a thread");
  return 0;
}
static Thr *find(pthread_t p)
{
  for (auto t : *thr) if (t->id && pthread_equal(t->real, p)) return t;
  return nullptr;
}
int __wrap_pthread_join(pthread_t p, void **ret)
{
  if (!on()) return __real_pthread_join(p, ret);
  In in;
  Thr *t = find(p);
  if (!t) return ESRCH;
  if (t == cur) return EDEADLK;
  block(OnJoin, t, "join");
  cur->vc.join(t->vc);
  if (ret) *ret = t->ret;
  return 0;
}
int __wrap_pthread_detach(pthread_t p)
{
  if (!on()) return __real_pthread_detach(p);
  return 0;
}
int __wrap_pthread_mutex_lock(pthread_mutex_t *m)
{
  if (!on()) return active ? 0 : __real_pthread_mutex_lock(m);
  In in;
  use(m, sizeof *m, PC);
  // recursive mutexes
  {
    auto i = mutexes->find(m);
    if (i != mutexes->end() && i->second.owner == cur->id)
    {
      if ((m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP) { ++i->second.depth; return 0; }
      op("lock");
      failure("deadlock", threadName(cur->id) + " locks a mutex that it holds already");
    }
  }
  block(OnMutex, m, "lock");
  use(m, sizeof *m, PC);
  Mutex &x = (*mutexes)[m];
  x.owner = cur->id;
  x.depth = 1;
  cur->vc.join(x.vc);
  return 0;
}
int __wrap_pthread_mutex_trylock(pthread_mutex_t *m)
{
  if (!on()) return active ? 0 : __real_pthread_mutex_trylock(m);
  In in;
  use(m, sizeof *m, PC);
  visible("trylock");
  Mutex &x = (*mutexes)[m];
  if (x.owner >= 0) return EBUSY;
  x.owner = cur->id;
  x.depth = 1;
  cur->vc.join(x.vc);
  return 0;
}
static void unlock(void *m)
{
  Mutex &x = (*mutexes)[m];
  if (x.owner != cur->id) failure("unlock", threadName(cur->id) + " unlocks a mutex that it does not hold");
  if (--x.depth) return;
  x.owner = -1;
  x.vc.join(cur->vc);
  tick();
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m)
{
  if (!on()) return active ? 0 : __real_pthread_mutex_unlock(m);
  In in;
  use(m, sizeof *m, PC);
  unlock(m);
  return 0;
}
static int condWait(void *c, void *m, bool timed)
{
  In in;
  use(c, sizeof(pthread_cond_t), PC);
  visible("about to wait"); // a notification may come before
  unlock(m);
  (*conds)[c].push_back(cur);
  op("wait for a condition");
  cur->st = OnCond;
  cur->obj = c;
  cur->obj2 = m;
  cur->timed = timed;
  cur->timedOut = false;
  schedule();
  // signalled threads compete for the mutex
  while (!mutexFree(m)) { cur->st = OnMutex; cur->obj = m; schedule(); }
  cur->st = Ready;
  Mutex &x = (*mutexes)[m];
  x.owner = cur->id;
  x.depth = 1;
  cur->vc.join(x.vc);
  return cur->timedOut ? ETIMEDOUT : 0;
}
int __wrap_pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m)
{
  if (!on()) return active ? 0 : __real_pthread_cond_wait(c, m);
  return condWait(c, m, false);
}
int __wrap_pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const timespec *t)
{
  if (!on()) return active ? 0 : __real_pthread_cond_timedwait(c, m, t);
  return condWait(c, m, true);
}
int __wrap_pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t k, const timespec *t)
{
  if (!on()) return active ? 0 : __real_pthread_cond_clockwait(c, m, k, t);
  return condWait(c, m, true);
}
static void wake(void *c, bool all)
{
  auto &w = (*conds)[c];
  while (!w.empty())
  {
    const size_t k = all ? 0 : draw(w.size());
    Thr *t = w[k];
    w.erase(w.begin() + (long)k);
    t->st = OnMutex;
    t->obj = t->obj2;
    if (!all) break;
  }
}
int __wrap_pthread_cond_signal(pthread_cond_t *c)
{
  if (!on()) return active ? 0 : __real_pthread_cond_signal(c);
  In in;
  use(c, sizeof *c, PC);
  visible("notify one");
  use(c, sizeof *c, PC);
  wake(c, false);
  return 0;
}
int __wrap_pthread_cond_broadcast(pthread_cond_t *c)
{
  if (!on()) return active ? 0 : __real_pthread_cond_broadcast(c);
  In in;
  use(c, sizeof *c, PC);
  visible("notify all");
  use(c, sizeof *c, PC);
  wake(c, true);
  return 0;
}
int __wrap_pthread_once(pthread_once_t *o, void (*fn)())
{
  if (!on()) return active ? (fn(), 0) : __real_pthread_once(o, fn);
  {
    In in;
    block(OnOnce, o, "once");
    Once &x = (*onces)[o];
    if (x.state == 2) { cur->vc.join(x.vc); return 0; }
    x.state = 1;
  }
  fn();
  In in;
  Once &x = (*onces)[o];
  x.state = 2;
  x.vc = cur->vc;
  tick();
  return 0;
}
int __wrap___cxa_guard_acquire(int64_t *g)
{
  if (!on()) return active ? !*(char *)g : __real___cxa_guard_acquire(g);
  In in;
  block(OnOnce, g, "initialization of a static variable");
  Once &x = (*onces)[g];
  if (*(char *)g) { cur->vc.join(x.vc); return 0; }
  x.state = 1;
  return 1;
}
void __wrap___cxa_guard_release(int64_t *g)
{
  if (!on()) { if (active) *(char *)g = 1; else __real___cxa_guard_release(g); return; }
  In in;
  Once &x = (*onces)[g];
  *(char *)g = 1;
  x.state = 2;
  x.vc = cur->vc;
  (*atomics)[g].join(cur->vc);
  tick();
}
void __wrap___cxa_guard_abort(int64_t *g)
{
  if (!on()) { if (!active) __real___cxa_guard_abort(g); return; }
  In in;
  (*onces)[g].state = 0;
}
int __wrap_pthread_setschedparam(pthread_t p, int a, const sched_param *s) { return active ? 0 : __real_pthread_setschedparam(p, a, s); }
int __wrap_pthread_getschedparam(pthread_t p, int *a, sched_param *s)
{
  if (!active) return __real_pthread_getschedparam(p, a, s);
  *a = 0;
  s->sched_priority = 0;
  return 0;
}
int __wrap_pthread_rwlock_rdlock(pthread_rwlock_t *m)
{
  if (!on()) return active ? 0 : __real_pthread_rwlock_rdlock(m);
  In in;
  use(m, sizeof *m, PC);
  block(OnRead, m, "lock for reading");
  RW &x = (*rws)[m];
  x.readers.push_back(cur->id);
  cur->vc.join(x.vc);
  return 0;
}
int __wrap_pthread_rwlock_wrlock(pthread_rwlock_t *m)
{
  if (!on()) return active ? 0 : __real_pthread_rwlock_wrlock(m);
  In in;
  use(m, sizeof *m, PC);
  block(OnWrite, m, "lock for writing");
  RW &x = (*rws)[m];
  x.writer = cur->id;
  cur->vc.join(x.vc);
  return 0;
}
int __wrap_pthread_rwlock_unlock(pthread_rwlock_t *m)
{
  if (!on()) return active ? 0 : __real_pthread_rwlock_unlock(m);
  In in;
  use(m, sizeof *m, PC);
  RW &x = (*rws)[m];
  if (x.writer == cur->id) x.writer = -1;
  else
  {
    auto i = std::find(x.readers.begin(), x.readers.end(), cur->id);
    if (i == x.readers.end()) failure("unlock", "unlocks a lock that it does not hold");
    x.readers.erase(i);
  }
  x.vc.join(cur->vc);
  tick();
  return 0;
}
int __wrap_get_nprocs() { return active ? cfg.nprocs : __real_get_nprocs(); }
static int yield()
{
  In in;
  op("yield");
  cur->st = Ready;
  schedule(true);
  return 0;
}
int __wrap_sched_yield() { return on() ? yield() : __real_sched_yield(); }
int __wrap_nanosleep(const timespec *a, timespec *b) { return on() ? yield() : __real_nanosleep(a, b); }
int __wrap_usleep(useconds_t t) { return on() ? yield() : __real_usleep(t); }
static int key()
{
  In in;
  bool idle = false;
  if (cfg.onKeyWait) cfg.onKeyWait(keyAt);
  if (keyAt < cfg.gates.size() && cfg.gates[keyAt])
  {
    cur->gate = cfg.gates[keyAt];
    cur->idle = false;
    op("wait for a key");
    cur->st = OnKey;
    schedule();
    cur->st = Ready;
    idle = cur->idle;
  }
  else visible("read a key");
  if (keyAt >= cfg.keys.size()) return EOF;
  if (cfg.onKey)
  {
    try { cfg.onKey(keyAt, idle); }
    catch (const mc::Fail &f) { failure(f.sig, f.msg); }
  }
  return (unsigned char)cfg.keys[keyAt++];
}
int __wrap_getchar() { return on() ? key() : __real_getchar(); }
int __wrap_getchar_unlocked() { return on() ? key() : __real_getchar_unlocked(); }
int __wrap_getc(FILE *f) { return on() && f == stdin ? key() : __real_getc(f); }
int __wrap_fgetc(FILE *f) { return on() && f == stdin ? key() : __real_fgetc(f); }
int __wrap___uflow(FILE *f) { return on() && f == stdin ? key() : __real___uflow(f); }
static void hook(const char *what, const char *path)
{
  if (!cfg.onFile) return;
  In in;
  try { cfg.onFile(what, path); }
  catch (const mc::Fail &f) { failure(f.sig, f.msg); }
}
ssize_t __wrap_read(int fd, void *b, size_t n)
{
  if (on() && fd > 2 && cfg.onFile)
  {
    char name[40], path[4096];
    snprintf(name, sizeof name, "/proc/self/fd/%d", fd);
    const ssize_t l = ::readlink(name, path, sizeof path - 1);
    if (l > 0)
    {
      path[l] = 0;
      hook("read a file", path);
    }
  }
  if (!on() || fd != 0 || n == 0) return __real_read(fd, b, n);
  const int c = key();
  if (c == EOF) return 0;
  *(char *)b = (char)c;
  return 1;
}
void __wrap_free(void *p)
{
  if (!p) return;
  if (!on() || !cfg.races) { __real_free(p); return; }
  In in;
  freeing(p, PC); // the memory is never used again
}

// ------------------------------------------------------- events and time
int __real_epoll_wait(int, epoll_event *, int, int);
int __real_clock_gettime(clockid_t, timespec *);
int __real_timerfd_create(int, int);
int __wrap_epoll_wait(int fd, epoll_event *e, int n, int timeout)
{
  if (!on()) return __real_epoll_wait(fd, e, n, timeout);
  In in;
  cur->poll = fd;
  cur->deadline = timeout < 0 ? UINT64_MAX : clockNow + (uint64_t)timeout * 1000000;
  block(OnPoll, nullptr, "wait for events");
  // what was done before a descriptor was entered is known to who gets its events
  auto i = atomics->find(reinterpret_cast<void *>((intptr_t)fd + 1));
  if (i != atomics->end()) cur->vc.join(i->second);
  return __real_epoll_wait(fd, e, n, 0);
}
int __real_epoll_ctl(int, int, int, epoll_event *);
int __wrap_epoll_ctl(int fd, int op, int other, epoll_event *e)
{
  if (!on()) return __real_epoll_ctl(fd, op, other, e);
  In in;
  visible("change events");
  (*atomics)[reinterpret_cast<void *>((intptr_t)fd + 1)].join(cur->vc);
  tick();
  return __real_epoll_ctl(fd, op, other, e);
}
int __wrap_clock_gettime(clockid_t id, timespec *t)
{
  if (!active || !cfg.clock) return __real_clock_gettime(id, t);
  t->tv_sec = (time_t)(clockNow / 1000000000);
  t->tv_nsec = (long)(clockNow % 1000000000);
  return 0;
}
int __wrap_timerfd_create(int id, int flags)
{
  if (!active || !cfg.clock) return __real_timerfd_create(id, flags);
  errno = EINVAL; // an event loop has to look at the clock instead
  return -1;
}

// ------------------------------------------------------- files
FILE *__real_fopen64(const char *, const char *);
FILE *__real_fopen(const char *, const char *);
int __real_fclose(FILE *);
ssize_t __real_write(int, const void *, size_t);
ssize_t __real_writev(int, const iovec *, int);
int __real_stat(const char *, struct stat *);
int __real_statx(int, const char *, int, unsigned, void *);
int __real_unlink(const char *);
int __real_remove(const char *);
int __real_rename(const char *, const char *);
int __real_unlinkat(int, const char *, int);
int __real_open(const char *, int, ...);
int __real_open64(const char *, int, ...);
int __real_access(const char *, int);
static void fileOp(const char *what, const char *path = "")
{
  if (!on()) return;
  In in;
  if (cfg.files) visible(what);
  hook(what, path);
}
FILE *__wrap_fopen64(const char *a, const char *b) { fileOp("open a file", a); return __real_fopen64(a, b); }
FILE *__wrap_fopen(const char *a, const char *b) { fileOp("open a file", a); return __real_fopen(a, b); }
int __wrap_fclose(FILE *f) { fileOp("close a file"); return __real_fclose(f); }
ssize_t __wrap_write(int f, const void *p, size_t n) { if (f > 2) fileOp("write to a file"); return __real_write(f, p, n); }
ssize_t __wrap_writev(int f, const iovec *v, int n) { if (f > 2) fileOp("write to a file"); return __real_writev(f, v, n); }
int __wrap_stat(const char *p, struct stat *s) { fileOp("look up a file", p); return __real_stat(p, s); }
int __wrap_statx(int d, const char *p, int f, unsigned m, void *b) { fileOp("look up a file", p); return __real_statx(d, p, f, m, b); }
int __wrap_access(const char *p, int m) { fileOp("look up a file", p); return __real_access(p, m); }
int __wrap_unlink(const char *p) { fileOp("remove a file", p); return __real_unlink(p); }
int __wrap_remove(const char *p) { fileOp("remove a file", p); return __real_remove(p); }
int __wrap_unlinkat(int d, const char *p, int f) { fileOp("remove a file", p); return __real_unlinkat(d, p, f); }
int __wrap_rename(const char *a, const char *b) { fileOp("rename a file", a); return __real_rename(a, b); }
int __wrap_open(const char *p, int f, ...)
{
  va_list l;
  va_start(l, f);
  const int m = va_arg(l, int);
  va_end(l);
  fileOp("open a file", p);
  return __real_open(p, f, m);
}
int __wrap_open64(const char *p, int f, ...)
{
  va_list l;
  va_start(l, f);
  const int m = va_arg(l, int);
  va_end(l);
  fileOp("open a file", p);
  return __real_open64(p, f, m);
}

// ------------------------------------------------------- accesses
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}
#define ACC(n) \
  void __tsan_read##n(void *a) { access((uintptr_t)a, n, false, PC); } \
  void __tsan_write##n(void *a) { access((uintptr_t)a, n, true, PC); } \
  void __tsan_unaligned_read##n(void *a) { access((uintptr_t)a, n, false, PC); } \
  void __tsan_unaligned_write##n(void *a) { access((uintptr_t)a, n, true, PC); } \
  void __tsan_volatile_read##n(void *a) { access((uintptr_t)a, n, false, PC); } \
  void __tsan_volatile_write##n(void *a) { access((uintptr_t)a, n, true, PC); }
ACC(1) ACC(2) ACC(4) ACC(8) ACC(16)
void __tsan_vptr_update(void **a, void *v) { if (*a != v) access((uintptr_t)a, 8, true, PC); }
void __tsan_vptr_read(void **a) { access((uintptr_t)a, 8, false, PC); }
void __tsan_read_range(void *a, unsigned long n) { access((uintptr_t)a, n, false, PC); }
void __tsan_write_range(void *a, unsigned long n) { access((uintptr_t)a, n, true, PC); }
void __tsan_mutex_create(void *, unsigned) {}
void __tsan_mutex_destroy(void *, unsigned) {}
void __tsan_mutex_pre_lock(void *, unsigned) {}
void __tsan_mutex_post_lock(void *, unsigned, int) {}
int __tsan_mutex_pre_unlock(void *, unsigned) { return 0; }
void __tsan_mutex_post_unlock(void *, unsigned) {}
void __tsan_mutex_pre_signal(void *, unsigned) {}
void __tsan_mutex_post_signal(void *, unsigned) {}
void __tsan_mutex_pre_divert(void *, unsigned) {}
void __tsan_mutex_post_divert(void *, unsigned) {}
void *__tsan_memcpy(void *d, const void *s, size_t n) { if (n) { access((uintptr_t)s, n, false, PC); access((uintptr_t)d, n, true, PC); } return memcpy(d, s, n); }
void *__tsan_memset(void *d, int v, size_t n) { if (n) access((uintptr_t)d, n, true, PC); return memset(d, v, n); }
void *__tsan_memmove(void *d, const void *s, size_t n) { if (n) { access((uintptr_t)s, n, false, PC); access((uintptr_t)d, n, true, PC); } return memmove(d, s, n); }

// Atomic operations are scheduling points.  Sequential consistency is assumed
// for the values; orders weaker than that only matter for happens-before.
static void before(const volatile void *a, const char *what, uintptr_t pc)
{
  if (!on()) return;
  In in;
  use(const_cast<void *>(a), 1, pc);
  visible(what);
  use(const_cast<void *>(a), 1, pc);
}
static void acquired(const volatile void *a, int mo)
{
  if (!on() || !(mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST)) return;
  In in;
  auto i = atomics->find(const_cast<void *>(a));
  if (i != atomics->end()) cur->vc.join(i->second);
}
static void released(const volatile void *a, int mo, bool rmw)
{
  if (!on()) return;
  In in;
  VC &v = (*atomics)[const_cast<void *>(a)];
  const bool rel = mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST;
  if (!rmw) v = VC(); // a plain store ends the release sequence
  if (rel) { v.join(cur->vc); tick(); }
}
#define ATOM(bits, T) \
  T __tsan_atomic##bits##_load(const volatile T *a, int mo) { before(a, "atomic load", PC); T v = __atomic_load_n(a, __ATOMIC_SEQ_CST); acquired(a, mo); return v; } \
  void __tsan_atomic##bits##_store(volatile T *a, T v, int mo) { before(a, "atomic store", PC); released(a, mo, false); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##bits##_exchange(volatile T *a, T v, int mo) { before(a, "atomic exchange", PC); acquired(a, mo); released(a, mo, true); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##bits##_fetch_add(volatile T *a, T v, int mo) { if (mo != __ATOMIC_ACQ_REL) before(a, "atomic add", PC); /* else a reference count of the standard library */ acquired(a, mo); released(a, mo, true); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##bits##_fetch_sub(volatile T *a, T v, int mo) { before(a, "atomic subtract", PC); acquired(a, mo); released(a, mo, true); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##bits##_fetch_and(volatile T *a, T v, int mo) { before(a, "atomic and", PC); acquired(a, mo); released(a, mo, true); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##bits##_fetch_or(volatile T *a, T v, int mo) { before(a, "atomic or", PC); acquired(a, mo); released(a, mo, true); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##bits##_fetch_xor(volatile T *a, T v, int mo) { before(a, "atomic xor", PC); acquired(a, mo); released(a, mo, true); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##bits##_fetch_nand(volatile T *a, T v, int mo) { before(a, "atomic nand", PC); acquired(a, mo); released(a, mo, true); return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); } \
  int __tsan_atomic##bits##_compare_exchange_strong(volatile T *a, T *e, T v, int mo, int fo) \
  { \
    before(a, "atomic compare and exchange", PC); \
    const bool ok = __atomic_compare_exchange_n(a, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); \
    acquired(a, ok ? mo : fo); \
    if (ok) released(a, mo, true); \
    return ok; \
  } \
  int __tsan_atomic##bits##_compare_exchange_weak(volatile T *a, T *e, T v, int mo, int fo) \
  { \
    before(a, "atomic compare and exchange", PC); \
    const bool ok = __atomic_compare_exchange_n(a, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); \
    acquired(a, ok ? mo : fo); \
    if (ok) released(a, mo, true); \
    return ok; \
  } \
  T __tsan_atomic##bits##_compare_exchange_val(volatile T *a, T e, T v, int mo, int fo) \
  { \
    before(a, "atomic compare and exchange", PC); \
    const bool ok = __atomic_compare_exchange_n(a, &e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); \
    acquired(a, ok ? mo : fo); \
    if (ok) released(a, mo, true); \
    return e; \
  }
ATOM(8, uint8_t) ATOM(16, uint16_t) ATOM(32, uint32_t) ATOM(64, uint64_t)
void __tsan_atomic_thread_fence(int)
{
  if (!on()) return;
  In in;
  visible("fence");
}
void __tsan_atomic_signal_fence(int) {}
}
