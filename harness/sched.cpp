// Schedules of the operation queue, the semaphore, the converter and the
// merger (C08, C11-C17): every interleaving within the preemption bound.
#include "../common/mc.hpp"
#include "../common/util.hpp"
#include "../rt/mcrt.hpp"
#include "scenarios.hpp"
#include <set>

using namespace scen;
using mcrt::Config;
using mcrt::Event;
using mcrt::Result;
using V = std::vector<std::string>;

static std::string text(const Script &s, const Config &cfg)
{
  std::string t = "main=" + s.main + " user=" + s.user + " hardware threads=" + std::to_string(cfg.nprocs) + " operations (pause points, style, throws, priority):";
  for (auto &o : s.ops) t += " (" + std::to_string(o.points) + "," + std::to_string(o.style) + "," + std::to_string(o.throws) + "," + std::to_string(o.prio) + ")";
  return t;
}

// messages are only composed if needed
#define CHECK(ok, sig, msg) do { if (!(ok)) throw mc::Fail{sig, msg}; } while (0)

// ---------------------------------------------------------------- oracles
struct Log
{
  mc::Ctx &c;
  const Script &s;
  const Config &cfg;
  const Result &r;
  size_t n;
  Log(mc::Ctx &c, const Script &s, const Config &cfg, const Result &r) : c(c), s(s), cfg(cfg), r(r), n(s.ops.size()) {}
  std::string ctx() const { return text(s, cfg); }
  static char cmd(const Event &e) { return char(e.id & 255); }
  static bool calls(const Event &e, const char *which) { return e.kind == Call && strchr(which, cmd(e)); }
  static bool returns(const Event &e, const char *which) { return e.kind == Ret && strchr(which, cmd(e)); }
};

// Life of each operation: begins once, ends once, is destroyed once, in order;
// without cancellation each added one runs in the run that follows.
static void once(const Log &l, bool cancels)
{
  std::vector<int> begin(l.n), end(l.n), gone(l.n);
  std::vector<bool> added(l.n), due(l.n);
  size_t adds = 0;
  bool starting = false;
  bool failed = false, waited = true;
  for (auto &e : l.r.events)
  {
    const size_t i = (size_t)e.id;
    if (Log::returns(e, "a")) added[adds++] = true;
    if (Log::calls(e, "eE"))
    {
      starting = true;
      waited = false;
      for (size_t k = 0; k < l.n; ++k) if (added[k]) due[k] = true;
    }
    switch (e.kind)
    {
    case Begin:
      CHECK(added[i] || adds == i, "not-added", "operation " + std::to_string(i) + " begins before it was added; " + l.ctx());
      CHECK(++begin[i] == 1, "executed-twice", "operation " + std::to_string(i) + " is executed twice; " + l.ctx());
      CHECK(starting, "not-started", "operation " + std::to_string(i) + " is executed before the queue was started; " + l.ctx());
      break;
    case End:
      ++end[i];
      if (l.s.ops[i].throws) failed = true;
      break;
    case Gone:
      CHECK(++gone[i] == 1, "destroyed-twice", "operation " + std::to_string(i) + " is destroyed twice; " + l.ctx());
      CHECK(begin[i] == end[i], "destroyed-early", "operation " + std::to_string(i) + " is destroyed while it executes; " + l.ctx());
      break;
    default: break;
    }
    if (Log::returns(e, "wx"))
    {
      waited = true;
      for (size_t k = 0; k < l.n; ++k)
      {
        CHECK(begin[k] == end[k], "wait-early", "waiting for the queue has returned while operation " + std::to_string(k) + " executes; " + l.ctx());
        if (!cancels && due[k])
        {
          CHECK(begin[k] == 1, "lost", "waiting for the queue has returned, but operation " + std::to_string(k) + " has not been executed; " + l.ctx());
          CHECK(gone[k] == 1, "not-destroyed", "waiting for the queue has returned, but operation " + std::to_string(k) + " has not been destroyed; " + l.ctx());
        }
      }
    }
    if (Log::returns(e, "x")) failed = false;
    if (waited && e.kind == Failed) CHECK((e.id != 0) == failed, "failure-report", std::string("hasFailed() is ") + (e.id ? "true" : "false") + " although " + (failed ? "an" : "no") + " operation has failed; " + l.ctx());
    if (waited && starting && e.kind == Size && !cancels)
    {
      int left = 0;
      for (size_t k = 0; k < l.n; ++k) left += added[k] && !begin[k];
      CHECK(e.id == left, "size", "size() is " + std::to_string(e.id) + " with " + std::to_string(left) + " operations left; " + l.ctx());
    }
    if (waited && starting && e.kind == Running && !cancels) CHECK(e.id == 0, "running", "isRunning() after the queue has been waited for; " + l.ctx());
  }
  for (size_t k = 0; k < l.n; ++k) CHECK(begin[k] == end[k], "unfinished", "operation " + std::to_string(k) + " has not ended; " + l.ctx());
  CHECK(l.r.unfinished.empty(), "thread-left", "a thread of the queue outlives it: " + (l.r.unfinished.empty() ? "" : l.r.unfinished[0]) + "; " + l.ctx());
}

// without cancellation or with points left out, the result is fixed
static void results(const Log &l)
{
  long want = 0;
  std::vector<bool> b(l.n);
  for (auto &e : l.r.events) if (e.kind == Begin) b[(size_t)e.id] = true;
  for (size_t k = 0; k < l.n; ++k) if (b[k]) want += l.s.ops[k].points + 100;
  for (auto &e : l.r.events) if (e.kind == Sum) CHECK(e.id == want, "result", "the operations have not done all of their work; " + l.ctx());
}

static void limits(const Log &l)
{
  int running = 0;
  std::vector<bool> begun(l.n), ended(l.n), added(l.n);
  size_t adds = 0;
  bool started = false, late = false; // late: added during a run, no order is promised then
  for (auto &e : l.r.events)
  {
    const size_t i = (size_t)e.id;
    if (Log::calls(e, "a") && adds < l.n) { added[adds++] = true; late = late || started; }
    if (Log::calls(e, "eE")) started = true;
    if (Log::returns(e, "wx")) started = late = false;
    if (e.kind == Gone) ended[i] = true;
    if (e.kind == Begin)
    {
      ++running;
      begun[i] = true;
      CHECK(running <= l.cfg.nprocs, "too-many", std::to_string(running) + " operations execute at once; " + l.ctx());
      int ahead = 0;
      for (size_t k = 0; k < l.n; ++k) ahead += added[k] && l.s.ops[k].prio > l.s.ops[i].prio && !ended[k];
      CHECK(late || ahead < l.cfg.nprocs, "priority", "operation " + std::to_string(i) + " begins while " + std::to_string(ahead) + " of higher priority have not ended; " + l.ctx());
    }
    if (e.kind == End) { --running; ended[i] = true; }
  }
}

// Between the return of an effective pause() and the next call of resume() or
// cancel(): an operation that arrives at a pause point there does not go on,
// and no operation begins that had no slot yet.
static void paused(const Log &l)
{
  bool runs = false, in = false;
  std::vector<bool> begun(l.n), ended(l.n), arrived(l.n);
  int executing = 0, begins = 0, slots = 0;
  bool settled = false;
  size_t pausedCalls = 0;
  bool effective = false;
  for (auto &e : l.r.events)
  {
    const size_t i = (size_t)e.id;
    if (Log::returns(e, "e") || (e.kind == Begin)) runs = true;
    if (Log::calls(e, "wcx") && Log::cmd(e) != 'w') in = false;
    if (Log::returns(e, "wx")) { CHECK(!in || executing == 0, "paused-wait", "waiting has returned while operations are paused; " + l.ctx()); runs = in = false; }
    if (Log::calls(e, "p")) effective = runs && !in;
    if (Log::returns(e, "p") && effective && !in)
    {
      in = true;
      settled = false;
      ++pausedCalls;
      begins = 0;
      slots = l.cfg.nprocs - executing;
      std::fill(arrived.begin(), arrived.end(), false);
    }
    if (Log::calls(e, "rcq ")) in = false;
    if (Log::returns(e, "t") && in) settled = true;
    switch (e.kind)
    {
    case Begin:
      ++executing;
      if (in)
      {
        CHECK(++begins <= slots, "begins-paused", "operation " + std::to_string(i) + " begins although the queue is paused; " + l.ctx());
        CHECK(!settled, "begins-paused", "operation " + std::to_string(i) + " begins although the queue is paused; " + l.ctx());
      }
      break;
    case End: --executing; ended[i] = true; break;
    case Pause: if (in) arrived[i] = true; break;
    case Work:
      if (in) CHECK(!arrived[i], "works-paused", "operation " + std::to_string(i) + " goes on beyond a pause point although the queue is paused; " + l.ctx());
      break;
    default: break;
    }
  }
  if (pausedCalls) l.c.count("executions with an effective pause");
}

// After cancel() has returned nothing executes until the queue has been reset.
static void cancelled(const Log &l)
{
  bool done = false, flag = false;
  for (auto &e : l.r.events)
  {
    if (Log::returns(e, "cq")) done = flag = true;
    if (Log::calls(e, "x")) flag = false;
    if (Log::returns(e, "x")) done = false;
    if (done)
    {
      CHECK(e.kind != Begin, "begins-cancelled", "operation " + std::to_string(e.id) + " begins after cancel() has returned; " + l.ctx());
      CHECK(e.kind != Work && e.kind != Pause && e.kind != End, "works-cancelled", "operation " + std::to_string(e.id) + " still executes after cancel() has returned; " + l.ctx());
    }
    if (e.kind == Cancelled && flag) CHECK(e.id == 1, "flag", "isCancelled() is false although the queue has been cancelled; " + l.ctx());
    if (e.kind == Cancelled && !flag && !done) CHECK(e.id == 0, "flag", "isCancelled() is true although the queue has not been cancelled; " + l.ctx());
  }
}

static void runQueue(mc::Ctx &c, const Script &s, const Config &cfg)
{
  mcrt::execute(c, cfg, [&] { queue(s); }, [&](mc::Ctx &c, const Result &r) {
    Log l(c, s, cfg, r);
    const std::string all = s.main + s.user;
    const bool cancels = all.find_first_of("cqx") != std::string::npos;
    const bool reset = s.main.find('x') != std::string::npos;
    once(l, cancels);
    limits(l);
    paused(l);
    if (cancels) cancelled(l);
    else results(l);
    if (cancels && reset)
    {
      // operations added after the reset run
      size_t adds = 0;
      bool after = false;
      std::set<size_t> want;
      for (auto &e : r.events)
      {
        if (Log::returns(e, "x")) { after = true; want.clear(); }
        if (Log::returns(e, "a")) { if (after) want.insert(adds); ++adds; }
        if (e.kind == End) want.erase((size_t)e.id);
        if (Log::calls(e, "cq")) after = false;
      }
      if (after) CHECK(want.empty(), "lost-after-reset", "an operation added after the reset is not executed; " + l.ctx());
    }
    if (c.wantNotes()) c.notes.push_back(l.ctx());
  });
}

// ---------------------------------------------------------------- scenarios
static std::vector<OpSpec> opsOf(size_t n, int points, int style = 0)
{
  std::vector<OpSpec> v;
  for (size_t i = 0; i < n; ++i)
  {
    OpSpec o;
    o.points = points;
    o.style = style;
    o.prio = (long long)i;
    v.push_back(o);
  }
  return v;
}

// priorities: every order of the priorities 0..n-1
static void permute(mc::Ctx &c, std::vector<OpSpec> &ops)
{
  std::vector<long long> left;
  for (size_t i = 0; i < ops.size(); ++i) left.push_back((long long)i);
  for (auto &o : ops)
  {
    const size_t k = c.choose(left.size());
    o.prio = left[k];
    left.erase(left.begin() + (long)k);
  }
}

struct Plan // a list of scripts with a common shape
{
  std::string name;
  V mains, users;
  size_t ops;
  int points;
  std::vector<int> styles;
  std::vector<int> nprocs;
  int preemptions, spurious = 0;
  bool thrower = false;
  bool deaf = false; // one operation does not heed cancellation
};

static void plan(const Plan &p, bool races = false)
{
  mc::explore(p.name + (races ? "-accesses" : ""), [&](mc::Ctx &c) {
    Script s;
    Config cfg;
    cfg.preemptions = p.preemptions;
    cfg.spurious = p.spurious;
    cfg.races = races;
    s.main = c.pick(p.mains);
    if (s.main.find('u') != std::string::npos) s.user = c.pick(p.users);
    const size_t n = (size_t)std::count(s.main.begin(), s.main.end(), 'a');
    s.ops = opsOf(n, p.points, p.styles[c.choose(p.styles.size())]);
    cfg.nprocs = p.nprocs[c.choose(p.nprocs.size())];
    if (p.thrower && n) { const size_t k = c.choose(n + 1); if (k) s.ops[k - 1].throws = 1 + (int)(n == 1 ? c.choose(2) : k % 2); }
    if (p.deaf && n) { const size_t k = c.choose(2); if (k) s.ops[0].heedsCancel = false; }
    runQueue(c, s, cfg);
  });
}

// Many operations, or many commands: the threads go on in turn but for one or
// two deviations at any place.
static void many(const std::string &name, const V &mains, const std::vector<int> &nprocs, int points, int preemptions, int deviations, bool thrower, bool races = false)
{
  mc::explore(name + (races ? "-accesses" : ""), [=](mc::Ctx &c) {
    Script s;
    Config cfg;
    s.main = c.pick(mains);
    const size_t n = (size_t)std::count(s.main.begin(), s.main.end(), 'a');
    s.ops = opsOf(n, points);
    cfg.nprocs = nprocs[c.choose(nprocs.size())];
    const size_t order = c.choose(4);
    for (size_t i = 0; i < n; ++i) s.ops[i].prio = (long long)(order == 0 ? i : order == 1 ? n - i : order == 2 ? i * 7 % n : i % 2);
    if (thrower && c.flag()) for (size_t i = 0; i < n; i += 3) s.ops[i].throws = 1 + (int)(i % 2);
    cfg.preemptions = preemptions;
    cfg.freeChoices = deviations;
    cfg.races = races;
    cfg.maxSteps = 200000;
    cfg.shardAt = 1;
    runQueue(c, s, cfg);
  });
}
static std::string times(size_t n, const std::string &s) { std::string r; while (n--) r += s; return r; }

// ---------------------------------------------------------------- semaphore
static void runSemaphore(mc::Ctx &c, unsigned cap, const V &t, const Config &cfg)
{
    mcrt::execute(c, cfg, [&] { semaphore(cap, t); }, [&](mc::Ctx &c, const Result &r) {
      auto what = [&] { std::string s = "capacity " + std::to_string(cap) + ", threads:"; for (auto &x : t) s += " " + x; return s; };
      unsigned passed = 0, notified = 0;
      int capacity = -1;
      for (auto &e : r.events)
      {
        if (e.kind == Notify) ++notified;
        if (e.kind == Pass) CHECK(++passed <= cap + notified, "too-many", std::to_string(passed) + " waiters have passed with " + std::to_string(notified) + " notifications; " + what());
        if (e.kind == Size) capacity = e.id;
      }
      // somebody still waits only if all has been used up
      CHECK(r.unfinished.empty() || passed == cap + notified, "lost-wakeup", "a waiter is blocked after " + std::to_string(notified) + " notifications of which " + std::to_string(passed) + " have been used (with the capacity); " + what());
      CHECK(capacity == (int)(cap + notified - passed), "capacity", "the capacity is " + std::to_string(capacity) + "; " + what());
      if (c.wantNotes()) c.notes.push_back(what());
    });
}


static void semaphores(unsigned threads, int preemptions, int spurious, bool races)
{
  mc::explore("semaphore-" + std::to_string(threads) + (spurious ? "-spurious" : "") + (races ? "-accesses" : ""), [=](mc::Ctx &c) {
    static const V kinds{"w", "n", "ww", "nn", "wn", "nw"};
    const unsigned cap = (unsigned)c.choose(3);
    V t;
    size_t last = 0;
    for (unsigned i = 0; i < threads; ++i)
    {
      last += c.choose(kinds.size() - last); // in order: the rest is symmetric
      t.push_back(kinds[last]);
    }
    Config cfg;
    cfg.preemptions = preemptions;
    cfg.spurious = spurious;
    cfg.races = races;
    cfg.shardAt = 1;
    runSemaphore(c, cap, t, cfg);
  });
}

// large counts and long histories
static void longSemaphores(int preemptions)
{
  mc::explore("semaphore-long", [=](mc::Ctx &c) {
    static const std::vector<V> shapes{
      {times(40, "n"), times(40, "w")}, {times(40, "w"), times(40, "n")}, {times(20, "wn"), times(20, "nw")}, {times(20, "wn"), times(20, "wn"), "n"},
      {times(20, "n") + times(10, "w"), times(10, "w")}, {times(5, "w"), times(5, "w"), times(5, "w"), times(15, "n")}, {times(5, "nnww"), times(5, "nwnw")},
      {"w", "w", "w", "w", "nnnnnn"}, {"n", "n", "n", "n", "n", "n", times(6, "w")}};
    Config cfg;
    const unsigned cap = std::vector<unsigned>{0, 1, 2, 7, 100, 300, 70000, 2000000000u}[c.choose(8)];
    const V t = shapes[c.choose(shapes.size())];
    const bool few = t.size() <= 2;
    cfg.preemptions = few ? preemptions : preemptions - 1;
    cfg.freeChoices = preemptions;
    cfg.maxSteps = 200000;
    cfg.shardAt = 1;
    runSemaphore(c, cap, t, cfg);
  });
}

// ---------------------------------------------------------------- converter
static std::string recordOf(const std::string &pw, uint32_t n) { return record(refHash(pw), n); }

struct Conversion
{
  V inputs;                  // relative names
  std::vector<V> passwords;  // of each input
  std::vector<unsigned long> mem; // of each operation
  V existing;                // names that exist in the output directory
  std::string user;
};

static std::string fileOf(const V &pws)
{
  std::map<std::pair<uint64_t, uint64_t>, uint32_t> m;
  for (auto &p : pws) ++m[refHash(p)];
  std::string s;
  for (auto &e : m) s += record(e.first, e.second);
  return s;
}

static void checkOutputs(const Conversion &k, const std::string &dir, bool complete, const std::string &what)
{
  // a limit of 1 byte makes a file of every password
  std::multiset<std::string> want;
  for (size_t i = 0; i < k.inputs.size(); ++i)
    if (k.mem[i % k.mem.size()] > 1) want.insert(fileOf(k.passwords[i]));
    else for (auto &p : k.passwords[i]) want.insert(fileOf({p}));
  for (auto &f : listDir(dir + "/out"))
  {
    const std::string s = slurp(dir + "/out/" + f);
    if (std::find(k.existing.begin(), k.existing.end(), f) != k.existing.end())
    {
      CHECK(s == "existing", "overwritten", "the file " + f + " that existed before has been overwritten; " + what);
      continue;
    }
    auto w = want.find(s);
    CHECK(w != want.end(), "mixed", "the file " + f + " (" + std::to_string(s.size()) + " bytes) is not what one conversion writes; " + what);
    want.erase(w);
  }
  if (complete) CHECK(want.empty(), "lost", std::to_string(want.size()) + " output files are missing or overwritten; " + what);
}

static void prepare(const Conversion &k, const std::string &dir)
{
  mc::freshDir(dir);
  ::mkdir((dir + "/out").c_str(), 0777);
  for (size_t i = 0; i < k.inputs.size(); ++i)
  {
    ::mkdir((dir + "/" + k.inputs[i].substr(0, k.inputs[i].find('/'))).c_str(), 0777);
    std::string s;
    for (auto &p : k.passwords[i]) s += "u:" + p + "\n";
    spit(dir + "/" + k.inputs[i], s);
  }
  for (auto &f : k.existing) spit(dir + "/out/" + f, "existing");
}

static void conversion(mc::Ctx &c, const Conversion &k, Config cfg, bool asTool)
{
  const std::string dir = c.dir() + "/x";
  c.step();
  prepare(k, dir);
  V files;
  for (auto &f : k.inputs) files.push_back(dir + "/" + f);
  std::string what = "inputs:";
  for (auto &f : k.inputs) what += " " + f;
  what += " user=" + k.user + " hardware threads=" + std::to_string(cfg.nprocs);
  if (asTool) cfg.keys = k.user;
  mcrt::execute(
    c, cfg,
    [&] {
      if (!asTool) { convert(files, dir + "/out", k.mem, k.user); return; }
      V args{"pwned-converter-cli", "-D", dir + "/out", "--ram", "1", "-T", "2"};
      for (auto &f : files) { args.push_back("-I"); args.push_back(f); }
      tool(args);
    },
    [&](mc::Ctx &c, const Result &r) {
      const bool cancels = k.user.find_first_of("cq") != std::string::npos;
      for (auto &e : r.events)
        if (e.kind == Failed || e.kind == Exit) CHECK(e.id == 0, "failed", "the conversion has failed; " + what);
      checkOutputs(k, dir, !cancels, what);
      if (c.wantNotes()) { std::string s = what + " ->"; for (auto &f : listDir(dir + "/out")) s += " " + f; c.notes.push_back(s); }
    });
}

// ---------------------------------------------------------------- merger
struct Merge
{
  std::vector<std::vector<std::pair<int, uint32_t>>> inputs; // password number, count
  bool removal = false;
  std::string user;
};

static void merging(mc::Ctx &c, const Merge &m, Config cfg, bool asTool)
{
  const std::string dir = c.dir() + "/m", out = dir + "/out.md5";
  c.step();
  mc::freshDir(dir);
  std::map<std::pair<uint64_t, uint64_t>, uint32_t> sum;
  V files, contents;
  for (size_t i = 0; i < m.inputs.size(); ++i)
  {
    std::map<std::pair<uint64_t, uint64_t>, uint32_t> in;
    for (auto &e : m.inputs[i]) { in[refHash("p" + std::to_string(e.first))] += e.second; sum[refHash("p" + std::to_string(e.first))] += e.second; }
    std::string s;
    for (auto &e : in) s += record(e.first, e.second);
    files.push_back(dir + "/in" + std::to_string(i) + ".md5");
    contents.push_back(s);
    spit(files.back(), s);
  }
  std::string want;
  for (auto &e : sum) want += record(e.first, e.second);
  const std::string what = std::to_string(files.size()) + " inputs, user=" + m.user + (m.removal ? ", inputs are to be removed" : "");
  const bool cancels = m.user.find_first_of("cq") != std::string::npos;
  if (asTool) cfg.keys = m.user;
  if (m.removal)
    cfg.onFile = [&](const std::string &op, const std::string &path) {
      if (op == "remove a file" && std::find(files.begin(), files.end(), path) != files.end())
        CHECK(slurp(out) == want, "removed-early", "an input is removed before the output is complete; " + what);
    };
  mcrt::execute(
    c, cfg,
    [&] {
      if (!asTool) { merge(files, out, m.removal, m.user); return; }
      V args{"pwned-merger-cli", "-O", out, "-n", "2", "-T", dir + "/tmp"};
      for (auto &f : files) { args.push_back("-I"); args.push_back(f); }
      tool(args);
    },
    [&](mc::Ctx &c, const Result &r) {
      for (auto &e : r.events)
        if (e.kind == Failed || e.kind == Exit) CHECK(e.id == 0, "failed", "the merge has failed; " + what);
      bool all = true, none = true;
      for (size_t i = 0; i < files.size(); ++i)
      {
        const bool there = exists(files[i]);
        all = all && there && slurp(files[i]) == contents[i];
        none = none && !there;
      }
      const bool complete = slurp(out) == want;
      CHECK(all || complete, "lost", "neither the inputs nor the output are complete; " + what);
      if (!m.removal) CHECK(all, "removed", "an input has been removed or changed; " + what);
      if (!cancels) CHECK(complete, "incomplete", "the output is incomplete; " + what);
      if (!cancels && m.removal) CHECK(none, "not-removed", "an input has not been removed; " + what);
      if (c.wantNotes()) c.notes.push_back(what + (complete ? " complete" : " incomplete") + (all ? " inputs kept" : " inputs removed"));
      c.count(complete ? "complete outputs" : "incomplete outputs");
    });
}

// two merges at once in one queue
static void mergingPair(mc::Ctx &c, Config cfg)
{
  const std::string dir = c.dir() + "/m";
  c.step();
  mc::freshDir(dir);
  V files, want;
  for (int i = 0; i < 4; ++i)
  {
    files.push_back(dir + "/in" + std::to_string(i));
    spit(files.back(), fileOf({"p" + std::to_string(i), "q" + std::to_string(i / 2)}));
  }
  for (int i = 0; i < 2; ++i) want.push_back(fileOf({"p" + std::to_string(2 * i), "p" + std::to_string(2 * i + 1), "q" + std::to_string(i), "q" + std::to_string(i)}));
  mcrt::execute(c, cfg, [&] { mergePair(files, dir + "/out", ""); }, [&](mc::Ctx &, const Result &r) {
    for (auto &e : r.events) if (e.kind == Failed) CHECK(e.id == 0, "failed", "a merge has failed");
    for (int i = 0; i < 2; ++i) CHECK(slurp(dir + "/out" + std::to_string(i)) == want[(size_t)i], "mixed", "the output of merge " + std::to_string(i) + " of two concurrent ones is wrong");
  });
}

// ------------------------------------------- the keys of the programs
// The keys are pressed while an output is being opened, each at an opening of
// its own, or when no thread of the program can go on.
struct Keys
{
  std::string keys;      // ' ' or 'p', 'q', others
  std::vector<int> at;   // per key: number of the opening during which it is pressed, 0: when no thread can go on, -1: at any time
};

struct KeyRun
{
  std::set<std::string> opened;  // outputs
  std::vector<size_t> pressed;   // per key delivered: outputs opened before
  std::vector<size_t> settled;   // and when it had been dealt with, 0 if it was not
  size_t allowed = 0;            // keys
  std::vector<bool> complete;    // per key delivered: was everything written before
};

static void setKeys(Config &cfg, const Keys &k, KeyRun &r, const std::vector<std::string> &places, const std::function<bool()> &complete, const std::string &what)
{
  cfg.keys = k.keys;
  int gates = 0;
  for (int a : k.at) cfg.gates.push_back(a > 0 ? ++gates : a < 0 ? 0 : -1);
  cfg.onKeyWait = [&r](size_t i) { if (i && i <= r.settled.size()) r.settled[i - 1] = std::max<size_t>(r.opened.size(), 1); };
  cfg.onKey = [&r, k, complete, what](size_t i, bool idle) {
    CHECK(idle == (k.at[i] == 0) || k.at[i] < 0, "stuck", "no thread of the program can go on before key " + std::to_string(i) + " is pressed; " + what);
    r.pressed.push_back(r.opened.size());
    r.settled.push_back(0);
    r.complete.push_back(complete());
  };
  cfg.onFile = [&r, k, places](const std::string &op, const std::string &path) {
    if (op != "open a file" || std::none_of(places.begin(), places.end(), [&](const std::string &p) { return path.compare(0, p.size(), p) == 0; })) return;
    if (!r.opened.insert(path).second) return;
    const size_t n = r.opened.size(), i = r.pressed.size();
    if (i < k.at.size() && k.at[i] > 0 && n >= (size_t)k.at[i] && r.allowed <= i)
    {
      r.allowed = i + 1;
      mcrt::allowKey();
      mcrt::settle();
      if (r.settled.size() > i && k.keys[i] == 'q') r.settled[i] = r.opened.size(); // it waits for the operations
    }
  };
}

static void convertKeys(mc::Ctx &c, const Conversion &k, const Keys &keys, Config cfg, size_t threads)
{
  const std::string dir = c.dir() + "/x";
  c.step();
  prepare(k, dir);
  V files, contents;
  size_t total = 0;
  for (auto &f : k.inputs) { files.push_back(dir + "/" + f); contents.push_back(slurp(files.back())); }
  for (auto &p : k.passwords) total += p.size();
  std::string what = std::to_string(files.size()) + " inputs, " + std::to_string(total) + " outputs, keys '" + keys.keys + "' at";
  for (int a : keys.at) what += a > 0 ? " opening " + std::to_string(a) : a < 0 ? " any time" : " rest";
  what += ", hardware threads=" + std::to_string(cfg.nprocs);
  KeyRun r;
  auto complete = [&] { return listDir(dir + "/out").size() == total; };
  setKeys(cfg, keys, r, {dir + "/out/"}, complete, what);
  mcrt::execute(
    c, cfg,
    [&] {
      V args{"pwned-converter-cli", "-D", dir + "/out", "--ram", "1", "-T", std::to_string(threads)}; // so little memory that every line makes a file
      for (auto &f : files) { args.push_back("-I"); args.push_back(f); }
      tool(args);
    },
    [&](mc::Ctx &c, const Result &res) {
      const size_t slack = (size_t)cfg.nprocs; // what is being written is written to the end
      size_t longest = 0;                      // the operations end one after the other
      for (auto &p : k.passwords) longest = std::max(longest, p.size());
      const size_t endSlack = slack + (slack - 1) * longest;
      for (auto &e : res.events)
        if (e.kind == Exit) CHECK(e.id == 0, "failed", "the conversion has failed; " + what);
      bool cancelled = false, paused = false;
      for (size_t i = 0; i < r.pressed.size(); ++i)
      {
        const size_t at = r.settled[i] ? r.settled[i] : r.pressed[i];
        if (paused && keys.keys[i] != ' ' && keys.keys[i] != 'q') CHECK(r.pressed.size() > i + 1 && r.pressed[i + 1] == at, "not-paused", "the conversion goes on though no key has resumed it; " + what);
        if (keys.keys[i] == 'q') { cancelled = true; if (!paused && keys.at[i] > 0) CHECK(r.opened.size() <= at + endSlack, "not-ended", std::to_string(r.opened.size()) + " outputs are begun though the conversion was ended after " + std::to_string(at) + "; " + what); }
        else if (keys.keys[i] == ' ')
        {
          paused = !paused;
          if (!paused || (!r.settled[i] && keys.at[i] <= 0)) continue; // not dealt with
          if (at + slack < total) CHECK(r.pressed.size() > i + 1, "not-paused", "the conversion ends though it was paused after " + std::to_string(at) + " outputs; " + what);
          if (r.pressed.size() > i + 1)
          {
            CHECK(r.pressed[i + 1] <= at + slack, "not-paused", std::to_string(r.pressed[i + 1]) + " outputs are begun though the conversion was paused after " + std::to_string(at) + "; " + what);
            if (at + slack < total) CHECK(!r.complete[i + 1], "not-paused", "the outputs are complete though the conversion was paused; " + what);
            c.count("pauses in effect");
          }
        }
      }
      checkOutputs(k, dir, !cancelled, what);
      if (cancelled) c.count("conversions ended");
      for (size_t i = 0; i < files.size(); ++i) CHECK(slurp(files[i]) == contents[i], "input", "an input has been changed; " + what);
      if (c.wantNotes()) { std::string s = what + " ->"; for (size_t i = 0; i < r.pressed.size(); ++i) s += " key after " + std::to_string(r.pressed[i]) + "/" + std::to_string(r.settled[i]); s += ", " + std::to_string(r.opened.size()) + " outputs"; c.notes.push_back(s); }
    });
}

// keys pressed while a chunk of many lines is being read
static void readKeys(mc::Ctx &c, size_t lines, const Keys &keys, Config cfg)
{
  const std::string dir = c.dir() + "/r", in = dir + "/a.txt", out = dir + "/out";
  const V args{"pwned-converter-cli", "-D", out, "--ram", "1", "-T", "100", "-I", in};
  c.step();
  mc::freshDir(dir);
  ::mkdir(out.c_str(), 0777);
  std::string s;
  for (size_t i = 0; i < lines; ++i) s += "u:" + std::string(180, char('a' + i % 26)) + std::to_string(i * 7 % 1000) + "\n";
  spit(in, s);
  static std::map<size_t, std::map<std::string, std::string>> undisturbed;
  if (!undisturbed.count(lines))
  {
    const pid_t pid = ::fork();
    if (pid == 0)
    {
      const int z = ::open("/dev/null", O_RDWR);
      for (int i = 0; i < 3; ++i) ::dup2(z, i);
      tool(args);
      ::_exit(0);
    }
    ::waitpid(pid, nullptr, 0);
    for (auto &f : listDir(out))
    {
      undisturbed[lines][f] = slurp(out + "/" + f);
      ::unlink((out + "/" + f).c_str());
    }
  }
  const auto &want = undisturbed[lines];
  std::string what = std::to_string(lines) + " lines, " + std::to_string(want.size()) + " outputs, keys '" + keys.keys + "' at";
  for (int a : keys.at) what += a > 0 ? " read " + std::to_string(a) : a < 0 ? " any time" : " rest";
  KeyRun r;
  size_t reads = 0;
  setKeys(cfg, keys, r, {out + "/"}, [&] { return listDir(out).size() == want.size(); }, what);
  cfg.onFile = [&](const std::string &op, const std::string &path) {
    if (op == "open a file" && path.compare(0, out.size() + 1, out + "/") == 0) r.opened.insert(path);
    if (op != "read a file" || path != in) return;
    ++reads;
    const size_t i = r.pressed.size();
    if (i < keys.at.size() && keys.at[i] > 0 && reads >= (size_t)keys.at[i] && r.allowed <= i)
    {
      r.allowed = i + 1;
      mcrt::allowKey();
      mcrt::settle();
    }
  };
  mcrt::execute(
    c, cfg, [&] { tool(args); },
    [&](mc::Ctx &c, const Result &res) {
      for (auto &e : res.events)
        if (e.kind == Exit) CHECK(e.id == 0, "failed", "the conversion has failed; " + what);
      bool cancelled = false, paused = false;
      for (size_t i = 0; i < r.pressed.size(); ++i)
      {
        const size_t at = r.pressed[i];
        if (keys.keys[i] == 'q')
        {
          cancelled = true;
          if (!paused && keys.at[i] > 0) CHECK(r.opened.size() == at, "not-ended", "an output is begun though the conversion was ended while its lines were being read; " + what);
        }
        else
        {
          paused = !paused;
          if (!paused || keys.at[i] <= 0 || at == want.size()) continue;
          CHECK(r.pressed.size() > i + 1 && r.pressed[i + 1] == at, "not-paused", "an output is begun though the conversion was paused while its lines were being read; " + what);
          c.count("pauses in effect");
        }
      }
      for (auto &f : listDir(out))
      {
        auto w = want.find(f);
        CHECK(w != want.end() && slurp(out + "/" + f) == w->second, "differs", "the output " + f + " is not that of an undisturbed conversion; " + what);
      }
      if (!cancelled) CHECK(listDir(out).size() == want.size(), "lost", "outputs are missing; " + what);
      CHECK(slurp(in) == s, "input", "the input has been changed; " + what);
      if (c.wantNotes()) c.notes.push_back(what + " -> " + std::to_string(reads) + " reads");
    });
}

static void mergeKeys(mc::Ctx &c, const Merge &m, const Keys &keys, Config cfg)
{
  const std::string dir = c.dir() + "/m", out = dir + "/out.md5";
  c.step();
  mc::freshDir(dir);
  std::map<std::pair<uint64_t, uint64_t>, uint32_t> sum;
  V files, contents;
  for (size_t i = 0; i < m.inputs.size(); ++i)
  {
    std::map<std::pair<uint64_t, uint64_t>, uint32_t> in;
    for (auto &e : m.inputs[i]) { in[refHash("p" + std::to_string(e.first))] += e.second; sum[refHash("p" + std::to_string(e.first))] += e.second; }
    std::string s;
    for (auto &e : in) s += record(e.first, e.second);
    files.push_back(dir + "/in" + std::to_string(i) + ".md5");
    contents.push_back(s);
    spit(files.back(), s);
  }
  std::string want;
  for (auto &e : sum) want += record(e.first, e.second);
  std::string what = std::to_string(files.size()) + " inputs, keys '" + keys.keys + "' at";
  for (int a : keys.at) what += a > 0 ? " opening " + std::to_string(a) : a < 0 ? " any time" : " rest";
  KeyRun r;
  const size_t total = files.size() - 1; // outputs, two files at once
  auto complete = [&] { return exists(out) && slurp(out) == want; };
  setKeys(cfg, keys, r, {out, dir + "/tmp/"}, complete, what);
  mcrt::execute(
    c, cfg,
    [&] {
      V args{"pwned-merger-cli", "-O", out, "-n", "2", "-T", dir + "/tmp"};
      for (auto &f : files) { args.push_back("-I"); args.push_back(f); }
      tool(args);
    },
    [&](mc::Ctx &c, const Result &res) {
      for (auto &e : res.events)
        if (e.kind == Exit) CHECK(e.id == 0, "failed", "the merge has failed; " + what);
      bool cancelled = false, paused = false;
      for (size_t i = 0; i < r.pressed.size(); ++i)
      {
        const size_t at = r.pressed[i];
        if (paused && keys.keys[i] != 'p' && keys.keys[i] != 'q') CHECK(r.pressed.size() > i + 1 && r.pressed[i + 1] == at && !r.complete[i + 1], "not-paused", "the merge goes on though no key has resumed it; " + what);
        if (keys.keys[i] == 'q') { cancelled = true; if (!paused && keys.at[i] > 0) CHECK(r.opened.size() <= at && at <= total && !complete(), "not-ended", "the merge goes on though it was ended; " + what); }
        else if (keys.keys[i] == 'p')
        {
          paused = !paused;
          if (!paused || keys.at[i] <= 0) continue; // how far the merge has got is not known
          CHECK(r.pressed.size() > i + 1, "not-paused", "the merge ends though it was paused while it began output " + std::to_string(at) + "; " + what);
          CHECK(r.pressed[i + 1] <= at && !r.complete[i + 1], "not-paused", "the merge goes on though it was paused; " + what);
          c.count("pauses in effect");
        }
      }
      if (!cancelled) CHECK(complete(), "incomplete", "the output is incomplete; " + what);
      else c.count("merges ended");
      for (size_t i = 0; i < files.size(); ++i) CHECK(slurp(files[i]) == contents[i], "input", "an input has been changed; " + what);
      CHECK(!exists(dir + "/tmp") || listDir(dir + "/tmp").empty(), "left", "an intermediate file remains; " + what);
      if (c.wantNotes()) c.notes.push_back(what + (complete() ? " complete" : " incomplete"));
    });
}

int main(int argc, char **argv)
{
  mc::parseArgs(argc, argv);
  const std::string p = mc::opt.prop;
  const bool T = mc::opt.thorough();
  const int more = mc::opt.args.count("pre") ? std::stoi(mc::opt.arg("pre")) : 0;
  auto pre = [&](int q, int t) { return (T ? t : q) + more; };

  // the programs themselves, with keys pressed at any moment
  const std::string self = argv[0];
  if (self.find("schedconvert") != std::string::npos && p == "C35")
  {
    const Conversion two{{"a/x.txt", "b/x.txt"}, {{"p1", "p2", "p3", "p4"}, {"q1", "q2", "q3", "q4"}}, {1}, {}, ""};
    const Conversion three{{"a/x.txt", "b/y.txt", "c/z.txt"}, {{"p1", "p2"}, {"q1", "q2", "q3"}, {"r1"}}, {1}, {}, ""};
    const Conversion one{{"a/x.txt"}, {{"p1", "p2", "p3", "p4", "p5"}}, {1}, {}, ""};
    const std::vector<Conversion> ks{one, two, three};
    for (size_t i = 0; i < ks.size(); ++i)
      mc::explore("convert-pressed-" + std::to_string(i + 1), [&, i](mc::Ctx &c) {
        Config cfg;
        size_t total = 0;
        for (auto &x : ks[i].passwords) total += x.size();
        const int n = (int)total;
        const int first = 1 + (int)c.choose(total), kind = (int)c.choose(7);
        const int second = kind == 1 || kind == 2 ? std::min(n, first + 1 + (int)c.choose(T ? 4 : 2)) : 0;
        const Keys keys = kind == 0 ? Keys{"  ", {first, 0}}
                        : kind == 1 ? Keys{"    ", {first, 0, second, 0}}
                        : kind == 2 ? Keys{"  q", {first, 0, second}}
                        : kind == 3 ? Keys{" q", {first, 0}}
                        : kind == 4 ? Keys{"q", {first}}
                        : kind == 5 ? Keys{"xpz", {first, first + 1, first + 2}}
                                    : Keys{" xpz\n ", {first, 0, 0, 0, 0, 0}};
        cfg.preemptions = pre(0, 1);
        cfg.files = true;
        cfg.nprocs = 1 + (int)c.choose(2);
        convertKeys(c, ks[i], keys, cfg, 20000);
      });
    mc::explore("convert-pressed-reading", [&](mc::Ctx &c) {
      Config cfg;
      const size_t lines = c.pick(T ? std::vector<size_t>{90, 130, 131, 300, 420} : std::vector<size_t>{90, 300});
      const int reads = 2 * (int)(lines * 186 / 8191) + 4; // the first lines are read twice
      const int first = 1 + (int)c.choose((size_t)reads), kind = (int)c.choose(5);
      const int second = kind > 2 ? first + 1 + (int)c.choose(2) : 0;
      const Keys keys = kind == 0 ? Keys{"  ", {first, 0}}
                      : kind == 1 ? Keys{"q", {first}}
                      : kind == 2 ? Keys{" q", {first, 0}}
                      : kind == 3 ? Keys{"      ", {first, 0, second, 0, second + 1, 0}}
                                  : Keys{"  q", {first, 0, second}};
      cfg.preemptions = pre(0, 1);
      cfg.nprocs = 1;
      cfg.maxSteps = 100000;
      readKeys(c, lines, keys, cfg);
    });
    mc::explore("convert-pressed-again", [&](mc::Ctx &c) {
      Config cfg;
      cfg.preemptions = pre(1, 2);
      cfg.nprocs = 1;
      const int first = 1 + (int)c.choose(T ? 3 : 2);
      const Keys keys = c.flag() ? Keys{"    ", {first, 0, -1, 0}} : Keys{"      ", {first, 0, -1, -1, -1, 0}};
      convertKeys(c, one, keys, cfg, 20000);
    });
    return mc::finish();
  }
  if (self.find("schedmerge") != std::string::npos && p == "C35")
  {
    const std::vector<Merge> ms{
      {{{{1, 2}, {3, 1}, {5, 1}}, {{1, 3}, {2, 1}, {4, 1}}}},
      {{{{1, 2}, {3, 1}}, {{1, 3}, {2, 1}}, {{7, 1}, {8, 1}, {1, 1}}}},
      {{{{1, 2}, {3, 1}}, {{1, 3}, {2, 1}}, {{7, 1}, {8, 1}}, {{9, 1}, {1, 1}}}},
    };
    for (size_t i = 0; i < ms.size(); ++i)
      mc::explore("merge-pressed-" + std::to_string(i + 2), [&, i](mc::Ctx &c) {
        Config cfg;
        const int n = (int)i + 1;
        const int first = 1 + (int)c.choose((size_t)n), kind = (int)c.choose(7);
        int second = 0;
        if (kind == 1 || kind == 2)
        {
          if (first == n) throw mc::Skip();
          second = first + 1 + (int)c.choose((size_t)(n - first));
        }
        const Keys keys = kind == 0 ? Keys{"pp", {first, 0}}
                        : kind == 1 ? Keys{"pppp", {first, 0, second, 0}}
                        : kind == 2 ? Keys{"ppq", {first, 0, second}}
                        : kind == 3 ? Keys{"pq", {first, 0}}
                        : kind == 4 ? Keys{"q", {first}}
                        : kind == 5 ? Keys{" xz", {first, first + 1, first + 2}}
                                    : Keys{"p xz\np", {first, 0, 0, 0, 0, 0}};
        cfg.preemptions = pre(i == 2 ? 0 : 1, i == 2 ? 1 : 2);
        cfg.files = true;
        mergeKeys(c, ms[i], keys, cfg);
      });
    mc::explore("merge-pressed-again", [&](mc::Ctx &c) {
      Config cfg;
      cfg.preemptions = pre(1, 2);
      cfg.nprocs = 1 + (int)c.choose(2);
      mergeKeys(c, ms[0], Keys{"pppp", {1, 0, -1, 0}}, cfg);
    });
    return mc::finish();
  }
  if (self.find("schedconvert") != std::string::npos)
  {
    const bool races = p == "C16";
    mc::explore(std::string("convert-program") + (races ? "-accesses" : ""), [&](mc::Ctx &c) {
      Config cfg;
      Conversion k{{"a/x.txt", "b/x.txt"}, {{"p1"}, {"p2"}}, {1 << 20}, {}, ""};
      k.user = c.pick(T ? V{"", "q", " q", "  q", "xq"} : V{"", "q", "  q"});
      cfg.preemptions = pre(k.user.empty() && !races ? 1 : 0, 1);
      cfg.races = races;
      cfg.files = !races;
      cfg.nprocs = 2;
      conversion(c, k, cfg, true);
    });
    return mc::finish();
  }
  if (self.find("schedmerge") != std::string::npos)
  {
    const bool races = p == "C16";
    mc::explore(std::string("merge-program") + (races ? "-accesses" : ""), [&](mc::Ctx &c) {
      Config cfg;
      Merge m{{{{1, 2}}, {{1, 3}}, {{2, 1}}}};
      m.user = c.pick(T ? V{"", "q", "pq", "ppq", "xq"} : V{"", "q", "ppq"});
      cfg.preemptions = pre(m.user.empty() ? 1 : 0, 1);
      cfg.races = races;
      cfg.files = !races;
      cfg.nprocs = 2;
      merging(c, m, cfg, true);
    });
    return mc::finish();
  }
  if (p == "C12")
  {
    plan({"one", {"aewfz", "aEwfz", "aeswfz"}, {}, 1, 0, {0}, {1, 2}, pre(3, 4), 1, true});
    plan({"two", {"aaewfz", "aaEwfz"}, {}, 2, 0, {0}, {1, 2}, pre(2, 3), 0, true});
    plan({"two-spurious", {"aaewfz"}, {}, 2, 0, {0}, {1}, pre(1, 2), 1, true});
    plan({"three", {"aaaEwfz", "aaaewfz"}, {}, 3, 0, {0}, {1, 2}, pre(1, 2), 0, true});
    plan({"four", {"aaaaewfz"}, {}, 4, 0, {0}, {1, 2, 3}, pre(0, 1), 0, true});
    plan({"histories", {"ewfaewfz", "wewaewfz", "aewaewfz", "aewewaewfz", "aeaewfz", "aeawewfz", "aezawewfz", "asesawewfz", "aeeawewfz", "aewaEwaewfz"}, {}, 3, 0, {0}, {1, 2}, pre(1, 2), 0, true});
    many("many", {times(6, "a") + "ewfz", times(9, "a") + "Ewfz", times(17, "a") + "ewfz", times(33, "a") + "ewfz"}, {1, 2, 3, 8}, 0, 0, pre(1, 2), true);
    many("many-preempted", {times(6, "a") + "ewfz", times(10, "a") + "Ewfz", times(5, "aewfz")}, {1, 2, 3, 8}, 0, 1, pre(0, 1), true);
    many("many-runs", {times(12, "aewfz"), times(6, "aaewfz"), times(4, "aaaewfz") + times(6, "aEwfz")}, {1, 2, 3}, 0, 0, pre(1, 2), true);
  }
  if (p == "C13")
  {
    for (int n = 2; n <= 4; ++n)
      mc::explore("priorities-" + std::to_string(n), [&, n](mc::Ctx &c) {
        Script s;
        Config cfg;
        cfg.preemptions = n == 2 ? pre(2, 3) : n == 3 ? pre(1, 2) : pre(0, 1);
        cfg.nprocs = 1 + (int)c.choose((size_t)std::min(n, 3));
        s.ops = opsOf((size_t)n, 0);
        permute(c, s.ops);
        s.main = std::string((size_t)n, 'a') + "ew";
        runQueue(c, s, cfg);
      });
    mc::explore("equal-priorities", [&](mc::Ctx &c) {
      Script s;
      Config cfg;
      cfg.preemptions = pre(1, 2);
      cfg.nprocs = 1 + (int)c.choose(2);
      s.ops = opsOf(3, 0);
      for (auto &o : s.ops) o.prio = std::vector<long long>{0, 1, -4000000000LL}[c.choose(3)];
      s.main = "aaaew";
      runQueue(c, s, cfg);
    });
    many("many", {times(6, "a") + "ew", times(10, "a") + "ew", times(20, "a") + "ew"}, {1, 2, 3, 5, 8}, 0, 0, pre(1, 2), false);
    many("many-preempted", {times(6, "a") + "ew", times(10, "a") + "ew", times(4, "aaew"), "aaecx" + times(4, "aaew")}, {1, 2, 3, 8}, 0, 1, pre(0, 1), false);
    many("many-runs", {times(12, "aaew"), times(4, "aaaew") + "aaecxaaew", times(4, "aecx") + "aaew", times(6, "aaew") + "aaaaew"}, {1, 2, 3}, 0, 0, pre(1, 2), true);
    // the limit after earlier runs, failures and cancellations
    plan({"second-run", {"aaewaaew", "aewaaew", "ewaaew"}, {}, 4, 0, {0}, {1, 2}, pre(1, 2), 0, true});
    plan({"after-cancel", {"aaecwxaaew", "aecxaaew", "cxaaew", "aaecxaaew"}, {}, 4, 0, {0}, {1, 2}, pre(1, 2)});
    plan({"paused", {"aaaeprw", "aaaeptrw"}, {}, 3, 1, {1}, {1, 2}, pre(1, 2)});
  }
  if (p == "C14")
  {
    plan({"main-1", {"aeprw", "aevprw", "aeptrw", "aepprw", "aeprrw", "aerwf", "paew", "aewpaewf", "aewpraewf", "raewf"}, {}, 1, 2, {0, 1, 2}, {1}, pre(2, 3)});
    plan({"main-2", {"aaeprw", "aaeptrw", "aaeptvrw", "aaeptrptrw", "aaeprprw"}, {}, 2, 1, {0, 1}, {1, 2}, pre(2, 3)});
    plan({"main-deep", {"aaeptrw"}, {}, 2, 1, {0}, {1}, pre(3, 4)});
    plan({"user", {"auewj", "aauewj", "auewjaewf"}, {"pr", "prpr", "ptr", "ppr", "rpr", "prr"}, 2, 1, {0, 1}, {1}, pre(1, 2)});
    plan({"spurious", {"aaeptrw", "auewj"}, {"pr", "ptr"}, 2, 1, {0, 1}, {1}, pre(1, 1), 1});
    plan({"three", {"aaaeptrw", "aaaeprw"}, {}, 3, 0, {0}, {1, 2}, pre(1, 2)});
    many("many", {times(8, "a") + "eptrw", times(8, "a") + "e" + times(6, "ptr") + "w", times(6, "a") + "e" + times(5, "vpr") + "w"}, {1, 2, 4}, 1, 0, pre(1, 2), false);
    many("many-preempted", {times(6, "a") + "eptrw", times(4, "a") + "e" + times(3, "pr") + "w", times(3, "aaeptrw")}, {1, 2, 8}, 1, 1, pre(0, 1), false);
    many("many-runs", {times(5, "aaeptrw"), times(5, "aaepvrw"), "aeptrw" + times(4, "aew") + "aeptrw"}, {1, 2}, 1, 0, pre(1, 2), false);
    plan({"throwing", {"aaeptrwf"}, {}, 2, 1, {0}, {1, 2}, pre(1, 2), 0, true});
  }
  if (p == "C15")
  {
    plan({"main-1", {"aecwf", "aecrwf", "aeccw", "aecpw", "aepcwf", "aeptcwf", "aeprcwf", "acewf", "caewf", "aewcf", "aewcwf"}, {}, 1, 2, {0, 1}, {1}, pre(2, 3), 0, false, true});
    plan({"main-2", {"aaecwf", "aaevcwf", "aaepcwf", "aaeptcwf", "aaecwfz"}, {}, 2, 1, {0, 1}, {1, 2}, pre(2, 3), 0, false, true});
    plan({"deep", {"aaecwf"}, {}, 2, 1, {0}, {1, 2}, pre(2, 3)});
    plan({"reset", {"aaexaewf", "aaecwxaewf", "aaecxaewf", "cxaewf", "xaewf", "acxaewf", "aepxaewf", "aecxaecxaewf"}, {}, 3, 1, {0}, {1, 2}, pre(2, 3)});
    if (T) plan({"user", {"aauewjf", "aauEwjf", "auewjxaewf"}, {"c", "pc", "prc", " q", "  q", "cc", "cr"}, 2, 1, {0, 1}, {1, 2}, 2});
    else
    {
      plan({"user", {"aauewjf", "auewjxaewf"}, {"c", "pc", " q", "  q", "cr"}, 2, 1, {0}, {1}, 1 + more});
      plan({"user-1", {"auewjf", "auEwjf"}, {"c", "pc", "prc", "  q", "cc", "cr"}, 1, 1, {1}, {1, 2}, 1 + more});
    }
    many("many", {times(8, "a") + "ecwf", times(8, "a") + "evcwf", times(6, "a") + "eptcwf", times(6, "a") + "ecxaaewf"}, {1, 2, 4, 8}, 1, pre(0, 1), pre(1, 2), false);
    many("many-preempted", {times(6, "a") + "ecwf", times(3, "aaecx") + "aaewf", times(6, "a") + "epcxaaewf"}, {1, 2, 8}, 1, 1, pre(0, 1), false);
    many("many-runs", {times(6, "aecx") + "aewf", times(4, "aaevcx") + "aaewf", times(4, "aepcx") + "aewf", times(3, "aewaecx") + "aewf"}, {1, 2}, 1, 0, pre(1, 2), true);
    plan({"throwing", {"aaecwf", "aaecxaewf"}, {}, 3, 1, {0}, {1}, pre(2, 3), 0, true});
    plan({"spurious", {"aepcwf", "aaecwf"}, {}, 2, 1, {1}, {1}, pre(1, 2), 1});
  }
  if (p == "C17")
  {
    semaphores(2, pre(4, 6), 0, false);
    semaphores(2, pre(2, 3), 1, false);
    semaphores(3, pre(2, 3), 0, false);
    semaphores(3, pre(1, 2), 1, false);
    semaphores(4, pre(0, 2), 0, false);
    longSemaphores(pre(1, 2));
  }
  if (p == "C16")
  {
    plan({"run", {"aaewfz", "aewaew", "aeaew"}, {}, 2, 1, {0}, {1, 2}, pre(1, 2), 0, true}, true);
    plan({"pause", {"aaeprw", "aaeptrw"}, {}, 2, 1, {0, 1}, {1, 2}, pre(2, 3)}, true);
    plan({"cancel", {"aaecwf", "aaepcw", "aaexaew", "aaezw"}, {}, 2, 1, {0}, {1, 2}, pre(2, 3)}, true);
    plan({"user", {"aauewj", "auewjxaew"}, {"pr", "c", "prc", "  q", "zf"}, 2, 1, {0}, {1, 2}, pre(1, 2)}, true);
    many("many", {times(7, "a") + "eptrw", times(7, "a") + "evcwf", times(3, "aaewf"), times(3, "aaecxf") + "aew"}, {2, 3, 8}, 1, 0, pre(1, 2), true, true);
    semaphores(3, pre(1, 2), 0, true);
  }
  if (p == "C16" || p == "C08")
  {
    const bool races = p == "C16";
    const std::vector<Conversion> ks{
      {{"a/x.txt", "b/x.txt"}, {{"p1"}, {"p2"}}, {1 << 20}, {}, ""},
      {{"a/x.txt", "b/x.txt"}, {{"p1", "p2"}, {"p1", "p3"}}, {1}, {}, ""},
      {{"a/x.txt", "b/x.txt"}, {{"p1"}, {"p2"}}, {1 << 20}, {"x-0001.md5"}, ""},
      {{"a/x.txt", "b/x.txt", "c/x.txt"}, {{"p1"}, {"p1"}, {"p3"}}, {1 << 20}, {}, ""},
      {{"a/x.txt", "b/y.txt"}, {{"p1"}, {"p2"}}, {1 << 20}, {}, ""},
      {{"a/x.txt", "b/x-0001.txt"}, {{"p1", "p2"}, {"p2"}}, {1, 1 << 20}, {}, ""},
    };
    mc::explore(std::string("convert") + (races ? "-accesses" : ""), [&](mc::Ctx &c) {
      Config cfg;
      const size_t i = c.choose(races ? 3 : ks.size());
      Conversion k = ks[i];
      cfg.preemptions = races ? pre(1, 2) : i == 0 ? pre(2, 3) : pre(1, 2);
      cfg.races = races;
      cfg.files = !races;
      cfg.nprocs = races ? 2 : (int)k.inputs.size();
      conversion(c, k, cfg, false);
    });
    mc::explore(std::string("convert-keys") + (races ? "-accesses" : ""), [&](mc::Ctx &c) {
      Config cfg;
      Conversion k = ks[T ? c.choose(2) : 0];
      k.user = c.pick(T ? V{"q", " q", "  q", "c"} : races ? V{"q"} : V{"q", "  q"});
      if (races && !T) { k.inputs.resize(1); k.passwords.resize(1); }
      cfg.preemptions = 1 + more;
      cfg.races = races;
      cfg.files = !races;
      cfg.nprocs = T ? 1 + (int)c.choose(2) : 2;
      conversion(c, k, cfg, false);
    });
  }
  if (p == "C16")
    mc::explore("merge-pair-accesses", [&](mc::Ctx &c) {
      Config cfg;
      cfg.preemptions = pre(2, 3);
      cfg.races = true;
      mergingPair(c, cfg);
    });
  if (p == "C16" || p == "C11")
  {
    const bool races = p == "C16";
    const std::vector<Merge> ms{
      {{{{1, 2}}, {{1, 3}}}},
      {{{{1, 2}, {2, 1}}, {{2, 3}}}},
      {{{{1, 1}, {2, 1}, {3, 1}}, {{3, 2}}, {{2, 5}, {4, 1}}}},
      {{{{1, 2}}}},
      {{{}, {{1, 2}}}},
    };
    mc::explore(std::string("merge") + (races ? "-accesses" : "-removal"), [&](mc::Ctx &c) {
      Config cfg;
      Merge m = ms[c.choose(races ? 3 : ms.size())];
      m.removal = !races || c.flag();
      m.user = c.pick(V{"", "c", "q", "pc", "prc", " q", "  q", "pr"});
      cfg.preemptions = pre(races || m.user.size() > 1 ? 1 : 2, races ? 2 : 3);
      cfg.races = races;
      cfg.files = !races;
      merging(c, m, cfg, false);
    });
  }
  return mc::finish();
}
