// C10, C11, C24 (crash part): every system call of a tool on its files fails,
// is shortened, interrupted, or is the last thing that happens.
#include <bzlib.h>
#include "../common/inject.hpp"
#include "../common/markovmodel.hpp"
#include "../common/refreader.hpp"

using mc::Ctx;
using V = std::vector<std::string>;
using H = std::pair<uint64_t, uint64_t>;
using Counts = std::map<H, uint64_t>;
using inject::Event;
using inject::Plan;
using inject::Run;

static std::string tool(const char *name) { return mc::opt.arg(name); }

static void walk(const std::string &root, const std::string &rel, std::map<std::string, std::string> &out)
{
  for (auto &e : listDir(root + rel))
  {
    const std::string p = rel + "/" + e;
    struct stat st;
    if (::lstat((root + p).c_str(), &st)) continue;
    if (S_ISDIR(st.st_mode)) { out[p + "/"] = ""; walk(root, p, out); }
    else out[p] = slurp(root + p);
  }
}
static std::map<std::string, std::string> snapshot(const std::string &root)
{
  std::map<std::string, std::string> m;
  walk(root, "", m);
  return m;
}

// the content of complete databases, "" in `why` if it is well-formed
static Counts parseDb(const std::string &content, std::string &why)
{
  Counts r;
  why.clear();
  if (content.size() % 20) why = "incomplete record";
  H last{0, 0};
  for (size_t i = 0; i + 20 <= content.size(); i += 20)
  {
    H h;
    uint32_t n;
    memcpy(&h.first, content.data() + i, 8);
    memcpy(&h.second, content.data() + i + 8, 8);
    memcpy(&n, content.data() + i + 16, 4);
    if (i && !(last < h)) why = "not sorted";
    r[h] += n;
    last = h;
  }
  return r;
}
static std::string encode(const Counts &m)
{
  std::string s;
  for (auto &e : m) s += record(e.first, (uint32_t)e.second);
  return s;
}
static Counts bigDb(size_t n, uint64_t step)
{
  Counts m;
  for (size_t i = 0; i < n; ++i) m[{i * step * 0x10000000000000ULL, i}] = i % 5 + 1;
  return m;
}

struct Scenario
{
  std::string name;
  std::map<std::string, std::string> files; // below the root; a trailing slash makes a directory
  std::function<V(const std::string &root)> args;
  std::string in;
  // "" if the result is complete and correct
  std::function<std::string(const std::string &root, const std::map<std::string, std::string> &after)> right;
  // is this file input/output data?
  std::function<bool(const std::string &path)> input = [](const std::string &p) { return p.rfind("/in", 0) == 0; };
  std::function<bool(const std::string &path)> output = [](const std::string &p) { return p.rfind("/out", 0) == 0 || p.rfind("/tmp", 0) == 0; };
};

static void setup(const Scenario &s, const std::string &root)
{
  mc::freshDir(root);
  for (auto d : {"/in", "/out", "/tmp", "/cwd"}) ::mkdir((root + d).c_str(), 0777);
  for (auto &f : s.files)
  {
    if (f.first.back() == '/') ::mkdir((root + f.first).c_str(), 0777);
    else spit(root + f.first, f.second);
  }
}
static Run run(const Scenario &s, const std::string &root, const std::string &dir, const std::vector<Plan> &plans)
{
  return inject::traced(s.args(root), root, dir, plans, root + "/cwd", "/tmp/", s.in, 15);
}

// the calls of a run in which nothing fails, in an order that does not depend on the schedule
static std::vector<Event> record(const Scenario &s)
{
  const std::string dir = mc::opt.scratch + "/rec", root = dir + "/x";
  mc::freshDir(dir);
  setup(s, root);
  Run r = run(s, root, dir, {});
  if (!r.ok()) { fprintf(stderr, "%s: %s\n", s.name.c_str(), r.text().c_str()); }
  auto ev = r.events;
  std::sort(ev.begin(), ev.end());
  return ev;
}

static const char *errName(int e) { return e == EIO ? "EIO" : e == ENOSPC ? "ENOSPC" : e == EACCES ? "EACCES" : e == EMFILE ? "EMFILE" : e == EINTR ? "EINTR" : e == EFBIG ? "EFBIG" : "?"; }
static std::string show(const Plan &p)
{
  std::string s = p.kind + " of " + p.path + " #" + std::to_string(p.occ);
  switch (p.action)
  {
  case Plan::Error: return s + " fails with " + errName(p.error) + (p.persistent ? ", as all later ones" : "");
  case Plan::Short: return s + " does at most " + std::to_string(p.size) + " bytes" + (p.persistent ? ", as all later ones" : "");
  case Plan::KillBefore: return "process killed before " + s;
  case Plan::KillAfter: return "process killed after " + s;
  case Plan::Torn: return "process killed after " + std::to_string(p.size) + " bytes of " + s;
  default: return s;
  }
}

static std::vector<Plan> actions(const Event &e, bool th)
{
  std::vector<Plan> r;
  Plan p;
  p.kind = e.kind;
  p.path = e.path;
  p.occ = e.occ;
  p.output = e.output;
  auto err = [&](std::initializer_list<int> es) {
    p.action = Plan::Error;
    for (int x : es)
      for (bool per : {false, true}) { p.error = x; p.persistent = per; r.push_back(p); }
  };
  auto sh = [&](std::initializer_list<size_t> sizes) {
    p.action = Plan::Short;
    for (size_t x : sizes)
      for (bool per : {false, true}) { p.size = x; p.persistent = per; r.push_back(p); }
  };
  if (e.kind == "open" || e.kind == "create") { if (th) err({EACCES, EMFILE, EIO}); else err({EACCES, EMFILE}); }
  else if (e.kind == "read") { err({EIO}); sh({1, 7}); if (th) sh({19, 100, 4095}); }
  else if (e.kind == "write") { err({ENOSPC, EIO}); sh({1, 13}); if (th) { err({EFBIG}); sh({19, 100}); } }
  else if (e.kind == "close") err({EIO, ENOSPC});
  else if (e.kind != "seek") err({EIO}); // lseek cannot fail on an open regular file
  if (e.kind == "read" || e.kind == "write")
  {
    p.action = Plan::Error;
    p.error = EINTR;
    p.persistent = false;
    r.push_back(p);
  }
  return r;
}

static bool demanding(const Scenario &s, const Plan &p)
{
  if (p.action != Plan::Error || p.error == EINTR) return false;
  if (s.input(p.path)) return p.kind == "open" || p.kind == "read";
  if (s.output(p.path)) return p.kind == "create" || p.kind == "write" || (p.kind == "close" && p.output);
  return false;
}

static void judge(Ctx &c, const Scenario &s, const std::string &root, const Run &r, const std::vector<Plan> &plans, const std::map<std::string, std::string> &before)
{
  std::string what = s.name + ": ";
  for (auto &p : plans) what += show(p) + "; ";
  const auto after = snapshot(root);
  c.check(!r.hung, "hang", what + r.text());
  c.check(r.exited || r.sig == SIGABRT, "crash", what + r.text());
  for (auto &e : before)
    if (s.input(e.first))
    {
      auto a = after.find(e.first);
      if (a == after.end()) c.fail("input-removed", what + e.first + " has been removed: " + r.text());
      if (a->second != e.second) c.fail("input-changed", what + e.first + " has been changed: " + r.text());
    }
  bool harmless = true, demanded = false;
  for (auto &p : plans)
  {
    harmless = harmless && p.action == Plan::Short;
    demanded = demanded || demanding(s, p);
  }
  if (!r.hit) c.count("not_reached");
  if (r.ok())
  {
    const std::string w = s.right(root, after);
    c.check(w.empty(), "silent", what + "success is reported, but " + w + "\n" + r.text());
    if (r.hit && plans.size() == 1) c.check(!demanded, "unreported", what + "the error is not reported: " + r.text());
    c.count("succeeded");
  }
  else
  {
    c.check(!(harmless && r.hit), "interrupted", what + "the tool fails though no call failed for good: " + r.text());
    c.check(r.hit, "flaky", what + "the tool fails though nothing was injected: " + r.text());
    c.count("failed");
  }
  c.outcome(s.name + std::to_string(r.code) + std::to_string(r.sig) + (plans.empty() ? "" : plans[0].kind));
  c.state(mc::hashOf(what + std::to_string(r.code)));
  if (c.wantNotes()) c.note(what + "-> " + (r.exited ? "exit status " + std::to_string(r.code) : "signal " + std::to_string(r.sig)));
}

// ---------------------------------------------------------------- C10
static std::string textOf(size_t lines, size_t period)
{
  std::string t;
  for (size_t i = 0; i < lines; ++i) t += "user" + std::to_string(i) + ":password" + std::to_string(i % period) + "\n";
  return t;
}
static Counts hashes(const std::string &text)
{
  Counts m;
  ref::Reader r(ref::lines(text), ':', ref::Never, ref::Never);
  for (auto &p : r.passwords()) ++m[r.hash(p)];
  return m;
}

static Scenario converting(const std::string &name, std::map<std::string, std::string> texts, const std::string &threads, bool scan)
{
  Scenario s;
  s.name = name;
  Counts want;
  V given;
  for (auto &t : texts)
  {
    const size_t slash = t.first.rfind('/');
    if (slash != std::string::npos) s.files["/in/" + t.first.substr(0, slash + 1)] = "";
    s.files["/in/" + t.first] = t.second;
    given.push_back(t.first);
    for (auto &e : hashes(t.second)) want[e.first] += e.second;
  }
  s.args = [=](const std::string &root) {
    V a{tool("convert"), "-D", root + "/out", "--ram", "1", "-T", threads};
    if (scan) { a.push_back("-S"); a.push_back(root + "/in"); }
    else for (auto &g : given) { a.push_back("-I"); a.push_back(root + "/in/" + g); }
    return a;
  };
  s.right = [=](const std::string &, const std::map<std::string, std::string> &after) -> std::string {
    Counts got;
    for (auto &f : after)
      if (f.first.rfind("/out/", 0) == 0)
      {
        std::string why;
        for (auto &e : parseDb(f.second, why)) got[e.first] += e.second;
        if (!why.empty()) return f.first + " has an " + why;
      }
    return got == want ? "" : "the output files do not hold the passwords of the inputs";
  };
  return s;
}
static Scenario merging(const std::string &name, const std::vector<Counts> &dbs, int n, bool scan)
{
  Scenario s;
  s.name = name;
  Counts want;
  for (size_t i = 0; i < dbs.size(); ++i)
  {
    s.files["/in/" + std::string(1, char('a' + i)) + ".md5"] = encode(dbs[i]);
    for (auto &e : dbs[i]) want[e.first] += e.second;
  }
  const size_t k = dbs.size();
  s.args = [=](const std::string &root) {
    V a{tool("merge"), "-O", root + "/out/db", "-n", std::to_string(n), "-T", root + "/tmp"};
    if (scan) { a.push_back("-S"); a.push_back(root + "/in"); }
    else for (size_t i = 0; i < k; ++i) { a.push_back("-I"); a.push_back(root + "/in/" + std::string(1, char('a' + i)) + ".md5"); }
    return a;
  };
  s.right = [=](const std::string &, const std::map<std::string, std::string> &after) -> std::string {
    auto f = after.find("/out/db");
    if (f == after.end()) return "there is no output";
    std::string why;
    const Counts got = parseDb(f->second, why);
    if (!why.empty()) return "the output has an " + why;
    return got == want ? "" : "the output is not the sum of the inputs";
  };
  return s;
}
static Scenario indexing(const std::string &name, const Counts &db, unsigned bits)
{
  Scenario s;
  s.name = name;
  s.files["/in/db"] = encode(db);
  std::string want;
  std::vector<uint64_t> idx(1ull << bits, ~0ull);
  uint64_t pos = 0;
  for (auto &e : db)
  {
    uint64_t &i = idx[e.first.first >> (64 - bits)];
    if (i == ~0ull) i = pos;
    pos += 20;
  }
  want.assign((const char *)idx.data(), idx.size() * 8);
  s.args = [=](const std::string &root) { return V{tool("index"), "-I", root + "/in/db", "-O", root + "/out/idx", "-B", std::to_string(bits)}; };
  s.right = [=](const std::string &, const std::map<std::string, std::string> &after) -> std::string {
    auto f = after.find("/out/idx");
    return f == after.end() ? "there is no index" : f->second == want ? "" : "the index is wrong";
  };
  return s;
}
static Scenario swapping(const std::string &name, size_t records)
{
  Scenario s;
  s.name = name;
  const std::string db = encode(bigDb(records, 3));
  s.files["/in/db"] = db + "x";
  std::string want;
  for (size_t i = 0; i < db.size(); i += 20)
  {
    std::string r = db.substr(i, 20);
    std::reverse(r.begin(), r.begin() + 8);
    std::reverse(r.begin() + 8, r.begin() + 16);
    want += r;
  }
  s.args = [=](const std::string &root) { return V{tool("be2le"), root + "/in/db", root + "/out/db"}; };
  s.right = [=](const std::string &, const std::map<std::string, std::string> &after) -> std::string {
    auto f = after.find("/out/db");
    return f == after.end() ? "there is no output" : f->second == want ? "" : "the output is wrong";
  };
  return s;
}
static Scenario selecting(const std::string &name, size_t records, size_t N, bool non, bool urls)
{
  Scenario s;
  s.name = name;
  const Counts m = bigDb(records, 1);
  const std::string db = encode(m);
  s.files["/in/db"] = db;
  std::set<std::string> in;
  for (auto &e : m) in.insert(refHex(e.first));
  s.args = [=](const std::string &root) {
    V a{tool("testset"), "-I", root + "/in/db", "-O", root + "/out/set", "-N", std::to_string(N)};
    if (non) a.push_back("--non-existent");
    if (urls) { a.push_back("--test-urls"); a.push_back("--test-url-prefix"); a.push_back("P"); }
    return a;
  };
  s.right = [=](const std::string &, const std::map<std::string, std::string> &after) -> std::string {
    auto f = after.find("/out/set");
    if (f == after.end()) return "there is no output";
    V hs;
    if (urls)
    {
      std::istringstream is(f->second);
      std::string l;
      while (std::getline(is, l))
      {
        if (l.size() != 33 || l[0] != 'P') return "wrong line";
        for (char &ch : l) ch = (char)tolower(ch);
        hs.push_back(l.substr(1));
      }
      if (!f->second.empty() && f->second.back() != '\n') return "incomplete line";
    }
    else
    {
      if (f->second.size() % 20) return "incomplete record";
      for (size_t i = 0; i < f->second.size(); i += 20)
      {
        H h;
        memcpy(&h.first, f->second.data() + i, 8);
        memcpy(&h.second, f->second.data() + i + 8, 8);
        if (!non && db.find(f->second.substr(i, 20)) == std::string::npos) return "an entry is no record";
        hs.push_back(refHex(h));
      }
    }
    for (auto &h : hs)
      if (in.count(h) == (non ? 1u : 0u)) return non ? "an existing hash has been selected" : "a hash that does not exist has been selected";
    if (std::set<std::string>(hs.begin(), hs.end()).size() != hs.size() && !non) return "a hash has been selected twice";
    if (hs.size() != (non ? N : std::min(N, records))) return std::to_string(hs.size()) + " hashes have been selected";
    return "";
  };
  return s;
}

static std::string bunzip(const std::string &s, bool *complete)
{
  // concatenated streams, the last of which may be incomplete
  std::string out;
  size_t at = 0;
  *complete = true;
  while (at < s.size())
  {
    bz_stream z;
    memset(&z, 0, sizeof z);
    if (BZ2_bzDecompressInit(&z, 0, 0) != BZ_OK) throw std::runtime_error("bz2");
    z.next_in = const_cast<char *>(s.data()) + at;
    z.avail_in = (unsigned)(s.size() - at);
    char b[65536];
    int rc;
    do
    {
      z.next_out = b;
      z.avail_out = sizeof b;
      rc = BZ2_bzDecompress(&z);
      out.append(b, sizeof b - z.avail_out);
    } while (rc == BZ_OK && (z.avail_in || z.avail_out == 0));
    at = s.size() - z.avail_in;
    BZ2_bzDecompressEnd(&z);
    if (rc != BZ_STREAM_END) { *complete = false; break; }
  }
  return out;
}
static std::string passwordsOf(const std::string &text)
{
  ref::Reader r(ref::lines(text), ':', ref::Never, ref::Never);
  std::string b;
  for (auto &p : r.passwords()) b += p + "\n";
  return b;
}
static bool arranged(const std::string &got, size_t at, const V &files, unsigned used)
{
  if (used + 1 == 1u << files.size()) return at == got.size();
  for (unsigned i = 0; i < files.size(); ++i)
    if (!(used >> i & 1) && got.compare(at, files[i].size(), files[i]) == 0 && arranged(got, at + files[i].size(), files, used | 1u << i)) return true;
  return false;
}
static Scenario extracting(const std::string &name, const std::map<std::string, std::string> &texts, bool bz)
{
  Scenario s;
  s.name = name;
  V want;
  s.files["/in/sub/"] = "";
  for (auto &t : texts)
  {
    s.files["/in/" + t.first] = t.second;
    want.push_back(passwordsOf(t.second));
  }
  s.args = [=](const std::string &root) {
    V a{tool("pwextract"), "-S", root + "/in", "-O", root + "/out/pw"};
    if (bz) a.push_back("-C");
    return a;
  };
  s.right = [=](const std::string &, const std::map<std::string, std::string> &after) -> std::string {
    auto f = after.find("/out/pw");
    if (f == after.end()) return "there is no output";
    bool complete = true;
    const std::string got = bz ? bunzip(f->second, &complete) : f->second;
    if (!complete) return "the compressed output is not complete";
    if (!arranged(got, 0, want, 0)) return "the output does not hold all passwords";
    return "";
  };
  return s;
}
static Scenario training(const std::string &name, const std::string &text)
{
  Scenario s;
  s.name = name;
  s.files["/in/text"] = text;
  s.args = [=](const std::string &root) { return V{tool("markovgen"), "-I", root + "/in/text", "-O", root + "/out/markov"}; };
  // the expected bytes: what the same program writes if nothing fails (the
  // content as such is decided by C21 and C30)
  auto want = std::make_shared<std::string>();
  s.right = [=](const std::string &, const std::map<std::string, std::string> &after) -> std::string {
    auto f = after.find("/out/markov");
    if (f == after.end()) return "there is no output";
    // order of entries is not defined: compare sizes
    return f->second.size() == want->size() ? "" : "the output has " + std::to_string(f->second.size()) + " instead of " + std::to_string(want->size()) + " bytes";
  };
  const std::string dir = mc::opt.scratch + "/train";
  mc::freshDir(dir);
  setup(s, dir + "/x");
  run(s, dir + "/x", dir, {});
  *want = slurp(dir + "/x/out/markov");
  return s;
}

static void c10(bool th)
{
  std::vector<Scenario> all;
  all.push_back(converting("convert-chunks", {{"f.txt", "u:a\nu:b\nu:a\n"}}, "20000", false));
  all.push_back(converting("convert-large", {{"f.txt", textOf(1200, 700)}}, "1", false));
  all.push_back(converting("convert-two", {{"a/f.txt", "u:a\nu:b\n"}, {"b/f.txt", "u:a\nu:c\n"}}, "20000", true));
  all.push_back(converting("convert-chunks-large", {{"f.txt", textOf(600, 600)}}, "450", false));
  all.push_back(merging("merge-small", {{{{1, 1}, 1}, {{2, 1}, 2}}, {{{1, 1}, 5}}}, 50, false));
  all.push_back(merging("merge-rounds", {bigDb(3, 1), bigDb(2, 2), bigDb(4, 3)}, 2, true));
  all.push_back(merging("merge-large", {bigDb(900, 1), bigDb(500, 2)}, 2, false));
  all.push_back(indexing("index-small", bigDb(3, 1000), 3));
  all.push_back(indexing("index-large", bigDb(900, 4), 11));
  all.push_back(swapping("be2le-small", 2));
  all.push_back(swapping("be2le-large", 1000));
  all.push_back(selecting("testset", 6, 3, false, false));
  all.push_back(selecting("testset-large", th ? 500 : 90, th ? 480 : 85, false, false));
  all.push_back(selecting("testset-urls", th ? 300 : 60, th ? 150 : 30, false, true));
  all.push_back(selecting("testset-nonexistent", 10, 4, true, false));
  all.push_back(selecting("testset-nonexistent-urls", 30, 10, true, true));
  all.push_back(extracting("extract", {{"1.txt", "u:a\nu:b\n"}, {"sub/2.txt", "u:c\n"}}, false));
  all.push_back(extracting("extract-large", {{"1.txt", textOf(1000, 1000)}, {"2.txt", "u:c\n"}}, false));
  all.push_back(extracting("extract-bz2", {{"1.txt", textOf(1000, 1000)}, {"sub/2.txt", "u:c\n"}}, true));
  all.push_back(training("markov", "u:abc\nu:bcd\n"));
  all.push_back(training("markov-large", textOf(1000, 1000) + "u:abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ.:;,/()\n"));
  for (auto &s : all)
  {
    const auto events = record(s);
    mc::explore(s.name, [&](Ctx &c) {
      const std::string root = c.dir() + "/x";
      std::vector<Plan> plans;
      const size_t k = c.choose(events.size() + 1);
      if (k < events.size())
      {
        const auto as = actions(events[k], th);
        if (as.empty()) return;
        plans.push_back(c.pick(as));
        c.shard();
        if (events.size() < (th ? 150 : 45) && (th || s.name.find("large") == std::string::npos) && !plans[0].persistent)
        {
          // a second fault of another call
          const size_t k2 = c.choose(events.size() - k);
          const auto bs = actions(events[k + k2], false);
          if (k2 && !bs.empty()) plans.push_back(c.pick(bs));
        }
      }
      else c.shard();
      setup(s, root);
      const auto before = snapshot(root);
      const Run r = run(s, root, c.dir(), plans);
      c.step();
      judge(c, s, root, r, plans, before);
    });
  }
}

// ---------------------------------------------------------------- C11
static void c11(bool th)
{
  struct Set { std::string name; std::vector<Counts> dbs; std::string old; };
  std::vector<Set> sets;
  sets.push_back({"one", {bigDb(2, 1)}, ""});
  sets.push_back({"three", {bigDb(3, 1), bigDb(2, 2), bigDb(1, 5)}, ""});
  sets.push_back({"empty-input", {bigDb(3, 1), {}, bigDb(2, 2)}, ""});
  sets.push_back({"large", {bigDb(900, 1), bigDb(500, 2)}, ""});
  sets.push_back({"unequal", {bigDb(1, 1), bigDb(1300, 1), bigDb(2, 7)}, ""});
  if (th)
  {
    sets.push_back({"many", {bigDb(1, 1), bigDb(2, 1), bigDb(3, 1), bigDb(4, 1), bigDb(5, 1), bigDb(6, 1)}, ""});
    sets.push_back({"larger", {bigDb(2000, 1), bigDb(1500, 1), bigDb(1000, 1)}, ""});
    sets.push_back({"replacing", {bigDb(400, 1), bigDb(450, 2)}, std::string(30000, 'o')});
  }
  for (auto &k : sets)
  {
    Scenario s;
    s.name = k.name;
    Counts want;
    for (size_t i = 0; i < k.dbs.size(); ++i)
    {
      s.files["/in/" + std::to_string(i)] = encode(k.dbs[i]);
      for (auto &e : k.dbs[i]) want[e.first] += e.second;
    }
    if (!k.old.empty()) s.files["/out/db"] = k.old;
    s.args = [&](const std::string &root) {
      V a{tool("mergetool"), root + "/out/db"};
      for (size_t i = 0; i < k.dbs.size(); ++i) a.push_back(root + "/in/" + std::to_string(i));
      return a;
    };
    const auto events = record(s);
    const std::string result = encode(want);
    mc::explore(s.name, [&](Ctx &c) {
      const std::string root = c.dir() + "/x";
      std::vector<Plan> plans;
      const size_t e = c.choose(events.size() + 1);
      if (e < events.size())
      {
        auto as = actions(events[e], th);
        Plan p;
        p.kind = events[e].kind;
        p.path = events[e].path;
        p.occ = events[e].occ;
        for (auto a : {Plan::KillBefore, Plan::KillAfter}) { p.action = a; as.push_back(p); }
        if (events[e].kind == "write")
          for (size_t z : {1, 19, 20, 21, 4000, 8190}) { p.action = Plan::Torn; p.size = z; as.push_back(p); }
        plans.push_back(c.pick(as));
        c.shard();
        // an error followed by another one or by the end of the process
        if (plans[0].action == Plan::Error && (th || events.size() < 60))
        {
          const size_t k2 = c.choose(events.size() - e);
          if (k2)
          {
            auto bs = actions(events[e + k2], false);
            p.kind = events[e + k2].kind;
            p.path = events[e + k2].path;
            p.occ = events[e + k2].occ;
            for (auto a : {Plan::KillBefore, Plan::KillAfter}) { p.action = a; bs.push_back(p); }
            plans.push_back(c.pick(bs));
          }
        }
      }
      else c.shard();
      setup(s, root);
      const auto before = snapshot(root);
      const Run r = run(s, root, c.dir(), plans);
      c.step();
      std::string what = s.name + ": ";
      for (auto &p : plans) what += show(p) + "; ";
      c.check(!r.hung, "hang", what + r.text());
      bool killed = false;
      for (auto &p : plans) killed = killed || p.action == Plan::KillBefore || p.action == Plan::KillAfter || p.action == Plan::Torn;
      c.check(r.exited || r.sig == SIGABRT || (killed && r.sig == SIGKILL), "crash", what + r.text());
      const auto after = snapshot(root);
      const bool complete = after.count("/out/db") && after.at("/out/db") == result;
      size_t intact = 0;
      for (auto &f : before)
        if (f.first.rfind("/in/", 0) == 0 && f.first.back() != '/')
        {
          auto a = after.find(f.first);
          if (a != after.end() && a->second == f.second) ++intact;
          else if (a != after.end() && !complete) c.fail("damaged", what + f.first + " is damaged and the output is not complete: " + r.text());
          else if (!complete) c.fail("lost", what + f.first + " is gone and the output is not complete: " + r.text());
        }
      // an error of reading or writing forbids removal altogether
      bool failing = false;
      for (auto &p : plans)
        if (p.action == Plan::Error && p.error != EINTR && p.kind != "unlink" && r.hit && plans.size() == 1 && demanding(s, p)) failing = true;
      if (failing) c.check(intact == k.dbs.size(), "removed-after-error", what + "inputs have been removed: " + r.text());
      if (r.ok() && plans.empty()) c.check(complete && intact == 0, "result", "without a fault: " + std::to_string(intact) + " inputs are left, the output is " + (complete ? "" : "not ") + "complete: " + r.text());
      if (r.ok()) c.check(complete, "silent", what + "success without a complete output: " + r.text());
      c.outcome(std::to_string(intact) + (complete ? "c" : "-") + std::to_string(r.code) + std::to_string(r.sig));
      c.state(mc::hashOf(what + std::to_string(intact) + (complete ? "c" : "-")));
      if (c.wantNotes()) c.note(what + "-> " + std::to_string(intact) + " inputs intact, output " + (complete ? "complete" : "incomplete"));
    });
  }
}

// ---------------------------------------------------------------- C24
static void c24(bool th)
{
  struct Set { std::string name; std::map<std::string, std::string> texts; bool bz; };
  std::vector<Set> sets;
  const std::map<std::string, std::string> small{{"1.txt", "u:a\nu:b\n"}, {"2.txt", "u:c\n"}, {"sub/3.txt", "u:d\nu:e\nu:f"}};
  const std::map<std::string, std::string> large{{"1.txt", textOf(700, 700)}, {"2.txt", textOf(3, 3)}, {"sub/3.txt", textOf(500, 450)}};
  sets.push_back({"small", small, false});
  sets.push_back({"small-bz2", small, true});
  sets.push_back({"large", large, false});
  sets.push_back({"large-bz2", large, true});
  if (th)
  {
    std::map<std::string, std::string> many;
    for (int i = 0; i < 12; ++i) many[std::to_string(i) + ".txt"] = textOf((size_t)i * 40, 1000);
    sets.push_back({"many", many, false});
    sets.push_back({"many-bz2", many, true});
  }
  for (auto &k : sets)
  {
    const Scenario s = extracting("crash-" + k.name, k.texts, k.bz);
    const auto events = record(s);
    mc::explore(s.name, [&](Ctx &c) {
      const std::string root = c.dir() + "/x";
      const size_t e = c.choose(events.size());
      std::vector<Plan> as = actions(events[e], th);
      Plan p;
      p.kind = events[e].kind;
      p.path = events[e].path;
      p.occ = events[e].occ;
      for (auto a : {Plan::KillBefore, Plan::KillAfter}) { p.action = a; as.push_back(p); }
      if (events[e].kind == "write")
        for (size_t z : {1, 5, 20, 100, 4000}) { p.action = Plan::Torn; p.size = z; as.push_back(p); }
      p = c.pick(as);
      c.shard();
      setup(s, root);
      const Run r = run(s, root, c.dir(), {p});
      c.step();
      const std::string what = s.name + ": " + show(p);
      c.check(!r.hung, "hang", what + r.text());
      auto recorded = [&] {
        std::set<std::string> ready;
        std::istringstream is(slurp(root + "/cwd/.ready"));
        std::string l;
        while (std::getline(is, l)) ready.insert(l);
        return ready;
      };
      bool complete;
      auto ready = recorded();
      std::string first = slurp(root + "/out/pw");
      if (k.bz) first = bunzip(first, &complete);
      size_t n = 0;
      for (auto &t : k.texts)
        if (ready.count(root + "/in/" + t.first))
        {
          ++n;
          const std::string b = passwordsOf(t.second);
          const size_t at = first.find(b);
          c.check(b.empty() || (at != std::string::npos && (at == 0 || first[at - 1] == '\n')), "lost", what + ": " + t.first + " is recorded as processed, but not all its passwords are in the output: " + r.text());
        }
      // the next run delivers the remaining ones
      V args = s.args(root);
      args[4] = root + "/out/pw2";
      ToolRun r2 = runTool(args, c.dir(), "", root + "/cwd");
      c.step();
      c.check(r2.ok(), "rerun", what + ": the next run fails: " + r2.text());
      std::string second = slurp(root + "/out/pw2");
      if (k.bz) second = bunzip(second, &complete);
      V want;
      for (auto &t : k.texts)
        if (!ready.count(root + "/in/" + t.first)) want.push_back(passwordsOf(t.second));
      c.check(arranged(second, 0, want, 0), "rerun-passwords", what + ": the next run does not deliver the passwords of the files not recorded: " + mc::jstr(second.substr(0, 300)) + r2.text());
      c.outcome(std::to_string(n) + " recorded");
      c.state(mc::hashOf(what + std::to_string(n)));
      if (c.wantNotes()) c.note(what + " -> " + std::to_string(n) + " files recorded, rerun delivers the other " + std::to_string(want.size()));
    });
  }
}

int main(int argc, char **argv)
{
  mc::parseArgs(argc, argv);
  ::umask(022);
  const bool th = mc::opt.thorough();
  if (mc::opt.prop == "C10") c10(th);
  else if (mc::opt.prop == "C11") c11(th);
  else if (mc::opt.prop == "C24") c24(th);
  return mc::finish();
}
