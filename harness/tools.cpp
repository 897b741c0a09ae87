// C07, C09, C23, C24, C25, C28, C29, C30: the command line tools as they are,
// run on every bounded arrangement of inputs and compared with reference models.
#include <bzlib.h>
#include <cmath>
#include <memory>
#include "../common/markovmodel.hpp"
#include "../common/refreader.hpp"
#include "../common/util.hpp"

using mc::Ctx;
using V = std::vector<std::string>;
using H = std::pair<uint64_t, uint64_t>;
using Counts = std::map<H, uint64_t>;

static std::string tool(const char *name) { return mc::opt.arg(name); }

static void walk(const std::string &root, const std::string &rel, std::map<std::string, std::string> &out)
{
  for (auto &e : listDir(root + rel))
  {
    const std::string p = rel + "/" + e;
    struct stat st;
    if (::lstat((root + p).c_str(), &st)) continue;
    if (S_ISDIR(st.st_mode)) { out[p + "/"] = ""; walk(root, p, out); }
    else out[p] = slurp(root + p);
  }
}
static std::map<std::string, std::string> snapshot(const std::string &root)
{
  std::map<std::string, std::string> m;
  walk(root, "", m);
  return m;
}
static std::string names(const std::map<std::string, std::string> &m)
{
  std::string s;
  for (auto &e : m) s += e.first + "(" + std::to_string(e.second.size()) + ") ";
  return s;
}

// reads a database; fails unless strictly sorted with positive counts
static Counts readDb(Ctx &c, const std::string &content, const std::string &what)
{
  Counts r;
  if (content.size() % 20) c.fail("record-size", what + " has " + std::to_string(content.size()) + " bytes");
  H last{0, 0};
  for (size_t i = 0; i < content.size(); i += 20)
  {
    H h;
    uint32_t n;
    memcpy(&h.first, content.data() + i, 8);
    memcpy(&h.second, content.data() + i + 8, 8);
    memcpy(&n, content.data() + i + 16, 4);
    if (i && !(last < h)) c.fail("not-sorted", what + " is not strictly sorted at record " + std::to_string(i / 20));
    if (n == 0) c.fail("zero-count", what + " has a record with count 0");
    r[h] += n;
    last = h;
  }
  return r;
}
static std::string encode(const Counts &m)
{
  std::string s;
  for (auto &e : m) s += record(e.first, (uint32_t)e.second);
  return s;
}
static std::string shown(const Counts &m)
{
  std::string s;
  for (auto &e : m) s += refHex(e.first).substr(0, 8) + ":" + std::to_string(e.second) + " ";
  return s;
}

// all multisets of passwords that the property allows for a text (ties between separators)
static std::vector<Counts> allowed(const std::string &text, ref::Decode m, ref::Decode h)
{
  std::vector<Counts> r;
  const auto ls = ref::lines(text);
  for (char sep : ref::separators(ls))
  {
    ref::Reader rr(ls, sep, m, h);
    Counts cnt;
    for (auto &p : rr.passwords()) ++cnt[rr.hash(p)];
    r.push_back(cnt);
  }
  return r;
}
// sums over one alternative per file
static std::vector<Counts> sums(const std::vector<std::vector<Counts>> &files)
{
  std::vector<Counts> r{{}};
  for (auto &f : files)
  {
    std::vector<Counts> n;
    for (auto &a : r)
      for (auto &b : f)
      {
        Counts s = a;
        for (auto &e : b) s[e.first] += e.second;
        if (std::find(n.begin(), n.end(), s) == n.end()) n.push_back(s);
      }
    r = n;
  }
  return r;
}

// ---------------------------------------------------------------- C07
struct Conv
{
  std::string root;                          // holds in/ and out/
  std::vector<std::string> given, scanned;   // files below in/ passed with -I / found below in/
  V extra;                                   // further options
  bool scan = false;
  ref::Decode md5 = ref::Never, hex = ref::Never;
  std::string ext = ".md5";
};

static void convert(Ctx &c, const Conv &k, const std::string &threads, const std::string &ram)
{
  V args{tool("convert"), "-D", k.root + "/out", "--ram", ram, "-T", threads};
  if (k.ext != ".md5") { args.push_back("--ext"); args.push_back(k.ext); }
  for (auto &f : k.given) { args.push_back("-I"); args.push_back(k.root + "/in/" + f); }
  if (k.scan) { args.push_back("-S"); args.push_back(k.root + "/in"); }
  for (auto &e : k.extra) args.push_back(e);
  const auto before = snapshot(k.root);
  ToolRun r = runTool(args, c.dir(), "", "", 20, true); // standard input stays open, nobody presses a key
  c.step();
  c.check(r.ok(), "status", "the converter fails: " + r.text());
  const auto after = snapshot(k.root);
  std::vector<std::vector<Counts>> want;
  for (auto &f : k.given) want.push_back(allowed(slurp(k.root + "/in/" + f), k.md5, k.hex));
  for (auto &f : k.scanned) want.push_back(allowed(slurp(k.root + "/in/" + f), k.md5, k.hex));
  Counts got;
  std::string files;
  for (auto &e : before)
  {
    auto a = after.find(e.first);
    if (a == after.end()) c.fail("file-removed", e.first + " has been removed: " + r.text());
    if (a->second != e.second) c.fail("file-changed", e.first + " has been changed: " + r.text());
  }
  for (auto &e : after)
  {
    if (before.count(e.first)) continue;
    if (e.first.rfind("/out/", 0) != 0 || e.first.back() == '/') c.fail("stray-file", e.first + " has been created: " + r.text());
    if (k.ext.size() <= e.first.size() && e.first.substr(e.first.size() - k.ext.size()) != k.ext) c.fail("extension", e.first + " has not the extension " + k.ext);
    for (auto &n : readDb(c, e.second, e.first + " of " + r.text())) got[n.first] += n.second;
    files += e.first + "(" + std::to_string(e.second.size() / 20) + ") ";
  }
  bool ok = false;
  const auto all = sums(want);
  for (auto &w : all) ok = ok || w == got;
  if (!ok) c.fail("multiset", "the output files hold " + shown(got) + "instead of " + shown(all[0]) + ": " + files + "\n" + r.text());
  c.outcome(files + shown(got));
  c.state(mc::hashOf(names(before) + shown(got) + threads + ram + files));
  if (c.wantNotes()) c.note(names(before) + "-> " + files + ": " + shown(got));
}

static std::string fresh(Ctx &c)
{
  const std::string root = c.dir() + "/x";
  mc::freshDir(root);
  return root;
}
static void dirs(const std::string &root, const V &ds)
{
  for (auto &d : ds) ::mkdir((root + "/" + d).c_str(), 0777);
}

// 1, 2, 3, 4, many entries per output file with --ram 1
static const V Threads{"20000", "10000", "6000", "4500", "1"};

static void c07(bool th)
{
  const std::string D32 = "0123456789abcdefABCDEF0123456789";
  const V pieces{"u:a", "v:a", "u:b", "w:c", "u:", "", "b", "u:" + D32, "u:$HEX[61]", "u:a:b", "u:\xff\xfe", "u:" + std::string(199, 'x')};
  mc::explore("contents", [&](Ctx &c) {
    // all texts of up to three lines x entries per file x decoding
    const size_t n = c.choose(th ? 5 : 4);
    std::string text;
    for (size_t i = 0; i < n; ++i)
    {
      text += c.pick(n == 4 ? V(pieces.begin(), pieces.begin() + 6) : pieces);
      if (i == 1) c.shard();
      if (i + 1 < n || n % 2) text += "\n";
    }
    const size_t t = n < 3 ? c.choose(Threads.size()) : (text.size() * 7 + text[0]) % 3; // longer texts: every one with one of the three smallest
    c.shard();
    Conv k;
    k.root = fresh(c);
    dirs(k.root, {"in", "out"});
    spit(k.root + "/in/f.txt", text);
    k.given = {"f.txt"};
    if (n <= 2)
    {
      const size_t d = c.choose(4);
      if (d == 1) { k.extra = {"--force-md5", "--force-hex"}; k.md5 = k.hex = ref::Always; }
      if (d == 2) { k.extra = {"--auto-md5", "--auto-hex"}; k.md5 = k.hex = ref::Auto; }
      if (d == 3) { k.extra = {"--force-md5", "--auto-hex"}; k.md5 = ref::Always; k.hex = ref::Auto; }
    }
    convert(c, k, Threads[t], "1");
  });
  mc::explore("chunks", [&](Ctx &c) {
    // longer texts: every chunk size, repetition pattern and length
    const size_t lines = c.choose(th ? 40 : 16), period = c.choose(th ? 9 : 5) + 1, t = c.choose(Threads.size());
    const bool crlf = c.flag();
    c.shard();
    std::string text;
    for (size_t i = 0; i < lines; ++i) text += "u" + std::to_string(i) + ":p" + std::to_string(i % period) + (crlf ? "\r\n" : "\n");
    Conv k;
    k.root = fresh(c);
    dirs(k.root, {"in", "out"});
    spit(k.root + "/in/f.txt", text);
    k.given = {"f.txt"};
    convert(c, k, Threads[t], lines % 2 ? "1" : t == 4 ? "0" : "1");
  });
  mc::explore("existing-files", [&](Ctx &c) {
    // every subset of files that exist already under names the converter likes to use
    static const V taken{"f-0001.md5", "f-0002.md5", "f-0001-0001.md5", "f-0001-0002.md5", "f-0002-0002.md5", "f-0002-0003.md5"};
    Conv k;
    V have;
    for (auto &f : taken)
    {
      if (c.flag()) have.push_back(f);
    }
    const size_t runs = 1 + c.choose(2);
    c.shard();
    const bool two = c.flag(); // a second input of the same name in another directory
    k.root = fresh(c);
    dirs(k.root, {"in", "in/a", "in/b", "out"});
    for (auto &f : have) spit(k.root + "/out/" + f, "old " + f);
    spit(k.root + "/in/a/f.txt", "u:a\nu:b\n");
    k.given = {"a/f.txt"};
    if (two) { spit(k.root + "/in/b/f.txt", "u:c\nu:a\n"); k.given.push_back("b/f.txt"); }
    for (size_t i = 0; i < runs; ++i) convert(c, k, "20000", "1");
  });
  mc::explore("selection", [&](Ctx &c) {
    // which files are found, and file names of all kinds
    static const V files{"a.txt", "b.TXT", "c.txt.bak", "d/e.txt", "d.txt/f.txt", "g", ".txt", "sp ace.txt", "x%s%n.txt", "d/a.txt", "a-0001.txt", "h.i.txt"};
    Conv k;
    k.root = fresh(c);
    unsigned mask = 0;
    for (unsigned i = 0; i < files.size(); ++i)
    {
      if (th ? c.flag() : (i < 6 ? c.flag() : mask % 3 == i % 3)) mask |= 1u << i;
      if (i == 4) c.shard();
    }
    const size_t mode = c.choose(3); // scan, given, scan of subdirectories only plus given
    const size_t e = c.choose(3);
    c.shard();
    if (!mask) return;
    dirs(k.root, {"in", "in/d", "in/d.txt", "out"});
    k.ext = e == 0 ? ".md5" : e == 1 ? "" : ".x y";
    for (unsigned i = 0; i < files.size(); ++i)
      if (mask >> i & 1)
      {
        spit(k.root + "/in/" + files[i], "u:a\nu:only" + std::to_string(i) + "\n");
        if (mode == 1) k.given.push_back(files[i]);
        else if (files[i].size() >= 4 && files[i].substr(files[i].size() - 4) == ".txt") k.scanned.push_back(files[i]);
      }
    k.scan = mode != 1;
    if (mode == 2)
    {
      spit(k.root + "/in/extra.dat", "u:extra\n");
      k.given.push_back("extra.dat");
    }
    if (k.given.empty() && k.scanned.empty()) return; // nothing to do: refused
    convert(c, k, "20000", "1");
  });
  mc::explore("limits", [&](Ctx &c) {
    // every combination of memory limit and number of threads, also beyond 4 GiB
    const std::string ram = c.pick(V{"0", "1", "2", "3", "63", "64", "1024", "2047", "2048", "4095", "4096", "4097", "8192", "16384", "1048576", "4194304"});
    const std::string t = c.pick(V{"0", "1", "2", "3", "4", "7", "8", "100", "65536", "1048576"});
    c.shard();
    Conv k;
    k.root = fresh(c);
    dirs(k.root, {"in", "in/d", "out"});
    std::string text;
    for (int i = 0; i < 25; ++i) text += "u:p" + std::to_string(i % 4) + "\n";
    spit(k.root + "/in/f.txt", text);
    spit(k.root + "/in/d/f.txt", "u:p1\nu:q");
    spit(k.root + "/in/empty.txt", "");
    k.scanned = {"f.txt", "d/f.txt", "empty.txt"};
    k.scan = true;
    convert(c, k, t, ram);
  });
  mc::explore("many-lines", [&](Ctx &c) {
    // numbers of occurrences and of lines around the limits of narrower types
    const size_t n = c.pick(std::vector<size_t>{127, 128, 255, 256, 257, 499, 500, 501, 999, 4096, 32767, 32768, 65535, 65536, 65537, 70001});
    const int kind = (int)c.choose(3); // one password, all different, one in each second line
    const std::string t = c.pick(V{"1", "2", "8"});
    c.shard();
    Conv k;
    k.root = fresh(c);
    dirs(k.root, {"in", "out"});
    std::string text;
    for (size_t i = 0; i < n; ++i) text += "user" + std::to_string(i) + "@h.de:" + (kind == 0 || (kind == 2 && i % 2) ? "secret" : "p" + std::to_string(i)) + "\n";
    spit(k.root + "/in/f.txt", text);
    k.given = {"f.txt"};
    convert(c, k, t, t == "8" ? "128" : "1"); // all in one chunk, or in several
  });
  mc::explore("many-files", [&](Ctx &c) {
    // more files than hardware threads, of all sizes
    const size_t n = c.pick(th ? std::vector<size_t>{1, 7, 8, 9, 16, 17, 33, 64} : std::vector<size_t>{1, 8, 9, 17, 33}), t = c.choose(Threads.size()), same = c.choose(2);
    c.shard();
    Conv k;
    k.root = fresh(c);
    dirs(k.root, {"in", "out"});
    for (size_t i = 0; i < n; ++i)
    {
      const std::string d = "d" + std::to_string(i);
      dirs(k.root, {"in/" + d});
      const std::string f = d + "/" + (same ? "f" : "f" + std::to_string(i)) + ".txt";
      std::string text;
      for (size_t j = 0; j <= i % 5; ++j) text += "u:p" + std::to_string(j * i % 7) + "\n";
      spit(k.root + "/in/" + f, text);
      k.scanned.push_back(f);
    }
    k.scan = true;
    convert(c, k, Threads[t], "1");
  });
}

// ---------------------------------------------------------------- C09
static std::vector<H> someHashes()
{
  return {{0, 0}, {0, 1}, {1, 0}, {0x7fffffffffffffffULL, 0xffffffffffffffffULL}, {0x8000000000000000ULL, 0}, {0xffffffffffffffffULL, 0xffffffffffffffffULL}};
}

struct Merge
{
  std::string root;
  std::vector<std::string> files; // names below in/, in the order given
  int n = 50;
  bool scan = false;
};

static void merge(Ctx &c, const Merge &k, const std::string &in, const std::string &dst = "")
{
  const std::string out = dst.empty() ? k.root + "/out/db.md5" : dst;
  V args{tool("merge"), "-O", out, "-T", k.root + "/tmp"};
  if (k.n) { args.push_back("-n"); args.push_back(std::to_string(k.n)); }
  if (k.scan) { args.push_back("-S"); args.push_back(k.root + "/in"); }
  else
    for (auto &f : k.files) { args.push_back("-I"); args.push_back(k.root + "/in/" + f); }
  Counts want;
  for (auto &f : k.files)
  {
    std::string s = slurp(k.root + "/in/" + f);
    for (size_t i = 0; i + 20 <= s.size(); i += 20)
    {
      H h;
      uint32_t n;
      memcpy(&h.first, s.data() + i, 8);
      memcpy(&h.second, s.data() + i + 8, 8);
      memcpy(&n, s.data() + i + 16, 4);
      want[h] += n;
    }
  }
  auto before = snapshot(k.root);
  ToolRun r = runTool(args, c.dir(), in, "", 20, true); // standard input stays open
  c.step();
  c.check(r.ok(), "status", "the merger fails: " + r.text());
  auto after = snapshot(k.root);
  const std::string key = out.substr(k.root.size());
  c.check(after.count(key), "no-output", "there is no output: " + r.text());
  const std::string got = after[key];
  after.erase(key);
  before.erase(key);
  after.erase("/tmp/");
  before.erase("/tmp/");
  for (auto &e : before)
    if (!after.count(e.first)) c.fail("input-removed", e.first + " has been removed: " + r.text());
    else if (after[e.first] != e.second) c.fail("input-changed", e.first + " has been changed: " + r.text());
  for (auto &e : after)
    if (!before.count(e.first)) c.fail("leftover", e.first + " is left: " + r.text());
  const Counts g = readDb(c, got, "the output of " + r.text());
  if (g != want) c.fail("sum", "the output holds " + shown(g) + "instead of " + shown(want) + "\n" + r.text());
  c.state(mc::hashOf(names(before) + shown(want) + std::to_string(k.n)));
  c.outcome(shown(g));
  if (c.wantNotes()) c.note(names(before) + " at most " + std::to_string(k.n) + " -> " + shown(g));
}

static void c09(bool th)
{
  const auto A = someHashes();
  // all sorted (not necessarily strictly) databases of up to 2 records over 3 hashes
  std::vector<std::string> small;
  const std::vector<H> A3{A[0], A[2], A[4]};
  small.push_back("");
  for (size_t i = 0; i < 3; ++i) small.push_back(record(A3[i], 1));
  for (size_t i = 0; i < 3; ++i)
    for (size_t j = i; j < 3; ++j) small.push_back(record(A3[i], 2) + record(A3[j], 3));
  mc::explore("files", [&](Ctx &c) {
    const size_t n = 1 + c.choose(3);
    Merge k;
    V content;
    for (size_t i = 0; i < n; ++i)
    {
      content.push_back(c.pick(small));
      if (i == 1) c.shard();
    }
    k.n = 2 + (int)c.choose(n < 2 ? 1 : 2);
    c.shard();
    k.root = fresh(c);
    dirs(k.root, {"in", "out"});
    for (size_t i = 0; i < n; ++i)
    {
      k.files.push_back(std::string(1, char('a' + i)) + ".md5");
      spit(k.root + "/in/" + k.files.back(), content[i]);
    }
    merge(c, k, "");
  });
  mc::explore("rounds", [&](Ctx &c) {
    // number of files x limit x pattern: every shape of the rounds
    const size_t n = 1 + c.choose(th ? 20 : 9);
    Merge k;
    k.n = 2 + (int)c.choose(n + 1);
    const size_t pattern = c.choose(5), tail = c.choose(3);
    const size_t scan = c.choose(3);
    c.shard();
    k.root = fresh(c);
    dirs(k.root, {"in", "in/d", "out"});
    for (size_t i = 0; i < n; ++i)
    {
      k.files.push_back(std::string(scan == 2 && i % 2 ? "d/" : "") + "f" + std::to_string(i) + ".md5");
      Counts m;
      const size_t len = pattern == 0 ? 3 : pattern == 1 ? i : pattern == 2 ? n - i : pattern == 3 ? (i * 7) % 5 : 1;
      for (size_t j = 0; j < len; ++j) m[{(i * (pattern + 1) + j * 3) % 11, j % 2}] += i + j + 1;
      spit(k.root + "/in/" + k.files.back(), encode(m) + std::string(tail == 0 ? 0 : tail == 1 ? i % 20 : 19, '\1'));
    }
    k.scan = scan != 0;
    if (k.scan)
    {
      spit(k.root + "/in/other.txt", "no database");
      // files without content do not count, and without any the merge is refused
      bool any = false;
      for (auto &f : k.files) any = any || !slurp(k.root + "/in/" + f).empty();
      if (!any) return;
    }
    merge(c, k, "");
  });
  mc::explore("many-files", [&](Ctx &c) {
    // around the limit that holds without the option, and far more files than any limit
    const size_t n = c.pick(th ? std::vector<size_t>{31, 32, 33, 49, 50, 51, 99, 100, 101, 130, 255, 256, 257, 300, 2501} : std::vector<size_t>{49, 50, 51, 99, 100, 101, 130, 257});
    const size_t limit = c.choose(6), pattern = c.choose(3), scan = c.choose(2);
    c.shard();
    Merge k;
    k.n = std::vector<int>{0, 2, 7, 50, 64, 1000}[limit]; // 0: the default
    if (k.n == 2 && n > 300) return;
    k.root = fresh(c);
    dirs(k.root, {"in", "in/d", "out"});
    for (size_t i = 0; i < n; ++i)
    {
      k.files.push_back(std::string(i % 3 ? "" : "d/") + "f" + std::to_string(i) + ".md5");
      Counts m;
      const size_t len = pattern == 0 ? 1 + i % 3 : pattern == 1 ? 1 : 1 + (n - i) / 8;
      for (size_t j = 0; j < len; ++j) m[{pattern == 1 ? 5 : (i * 7 + j * 3) % 41, j % 2}] += i + j + 1;
      spit(k.root + "/in/" + k.files.back(), encode(m));
    }
    k.scan = scan;
    merge(c, k, "");
  });
  mc::explore("sizes", [&](Ctx &c) {
    // databases of very different sizes and many records
    const size_t a = c.pick(std::vector<size_t>{0, 1, 409, 410, 819, 1000}), b = c.pick(std::vector<size_t>{0, 1, 410, 1000}), step = 1 + c.choose(3), n = 2 + c.choose(2);
    c.shard();
    Merge k;
    k.n = (int)n;
    k.root = fresh(c);
    dirs(k.root, {"in", "out"});
    Counts x, y, z;
    for (size_t i = 0; i < a; ++i) x[{i * 0x10000000000ULL, i % 3}] = i + 1;
    for (size_t i = 0; i < b; ++i) y[{i * step * 0x10000000000ULL, i % 2}] = 2;
    for (size_t i = 0; i < 5; ++i) z[{i * 100 * 0x10000000000ULL, 0}] = 3;
    spit(k.root + "/in/x", encode(x));
    spit(k.root + "/in/y", encode(y));
    spit(k.root + "/in/z", encode(z));
    k.files = {"x", "y", "z"};
    merge(c, k, "");
  });
  mc::explore("counts", [&](Ctx &c) {
    // counts of all magnitudes, whose sums still fit
    static const std::vector<uint32_t> N{0, 1, 127, 128, 255, 256, 32767, 32768, 65535, 65536, 0xffffff, 0x1000000, 0x7fffffff, 0x80000000u, 0xfffffffeu, 0xffffffffu};
    std::vector<uint32_t> v{c.pick(N), c.pick(N), c.choose(2) ? c.pick(N) : 0};
    const size_t where = c.choose(3); // in different files, in one file, both
    c.shard();
    if (uint64_t(v[0]) + v[1] + v[2] > 0xffffffffULL || v[0] + v[1] + v[2] == 0) return;
    Merge k;
    k.n = 2;
    k.root = fresh(c);
    dirs(k.root, {"in", "out"});
    V text(3);
    for (size_t i = 0; i < 3; ++i)
      if (v[i]) text[where == 0 ? i : where == 1 ? 0 : i / 2] += record(A[3], v[i]);
    for (size_t i = 0; i < 3; ++i)
    {
      k.files.push_back(std::string(1, char('a' + i)));
      spit(k.root + "/in/" + k.files.back(), (i == 1 ? record(A[1], 5) : "") + text[i]);
    }
    merge(c, k, "");
  });
  mc::explore("single-bits", [&](Ctx &c) {
    // hashes that differ in one bit, in one or two files
    const size_t bit = c.choose(128);
    const H base = c.pick(std::vector<H>{{0, 0}, {0x5555555555555555ULL, 0xaaaaaaaaaaaaaaaaULL}, {0xffffffffffffffffULL, 0xffffffffffffffffULL}});
    const bool one = c.flag();
    c.shard();
    H other = base;
    (bit < 64 ? other.second : other.first) ^= 1ULL << (bit % 64);
    Counts m{{base, 2}, {other, 3}};
    Merge k;
    k.root = fresh(c);
    dirs(k.root, {"in", "out"});
    k.files = {"a", "b"};
    spit(k.root + "/in/a", one ? encode(m) : record(base, 2));
    spit(k.root + "/in/b", one ? encode(m) : record(other, 3));
    merge(c, k, "");
  });
  mc::explore("same-file-twice", [&](Ctx &c) {
    const size_t n = 2 + c.choose(4);
    Merge k;
    for (size_t i = 0; i < n; ++i) k.files.push_back(c.flag() ? "a.md5" : "b.md5");
    c.shard();
    k.n = 2 + (int)c.choose(3);
    k.root = fresh(c);
    dirs(k.root, {"in", "out"});
    spit(k.root + "/in/a.md5", record(A[0], 1) + record(A[3], 2));
    spit(k.root + "/in/b.md5", record(A[3], 4));
    merge(c, k, "");
  });
  mc::explore("existing-destination", [&](Ctx &c) {
    static const V answers{"y\n", "n\n", "", "x", "Y\n", "\n", "yes\n", "ny\n", "  y\n", "p\ny"};
    const std::string a = c.pick(answers);
    const size_t n = 1 + c.choose(3);
    const bool longer = c.flag();
    c.shard();
    Merge k;
    k.n = 2;
    k.root = fresh(c);
    dirs(k.root, {"in", "out", "tmp"});
    for (size_t i = 0; i < n; ++i)
    {
      k.files.push_back("f" + std::to_string(i));
      spit(k.root + "/in/f" + std::to_string(i), record(A[i], 1));
    }
    spit(k.root + "/out/db.md5", longer ? std::string(200, 'o') : "old");
    std::string first = a;
    first.erase(0, first.find_first_not_of(" \n") == std::string::npos ? first.size() : first.find_first_not_of(" \n"));
    if (first[0] == 'y') merge(c, k, a);
    else
    {
      auto before = snapshot(k.root);
      ToolRun r = runTool({tool("merge"), "-I", k.root + "/in/f0", "-O", k.root + "/out/db.md5", "-T", k.root + "/tmp"}, c.dir(), a);
      c.step();
      c.check(r.exited, "declined", "the merger does not end regularly: " + r.text());
      c.check(snapshot(k.root) == before, "overwritten", "something changed without consent: " + r.text());
      c.outcome("declined");
      c.state(mc::hashOf(a + char(n)));
    }
  });
  mc::explore("refused", [&](Ctx &c) {
    const size_t what = c.choose(9);
    const bool exists = c.flag();
    const size_t answer = c.choose(2);
    c.shard();
    const std::string root = fresh(c);
    dirs(root, {"in", "out", "tmp"});
    spit(root + "/in/a", record(A[0], 1));
    spit(root + "/in/b", record(A[1], 1));
    if (exists) spit(root + "/out/db", "old");
    V args{tool("merge"), "-T", root + "/tmp", "-I", root + "/in/a", "-I", root + "/in/b"};
    auto limit = [&](const char *n) { args.insert(args.end(), {"-O", root + "/out/db", "-n", n}); };
    std::string dst = root + "/out/db";
    switch (what)
    {
    case 0: limit("1"); break;
    case 1: limit("0"); break;
    case 2: limit("-1"); break;
    case 3: limit("-2147483648"); break;
    case 4: args.insert(args.end(), {"-O", root + "/in/a"}); break;
    case 5: args.insert(args.end(), {"-O", root + "/in/b"}); break;
    case 6: args.insert(args.end(), {"-O", root + "/in/../in/./b"}); break;
    case 7: ::link((root + "/in/b").c_str(), (root + "/in/c").c_str()); args.insert(args.end(), {"-O", root + "/in/c"}); break;
    case 8: (void)!::symlink("../in/a", (root + "/out/l").c_str()); args.insert(args.end(), {"-O", root + "/out/l"}); break;
    }
    const auto before = snapshot(root);
    ToolRun r = runTool(args, c.dir(), answer ? "y\ny\n" : "");
    c.step();
    c.check(r.exited && r.code != 0, "not-refused", "not refused: " + r.text());
    c.check(snapshot(root) == before, "effect", "refused but with an effect: " + r.text());
    c.state(mc::hashOf(std::to_string(what) + char(exists) + char(answer)));
    c.outcome(r.err.substr(0, 40));
  });
}

// ---------------------------------------------------------------- C23
static void c23(bool th)
{
  auto database = [](size_t n, size_t kind) {
    Counts m;
    for (size_t i = 0; i < n; ++i) m[kind == 0 ? H{i * 0x123456789abcdefULL, i} : H{0, i * i}] = i % 5 + 1;
    return m;
  };
  mc::explore("existing", [&](Ctx &c) {
    const size_t n = c.choose(th ? 90 : 34);
    const size_t N = 1 + c.choose(n + 3);
    c.shard();
    const bool urls = c.flag();
    const size_t tail = (n * 7 + N) % 20;
    const std::string root = fresh(c);
    const Counts m = database(n, 0);
    const std::string db = encode(m), out = root + "/o";
    spit(root + "/db", db + std::string(tail, '\3'));
    if (N % 2) spit(out, std::string(5000, 'z'));
    V args{tool("testset"), "-I", root + "/db", "-O", out, "-N", std::to_string(N)};
    const std::string prefix = N % 3 ? "http://h/?q=" : "http://127.0.0.1:31337/v1/pwned/api/lookup?hash=";
    if (urls) args.push_back("--test-urls");
    if (urls && N % 3) { args.push_back("--test-url-prefix"); args.push_back(prefix); }
    ToolRun r = runTool(args, c.dir());
    c.step();
    c.check(r.ok(), "status", "fails: " + r.text());
    const std::string got = slurp(out);
    std::vector<std::string> sel;
    std::vector<std::string> all;
    for (auto &e : m) all.push_back(urls ? prefix + refHex(e.first) : record(e.first, (uint32_t)e.second));
    if (urls)
    {
      std::istringstream is(got);
      std::string l;
      while (std::getline(is, l)) sel.push_back(l);
      c.check(got.empty() || got.back() == '\n', "incomplete-line", "the last line is incomplete: " + r.text());
      for (auto &l2 : sel)
        if (l2.rfind(prefix, 0) == 0)
          for (size_t i = prefix.size(); i < l2.size(); ++i) l2[i] = (char)tolower(l2[i]);
    }
    else
    {
      c.check(got.size() % 20 == 0, "incomplete", "the output has " + std::to_string(got.size()) + " bytes: " + r.text());
      for (size_t i = 0; i < got.size(); i += 20) sel.push_back(got.substr(i, 20));
    }
    const std::string what = std::to_string(N) + " of " + std::to_string(n) + " records: ";
    c.check(sel.size() == std::min(n, N), "number", what + std::to_string(sel.size()) + " selected: " + r.text());
    size_t at = 0;
    for (auto &s : sel)
    {
      size_t p = std::find(all.begin() + (long)at, all.end(), s) - all.begin();
      c.check(p < all.size(), "selection", what + "a selected entry is no record, occurs twice or is out of order: " + r.text());
      at = p + 1;
    }
    c.check(slurp(root + "/db").size() == db.size() + tail, "input", "the input was changed");
    c.state(mc::hashOf(got + std::to_string(N) + "/" + std::to_string(n)));
    c.outcome(got);
    if (c.wantNotes()) c.note(what + std::to_string(sel.size()) + " selected");
  });
  mc::explore("many", [&](Ctx &c) {
    const size_t n = c.pick(std::vector<size_t>{100, 255, 409, 410, 999, 1000, 1001, 19999, 20000, 20001, 39999, 50000});
    size_t N = c.pick(std::vector<size_t>{1, 2, 3, 7, 10, 99, 100, 101, 333, 409, 410, 500, 998, 999, 1000, 1001, 20000, 2147483647, 0});
    c.shard();
    const std::string root = fresh(c);
    const Counts m = database(n, 1);
    const std::string db = encode(m);
    spit(root + "/db", db);
    V args{tool("testset"), "-I", root + "/db", "-O", root + "/o"};
    if (N) args.insert(args.end(), {"-N", std::to_string(N)});
    else N = 20000; // the default
    ToolRun r = runTool(args, c.dir());
    c.step();
    c.check(r.ok(), "status", "fails: " + r.text());
    const std::string got = slurp(root + "/o");
    c.check(got.size() == 20 * std::min(n, N), "number", std::to_string(N) + " of " + std::to_string(n) + ": " + std::to_string(got.size() / 20) + " selected");
    size_t at = 0;
    for (size_t i = 0; i < got.size(); i += 20)
    {
      while (at < db.size() && db.compare(at, 20, got, i, 20) != 0) at += 20;
      c.check(at < db.size(), "selection", "a selected entry is no record, occurs twice or is out of order");
      at += 20;
    }
    c.state(mc::hashOf(got));
    c.outcome(got);
  });
  // a database beyond 4 GiB (completely written, so that each record differs)
  mc::explore("large", [&](Ctx &c) {
    const size_t first = c.choose(1);
    c.shard();
    (void)first;
    const std::string root = fresh(c), f = root + "/db";
    const uint64_t n = 0x100000000ULL / 20 + 12345678;
    auto put = [](char *at, uint64_t i) {
      const uint64_t u = i << 32 | 7, l = i * 0x9e3779b97f4a7c15ULL;
      const uint32_t k = uint32_t(i % 1000 + 1);
      memcpy(at, &u, 8);
      memcpy(at + 8, &l, 8);
      memcpy(at + 16, &k, 4);
    };
    {
      const int fd = ::open(f.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0666);
      std::string buf(20 * 400000, 0);
      for (uint64_t i = 0; i < n;)
      {
        const uint64_t m = std::min<uint64_t>(400000, n - i);
        for (uint64_t k = 0; k < m; ++k) put(&buf[k * 20], i + k);
        for (size_t done = 0; done < m * 20;)
        {
          const ssize_t w = ::write(fd, buf.data() + done, m * 20 - done);
          if (w <= 0) throw std::runtime_error("scratch file system full");
          done += (size_t)w;
        }
        i += m;
      }
      ::close(fd);
    }
    for (size_t N : {1, 2, 3, 5, 7, 11, 1000, 30011})
    {
      ToolRun r = runTool({tool("testset"), "-I", f, "-O", root + "/o", "-N", std::to_string(N)}, c.dir(), "", "", 200);
      c.step();
      c.check(r.ok(), "status", "fails: " + r.text().substr(0, 300));
      const std::string got = slurp(root + "/o");
      c.check(got.size() == 20 * N, "number", std::to_string(N) + " of " + std::to_string(n) + ": " + std::to_string(got.size() / 20) + " selected");
      uint64_t next = 0;
      for (size_t i = 0; i < got.size(); i += 20)
      {
        uint64_t u;
        memcpy(&u, got.data() + i, 8);
        char want[20];
        put(want, u >> 32);
        c.step();
        c.check((u >> 32) < n && got.compare(i, 20, want, 20) == 0, "selection", "a selected entry is no record");
        c.check((u >> 32) >= next, "selection", "a selected entry occurs twice or is out of order");
        next = (u >> 32) + 1;
      }
      c.outcome(got);
      c.state(mc::hashOf(got));
    }
    fresh(c);
  }, {300, 1e9, 1});
  mc::explore("non-existing", [&](Ctx &c) {
    // the hashes the tool comes up with are put into the database: they must not be selected then
    const size_t N = 1 + c.choose(th ? 8 : 5);
    const uint32_t mask = c.choose(1u << N);
    const bool urls = c.flag(), more = c.flag();
    c.shard();
    const std::string root = fresh(c);
    spit(root + "/db", "");
    V args{tool("testset"), "-I", root + "/db", "-O", root + "/o", "-N", std::to_string(N), "--non-existent"};
    ToolRun r = runTool(args, c.dir());
    c.check(r.ok(), "status", "fails: " + r.text());
    std::string all = slurp(root + "/o");
    c.check(all.size() % 20 == 0, "incomplete", "incomplete record");
    Counts m;
    if (more) m = database(20, 0);
    for (size_t i = 0; i * 20 < all.size(); ++i)
      if (mask >> i & 1)
      {
        H h;
        memcpy(&h.first, all.data() + i * 20, 8);
        memcpy(&h.second, all.data() + i * 20 + 8, 8);
        m[h] = 1;
      }
    spit(root + "/db", encode(m));
    if (urls) { args.push_back("--test-urls"); args.push_back("--test-url-prefix"); args.push_back("P"); }
    r = runTool(args, c.dir());
    c.step(2);
    c.check(r.ok(), "status", "fails: " + r.text());
    const std::string got = slurp(root + "/o");
    std::set<std::string> in;
    for (auto &e : m) in.insert(refHex(e.first));
    size_t n = 0;
    if (urls)
    {
      std::istringstream is(got);
      std::string l;
      while (std::getline(is, l))
      {
        c.check(l.size() == 33 && l[0] == 'P', "url", "wrong line " + l);
        for (char &ch : l) ch = (char)tolower(ch);
        c.check(!in.count(l.substr(1)), "existing", "an existing hash is selected: " + r.text());
        ++n;
      }
    }
    else
    {
      c.check(got.size() % 20 == 0, "incomplete", "incomplete record");
      for (size_t i = 0; i < got.size(); i += 20)
      {
        H h;
        memcpy(&h.first, got.data() + i, 8);
        memcpy(&h.second, got.data() + i + 8, 8);
        c.check(!in.count(refHex(h)), "existing", "an existing hash is selected: " + r.text());
        ++n;
      }
    }
    c.check(n <= N, "too-many", "more hashes than requested");
    c.outcome(got);
    c.state(mc::hashOf(got + char(mask)));
    if (c.wantNotes()) c.note(std::to_string(n) + " of " + std::to_string(N) + " hashes remain");
  });
  mc::explore("refused", [&](Ctx &c) {
    const std::string N = c.pick(V{"0", "-1", "-20000", "-2147483648"});
    const bool non = c.flag(), urls = c.flag();
    c.shard();
    const std::string root = fresh(c);
    spit(root + "/db", encode(database(3, 0)));
    V args{tool("testset"), "-I", root + "/db", "-O", root + "/o", "-N", N};
    if (non) args.push_back("--non-existent");
    if (urls) args.push_back("--test-urls");
    ToolRun r = runTool(args, c.dir());
    c.step();
    c.check(r.exited && r.code != 0, "refuse", "not refused: " + r.text());
    c.outcome(N);
    c.state(mc::hashOf(N + char(non) + char(urls)));
  });
}

// ---------------------------------------------------------------- C24
static std::string bunzip(Ctx &c, const std::string &s)
{
  std::string out(1 << 20, '\0');
  unsigned n = (unsigned)out.size();
  const int rc = BZ2_bzBuffToBuffDecompress(&out[0], &n, const_cast<char *>(s.data()), (unsigned)s.size(), 0, 0);
  if (rc != BZ_OK) c.fail("bz2", "the compressed output is not valid: " + std::to_string(rc));
  out.resize(n);
  return out;
}
// all texts that one file may contribute
static V blocks(const std::string &text)
{
  V r;
  const auto ls = ref::lines(text);
  for (char sep : ref::separators(ls))
  {
    std::string b;
    for (auto &p : ref::Reader(ls, sep, ref::Never, ref::Auto).passwords()) b += p + "\n";
    r.push_back(b);
  }
  return r;
}
// is `got` a concatenation of one block per file in any order?
static bool arranged(const std::string &got, size_t at, const std::vector<V> &files, unsigned used)
{
  if (used + 1 == 1u << files.size()) return at == got.size();
  for (unsigned i = 0; i < files.size(); ++i)
    if (!(used >> i & 1))
      for (auto &b : files[i])
        if (got.compare(at, b.size(), b) == 0 && arranged(got, at + b.size(), files, used | 1u << i)) return true;
  return false;
}

static void c24(bool th)
{
  const V pieces{"u:a", "b", "", "u:", "u;c", "u:$HEX[61]", "x:" + std::string(198, 'y'), "x:" + std::string(199, 'y'), "u:\xff z", "u:p\r", std::string("u:a\0b", 5), "u:$HEX[610062]", "u:$HEX[00]"};
  mc::explore("contents", [&](Ctx &c) {
    const size_t n = c.choose(th ? 4 : 3), n2 = c.choose(3);
    std::string t, t2;
    for (size_t i = 0; i < n; ++i) { t += c.pick(pieces); if (i + 1 < n || n2) t += "\n"; }
    c.shard();
    if (n2) t2 = c.pick(pieces) + (n2 == 1 ? "\n" : "");
    const bool bz = c.flag();
    const std::string root = fresh(c);
    dirs(root, {"in", "in/sub", "cwd"});
    spit(root + "/in/1.txt", t);
    if (n2) spit(root + "/in/sub/2.txt", t2);
    spit(root + "/in/no.TXT", "u:no\n");
    V args{tool("pwextract"), "-S", root + "/in", "-O", root + "/out"};
    if (bz) args.push_back("-C");
    const auto before = snapshot(root + "/in");
    ToolRun r = runTool(args, c.dir(), "", root + "/cwd");
    c.step();
    c.check(r.ok(), "status", "fails: " + r.text());
    c.check(before == snapshot(root + "/in"), "input", "an input was changed: " + r.text());
    std::string got = slurp(root + "/out");
    if (bz) got = bunzip(c, got);
    std::vector<V> want{blocks(t)};
    if (n2) want.push_back(blocks(t2));
    c.check(arranged(got, 0, want, 0), "passwords", "the output is " + mc::jstr(got.substr(0, 500)) + " for the texts " + mc::jstr(t) + (n2 ? " and " + mc::jstr(t2) : "") + "\n" + r.text());
    std::set<std::string> ready;
    std::istringstream is(slurp(root + "/cwd/.ready"));
    std::string l;
    while (std::getline(is, l)) ready.insert(l);
    c.check(ready.size() == want.size() && ready.count(root + "/in/1.txt") && (!n2 || ready.count(root + "/in/sub/2.txt")), "ready", "the inputs are not recorded: " + r.text());
    c.state(mc::hashOf(t + "|" + t2 + char(bz)));
    c.outcome(got);
    if (c.wantNotes()) c.note(mc::jstr(t) + " " + mc::jstr(t2) + " -> " + mc::jstr(got));
  });
  mc::explore("histories", [&](Ctx &c) {
    // up to three runs between which inputs appear; every combination of options and answers
    static const V texts{"u:a\nu:b\n", "u:c\n", "u:d\nu:a\nu:a"};
    static const V files{"1.txt", "2.txt", "s/3.txt"};
    const size_t runs = 2 + c.choose(2);
    std::set<size_t> present;
    std::set<size_t> done;
    const std::string root = c.dir() + "/x";
    std::map<std::string, std::string> outputs;
    std::string story;
    for (size_t run = 0; run < runs; ++run)
    {
      const uint32_t add = c.choose(run == 0 ? 4 : 3); // number of files present at least
      const bool sameOut = run && c.flag(), ignore = c.flag(), bz = c.flag();
      const size_t answer = sameOut ? c.choose(3) : 0;
      if (run == 0) { c.shard(); mc::freshDir(root); dirs(root, {"in", "in/s", "cwd"}); }
      for (size_t i = 0; i < add; ++i)
        if (present.insert(i).second) spit(root + "/in/" + files[i], texts[i]);
      const std::string out = root + "/out" + (sameOut ? std::to_string(run - 1) : std::to_string(run));
      const bool there = exists(out);
      const std::string old = slurp(out), oldReady = slurp(root + "/cwd/.ready");
      V args{tool("pwextract"), "-S", root + "/in", "-O", out};
      if (bz) args.push_back("--compress");
      if (ignore) args.push_back("--ignore-ready");
      ToolRun r = runTool(args, c.dir(), answer == 0 ? "y\n" : answer == 1 ? "n\n" : "", root + "/cwd");
      c.step();
      story += "run with " + std::to_string(present.size()) + " files" + (there ? answer ? ", overwriting declined" : ", overwriting" : "") + (ignore ? ", ignoring .ready" : "") + (bz ? ", compressed" : "") + "; ";
      if (there && answer)
      {
        c.check(slurp(out) == old && slurp(root + "/cwd/.ready") == oldReady, "overwritten", "the output or .ready changed without consent: " + story + r.text());
        continue;
      }
      if (present.empty()) { c.check(r.exited, "none", "crash without inputs: " + r.text()); continue; }
      c.check(r.ok(), "status", "fails: " + story + r.text());
      std::string got = slurp(out);
      if (bz) got = bunzip(c, got);
      std::vector<V> want;
      for (size_t i : present)
        if (ignore || !done.count(i)) want.push_back(blocks(texts[i]));
      c.check(arranged(got, 0, want, 0), "passwords", "the output is " + mc::jstr(got) + " after " + story + r.text());
      if (ignore) done.clear();
      for (size_t i : present) done.insert(i);
      std::set<std::string> ready, wantReady;
      std::istringstream is(slurp(root + "/cwd/.ready"));
      std::string l;
      while (std::getline(is, l)) ready.insert(l);
      for (size_t i : done) wantReady.insert(root + "/in/" + files[i]);
      c.check(ready == wantReady, "ready", ".ready is wrong after " + story + r.text());
      c.outcome(got);
    }
    c.state(mc::hashOf(story));
    if (c.wantNotes()) c.note(story);
  });
  mc::explore("names", [&](Ctx &c) {
    // two runs over files of which the names begin, end or continue like others
    static const V files{"a.txt", "a.txt.txt", "b.a.txt", "A.txt", "a.txt/a.txt", "a .txt", " a.txt", "\xc3\xa4.txt"};
    static const V names{"a", "att", "ba", "A", "d", "as", "sa", "ae"};
    std::set<size_t> first, second;
    const bool clash = c.flag(); // a directory that is named like a file
    for (size_t i = 0; i < files.size(); ++i)
    {
      if (i == (clash ? 0 : 4)) continue;
      const auto k = c.choose(3);
      if (k == 1) first.insert(i);
      if (k) second.insert(i);
      if (i == 2) c.shard();
    }
    c.shard();
    if (!mc::opt.thorough() && second.size() > 4) return;
    const std::string root = fresh(c);
    dirs(root, {"in", "cwd"});
    if (clash) dirs(root, {"in/a.txt"});
    std::set<size_t> done;
    for (auto *set : {&first, &second})
    {
      if (set->empty()) continue;
      for (size_t i : *set) spit(root + "/in/" + files[i], "u:" + names[i] + "\n");
      ToolRun r = runTool({tool("pwextract"), "-S", root + "/in", "-O", root + (set == &first ? "/out1" : "/out2")}, c.dir(), "", root + "/cwd");
      c.step();
      std::vector<V> want;
      std::string list;
      for (size_t i : *set)
      {
        if (!done.count(i)) want.push_back(blocks("u:" + names[i] + "\n"));
        list += " " + files[i];
      }
      c.check(r.ok(), "status", "fails with" + list + ": " + r.text());
      const std::string got = slurp(root + (set == &first ? "/out1" : "/out2"));
      c.check(arranged(got, 0, want, 0), "passwords", "the output is " + mc::jstr(got) + (done.empty() ? "" : " in the second run") + " with" + list + ": " + r.text());
      done = *set;
      std::set<std::string> ready, wantReady;
      std::istringstream is(slurp(root + "/cwd/.ready"));
      std::string l;
      while (std::getline(is, l)) ready.insert(l);
      for (size_t i : done) wantReady.insert(root + "/in/" + files[i]);
      c.check(ready == wantReady, "ready", ".ready is wrong with" + list + ": " + r.text());
    }
    c.state(mc::hashOf(mc::jstr(slurp(root + "/cwd/.ready")) + mc::jstr(slurp(root + "/out1"))));
  });
  mc::explore("many-files", [&](Ctx &c) {
    // very many inputs, of which some appear between two runs
    const size_t n = c.pick(std::vector<size_t>{9, 10, 11, 99, 100, 101, 127, 128, 255, 256, 257, 300}), first = c.choose(4), depth = c.choose(2);
    const bool bz = c.flag();
    c.shard();
    const std::string root = fresh(c);
    dirs(root, {"in", "cwd"});
    std::set<size_t> done;
    auto name = [&](size_t i) { return (depth ? "d" + std::to_string(i / 10) + "/e/" : std::string()) + std::to_string(i) + ".txt"; };
    for (int run = 0; run < 2; ++run)
    {
      std::set<size_t> now;
      for (size_t i = 0; i < n; ++i)
        if (run || (first == 0 ? i < n / 2 : first == 1 ? i % 2 == 0 : first == 2 ? i == n / 3 : i != n / 3)) now.insert(i);
      for (size_t i : now)
      {
        if (depth) dirs(root, {"in/d" + std::to_string(i / 10), "in/d" + std::to_string(i / 10) + "/e"});
        if (!exists(root + "/in/" + name(i))) spit(root + "/in/" + name(i), "u:p" + std::to_string(i) + "\nv:q\n");
      }
      V args{tool("pwextract"), "-S", root + "/in", "-O", root + "/out" + std::to_string(run)};
      if (bz) args.push_back("-C");
      ToolRun r = runTool(args, c.dir(), "", root + "/cwd");
      c.step();
      const std::string what = "run " + std::to_string(run + 1) + " with " + std::to_string(now.size()) + " files: ";
      c.check(r.ok(), "status", what + "fails: " + r.text());
      std::string got = slurp(root + "/out" + std::to_string(run));
      if (bz) got = bunzip(c, got);
      std::multiset<std::string> want, have;
      for (size_t i : now) if (!done.count(i)) { want.insert("p" + std::to_string(i)); want.insert("q"); }
      std::istringstream is(got), rs(slurp(root + "/cwd/.ready"));
      std::string l;
      while (std::getline(is, l)) have.insert(l);
      c.check(have == want, "passwords", what + std::to_string(have.size()) + " passwords instead of " + std::to_string(want.size()) + ", or others");
      done.insert(now.begin(), now.end());
      std::set<std::string> ready, wantReady;
      while (std::getline(rs, l)) ready.insert(l);
      for (size_t i : done) wantReady.insert(root + "/in/" + name(i));
      c.check(ready == wantReady, "ready", what + ".ready names " + std::to_string(ready.size()) + " files instead of " + std::to_string(wantReady.size()) + ", or others");
    }
    c.state(mc::hashOf(std::to_string(n) + "/" + std::to_string(first) + "/" + std::to_string(depth) + (bz ? "c" : "")));
    if (c.wantNotes()) c.note(std::to_string(n) + " files, " + std::to_string(first));
  });
  mc::explore("long", [&](Ctx &c) {
    // outputs around the buffer sizes
    const size_t lines = c.pick(std::vector<size_t>{1, 100, 455, 456, 512, 1000, 5000}), len = c.pick(std::vector<size_t>{1, 8, 9, 190});
    const bool bz = c.flag();
    c.shard();
    const std::string root = fresh(c);
    dirs(root, {"in", "cwd"});
    std::string t, want;
    for (size_t i = 0; i < lines; ++i)
    {
      std::string p = std::to_string(i % 10) + std::string(len - 1, 'q');
      t += "u:" + p + "\n";
      want += p + "\n";
    }
    spit(root + "/in/1.txt", t);
    V args{tool("pwextract"), "-S", root + "/in", "-O", root + "/out"};
    if (bz) args.push_back("-C");
    ToolRun r = runTool(args, c.dir(), "", root + "/cwd");
    c.step();
    c.check(r.ok(), "status", "fails: " + r.text());
    std::string got = slurp(root + "/out");
    if (bz) got = bunzip(c, got.substr(0));
    c.check(got == want, "passwords", "the output of " + std::to_string(lines) + " lines differs");
    c.state(mc::hashOf(want + char(bz)));
    c.outcome(got);
  });
}

// ---------------------------------------------------------------- C25
static std::string swapped(const std::string &s)
{
  std::string r = s;
  for (size_t i = 0; i + 20 <= s.size(); i += 20)
  {
    std::reverse(r.begin() + (long)i, r.begin() + (long)i + 8);
    std::reverse(r.begin() + (long)i + 8, r.begin() + (long)i + 16);
  }
  return r.substr(0, s.size() / 20 * 20);
}

static void c25(bool th)
{
  auto run = [](Ctx &c, const std::string &content, const std::string &what) {
    const std::string root = fresh(c);
    spit(root + "/in", content);
    if (content.size() % 3) spit(root + "/out", std::string(content.size() + 50, 'z'));
    ToolRun r = runTool({tool("be2le"), root + "/in", root + "/out"}, c.dir());
    c.step();
    c.check(r.ok(), "status", "fails: " + r.text());
    const std::string got = slurp(root + "/out");
    const std::string want = swapped(content);
    c.check(got == want, "conversion", what + ": the output of " + std::to_string(got.size()) + " bytes is not the input with swapped halves");
    c.check(slurp(root + "/in") == content, "input", "the input was changed");
    r = runTool({tool("be2le"), root + "/out", root + "/back"}, c.dir());
    c.step();
    c.check(r.ok() && slurp(root + "/back") == content.substr(0, content.size() / 20 * 20), "involution", what + ": converting twice does not restore the original");
    c.state(mc::hashOf(content));
    c.outcome(got);
    if (c.wantNotes()) c.note(what + ": " + std::to_string(content.size()) + " bytes -> " + std::to_string(got.size()));
  };
  mc::explore("records", [&](Ctx &c) {
    static const std::vector<std::string> recs{std::string("\0\1\2\3\4\5\6\7\10\11\12\13\14\15\16\17\1\0\0\0", 20), std::string(20, '\0'), std::string(20, '\xff'), std::string("\x80\0\0\0\0\0\0\0\0\0\0\0\0\0\0\1\0\0\0\1", 20)};
    const size_t n = c.choose(th ? 6 : 5);
    std::string s;
    for (size_t i = 0; i < n; ++i) s += c.pick(recs);
    const size_t tail = c.choose(20);
    c.shard();
    run(c, s + std::string(tail, 'x'), std::to_string(n) + " records and " + std::to_string(tail) + " bytes");
  });
  mc::explore("numbers", [&](Ctx &c) {
    const size_t n = c.choose(th ? 2500 : 900);
    c.shard();
    std::string s;
    for (size_t i = 0; i < n; ++i) s += record({i * 0x0102030405060708ULL + 1, i}, (uint32_t)i);
    run(c, s + std::string(n % 20, 'x'), std::to_string(n) + " records");
  });
  mc::explore("many", [&](Ctx &c) {
    const size_t n = c.pick(std::vector<size_t>{4095, 4096, 8191, 32768, 52428, 52429, 65535, 65536, 65537, 209715, 209716, 1000003});
    c.shard();
    std::string s;
    for (size_t i = 0; i < n; ++i) s += record({i * 0x0102030405060708ULL + 1, i}, (uint32_t)i);
    run(c, s + std::string(n % 20, 'x'), std::to_string(n) + " records");
  });
  mc::explore("failures", [&](Ctx &c) {
    const size_t what = c.choose(5);
    c.shard();
    const std::string root = fresh(c);
    spit(root + "/in", std::string(20, 'a'));
    dirs(root, {"dir"});
    V args{tool("be2le")};
    switch (what)
    {
    case 0: args.insert(args.end(), {root + "/none", root + "/out"}); break;
    case 1: args.insert(args.end(), {root + "/in", root + "/none/out"}); break;
    case 2: args.insert(args.end(), {root + "/in", root + "/dir"}); break;
    case 3: args.insert(args.end(), {root + "/dir", root + "/out"}); break;
    case 4: args.insert(args.end(), {root + "/in"}); break;
    }
    ToolRun r = runTool(args, c.dir());
    c.step();
    c.check(r.exited && r.code != 0, "no-failure", "no failure status: " + r.text());
    c.check(slurp(root + "/in") == std::string(20, 'a'), "input", "the input was changed: " + r.text());
    c.outcome(r.err);
    c.state(what);
  });
}

// ---------------------------------------------------------------- C28
// the answers of the lookup tool: (hash text, count)
static std::vector<std::pair<std::string, uint64_t>> answers(Ctx &c, const ToolRun &r)
{
  std::vector<std::pair<std::string, uint64_t>> a;
  bool open = false;
  std::istringstream is(r.out);
  std::string l;
  while (std::getline(is, l))
  {
    size_t p;
    if ((p = l.find("MD5 hash ")) != std::string::npos)
    {
      c.check(!open, "unanswered", "a hash without result: " + r.text());
      a.push_back({l.substr(p + 9), 0});
      open = true;
    }
    else if (l == "Not found.")
    {
      c.check(open, "stray", "a result without hash: " + r.text());
      open = false;
    }
    else if (l.rfind("Found ", 0) == 0)
    {
      c.check(open, "stray", "a result without hash: " + r.text());
      a.back().second = strtoull(l.c_str() + 6, nullptr, 10);
      c.check(a.back().second > 0, "zero", "found 0 times: " + r.text());
      open = false;
    }
  }
  c.check(!open, "unanswered", "a hash without result: " + r.text());
  return a;
}

static void session(Ctx &c, const std::string &db, const std::string &index, const std::string &input, const std::map<std::string, uint64_t> &stored)
{
  V args{tool("lookup"), "-I", db};
  if (!index.empty()) { args.push_back("-X"); args.push_back(index); }
  ToolRun r = runTool(args, c.dir(), input);
  c.step();
  c.check(r.ok(), "status", "the session ends with a failure: " + r.text());
  V lines;
  size_t p = 0;
  while (p < input.size())
  {
    size_t e = input.find('\n', p);
    lines.push_back(input.substr(p, e == std::string::npos ? e : e - p));
    if (e == std::string::npos) break;
    p = e + 1;
  }
  const auto a = answers(c, r);
  c.check(a.size() == lines.size(), "number", std::to_string(a.size()) + " answers for " + std::to_string(lines.size()) + " lines " + mc::jstr(input) + ": " + r.text());
  std::string o;
  for (size_t i = 0; i < a.size(); ++i)
  {
    auto s = stored.find(lines[i]);
    const uint64_t want = s == stored.end() ? 0 : s->second;
    c.check(a[i].first == refHex(refHash(lines[i])), "hash", "line " + mc::jstr(lines[i]) + " is answered by hash " + a[i].first + ": " + r.text());
    c.check(a[i].second == want, "count", "line " + mc::jstr(lines[i]) + " is answered by " + std::to_string(a[i].second) + " instead of " + std::to_string(want) + ": " + r.text());
    o += std::to_string(want) + " ";
  }
  c.outcome(o);
  c.state(mc::hashOf(input + db.substr(db.size() - 1) + index));
  if (c.wantNotes()) c.note(mc::jstr(input) + (index.empty() ? "" : " with index") + " -> " + o);
}

static void c28(bool th)
{
  static const V words{"password", "two words", "", " ", "caf\xc3\xa9", std::string("nul\0byte", 8), "cr\r", "tab\t", "absent", "\xff\xfe", "password ", " password", "PASSWORD", std::string(300, 'l')};
  // databases: all words, some, none
  static const std::vector<std::map<std::string, uint64_t>> dbs{
      {{"password", 12345}, {"two words", 2}, {"", 3}, {" ", 4}, {"caf\xc3\xa9", 5}, {std::string("nul\0byte", 8), 6}, {"cr\r", 7}, {"tab\t", 8}, {"\xff\xfe", 0xffffffffu}, {std::string(300, 'l'), 9}},
      {{"password", 1}},
      {}};
  auto setup = [](Ctx &c, size_t d, unsigned bits) {
    const std::string f = c.dir() + "/db" + std::to_string(d), x = bits ? f + ".i" + std::to_string(bits) : "";
    if (!exists(f))
    {
      Counts m;
      for (auto &e : dbs[d]) m[refHash(e.first)] = e.second;
      spit(f, encode(m));
    }
    if (bits && !exists(x))
    {
      ToolRun r = runTool({tool("index"), "-I", f, "-O", x, "-B", std::to_string(bits)}, c.dir());
      c.check(r.ok(), "index", "the indexer fails: " + r.text());
    }
    return std::make_pair(f, x);
  };
  mc::explore("sessions", [&](Ctx &c) {
    const size_t d = c.choose(dbs.size());
    const unsigned bits = c.pick(std::vector<unsigned>{0, 1, 4, 8});
    const size_t n = c.choose(th ? 5 : 4);
    std::string in;
    for (size_t i = 0; i < n; ++i)
    {
      in += n >= 3 ? words[c.choose(th && n == 3 ? words.size() : 7)] : c.pick(words);
      if (i == 0) c.shard();
      if (i + 1 < n) in += "\n";
    }
    if (n && c.flag()) in += "\n";
    c.shard();
    if (n >= 3 && (bits == 1 || bits == 8)) return;
    auto f = setup(c, d, bits);
    session(c, f.first, f.second, in, dbs[d]);
  });
  mc::explore("bytes", [&](Ctx &c) {
    // every byte, alone and within a word
    const int b = (int)c.choose(256);
    c.shard();
    if (b == '\n') return;
    auto f = setup(c, 0, 4);
    std::string in = std::string(1, (char)b) + "\na" + std::string(1, (char)b) + "b\n" + std::string(1, (char)b) + "x\ny" + std::string(1, (char)b);
    session(c, f.first, f.second, in, dbs[0]);
  });
  mc::explore("long-sessions", [&](Ctx &c) {
    const size_t n = c.pick(std::vector<size_t>{10, 100, 1000});
    const unsigned bits = c.pick(std::vector<unsigned>{0, 8});
    c.shard();
    auto f = setup(c, 0, bits);
    std::string in;
    for (size_t i = 0; i < n; ++i) in += words[i * 7 % words.size()] + "\n";
    session(c, f.first, f.second, in, dbs[0]);
  });
}

// ---------------------------------------------------------------- C29
static void c29(bool th)
{
  static const V words{"a", "b", "secret", "p:q", ""};
  struct Decoding { V options; ref::Decode md5, hex; };
  auto pipeline = [](Ctx &c, const std::vector<std::string> &files, const std::string &threads, int n, unsigned bits, const Decoding &dec = {{}, ref::Never, ref::Never}) {
    const std::string root = fresh(c);
    dirs(root, {"in", "in/x", "in/y", "conv"});
    // several files with the same name in different directories
    for (size_t i = 0; i < files.size(); ++i) spit(root + (i % 3 == 0 ? "/in/f.txt" : i % 3 == 1 ? "/in/x/f.txt" : "/in/y/f.txt") + (i < 3 ? "" : std::to_string(i) + ".txt"), files[i]);
    std::map<std::string, uint64_t> plain;
    Counts want;
    for (auto &f : files)
    {
      ref::Reader rr(ref::lines(f), ':', dec.md5, dec.hex);
      for (auto &p : rr.passwords()) { plain[p]; ++want[rr.hash(p)]; }
    }
    for (auto &w : words) plain[w];
    for (auto &p : plain)
    {
      auto w = want.find(refHash(p.first));
      p.second = w == want.end() ? 0 : w->second;
    }
    V args{tool("convert"), "-S", root + "/in", "-D", root + "/conv", "--ram", "1", "-T", threads};
    args.insert(args.end(), dec.options.begin(), dec.options.end());
    ToolRun r = runTool(args, c.dir());
    c.check(r.ok(), "convert", "the converter fails: " + r.text());
    if (want.empty())
    {
      c.check(listDir(root + "/conv").empty(), "nothing", "output without passwords");
      return;
    }
    r = runTool({tool("merge"), "-S", root + "/conv", "-O", root + "/db", "-n", std::to_string(n), "-T", root + "/tmp"}, c.dir());
    c.check(r.ok(), "merge", "the merger fails: " + r.text());
    const std::string db = slurp(root + "/db");
    std::string in = "";
    for (auto &f : files) in += f.substr(0, 300) + "|";
    if (db != encode(want)) c.fail("database", "the merged database of " + mc::jstr(in) + " differs from the expected one: " + std::to_string(db.size() / 20) + " records");
    std::string ix;
    if (bits)
    {
      ix = root + "/ix";
      r = runTool({tool("index"), "-I", root + "/db", "-O", ix, "-B", std::to_string(bits)}, c.dir());
      c.check(r.ok(), "index", "the indexer fails: " + r.text());
    }
    std::string q;
    for (auto &w : words) q += w + "\n";
    q += "absent\nA\n";
    size_t at = 0;
    for (auto &w : plain)
      if (at++ % (1 + plain.size() / 1000) == 0 || w.second > 1) q += w.first + "\n";
    c.step(3);
    session(c, root + "/db", ix, q, plain);
    c.state(mc::hashOf(in + threads + char(n) + char(bits)));
    if (c.wantNotes()) c.note(mc::jstr(in) + " chunks by -T " + threads + ", -n " + std::to_string(n) + ", " + std::to_string(bits) + " bits: " + shown(want).substr(0, 300));
  };
  mc::explore("decoded", [&](Ctx &c) {
    // passwords given in plain text, as MD5 hash and as $HEX[...], forced or automatic decoding, in every split
    static const std::vector<Decoding> D{{{}, ref::Never, ref::Never}, {{"--force-md5", "--force-hex"}, ref::Always, ref::Always}, {{"--auto-md5", "--auto-hex"}, ref::Auto, ref::Auto}, {{"--force-md5"}, ref::Always, ref::Never}, {{"--auto-hex"}, ref::Never, ref::Auto}};
    static const V spelled{"secret", refHex(refHash("secret")), "$HEX[736563726574]", refHex(refHash("a")), "a", "5EBE2294ECD0E0F08EAB7690D2A6EE69"};
    const Decoding &d = c.pick(D);
    const size_t n = 1 + c.choose(th ? 4 : 3);
    std::vector<std::string> files(2);
    for (size_t i = 0; i < n; ++i)
    {
      const std::string w = c.pick(spelled);
      files[i == 0 ? 0 : i == 1 ? c.choose(2) : i % 2] += "u" + std::to_string(i) + ":" + w + "\n";
      if (i == 1) c.shard();
    }
    c.shard();
    const size_t k = (files[0].size() / 3 + files[1].size()) % 4;
    pipeline(c, files, Threads[k], 2, unsigned(k * 3), d);
  });
  mc::explore("large", [&](Ctx &c) {
    // numbers of passwords, occurrences, files and chunks around the limits of narrower types
    const size_t lines = c.pick(th ? std::vector<size_t>{255, 256, 257, 4096, 32768, 65536, 65537, 70001, 200003} : std::vector<size_t>{255, 257, 4096, 65537, 70001});
    const size_t nf = c.pick(std::vector<size_t>{1, 3, 17});
    const int kind = (int)c.choose(3); // all different, one password, half of them
    const unsigned bits = c.pick(std::vector<unsigned>{0, 8, 13});
    c.shard();
    std::vector<std::string> files(nf);
    for (size_t i = 0; i < lines; ++i) files[i * i % nf] += "user@h.de:" + (kind == 1 || (kind == 2 && i % 2) ? std::string("secret") : "p" + std::to_string(i)) + "\n";
    pipeline(c, files, lines < 1000 && nf == 3 ? "1000" : "1", nf == 17 && kind ? 3 : 50, bits);
  });
  mc::explore("splits", [&](Ctx &c) {
    // every collection of up to 3 lines, every split into two files, chunk sizes, merge limits, index widths
    const size_t n = 1 + c.choose(th ? 4 : 3);
    std::vector<std::string> files(3);
    for (size_t i = 0; i < n; ++i)
    {
      const std::string w = c.pick(words);
      files[c.choose(i == 0 ? 2 : 3)] += "u" + std::to_string(i) + ":" + w + "\n";
      if (i == 1) c.shard();
    }
    c.shard();
    const size_t k = th ? c.choose(4) : (files[0].size() + 2 * files[1].size()) % 4;
    pipeline(c, files, Threads[k], 2 + (int)(k % 2), k == 3 ? 0 : unsigned(1 + k * 3));
  });
  mc::explore("shapes", [&](Ctx &c) {
    // one longer collection: files x chunk sizes x merge limits x index widths
    const size_t nf = 1 + c.choose(th ? 8 : 4), chunk = c.choose(Threads.size()), lim = c.choose(3);
    const unsigned bits = c.pick(std::vector<unsigned>{0, 1, 5, 12});
    const size_t lines = c.pick(th ? std::vector<size_t>{7, 20, 60} : std::vector<size_t>{7, 20});
    c.shard();
    std::vector<std::string> files(nf);
    for (size_t i = 0; i < lines; ++i) files[i * i % nf] += "user:" + words[i * 3 % 4] + (i % 3 ? "" : std::to_string(i % 5)) + "\n";
    pipeline(c, files, Threads[chunk], lim == 0 ? 2 : lim == 1 ? 3 : 50, bits);
  });
}

// ---------------------------------------------------------------- C30
struct MarkovFile
{
  std::map<uint32_t, double> first;
  std::map<uint32_t, std::map<uint32_t, double>> next;
  std::vector<size_t> probs;
};
static bool parseMarkov(const std::string &f, MarkovFile &m)
{
  size_t o = 5;
  auto u32 = [&](uint32_t &v) {
    if (o + 4 > f.size()) return false;
    memcpy(&v, f.data() + o, 4);
    o += 4;
    return true;
  };
  auto pairs = [&](std::map<uint32_t, double> &out) {
    uint32_t n, s;
    if (!u32(n)) return false;
    for (uint32_t i = 0; i < n; ++i)
    {
      if (!u32(s) || o + 8 > f.size()) return false;
      double p;
      memcpy(&p, f.data() + o, 8);
      m.probs.push_back(o);
      o += 8;
      if (!out.emplace(s, p).second) return false;
    }
    return true;
  };
  uint32_t n, s;
  if (f.substr(0, 5) != "MRKV\2" || !pairs(m.first) || !u32(n)) return false;
  for (uint32_t i = 0; i < n; ++i)
    if (!u32(s) || !pairs(m.next[s])) return false;
  return o == f.size();
}

static void c30(bool th)
{
  static const V pieces{"u:ab", "u:a", "u:", "", "ba", "u:\xc3\xa9" "a", "u:a:b", "u;ab", "u:aab", "u:" + std::string(199, 'q'), "u:ab\r", "u:\xf0\x9f\x98\x80"};
  auto near = [](double a, double b) { return std::fabs(a - b) <= 1e-12; };
  auto train = [](const std::string &text) {
    std::vector<Model> ms;
    const auto ls = ref::lines(text);
    for (char sep : ref::separators(ls))
    {
      Model m;
      for (auto &p : ref::Reader(ls, sep, ref::Never, ref::Never).passwords()) m.train(p);
      ms.push_back(m);
    }
    return ms;
  };
  auto matches = [near](const MarkovFile &f, const Model &m) {
    if (f.first.size() != m.first.size()) return false;
    for (auto &e : f.first)
      if (!near(e.second, m.firstProb(e.first))) return false;
    for (auto &e : m.next)
    {
      auto i = f.next.find(e.first);
      if (i == f.next.end() || i->second.size() != e.second.size()) return false;
    }
    for (auto &e : f.next)
      for (auto &g : e.second)
        if (!near(g.second, m.nextProb(e.first, g.first))) return false;
    return true;
  };
  auto ask = [](Ctx &c, const std::string &file, const Model &m, const std::string &in, const V &wordsIn) {
    ToolRun r = runTool({tool("markovlookup"), file}, c.dir(), in);
    c.step();
    c.check(r.ok(), "lookup-status", "the lookup tool fails: " + r.text());
    std::vector<double> got;
    size_t p = 0;
    while ((p = r.out.find("p = ", p)) != std::string::npos) { got.push_back(strtod(r.out.c_str() + p + 4, nullptr)); p += 4; }
    c.check(got.size() == wordsIn.size(), "lookup-number", std::to_string(got.size()) + " answers for " + std::to_string(wordsIn.size()) + " words: " + r.text());
    for (size_t i = 0; i < got.size(); ++i)
    {
      const double want = m.prob(Model::decode(wordsIn[i]));
      c.check(std::fabs(got[i] - want) <= 1e-5 * want + 1e-300, "lookup-probability", "word " + mc::jstr(wordsIn[i]) + " has probability " + std::to_string(got[i]) + " instead of " + std::to_string(want) + ": " + r.text());
    }
  };
  mc::explore("training", [&](Ctx &c) {
    const size_t n = c.choose(th ? 5 : 4);
    std::string t;
    for (size_t i = 0; i < n; ++i)
    {
      t += n > 2 ? pieces[c.choose(th ? 8 : 6)] : c.pick(pieces);
      if (i == 1) c.shard();
      if (i + 1 < n || n % 2) t += "\n";
    }
    c.shard();
    const std::string root = fresh(c);
    spit(root + "/in", t);
    V args{tool("markovgen"), "-I", root + "/in", "-O", root + "/m"};
    if (n == 2) args.push_back("-v");
    ToolRun r = runTool(args, c.dir());
    c.step();
    c.check(r.ok(), "status", "the generator fails: " + r.text());
    MarkovFile f;
    c.check(parseMarkov(slurp(root + "/m"), f), "format", "the Markov file is malformed for " + mc::jstr(t));
    const Model *m = nullptr;
    const auto ms = train(t);
    for (auto &x : ms)
      if (matches(f, x)) m = &x;
    c.check(m != nullptr, "chain", "the Markov file is not the chain of " + mc::jstr(t));
    c.check(slurp(root + "/in") == t, "input", "the input was changed");
    c.state(mc::hashOf(t));
    c.outcome(slurp(root + "/m"));
    static const V words{"a", "b", "ab", "ba", "aab", "abab", "u", "\xc3\xa9" "a", "\xf0\x9f\x98\x80", "zz", "a:b", "u;ab"};
    std::string in;
    for (auto &w : words) in += w + "\n";
    ask(c, root + "/m", *m, in, words);
    if (c.wantNotes()) c.note(mc::jstr(t) + " -> " + std::to_string(f.first.size()) + " first symbols, " + std::to_string(f.next.size()) + " nodes");
  });
  mc::explore("sessions", [&](Ctx &c) {
    static const V words{"ab", "a", "zz", "\xc3\xa9" "a", "abababab"};
    static const V separators{"\n", " ", "\t", "\n\n", " \n "};
    const size_t n = c.choose(4);
    std::string in = c.flag() ? " \n" : "";
    V list;
    for (size_t i = 0; i < n; ++i)
    {
      list.push_back(c.pick(words));
      if (i == 0) c.shard();
      in += list.back();
      if (i + 1 < n) in += n == 3 ? separators[(i + list.size()) % 2] : c.pick(separators);
    }
    if (n && c.flag()) in += "\n";
    c.shard();
    const std::string f = c.dir() + "/session.mrkv";
    const std::string t = "u:ab\nu:ab\nu:ba\nu:\xc3\xa9" "a\nu:aa\nu:bab\n";
    if (!exists(f))
    {
      spit(c.dir() + "/session.txt", t);
      ToolRun r = runTool({tool("markovgen"), "-I", c.dir() + "/session.txt", "-O", f}, c.dir());
      c.check(r.ok(), "status", "the generator fails: " + r.text());
    }
    ask(c, f, train(t)[0], in, list);
    c.state(mc::hashOf(in));
  });
  mc::explore("many-lines", [&](Ctx &c) {
    // as many passwords as it takes until the program tells about them, and more
    const size_t n = c.pick(std::vector<size_t>{255, 256, 257, 999, 1000, 1001, 32768, 65535, 65536, 65537, 99999, 100000, 100001, 200000});
    const int kind = (int)c.choose(3);
    const V options = c.pick(std::vector<V>{{}, {"-v"}, {"-v", "-N", "1000"}, {"-N", "1"}, {"--output-every", "65536", "--verbose"}});
    c.shard();
    const std::string root = fresh(c);
    std::string t;
    for (size_t i = 0; i < n; ++i) t += kind == 0 ? "u:ab\n" : kind == 1 ? i % 2 ? "u:ab\n" : "u:ba\n" : "u:" + std::string(1, char('a' + i % 26)) + char('a' + i / 26 % 26) + char('a' + i % 7) + "\n";
    spit(root + "/in", t);
    V args{tool("markovgen"), "-I", root + "/in", "-O", root + "/m"};
    args.insert(args.end(), options.begin(), options.end());
    ToolRun r = runTool(args, c.dir());
    c.step();
    const std::string what = std::to_string(n) + " lines of kind " + std::to_string(kind);
    c.check(r.ok(), "status", "the generator fails with " + what + ": " + r.text());
    MarkovFile f;
    c.check(parseMarkov(slurp(root + "/m"), f), "format", "the Markov file is malformed for " + what);
    Model m;
    std::istringstream is(t);
    std::string l;
    while (std::getline(is, l)) m.train(l.substr(2));
    c.check(matches(f, m), "chain", "the Markov file is not the chain of " + what + ": " + r.text());
    c.state(mc::hashOf(what));
    ask(c, root + "/m", m, "ab\nba\nabd\nzzz\n", {"ab", "ba", "abd", "zzz"});
    if (c.wantNotes()) c.note(what);
  });
  mc::explore("many-words", [&](Ctx &c) {
    // very many questions to one run
    const size_t n = c.pick(std::vector<size_t>{100, 255, 256, 257, 1000, 5000}), kind = c.choose(3);
    c.shard();
    const std::string f = c.dir() + "/many.mrkv";
    std::string t = "u:ab\nu:ab\nu:ba\nu:\xc3\xa9" "a\nu:aa\nu:bab\n";
    if (!exists(f))
    {
      spit(c.dir() + "/many.txt", t);
      ToolRun r = runTool({tool("markovgen"), "-I", c.dir() + "/many.txt", "-O", f}, c.dir());
      c.check(r.ok(), "status", "the generator fails: " + r.text());
    }
    static const V words{"ab", "a", "zz", "\xc3\xa9" "a", "abab", "ba", "ab\xc3\xa9"};
    V list;
    std::string in;
    for (size_t i = 0; i < n; ++i) { list.push_back(words[kind == 0 ? 0 : kind == 1 ? i % 7 : i * i % 7]); in += list.back() + "\n"; }
    ask(c, f, train(t)[0], in, list);
    c.state(mc::hashOf(in));
  });
  mc::explore("long-words", [&](Ctx &c) {
    // words of all lengths, also far longer than any in the training text
    const size_t n = c.pick(std::vector<size_t>{1, 2, 7, 8, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 199, 200, 255, 256, 257, 511, 512, 1023, 1024, 4095, 4096, 4097, 65535, 65536, 65537});
    const int kind = (int)c.choose(3);
    c.shard();
    const std::string f = c.dir() + "/long.mrkv";
    const std::string t = "u:" + [] { std::string w; for (int i = 0; i < 90; ++i) w += "ab"; return w; }() + "\nu:cc\nu:\xc3\xa9\xc3\xa9\n";
    if (!exists(f))
    {
      spit(c.dir() + "/long.txt", t);
      ToolRun r = runTool({tool("markovgen"), "-I", c.dir() + "/long.txt", "-O", f}, c.dir());
      c.check(r.ok(), "status", "the generator fails: " + r.text());
    }
    std::string w;
    for (size_t i = 0; i < n; ++i) w += kind == 0 ? (i % 2 ? "b" : "a") : kind == 1 ? "c" : "\xc3\xa9";
    ask(c, f, train(t)[0], w + "\nab\n" + w + "z\ncc", {w, "ab", w + "z", "cc"});
    c.state(mc::hashOf(w));
  });
  mc::explore("damaged", [&](Ctx &c) {
    const std::string root = fresh(c);
    static const std::string t = "u:ab\nu:ba\nu:\xc3\xa9" "a\n";
    spit(root + "/in", t);
    ToolRun r = runTool({tool("markovgen"), "-I", root + "/in", "-O", root + "/m"}, c.dir());
    c.check(r.ok(), "status", "the generator fails: " + r.text());
    const std::string f = slurp(root + "/m");
    MarkovFile mf;
    c.check(parseMarkov(f, mf), "format", "malformed");
    const size_t k = c.choose(f.size() + 256 + 5 + mf.probs.size() * 3 + 1);
    c.shard();
    std::string g = f;
    if (k < f.size()) g = f.substr(0, k);
    else if (k < f.size() + 256) { if ((char)(k - f.size()) == f[4]) return; g[4] = (char)(k - f.size()); }
    else if (k < f.size() + 261) g[(k - f.size() - 256) % 5] ^= 0x20;
    else if (k < f.size() + 261 + mf.probs.size() * 3)
    {
      const size_t q = k - f.size() - 261;
      const double bad = q % 3 == 0 ? NAN : q % 3 == 1 ? -0.5 : 1.25;
      memcpy(&g[mf.probs[q / 3]], &bad, 8);
    }
    spit(root + "/d", g);
    if (k == f.size() + 261 + mf.probs.size() * 3) ::unlink((root + "/d").c_str());
    r = runTool({tool("markovlookup"), root + "/d"}, c.dir(), "ab\n");
    c.step();
    c.check(r.exited && r.code != 0, "accepted", "a damaged file (case " + std::to_string(k) + ") is accepted: " + r.text());
    c.check(!r.err.empty() || !r.out.empty(), "message", "no message for a damaged file");
    c.state(mc::hashOf(g));
    c.outcome(r.err);
  });
}

int main(int argc, char **argv)
{
  mc::parseArgs(argc, argv);
  ::umask(022);
  const bool th = mc::opt.thorough();
  const std::string p = mc::opt.prop;
  if (p == "C07") c07(th);
  else if (p == "C09") c09(th);
  else if (p == "C23") c23(th);
  else if (p == "C24") c24(th);
  else if (p == "C25") c25(th);
  else if (p == "C28") c28(th);
  else if (p == "C29") c29(th);
  else if (p == "C30") c30(th);
  return mc::finish();
}
