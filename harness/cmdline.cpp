// C33, C34: the command lines of all tools, as the real programs.
#include "../common/util.hpp"

using mc::Ctx;
using V = std::vector<std::string>;

static std::string tool(const std::string &name) { return mc::opt.arg(name.c_str()); }

static void walk(const std::string &root, const std::string &rel, std::map<std::string, std::string> &out)
{
  for (auto &e : listDir(root + rel))
  {
    const std::string p = rel + "/" + e;
    struct stat st;
    if (::lstat((root + p).c_str(), &st)) continue;
    if (S_ISDIR(st.st_mode)) { out[p + "/"] = ""; walk(root, p, out); }
    else if (S_ISLNK(st.st_mode))
    {
      char b[4096];
      const ssize_t n = ::readlink((root + p).c_str(), b, sizeof b);
      out[p] = "-> " + std::string(b, n < 0 ? 0 : size_t(n));
    }
    else out[p] = slurp(root + p);
  }
}
static std::map<std::string, std::string> snapshot(const std::string &root)
{
  std::map<std::string, std::string> m;
  walk(root, "", m);
  return m;
}
static std::string difference(const std::map<std::string, std::string> &a, const std::map<std::string, std::string> &b)
{
  for (auto &e : a)
  {
    auto i = b.find(e.first);
    if (i == b.end()) return e.first + " is removed";
    if (i->second != e.second) return e.first + " is changed (" + std::to_string(e.second.size()) + " -> " + std::to_string(i->second.size()) + " bytes)";
  }
  for (auto &e : b)
    if (!a.count(e.first)) return e.first + " is created";
  return "";
}

enum Kind { Switch, Text, Unsigned, Signed };
struct Opt
{
  const char *name;
  char letter;        // 0: none
  Kind kind;
  const char *value;  // of the valid command line; nullptr: not part of it
  bool mandatory = false, multi = false;
  V bad = {};         // values that are out of range
};
struct Tool
{
  const char *name;
  std::vector<Opt> opts;
  V help;             // spellings
  bool runs;          // the valid command line ends by itself
};

// every path is relative to the directory that setup() fills, which is the working directory
static const std::vector<Tool> &tools()
{
  static const std::vector<Tool> t{
      {"convert", {{"input", 'I', Text, "f.txt", true, true}, {"dst", 'D', Text, "out", true}, {"ext", 0, Text, ".db"}, {"ram", 0, Unsigned, "1"}, {"threads", 'T', Unsigned, "3000"}, {"auto-md5", 0, Switch, ""}, {"auto-hex", 0, Switch, ""}, {"src", 'S', Text, nullptr}, {"force-md5", 0, Switch, nullptr}, {"force-hex", 0, Switch, nullptr}}, {"--help"}, true},
      {"merge", {{"input", 'I', Text, "a.md5", true, true}, {"output", 'O', Text, "out/m", true}, {"tmp", 'T', Text, "t"}, {"max-files-at-once", 'n', Signed, "2", false, false, {"1", "0", "-1", "-2147483648"}}, {"ext", 'X', Text, ".x"}, {"src", 'S', Text, nullptr}}, {"--help", "-?"}, true},
      {"index", {{"input", 'I', Text, "a.md5", true}, {"output", 'O', Text, "out/i", true}, {"bits", 'B', Unsigned, "5", false, false, {"0", "64", "65", "100"}}}, {"--help"}, true},
      {"lookup", {{"input", 'I', Text, "a.md5", true}, {"index", 'X', Text, "a.idx"}}, {"--help"}, true},
      {"testset", {{"input", 'I', Text, "a.md5", true}, {"output", 'O', Text, "out/t", true}, {"num", 'N', Signed, "2", false, false, {"0", "-1", "-2147483648"}}, {"test-urls", 0, Switch, ""}, {"test-url-prefix", 0, Text, "http://x/"}, {"non-existent", 0, Switch, nullptr}}, {"--help"}, true},
      {"pwextract", {{"source", 'S', Text, "src", true}, {"output", 'O', Text, "out/p", true}, {"ignore-ready", 0, Switch, ""}, {"compress", 'C', Switch, ""}}, {"--help"}, true},
      {"markovgen", {{"input", 'I', Text, "f.txt", true}, {"output", 'O', Text, "out/m", true}, {"output-every", 'N', Unsigned, "1000", false, false, {"0"}}, {"verbose", 'v', Switch, nullptr}}, {"--help", "-?"}, true},
      {"server", {{"input", 'I', Text, "a.md5", true}, {"index", 'X', Text, "a.idx"}, {"address", 'A', Text, "http://127.0.0.1:1"}, {"workers", 'W', Signed, "1"}, {"threads", 'T', Signed, "1"}, {"verbose", 'v', Switch, nullptr}}, {"--help", "-?"}, false},
  };
  return t;
}

static std::string db(std::initializer_list<std::pair<const char *, uint32_t>> l)
{
  std::map<std::pair<uint64_t, uint64_t>, uint32_t> m;
  for (auto &e : l) m[refHash(e.first)] = e.second;
  std::string s;
  for (auto &e : m) s += record(e.first, e.second);
  return s;
}
static std::string setup(Ctx &c)
{
  const std::string r = c.dir() + "/x";
  mc::freshDir(r);
  for (auto d : {"/out", "/t", "/src", "/sub"}) ::mkdir((r + d).c_str(), 0777);
  spit(r + "/f.txt", "u:a\nv:b\nw:a\n");
  spit(r + "/src/g.txt", "u:a\nv:$HEX[62]\n");
  spit(r + "/a.md5", db({{"a", 2}, {"b", 1}, {"x", 70000}}));
  spit(r + "/b.md5", db({{"b", 5}, {"c", 4}}));
  std::string idx;
  for (int i = 0; i < 2; ++i) // one bit: the first record of each half
  {
    uint64_t at = ~0ULL;
    const std::string a = slurp(r + "/a.md5");
    for (size_t k = 0; k < a.size(); k += 20)
    {
      uint64_t h;
      memcpy(&h, &a[k], 8);
      if (int(h >> 63) == i) { at = k; break; }
    }
    idx.append((const char *)&at, 8);
  }
  spit(r + "/a.idx", idx);
  spit(r + "/out/keep", "kept");
  return r;
}

// one option with its value in one of the documented spellings
static V spelled(const Opt &o, int style, const std::string &value)
{
  const std::string l = std::string("--") + o.name, s = o.letter ? std::string("-") + o.letter : l;
  if (o.kind == Switch) return {style % 2 && o.letter ? s : l};
  switch (style)
  {
  case 0: return {l, value};
  case 1: return {l + "=" + value};
  case 2: return {s, value};
  default: return {o.letter ? s + value : l + "=" + value};
  }
}
static std::string joined(const V &a)
{
  std::string s;
  for (auto &x : a) s += x + " ";
  return s;
}
static ToolRun run(Ctx &c, const Tool &t, const V &args, const std::string &root)
{
  V a{tool(t.name)};
  a.insert(a.end(), args.begin(), args.end());
  c.step();
  return runTool(a, c.dir(), "a\nzz\nb\n", root, 15);
}
static std::vector<V> valid(const Tool &t, int style)
{
  std::vector<V> r;
  for (auto &o : t.opts)
    if (o.value) r.push_back(spelled(o, style, o.value));
  return r;
}
static V flat(const std::vector<V> &g)
{
  V r;
  for (auto &x : g) r.insert(r.end(), x.begin(), x.end());
  return r;
}

static void refused(Ctx &c, const Tool &t, const V &args, const std::string &why)
{
  const std::string root = setup(c);
  const auto before = snapshot(root);
  ToolRun r = run(c, t, args, root);
  c.check(r.exited && r.code != 0, "not-refused", why + " is not refused: " + r.text());
  if (!t.opts.empty()) c.check(!r.err.empty() || !r.out.empty(), "no-message", why + ": no message: " + r.text());
  const std::string d = difference(before, snapshot(root));
  c.check(d.empty(), "effect", why + ", but " + d + ": " + r.text());
  c.state(mc::hashOf(t.name + joined(args)));
  c.outcome(std::string(t.name) + std::to_string(r.code));
  if (c.wantNotes()) c.note(why + ": " + joined(args) + "-> " + std::to_string(r.code));
}

static void c33(bool th)
{
  mc::explore("refused", [&](Ctx &c) {
    const Tool &t = tools()[c.choose(tools().size())];
    const int style = (int)c.choose(4);
    c.shard();
    std::vector<V> g = valid(t, style);
    const size_t defect = c.choose(7);
    auto insert = [&](const V &what) { // anywhere
      const size_t at = c.choose(g.size() + 1);
      c.shard();
      g.insert(g.begin() + (long)at, what);
    };
    auto which = [&](auto &&ok) -> const Opt & {
      std::vector<const Opt *> v;
      for (auto &o : t.opts) if (ok(o)) v.push_back(&o);
      if (v.empty()) throw mc::Skip{};
      return *v[c.choose(v.size())];
    };
    auto indexOf = [&](const Opt &o) {
      size_t n = 0;
      for (auto &p : t.opts)
      {
        if (&p == &o) break;
        if (p.value) ++n;
      }
      return n;
    };
    std::string why;
    if (defect == 0)
    {
      const std::string u = c.pick(V{"--frobnicate", "--frobnicate=1", "-Z", "--input2=x", "-%", "---"});
      insert({u});
      why = "an unknown option";
    }
    else if (defect == 1)
    {
      const Opt &o = which([](const Opt &o) { return o.kind != Switch; });
      if (o.value) g.erase(g.begin() + (long)indexOf(o));
      g.push_back({style % 2 || !o.letter ? std::string("--") + o.name : std::string("-") + o.letter});
      why = std::string("the option ") + o.name + " without its value";
    }
    else if (defect == 2)
    {
      const Opt &o = which([](const Opt &o) { return o.kind == Unsigned || o.kind == Signed; });
      if (o.value) g.erase(g.begin() + (long)indexOf(o));
      const std::string v = c.pick(V{"x", "1x", "x1", "0x1", "1.5", "1 ", " 1", "1,0", "99999999999999999999999", "--"});
      if (style != 1 && style != 3 && v == "--") throw mc::Skip{};
      insert(spelled(o, style, v));
      why = std::string("the value '") + v + "' of the option " + o.name;
    }
    else if (defect == 3)
    {
      const Opt &o = which([](const Opt &o) { return !o.bad.empty(); });
      if (o.value) g.erase(g.begin() + (long)indexOf(o));
      const std::string v = c.pick(o.bad);
      if (v[0] == '-' && style % 2 == 0) throw mc::Skip{}; // reads as an option of its own
      insert(spelled(o, style, v));
      why = std::string("the value '") + v + "' of the option " + o.name + ", which is out of range,";
    }
    else if (defect == 4)
    {
      const Opt &o = which([](const Opt &o) { return !o.multi && o.value; });
      insert(spelled(o, (int)c.choose(2) * 2, o.value));
      why = std::string("the option ") + o.name + " given twice";
    }
    else if (defect == 5)
    {
      const Opt &o = which([](const Opt &o) { return o.mandatory; });
      g.erase(g.begin() + (long)indexOf(o));
      why = std::string("a command line without the option ") + o.name;
    }
    else
    {
      insert({c.pick(V{"junk", "", "f.txt"})});
      why = "an argument without option";
    }
    refused(c, t, flat(g), why);
  });
  mc::explore("refused-others", [&](Ctx &c) {
    // a switch with a value; nothing at all; the tools without options
    const size_t k = c.choose(4);
    if (k == 0)
    {
      const Tool &t = tools()[c.choose(tools().size())];
      std::vector<V> sw;
      for (auto &o : t.opts)
        if (o.kind == Switch) sw.push_back({std::string("--") + o.name + "=1"});
      if (sw.empty()) return;
      std::vector<V> g;
      for (auto &o : t.opts)
        if (o.value && o.kind != Switch) g.push_back(spelled(o, 0, o.value));
      const V x = sw[c.choose(sw.size())];
      g.insert(g.begin() + (long)c.choose(g.size() + 1), x);
      c.shard();
      refused(c, t, flat(g), "a value for a switch");
    }
    else if (k == 1)
    {
      const Tool &t = tools()[c.choose(tools().size())];
      c.shard();
      refused(c, t, {}, "an empty command line");
    }
    else if (k == 2)
    {
      static const Tool be{"be2le", {}, {}, true};
      const size_t n = c.choose(2);
      c.shard();
      refused(c, be, n ? V{"a.md5"} : V{}, "a missing file name");
    }
    else
    {
      static const Tool ml{"markovlookup", {}, {}, true};
      c.shard();
      refused(c, ml, {}, "a missing file name");
    }
  });
  mc::explore("help", [&](Ctx &c) {
    // alone, with the complete command line or part of it, at every position
    const Tool &t = tools()[c.choose(tools().size())];
    const std::string h = c.pick(t.help);
    const std::vector<V> all = valid(t, 0);
    std::vector<V> g;
    for (auto &x : all)
      if (g.size() < 6 && c.flag()) g.push_back(x);
    g.insert(g.begin() + (long)c.choose(g.size() + 1), V{h});
    c.shard();
    const std::string root = setup(c);
    const auto before = snapshot(root);
    ToolRun r = run(c, t, flat(g), root);
    c.check(r.ok(), "status", "asking for help fails: " + r.text());
    const std::string text = r.out + r.err;
    for (auto &o : t.opts)
      c.check(text.find(std::string("--") + o.name) != std::string::npos, "incomplete", std::string("the help does not name --") + o.name + ": " + r.text());
    const std::string d = difference(before, snapshot(root));
    c.check(d.empty(), "effect", "asking for help has an effect: " + d + ": " + r.text());
    c.state(mc::hashOf(t.name + joined(flat(g))));
    c.outcome(t.name);
    if (c.wantNotes()) c.note(joined(flat(g)) + "-> help");
  });
  auto visible = [](const ToolRun &r) { // what the lookup tool answers
    std::string s;
    std::istringstream is(r.out);
    std::string l;
    while (std::getline(is, l))
      if (l.find("Found") != std::string::npos || l.find("Not found") != std::string::npos || l.find("MD5") != std::string::npos) s += l + "\n";
    return s;
  };
  mc::explore("spellings", [&](Ctx &c) {
    // every spelling of each option and every order give the same result
    const Tool &t = tools()[c.choose(tools().size())];
    if (!t.runs) return;
    std::vector<const Opt *> o;
    for (auto &p : t.opts)
      if (p.value) o.push_back(&p);
    std::vector<V> g;
    const bool orders = c.flag();
    if (orders)
    {
      // all orders of up to four options, every rotation and its mirror image of more
      std::vector<const Opt *> rest = o;
      const int style = (int)c.choose(4);
      if (o.size() <= (th ? 5 : 4))
        while (!rest.empty())
        {
          const size_t k = c.choose(rest.size());
          g.push_back(spelled(*rest[k], style, rest[k]->value));
          rest.erase(rest.begin() + (long)k);
        }
      else
      {
        std::rotate(rest.begin(), rest.begin() + (long)c.choose(rest.size()), rest.end());
        if (c.flag()) std::reverse(rest.begin(), rest.end());
        for (auto p : rest) g.push_back(spelled(*p, style, p->value));
      }
    }
    else
      for (auto p : o) g.push_back(spelled(*p, p->kind == Switch ? (p->letter ? (int)c.choose(2) : 0) : (int)c.choose(4), p->value));
    c.shard();
    std::string root = setup(c);
    const ToolRun r1 = run(c, t, flat(valid(t, 0)), root);
    const auto want = snapshot(root);
    const std::string said = visible(r1);
    c.check(r1.ok(), "valid", "the command line is refused: " + r1.text());
    root = setup(c);
    const ToolRun r2 = run(c, t, flat(g), root);
    c.check(r2.ok(), "valid", "the command line is refused: " + r2.text());
    const std::string d = difference(want, snapshot(root));
    c.check(d.empty(), "differs", "another spelling gives another result, compared with '" + joined(flat(valid(t, 0))) + "' " + d + ": " + r2.text());
    if (!strcmp(t.name, "lookup"))
      c.check(said == visible(r2) && !said.empty(), "differs", "another spelling gives other answers: " + said + " / " + r2.text());
    c.state(mc::hashOf(t.name + joined(flat(g))));
    c.outcome(t.name);
    if (c.wantNotes()) c.note(joined(flat(g)));
  });
  mc::explore("paths", [&](Ctx &c) {
    // directories and files under every spelling of their path
    const V names{"d", "dd", "x y", ".h", "d.txt"};
    const std::string n = c.pick(names);
    const V forms{"%", "./%", "%/", "%//", "%/.", "sub/../%", "@/%", "."};
    const std::string form = c.pick(forms);
    const size_t what = c.choose(3);
    c.shard();
    std::string root = setup(c);
    ::mkdir((root + "/" + n).c_str(), 0777);
    std::string p = form;
    if (p.find('%') != std::string::npos) p.replace(p.find('%'), 1, n);
    if (p[0] == '@') p.replace(0, 1, root);
    const std::string cwd = form == "." ? root + "/" + n : root;
    V a;
    if (what == 0)
    {
      spit(root + "/" + n + "/q.txt", "u:only\n");
      a = {tool("convert"), "-S", p, "-D", root + "/out", "--ram", "1"};
    }
    else if (what == 1)
    {
      spit(root + "/" + n + "/q.md5", db({{"only", 1}}));
      a = {tool("merge"), "-S", p, "-O", root + "/out/m", "-T", root + "/t"};
    }
    else
    {
      spit(root + "/" + n + "/q.txt", "u:only\n");
      a = {tool("pwextract"), "-S", p, "-O", root + "/out/p"};
    }
    c.step();
    ToolRun r = runTool(a, c.dir(), "", cwd, 15);
    c.check(r.ok(), "status", "the tool fails: " + r.text());
    std::string got;
    for (auto &e : snapshot(root + "/out"))
      if (e.first != "/keep") got += e.second;
    const std::string want = what == 2 ? "only\n" : db({{"only", 1}});
    c.check(got == want, "lost", "the directory '" + p + "' has not been processed: " + r.text());
    c.state(mc::hashOf(p + char('0' + what)));
    c.outcome(form);
    if (c.wantNotes()) c.note(joined(a));
  });
}

// ---------------------------------------------------------------- C34
static void c34(bool th)
{
  (void)th;
  mc::explore("same-file", [&](Ctx &c) {
    const std::string t = c.pick(V{"be2le", "index", "testset", "testset-non", "testset-urls", "markovgen", "merge", "merge2", "merge-scan", "pwextract", "pwextract-bz2"});
    const bool text = t == "markovgen" || t.compare(0, 9, "pwextract") == 0;
    const size_t size = c.choose(4), how = c.choose(8);
    const std::string answer = c.pick(V{"", "y\n", "n\n"});
    c.shard();
    const std::string root = setup(c);
    const std::string name = text ? "src/in.txt" : t == "merge-scan" ? "src/in.md5" : "src/in";
    std::string content;
    if (text)
      content = size == 0 ? "" : size == 1 ? "u:a\n" : size == 2 ? "a\nbb\nccc\n" : [] { std::string s; for (int i = 0; i < 3000; ++i) s += "user" + std::to_string(i) + ":pass" + std::to_string(i) + "\n"; return s; }();
    else
    {
      std::map<std::pair<uint64_t, uint64_t>, uint32_t> m;
      for (size_t i = 0; i < (size == 3 ? 3000 : size); ++i) m[refHash(std::to_string(i))] = (uint32_t)i + 1;
      for (auto &e : m) content += record(e.first, e.second);
    }
    if (t == "markovgen" && size == 0) content = "u:a\n";
    if (t == "merge-scan" && content.empty()) return; // empty files are not merged
    spit(root + "/" + name, content);
    std::string in = name, out;
    const std::string base = name.substr(4);
    switch (how)
    {
    case 0: out = name; break;
    case 1: out = "./" + name; break;
    case 2: out = root + "/" + name; break;
    case 3: out = "sub/../src//" + base; break;
    case 4: out = "out/link"; if (::symlink(("../" + name).c_str(), (root + "/out/link").c_str())) return; break;
    case 5: out = "out/hard"; if (::link((root + "/" + name).c_str(), (root + "/out/hard").c_str())) return; break;
    case 6: out = "dir/" + base; if (::symlink("src", (root + "/dir").c_str())) return; break;
    default: // the input is given by a link
      if (t == "merge-scan" || t.compare(0, 9, "pwextract") == 0) { out = name; in = root + "/" + name; break; }
      in = "out/link"; out = name; if (::symlink(("../" + name).c_str(), (root + "/out/link").c_str())) return; break;
    }
    const auto before = snapshot(root);
    V a;
    if (t == "be2le") a = {tool("be2le"), in, out};
    if (t == "index") a = {tool("index"), "-I", in, "-O", out, "-B", "4"};
    if (t.compare(0, 7, "testset") == 0) a = {tool("testset"), "-I", in, "-O", out, "-N", "2"};
    if (t == "testset-non") a.push_back("--non-existent");
    if (t == "testset-urls") a.push_back("--test-urls");
    if (t == "markovgen") a = {tool("markovgen"), "-I", in, "-O", out};
    if (t == "merge") a = {tool("merge"), "-I", in, "-O", out, "-T", "t"};
    if (t == "merge2") a = {tool("merge"), "-I", "b.md5", "-I", in, "-I", "a.md5", "-O", out, "-T", "t", "-n", "2"};
    if (t == "merge-scan") a = {tool("merge"), "-S", how == 7 ? root + "/src" : "src", "-O", out, "-T", "t"};
    if (t.compare(0, 9, "pwextract") == 0) a = {tool("pwextract"), "-S", how == 7 ? root + "/src" : "src", "-O", out};
    if (t == "pwextract-bz2") a.push_back("-C");
    c.step();
    ToolRun r = runTool(a, c.dir(), answer, root, 15);
    c.check(!r.hung, "hang", "the tool does not end: " + joined(a));
    const std::string d = difference(before, snapshot(root));
    c.check(d.empty(), "destroyed", "the output is the input, and " + d + ": " + r.text());
    c.check(r.exited && r.code != 0, "not-refused", "an output that is the input is not refused: " + r.text());
    c.state(mc::hashOf(t + name + out + in + answer + char(size)));
    c.outcome(t + std::to_string(how));
    if (c.wantNotes()) c.note(joined(a) + "-> refused");
  });
  mc::explore("another-file", [&](Ctx &c) {
    // a file of the same content, size or name elsewhere is no obstacle
    const std::string t = c.pick(V{"be2le", "index", "testset", "markovgen", "merge", "pwextract"});
    const size_t how = c.choose(4);
    c.shard();
    const std::string root = setup(c);
    const bool text = t == "markovgen" || t == "pwextract";
    const std::string base = text ? "g.txt" : "in", name = "src/" + base;
    if (!text) spit(root + "/" + name, slurp(root + "/a.md5"));
    const std::string content = slurp(root + "/" + name);
    std::string out = "out/" + base;
    if (how == 1) spit(root + "/" + out, content); // a copy
    if (how == 2) spit(root + "/" + out, "other");
    if (how == 3 && ::symlink("../sub/new", (root + "/" + out).c_str())) return; // to a file that does not exist
    V a;
    if (t == "be2le") a = {tool("be2le"), name, out};
    if (t == "index") a = {tool("index"), "-I", name, "-O", out, "-B", "4"};
    if (t == "testset") a = {tool("testset"), "-I", name, "-O", out, "-N", "2"};
    if (t == "markovgen") a = {tool("markovgen"), "-I", name, "-O", out};
    if (t == "merge") a = {tool("merge"), "-I", name, "-O", out, "-T", "t"};
    if (t == "pwextract") a = {tool("pwextract"), "-S", "src", "-O", out};
    c.step();
    ToolRun r = runTool(a, c.dir(), "y\n", root, 15);
    c.check(r.ok(), "refused", "an output that is no input is refused: " + r.text());
    c.check(slurp(root + "/" + name) == content, "destroyed", "the input has been changed: " + r.text());
    const std::string got = slurp(root + "/" + out);
    c.check(!got.empty() && got != "other", "no-output", "no output has been written: " + r.text());
    c.state(mc::hashOf(t + char(how)));
    c.outcome(t);
  });
  mc::explore("same-directory", [&](Ctx &c) {
    // results beside the inputs: each run leaves the inputs alone
    const std::string ext = c.pick(V{".md5", ".txt", ""});
    const size_t runs = 1 + c.choose(3);
    const bool scan = c.flag();
    const std::string threads = c.pick(V{"20000", "1"});
    c.shard();
    const std::string root = setup(c);
    spit(root + "/src/h.txt", "u:c\nv:d\nw:c\n");
    spit(root + "/src/g-0001.txt", "u:e\n");
    for (size_t i = 0; i < runs; ++i)
    {
      const auto before = snapshot(root);
      V a{tool("convert"), "-D", "src", "--ram", "1", "-T", threads, "--ext", ext};
      if (scan) { a.push_back("-S"); a.push_back("src"); }
      else for (auto f : {"src/g.txt", "src/h.txt"}) { a.push_back("-I"); a.push_back(f); }
      c.step();
      ToolRun r = runTool(a, c.dir(), "", root, 15);
      c.check(r.ok(), "status", "the converter fails: " + r.text());
      const auto after = snapshot(root);
      size_t fresh = 0;
      for (auto &e : after) fresh += !before.count(e.first);
      c.check(fresh > 0, "no-output", "nothing has been written: " + r.text());
      for (auto &e : before)
      {
        auto k = after.find(e.first);
        c.check(k != after.end() && k->second == e.second, "destroyed", e.first + " has been changed or removed: " + r.text());
      }
    }
    c.state(mc::hashOf(ext + char(runs) + char(scan) + threads));
    c.outcome(ext);
  });
  mc::explore("merge-beside", [&](Ctx &c) {
    // intermediate and merged files in the directory of the inputs
    const size_t n = 1 + c.choose(6), limit = 2 + c.choose(3), tmp = c.choose(3), out = c.choose(2);
    const bool scan = c.flag();
    const std::string ext = c.pick(V{"", ".md5"});
    c.shard();
    const std::string root = setup(c);
    std::map<std::string, uint32_t> sum;
    V given;
    for (size_t i = 0; i < n; ++i)
    {
      std::map<std::pair<uint64_t, uint64_t>, uint32_t> m;
      for (size_t k = 0; k <= i; ++k)
      {
        m[refHash("p" + std::to_string(k * (i + 1) % 4))] += 1;
        ++sum["p" + std::to_string(k * (i + 1) % 4)];
      }
      std::string t;
      for (auto &e : m) t += record(e.first, e.second);
      spit(root + "/src/" + std::to_string(i) + ".md5", t);
      given.push_back("src/" + std::to_string(i) + ".md5");
    }
    ::unlink((root + "/src/g.txt").c_str());
    const std::string target = out ? "src/merged.md5" : "out/merged.md5";
    V a{tool("merge"), "-O", target, "-n", std::to_string(limit), "-T", tmp == 0 ? "src" : tmp == 1 ? "." : "src/new/dir"};
    if (!ext.empty()) { a.push_back("-X"); a.push_back(ext); }
    if (scan) { a.push_back("-S"); a.push_back("src"); }
    else for (auto &g : given) { a.push_back("-I"); a.push_back(g); }
    auto before = snapshot(root);
    c.step();
    ToolRun r = runTool(a, c.dir(), "", root, 15);
    c.check(r.ok(), "status", "the merger fails: " + r.text());
    auto after = snapshot(root);
    std::map<std::pair<uint64_t, uint64_t>, uint32_t> m;
    for (auto &e : sum) m[refHash(e.first)] = e.second;
    std::string want;
    for (auto &e : m) want += record(e.first, e.second);
    c.check(after["/" + target] == want, "wrong", "the merged file is wrong: " + r.text());
    after.erase("/" + target);
    if (tmp == 2) { after.erase("/src/new/"); after.erase("/src/new/dir/"); }
    const std::string d = difference(before, after);
    c.check(d.empty(), "destroyed", d + ": " + r.text());
    c.state(mc::hashOf(joined(a)));
    c.outcome(want);
    if (c.wantNotes()) c.note(joined(a));
  });
}

int main(int argc, char **argv)
{
  mc::parseArgs(argc, argv);
  ::umask(022);
  if (mc::opt.prop == "C33") c33(mc::opt.thorough());
  else if (mc::opt.prop == "C34") c34(mc::opt.thorough());
  return mc::finish();
}
