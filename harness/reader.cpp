// C06: extraction of passwords and hashes from texts against the reference model.
#include "../common/mc.hpp"
#include "../common/refreader.hpp"
#include <pwned-lib/userpasswordreader.hpp>

using mc::Ctx;
using namespace pwned;

static std::vector<UserPasswordReaderOptions> options(ref::Decode m, ref::Decode h)
{
  std::vector<UserPasswordReaderOptions> o;
  if (h == ref::Auto) o.push_back(UserPasswordReaderOptions::autoEvaluateHexEncodedPasswords);
  if (m == ref::Always) o.push_back(UserPasswordReaderOptions::forceEvaluateMD5Hashes);
  if (m == ref::Auto) o.push_back(UserPasswordReaderOptions::autoEvaluateMD5Hashes);
  if (h == ref::Always) o.push_back(UserPasswordReaderOptions::forceEvaluateHexEncodedPasswords);
  return o;
}

// mode 0: nextPassword, 1: nextPasswordHash, 2 and 3: alternating
static void judge(Ctx &c, const std::string &text, ref::Decode m, ref::Decode h, int mode)
{
  std::istringstream is(text);
  UserPasswordReader r(is, options(m, h));
  std::vector<std::string> got;
  size_t calls = 0;
  while (!r.eof() && !r.bad())
  {
    if (mode == 0 || (mode >= 2 && calls % 2 == size_t(mode - 2)))
    {
      const std::string p = r.nextPassword();
      got.push_back(p.empty() ? "-" : "p" + p);
    }
    else
    {
      const Hash x = r.nextPasswordHash();
      got.push_back(x.isValid ? "h" + x.toString() : "-");
    }
    ++calls;
    c.step();
    if (calls > text.size() + 2) c.fail("endless", "more calls than lines for " + mc::jstr(text.substr(0, 300)));
  }
  if (r.bad()) c.fail("bad", "reader reports an error for " + mc::jstr(text.substr(0, 300)));
  // behind the end there is nothing
  if (!r.nextPassword().empty() || r.nextPasswordHash().isValid) c.fail("behind-end", "a password is delivered behind the end");
  const auto ls = ref::lines(text);
  std::string first;
  for (char sep : ref::separators(ls))
  {
    ref::Reader rr(ls, sep, m, h);
    std::vector<std::string> want;
    for (size_t i = 0; i < ls.size(); ++i)
    {
      const std::string p = rr.password(ls[i]);
      if (p.empty()) want.push_back("-");
      else if (mode == 0 || (mode >= 2 && i % 2 == size_t(mode - 2))) want.push_back("p" + p);
      else want.push_back("h" + refHex(rr.hash(p)));
    }
    // an additional call at the end may find nothing
    std::vector<std::string> g = got;
    while (g.size() > want.size() && g.back() == "-") g.pop_back();
    while (want.size() > g.size() && want.back() == "-") want.pop_back();
    if (g == want)
    {
      std::string all;
      for (auto &s : g) all += s + "|";
      c.outcome(all);
      c.state(mc::hashOf(text + char(m) + char(h) + char(mode)));
      if (c.wantNotes()) c.note("text " + mc::jstr(text.substr(0, 120)) + " md5=" + std::to_string(m) + " hex=" + std::to_string(h) + " -> " + mc::jstr(all.substr(0, 200)));
      return;
    }
    if (first.empty())
      for (size_t i = 0; i < std::max(g.size(), want.size()); ++i)
      {
        std::string a = i < g.size() ? g[i] : "(nothing)", b = i < want.size() ? want[i] : "(nothing)";
        if (a != b) { first = "line " + std::to_string(i + 1) + ": " + mc::jstr(a.substr(0, 250)) + " instead of " + mc::jstr(b.substr(0, 250)); break; }
      }
  }
  c.fail("password", "text " + mc::jstr(text.size() > 500 ? text.substr(0, 200) + " ... " + text.substr(text.size() - 200) : text) + " md5=" + std::to_string(m) + " hex=" + std::to_string(h) + ": " + first);
}

int main(int argc, char **argv)
{
  mc::parseArgs(argc, argv);
  const bool th = mc::opt.thorough();
  const std::string D32 = "0123456789abcdefABCDEF0123456789";
  const std::vector<std::string> pieces = {
      "", "p", "u:p", "u;p", "u p", "u\tp", "u:", ":p", "a:b;c", "a;b:c d", "u:" + D32, D32, "u:$HEX[6162]", "$HEX[70]", "u:$HEX[616]", "u:$HEX[6g]",
      "u:$HEX[]", "u:x$HEX[61]", "u:$HEX[61]x", "u:" + D32.substr(1), "u:" + D32 + "0", "u:g" + D32.substr(1), "u:p\rq", "u:\xe4\xf6\xff", "u:$hex[61]", std::string("u:a\0b", 5), "u;$HEX[3a]:" + D32};
  const std::vector<std::string> few = {"", "p", "u:p", "u;p", "u p;q", "u:" + D32, "u:$HEX[6162]", "u:$HEX[616]", D32};
  auto dec = [](Ctx &c) { return ref::Decode(c.choose(3)); };
  mc::explore("lines", [&](Ctx &c) {
    const size_t n = c.choose(3);
    std::string t;
    const bool crlf = c.flag(), last = c.flag();
    for (size_t i = 0; i < n; ++i)
    {
      t += c.pick(pieces);
      if (i + 1 < n || last) t += crlf ? "\r\n" : "\n";
    }
    c.shard();
    const ref::Decode m = dec(c), h = dec(c);
    judge(c, t, m, h, (int)c.choose(2));
  });
  mc::explore("more-lines", [&](Ctx &c) {
    const size_t n = 3 + c.choose(th ? 3 : 1);
    std::string t;
    for (size_t i = 0; i < n; ++i)
    {
      t += c.pick(few);
      if (i == 1) c.shard();
      if (i + 1 < n || n % 2) t += "\n";
    }
    const ref::Decode m = dec(c), h = dec(c);
    judge(c, t, m, h, (int)(c.choose(2) + 2));
  });
  mc::explore("characters", [&](Ctx &c) {
    static const std::string al = "a:;\n\r \t0";
    const size_t n = c.choose(th ? 8 : 6);
    std::string t;
    for (size_t i = 0; i < n; ++i)
    {
      t += al[c.choose(al.size())];
      if (i == 1) c.shard();
    }
    judge(c, t, ref::Never, ref::Never, 0);
  });
  mc::explore("lengths", [&](Ctx &c) {
    // a line of 196..204 characters between two short ones, carriage returns not counting
    const size_t len = 196 + c.choose(9), crs = c.choose(4);
    const int kind = (int)c.choose(5);
    const bool final = c.flag(), context = c.flag();
    c.shard();
    std::string l = kind == 0 ? std::string(len, 'x') : kind == 1 ? "u:" + std::string(len - 2, 'x') : kind == 2 ? std::string(len - 32, 'u') : kind == 3 ? "u:" + std::string(len - 2 - 8, 'x') + "$HEX[61]" : "u:$HEX[" + std::string(len / 2 * 2 - 8, '6') + "]";
    if (kind == 2) { l[l.size() - 1] = ':'; l += D32; }
    if (crs & 1) l += "\r";
    if (crs & 2) l.insert(3, "\r\r");
    const std::string t = (context ? "u:$HEX[6f]\nu:1\n" : "") + l + (final ? "\n" : "");
    const ref::Decode m = dec(c), h = dec(c);
    judge(c, t, m, h, (int)c.choose(2));
  });
  mc::explore("long-lines", [&](Ctx &c) {
    // lines of lengths around those of narrower types; they do not count, but the lines behind them do
    const size_t len = c.pick(std::vector<size_t>{255, 256, 257, 300, 456, 1023, 1024, 4096, 8191, 8192, 32768, 65535, 65536, 65537, 65546, 65636, 131082, 1000000});
    const int kind = (int)c.choose(4);
    const bool final = c.flag(), context = c.flag();
    c.shard();
    std::string l(len, 'x');
    if (kind == 1) l[1] = ':';
    if (kind == 2) l[len - 3] = ':';
    if (kind == 3) l = std::string(len - 4, '\r') + "u:pw";
    const std::string t = (context ? "u:$HEX[6f]\nu:1\n" : "") + l + (final ? "\nu:2\nv:3\n" : "");
    const ref::Decode m = dec(c), h = dec(c);
    judge(c, t, m, h, (int)c.choose(2));
  });
  mc::explore("first-500-lines", [&](Ctx &c) {
    // n lines of one kind, then some of another: which of them decide?
    static const std::vector<std::string> kinds = {"p", "u:p", "u;p", "x y", "a\tb", ""};
    const size_t n = 247 + c.choose(6) * 1 + (c.flag() ? 250 : 0); // 247..252 and 497..502
    const std::string a = c.pick(kinds), b = c.pick(th ? std::vector<std::string>{"u:p", "u;q", "u:$HEX[61]", "u:" + D32, "$HEX[62]"} : std::vector<std::string>{"u;q", "u:$HEX[61]", "u:" + D32});
    const size_t k = c.pick(std::vector<size_t>{1, 2, 249, 250, 251, 252, 505});
    const bool twice = c.flag();
    c.shard();
    std::string t;
    for (size_t i = 0; i < n; ++i) t += a + "\n";
    for (size_t i = 0; i < k; ++i) t += b + "\n";
    if (twice) t += "u:$HEX[6162]\nu:" + D32 + "\nx;y";
    judge(c, t, ref::Auto, ref::Auto, 1);
  });
  mc::explore("extract", [&](Ctx &c) {
    static const std::vector<std::string> texts = {"", "u:p\n", "u;p", "a b\n", "a\tb\n"};
    const std::string t = c.pick(texts), l = c.pick(pieces);
    c.shard();
    std::istringstream is(t);
    UserPasswordReader r(is, {});
    std::string line;
    for (char ch : l) if (ch != '\r') line += ch;
    const std::string want = ref::Reader({}, ref::separators(ref::lines(t))[0], ref::Never, ref::Never).extract(line), got = r.extractPassword(l);
    c.step();
    c.state(mc::hashOf(t + "|" + l));
    if (got != want) c.fail("extract", "password of line " + mc::jstr(l) + " is " + mc::jstr(got) + " instead of " + mc::jstr(want));
  });
  return mc::finish();
}
