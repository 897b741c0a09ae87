// C19: URI parsing against an independent recursive-descent reading of the grammar.
#include <memory>
#include "../common/util.hpp"
#include <pwned-server/uri.hpp>

using mc::Ctx;

struct Ref
{
  enum Verdict { Valid, Invalid, Unspecified } v = Invalid;
  std::string scheme, user, pass, host, path, fragment;
  unsigned port = 0;
  std::multimap<std::string, std::string> query;
};

static bool alnum(unsigned char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9'); }
static bool hexd(unsigned char c) { return (c >= '0' && c <= '9') || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }

// every character is unreserved, a sub-delimiter, one of `more`, or percent-encoded
static bool chars(const std::string &s, const char *more)
{
  for (size_t i = 0; i < s.size(); ++i)
  {
    if (s[i] == '%')
    {
      if (i + 2 >= s.size() || !hexd(s[i + 1]) || !hexd(s[i + 2])) return false;
      i += 2;
      continue;
    }
    if (s[i] == '\0') return false;
    if (!alnum(s[i]) && !strchr("-._~!$&'()*+,;=", s[i]) && !strchr(more, s[i])) return false;
  }
  return true;
}

static Ref reference(const std::string &t)
{
  Ref r;
  const size_t colon = t.find(':');
  if (colon == std::string::npos || colon == 0) return r;
  r.scheme = t.substr(0, colon);
  for (unsigned char c : r.scheme)
    if (c == 0 || (!alnum(c) && !strchr("+.-", c))) return r;
  bool unspecified = !isalpha((unsigned char)r.scheme[0]) || t.find('[') != std::string::npos || t.find(']') != std::string::npos;
  std::string rest = t.substr(colon + 1);
  bool ok = true;
  const size_t hash = rest.find('#');
  if (hash != std::string::npos)
  {
    r.fragment = rest.substr(hash + 1);
    rest.resize(hash);
    ok = chars(r.fragment, ":@/?") && ok;
  }
  const size_t q = rest.find('?');
  if (q != std::string::npos)
  {
    const std::string query = rest.substr(q + 1);
    rest.resize(q);
    ok = chars(query, ":@/?") && ok;
    if (!query.empty())
    {
      size_t p = 0;
      for (;;)
      {
        const size_t e = query.find('&', p);
        const std::string kv = query.substr(p, e == std::string::npos ? e : e - p);
        const size_t eq = kv.find('=');
        if (eq == std::string::npos || kv.find('=', eq + 1) != std::string::npos) ok = false;
        else r.query.emplace(kv.substr(0, eq), kv.substr(eq + 1));
        if (e == std::string::npos) break;
        p = e + 1;
      }
    }
  }
  if (rest.rfind("//", 0) == 0)
  {
    const size_t slash = rest.find('/', 2);
    std::string auth = rest.substr(2, slash == std::string::npos ? slash : slash - 2);
    if (slash != std::string::npos) r.path = rest.substr(slash);
    ok = chars(r.path, ":@/") && ok;
    const size_t at = auth.find('@');
    if (at != std::string::npos)
    {
      const std::string cred = auth.substr(0, at);
      auth = auth.substr(at + 1);
      ok = chars(cred, ":") && ok;
      const size_t c = cred.find(':');
      if (c == std::string::npos || cred.find(':', c + 1) != std::string::npos) ok = false;
      else { r.user = cred.substr(0, c); r.pass = cred.substr(c + 1); }
    }
    const size_t pc = auth.find(':');
    r.host = auth.substr(0, pc);
    ok = chars(r.host, "") && ok;
    std::string port = pc == std::string::npos ? "" : auth.substr(pc + 1);
    for (char c : port)
      if (c < '0' || c > '9') ok = false;
    while (port.size() > 1 && port[0] == '0') port.erase(0, 1);
    if (ok && !port.empty())
    {
      if (port.size() > 5 || std::stoul(port) > 65535) ok = false;
      else r.port = (unsigned)std::stoul(port);
    }
    else if (ok)
    {
      std::string l = r.scheme;
      for (char &c : l) c = (char)tolower(c);
      r.port = l == "http" ? 80 : l == "https" ? 443 : 0;
    }
  }
  else
  {
    r.path = rest;
    ok = chars(rest, ":@/") && ok;
    if (rest == "/") unspecified = true;
    std::string l = r.scheme;
    for (char &c : l) c = (char)tolower(c);
    r.port = l == "http" ? 80 : l == "https" ? 443 : 0;
  }
  r.v = !ok ? Ref::Invalid : Ref::Valid;
  if (unspecified) r.v = Ref::Unspecified;
  return r;
}

static std::string shown(URI &u)
{
  std::string q;
  for (auto &p : u.query()) q += p.first + "=" + p.second + "&";
  return "scheme=" + u.scheme() + " user=" + u.username() + " password=" + u.password() + " host=" + u.host() + " port=" + std::to_string(u.port()) +
         " path=" + u.path() + " query=" + q + " fragment=" + u.fragment() + (u.isValid() ? " valid" : " invalid");
}

static bool queryOk(const std::map<std::string, std::string> &got, const std::multimap<std::string, std::string> &want)
{
  for (auto &p : got)
  {
    bool found = false;
    for (auto &w : want) found = found || (w.first == p.first && w.second == p.second);
    if (!found) return false;
  }
  for (auto &w : want)
    if (!got.count(w.first)) return false;
  return true;
}

static void judge(Ctx &c, URI &u, const std::string &t, const std::string &how = "")
{
  c.step();
  const Ref r = reference(t);
  if (r.v == Ref::Unspecified) { c.count("unspecified"); return; }
  const std::string where = how + mc::jstr(t) + ": " + shown(u);
  if (u.isValid() != (r.v == Ref::Valid)) c.fail("validity", where + (r.v == Ref::Valid ? " although it is a URI" : " although it is no usable URI"));
  if (r.v == Ref::Valid)
  {
    c.count("valid");
    if (u.scheme() != r.scheme) c.fail("scheme", where);
    if (u.username() != r.user || u.password() != r.pass) c.fail("credentials", where);
    if (u.host() != r.host) c.fail("host", where);
    if (u.port() != r.port) c.fail("port", where);
    if (u.path() != r.path) c.fail("path", where);
    if (u.fragment() != r.fragment) c.fail("fragment", where);
    if (!queryOk(u.query(), r.query)) c.fail("query", where);
  }
  if (c.wantNotes()) c.note(where);
  c.state(mc::hashOf(how + t));
  if (r.v == Ref::Valid) c.outcome(shown(u));
}

static void parseAndJudge(Ctx &c, const std::string &t)
{
  URI u;
  u.parse(t);
  judge(c, u, t);
}

using V = std::vector<std::string>;

static const V Alphabet{"a", "Z", "7", ":", "/", "?", "#", "@", "%", "=", "&", ".", " "};

static void target(Ctx &c, URI &u, const V &before, const std::string &t)
{
  // path [?params] [#fragment], at most one '?' before '#'
  const size_t h = t.find('#');
  const std::string head = t.substr(0, h), frag = h == std::string::npos ? "" : t.substr(h + 1);
  const size_t q = head.find('?');
  const std::string path = head.substr(0, q), query = q == std::string::npos ? "" : head.substr(q + 1);
  if (query.find('?') != std::string::npos || frag.find('#') != std::string::npos || frag.find('?') != std::string::npos) { c.count("unspecified"); return; }
  std::multimap<std::string, std::string> want;
  std::istringstream is(query);
  std::string kv;
  while (std::getline(is, kv, '&'))
  {
    const size_t eq = kv.find('=');
    if (eq != std::string::npos && kv.find('=', eq + 1) == std::string::npos) want.emplace(kv.substr(0, eq), kv.substr(eq + 1));
  }
  c.step();
  std::string where = "target " + mc::jstr(t) + ": " + shown(u);
  for (auto &b : before) where += " after " + mc::jstr(b);
  if (u.path() != path) c.fail("target-path", where);
  if (u.fragment() != frag) c.fail("target-fragment", where);
  if (!queryOk(u.query(), want)) c.fail("target-query", where);
  if (c.wantNotes()) c.note(where);
  c.state(mc::hashOf(where));
  c.outcome(shown(u));
}

int main(int argc, char **argv)
{
  mc::parseArgs(argc, argv);
  const bool T = mc::opt.thorough();

  // every combination of components
  mc::explore("components", [&](Ctx &c) {
    static const V schemes{"http", "https", "HTTP", "ftp", "a+b-c.9"};
    static const V creds{"", "u:p@", "us%20er:p;w@", ":@", "u@", "a:b:c@", "U:@"};
    static const V hosts{"", "h", "127.0.0.1", "Www.Example.COM", "a-b_c~d", "x%41y"};
    static const V ports{"", ":", ":0", ":1", ":80", ":31337", ":65535", ":65536", ":00080", ":99999999999999999999", ":8x"};
    static const V paths{"", "/", "/a", "/v1/pwned/api", "//x", "/A/b%2F/c@d:e"};
    static const V queries{"", "?", "?a=b", "?a=b&c=d", "?hash=", "?=x", "?a", "?a=b=c", "?a=b&", "?k=v/w?x"};
    static const V fragments{"", "#", "#f", "#F/g?h@i:j", "#a#b"};
    std::string t = c.pick(schemes) + "://" + c.pick(creds);
    t += c.pick(hosts) + c.pick(ports) + c.pick(paths);
    c.shard();
    for (auto &q : queries)
      for (auto &f : fragments) parseAndJudge(c, t + q + f);
  });
  mc::explore("no-authority", [&](Ctx &c) {
    static const V schemes{"mailto", "file", "urn", "http", "X-y"};
    static const V paths{"", "a", "/a", "a@b.c", "isbn:123:4", "/etc/Passwd", "a/b//c", "a//", "%41%7e"};
    static const V queries{"", "?", "?a=b", "?a=b&c=d", "?a"};
    static const V fragments{"", "#", "#f"};
    std::string t = c.pick(schemes) + ":" + c.pick(paths) + c.pick(queries);
    c.shard();
    parseAndJudge(c, t + c.pick(fragments));
  });
  // all short texts behind selected beginnings
  const unsigned N = T ? 6 : 5;
  for (unsigned len = 0; len <= N; ++len)
    mc::explore("texts-" + std::to_string(len), [&, len](Ctx &c) {
      static const V prefixes{"", "h:", "http://", "http://h", "http://u:p@h:", "http://h/", "http://h?", "http://h#", "h:a", "%"};
      std::string t = c.pick(prefixes);
      for (unsigned i = 0; i < std::min(len, 2u); ++i) t += c.pick(Alphabet);
      c.shard();
      for (unsigned i = std::min(len, 2u); i < len; ++i) t += c.pick(Alphabet);
      parseAndJudge(c, t);
    });
  // every byte at every position
  mc::explore("bytes", [&](Ctx &c) {
    static const V bases{"http://us:pw@host.a:8080/pa/th?key=val&k=v#frag", "mailto:a@b?c=d#e"};
    std::string t = c.pick(bases);
    const size_t i = c.choose(t.size() + 1);
    c.shard();
    const bool insert = c.flag();
    for (int b = 0; b < 256; ++b)
    {
      if (b == '\n' || b == '\r') continue; // what '.' and '$' mean around line ends is not specified
      std::string s = t;
      if (insert) s.insert(i, 1, (char)b);
      else if (i < t.size()) s[i] = (char)b;
      parseAndJudge(c, s);
    }
  });
  mc::explore("ports", [&](Ctx &c) {
    const size_t block = c.choose(70);
    c.shard();
    for (size_t p = block * 1000; p < block * 1000 + 1000; ++p) parseAndJudge(c, "http://h:" + std::to_string(p) + "/x");
  });
  mc::explore("long", [&](Ctx &c) {
    const size_t kind = c.choose(6), len = c.pick(std::vector<size_t>{100, 255, 256, 257, 512, 1000});
    c.shard();
    const std::string x(len, 'x');
    parseAndJudge(c, kind == 0 ? x + "://h/" : kind == 1 ? "http://" + x + ":" + x + "@h/" : kind == 2 ? "http://" + x + "/" : kind == 3 ? "http://h/" + x : kind == 4 ? "http://h/?" + x + "=" + x : "http://h/#" + x);
  });
  // all histories of one object
  static const V texts{"http://u:p@h:81/p?a=b#f", "http://g", "https://x/y?c=d", "mailto:m", "nonsense", "http://h:70000/", "", "ftp://q#z", "http://v@w/"};
  static const V targets{"/t?e=f#g", "/", "", "/s#x", "/r?a=1&b=2"};
  mc::explore("histories", [&](Ctx &c) {
    const size_t n = c.choose(T ? 5 : 4) + 1;
    const bool ctor = c.flag();
    URI fresh;
    std::unique_ptr<URI> made;
    URI *u = &fresh;
    V before;
    for (size_t i = 0; i < n; ++i)
    {
      const size_t k = c.choose(texts.size() + targets.size());
      if (i == 0) c.shard();
      if (k < texts.size())
      {
        if (i == 0 && ctor) { made.reset(new URI(texts[k])); u = made.get(); }
        else u->parse(texts[k]);
        std::string how;
        for (auto &b : before) how += mc::jstr(b) + " then ";
        judge(c, *u, texts[k], how);
        before.push_back(texts[k]);
      }
      else
      {
        u->parseTarget(targets[k - texts.size()]);
        target(c, *u, before, targets[k - texts.size()]);
        before.push_back("target " + targets[k - texts.size()]);
      }
    }
  });
  for (unsigned len = 0; len <= (T ? 8u : 6u); ++len)
    mc::explore("targets-" + std::to_string(len), [&, len](Ctx &c) {
      static const V alpha{"/", "?", "#", "=", "&", "a", "b", "%"};
      std::string t;
      for (unsigned i = 0; i < std::min(len, 3u); ++i) t += c.pick(alpha);
      c.shard();
      for (unsigned i = 3; i < len; ++i) t += c.pick(alpha);
      URI u;
      u.parseTarget(t);
      target(c, u, {}, t);
    });
  mc::explore("target-parts", [&](Ctx &c) {
    static const V paths{"", "/", "/lookup", "/v1/pwned/api/lookup", "/a%20b/"};
    static const V params{"hash=5F4DCC3B5AA765D61D8327DEB882CF99", "a=", "=b", "x", "p=q=r", "", "k=v"};
    static const V frags{"", "#", "#f=g&h"};
    std::string t = c.pick(paths);
    const size_t n = c.choose(4);
    for (size_t i = 0; i < n; ++i) t += (i ? "&" : "?") + c.pick(params);
    c.shard();
    t += c.pick(frags);
    URI u;
    u.parseTarget(t);
    target(c, u, {}, t);
  });
  return mc::finish();
}
