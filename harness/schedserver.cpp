// C32: the web service in several threads. The event loop and the workers of
// the service run under the controlled scheduler; the clients are the main
// thread. Every access is checked for races.
#include <sys/stat.h>
#include "../common/mc.hpp"
#include "../common/util.hpp"
#include "../rt/mcrt.hpp"
#include "servescen.hpp"

using mcrt::Config;
using mcrt::Result;
using serve::Client;
using serve::Script;

static std::string db, ix;
static const std::vector<std::pair<std::string, uint32_t>> Entries{{"one", 1}, {"two", 22}, {"three", 4294967295u}, {"four", 7}};

static Client lookup(const std::string &word, bool must = true)
{
  Client c;
  c.hash = refHex(refHash(word));
  for (auto &e : Entries) if (e.first == word) c.found = e.second;
  c.request = "GET /api/lookup?hash=" + c.hash + " HTTP/1.1\r\nHost: h\r\n\r\n";
  c.must = must;
  return c;
}
static Client other(const std::string &request, int status, bool must = true)
{
  Client c;
  c.request = request;
  c.status = status;
  c.must = must;
  return c;
}

static void check(const Script &s, const serve::Outcome &o)
{
  for (size_t i = 0; i < s.clients.size(); ++i)
  {
    const Client &cl = s.clients[i];
    const std::string &g = o.got[i];
    auto bad = [&](const std::string &sig, const std::string &m) {
      throw mc::Fail{sig, "client " + std::to_string(i) + ": " + m + ": '" + mc::jstr(g) + "'; steps '" + s.steps + "', " + std::to_string(s.workers) + " workers, " + std::to_string(s.threads) + " threads"};
    };
    if (g.empty())
    {
      if (cl.must) bad("no-response", "no response");
      continue;
    }
    const size_t end = g.find("\r\n\r\n");
    const size_t cl0 = g.find("Content-Length: ");
    if (g.compare(0, 9, "HTTP/1.1 ") || end == std::string::npos || cl0 == std::string::npos || cl0 > end) bad("malformed", "no complete response");
    if (std::stoul(g.substr(cl0 + 16)) != g.size() - end - 4) bad("malformed", "the content has not the length announced");
    if (std::stoi(g.substr(9)) != cl.status) bad("status", "not the status " + std::to_string(cl.status));
    if (!cl.hash.empty() && (g.find("\"hash\":\"" + cl.hash + "\"") == std::string::npos || g.find("\"found\":" + std::to_string(cl.found) + ",") == std::string::npos)) bad("wrong-answer", "not the answer for " + cl.hash + " (" + std::to_string(cl.found) + ")");
    if (cl.hash.empty() && cl.status == 200 && g.find("\"count\":" + std::to_string(Entries.size()) + ",") == std::string::npos) bad("wrong-info", "not the number of records");
  }
}

// each line of the log is one request
static void checkLog(const Script &s, const serve::Outcome &o)
{
  std::vector<std::string> lines = o.log;
  std::istringstream is(o.out);
  std::string l;
  bool begun = false;
  while (std::getline(is, l))
  {
    if (begun) lines.push_back(l);
    if (l.find("listening on") != std::string::npos) begun = true;
  }
  if (!o.out.empty() && o.out.back() != '\n') throw mc::Fail{"log", "the log ends within a line: " + o.out};
  for (size_t i = 0; i < s.clients.size(); ++i)
  {
    const std::string &r = s.clients[i].request;
    if (r.compare(0, 4, "GET ")) continue;
    const std::string want = " 127.0.0.1 " + r.substr(4, r.find(' ', 4) - 4);
    // the date, the address and the target
    auto k = std::find_if(lines.begin(), lines.end(), [&](const std::string &x) {
      if (x.size() < want.size() || x.compare(x.size() - want.size(), want.size(), want)) return false;
      const std::string date = x.substr(0, x.size() - want.size());
      tm t;
      const char *e = strptime(date.c_str(), "%c", &t);
      return e && !*e;
    });
    if (k != lines.end()) lines.erase(k);
    else if (!o.got[i].empty() && s.clients[i].must) throw mc::Fail{"log", "no line of the log for the request of client " + std::to_string(i) + "; log: " + mc::jstr(o.out)};
  }
  for (auto &x : lines)
  {
    bool may = false; // the client was gone
    for (auto &cl : s.clients) may = may || (!cl.must && x.size() > 40 && cl.request.find(x.substr(x.rfind(' ') + 1)) != std::string::npos);
    if (!may) throw mc::Fail{"log", "a line of the log belongs to no request: '" + x + "'"};
  }
}

static serve::Outcome outcome;
static void runScript(mc::Ctx &c, Script s, const Config &cfg)
{
  s.unit = (int)getpid();
  mcrt::execute(c, cfg, [&] { serve::run(s, db, ix, outcome); }, [&](mc::Ctx &c, const Result &) {
    check(s, outcome);
    if (s.logs) checkLog(s, outcome);
    if (c.wantNotes()) c.notes.push_back(s.steps + " workers=" + std::to_string(s.workers) + " threads=" + std::to_string(s.threads));
  });
}

int main(int argc, char **argv)
{
  mc::parseArgs(argc, argv);
  db = mc::opt.scratch + "/db";
  std::map<std::pair<uint64_t, uint64_t>, uint32_t> m;
  for (auto &e : Entries) m[refHash(e.first)] = e.second;
  std::string content;
  for (auto &e : m) content += record(e.first, e.second);
  spit(db, content);
  const bool quick = mc::opt.tier != "thorough";
  const std::string info = "GET /api/info HTTP/1.1\r\nHost: h\r\n\r\n", bad = "GET /api/lookup?hash=zz HTTP/1.1\r\n\r\n", post = "POST /api/lookup HTTP/1.1\r\nContent-Length: 0\r\n\r\n";
  struct Group { std::string name; int quickPre, fullPre; std::vector<Script> scripts; };
  std::vector<Group> groups;
  auto script = [](int workers, int threads, std::vector<Client> cl, const std::string &steps, bool logs = false, bool program = false) {
    Script s;
    s.workers = workers;
    s.threads = threads;
    s.clients = cl;
    s.steps = steps;
    s.logs = logs;
    s.program = program;
    return s;
  };
  const Client slow = lookup("one", false), two = lookup("two"), three = lookup("three"), none = lookup("nothing"), about = other(info, 200);
  groups.push_back({"one worker", 2, 3, {
    script(1, 2, {lookup("one")}, "c0s0"),
    script(1, 2, {lookup("one"), none}, "c0c1s1s0"),
    script(1, 2, {slow, two}, "c0h0t+r0c1s1"),
    script(1, 2, {slow, two}, "c0c1s1h0t+r0"),
    script(1, 2, {slow, two}, "c0t+x0c1s1"),
  }});
  groups.push_back({"two clients", 1, 2, {
    script(2, 2, {lookup("one"), two}, "c0c1s0s1", true),
    script(2, 2, {three, about}, "c0s0c1s1", true),
    script(2, 2, {other(bad, 400), other(post, 400)}, "c0c1s0s1"),
    script(2, 2, {two, slow}, "c0c1s0s1z1", true),
    script(2, 2, {slow, slow}, "c0c1h0t-1r0s1"),
  }});
  groups.push_back({"end of the time", 1, 2, {
    // the second worker is busy with a client that sends nothing
    script(2, 2, {slow, two, slow}, "c0h0t-c2t1r0c1s1"),
    script(2, 2, {slow, two, slow}, "c0t-c2t1x0c1s1"),
    script(2, 2, {slow, two, slow}, "c0t-c2t1c1s1"),
    // the time of an idle worker ends when a client comes
    script(2, 2, {lookup("one"), two}, "c0s0t+c1s1"),
    script(2, 2, {slow, slow, three}, "c0c1t+s0h1c2s2"),
  }});
  groups.push_back({"more threads", 1, 2, {
    script(2, 3, {lookup("one"), two}, "c0c1s0s1"),
    script(3, 3, {lookup("one"), two, about}, "c0c1c2s0s1s2"),
    script(3, 2, {slow, lookup("two", false), slow, three}, "c0c1c2h0h2t+r2s1c3s3z0"),
  }});
  groups.push_back({"program", 1, 2, {
    script(2, 1, {lookup("one"), two}, "c0c1s0s1", true, true),
    script(2, 2, {three, about}, "c0c1s0s1", true, true),
    script(2, 1, {slow, two, slow}, "c0h0t-c2t1r0c1s1", true, true),
  }});
  for (auto &g : groups)
  {
    mc::explore(g.name, [&](mc::Ctx &c) {
      const Script &s = g.scripts[c.choose(g.scripts.size())];
      Config cfg;
      cfg.preemptions = mc::opt.args.count("pre") ? std::stoi(mc::opt.args["pre"]) : quick ? g.quickPre : g.fullPre;
      cfg.freeChoices = quick ? 2 : 3;
      cfg.clock = true;
      cfg.races = !mc::opt.args.count("outcomes");
      runScript(c, s, cfg);
    });
  }
  return mc::finish();
}
