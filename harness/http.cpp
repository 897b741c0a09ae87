// C18: the web service. The workers of the service run on an event loop whose
// handlers are executed one at a time by the explorer, interleaved in every
// way with the actions of clients on the loopback network. The monotonic clock
// is controlled.
#include <arpa/inet.h>
#include <netinet/tcp.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <utime.h>
#include <filesystem>
#include <iostream>
#include <list>
#include "../common/mc.hpp"
#include "../common/util.hpp"
#include <pwned-server/httpworker.hpp>

using mc::Ctx;
using V = std::vector<std::string>;
namespace net = boost::asio;
using tcp = net::ip::tcp;

// ---------------------------------------------------------------- clock
static long clockAhead = 0; // seconds
extern "C" int __real_clock_gettime(clockid_t, timespec *);
extern "C" int __wrap_clock_gettime(clockid_t id, timespec *t)
{
  const int r = __real_clock_gettime(id, t);
  if (r == 0 && id == CLOCK_MONOTONIC) t->tv_sec += clockAhead;
  return r;
}
// without it the event loop looks at the clock in every step
extern "C" int __wrap_timerfd_create(int, int) { errno = EINVAL; return -1; }
static double realNow()
{
  timespec t;
  __real_clock_gettime(CLOCK_MONOTONIC, &t);
  return double(t.tv_sec) + 1e-9 * double(t.tv_nsec);
}

// ---------------------------------------------------------------- faults of the service's own socket calls
static bool inService = false;
static size_t serviceCalls = 0, faultAt = SIZE_MAX;
static int faultKind = 0;      // 0: error, 1: one byte only
static size_t faultErrno = 0;  // which of the errors possible for the call
static std::string faultDone;
template<typename F> static auto faulty(const char *name, std::vector<int> errors, size_t &length, F real) -> decltype(real())
{
  if (inService && serviceCalls++ == faultAt)
  {
    if (faultKind == 1) { faultDone = std::string("short ") + name; length = std::min<size_t>(length, 1); }
    else
    {
      errno = errors[faultErrno % errors.size()];
      faultDone = std::string(name) + ": " + strerror(errno);
      return -1;
    }
  }
  return real();
}
extern "C"
{
  int __real_accept(int, sockaddr *, socklen_t *);
  ssize_t __real_recv(int, void *, size_t, int);
  ssize_t __real_send(int, const void *, size_t, int);
  ssize_t __real_recvmsg(int, msghdr *, int);
  ssize_t __real_sendmsg(int, const msghdr *, int);
  int __real_shutdown(int, int);
  int __wrap_accept(int fd, sockaddr *a, socklen_t *n)
  {
    size_t l = 0;
    const bool before = !faultDone.empty();
    const int r = faulty("accept", {ECONNABORTED, EMFILE, ENOBUFS, EPERM, EPROTO}, l, [&] { return __real_accept(fd, a, n); });
    if (!before && !faultDone.empty() && (errno == ECONNABORTED || errno == EPROTO))
    { // that connection is lost
      const int e = errno, lost = __real_accept(fd, nullptr, nullptr);
      if (lost >= 0) ::close(lost);
      errno = e;
    }
    return r;
  }
  ssize_t __wrap_recv(int fd, void *b, size_t n, int f) { return faulty("recv", {ECONNRESET, ETIMEDOUT, EINTR, ENOMEM}, n, [&] { return __real_recv(fd, b, n, f); }); }
  ssize_t __wrap_send(int fd, const void *b, size_t n, int f) { return faulty("send", {EPIPE, ECONNRESET, EINTR, ENOBUFS}, n, [&] { return __real_send(fd, b, n, f); }); }
  static ssize_t limited(const msghdr *m, size_t n, size_t total, const std::function<ssize_t(msghdr *)> &real)
  {
    msghdr h = *m;
    iovec v;
    if (n < total)
      for (size_t i = 0; i < m->msg_iovlen; ++i)
        if (m->msg_iov[i].iov_len) { v = {m->msg_iov[i].iov_base, n}; h.msg_iov = &v; h.msg_iovlen = 1; break; }
    return real(&h);
  }
  static size_t totalOf(const msghdr *m) { size_t n = 0; for (size_t i = 0; i < m->msg_iovlen; ++i) n += m->msg_iov[i].iov_len; return n; }
  ssize_t __wrap_recvmsg(int fd, msghdr *m, int f)
  {
    const size_t total = totalOf(m);
    size_t n = total;
    return faulty("recvmsg", {ECONNRESET, ETIMEDOUT, EINTR, ENOMEM}, n, [&] { return limited(m, n, total, [&](msghdr *h) { return __real_recvmsg(fd, h, f); }); });
  }
  ssize_t __wrap_sendmsg(int fd, const msghdr *m, int f)
  {
    const size_t total = totalOf(m);
    size_t n = total;
    return faulty("sendmsg", {EPIPE, ECONNRESET, EINTR, ENOBUFS}, n, [&] { return limited(m, n, total, [&](msghdr *h) { return __real_sendmsg(fd, h, f); }); });
  }
  ssize_t __real_read(int, void *, size_t);
  ssize_t __wrap_read(int fd, void *b, size_t n)
  {
    struct stat st;
    if (!inService || ::fstat(fd, &st) || !S_ISREG(st.st_mode)) return __real_read(fd, b, n);
    return faulty("read", {EIO, EISDIR, ENOMEM, EBADF, ESTALE}, n, [&] { return __real_read(fd, b, n); });
  }
  int __wrap_shutdown(int fd, int how)
  {
    size_t l = 0;
    return faulty("shutdown", {ENOTCONN}, l, [&] { return __real_shutdown(fd, how); });
  }
}

// ---------------------------------------------------------------- reference
struct Db
{
  std::vector<std::pair<std::string, uint32_t>> entries; // password, count
  size_t tail = 0;
  std::string content() const
  {
    std::map<std::pair<uint64_t, uint64_t>, uint32_t> m;
    for (auto &e : entries) m[refHash(e.first)] = e.second;
    std::string s;
    for (auto &e : m) s += record(e.first, e.second);
    return s + std::string(tail, '\1');
  }
  uint32_t count(const std::string &hex) const
  {
    for (auto &e : entries) if (refHex(refHash(e.first)) == hex) return e.second;
    return 0;
  }
};
static const Db TheDb{{{"one", 1}, {"two", 22}, {"three", 4294967295u}, {"four", 7}}, 7};
static const time_t Modified = 1500000000;

static std::string lower(std::string s) { for (auto &ch : s) ch = (char)tolower((unsigned char)ch); return s; }
static std::string upper(std::string s) { for (auto &ch : s) ch = (char)toupper((unsigned char)ch); return s; }

struct Expect
{
  int status = 0;          // 0: the connection just ends
  std::string hash;        // of a lookup
  bool info = false;
  bool either = false;     // a response or just the end
};
struct Request { std::string text; Expect want; };

static Expect wantFor(const std::string &base, const std::string &method, const std::string &target)
{
  Expect e;
  if (method != "GET") { e.status = 400; return e; }
  const std::string noFragment = target.substr(0, target.find('#'));
  const size_t q = noFragment.find('?');
  const std::string path = noFragment.substr(0, q);
  std::map<std::string, std::string> query;
  if (q != std::string::npos)
  {
    std::istringstream is(noFragment.substr(q + 1));
    std::string kv;
    while (std::getline(is, kv, '&'))
      if (std::count(kv.begin(), kv.end(), '=') == 1) query[kv.substr(0, kv.find('='))] = kv.substr(kv.find('=') + 1);
  }
  if (path == base + "/lookup" && query.count("hash"))
  {
    const std::string h = query["hash"];
    e.status = h.size() == 32 && h.find_first_not_of("0123456789abcdefABCDEF") == std::string::npos ? 200 : 400;
    e.hash = lower(h);
  }
  else if (path == base + "/info") { e.status = 200; e.info = true; }
  else e.status = 404;
  return e;
}
static Request get(const std::string &base, const std::string &target) { return {"GET " + target + " HTTP/1.1\r\nHost: h\r\n\r\n", target.empty() ? Expect() : wantFor(base, "GET", target)}; }

// flat JSON object -> values as they are written
static bool parseJson(const std::string &s, std::map<std::string, std::string> &m)
{
  size_t i = 0;
  auto ws = [&] { while (i < s.size() && isspace((unsigned char)s[i])) ++i; };
  auto str = [&](std::string &o) {
    if (i >= s.size() || s[i] != '"') return false;
    for (++i; i < s.size() && s[i] != '"'; ++i)
    {
      if (s[i] == '\\' || (unsigned char)s[i] < 32) return false;
      o += s[i];
    }
    return i++ < s.size();
  };
  ws();
  if (i >= s.size() || s[i++] != '{') return false;
  for (;;)
  {
    ws();
    std::string k, v;
    if (!str(k)) return false;
    ws();
    if (i >= s.size() || s[i++] != ':') return false;
    ws();
    if (i < s.size() && s[i] == '"')
    {
      if (!str(v)) return false;
      v = '"' + v + '"';
    }
    else
    {
      while (i < s.size() && (isalnum((unsigned char)s[i]) || strchr("+-.", s[i]))) v += s[i++];
      char *end = nullptr;
      strtod(v.c_str(), &end);
      if (v.empty() || *end) return false;
    }
    if (m.count(k)) return false;
    m[k] = v;
    ws();
    if (i < s.size() && s[i] == ',') { ++i; continue; }
    break;
  }
  if (i >= s.size() || s[i++] != '}') return false;
  ws();
  return i == s.size();
}

static std::string shown(const std::string &s)
{
  std::string r;
  for (unsigned char ch : s.substr(0, 300))
    if (ch == '\r') r += "\\r";
    else if (ch == '\n') r += "\\n";
    else if (ch < 32 || ch > 126) { char b[8]; snprintf(b, sizeof b, "\\x%02x", ch); r += b; }
    else r += (char)ch;
  return s.size() > 300 ? r + "..." : r;
}

// what a client has got must be exactly the response, or nothing
static void checkResponse(Ctx &c, const std::string &got, const Expect &want, const std::string &how)
{
  auto bad = [&](const std::string &sig, const std::string &m) { c.fail(sig, m + ": '" + shown(got) + "'; " + how); };
  if (got.empty())
  {
    if (want.status && !want.either) bad("no-response", "no response");
    return;
  }
  if (!want.status && !want.either) bad("unexpected-response", "a response to an incomplete or malformed request");
  const size_t end = got.find("\r\n\r\n");
  if (end == std::string::npos) bad("malformed-response", "incomplete header");
  std::istringstream is(got.substr(0, end + 2));
  std::string line, version;
  std::getline(is, line);
  int status = 0;
  if (sscanf(line.c_str(), "HTTP/1.%*[01] %d ", &status) != 1) bad("malformed-response", "no status line");
  std::map<std::string, std::string> headers;
  while (std::getline(is, line))
  {
    if (!line.empty() && line.back() == '\r') line.pop_back();
    const size_t colon = line.find(':');
    if (colon == std::string::npos) bad("malformed-response", "no header field '" + line + "'");
    std::string v = line.substr(colon + 1);
    while (!v.empty() && v[0] == ' ') v.erase(0, 1);
    if (!headers.emplace(lower(line.substr(0, colon)), v).second) bad("malformed-response", "a header field twice");
  }
  const std::string body = got.substr(end + 4);
  if (!headers.count("content-length") || headers["content-length"] != std::to_string(body.size())) bad("malformed-response", "the content has not the length announced, or more follows");
  if (!want.status) return;
  if (status != want.status) bad("status", "status " + std::to_string(status) + " instead of " + std::to_string(want.status));
  if (status != 200) return;
  std::map<std::string, std::string> j;
  if (!parseJson(body, j)) bad("json", "the content is not a JSON object");
  if (want.info)
  {
    if (j["count"] != std::to_string(TheDb.entries.size())) bad("info-count", "wrong number of records");
    if (j["last-update"] != std::to_string(Modified)) bad("info-time", "wrong modification time");
  }
  else
  {
    if (j["hash"] != '"' + want.hash + '"') bad("hash", "answer for another hash than " + want.hash);
    if (j["found"] != std::to_string(TheDb.count(want.hash))) bad("found", "wrong count for " + want.hash);
    if (!j.count("lookup-time-ms")) bad("lookup-time", "no lookup time");
  }
}

// ---------------------------------------------------------------- the service
static int listener = -1;
static sockaddr_in address;
static std::string dbDir;

static void openListener(const std::string &dir)
{
  if (listener >= 0) return;
  listener = ::socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC | SOCK_NONBLOCK, 0);
  memset(&address, 0, sizeof address);
  address.sin_family = AF_INET;
  address.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
  if (::bind(listener, (sockaddr *)&address, sizeof address) || ::listen(listener, 64)) throw std::runtime_error("no loopback network");
  socklen_t n = sizeof address;
  ::getsockname(listener, (sockaddr *)&address, &n);
  mc::freshDir(dir);
  dbDir = dir + "/db";
  mc::freshDir(dbDir);
  spit(dbDir + "/db", TheDb.content());
  utimbuf t{Modified, Modified};
  ::utime((dbDir + "/db").c_str(), &t);
  // index of 2 bits
  const std::string s = TheDb.content();
  std::vector<uint64_t> ix(4, ~0ull);
  for (size_t i = 0; i + 20 <= s.size() - TheDb.tail; i += 20)
  {
    uint64_t h;
    memcpy(&h, s.data() + i, 8);
    if (ix[h >> 62] == ~0ull) ix[h >> 62] = i;
  }
  spit(dbDir + "/ix", std::string((const char *)ix.data(), 32));
}

static void hardClose(int fd)
{
  linger l{1, 0};
  ::setsockopt(fd, SOL_SOCKET, SO_LINGER, &l, sizeof l);
  ::close(fd);
}

struct Service
{
  net::io_context ioc{1};
  tcp::acceptor acceptor{ioc};
  std::list<webservice::HttpWorker> workers;
  webservice::HttpWorker::log_callback_t logger;
  std::vector<std::string> lines;
  Service(int n, const std::string &base, bool index, bool log)
  {
    clockAhead = 0;
    acceptor.assign(tcp::v4(), ::fcntl(listener, F_DUPFD_CLOEXEC, 0));
    logger = [this](const std::string &m) { lines.push_back(m); };
    for (int i = 0; i < n; ++i)
    {
      workers.emplace_back(acceptor, base, dbDir + "/db", index ? dbDir + "/ix" : std::string(), log ? &logger : nullptr);
      workers.back().start();
    }
  }
  ~Service()
  {
    clockAhead = 0;
    // connections nobody has accepted must not reach the next service
    int fd;
    while ((fd = ::accept4(listener, nullptr, nullptr, SOCK_CLOEXEC)) >= 0) hardClose(fd);
  }
  // executes up to n handlers
  size_t run(size_t n)
  {
    size_t k = 0;
    ioc.restart();
    struct In { In() { inService = true; } ~In() { inService = false; } } in;
    while (k < n && ioc.poll_one()) ++k;
    return k;
  }
};

struct Client
{
  int fd = -1;
  std::string got;
  bool ended = false; // by the service
  bool gone = false;  // by itself
  ~Client() { if (fd >= 0) hardClose(fd); }
  void connect()
  {
    fd = ::socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0);
    int one = 1;
    ::setsockopt(fd, IPPROTO_TCP, TCP_NODELAY, &one, sizeof one);
    if (::connect(fd, (sockaddr *)&address, sizeof address)) throw std::runtime_error("connect");
    ::fcntl(fd, F_SETFL, O_NONBLOCK);
  }
  void send(const std::string &s) { if (fd >= 0) (void)!::send(fd, s.data(), s.size(), MSG_NOSIGNAL); }
  void shut() { if (fd >= 0) ::shutdown(fd, SHUT_WR); }
  void close(bool reset)
  {
    if (fd < 0) return;
    if (reset) hardClose(fd);
    else ::close(fd);
    fd = -1;
    gone = true;
  }
  void drain()
  {
    if (fd < 0 || ended) return;
    char b[8192];
    for (;;)
    {
      const ssize_t n = ::recv(fd, b, sizeof b, 0);
      if (n > 0) { got.append(b, (size_t)n); continue; }
      if (n == 0 || (errno != EAGAIN && errno != EINTR)) ended = true;
      break;
    }
  }
};

// until nothing happens any more and all of these clients have been served
static void settle(Service &s, std::vector<Client *> cs)
{
  const double end = realNow() + 10;
  int quiet = 0;
  // on a busy machine the time alone says nothing
  for (size_t turns = 0; quiet < 2 && (realNow() < end || turns < 20000); ++turns)
  {
    size_t k = s.run(1000);
    bool all = true;
    for (auto c : cs)
    {
      const size_t before = c->got.size();
      c->drain();
      if (c->got.size() != before) ++k;
      all = all && (c->ended || c->gone);
    }
    if (k) quiet = 0;
    else if (all) ++quiet;
    else ::usleep(200);
  }
}
// for clients that need not be served: handlers until none can go on
static void drainHandlers(Service &s, std::vector<Client *> cs)
{
  for (int i = 0; i < 3; ++i) while (s.run(1000)) {}
  for (auto c : cs) c->drain();
}

// A request that must be answered at the end: the service is still there.
static void probe(Ctx &c, Service &s, const std::string &base, const std::string &how)
{
  Client p;
  const Request r = get(base, base + "/lookup?hash=" + refHex(refHash("two")));
  p.connect();
  p.send(r.text);
  settle(s, {&p});
  checkResponse(c, p.got, r.want, "last client, after " + how);
  c.check(p.ended, "not-closed", "the connection of the last client stays open after " + how);
}

static const std::string Base = "/v1/pwned/api";

// every request of an alphabet, in every short history on one worker
static std::vector<Request> alphabet(const std::string &base)
{
  const std::string h1 = refHex(refHash("one")), h2 = refHex(refHash("two")), h3 = refHex(refHash("three")), no = refHex(refHash("nothing"));
  std::vector<Request> r;
  for (auto t : V{"/lookup?hash=" + h1, "/lookup?hash=" + upper(h2), "/lookup?hash=" + h3, "/lookup?hash=" + no, "/lookup?hash=" + h1.substr(1), "/lookup?hash=" + h1 + "0",
                  "/lookup?hash=", "/lookup?hash", "/lookup", "/lookup?", "/lookup?x=1", "/lookup?x=1&hash=" + h2, "/lookup?hash=" + h2 + "&y", "/lookup?Hash=" + h1, "/lookup?hash=" + h1 + "#f",
                  "/lookup#hash=" + h1, "/lookup/?hash=" + h1, "/Lookup?hash=" + h1, "/lookup?hash=g" + h1.substr(1), "/lookup?hash=" + h1.substr(0, 31) + "%", "/lookup?hash=00000000000000000000000000000000",
                  "/lookup?hash=ffffffffffffffffffffffffffffffff", "/lookup?hash=a=b", "/info", "/info?x=1", "/info/", "/inf", "/", "", "//info", "/../api/info", "/lookup?hash=\"}" + h1.substr(3)})
    r.push_back(get(base, base + t));
  r.push_back(get(base, "/"));
  r.push_back(get(base, "*"));
  r.push_back(get(base, "/lookup?hash=" + h1));
  r.push_back(get(base, "/x" + base + "/info"));
  r.push_back(get(base, "http://h" + base + "/info"));
  for (auto m : V{"POST", "PUT", "DELETE", "OPTIONS", "PATCH", "BREW", "get"})
    for (auto body : V{"", "hash=" + h1})
    {
      const std::string t = base + "/lookup?hash=" + h1;
      r.push_back({m + " " + t + " HTTP/1.1\r\nHost: h\r\nContent-Length: " + std::to_string(body.size()) + "\r\n\r\n" + body, wantFor(base, m, t)});
    }
  const std::string t = base + "/lookup?hash=" + h2;
  r.push_back({"GET " + t + " HTTP/1.0\r\n\r\n", wantFor(base, "GET", t)});
  r.push_back({"GET " + t + " HTTP/1.1\r\nConnection: keep-alive\r\nX: " + std::string(3000, 'x') + "\r\n\r\n", wantFor(base, "GET", t)});
  r.push_back({"GET " + t + " HTTP/1.1\r\nHost: h\r\nContent-Length: 5\r\n\r\nabcde", wantFor(base, "GET", t)});
  r.push_back({"GET " + t + " HTTP/1.1\r\nHost: h\r\nTransfer-Encoding: chunked\r\n\r\n3\r\nabc\r\n0\r\n\r\n", wantFor(base, "GET", t)});
  r.push_back({"POST " + t + " HTTP/1.1\r\nHost: h\r\nTransfer-Encoding: chunked\r\n\r\n3\r\nabc\r\n2\r\nde\r\n0\r\n\r\n", wantFor(base, "POST", t)});
  r.push_back(get(base, base + "/" + std::string(4000, 'y')));
  // not HTTP, or beyond the limits of the parser: the connection ends
  for (auto s : V{"\r\n\r\n\r\n", "GET\r\n\r\n", "GET / HTTP/1.1\nHost", std::string(50, '\0'), "\x16\x03\x01\x02\x01\x01", "GET / HTTP/9.9\r\n\r\n", "GET / HTTP/1.1\r\nbad header\r\n\r\n",
                  "GET / HTTP/1.1\r\nContent-Length: x\r\n\r\n", "POST / HTTP/1.1\r\nContent-Length: 99999999999999999999\r\n\r\n", "POST / HTTP/1.1\r\nContent-Length: 2000000\r\n\r\n",
                  "GET / HTTP/1.1\r\nX: " + std::string(20000, 'x') + "\r\n\r\n", "POST / HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\nzz\r\n"})
    r.push_back({s, {}});
  return r;
}
static void finish(Client &k, const Request &r)
{
  if (!r.want.status) k.shut(); // may be the beginning of a request
}

static void requests(Ctx &c, size_t depth)
{
  const std::string base = c.pick(V{Base, ""});
  static std::map<std::string, std::vector<Request>> cache;
  if (!cache.count(base)) cache[base] = alphabet(base);
  const std::vector<Request> &all = cache[base];
  const bool index = c.flag();
  const int workers = 1;
  std::vector<size_t> which;
  for (size_t i = 0; i < depth; ++i) which.push_back(c.choose(all.size()));
  c.shard();
  openListener(c.dir() + "s");
  Service s(workers, base, index, true);
  std::string how;
  for (size_t i : which)
  {
    Client k;
    k.connect();
    k.send(all[i].text);
    finish(k, all[i]);
    how += (how.empty() ? "" : " | ") + shown(all[i].text).substr(0, 120);
    settle(s, {&k});
    c.step();
    checkResponse(c, k.got, all[i].want, how);
    c.check(k.ended, "not-closed", "the connection stays open after " + how);
  }
  c.state(mc::hashOf(base + how + (index ? "i" : "")));
  c.outcome(std::to_string(all[which.back()].want.status));
  if (c.wantNotes()) c.notes.push_back(how);
}

// one client: the request in two or three parts at every byte, handlers in between, then every kind of end
static void splits(Ctx &c, bool thorough)
{
  static const std::vector<Request> rs{
    get(Base, Base + "/lookup?hash=" + refHex(refHash("three"))),
    get(Base, Base + "/info"),
    {"POST " + Base + "/info HTTP/1.1\r\nContent-Length: 4\r\n\r\nabcd", wantFor(Base, "POST", "")},
    get(Base, "/nothing"),
  };
  const Request &r = rs[c.choose(rs.size())];
  const size_t a = c.choose(r.text.size() + 1);
  const size_t b = thorough && c.flag() ? a + c.choose(r.text.size() - a + 1) : r.text.size();
  const int first = (int)c.choose(4); // how the client goes on after the first part: rest, half close, close, reset
  static const size_t runs[] = {0, 1, 2, 1000};
  const size_t r0 = runs[c.choose(4)], r1 = runs[c.choose(4)];
  const bool log = c.flag();
  c.shard();
  openListener(c.dir() + "s");
  Service s(1, Base, false, log);
  Client k;
  k.connect();
  s.run(r0);
  k.send(r.text.substr(0, a));
  s.run(r1);
  std::string how = "'" + shown(r.text) + "' in parts of " + std::to_string(a) + ", " + std::to_string(b - a) + " bytes, " + std::to_string(r0) + " and " + std::to_string(r1) + " handlers between";
  Expect want = r.want;
  switch (first)
  {
  case 0:
    k.send(r.text.substr(a, b - a));
    s.run(r1);
    k.send(r.text.substr(b));
    break;
  case 1: k.shut(); how += ", then half closed"; if (a < r.text.size()) want = {}; break;
  case 2: k.close(false); how += ", then closed"; break;
  case 3: k.close(true); how += ", then reset"; break;
  }
  c.step();
  if (first < 2)
  {
    settle(s, {&k});
    checkResponse(c, k.got, want, how);
    c.check(k.ended, "not-closed", "the connection stays open: " + how);
  }
  probe(c, s, Base, how);
  c.state(mc::hashOf(how));
  c.outcome(k.got.substr(0, 12));
  if (c.wantNotes()) c.notes.push_back(how + " -> " + shown(k.got).substr(0, 60));
}

// several clients, every interleaving of their actions, every number of handlers in between
static void clients(Ctx &c, size_t n, size_t maxWorkers, const V &scripts, const std::vector<size_t> &runs)
{
  // C connect, 1 first half, 2 second half, 3 the whole request, S half close, X close, R reset, T the clock goes on by 61 s, G garbage, E receive
  const int workers = 1 + (int)c.choose(maxWorkers);
  std::vector<std::string> sc;
  size_t last = 0;
  for (size_t i = 0; i < n; ++i) { last += c.choose(scripts.size() - last); sc.push_back(scripts[last]); }
  static const char *pws[] = {"one", "two", "three"};
  openListener(c.dir() + "s");
  c.softShard(2);
  Service s(workers, Base, false, true);
  std::vector<Client> ks(n);
  std::vector<size_t> at(n);
  std::vector<Request> rq;
  std::vector<bool> complete(n), half(n), garbage(n), tainted(n), shut(n);
  for (size_t i = 0; i < n; ++i) rq.push_back(get(Base, Base + "/lookup?hash=" + refHex(refHash(pws[i]))));
  std::string how = std::to_string(workers) + " worker(s):";
  for (;;)
  {
    std::vector<size_t> can;
    for (size_t i = 0; i < n; ++i) if (at[i] < sc[i].size()) can.push_back(i);
    if (can.empty()) break;
    const size_t i = can[c.choose(can.size())];
    const char a = sc[i][at[i]++];
    Client &k = ks[i];
    const std::string &t = rq[i].text;
    how += " " + std::to_string(i) + a;
    switch (a)
    {
    case 'C': k.connect(); break;
    case '1': k.send(t.substr(0, t.size() / 2)); half[i] = true; break;
    case '2': k.send(t.substr(t.size() / 2)); complete[i] = half[i]; break;
    case '3': k.send(t); complete[i] = true; break;
    case 'G': k.send("nonsense\r\n\r\n"); garbage[i] = true; break;
    case 'S': k.shut(); shut[i] = true; break;
    case 'X': k.close(false); break;
    case 'R': k.close(true); break;
    case 'E': k.drain(); break;
    case 'T':
      clockAhead += 61;
      for (size_t j = 0; j < n; ++j) if (at[j] && !ks[j].ended) tainted[j] = true;
      break;
    }
    c.step();
    const size_t h = runs[c.choose(runs.size())];
    if (h) how += "/" + (h > 100 ? std::string("*") : std::to_string(h));
    s.run(h);
  }
  std::vector<Client *> due, all;
  for (size_t i = 0; i < n; ++i)
  {
    all.push_back(&ks[i]);
    if (!ks[i].gone && (complete[i] || garbage[i] || shut[i])) due.push_back(&ks[i]);
  }
  // idle clients may occupy all workers; the timeout ends them
  drainHandlers(s, all);
  bool idle = false;
  for (size_t i = 0; i < n; ++i) if (!ks[i].gone && !ks[i].ended) idle = true;
  if (idle)
  {
    for (size_t j = 0; j < n; ++j)
    {
      drainHandlers(s, all);
      clockAhead += 61;
      how += " (61 s)";
      s.run(1000);
    }
    for (size_t i = 0; i < n; ++i) if (!complete[i]) due.push_back(&ks[i]);
  }
  settle(s, due);
  for (size_t i = 0; i < n; ++i)
  {
    if (ks[i].gone) continue;
    Expect want;
    if (complete[i]) want = rq[i].want;
    if (garbage[i]) want = {};
    want.either = tainted[i] && want.status;
    checkResponse(c, ks[i].got, want, "client " + std::to_string(i) + " of " + how);
    c.check(ks[i].ended, "not-closed", "the connection of client " + std::to_string(i) + " stays open: " + how);
  }
  probe(c, s, Base, how);
  c.state(mc::hashOf(how));
  std::string o;
  for (auto &k : ks) o += k.got.substr(0, 12) + (k.ended ? "." : "-") + ";";
  c.outcome(o);
  if (c.wantNotes()) c.notes.push_back(how);
}

// One of the socket calls of the service fails, or transfers one byte only.
static void faults(Ctx &c, size_t depth)
{
  static const std::vector<Request> rs{get(Base, Base + "/lookup?hash=" + refHex(refHash("three"))), get(Base, Base + "/info"), {"POST " + Base + "/info HTTP/1.1\r\nContent-Length: 4\r\n\r\nabcd", wantFor(Base, "POST", "")}, get(Base, "/nothing")};
  const int workers = 1 + (int)c.choose(2);
  std::vector<size_t> which;
  std::vector<bool> parts;
  for (size_t i = 0; i < depth; ++i) { which.push_back(c.choose(rs.size())); parts.push_back(c.flag()); }
  const size_t kind = c.choose(6); // five errors, one byte only
  c.shard();
  openListener(c.dir() + "s");
  for (size_t at = 0;; ++at)
  {
    Service s(workers, Base, true, true);
    serviceCalls = 0;
    faultAt = at;
    faultKind = kind == 5;
    faultErrno = kind;
    faultDone.clear();
    std::string how = std::to_string(workers) + " worker(s), call " + std::to_string(at) + ":";
    std::list<Client> ks;
    for (size_t i = 0; i < depth; ++i)
    {
      const std::string &t = rs[which[i]].text;
      ks.emplace_back();
      Client &k = ks.back();
      const bool before = !faultDone.empty();
      k.connect();
      k.send(parts[i] ? t.substr(0, t.size() / 2) : t);
      drainHandlers(s, {&k});
      if (parts[i]) k.send(t.substr(t.size() / 2));
      settle(s, {&k});
      how += " " + shown(t) + (parts[i] ? " in two parts" : "");
      Expect want = rs[which[i]].want;
      // an error may end the connection it concerns, and nothing else
      want.either = !before && !faultDone.empty() && kind != 5;
      if (want.either && faultDone.compare(0, 5, "read:") == 0)
      { // of the database or the index: the right answer, or one that says so
        if (k.got.find(" 500 ") != std::string::npos) { want = {}; want.status = 500; }
        else want.either = false;
      }
      const std::string h = how + (faultDone.empty() ? "" : " with " + faultDone);
      checkResponse(c, k.got, want, h);
      c.check(k.ended, "not-closed", "the connection stays open: " + h);
      c.step();
    }
    const bool done = faultDone.empty();
    how += " with " + faultDone;
    faultAt = SIZE_MAX;
    probe(c, s, Base, how);
    c.state(mc::hashOf(how));
    if (c.wantNotes()) c.notes.push_back(how);
    if (done) break; // no such call any more
    c.outcome(faultDone);
  }
}

// One worker and very many connections, of every pair of kinds in turns: none
// may leave something behind that a later one meets.
static size_t openFiles()
{
  size_t n = 0;
  for (auto &e : std::filesystem::directory_iterator("/proc/self/fd")) { (void)e; ++n; }
  return n;
}
static void longLives(Ctx &c, size_t many, bool pairs)
{
  static const V kinds{"lookup", "info", "POST", "404", "garbage", "long header", "in parts", "half closed", "reset", "closed", "timeout", "other index"};
  const size_t a = c.choose(kinds.size()), b = pairs ? a + c.choose(kinds.size() - a) : a;
  const bool index = c.flag(), log = c.flag();
  const int workers = 1 + (int)c.choose(2);
  c.shard();
  openListener(c.dir() + "s");
  const std::string h1 = refHex(refHash("one")), h3 = refHex(refHash("three"));
  size_t before = 0;
  const std::string how = kinds[a] + " and " + kinds[b] + " in turns, " + std::to_string(workers) + " worker(s)" + (index ? ", index" : "");
  {
    Service s(workers, Base, index, log);
    for (size_t i = 0; i < many; ++i)
    {
      const std::string &k = kinds[i & 1 ? b : a];
      Request r = get(Base, Base + "/lookup?hash=" + (i % 3 ? h1 : i % 5 ? h3 : std::string(32, "0123456789abcdef"[i % 16])));
      if (k == "info") r = get(Base, Base + "/info");
      if (k == "POST") r = {"POST " + Base + "/info HTTP/1.1\r\nContent-Length: 4\r\n\r\nabcd", wantFor(Base, "POST", "")};
      if (k == "404") r = get(Base, "/" + std::string(i % 50, 'x'));
      if (k == "garbage") r = {"nonsense\r\n\r\n", {}};
      if (k == "long header") r.text = r.text.substr(0, r.text.size() - 2) + "X: " + std::string(500 + i % 3000, 'x') + "\r\n\r\n";
      if (k == "other index") r = get(Base, Base + "/lookup?hash=" + upper(h3));
      Client cl;
      cl.connect();
      if (k == "in parts" || k == "half closed" || k == "reset" || k == "closed" || k == "timeout")
      {
        const size_t cut = i % r.text.size();
        cl.send(r.text.substr(0, cut));
        drainHandlers(s, {&cl});
        if (k == "in parts") cl.send(r.text.substr(cut));
        else r.want = {};
        if (k == "half closed") cl.shut();
        if (k == "reset" || k == "closed") cl.close(k == "reset");
        if (k == "timeout") { clockAhead += 61; s.run(1000); }
      }
      else
      {
        cl.send(r.text);
        finish(cl, r);
      }
      settle(s, {&cl});
      c.step();
      const std::string h = "connection " + std::to_string(i + 1) + ", " + how;
      if (!cl.gone)
      {
        checkResponse(c, cl.got, r.want, h);
        c.check(cl.ended, "not-closed", "the connection stays open: " + h);
      }
      if (i == 20) before = openFiles();
    }
    const size_t after = openFiles();
    c.check(after <= before + 4, "descriptors", std::to_string(after - before) + " more descriptors are open after " + std::to_string(many) + " connections: " + how);
    probe(c, s, Base, how);
  }
  c.state(mc::hashOf(how + (log ? "l" : "")));
  if (c.wantNotes()) c.notes.push_back(std::to_string(many) + " connections: " + how);
}

// the program itself
static void program(Ctx &c)
{
  const std::string base = c.pick(V{"/v1/pwned/api", "", "/x"});
  const int workers = 1 + (int)c.choose(3), threads = 1 + (int)c.choose(3);
  const int verbose = (int)c.choose(3);
  const bool index = c.flag();
  c.shard();
  openListener(c.dir() + "s");
  // a free port
  int fd = ::socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0);
  sockaddr_in a{};
  a.sin_family = AF_INET;
  a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
  socklen_t n = sizeof a;
  ::bind(fd, (sockaddr *)&a, sizeof a);
  ::getsockname(fd, (sockaddr *)&a, &n);
  ::close(fd);
  V args{mc::opt.arg("server"), "-I", dbDir + "/db", "-A", "http://127.0.0.1:" + std::to_string(ntohs(a.sin_port)) + base, "-W", std::to_string(workers), "-T", std::to_string(threads)};
  if (index) { args.push_back("-X"); args.push_back(dbDir + "/ix"); }
  for (int i = 0; i < verbose; ++i) args.push_back("-v");
  std::string how;
  for (auto &x : args) how += x.substr(x.rfind('/') == std::string::npos || x.find("http") == 0 ? 0 : x.rfind('/') + 1) + " ";
  std::vector<char *> av;
  for (auto &x : args) av.push_back(const_cast<char *>(x.c_str()));
  av.push_back(nullptr);
  const pid_t pid = ::fork();
  if (pid == 0)
  {
    const int z = ::open("/dev/null", O_RDWR);
    for (int i = 0; i < 3; ++i) ::dup2(z, i);
    ::execv(av[0], av.data());
    ::_exit(127);
  }
  struct Kill { pid_t p; ~Kill() { ::kill(p, SIGKILL); ::waitpid(p, nullptr, 0); } } killer{pid};
  const sockaddr_in saved = address;
  struct Back { sockaddr_in a; ~Back() { address = a; } } back{saved};
  address = a;
  bool up = false;
  mc::Patience patience(pid, 10);
  while (!up && !patience.over())
  {
    try { Client p; p.connect(); up = true; } catch (const std::runtime_error &) { ::usleep(2000); }
  }
  c.check(up, "no-service", "the service does not start: " + how);
  auto await = [&](Client &k, bool whole) {
    mc::Patience patience(pid, 10);
    while (!k.ended && !patience.over() && (whole || k.got.empty())) { k.drain(); ::usleep(100); }
  };
  const auto all = alphabet(base);
  Client idle[2];
  // idle clients do not stop the others as long as there are workers left
  for (int i = 0; i + 1 < workers; ++i) { idle[i].connect(); idle[i].send("GET "); }
  for (auto &r : all)
  {
    Client k;
    k.connect();
    k.send(r.text.substr(0, r.text.size() / 2));
    k.send(r.text.substr(r.text.size() / 2));
    finish(k, r);
    await(k, true);
    checkResponse(c, k.got, r.want, how + ": " + shown(r.text));
    c.step();
  }
  // several at once
  std::vector<Client> ks(6);
  std::vector<Request> rs;
  for (size_t i = 0; i < ks.size(); ++i) rs.push_back(all[i]);
  for (auto &k : ks) k.connect();
  for (size_t i = 0; i < ks.size(); ++i) ks[i].send(rs[i].text);
  for (size_t i = 0; i < ks.size(); ++i) { await(ks[i], true); checkResponse(c, ks[i].got, rs[i].want, how + ": client " + std::to_string(i) + " of 6 at once"); }
  int st = 0;
  c.check(::waitpid(pid, &st, WNOHANG) == 0, "service-ended", "the service has ended: " + how);
  c.state(mc::hashOf(how));
  if (c.wantNotes()) c.notes.push_back(how + std::to_string(all.size()) + " requests");
}

static void refused(Ctx &c)
{
  V args{mc::opt.arg("server")};
  openListener(c.dir() + "s");
  const std::string db = dbDir + "/db";
  const std::string taken = "http://127.0.0.1:" + std::to_string(ntohs(address.sin_port)) + "/";
  static const V kinds{"no input", "missing input", "port taken", "no host", "no uri", "host name", "port", "missing index"};
  const std::string k = c.pick(kinds);
  c.shard();
  if (k == "missing input") args.insert(args.end(), {"-I", db + "x", "-A", "http://127.0.0.1:0/"});
  if (k == "port taken") args.insert(args.end(), {"-I", db, "-A", taken});
  if (k == "no host") args.insert(args.end(), {"-I", db, "-A", "http:///x"});
  if (k == "no uri") args.insert(args.end(), {"-I", db, "-A", "127.0.0.1"});
  if (k == "host name") args.insert(args.end(), {"-I", db, "-A", "http://nowhere.invalid/"});
  if (k == "port") args.insert(args.end(), {"-I", db, "-A", "http://127.0.0.1:99999/"});
  if (k == "missing index") args.insert(args.end(), {"-I", db, "-X", dbDir + "/nothing", "-A", "http://127.0.0.1:0/"});
  ToolRun r = runTool(args, c.dir());
  c.step();
  c.check(r.exited && r.code != 0, "not-refused", k + " is not refused: " + r.text());
  c.state(mc::hashOf(k));
  if (c.wantNotes()) c.notes.push_back(k + ": " + r.err.substr(0, 80));
}

int main(int argc, char **argv)
{
  mc::parseArgs(argc, argv);
  const bool T = mc::opt.thorough();
  mc::explore("requests", [&](Ctx &c) { requests(c, 2); });
  if (T) mc::explore("request-histories", [&](Ctx &c) { requests(c, 3); });
  mc::explore("splits", [&](Ctx &c) { splits(c, T); });
  const V scripts{"C12", "C1", "CG", "C1S", "C12R", "C1R", "C12X", "C", "CX", "C1E2E", "CT12"};
  mc::explore("two-clients", [&](Ctx &c) { clients(c, 2, 2, T ? scripts : V{"C12", "CG", "C1S", "C1R", "C3X", "C", "CX", "CT3"}, {0, 1000}); });
  mc::explore("two-clients-stepwise", [&](Ctx &c) { clients(c, 2, 2, T ? scripts : V{"C12", "C1R", "CX"}, T ? std::vector<size_t>{0, 1, 2, 1000} : std::vector<size_t>{0, 1, 1000}); });
  mc::explore("three-clients", [&](Ctx &c) { clients(c, 3, T ? 3 : 2, T ? V{"C3", "CR", "CT", "CG"} : V{"C3", "CR", "CT"}, T ? std::vector<size_t>{0, 1, 1000} : std::vector<size_t>{0, 1000}); });
  if (T) mc::explore("three-clients-in-parts", [&](Ctx &c) { clients(c, 3, 2, V{"C12", "C1R"}, {0, 1000}); });
  mc::explore("faults", [&](Ctx &c) { faults(c, T ? 3 : 2); });
  mc::explore("long-lives", [&](Ctx &c) { longLives(c, 280, true); });
  if (T) mc::explore("longer-lives", [&](Ctx &c) { longLives(c, 66000, false); });
  mc::explore("program", program);
  mc::explore("refused", refused);
  return mc::finish();
}
