#include <arpa/inet.h>
#include <netinet/in.h>
#include <sys/socket.h>
#include <unistd.h>
#include <iostream>
#include <list>
#include <mutex>
#include <thread>
#include "servescen.hpp"
#include "../rt/mcrt.hpp"
#include <pwned-server/httpworker.hpp>

namespace serve {

namespace net = boost::asio;
using tcp = net::ip::tcp;

// as main() of the program sets it up; nothing of it is ever destroyed
struct Service
{
  net::io_context ioc;
  tcp::acceptor acceptor;
  std::list<webservice::HttpWorker> workers;
  std::mutex mtx;
  webservice::HttpWorker::log_callback_t logger;
  std::vector<std::thread> threads;
  Service(int n) : ioc(n), acceptor(ioc, tcp::endpoint(net::ip::address_v4::loopback(), 0)) {}
};

// standard output of the program
struct Lines : std::streambuf
{
  std::string &text;
  Lines(std::string &t) : text(t) {}
  void put(const char *p, size_t n)
  {
    mcrt::point(); // other threads may write now
    mcrt::Quiet q;
    text.append(p, n);
  }
  std::streamsize xsputn(const char *p, std::streamsize n) override { put(p, (size_t)n); return n; }
  int overflow(int ch) override
  {
    const char b = (char)ch;
    if (ch != EOF) put(&b, 1);
    return 0;
  }
};

} // namespace serve
int tool_main(int, const char **);
namespace serve {

static sockaddr_in objects(const Script &s, const std::string &db, const std::string &index, Outcome &o)
{
  Service &v = *new Service(s.workers);
  if (s.logs)
    v.logger = [&v, &o](const std::string &m) {
      std::lock_guard<std::mutex> l(v.mtx);
      o.log.push_back(m);
    };
  for (int i = 0; i < s.workers; ++i)
  {
    v.workers.emplace_back(v.acceptor, "/api", db, index, s.logs ? &v.logger : nullptr);
    v.workers.back().start();
  }
  sockaddr_in a{};
  a.sin_family = AF_INET;
  a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
  a.sin_port = htons(v.acceptor.local_endpoint().port());
  for (int i = 0; i < s.threads; ++i) v.threads.emplace_back([&v] { v.ioc.run(); });
  return a;
}

static sockaddr_in program(const Script &s, const std::string &db, const std::string &index, Outcome &o)
{
  sockaddr_in a{};
  a.sin_family = AF_INET;
  a.sin_addr.s_addr = htonl(0x7f010001 + (uint32_t)s.unit % 65536 * 64);
  a.sin_port = htons(31337);
  std::vector<std::string> &args = *new std::vector<std::string>{"pwned-server", "-I", db, "-A", "http://" + std::string(inet_ntoa(a.sin_addr)) + ":31337/api", "-W", std::to_string(s.workers), "-T", std::to_string(s.threads)};
  if (!index.empty()) args.insert(args.end(), {"-X", index});
  if (s.logs) args.push_back("-vv");
  std::vector<const char *> &argv = *new std::vector<const char *>;
  for (auto &x : args) argv.push_back(x.c_str());
  argv.push_back(nullptr);
  std::cout.rdbuf(new Lines(o.out));
  (new std::thread([&args, &argv] { ::tool_main((int)args.size(), argv.data()); }))->detach();
  return a;
}

void run(const Script &s, const std::string &db, const std::string &index, Outcome &o)
{
  const sockaddr_in a = s.program ? program(s, db, index, o) : objects(s, db, index, o);
  mcrt::settle();
  std::vector<int> fds(s.clients.size(), -1);
  o.got.resize(fds.size());
  o.ended.resize(fds.size());
  auto collect = [&](size_t i) {
    if (fds[i] < 0) return;
    char b[4096];
    for (;;)
    {
      const ssize_t n = ::recv(fds[i], b, sizeof b, MSG_DONTWAIT);
      if (n > 0) { o.got[i].append(b, (size_t)n); continue; }
      if (n == 0 || (errno != EAGAIN && errno != EINTR)) o.ended[i] = true;
      break;
    }
  };
  auto leave = [&](size_t i, bool reset) {
    if (fds[i] < 0) return;
    linger l{1, 0};
    if (reset) ::setsockopt(fds[i], SOL_SOCKET, SO_LINGER, &l, sizeof l);
    ::close(fds[i]);
    fds[i] = -1;
  };
  for (size_t k = 0; k < s.steps.size(); ++k)
  {
    const char what = s.steps[k];
    if (what == ' ') continue;
    const size_t i = strchr("t+-1", what) ? 0 : (size_t)(s.steps[++k] - '0');
    const Client *cl = fds.empty() ? nullptr : &s.clients[i];
    if (what != 't') mcrt::event(what, (int)i);
    switch (what)
    {
    case 'c':
      fds[i] = ::socket(AF_INET, SOCK_STREAM, 0);
      if (::connect(fds[i], (sockaddr *)&a, sizeof a)) throw std::runtime_error("cannot connect");
      break;
    case 's': if (fds[i] >= 0) ::send(fds[i], cl->request.data(), cl->request.size(), MSG_NOSIGNAL); break;
    case 'h': if (fds[i] >= 0) ::send(fds[i], cl->request.data(), cl->request.size() / 2, MSG_NOSIGNAL); break;
    case 'r': if (fds[i] >= 0) ::send(fds[i], cl->request.data() + cl->request.size() / 2, cl->request.size() - cl->request.size() / 2, MSG_NOSIGNAL); break;
    case 'x': collect(i); leave(i, false); break;
    case 'z': collect(i); leave(i, true); break;
    case 't': mcrt::settle(); break;
    case '+': mcrt::advance(60); break;
    case '-': mcrt::advance(59); break;
    case '1': mcrt::advance(1); break;
    }
  }
  mcrt::settle();
  for (size_t i = 0; i < fds.size(); ++i)
  {
    collect(i);
    mcrt::note('g', (int)(i * 1000 + o.got[i].size() % 1000));
  }
  for (size_t i = 0; i < fds.size(); ++i) leave(i, true);
}

} // namespace serve
