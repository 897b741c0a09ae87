// C27: terminal settings, in-process histories and the tools on a
// pseudo-terminal, against a model of the flags.
#include <memory>
#include <poll.h>
#include <pty.h>
#include <termios.h>
#include "../common/mc.hpp"
#include "../common/util.hpp"
#include <pwned-lib/util.hpp>
#include <pwned-lib/markovchain.hpp>

using mc::Ctx;
using V = std::vector<std::string>;

static int master = -1, slave = -1;
static struct termios pristine;

static void openTerminal(unsigned)
{
  if (::openpty(&master, &slave, nullptr, nullptr, nullptr)) throw std::runtime_error("no pseudo-terminal");
  ::fcntl(master, F_SETFL, O_NONBLOCK);
  ::fcntl(master, F_SETFD, FD_CLOEXEC);
  ::fcntl(slave, F_SETFD, FD_CLOEXEC);
  ::tcgetattr(slave, &pristine);
}
static void ensureTerminal() { if (master < 0) openTerminal(0); }

static bool same(const struct termios &a, const struct termios &b)
{
  return a.c_iflag == b.c_iflag && a.c_oflag == b.c_oflag && a.c_cflag == b.c_cflag && a.c_lflag == b.c_lflag && !memcmp(a.c_cc, b.c_cc, sizeof a.c_cc) && ::cfgetispeed(&a) == ::cfgetispeed(&b) && ::cfgetospeed(&a) == ::cfgetospeed(&b);
}
static std::string text(const struct termios &t)
{
  std::string s;
  auto flag = [&](tcflag_t f, const char *n) { s += (t.c_lflag & f ? " " : " -") + std::string(n); };
  flag(ECHO, "echo"); flag(ICANON, "icanon"); flag(ISIG, "isig");
  char b[120];
  snprintf(b, sizeof b, " (i %x o %x c %x l %x min %d time %d)", t.c_iflag, t.c_oflag, t.c_cflag, t.c_lflag, t.c_cc[VMIN], t.c_cc[VTIME]);
  return s + b;
}

// every combination of the three flags, with the rest as set by some other program
static struct termios initial(Ctx &c, size_t variants)
{
  struct termios t = pristine;
  const tcflag_t fs[] = {ECHO, ICANON, ISIG};
  for (tcflag_t f : fs)
    if (c.flag()) t.c_lflag &= ~f;
    else t.c_lflag |= f;
  switch (c.choose(variants))
  {
  case 0: break;
  case 1:
    t.c_lflag &= ~tcflag_t(ECHOE | ECHOK | IEXTEN);
    t.c_lflag |= ECHONL | NOFLSH;
    t.c_iflag &= ~tcflag_t(ICRNL | IXON);
    t.c_cc[VINTR] = 1;
    break;
  case 2:
    t.c_oflag &= ~tcflag_t(OPOST);
    t.c_iflag |= IGNCR | ISTRIP;
    t.c_cc[VMIN] = 3;
    t.c_cc[VTIME] = 7;
    ::cfsetspeed(&t, B9600);
    break;
  }
  return t;
}

static void histories(Ctx &c, size_t length)
{
  ensureTerminal();
  struct termios model = initial(c, 3);
  c.shard();
  ::dup2(slave, 0);
  ::tcsetattr(0, TCSANOW, &model);
  ::tcgetattr(0, &model); // as the system keeps it
  std::string how = "initially" + text(model) + ", then:";
  struct Saved { std::unique_ptr<pwned::TermIO> io; struct termios t; };
  std::vector<Saved> stack;
  auto check = [&](const char *sig) {
    struct termios t;
    ::tcgetattr(0, &t);
    c.step();
    c.check(same(t, model), sig, how + "; the terminal has" + text(t) + " instead of" + text(model));
    std::string key((const char *)&model.c_lflag, sizeof model.c_lflag);
    c.state(mc::hashOf(key + char('0' + stack.size())));
  };
  for (size_t i = 0; i < length; ++i)
  {
    // end of the history, objects, settings of the innermost object, echo of the prompt, another program
    const size_t op = c.choose(stack.empty() ? 5 : 10);
    bool stop = false;
    switch (op)
    {
    case 0: stop = true; break;
    case 1:
      if (stack.size() == 3) throw mc::Skip{};
      how += " object created,";
      stack.push_back({std::unique_ptr<pwned::TermIO>(new pwned::TermIO), model});
      break;
    case 2: how += " setStdinEcho(false),"; pwned::setStdinEcho(false); model.c_lflag &= ~tcflag_t(ECHO); break;
    case 3: how += " setStdinEcho(true),"; pwned::setStdinEcho(true); model.c_lflag |= ECHO; break;
    case 4:
      how += " IXON changed,";
      model.c_iflag ^= IXON;
      ::tcsetattr(0, TCSANOW, &model);
      break;
    case 5: how += " disableEcho,"; stack.back().io->disableEcho(); model.c_lflag &= ~tcflag_t(ECHO | ICANON); break;
    case 6: how += " enableEcho,"; stack.back().io->enableEcho(); model.c_lflag |= ECHO | ICANON; break;
    case 7: how += " disableBreak,"; stack.back().io->disableBreak(); model.c_lflag &= ~tcflag_t(ISIG); break;
    case 8: how += " enableBreak,"; stack.back().io->enableBreak(); model.c_lflag |= ISIG; break;
    case 9:
      how += " object destroyed,";
      model = stack.back().t;
      stack.pop_back();
      break;
    }
    if (stop) break;
    check(op == 9 ? "not-restored" : "setting");
  }
  while (!stack.empty())
  {
    how += " object destroyed,";
    model = stack.back().t;
    stack.pop_back();
    check("not-restored");
  }
  if (c.wantNotes()) c.notes.push_back(how);
}

// ---------------------------------------------------------------- tools
struct Session
{
  pid_t pid = -1;
  std::string out;
  bool ended = false;
  int status = 0;
  void drain()
  {
    char b[4096];
    ssize_t n;
    while ((n = ::read(master, b, sizeof b)) > 0) out.append(b, (size_t)n);
  }
  void poll()
  {
    drain();
    if (!ended && ::waitpid(pid, &status, WNOHANG) == pid) { ended = true; drain(); }
  }
  template <class F> bool until(F f, double limit = 15)
  {
    mc::Patience patience(pid, limit);
    for (;;)
    {
      poll();
      if (f()) return true;
      if (ended || patience.over()) return f();
      ::usleep(200);
    }
  }
  ~Session()
  {
    if (pid > 0 && !ended) { ::kill(pid, SIGKILL); ::waitpid(pid, &status, 0); }
  }
};

static void start(Session &s, const V &args)
{
  std::vector<char *> av;
  for (auto &a : args) av.push_back(const_cast<char *>(a.c_str()));
  av.push_back(nullptr);
  s.pid = ::fork();
  if (s.pid < 0) throw std::runtime_error("fork");
  if (s.pid == 0)
  {
    ::dup2(slave, 0);
    ::dup2(slave, 1);
    ::dup2(slave, 2);
    ::execv(av[0], av.data());
    ::_exit(127);
  }
}

static void type(const std::string &s)
{
  for (size_t n = 0; n < s.size();)
  {
    const ssize_t r = ::write(master, s.data() + n, s.size() - n);
    if (r > 0) n += (size_t)r;
    else ::usleep(200);
  }
}

static struct termios now()
{
  struct termios t;
  ::tcgetattr(slave, &t);
  return t;
}

static std::string cmdline(const V &args)
{
  std::string s;
  for (auto &a : args) s += a.substr(a.rfind('/') + 1) + " ";
  return s;
}

// the converter sets the terminal to single keys and restores it however it ends
static void converter(Ctx &c)
{
  ensureTerminal();
  struct termios before = initial(c, 3);
  const std::string dir = c.dir() + "/t";
  V args{mc::opt.arg("convert"), "-T", "2"};
  bool fails = false;
  switch (c.choose(6))
  {
  case 0: args.insert(args.end(), {"-D", dir + "/out", "-I", dir + "/a.txt"}); break;
  case 1: args.insert(args.end(), {"-D", dir + "/out", "-I", dir + "/a.txt", "-I", dir + "/b.txt", "-I", dir + "/a.txt"}); break;
  case 2: args.insert(args.end(), {"-D", dir + "/out", "-I", dir + "/missing.txt", "-I", dir + "/a.txt"}); fails = true; break;
  case 3: args.insert(args.end(), {"-D", dir + "/missing", "-I", dir + "/a.txt"}); fails = true; break;
  case 4: args.insert(args.end(), {"-D", dir + "/out"}); fails = true; break;
  case 5: args.insert(args.end(), {"--help"}); break;
  }
  // pressed before the program reads them; a pause always ends by q
  static const V keys{"", "x", "q", " q", "  q", "x q", "\n", "qq", "   q"};
  const std::string k = c.pick(mc::opt.thorough() ? keys : V{"", "x", "q", " q", "   q"});
  c.shard();
  mc::freshDir(dir);
  ::mkdir((dir + "/out").c_str(), 0777);
  spit(dir + "/a.txt", "u:one\nv:two\n");
  spit(dir + "/b.txt", "u:one\nv:three\n");
  ::tcflush(slave, TCIOFLUSH);
  ::tcsetattr(slave, TCSANOW, &before);
  before = now();
  Session s;
  start(s, args);
  type(k);
  const std::string how = cmdline(args) + "keys '" + k + "', terminal" + text(before);
  c.step();
  c.check(s.until([&] { return s.ended; }), "hangs", "the converter does not end; " + how + "; output: " + s.out);
  const struct termios after = now();
  c.check(same(before, after), "tool-not-restored", how + "; the converter leaves the terminal with" + text(after));
  const bool failed = !WIFEXITED(s.status) || WEXITSTATUS(s.status) != 0;
  if (!fails || k.find('q') == std::string::npos) c.check(failed == fails, "exit", how + "; wait status " + std::to_string(s.status) + "; output: " + s.out);
  c.state(mc::hashOf(how));
  if (c.wantNotes()) c.notes.push_back(how + " -> " + text(after));
}

// the prompts hide what is typed and switch the echo on again
static void prompt(Ctx &c, bool markov)
{
  ensureTerminal();
  struct termios before = pristine;
  if (c.flag()) before.c_lflag &= ~tcflag_t(ECHO);
  if (c.flag()) before.c_lflag &= ~tcflag_t(ISIG);
  if (c.flag()) { before.c_lflag &= ~tcflag_t(ECHOE | ECHOK); before.c_iflag &= ~tcflag_t(IXON); before.c_cc[VINTR] = 1; }
  const V lines{"secret", "hidden"};
  V in;
  const size_t n = c.choose(3);
  for (size_t i = 0; i < n; ++i) in.push_back(c.pick(lines));
  c.shard();
  const std::string dir = c.dir() + "/t";
  mc::freshDir(dir);
  V args;
  if (markov)
  {
    pwned::markov::Chain<wchar_t, double> chain;
    chain.train("secret");
    chain.update();
    std::ofstream f(dir + "/chain", std::ios::binary);
    chain.saveBinary(f);
    args = {mc::opt.arg("markovlookup"), dir + "/chain"};
  }
  else
  {
    spit(dir + "/db", record(refHash("secret"), 3));
    args = {mc::opt.arg("lookup"), "-I", dir + "/db"};
  }
  ::tcflush(slave, TCIOFLUSH);
  ::tcsetattr(slave, TCSANOW, &before);
  before = now();
  std::string how = cmdline(args) + "terminal" + text(before) + ", lines:";
  struct termios hidden = before, shown = before;
  hidden.c_lflag &= ~tcflag_t(ECHO);
  shown.c_lflag |= ECHO;
  Session s;
  start(s, args);
  const std::string ask = markov ? "Type password: " : "Password? ";
  auto asked = [&](size_t n) {
    size_t k = 0;
    for (size_t p = 0; (p = s.out.find(ask, p)) != std::string::npos; ++p) ++k;
    return k >= n && !(now().c_lflag & ECHO);
  };
  for (size_t i = 0; i <= in.size(); ++i)
  {
    c.check(s.until([&] { return asked(i + 1); }), "prompt", how + "; no prompt " + std::to_string(i + 1) + " with the echo switched off; output: " + s.out);
    // the program now blocks in read, or is about to
    c.check(same(now(), hidden), "prompt-setting", how + "; while it asks, the terminal has" + text(now()));
    how += " " + (i < in.size() ? in[i] : std::string("(end of file)"));
    type(i < in.size() ? in[i] + "\n" : std::string(1, (char)before.c_cc[VEOF]));
    c.step();
  }
  c.check(s.until([&] { return s.ended; }), "hangs", how + "; the program does not end; output: " + s.out);
  c.check(WIFEXITED(s.status) && WEXITSTATUS(s.status) == 0, "exit", how + "; the program fails; output: " + s.out);
  c.check(s.out.find("secret") == std::string::npos && s.out.find("hidden") == std::string::npos, "echoed", how + "; what was typed has been shown: " + s.out);
  c.check(same(now(), shown), "echo-not-restored", how + "; the program leaves the terminal with" + text(now()));
  c.state(mc::hashOf(how));
  if (c.wantNotes()) c.notes.push_back(how);
}

int main(int argc, char **argv)
{
  mc::parseArgs(argc, argv);
  const bool T = mc::opt.thorough();
  mc::ExploreOpts o;
  mc::explore("histories", [&](Ctx &c) { histories(c, T ? 6 : 5); }, o);
  mc::explore("converter", converter, o);
  mc::explore("lookup", [](Ctx &c) { prompt(c, false); }, o);
  mc::explore("markov-lookup", [](Ctx &c) { prompt(c, true); }, o);
  return mc::finish();
}
