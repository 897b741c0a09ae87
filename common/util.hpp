// Helpers shared by the harnesses: files, running tools, reference hash.
#pragma once
#include <openssl/md5.h>
#include <spawn.h>
#include <sys/syscall.h>
#include "mc.hpp"

inline void spit(const std::string &f, const std::string &s)
{
  int fd = ::open(f.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0666);
  if (fd < 0) throw std::runtime_error("harness cannot create " + f);
  mc::wrAll(fd, s);
  ::close(fd);
}
inline std::string slurp(const std::string &f)
{
  std::ifstream i(f, std::ios::binary);
  return std::string((std::istreambuf_iterator<char>(i)), {});
}
inline bool exists(const std::string &f) { return ::access(f.c_str(), F_OK) == 0; }

inline std::vector<std::string> listDir(const std::string &d)
{
  std::vector<std::string> r;
  DIR *p = ::opendir(d.c_str());
  if (!p) return r;
  while (dirent *e = ::readdir(p))
    if (strcmp(e->d_name, ".") && strcmp(e->d_name, "..")) r.push_back(e->d_name);
  ::closedir(p);
  std::sort(r.begin(), r.end());
  return r;
}

// independent of the code under test: big-endian halves of the MD5 digest
inline std::pair<uint64_t, uint64_t> refHash(const std::string &s)
{
#pragma GCC diagnostic push
#pragma GCC diagnostic ignored "-Wdeprecated-declarations"
  unsigned char d[16];
  ::MD5((const unsigned char *)s.data(), s.size(), d);
#pragma GCC diagnostic pop
  uint64_t a = 0, b = 0;
  for (int i = 0; i < 8; ++i) { a = a << 8 | d[i]; b = b << 8 | d[8 + i]; }
  return {a, b};
}
inline std::string refHex(const std::pair<uint64_t, uint64_t> &h)
{
  char b[40];
  snprintf(b, sizeof b, "%016" PRIx64 "%016" PRIx64, h.first, h.second);
  return b;
}
inline std::string record(const std::pair<uint64_t, uint64_t> &h, uint32_t n)
{
  std::string s;
  s.append((const char *)&h.first, 8);
  s.append((const char *)&h.second, 8);
  s.append((const char *)&n, 4);
  return s;
}

struct ToolRun
{
  bool exited = false, hung = false;
  int code = -1, sig = 0;
  std::string out, err;
  std::vector<std::string> args;
  bool ok() const { return exited && code == 0; }
  std::string text() const
  {
    std::string s;
    for (auto &a : args) s += a + " ";
    s += hung ? "-> does not end" : exited ? "-> exit status " + std::to_string(code) : "-> killed by signal " + std::to_string(sig);
    return s + "\nstdout: " + out.substr(out.size() > 600 ? out.size() - 600 : 0) + "\nstderr: " + err.substr(0, 600);
  }
};

// Runs a tool with its standard input taken from a string (or kept open by a
// pipe that never delivers anything), outputs captured in files of dir.
inline ToolRun runTool(const std::vector<std::string> &args, const std::string &dir, const std::string &in = "", const std::string &cwd = "",
                       double limit = 20, bool openStdin = false)
{
  ToolRun r;
  r.args = args;
  const std::string fi = dir + "/.in", fo = dir + "/.out", fe = dir + "/.err";
  if (!openStdin) spit(fi, in);
  int hold[2] = {-1, -1};
  if (openStdin && ::pipe2(hold, O_CLOEXEC)) throw std::runtime_error("pipe");
  if (openStdin && !in.empty()) mc::wrAll(hold[1], in);
  std::vector<char *> av;
  for (auto &a : args) av.push_back(const_cast<char *>(a.c_str()));
  av.push_back(nullptr);
  posix_spawn_file_actions_t fa;
  posix_spawn_file_actions_init(&fa);
  if (openStdin) posix_spawn_file_actions_adddup2(&fa, hold[0], 0);
  else posix_spawn_file_actions_addopen(&fa, 0, fi.c_str(), O_RDONLY, 0);
  posix_spawn_file_actions_addopen(&fa, 1, fo.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0666);
  posix_spawn_file_actions_addopen(&fa, 2, fe.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0666);
  posix_spawn_file_actions_addclosefrom_np(&fa, 3);
  if (!cwd.empty()) posix_spawn_file_actions_addchdir_np(&fa, cwd.c_str());
  pid_t pid = -1;
  const int rc = ::posix_spawn(&pid, av[0], &fa, nullptr, av.data(), environ);
  posix_spawn_file_actions_destroy(&fa);
  if (rc != 0) throw std::runtime_error("cannot execute " + args[0] + ": " + strerror(rc));
  int status = 0;
  mc::Patience patience(pid, limit);
  const int pfd = (int)::syscall(SYS_pidfd_open, pid, 0);
  for (;;)
  {
    if (::waitpid(pid, &status, WNOHANG) == pid) break;
    if (patience.over())
    {
      r.hung = true;
      ::kill(pid, SIGKILL);
      ::waitpid(pid, &status, 0);
      break;
    }
    if (pfd >= 0) { pollfd p{pfd, POLLIN, 0}; ::poll(&p, 1, 1000); }
    else ::usleep(300);
  }
  if (pfd >= 0) ::close(pfd);
  if (hold[0] >= 0) { ::close(hold[0]); ::close(hold[1]); }
  if (!r.hung && WIFEXITED(status)) { r.exited = true; r.code = WEXITSTATUS(status); }
  if (!r.hung && WIFSIGNALED(status)) r.sig = WTERMSIG(status);
  r.out = slurp(fo);
  r.err = slurp(fe);
  return r;
}
