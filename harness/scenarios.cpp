#include "scenarios.hpp"
#include "../rt/mcrt.hpp"
#include <pwned-lib/operation.hpp>
#include <pwned-lib/operationqueue.hpp>
#include <pwned-lib/semaphore.hpp>
#include <pwned-lib/userpasswordreader.hpp>
#include <pwned-converter-cli/convertoperation.hpp>
#include <pwned-merger-cli/inputfile.hpp>
#include <pwned-merger-cli/mergeoperation.hpp>

// the program linked in, if any
int tool_main(int, const char *[]) __attribute__((weak));
int tool_main(int, char *[]) __attribute__((weak));

namespace scen {

// written by the operations, read by the main thread after it has waited for
// them: no synchronization but that of the queue
struct Results { long done[64] = {}; };

class TestOp : public pwned::Operation
{
  const int id;
  const OpSpec spec;
  Results &results;
  bool stop() const { return spec.heedsCancel && isCancelled; }

public:
  TestOp(int id, const OpSpec &spec, Results &results) : id(id), spec(spec), results(results) { priority = spec.prio; }
  ~TestOp() override { mcrt::note(Gone, id); }
  void execute() override
  {
    mcrt::event(Begin, id);
    for (int i = 0; i < spec.points; ++i)
    {
      if (stop()) break;
      mcrt::note(Pause, id);
      if (spec.style == 1) wait();
      else if (isPaused)
      {
        if (spec.style == 0) isPaused = false;
        wait();
      }
      if (stop()) break;
      mcrt::event(Work, id);
      results.done[id] += 1;
    }
    results.done[id] += 100;
    mcrt::event(End, id);
    if (spec.throws == 1) throw pwned::OperationException("test", 1);
    if (spec.throws == 2) throw 1;
  }
};

template <class Q>
static void command(Q &queue, char c)
{
  switch (c)
  {
  case 'e': queue.execute(); break;
  case 'E': queue.execute(true); break;
  case 'w': queue.waitForFinished(); break;
  case 's': queue.waitForScheduled(); break;
  case 'p': queue.pause(); break;
  case 'r': queue.resume(); break;
  case 'c': queue.cancel(); break;
  case 'x': queue.reset(); break;
  case 't': mcrt::settle(); break;
  case 'v': mcrt::point(); break;
  case 'f':
    mcrt::note(Failed, queue.hasFailed());
    mcrt::note(Running, queue.isRunning());
    mcrt::note(Cancelled, queue.isCancelled());
    break;
  case 'z': mcrt::note(Size, (int)queue.size()); break;
  // what the programs do when a key is pressed
  case ' ':
    if (queue.isRunning()) queue.pause();
    else queue.resume();
    break;
  case 'q':
    queue.resume();
    queue.cancel();
    break;
  }
}

template <class Q, class Add>
static void run(Q &queue, const std::string &mainScript, const std::string &userScript, Add add)
{
  std::thread user;
  auto startUser = [&] {
    user = std::thread([&queue, userScript] {
      for (size_t i = 0; i < userScript.size(); ++i)
      {
        const int id = (int)(i + 100) * 256 + userScript[i];
        mcrt::note(Call, id);
        command(queue, userScript[i]);
        mcrt::note(Ret, id);
      }
    });
  };
  for (size_t i = 0; i < mainScript.size(); ++i)
  {
    const int id = (int)i * 256 + mainScript[i];
    mcrt::note(Call, id);
    switch (mainScript[i])
    {
    case 'a': add(); break;
    case 'u': startUser(); break;
    case 'j': user.join(); break;
    default: command(queue, mainScript[i]);
    }
    mcrt::note(Ret, id);
  }
  if (user.joinable()) user.join();
}

void queue(const Script &s)
{
  Results results;
  {
    pwned::OperationQueue<pwned::Operation> q;
    int added = 0;
    run(q, s.main, s.user, [&] {
      q.add(new TestOp(added, s.ops[(size_t)added], results));
      ++added;
    });
  }
  long sum = 0;
  for (long r : results.done) sum += r;
  mcrt::note(Sum, (int)sum);
}

void semaphore(unsigned capacity, const std::vector<std::string> &threads)
{
  pwned::Semaphore *sem = new pwned::Semaphore(capacity); // outlives threads that stay blocked
  int id = 0;
  for (const auto &t : threads)
  {
    std::thread([sem, t, id] {
      for (char c : t)
      {
        if (c == 'w')
        {
          sem->wait();
          mcrt::note(Pass, id);
        }
        else
        {
          mcrt::note(Notify, id);
          sem->notify();
        }
      }
    }).detach();
    ++id;
  }
  mcrt::settle();
  mcrt::Quiet q; // the others are blocked or done
  mcrt::note(Size, (int)sem->capacity());
}

void convert(const std::vector<std::string> &files, const std::string &dst, const std::vector<unsigned long> &mem, const std::string &user)
{
  pwned::OperationQueue<ConvertOperation> q;
  size_t n = 0;
  std::string script(files.size(), 'a');
  script += user.empty() ? "Ew" : "uEwj";
  run(q, script, user, [&] {
    q.add(new ConvertOperation(files[n], dst, ".md5", mem[n % mem.size()], {}));
    ++n;
  });
  mcrt::note(Failed, q.hasFailed());
}

void merge(const std::vector<std::string> &files, const std::string &dst, bool removeInputs, const std::string &user)
{
  pwned::OperationQueue<merger::MergeOperation> q;
  run(q, user.empty() ? "aEw" : "auEwj", user, [&] {
    std::vector<merger::InputFile> in;
    for (const auto &f : files) in.emplace_back(f);
    q.add(new merger::MergeOperation(in, dst, removeInputs));
  });
  mcrt::note(Failed, q.hasFailed());
}

void mergePair(const std::vector<std::string> &files, const std::string &dst, const std::string &user)
{
  pwned::OperationQueue<merger::MergeOperation> q;
  int n = 0;
  run(q, user.empty() ? "aaEw" : "aauEwj", user, [&] {
    std::vector<merger::InputFile> in;
    for (size_t i = 0; i < 2; ++i) in.emplace_back(files[(size_t)n * 2 + i]);
    q.add(new merger::MergeOperation(in, dst + std::to_string(n), false));
    ++n;
  });
  mcrt::note(Failed, q.hasFailed());
}

bool haveTool() { return (int (*)(int, const char *[]))tool_main || (int (*)(int, char *[]))tool_main; }

void tool(const std::vector<std::string> &args)
{
  std::vector<const char *> argv;
  for (const auto &a : args) argv.push_back(a.c_str());
  argv.push_back(nullptr);
  int (*f)(int, const char *[]) = tool_main;
  int (*g)(int, char *[]) = tool_main;
  mcrt::note(Exit, f ? f((int)args.size(), argv.data()) : g((int)args.size(), const_cast<char **>(argv.data())));
}

} // namespace scen
