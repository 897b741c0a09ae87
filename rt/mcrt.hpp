// Controlled scheduler: runs the threads of a scenario one at a time, draws
// every scheduling decision from the explorer, and checks memory accesses.
#pragma once
#include <cstdint>
#include <string>
#include <vector>
#include "../common/mc.hpp"

namespace mcrt {

struct Event { int kind = 0, id = 0, thread = 0; };

struct Config
{
  int preemptions = 2;     // deviations from running the current thread on
  int spurious = 0;        // spurious wakeups
  int freeChoices = 1000;  // deviations where the current thread cannot go on
  int nprocs = 2;          // hardware threads
  unsigned maxSteps = 20000;
  unsigned shardAt = 2;    // the work is divided at this deviation
  bool races = false;      // check accesses and lifetimes
  bool files = false;      // calls on files are scheduling points
  bool clock = false;      // the clock only advances by advance()
  std::string keys;        // delivered by getchar, then end of file
  std::vector<int> gates;  // when: 0 at any time, n > 0 after the n-th call of allowKey(), -1 when no thread can go on
  std::function<void(size_t number)> onKeyWait; // a key is asked for: those before have been dealt with
  std::function<void(size_t number, bool idle)> onKey; // before a key is delivered; may throw mc::Fail
  std::function<void(const std::string &what, const std::string &path)> onFile; // before a call on a file; may throw mc::Fail
};

struct Result
{
  std::vector<Event> events;
  std::vector<std::string> unfinished; // threads that had not ended with the scenario
  uint64_t steps = 0;
};

using Oracle = std::function<void(mc::Ctx &, const Result &)>;

// Called in the body of an exploration: one execution in a process of its own.
// The oracle is called in that process after the scenario has returned.
void execute(mc::Ctx &c, const Config &cfg, const std::function<void()> &scenario, const Oracle &oracle);

// called by scenarios
void event(int kind, int id = 0); // log entry; also a scheduling point before it
void note(int kind, int id = 0);  // log entry only
void point();                     // scheduling point
void settle();                    // let the others go on until none can
void allowKey();                  // opens the next gate
void advance(double seconds);     // the controlled clock
unsigned choose(unsigned n);      // free choice
int eventsSoFar(int kind, int id = -1);

// turns the checking of accesses off in a block of the harness
struct Quiet { Quiet(); ~Quiet(); };

std::string where(uintptr_t pc);

} // namespace mcrt
