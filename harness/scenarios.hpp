// Scenarios run under the controlled scheduler (compiled with access
// instrumentation); the oracles in sched.cpp only see the event log.
#pragma once
#include <string>
#include <vector>

namespace scen {

enum Kind
{
  Begin = 1, // an operation's execute() begins
  Pause,     // it arrives at a pause point
  Work,      // it does something behind the pause point
  End,       // execute() ends
  Gone,      // the operation has been destroyed
  Call,      // a command begins; id: 256 * index + command
  Ret,       // the command has returned
  Failed,    // value of hasFailed()
  Running,   // value of isRunning()
  Cancelled, // value of isCancelled()
  Size,      // value of size()
  Sum,       // sum of the results the operations have written
  Pass,      // a waiter has passed the semaphore
  Notify,    // a notification is about to be made
  Exit,      // exit code
  Spare
};

struct OpSpec
{
  int points = 0;        // pause points in execute()
  int style = 0;         // 0: wait() if the flag is set (as the real operations), 1: always wait(), 2: the flag is left set
  int throws = 0;        // execute() ends by an exception: 1 derived from std::exception, 2 of another type
  long long prio = 0;
  bool heedsCancel = true;
};

// commands: a add the next operation, e execute, E execute(true), w wait for
// all, s wait until scheduled, p pause, r resume, c cancel, x reset, t let
// the others go on until they block, v scheduling point, f log the flags,
// z log the size, u start the user thread, j join the user thread
struct Script
{
  std::string main, user;
  std::vector<OpSpec> ops;
};

void queue(const Script &s);
void semaphore(unsigned capacity, const std::vector<std::string> &threads); // per thread: 'w' wait, 'n' notify
// converter operations in a queue; user script as above
void convert(const std::vector<std::string> &files, const std::string &dst, const std::vector<unsigned long> &mem, const std::string &user);
void merge(const std::vector<std::string> &files, const std::string &dst, bool removeInputs, const std::string &user);
void mergePair(const std::vector<std::string> &files, const std::string &dst, const std::string &user); // files 0, 1 into dst0, 2, 3 into dst1
bool haveTool();
void tool(const std::vector<std::string> &args); // main() of the program

} // namespace scen
