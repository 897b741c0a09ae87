// Scenarios of the web service under the controlled scheduler.
#pragma once
#include <string>
#include <vector>

namespace serve {

struct Client
{
  std::string request; // what it sends
  bool must = true;    // it has to get the response; else the response or none
  int status = 200;    // of the response
  std::string hash;    // of a lookup
  long found = 0;      // the count stored
};

struct Script
{
  int workers = 1, threads = 2;
  bool logs = false;    // the workers write a log
  bool program = false; // main() of the program sets the service up
  int unit = 0;         // tells the addresses of parallel executions apart
  std::vector<Client> clients;
  // steps of the clients: c<i> connect, s<i> send everything, h<i> send the
  // first half, r<i> send the rest, x<i> close, z<i> reset, t let the service
  // go on until it waits, + 60 s pass, - 59 s pass, 1 one second
  std::string steps;
};

struct Outcome
{
  std::vector<std::string> got;
  std::vector<bool> ended;   // the service has ended the connection
  std::vector<std::string> log;
  std::string out;           // of the program
};

void run(const Script &s, const std::string &db, const std::string &index, Outcome &o);

} // namespace serve
