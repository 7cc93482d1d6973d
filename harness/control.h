// One thread at a time: the driver decides which thread goes on whenever one locks, unlocks, waits or enters
// a basic block of the library. Implemented by control.cpp, which is compiled without instrumentation.
#pragma once
#include <string>
#include <vector>
#include <functional>
namespace sched {
struct Config { std::string mode = "random"; unsigned seed = 1; double p = .2; int changes = 2; bool fine = false; std::vector<int> prefix; };
struct Choice { int chosen, current; std::vector<int> enabled; };
void run(Config const &c, std::vector<std::function<void()>> const &threads);   // on deadlock calls the handler, which must not return
extern std::function<void(std::string const&)> on_deadlock;
extern std::vector<Choice> choices;     // decisions at locks with more than one possibility
int self();                             // number of the thread from 0, -1 outside
void point();                           // a place where another thread may go on
struct Allow { bool old; explicit Allow(bool on); ~Allow(); };     // whether calls between here may be preempted
}
