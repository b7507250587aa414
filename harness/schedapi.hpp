// The controlled scheduler for harnesses that are themselves compiled with -fsanitize=thread (see tsanrt.cpp).
#pragma once
#include <functional>
#include <map>
#include <string>
#include <vector>
namespace sched {
void event(const std::string&);     // notes an event
void enter(); void leave();         // between them nothing is tracked (harness code)
void simulate(bool);
void reset();                       // before a run
void record();                      // after it
void explore(std::map<std::string, std::string>& args, const std::function<void()>& runOnce);
void finish();                      // prints, ends the process
void mainLoop(void (*child)(std::map<std::string, std::string>&));
size_t living();                    // blocks allocated in this run and not released
struct Quiet { Quiet() { enter(); } ~Quiet() { leave(); } };
}  // namespace sched
