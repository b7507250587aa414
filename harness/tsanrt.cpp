// The controlled scheduler and what -fsanitize=thread calls, for instrumented harnesses.
#include "tsanrt.hpp"
#include "schedapi.hpp"
void* operator new(size_t n) { return trackedNew(n); }
void* operator new[](size_t n) { return trackedNew(n); }
void operator delete(void* p) noexcept { trackedDelete(p); }
void operator delete[](void* p) noexcept { trackedDelete(p); }
void operator delete(void* p, size_t) noexcept { trackedDelete(p); }
void operator delete[](void* p, size_t) noexcept { trackedDelete(p); }
#define free(p) trackedDelete(p)
#include "opnew.hpp"
#undef free
namespace sched {
void event(const string& s) { Hook h; evt(s); }
void enter() { inHook++; }
void leave() { inHook--; }
void simulate(bool b) { SIM(b); }
void reset() { resetSched(); resetMemory(); }
void record() { recordRun(); }
void explore(std::map<string, string>& a, const std::function<void()>& f) { ::explore(a, f); }
void finish() { printOut(); _exit(0); }
void mainLoop(void (*c)(std::map<string, string>&)) { ::mainLoop(c); }
size_t living() { return g_live.size(); }
}  // namespace sched
