// Controlled scheduler: the thread primitives are simulated (one thread runs at a time, the next
// one is chosen at every primitive), so that interleavings are enumerated, not hoped for.
#pragma once
#include <dlfcn.h>
#include <linux/futex.h>
#include <sched.h>
#include <stdarg.h>
#include <sys/syscall.h>
#include <errno.h>
#include <pthread.h>
#include <semaphore.h>
#include <signal.h>
#include <sys/wait.h>
#include <unistd.h>
#include <time.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>
#include <cstdint>
#include <functional>

using std::string;
using std::vector;

static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

// ------------------------------------------------------------------ scheduler
typedef vector<uint32_t> VC;  // vector clocks: what happened before
static void joinVC(VC& a, const VC& b) { if (a.size() < b.size()) a.resize(b.size()); for (size_t i = 0; i < b.size(); i++) if (a[i] < b[i]) a[i] = b[i]; }
static std::map<void*, VC> syncVC;
enum St { RUN, MUTEX, COND, JOIN, IDLE, DONE };
struct Thr {
  int id = 0; St st = RUN; void* m = nullptr; void* c = nullptr; bool signaled = false, timed = false; Thr* join = nullptr;
  sem_t sem; pthread_t real; void* (*fn)(void*) = nullptr; void* arg = nullptr; void* ret = nullptr; bool spur = false, outside = false;
  VC vc;
};
static bool g_on = false;  // simulation active
static thread_local Thr* self = nullptr;
static vector<Thr*> thr;
static Thr* cur = nullptr;
static std::map<void*, Thr*> owner;
static std::map<pthread_t, Thr*> byReal;

struct Dec { int chosen, n; bool curEn; bool forced; };
static vector<Dec> trace;     // decisions of this run
static vector<int> prefix;    // decisions to take first
static string slist;          // TLC schedule: 'M' / 'W' per step
static size_t spos = 0;
static int mode = 0;          // 0 default policy after prefix, 1 random, 2 list then random
static uint64_t rs = 1;
static int switchPct = 50, spurBudget = 0, spurUsed = 0;
static uint64_t rnd() { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return rs * 2685821657736338717ull >> 11; }
static uint64_t steps = 0;
static volatile uint64_t beat = 0;

static void hangReport(const char* why);
static vector<string> ev;
static bool g_free = false;   // real threads, no control: only when the code waits in a way that is not simulated
static pthread_mutex_t evMutex = PTHREAD_MUTEX_INITIALIZER;
static void evt(const string& s) {
  if (!g_free) { ev.push_back(s); return; }
  static auto lk = (int (*)(pthread_mutex_t*))dlsym(RTLD_NEXT, "pthread_mutex_lock");
  static auto ul = (int (*)(pthread_mutex_t*))dlsym(RTLD_NEXT, "pthread_mutex_unlock");
  lk(&evMutex); ev.push_back(s); ul(&evMutex);
}
#define SIM(x) g_on = (x) && !g_free

static void hbAcquire(Thr* t, void* m) { auto it = syncVC.find(m); if (it != syncVC.end()) joinVC(t->vc, it->second); }
static void hbTick(Thr* t) { if (t->vc.size() <= (size_t)t->id) t->vc.resize(t->id + 1); t->vc[t->id]++; }
static void hbRelease(Thr* t, void* m) { joinVC(syncVC[m], t->vc); hbTick(t); }
static bool g_yield = false;
static bool enabled(Thr* t) {
  switch (t->st) {
    case RUN: return true;
    case MUTEX: return owner.find(t->m) == owner.end();
    case COND: return t->signaled && (!t->m || owner.find(t->m) == owner.end());
    case JOIN: return t->join->st == DONE;
    default: return false;
  }
}
// picks the next thread; the caller has set its own state
static Thr* pick() {
  if (++steps > 2000000) hangReport("no end");
  vector<Thr*> op;
  bool curEn = cur && enabled(cur);
  bool last = curEn && g_yield;  // a thread that yields lets the others go first
  g_yield = false;
  if (curEn && !last) op.push_back(cur);
  for (auto* t : thr) if (t != cur && enabled(t)) op.push_back(t);
  if (last) { op.push_back(cur); curEn = false; }
  if (op.empty()) for (auto* t : thr) if (t->st == IDLE) { op.push_back(t); break; }
  size_t real = op.size();
  if (real && spurUsed < spurBudget)
    for (auto* t : thr) if (t->st == COND && !t->signaled && t->m && owner.find(t->m) == owner.end()) op.push_back(t);
  if (op.empty()) {  // timed waits can always time out
    for (auto* t : thr) if (t->st == COND && t->timed) { op.push_back(t); real = 1; break; }
  }
  if (op.empty()) hangReport("deadlock");
  int k = 0;
  if (trace.size() < prefix.size()) k = std::min<int>(prefix[trace.size()], op.size() - 1);
  else if (mode == 1) { if (op.size() > 1 && (!curEn || int(rnd() % 100) < switchPct)) k = rnd() % op.size(); }
  else if (mode == 2) {
    if (spos < slist.size()) {
      bool wantMain = slist[spos++] == 'M';
      k = -1;
      for (size_t i = 0; i < real; i++) if ((op[i]->id == 0) == wantMain) { k = i; break; }
      if (k < 0) k = 0;
    } else k = rnd() % real;
  }
  trace.push_back({k, (int)op.size(), curEn, false});
  Thr* t = op[k];
  if (t->st == COND && !t->signaled) { if (size_t(k) >= real) spurUsed++; t->spur = true; }
  return t;
}
static void acquireOnResume(Thr* t) {
  if (t->st == MUTEX || (t->st == COND && t->m)) { owner[t->m] = t; hbAcquire(t, t->m); }
  if (t->st == COND && !t->m) hbAcquire(t, t->c);
  if (t->st == JOIN) joinVC(t->vc, t->join->vc);
  t->st = RUN; t->signaled = false;
}
static void switchTo(Thr* t) {
  Thr* me = self;
  cur = t;
  beat = beat + 1;
  if (t != me) {
    sem_post(&t->sem);
    while (sem_wait(&me->sem)) {}
  }
  acquireOnResume(me);
}
static void reschedule() { switchTo(pick()); }
static void point() { if (g_on && self) { self->st = RUN; reschedule(); } }

// ------------------------------------------------------------------ interposed primitives
template <class F> static F realf(const char* n) { return (F)dlsym(RTLD_NEXT, n); }
#define REAL(ret, name, ...) static ret (*r_##name)(__VA_ARGS__) = nullptr; if (!r_##name) r_##name = realf<ret (*)(__VA_ARGS__)>(#name)
static bool simulated() { return g_on && self; }
static thread_local int inHook = 0;  // allocations of the harness do not count
struct Hook { Hook() { inHook++; } ~Hook() { inHook--; } };

static int createN = 0;
static std::set<int> createFail;
static void* tramp(void* p) {
  Thr* t = (Thr*)p;
  self = t;
  while (sem_wait(&t->sem)) {}
  t->st = RUN;
  t->ret = t->fn(t->arg);
  Hook hook;
  t->st = DONE;
  Thr* n = pick();
  cur = n;
  beat = beat + 1;
  sem_post(&n->sem);
  self = nullptr;
  return t->ret;
}
extern "C" {
int pthread_mutex_lock(pthread_mutex_t* m) noexcept {
  REAL(int, pthread_mutex_lock, pthread_mutex_t*);
  Hook hook;
  if (!simulated()) return r_pthread_mutex_lock(m);
  if (owner.count(m) && owner[m] == self) hangReport("self-deadlock");
  self->st = MUTEX; self->m = m;
  reschedule();
  return 0;
}
int pthread_mutex_trylock(pthread_mutex_t* m) noexcept {
  REAL(int, pthread_mutex_trylock, pthread_mutex_t*);
  Hook hook;
  if (!simulated()) return r_pthread_mutex_trylock(m);
  point();
  if (owner.count(m)) return EBUSY;
  owner[m] = self;
  hbAcquire(self, m);
  return 0;
}
int pthread_mutex_unlock(pthread_mutex_t* m) noexcept {
  REAL(int, pthread_mutex_unlock, pthread_mutex_t*);
  Hook hook;
  if (!simulated()) return r_pthread_mutex_unlock(m);
  owner.erase(m);
  hbRelease(self, m);
  point();
  return 0;
}
static int condWait(void* c, void* m, bool timed) {
  point();
  owner.erase(m);
  hbRelease(self, m);
  self->st = COND; self->c = c; self->m = m; self->signaled = false; self->timed = timed; self->spur = false;
  reschedule();
  return timed && self->spur ? ETIMEDOUT : 0;
}
static void condWait2(void* c, bool timed) {  // a futex: no mutex to take back
  self->st = COND; self->c = c; self->m = nullptr; self->signaled = false; self->timed = timed; self->spur = false;
  reschedule();
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
  REAL(int, pthread_cond_wait, pthread_cond_t*, pthread_mutex_t*);
  Hook hook;
  if (!simulated()) return r_pthread_cond_wait(c, m);
  return condWait(c, m, false);
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const timespec* t) {
  REAL(int, pthread_cond_timedwait, pthread_cond_t*, pthread_mutex_t*, const timespec*);
  Hook hook;
  if (!simulated()) return r_pthread_cond_timedwait(c, m, t);
  return condWait(c, m, true);
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const timespec* t) {
  REAL(int, pthread_cond_clockwait, pthread_cond_t*, pthread_mutex_t*, clockid_t, const timespec*);
  Hook hook;
  if (!simulated()) return r_pthread_cond_clockwait(c, m, k, t);
  return condWait(c, m, true);
}
int pthread_cond_signal(pthread_cond_t* c) noexcept {
  REAL(int, pthread_cond_signal, pthread_cond_t*);
  Hook hook;
  if (!simulated()) return r_pthread_cond_signal(c);
  point();
  for (auto* t : thr) if (t->st == COND && t->c == c && !t->signaled) { t->signaled = true; break; }
  point();
  return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c) noexcept {
  REAL(int, pthread_cond_broadcast, pthread_cond_t*);
  Hook hook;
  if (!simulated()) return r_pthread_cond_broadcast(c);
  point();
  for (auto* t : thr) if (t->st == COND && t->c == c) t->signaled = true;
  point();
  return 0;
}
int pthread_cond_destroy(pthread_cond_t* c) noexcept {
  REAL(int, pthread_cond_destroy, pthread_cond_t*);
  Hook hook;
  if (simulated()) {
    for (auto* t : thr) if (t->st == COND && t->c == c && !t->signaled) hangReport("condition variable destroyed while a thread waits on it");
    return 0;
  }
  return r_pthread_cond_destroy(c);
}
int pthread_create(pthread_t* out, const pthread_attr_t* a, void* (*fn)(void*), void* arg) noexcept {
  REAL(int, pthread_create, pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
  Hook hook;
  if (!simulated()) return r_pthread_create(out, a, fn, arg);
  point();
  int k = ++createN;
  if (createFail.count(k)) { evt("[\"fault\"]"); return EAGAIN; }
  Thr* t = new Thr();
  t->id = thr.size(); t->fn = fn; t->arg = arg;
  sem_init(&t->sem, 0, 0);
  t->vc = self->vc;
  hbTick(t);
  hbTick(self);
  thr.push_back(t);
  int rc = r_pthread_create(&t->real, a, tramp, t);
  if (rc) { thr.pop_back(); return rc; }
  *out = t->real;
  byReal[t->real] = t;
  point();
  return 0;
}
int pthread_rwlock_rdlock(pthread_rwlock_t* m) noexcept {
  REAL(int, pthread_rwlock_rdlock, pthread_rwlock_t*);
  Hook hook;
  return simulated() ? pthread_mutex_lock((pthread_mutex_t*)m) : r_pthread_rwlock_rdlock(m);
}
int pthread_rwlock_wrlock(pthread_rwlock_t* m) noexcept {
  REAL(int, pthread_rwlock_wrlock, pthread_rwlock_t*);
  Hook hook;
  return simulated() ? pthread_mutex_lock((pthread_mutex_t*)m) : r_pthread_rwlock_wrlock(m);
}
int pthread_rwlock_unlock(pthread_rwlock_t* m) noexcept {
  REAL(int, pthread_rwlock_unlock, pthread_rwlock_t*);
  Hook hook;
  return simulated() ? pthread_mutex_unlock((pthread_mutex_t*)m) : r_pthread_rwlock_unlock(m);
}
int sched_yield() noexcept {
  REAL(int, sched_yield, void);
  Hook hook;
  if (!simulated()) return r_sched_yield();
  g_yield = true;
  point();
  return 0;
}
long syscall(long no, ...) noexcept {  // std::atomic::wait, semaphores, futures
  va_list ap;
  va_start(ap, no);
  long a[6];
  for (auto& x : a) x = va_arg(ap, long);
  va_end(ap);
  static long (*r)(long, ...) = nullptr;
  if (!r) r = (long (*)(long, ...))dlsym(RTLD_NEXT, "syscall");
  if (!simulated() || no != SYS_futex) return r(no, a[0], a[1], a[2], a[3], a[4], a[5]);
  Hook hook;
  int* addr = (int*)a[0];
  int fop = a[1] & 127;
  if (fop == FUTEX_WAIT || fop == FUTEX_WAIT_BITSET) {
    point();
    if (*(volatile int*)addr != (int)a[2]) { errno = EAGAIN; return -1; }
    condWait2(addr, a[3] != 0);
    return 0;
  }
  if (fop == FUTEX_WAKE || fop == FUTEX_WAKE_BITSET) {
    point();
    hbRelease(self, addr);
    long n = 0;
    for (auto* t : thr) if (t->st == COND && t->c == addr && !t->signaled && n < a[2]) { t->signaled = true; n++; }
    point();
    return n;
  }
  return r(no, a[0], a[1], a[2], a[3], a[4], a[5]);
}
int pthread_join(pthread_t p, void** ret) {
  REAL(int, pthread_join, pthread_t, void**);
  Hook hook;
  if (!simulated()) return r_pthread_join(p, ret);
  auto it = byReal.find(p);
  if (it == byReal.end()) return r_pthread_join(p, ret);
  self->st = JOIN; self->join = it->second;
  reschedule();
  byReal.erase(p);
  return r_pthread_join(p, ret);
}
}  // extern "C"

// ------------------------------------------------------------------ reporting
static string g_id, g_scn, g_faults;
static string schedStr() { string s; for (auto& d : trace) s += char('0' + std::min(d.chosen, 9)); return s; }
static std::map<string, std::pair<int, string>> seenEv;  // history -> count, schedule
static uint64_t g_runs = 0, g_steps = 0;
static bool g_complete = false;
static vector<int> g_spurAt;
static void printOut() {
  std::ostringstream o;
  o << "{\"id\":\"" << g_id << "\",\"ok\":true,\"runs\":" << g_runs << ",\"steps\":" << g_steps << ",\"complete\":" << (g_complete ? "true" : "false") << ",\"hist\":[";
  bool f = true;
  for (auto& kv : seenEv) { o << (f ? "" : ",") << "{\"ev\":" << kv.first << ",\"n\":" << kv.second.first << ",\"sched\":\"" << kv.second.second << "\"}"; f = false; }
  o << "]}\n";
  string s = o.str();
  size_t off = 0;
  while (off < s.size()) { ssize_t w = write(1, s.data() + off, s.size() - off); if (w <= 0) break; off += w; }
}
static string evJson() { string h = "["; for (size_t i = 0; i < ev.size(); i++) h += (i ? "," : "") + ev[i]; return h + "]"; }
static void hangReport(const char* why) {
  evt(string("[\"hang\",\"") + why + "\"]");
  seenEv[evJson()] = {1, schedStr()};
  g_runs++;
  printOut();
  _exit(0);
}
static void onCrash(int sig) {
  evt("[\"hang\",\"crash " + std::to_string(sig) + "\"]");
  seenEv[evJson()] = {1, schedStr()};
  printOut();
  _exit(0);
}

static void resetSched() {
  trace.clear(); ev.clear(); steps = 0; spos = 0; spurUsed = 0; createN = 0; owner.clear(); byReal.clear();
  for (auto* t : thr) if (t->id) { sem_destroy(&t->sem); delete t; }
  thr.clear();
  static Thr mainT;
  static bool init = false;
  if (!init) { sem_init(&mainT.sem, 0, 0); init = true; }
  mainT.id = 0; mainT.st = RUN; mainT.vc.assign(1, 1);
  syncVC.clear();
  thr.push_back(&mainT);
  self = cur = &mainT;
}
static void recordRun() {
  g_runs++;
  g_steps += steps;
  auto& x = seenEv[evJson()];
  if (!x.first) x.second = schedStr();
  x.first++;
}

static vector<string> split(const string& s, char c) { vector<string> r; string cur; for (char x : s) { if (x == c) { r.push_back(cur); cur.clear(); } else cur += x; } r.push_back(cur); return r; }

static void explore(std::map<string, string>& a, const std::function<void()>& runOnce) {
  spurBudget = a.count("spur") ? std::stoi(a["spur"]) : 0;
  double budget = std::stod(a["ms"]) / 1000, t0 = now();
  uint64_t maxRuns = std::stoull(a["runs"]);
  for (int sig : {SIGSEGV, SIGBUS, SIGABRT, SIGFPE, SIGILL}) signal(sig, onCrash);
  string m = a["mode"];
  if (m == "dfs") {
    int pb = std::stoi(a["pb"]);
    mode = 0;
    prefix.clear();
    while (true) {
      runOnce();
      // next: last decision that can be moved on within the preemption bound
      vector<int> cost(trace.size() + 1, 0);
      auto c1 = [&](const Dec& d, int k) { return (d.curEn && k > 0) ? 1 : 0; };
      for (size_t i = 0; i < trace.size(); i++) cost[i + 1] = cost[i] + c1(trace[i], trace[i].chosen);
      int i = (int)trace.size() - 1;
      for (; i >= 0; i--) if (trace[i].chosen + 1 < trace[i].n && cost[i] + c1(trace[i], trace[i].chosen + 1) <= pb) break;
      if (i < 0) { g_complete = true; break; }
      if (g_runs >= maxRuns || now() - t0 > budget) break;
      prefix.resize(i + 1);
      for (int k = 0; k < i; k++) prefix[k] = trace[k].chosen;
      prefix[i] = trace[i].chosen + 1;
    }
  } else if (m == "rnd" || m == "list") {
    rs = std::stoull(a["seed"]) * 0x9E3779B97F4A7C15ull + 1;
    vector<string> lists = m == "list" ? split(a["lists"], ',') : vector<string>();
    for (uint64_t k = 0; k < maxRuns; k++) {
      if (now() - t0 > budget) break;
      static const int pct[] = {5, 20, 50, 80};
      switchPct = pct[k % 4];
      mode = m == "list" ? 2 : 1;
      if (m == "list") { if (k >= lists.size()) { g_complete = true; break; } slist = lists[k]; }
      runOnce();
    }
  } else if (m == "free") {
    g_free = true;
    for (uint64_t k = 0; k < maxRuns && now() - t0 < budget; k++) runOnce();
  } else {  // replay of one schedule
    mode = 0;
    for (char c : a["sched"]) prefix.push_back(c - '0');
    runOnce();
  }
  printOut();
  _exit(0);
}

static void mainLoop(void (*child)(std::map<string, string>&)) {
  string line;
  while (std::getline(std::cin, line)) {
    std::istringstream is(line);
    string op, kv;
    is >> g_id >> op;
    std::map<string, string> a;
    while (is >> kv) { auto e = kv.find('='); a[kv.substr(0, e)] = kv.substr(e + 1); }
    fflush(stdout);
    pid_t pid = fork();
    if (!pid) child(a);
    int st = 0;
    double lim = now() + std::stod(a["ms"]) / 1000 + 25;
    bool killed = false;
    while (waitpid(pid, &st, WNOHANG) == 0) {
      usleep(2000);
      if (now() > lim) { kill(pid, SIGKILL); waitpid(pid, &st, 0); killed = true; break; }
    }
    if (killed || !WIFEXITED(st)) { printf("{\"id\":\"%s\",\"ok\":false,\"ex\":\"%s\"}\n", g_id.c_str(), killed ? "stuck" : "crash"); fflush(stdout); }
  }
}
