// What a compiler calls before memory accesses under -fsanitize=thread, on top of the controlled scheduler:
// accesses to memory that several threads use are scheduling points, accesses that are not ordered by
// synchronisation are reported as races, accesses to released storage as such.  Storage released during a
// run is kept until its end, so that addresses are not reused.
#pragma once
#include "sched.hpp"
#include <unordered_map>

struct Cell { uint32_t wt = 0, we = 0; VC r; bool shared = false; int first = -1; };
static std::unordered_map<uintptr_t, Cell> g_cells;
static std::map<uintptr_t, size_t> g_freed;          // of this run
static std::vector<void*> g_quarantine;
static std::map<uintptr_t, size_t> g_live;           // allocated and not released in this run
static size_t g_liveBytes = 0;
static bool g_told = false;
static bool tracking() { return g_on && self && !inHook; }
static void tell(const char* what) { if (!g_told) { g_told = true; evt(string("[\"") + what + "\"]"); } }
static bool wasFreed(uintptr_t a) {
  auto it = g_freed.upper_bound(a);
  if (it == g_freed.begin()) return false;
  --it;
  return a < it->first + it->second;
}
static bool before(uint32_t t, uint32_t e) { return self->vc.size() > t && self->vc[t] >= e; }
static bool touch(uintptr_t a, size_t n, bool write) {  // -> used by another thread, too
  if (!g_freed.empty() && wasFreed(a)) tell("released");
  bool sh = false;
  for (size_t i = 0; i < n; i++) {
    Cell& c = g_cells[a + i];
    if (c.first < 0) c.first = self->id;
    if (c.first != self->id) c.shared = true;
    sh |= c.shared;
    if (c.we && c.wt != (uint32_t)self->id && !before(c.wt, c.we)) tell("race");
    if (write) {
      for (size_t t = 0; t < c.r.size(); t++) if (c.r[t] && t != (size_t)self->id && !before(t, c.r[t])) tell("race");
      c.r.clear();
      c.wt = self->id;
      c.we = self->vc[self->id];
    } else {
      if (c.r.size() <= (size_t)self->id) c.r.resize(self->id + 1);
      c.r[self->id] = self->vc[self->id];
    }
  }
  return sh;
}
// the same access again, nothing having happened in between, tells nothing new
struct Seen { uintptr_t key = 0; uint32_t tid = 0, at = 0; };
static Seen g_seen[8192];
static void access(void* p, size_t n, bool write) {
  if (!tracking()) return;
  uintptr_t key = ((uintptr_t)p << 6) | (n << 1) | write;
  Seen& seen = g_seen[((uintptr_t)p * 2 + write) & 8191];
  if (seen.key == key && seen.tid == (uint32_t)self->id && seen.at == self->vc[self->id]) return;
  char here;
  if (self->id && (uintptr_t)p - ((uintptr_t)&here - 4096) < 65536) return;  // the thread's own stack
  Hook h;
  bool sh = touch((uintptr_t)p, n, write);
  seen = {key, (uint32_t)self->id, self->vc[self->id]};
  if (sh) point();
}
static void atomicAccess(void* p, bool load = false) {
  if (!tracking()) return;
  Hook h;
  static void* last = nullptr;
  static Thr* who = nullptr;
  if (load && last == p && who == self) g_yield = true;  // waiting by looking again and again
  last = load ? p : nullptr;
  who = self;
  if (!g_freed.empty() && wasFreed((uintptr_t)p)) tell("released");
  point();
  hbAcquire(self, p);
  hbRelease(self, p);
}
static void resetMemory() {
  memset((void*)g_seen, 0, sizeof g_seen);
  for (void* p : g_quarantine) free(p);
  g_quarantine.clear(); g_freed.clear(); g_cells.clear(); g_live.clear(); g_liveBytes = 0; g_told = false;
}
static void* trackedNew(size_t n) {
  void* p = malloc(n ? n : 1);
  if (!p) throw std::bad_alloc();
  if (tracking()) { Hook h; g_live[(uintptr_t)p] = n; g_liveBytes += n; }
  return p;
}
static void trackedDelete(void* p) noexcept {
  if (!p) return;
  if (tracking()) {
    Hook h;
    auto it = g_live.find((uintptr_t)p);
    if (it != g_live.end()) {
      touch((uintptr_t)p, std::min<size_t>(it->second, 64), true);
      g_freed[it->first] = it->second; g_liveBytes -= it->second;
      memset(p, 0xDD, it->second);
      g_quarantine.push_back(p);
      g_live.erase(it);
      return;
    }
    if (wasFreed((uintptr_t)p)) { tell("released twice"); return; }
  }
  else if (!g_live.empty()) { auto it = g_live.find((uintptr_t)p); if (it != g_live.end()) { g_liveBytes -= it->second; g_live.erase(it); } }
  free(p);
}

extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define RW(n) void __tsan_read##n(void* p) { access(p, n, false); } void __tsan_write##n(void* p) { access(p, n, true); } \
  void __tsan_unaligned_read##n(void* p) { access(p, n, false); } void __tsan_unaligned_write##n(void* p) { access(p, n, true); } \
  void __tsan_volatile_read##n(void* p) { access(p, n, false); } void __tsan_volatile_write##n(void* p) { access(p, n, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, size_t n) { access(p, std::min<size_t>(n, 256), false); }
void __tsan_write_range(void* p, size_t n) { access(p, std::min<size_t>(n, 256), true); }
void __tsan_vptr_update(void** p, void* v) { access(p, 8, true); }
void __tsan_vptr_read(void** p) { access(p, 8, false); }
#define AT(bits, T) \
  T __tsan_atomic##bits##_load(const volatile T* p, int) { atomicAccess((void*)p, true); return __atomic_load_n(p, __ATOMIC_SEQ_CST); } \
  void __tsan_atomic##bits##_store(volatile T* p, T v, int) { atomicAccess((void*)p); __atomic_store_n(p, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##bits##_exchange(volatile T* p, T v, int) { atomicAccess((void*)p, true); return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##bits##_fetch_add(volatile T* p, T v, int) { atomicAccess((void*)p); return __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##bits##_fetch_sub(volatile T* p, T v, int) { atomicAccess((void*)p); return __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##bits##_fetch_and(volatile T* p, T v, int) { atomicAccess((void*)p); return __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##bits##_fetch_or(volatile T* p, T v, int) { atomicAccess((void*)p); return __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##bits##_fetch_xor(volatile T* p, T v, int) { atomicAccess((void*)p); return __atomic_fetch_xor(p, v, __ATOMIC_SEQ_CST); } \
  int __tsan_atomic##bits##_compare_exchange_strong(volatile T* p, T* e, T v, int, int) { atomicAccess((void*)p, true); return __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
  int __tsan_atomic##bits##_compare_exchange_weak(volatile T* p, T* e, T v, int, int) { atomicAccess((void*)p, true); return __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##bits##_compare_exchange_val(volatile T* p, T e, T v, int, int) { atomicAccess((void*)p); __atomic_compare_exchange_n(p, &e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return e; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int) { static int fence; atomicAccess(&fence); }
void __tsan_atomic_signal_fence(int) {}
int __real___cxa_guard_acquire(uint64_t*);
void __real___cxa_guard_release(uint64_t*);
int __wrap___cxa_guard_acquire(uint64_t* g) { if (tracking()) { Hook h; hbAcquire(self, g); } return __real___cxa_guard_acquire(g); }
void __wrap___cxa_guard_release(uint64_t* g) { if (tracking()) { Hook h; hbRelease(self, g); } __real___cxa_guard_release(g); }
}

