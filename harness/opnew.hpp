// The remaining forms of operator new and delete, in terms of the replaced ones (all storage comes from malloc).
#pragma once
#include <cstdlib>
#include <new>
void* operator new(size_t n, const std::nothrow_t&) noexcept { try { return operator new(n); } catch (...) { return nullptr; } }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { try { return operator new(n); } catch (...) { return nullptr; } }
void operator delete(void* p, const std::nothrow_t&) noexcept { free(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { free(p); }
static void* alignedNew(size_t n, std::align_val_t a) {
  operator delete(operator new(n));  // the same failures
  void* p = aligned_alloc((size_t)a, (n + (size_t)a - 1) / (size_t)a * (size_t)a);
  if (!p) throw std::bad_alloc();
  return p;
}
void* operator new(size_t n, std::align_val_t a) { return alignedNew(n, a); }
void* operator new[](size_t n, std::align_val_t a) { return alignedNew(n, a); }
void* operator new(size_t n, std::align_val_t a, const std::nothrow_t&) noexcept { try { return alignedNew(n, a); } catch (...) { return nullptr; } }
void* operator new[](size_t n, std::align_val_t a, const std::nothrow_t&) noexcept { try { return alignedNew(n, a); } catch (...) { return nullptr; } }
void operator delete(void* p, std::align_val_t) noexcept { free(p); }
void operator delete[](void* p, std::align_val_t) noexcept { free(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { free(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { free(p); }
