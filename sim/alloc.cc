// The simulated allocator: every allocation made inside a library call is counted, filled with a
// chosen byte pattern (so that reads of uninitialised memory show), and can be made to fail.
#include <unistd.h>

#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <new>

#include "exec.h"

thread_local bool g_in_sut = false;
thread_local long g_alloc_count = 0;
thread_local long g_alloc_fail_at = -1;
thread_local unsigned char g_alloc_pattern = 0xA5;
thread_local long g_live = 0;
uint64_t g_alloc_failures = 0;

// Blocks handed out inside library calls and not yet freed (open addressing, pointers only).
static bool g_track = false;
static void** g_tab = nullptr;
static size_t g_cap = 0, g_used = 0;
static long g_out = 0;
static size_t Slot(void* p) { return (reinterpret_cast<uintptr_t>(p) >> 4) * 0x9e3779b97f4a7c15ull % g_cap; }
static void Insert(void* p) {
  if (g_used * 2 >= g_cap) {
    void** old = g_tab;
    size_t oc = g_cap;
    g_cap = oc ? oc * 2 : 4096;
    g_tab = static_cast<void**>(calloc(g_cap, sizeof(void*)));
    g_used = 0;
    for (size_t i = 0; i < oc; ++i)
      if (old[i] && old[i] != reinterpret_cast<void*>(1)) {
        size_t s = Slot(old[i]);
        while (g_tab[s]) s = (s + 1) % g_cap;
        g_tab[s] = old[i];
        ++g_used;
      }
    free(old);
  }
  size_t s = Slot(p);
  while (g_tab[s] && g_tab[s] != reinterpret_cast<void*>(1)) s = (s + 1) % g_cap;
  if (!g_tab[s]) ++g_used;
  g_tab[s] = p;
  ++g_out;
}
static void Remove(void* p) {
  if (!p || !g_cap) return;
  for (size_t s = Slot(p); g_tab[s]; s = (s + 1) % g_cap)
    if (g_tab[s] == p) {
      g_tab[s] = reinterpret_cast<void*>(1);
      --g_out;
      return;
    }
}
void LeakTrack(bool on) { g_track = on; }
long LeakOutstanding() { return g_out; }
static void Put(void* p) {
  if (g_track) Remove(p);
  free(p);
}

[[noreturn]] static void OutOfMemory() {
  static const char m[] = "SIM-OUT-OF-MEMORY\n";
  if (write(2, m, sizeof m - 1) < 0) {}
  _exit(99);
}
static void* Get(size_t n, size_t align, bool may_throw = true) {
  if (g_in_sut) {
    long k = g_alloc_count++;
    if (k == g_alloc_fail_at && may_throw) {
      ++g_alloc_failures;
      throw std::bad_alloc();
    }
  }
  // What the library asks for in one call counts against it; memory that the simulation itself
  // has used up (recorded results, twins) decides nothing.
  thread_local size_t asked = 0;
  if (g_in_sut) asked = (g_alloc_count == 1 ? 0 : asked) + (n < (size_t(1) << 40) ? n : size_t(1) << 40);
  if (n > (size_t(1) << 30)) {
    if (!g_in_sut) OutOfMemory();
    throw std::bad_alloc();
  }
  void* p = align > 16 ? aligned_alloc(align, (n + align - 1) / align * align) : malloc(n ? n : 1);
  if (!p) {
    if (!g_in_sut || asked < (size_t(1) << 30)) OutOfMemory();
    throw std::bad_alloc();
  }
  if (g_in_sut) {
    memset(p, g_alloc_pattern, n < (1u << 20) ? n : (1u << 20));
    if (g_track) Insert(p);
  }
  return p;
}
void* operator new(size_t n) { return Get(n, 0); }
void* operator new[](size_t n) { return Get(n, 0); }
void* operator new(size_t n, std::align_val_t a) { return Get(n, static_cast<size_t>(a)); }
void* operator new[](size_t n, std::align_val_t a) { return Get(n, static_cast<size_t>(a)); }
void* operator new(size_t n, const std::nothrow_t&) noexcept {
  try { return Get(n, 0, false); } catch (...) { return nullptr; }
}
void* operator new[](size_t n, const std::nothrow_t&) noexcept {
  try { return Get(n, 0, false); } catch (...) { return nullptr; }
}
void operator delete(void* p) noexcept { Put(p); }
void operator delete[](void* p) noexcept { Put(p); }
void operator delete(void* p, size_t) noexcept { Put(p); }
void operator delete[](void* p, size_t) noexcept { Put(p); }
void operator delete(void* p, std::align_val_t) noexcept { Put(p); }
void operator delete[](void* p, std::align_val_t) noexcept { Put(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { Put(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { Put(p); }
