// Counts the blocks the program holds (operator new minus operator delete): leaks are differences across a case.
// malloc stays the sanitizer's, so overruns and double frees are still seen.
#include "alloc_count.hpp"
#include <atomic>
#include <cstdlib>
#include <new>
static std::atomic<long> g_live(0);
long mc::live_blocks() { return g_live.load(); }
static void *get(std::size_t n) { void *p = std::malloc(n ? n : 1); if (!p) throw std::bad_alloc(); g_live++; return p; }
static void put(void *p) { if (p) { g_live--; std::free(p); } }
void *operator new(std::size_t n) { return get(n); }
void *operator new[](std::size_t n) { return get(n); }
void *operator new(std::size_t n, const std::nothrow_t &) noexcept { try { return get(n); } catch (...) { return nullptr; } }
void *operator new[](std::size_t n, const std::nothrow_t &) noexcept { try { return get(n); } catch (...) { return nullptr; } }
void operator delete(void *p) noexcept { put(p); }
void operator delete[](void *p) noexcept { put(p); }
void operator delete(void *p, std::size_t) noexcept { put(p); }
void operator delete[](void *p, std::size_t) noexcept { put(p); }
void operator delete(void *p, const std::nothrow_t &) noexcept { put(p); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { put(p); }
