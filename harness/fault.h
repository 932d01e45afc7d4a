// Allocation failures on demand: while a fault::Scope is alive, the n-th allocation of the code under test fails
#pragma once
#include <cstdlib>
#include <new>
namespace fault {
    static long countdown = 0;       // the allocation that fails (1 = next), 0 = none
    static bool active = false, fired = false;
    inline bool hit() { if (not active || countdown == 0) return false; if (--countdown == 0) { fired = true; return true; } return false; }
    struct Scope { bool was; Scope() : was(active) { active = true; } ~Scope() { active = was; } };      // the code under test runs
    struct Pause { bool was; Pause() : was(active) { active = false; } ~Pause() { active = was; } };     // the harness runs (callbacks)
    inline void arm(long n) { countdown = n; fired = false; }
    inline void disarm() { countdown = 0; }
}
static inline void * fault_alloc(std::size_t n) { return fault::hit() ? nullptr : std::malloc(n ? n : 1); }
void * operator new(std::size_t n) { void * p = fault_alloc(n); if (not p) throw std::bad_alloc(); return p; }
void * operator new[](std::size_t n) { void * p = fault_alloc(n); if (not p) throw std::bad_alloc(); return p; }
void * operator new(std::size_t n, const std::nothrow_t &) noexcept { return fault_alloc(n); }
void * operator new[](std::size_t n, const std::nothrow_t &) noexcept { return fault_alloc(n); }
void operator delete(void * p) noexcept { std::free(p); }
void operator delete[](void * p) noexcept { std::free(p); }
void operator delete(void * p, std::size_t) noexcept { std::free(p); }
void operator delete[](void * p, std::size_t) noexcept { std::free(p); }
#ifdef FAULT_WRAP_REALLOC       // linked with -Wl,--wrap=realloc
extern "C" void * __real_realloc(void *, std::size_t);
extern "C" void * __wrap_realloc(void * p, std::size_t n) { return fault::hit() ? nullptr : __real_realloc(p, n); }
#endif
