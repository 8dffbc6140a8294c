// alloc.hpp - running out of memory: the allocation with a chosen index fails.
#ifndef MC_ALLOC_HPP
#define MC_ALLOC_HPP
#include "mc.hpp"
#include <new>
#include <dlfcn.h>

namespace mc {
struct Memory {
    long countdown = -1; bool fired = false;
    void plan(long k) { countdown = k; fired = false; }     // k<0: never
    void cancel() { countdown = -1; }
    bool refuse() { if (disarmed || countdown < 0 || countdown-- != 0) return false; fired = true; return true; }
};
inline thread_local Memory memory;
typedef void* (*NewFunction)(std::size_t);
inline void* real_new(std::size_t n) { static NewFunction f = (NewFunction)dlsym(RTLD_NEXT, "_Znwm"); return f(n); }
inline void* real_new_array(std::size_t n) { static NewFunction f = (NewFunction)dlsym(RTLD_NEXT, "_Znam"); return f(n); }

// Runs f with the allocation of every index failing in turn (one per execution; -1 for none). True if it failed for want of memory.
template<class F> bool starved(Ctx& c, int limit, F f) {
    int k = c.choose(limit, "allocation") - 1; if (k >= 0) c.note("allocation %d fails", k);
    memory.plan(k); bool failed = false; try { f(); } catch (std::bad_alloc const&) { failed = true; } catch (...) { memory.cancel(); throw; }
    bool fired = memory.fired; memory.cancel(); if (k >= 0 && !fired) { c.no_more(); throw Skip(); }
    MC_CHECK(c, fired || !failed, "spurious failure for want of memory");      // an operation may also do without the memory it was refused
    return failed; }
typedef void* (*AlignedNewFunction)(std::size_t, std::align_val_t);
inline void* real_new(std::size_t n, std::align_val_t a) { static AlignedNewFunction f = (AlignedNewFunction)dlsym(RTLD_NEXT, "_ZnwmSt11align_val_t"); return f(n, a); }
inline void* real_new_array(std::size_t n, std::align_val_t a) { static AlignedNewFunction f = (AlignedNewFunction)dlsym(RTLD_NEXT, "_ZnamSt11align_val_t"); return f(n, a); }
} // namespace mc
// The replacements of the whole program (this header is part of a single translation unit).
void* operator new(std::size_t n) { if (mc::memory.refuse()) throw std::bad_alloc(); return mc::real_new(n); }
void* operator new[](std::size_t n) { if (mc::memory.refuse()) throw std::bad_alloc(); return mc::real_new_array(n); }
void* operator new(std::size_t n, std::align_val_t a) { if (mc::memory.refuse()) throw std::bad_alloc(); return mc::real_new(n, a); }
void* operator new[](std::size_t n, std::align_val_t a) { if (mc::memory.refuse()) throw std::bad_alloc(); return mc::real_new_array(n, a); }
void* operator new(std::size_t n, std::nothrow_t const&) noexcept { if (mc::memory.refuse()) return nullptr; try { return mc::real_new(n); } catch (...) { return nullptr; } }
void* operator new[](std::size_t n, std::nothrow_t const&) noexcept { if (mc::memory.refuse()) return nullptr; try { return mc::real_new_array(n); } catch (...) { return nullptr; } }
#endif
