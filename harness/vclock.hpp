// vclock.hpp - the clocks of the process under control of the harness (interposed libc and libstdc++ entry points).
#ifndef MC_VCLOCK_HPP
#define MC_VCLOCK_HPP
#include "mc.hpp"
#include <chrono>
#include <sys/time.h>
#include <sys/syscall.h>
namespace vclock {
typedef long long ll;
inline bool on = false;
inline ll mono = 0, wall = 0, cpu = 0;       // nanoseconds
inline ll step = 0;                          // what passes between a read of a clock and the next
inline long reads = 0;
inline ll read(int which) { ++reads; ll t = which == 0 ? mono : which == 1 ? wall : cpu; mono += step; wall += step; cpu += step / 3; return t; }
inline void pass(ll d) { mono += d; wall += d; cpu += d / 7; }     // time goes by; the process computes for some of it
inline timespec ts(ll t) { timespec r; r.tv_sec = (time_t)(t / 1000000000); r.tv_nsec = (long)(t % 1000000000); if (r.tv_nsec < 0) { r.tv_nsec += 1000000000; --r.tv_sec; } return r; }
struct On { On(ll m, ll w, ll s) { on = true; mono = m; wall = w; cpu = 0; step = s; reads = 0; } ~On() { on = false; } };
}
extern "C" {
int clock_gettime(clockid_t id, timespec* t) noexcept { if (!vclock::on) return (int)syscall(SYS_clock_gettime, id, t);
    *t = vclock::ts(vclock::read(id == CLOCK_MONOTONIC || id == CLOCK_MONOTONIC_RAW || id == CLOCK_MONOTONIC_COARSE || id == CLOCK_BOOTTIME ? 0 : id == CLOCK_PROCESS_CPUTIME_ID || id == CLOCK_THREAD_CPUTIME_ID ? 2 : 1)); return 0; }
int gettimeofday(timeval* t, void*) noexcept { timespec s; if (!vclock::on) syscall(SYS_clock_gettime, CLOCK_REALTIME, &s); else s = vclock::ts(vclock::read(1)); t->tv_sec = s.tv_sec; t->tv_usec = s.tv_nsec / 1000; return 0; }
time_t time(time_t* p) noexcept { timespec s; if (!vclock::on) syscall(SYS_clock_gettime, CLOCK_REALTIME, &s); else s = vclock::ts(vclock::read(1)); if (p) *p = s.tv_sec; return s.tv_sec; }
clock_t clock() noexcept { timespec s; if (!vclock::on) syscall(SYS_clock_gettime, CLOCK_PROCESS_CPUTIME_ID, &s); else s = vclock::ts(vclock::read(2)); return (clock_t)(s.tv_sec * 1000000 + s.tv_nsec / 1000); }
}
namespace std { namespace chrono { inline namespace _V2 {
__attribute__((used)) system_clock::time_point system_clock::now() noexcept { timespec t; clock_gettime(CLOCK_REALTIME, &t); return time_point(duration_cast<duration>(seconds(t.tv_sec) + nanoseconds(t.tv_nsec))); }
__attribute__((used)) steady_clock::time_point steady_clock::now() noexcept { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return time_point(seconds(t.tv_sec) + nanoseconds(t.tv_nsec)); }
} } }
#endif
