// sched.cpp - see sched.hpp. Compiled without instrumentation.
#include "sched.hpp"
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <new>
#include <iostream>
#include <mutex>
#include <pthread.h>
#include <link.h>
#include <malloc.h>
#include <sys/mman.h>
#include <ucontext.h>
#include <unistd.h>
#include <execinfo.h>
extern "C" char __libc_single_threaded;
namespace __cxxabiv1 { struct __cxa_eh_globals; extern "C" __cxa_eh_globals* __cxa_get_globals(); }
namespace {
typedef uint64_t u64; typedef uint32_t u32; typedef uint8_t u8;
enum { T = sched::MAXTHREADS + 1, MAIN = sched::MAXTHREADS, STACK = 1 << 19, FAIR = 500, LIMIT = 50000 };
struct Clock { u32 c[T]; void join(Clock const& o) { for (int i = 0; i != T; ++i) if (o.c[i] > c[i]) c[i] = o.c[i]; } };
struct Eh { void* caught; unsigned uncaught; };
struct Fiber { ucontext_t context; char* stack; Clock clock; bool live; void* blocked; const char* what; Eh eh; int depth; char* tls; void* once[2]; struct { void (*f)(void*); void* arg; } atexit[16]; int natexit; };
Fiber fiber[sched::MAXTHREADS]; ucontext_t home; int cur = -1, inside = 0, home_depth = 0, threads = 0; bool active = false;
void (*the_body)(int, void*); void* the_arg; sched::Mode the_mode; int left; sched::Choose the_choose; void* choose_arg; bool no_more; u64 npoints, naccesses; int alone;
char message[2000]; bool failed;
__attribute__((format(printf, 1, 2))) void fail(const char* fmt, ...) { if (failed) return; failed = true; va_list ap; va_start(ap, fmt); vsnprintf(message, sizeof message, fmt, ap); va_end(ap); }

// ---- shadow memory: per eight bytes a few records of the latest accesses
struct Rec { u8 thread, mask, write, atomic; u32 clk; const char* what; };
struct Cell { u64 key; u32 stamp; int n; int owner; bool freed, shared; Rec rec[12]; };
enum { CELLS = 1 << 20 }; Cell* cells; u32 stamp = 0; size_t used_cells = 0;
Cell* cell(u64 key, bool make) { size_t i = (size_t)(key * 0x9E3779B97F4A7C15ull >> 40) % CELLS; for (size_t k = 0; k != CELLS; ++k, i = (i + 1) % CELLS) { Cell& x = cells[i]; if (x.stamp != stamp) { if (!make) return nullptr; x.key = key; x.stamp = stamp; x.n = 0; x.owner = -1; x.freed = x.shared = false; return &x; } if (x.key == key) return &x; } return nullptr; }
struct Sync { u64 addr; u32 stamp; Clock clock; }; enum { SYNCS = 1 << 10 }; Sync syncs[SYNCS];
Sync* sync_of(u64 a) { size_t i = (size_t)(a * 0x9E3779B97F4A7C15ull >> 40) % SYNCS; for (size_t k = 0; k != SYNCS; ++k, i = (i + 1) % SYNCS) { Sync& s = syncs[i]; if (s.stamp != stamp) { s.stamp = stamp; s.addr = a; memset(&s.clock, 0, sizeof s.clock); return &s; } if (s.addr == a) return &s; } return &syncs[0]; }
// ---- memory freed during a run, released afterwards
enum { BLOCKS = 1 << 17 }; void** freed; int nfreed = 0;

// ---- thread-local variables of the program: all threads run in one real thread, so their values are exchanged at each switch
char* tls_block; size_t tls_size, tls_init; const char* tls_image; char* home_tls;
int find_tls(struct dl_phdr_info* i, size_t, void*) { for (int k = 0; k != i->dlpi_phnum; ++k) if (i->dlpi_phdr[k].p_type == PT_TLS) { tls_block = (char*)i->dlpi_tls_data; tls_size = i->dlpi_phdr[k].p_memsz; tls_init = i->dlpi_phdr[k].p_filesz; tls_image = (const char*)(i->dlpi_addr + i->dlpi_phdr[k].p_vaddr); } return 1; }
bool thread_local_variable(u64 a) { return (tls_block && a >= (u64)tls_block && a < (u64)tls_block + tls_size) || a == (u64)&std::__once_callable || a == (u64)&std::__once_call; }
void tls_save(char* to, void** once) { if (tls_block) memcpy(to, tls_block, tls_size); once[0] = std::__once_callable; once[1] = (void*)std::__once_call; }
void tls_load(const char* from, void** once) { if (tls_block) memcpy(tls_block, from, tls_size); std::__once_callable = once[0]; std::__once_call = (void (*)())once[1]; }
void* home_once[2];

bool enabled(int t) { return fiber[t].live && !fiber[t].blocked; }
void switch_to(int t) { int me = cur; Eh* g = (Eh*)__cxxabiv1::__cxa_get_globals(); if (me >= 0) { fiber[me].eh = *g; fiber[me].depth = inside; tls_save(fiber[me].tls, fiber[me].once); } else { home_depth = inside; tls_save(home_tls, home_once); } tls_load(fiber[t].tls, fiber[t].once); *g = fiber[t].eh; inside = fiber[t].depth; cur = t; alone = 0; active = true; if (me >= 0) swapcontext(&fiber[me].context, &fiber[t].context); else swapcontext(&home, &fiber[t].context); }
int ask(int n) { if (n <= 1 || no_more) return 0; ++inside; bool was = active; active = false; int k = the_choose(n, choose_arg); active = was; --inside; if (k < 0) { no_more = true; return 0; } return k; }
// The current thread may be interrupted here.
void point() {
    if (no_more) return; ++npoints; if (++alone > FAIR) { alone = 0; if (npoints > LIMIT) { no_more = true; fail("the threads make no progress"); } int t = (cur + 1) % threads; while (!enabled(t)) t = (t + 1) % threads; if (t != cur) switch_to(t); return; }
    if (left == 0) return; int others[T], n = 0; for (int t = 0; t != threads; ++t) if (t != cur && enabled(t)) others[n++] = t;
    int k = ask(n + 1); if (k) { --left; switch_to(others[k - 1]); } }
void forced_switch() { int o[T], n = 0; for (int t = 0; t != threads; ++t) if (t != cur && enabled(t)) o[n++] = t; if (!n) { fail("the threads wait for each other"); fprintf(stderr, "sched: deadlock\n"); _exit(6); } switch_to(o[ask(n)]); }
bool own_stack(u64 a) { u64 s = (u64)fiber[cur].stack; return a >= s && a < s + STACK; }
bool standard_stream(u64 a) { for (void const* p : {(void const*)&std::cout, (void const*)&std::cerr, (void const*)&std::clog}) if (a >= (u64)p && a < (u64)p + sizeof(std::ostream)) return true; return a >= (u64)&std::cin && a < (u64)&std::cin + sizeof(std::istream); }
void debug(u64 a, size_t n) { if (failed || !getenv("SCHED_DEBUG")) return; FILE* f = fopen("/tmp/sched.dbg", "w"); fprintf(f, "address %p size %zu stack? %d\n", (void*)a, n, 0); void* st[30]; int k = backtrace(st, 30); char** sy = backtrace_symbols(st, k); for (int i = 0; i != k; ++i) fprintf(f, "%s\n", sy[i]); fclose(f); }
void record(u64 a, size_t n, bool write, bool atomic) { Fiber& f = fiber[cur]; ++naccesses;
    while (n) { u64 key = a >> 3; int from = (int)(a & 7), to = from + (int)(n < 8 - (size_t)from ? n : 8 - (size_t)from); u8 mask = (u8)(((1u << to) - 1) & ~((1u << from) - 1)); Cell* x = cell(key, true); if (!x) { fprintf(stderr, "sched: shadow memory full\n"); _exit(4); }
        if (x->owner >= 0 && x->owner != cur) x->shared = true; int same = -1; for (int i = 0; i != x->n; ++i) { Rec& r = x->rec[i]; if (r.thread == cur) { if (r.mask == mask && r.write == write && r.atomic == atomic) same = i; continue; } if ((r.mask & mask) && (r.write || write) && !(r.atomic && atomic) && r.clk > f.clock.c[r.thread]) debug(a,n), fail("data race: thread %d (%s) %s memory that thread %d (%s) %s, without order between them", cur, f.what, write ? "writes" : "reads", r.thread, r.what, r.write ? "writes" : "reads"); }
        if (same < 0) { if (x->n < 12) same = x->n++; else same = (int)(naccesses % 12); } x->rec[same] = Rec{(u8)cur, mask, write, atomic, f.clock.c[cur], f.what}; a += (u64)(to - from); n -= (size_t)(to - from); } }
void access(const void* p, size_t n, bool write) { if (!active || inside || cur < 0 || n == 0) return; u64 a = (u64)p; if (own_stack(a) || standard_stream(a) || thread_local_variable(a)) return; ++inside; Cell* x = cell(a >> 3, true); if (x && x->freed) fail("thread %d (%s) %s freed memory", cur, fiber[cur].what, write ? "writes" : "reads"); if (the_mode == sched::AT_ALL && !(x && x->owner == cur && !x->shared)) point(); record(a, n, write, false); --inside; }
// An atomic operation of the current thread: everything before it in other threads at the same place is ordered.
void atomic_access(const volatile void* p, size_t n, bool write) { if (!active || inside || cur < 0) return; ++inside; u64 a = (u64)p; if (!own_stack(a)) { Cell* x = cell(a >> 3, true); if (x && x->freed) fail("thread %d (%s) uses an atomic variable in freed memory", cur, fiber[cur].what); if (!(x && x->owner == cur && !x->shared)) point(); record(a, n, write, true); Sync* s = sync_of(a); Fiber& f = fiber[cur]; f.clock.join(s->clock); if (write) { s->clock.join(f.clock); ++f.clock.c[cur]; } } --inside; }
// ---- locks
struct Lock { void* p; int writer, depth, readers[T]; Clock clock; }; Lock lock[64]; int nlocks = 0; Lock* lock_of(void* p) { for (int i = 0; i != nlocks; ++i) if (lock[i].p == p) return &lock[i]; if (nlocks == 64) { fprintf(stderr, "sched: too many locks\n"); _exit(4); } Lock& l = lock[nlocks++]; memset(&l, 0, sizeof l); l.p = p; l.writer = -1; return &l; }
struct Once { void* p; int owner; bool done; Clock clock; }; Once once[64]; int nonces = 0;
bool controlled() { return active && !inside && cur >= 0; }
int acquire(void* p, bool write, bool wait, bool recursive) { ++inside; point(); Lock* l = lock_of(p);
    for (;;) { bool readers = false; for (int t = 0; t != T; ++t) if (l->readers[t] && (t != cur || write)) readers = true; if (l->writer == cur && recursive) { ++l->depth; break; } if (l->writer < 0 && !(write && readers)) { if (write) { l->writer = cur; l->depth = 1; } else ++l->readers[cur]; break; }
        if (!wait) { --inside; return 16; } if (l->writer == cur) { fail("thread %d (%s) waits for a lock that it holds", cur, fiber[cur].what); fprintf(stderr, "sched: self-deadlock\n"); _exit(6); } fiber[cur].blocked = p; forced_switch(); }
    fiber[cur].clock.join(l->clock); --inside; return 0; }
int release(void* p) { ++inside; Lock* l = lock_of(p); Fiber& f = fiber[cur]; if (l->writer == cur) { if (--l->depth == 0) l->writer = -1; } else if (l->readers[cur]) --l->readers[cur]; else fail("thread %d (%s) releases a lock that it does not hold", cur, f.what); l->clock.join(f.clock); ++f.clock.c[cur]; for (auto& g : fiber) if (g.blocked == p) g.blocked = nullptr; point(); --inside; return 0; }
void start(int t) { the_body(t, the_arg); while (fiber[t].natexit) { --fiber[t].natexit; fiber[t].atexit[fiber[t].natexit].f(fiber[t].atexit[fiber[t].natexit].arg); } active = false; tls_load(home_tls, home_once); fiber[t].live = false; Eh* g = (Eh*)__cxxabiv1::__cxa_get_globals(); *g = Eh{nullptr, 0}; cur = -1; setcontext(&home); }
void fresh(u64 a, size_t n, int owner) { for (u64 k = a >> 3; k <= (a + n - 1) >> 3; ++k) if (Cell* x = cell(k, true)) { x->n = 0; x->owner = owner; x->freed = false; x->shared = false; } }
void* take(size_t n) { void* p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); if (active && !inside && cur >= 0) { ++inside; fresh((u64)p, malloc_usable_size(p), cur); --inside; } return p; }
void give(void* p) { if (!p) return; if (!(active && !inside && cur >= 0)) { free(p); return; }
    ++inside; u64 a = (u64)p; size_t n = malloc_usable_size(p); Cell* x = cell(a >> 3, true); if (x && x->freed) fail("thread %d (%s) frees memory twice", cur, fiber[cur].what); else { record(a, n, true, false); for (u64 k = a >> 3; k <= (a + n - 1) >> 3; ++k) if (Cell* y = cell(k, true)) y->freed = true; if (nfreed < BLOCKS) freed[nfreed++] = p; } --inside; }
}
namespace sched {
void run(int n, void (*body)(int, void*), void* arg, Mode mode, int preemptions, Choose choose, void* carg) {
    if (!cells) { cells = (Cell*)calloc(CELLS, sizeof(Cell)); freed = (void**)calloc(BLOCKS, sizeof(void*)); dl_iterate_phdr(find_tls, nullptr); home_tls = (char*)calloc(1, tls_size + 1); for (auto& f : fiber) f.tls = (char*)calloc(1, tls_size + 1), f.stack = (char*)mmap(nullptr, STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); }
    __libc_single_threaded = 0; ++stamp; nfreed = nlocks = nonces = 0; failed = false; npoints = naccesses = 0; no_more = false; threads = n; the_body = body; the_arg = arg; the_mode = mode; left = preemptions < 0 ? 1 << 30 : preemptions; the_choose = choose; choose_arg = carg;
    for (int t = 0; t != n; ++t) { Fiber& f = fiber[t]; memset(&f.clock, 0, sizeof f.clock); f.clock.c[MAIN] = 1; f.clock.c[t] = 1; f.live = true; f.blocked = nullptr; f.what = "?"; f.eh = Eh{nullptr, 0}; f.depth = 0; f.once[0] = f.once[1] = nullptr; f.natexit = 0; memset(f.tls, 0, tls_size); if (tls_init) memcpy(f.tls, tls_image, tls_init); getcontext(&f.context); f.context.uc_stack.ss_sp = f.stack; f.context.uc_stack.ss_size = STACK; f.context.uc_link = nullptr; makecontext(&f.context, (void (*)())start, 1, t); }
    Eh saved = *(Eh*)__cxxabiv1::__cxa_get_globals();
    for (;;) { int o[T], k = 0; for (int t = 0; t != n; ++t) if (enabled(t)) o[k++] = t; if (!k) break; ++inside; int t = o[ask(k)]; --inside; switch_to(t); active = false; inside = home_depth; cur = -1; }
    for (int t = 0; t != n; ++t) if (fiber[t].live) { fail("thread %d never goes on", t); fprintf(stderr, "sched: stuck\n"); _exit(6); }
    *(Eh*)__cxxabiv1::__cxa_get_globals() = saved; active = false; for (int i = 0; i != nfreed; ++i) free(freed[i]); nfreed = 0; }
const char* violation() { return failed ? message : nullptr; }
unsigned long long points() { return npoints; } unsigned long long accesses() { return naccesses; }
void doing(const char* what) { if (cur >= 0) fiber[cur].what = what; }
bool running() { return cur >= 0; }
}
void* operator new(size_t n) { return take(n); } void* operator new[](size_t n) { return take(n); }
void* operator new(size_t n, std::nothrow_t const&) noexcept { return take(n); } void* operator new[](size_t n, std::nothrow_t const&) noexcept { return take(n); }
void operator delete(void* p) noexcept { give(p); } void operator delete[](void* p) noexcept { give(p); } void operator delete(void* p, size_t) noexcept { give(p); } void operator delete[](void* p, size_t) noexcept { give(p); }
extern "C" {
void __tsan_init() { } void __tsan_func_entry(void*) { } void __tsan_func_exit() { }
#define RW(n) void __tsan_read##n(void* p) { access(p, n, false); } void __tsan_write##n(void* p) { access(p, n, true); } void __tsan_unaligned_read##n(void* p) { access(p, n, false); } void __tsan_unaligned_write##n(void* p) { access(p, n, true); } void __tsan_volatile_read##n(void* p) { access(p, n, false); } void __tsan_volatile_write##n(void* p) { access(p, n, true); } void __tsan_read_write##n(void* p) { access(p, n, false); access(p, n, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, size_t n) { access(p, n, false); } void __tsan_write_range(void* p, size_t n) { access(p, n, true); }
void __tsan_vptr_read(void** p) { access(p, 8, false); } void __tsan_vptr_update(void** p, void*) { access(p, 8, true); }
#define ATOMIC(bits, type) \
  type __tsan_atomic##bits##_load(const volatile type* a, int) { atomic_access(a, sizeof *a, false); return __atomic_load_n(a, __ATOMIC_SEQ_CST); } \
  void __tsan_atomic##bits##_store(volatile type* a, type v, int) { atomic_access(a, sizeof *a, true); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
  type __tsan_atomic##bits##_exchange(volatile type* a, type v, int) { atomic_access(a, sizeof *a, true); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
  type __tsan_atomic##bits##_fetch_add(volatile type* a, type v, int) { atomic_access(a, sizeof *a, true); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
  type __tsan_atomic##bits##_fetch_sub(volatile type* a, type v, int) { atomic_access(a, sizeof *a, true); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
  type __tsan_atomic##bits##_fetch_and(volatile type* a, type v, int) { atomic_access(a, sizeof *a, true); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
  type __tsan_atomic##bits##_fetch_or(volatile type* a, type v, int) { atomic_access(a, sizeof *a, true); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
  type __tsan_atomic##bits##_fetch_xor(volatile type* a, type v, int) { atomic_access(a, sizeof *a, true); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
  type __tsan_atomic##bits##_fetch_nand(volatile type* a, type v, int) { atomic_access(a, sizeof *a, true); return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); } \
  int __tsan_atomic##bits##_compare_exchange_strong(volatile type* a, type* e, type v, int, int) { atomic_access(a, sizeof *a, true); return __atomic_compare_exchange_n(a, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
  int __tsan_atomic##bits##_compare_exchange_weak(volatile type* a, type* e, type v, int, int) { atomic_access(a, sizeof *a, true); return __atomic_compare_exchange_n(a, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
  type __tsan_atomic##bits##_compare_exchange_val(volatile type* a, type e, type v, int, int) { atomic_access(a, sizeof *a, true); __atomic_compare_exchange_n(a, &e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return e; }
ATOMIC(8, uint8_t) ATOMIC(16, uint16_t) ATOMIC(32, uint32_t) ATOMIC(64, uint64_t)
void __tsan_atomic_thread_fence(int) { } void __tsan_atomic_signal_fence(int) { }
// ---- functions of the C library that touch the program's memory
void* __real_memcpy(void*, const void*, size_t); void* __wrap_memcpy(void* d, const void* s, size_t n) { access(s, n, false); access(d, n, true); return __real_memcpy(d, s, n); }
void* __real_memmove(void*, const void*, size_t); void* __wrap_memmove(void* d, const void* s, size_t n) { access(s, n, false); access(d, n, true); return __real_memmove(d, s, n); }
void* __real_memset(void*, int, size_t); void* __wrap_memset(void* d, int v, size_t n) { access(d, n, true); return __real_memset(d, v, n); }
int __real_memcmp(const void*, const void*, size_t); int __wrap_memcmp(const void* a, const void* b, size_t n) { access(a, n, false); access(b, n, false); return __real_memcmp(a, b, n); }
void* __real_memchr(const void*, int, size_t); void* __wrap_memchr(const void* a, int v, size_t n) { access(a, n, false); return __real_memchr(a, v, n); }
size_t __real_strlen(const char*); size_t __wrap_strlen(const char* s) { size_t n = __real_strlen(s); access(s, n + 1, false); return n; }
char* __real_strcpy(char*, const char*); char* __wrap_strcpy(char* d, const char* s) { size_t n = __real_strlen(s) + 1; access(s, n, false); access(d, n, true); return __real_strcpy(d, s); }
int __real_strcmp(const char*, const char*); int __wrap_strcmp(const char* a, const char* b) { access(a, __real_strlen(a) + 1, false); access(b, __real_strlen(b) + 1, false); return __real_strcmp(a, b); }
int __wrap_sprintf(char* d, const char* fmt, ...) { va_list ap; va_start(ap, fmt); int n = vsprintf(d, fmt, ap); va_end(ap); access(d, (size_t)n + 1, true); return n; }
int __wrap_snprintf(char* d, size_t m, const char* fmt, ...) { va_list ap; va_start(ap, fmt); int n = vsnprintf(d, m, fmt, ap); va_end(ap); access(d, (size_t)n < m ? (size_t)n + 1 : m, true); return n; }
void* __real___cxa_allocate_exception(size_t); void* __wrap___cxa_allocate_exception(size_t n) { void* p = __real___cxa_allocate_exception(n); if (active && !inside && cur >= 0) { ++inside; fresh((u64)p, n, cur); --inside; } return p; }
// ---- initialisation of static variables
int __real___cxa_guard_acquire(u64*); void __real___cxa_guard_release(u64*); void __real___cxa_guard_abort(u64*);
static struct { u64* g; int owner; } initialising[8]; static int ninit = 0;
int __wrap___cxa_guard_acquire(u64* g) {
    if (!active || inside || cur < 0) return __real___cxa_guard_acquire(g);
    for (;;) { atomic_access(g, 1, true); if (*(volatile char*)g) return 0; int busy = -1; for (int i = 0; i != ninit; ++i) if (initialising[i].g == g) busy = i; if (busy < 0) { initialising[ninit].g = g; initialising[ninit].owner = cur; ++ninit; return 1; } ++inside; fiber[cur].blocked = g; forced_switch(); --inside; } }
static void guard_done(u64* g) { for (int i = 0; i != ninit; ++i) if (initialising[i].g == g) { initialising[i] = initialising[--ninit]; break; } for (auto& f : fiber) if (f.blocked == g) f.blocked = nullptr; }
void __wrap___cxa_guard_release(u64* g) { if (!active || inside || cur < 0) { __real___cxa_guard_release(g); return; } atomic_access(g, 1, true); *(volatile char*)g = 1; guard_done(g); }
void __wrap___cxa_guard_abort(u64* g) { if (!active || inside || cur < 0) { __real___cxa_guard_abort(g); return; } atomic_access(g, 1, true); guard_done(g); }
// ---- thread-local destructors, locks, std::call_once
int __real___cxa_thread_atexit(void (*)(void*), void*, void*); int __wrap___cxa_thread_atexit(void (*f)(void*), void* a, void* d) { if (cur < 0) return __real___cxa_thread_atexit(f, a, d); Fiber& x = fiber[cur]; if (x.natexit == 16) { fprintf(stderr, "sched: too many destructors\n"); _exit(4); } x.atexit[x.natexit++] = {f, a}; return 0; }
#define LOCK(name, call) int __real_##name(void*); int __wrap_##name(void* p) { if (!controlled()) return __real_##name(p); return call; }
static bool recursive_mutex(void* p) { return (((pthread_mutex_t*)p)->__data.__kind & 3) == 1; }
LOCK(pthread_mutex_lock, acquire(p, true, true, recursive_mutex(p))) LOCK(pthread_mutex_trylock, acquire(p, true, false, recursive_mutex(p))) LOCK(pthread_mutex_unlock, release(p))
LOCK(pthread_rwlock_rdlock, acquire(p, false, true, false)) LOCK(pthread_rwlock_tryrdlock, acquire(p, false, false, false)) LOCK(pthread_rwlock_wrlock, acquire(p, true, true, false)) LOCK(pthread_rwlock_trywrlock, acquire(p, true, false, false)) LOCK(pthread_rwlock_unlock, release(p))
int __real_pthread_once(void*, void (*)()); int __wrap_pthread_once(void* p, void (*f)()) { if (!controlled()) return __real_pthread_once(p, f);
    Once* o = nullptr; for (int i = 0; i != nonces; ++i) if (once[i].p == p) o = &once[i]; if (!o) { if (nonces == 64) { fprintf(stderr, "sched: too many flags\n"); _exit(4); } o = &once[nonces++]; memset(o, 0, sizeof *o); o->p = p; o->owner = -1; int real = *(volatile int*)p; if (real == 2) o->done = true; }
    while (!o->done && o->owner >= 0) { ++inside; fiber[cur].blocked = p; forced_switch(); --inside; }
    if (!o->done) { o->owner = cur; struct End { Once* o; bool ok; ~End() { o->owner = -1; o->done = ok; o->clock.join(fiber[cur].clock); ++fiber[cur].clock.c[cur]; if (ok) *(volatile int*)o->p = 2; for (auto& g : fiber) if (g.blocked == o->p) g.blocked = nullptr; } } end{o, false}; f(); end.ok = true; } else fiber[cur].clock.join(o->clock);
    return 0; }
unsigned long __real_pthread_self(); unsigned long __wrap_pthread_self() { return cur < 0 ? __real_pthread_self() : (unsigned long)(1000 + cur); }
// ---- called by the trampolines before a function of the C++ library; kind: what the first arguments are
void sched_library(void* a, void* b, void* c, void* d, int kind) { (void)c;
    switch (kind) { case 0: access(a, 8, true); break; case 1: access(a, 8, false); break; case 2: access(b, 8, false); break; case 3: access(d, 32, true); break; case 4: access(b, 32, true); break; case 5: access(a, 32, false); break; } }
}
