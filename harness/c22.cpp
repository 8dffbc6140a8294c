// C22: printing the stack trace, with every answer of the functions that look frames up (or, with
// -DREAL, with the real ones on real stacks; with -DDISABLED, with stack traces switched off).
#include "mc.hpp"
#include <cxxabi.h>
#include <dlfcn.h>
#include <execinfo.h>
#include "stack_trace.hpp"
using mc::Ctx;
// ---- the error stream, collected in a fixed buffer
struct Sink : std::streambuf {
    char mem[1500000]; size_t n = 0;
    int overflow(int ch) override { if (ch != EOF) { if (n < sizeof mem) mem[n] = (char)ch; ++n; } return 0; }
    std::streamsize xsputn(const char* s, std::streamsize k) override { if (k > 0 && n < sizeof mem) memcpy(mem + n, s, (size_t)k < sizeof mem - n ? (size_t)k : sizeof mem - n); n += (size_t)(k > 0 ? k : 0); return k; } };
static Sink sink, other;
static size_t starts[4096], nlines = 0;
static size_t lines() { nlines = 0; starts[0] = 0; for (size_t i = 0; i < sink.n && i < sizeof sink.mem; ++i) if (sink.mem[i] == '\n') { if (nlines < 4095) ++nlines; starts[nlines] = i + 1; } return nlines; }
// The text of line k, as of the latest call of lines().
static const char* line(size_t k, size_t& len) { if (k >= nlines) { len = 0; return nullptr; } len = starts[k + 1] - starts[k] - 1; return sink.mem + starts[k]; }
static bool shown(size_t k, const char* text) { size_t len; const char* l = line(k, len); return l && memmem(l, len, text, strlen(text)) != nullptr; }
// Runs it once with the error stream in the given formatting, and checks what holds in every case.
template<class F> void print(Ctx& c, int format, F f) {
    sink.n = other.n = 0; std::streambuf* e = std::cerr.rdbuf(&sink); std::streambuf* o = std::cout.rdbuf(&other); auto flags = std::cerr.flags(); auto fill = std::cerr.fill(); auto width = std::cerr.width();
    if (format == 1) std::cerr << std::hex << std::showbase << std::uppercase; else if (format == 2) { std::cerr.fill('*'); std::cerr.setf(std::ios::left | std::ios::boolalpha); std::cerr.unsetf(std::ios::unitbuf); } auto before = std::cerr.flags(); auto precision = std::cerr.precision(); const char* thrown = nullptr;
    try { f(); } catch (...) { thrown = "an exception"; }
    bool good = std::cerr.good(), same = std::cerr.flags() == before && std::cerr.precision() == precision && std::cerr.width() == width; size_t n = sink.n; std::cerr << "next"; bool next = sink.n == n + 4 && !memcmp(sink.mem + n, "next", 4); sink.n = n; std::cerr.clear(); std::cerr.flags(flags); std::cerr.fill(fill); std::cerr.rdbuf(e); std::cout.rdbuf(o);
    MC_CHECK(c, !thrown, "printing the stack trace left by an exception"); MC_CHECK(c, good, "the error stream is in a failed state afterwards"); MC_CHECK(c, next, "text written to the error stream afterwards does not arrive"); MC_CHECK(c, same, "the formatting of the error stream was changed"); MC_CHECK(c, other.n == 0, "something was written to the output stream"); MC_CHECK(c, n < sizeof sink.mem, "endless output"); MC_CHECK(c, n == 0 || sink.mem[n - 1] == '\n', "the last line is not ended"); c.ops(1); }

#ifdef REAL
static Ctx* the; static int fmt;
template<class... T> struct Frames { };
typedef Frames<std::map<std::string, std::vector<std::tuple<int, double, std::string>>>, std::map<std::string, std::vector<std::tuple<int, double, std::string>>>, std::map<std::string, std::vector<std::tuple<int, double, std::string>>>> Long;
template<class T> __attribute__((noinline, noclone)) int down(int d) { volatile int keep = d; int r = d > 0 ? down<T>(d - 1) : (print(*the, fmt, [] { Helper::stack_trace(); }), 1); keep = keep + r; return keep; }
namespace { struct Hidden { }; }
static size_t at_depth(Ctx& c, int kind, int d) { the = &c; if (kind == 0) down<double>(d); else if (kind == 1) down<Long>(d); else down<Hidden>(d); return lines(); }
MC_SCENARIO(real_stacks) { { mc::Disarm quiet; std::cerr.rdbuf(&sink); Helper::stack_trace(); } int kind = c.choose(3, "kind of function"); fmt = c.choose(3, "formatting"); int d = c.choose(300, "depth"); c.op("stack of %d more frames", d);
    size_t base = at_depth(c, kind, 0), n = at_depth(c, kind, d), named = 0; for (size_t i = 0; i != nlines; ++i) named += shown(i, kind == 0 ? "down<double>(int)" : "down<Frames<std::map<") && !shown(i, "lambda");
    size_t m = at_depth(c, kind, d + 1), deep = at_depth(c, kind, 400);
    MC_CHECK(c, base >= 3, "only " << base << " lines for a program that has more frames"); MC_CHECK(c, n == base + (size_t)d || (n == deep && n < base + (size_t)d), "a stack with " << d << " more frames than one that has " << base << " lines has " << n); MC_CHECK(c, m == n + 1 || (m == n && n == deep), "one frame more changes " << n << " lines into " << m); MC_CHECK(c, deep <= base + 400, "more lines than frames"); for (size_t k = 0, len; k != deep; ++k) { line(k, len); MC_CHECK(c, len > 0, "line " << k << " is empty"); }
    if (kind != 2) MC_CHECK(c, n == deep ? named + 60 > n : named == (size_t)d + 1, "of " << d + 1 << " frames of one function " << named << " lines show its name, of " << n << " lines");
    c.state(mc::mix((mc::u64)kind, (mc::u64)d)); c.outcome(n); }
#elif defined(DISABLED)
static __attribute__((noinline)) int down(Ctx& c, int d, int f) { volatile int keep = d; int r = 0; if (d > 0) r = down(c, d - 1, f); else print(c, f, [] { Helper::stack_trace(); }); keep = keep + r; return keep; }
MC_SCENARIO(disabled, .balance = true) { int d = c.choose(140, "depth"), f = c.choose(3, "formatting"); c.op("stack of %d more frames", d); down(c, d, f); MC_CHECK(c, sink.n == 0, "stack traces are not enabled but something is written"); c.state((mc::u64)d + 1); }
#else
// ---- answers of the lookup functions
enum Kind { UNKNOWN, UNNAMED, BAD_NAME, DEMANGLED, NO_MEMORY, BAD_ARGUMENT, KINDS };
static int depth = 0, shift = 0; static Kind kind_of[512]; static int limit_seen = 0; static char place[600][16]; static bool active = false; enum { LONGEST = 9000 }; static char names[512][LONGEST + 40], pretty[512][LONGEST + 40]; static int length_of[512]; static const char* padding() { static char p[LONGEST + 1]; if (!*p) memset(p, 'n', LONGEST); return p; }
static int frame_of(const void* a) { const char* p = (const char*)a; return p >= place[0] && p < place[599] ? (int)((p - place[0]) / 16) : -1; }
extern "C" int backtrace(void** buf, int size) { if (size > limit_seen) limit_seen = size; int n = depth < size ? depth : size; for (int i = 0; i != n; ++i) buf[i] = place[i + shift]; return n < 0 ? 0 : n; }
static bool no_symbols = false;
extern "C" char** backtrace_symbols(void* const* buf, int n) { if (no_symbols) return nullptr; size_t bytes = (size_t)(n < 0 ? 0 : n) * (sizeof(char*) + 80) + 1; for (int i = 0; i < n; ++i) { int k = frame_of(buf[i]) - shift; if (k >= 0 && k < 512) bytes += (size_t)length_of[k]; } char* block = (char*)malloc(bytes); char** v = (char**)block; char* s = block + (size_t)n * sizeof(char*); for (int i = 0; i < n; ++i) { int k = frame_of(buf[i]); v[i] = s; int q = k - shift; s += 1 + sprintf(s, "./program(symbol%.*s+0x%x) [%d]", q >= 0 && q < 512 ? length_of[q] : 0, padding(), k * 7, k); } return v; }
extern "C" int dladdr(const void* a, Dl_info* info) { int k = frame_of(a); if (k < 0) return 0; memset(info, 0xA5, sizeof *info); if (kind_of[k - shift] == UNKNOWN) return 0; info->dli_fname = "./program"; info->dli_fbase = (void*)place; info->dli_sname = kind_of[k - shift] == UNNAMED ? nullptr : names[k - shift]; info->dli_saddr = kind_of[k - shift] == UNNAMED ? nullptr : (void*)a; return 1; }
namespace __cxxabiv1 { extern "C" char* __cxa_demangle(const char* name, char* buf, size_t* len, int* status) {
    int k = -1; if (name) { if (const char* b = strrchr(name, '[')) k = atoi(b + 1) - shift; else for (int i = 0; i != 512; ++i) if (!strcmp(name, names[i])) { k = i; break; } }
    int st = name == nullptr ? -3 : -2; if (k >= 0 && k < 512) { if (kind_of[k] == DEMANGLED) st = 0; else if (kind_of[k] == NO_MEMORY) st = -1; else if (kind_of[k] == BAD_ARGUMENT) st = -3; } if (status) *status = st; if (st) return nullptr;
    size_t size = strlen(pretty[k]) + 1; char* r = (char*)realloc(buf, size); memcpy(r, pretty[k], size); if (len) *len = size; return r; } }
static void check_frames(Ctx& c, int n, int format) {
    for (int i = 0; i != 512; ++i) { static const char* const styles[] = {"_Zsym", "plain_name", "_name", "Zsym", "$sym."}; snprintf(names[i], sizeof names[i], "%s%.*s%dE", styles[kind_of[i] == DEMANGLED ? 0 : (i + n) % 5], length_of[i], padding(), i); snprintf(pretty[i], sizeof pretty[i], "nice::frame<%.*s%d>()", length_of[i], padding(), i); } depth = n; c.op("stack of %d frames", n);
    // once beforehand, so that anything made at first use is not counted as lost
    limit_seen = 0; print(c, format, [] { Helper::stack_trace(); }); size_t first = sink.n; int limit = limit_seen; { mc::Disarm d; static std::string text; text.assign(sink.mem, first); print(c, format, [] { Helper::stack_trace(); }); MC_CHECK(c, text == std::string(sink.mem, sink.n), "printing the same stack again writes something else"); }
    long want = n < limit ? n : limit; MC_CHECK(c, limit > 20, "only " << limit << " frames are asked for"); MC_CHECK(c, (long)lines() == want, lines() << " lines for " << n << " frames (the limit is " << limit << ")");
    for (long i = 0; i < want; ++i) { size_t len; line((size_t)i, len); MC_CHECK(c, len > 0, "the line of frame " << i << " is empty"); if (kind_of[i] == BAD_NAME || kind_of[i] == NO_MEMORY || kind_of[i] == BAD_ARGUMENT) MC_CHECK(c, shown((size_t)i, names[i]), "the line of frame " << i << " does not show its name"); if (kind_of[i] == DEMANGLED) MC_CHECK(c, shown((size_t)i, pretty[i]), "the line of frame " << i << " does not show its name as in the source"); }
    mc::u64 h = (mc::u64)n + 1; for (int i = 0; i < n && i < 512; ++i) h = mc::mix(h, (mc::u64)kind_of[i]); c.state(h); c.outcome(sink.n); }
// Every answer for every frame of small stacks.
MC_SCENARIO(small_stacks, .balance = true) { int n = c.choose(c.bound(6, 8), "frames"), format = c.choose(3, "formatting"); shift = 0; for (int i = 0; i != n; ++i) kind_of[i] = (Kind)c.choose(KINDS, "answer"); check_frames(c, n, format); }
// Every depth, with one kind of frame among others of another kind at every position.
MC_SCENARIO(every_depth, .balance = true) { int n = c.choose(c.bound(180, 300), "frames"), k = c.choose(KINDS, "kind"), l = c.choose(KINDS, "at one place"); static const int places[] = {0, 1, 2, -1, -2, 63, 126, 127, 128}; int p = places[c.choose(9, "place")]; if (p < 0) p += n; if (k == l && p != 0) throw mc::Skip(); for (int i = 0; i != n; ++i) kind_of[i] = (Kind)(i == p ? l : k); shift = (n * 7 + k) % 80; check_frames(c, n, (n + k) % 3); }
MC_SCENARIO(alternating, .balance = true) { int n = c.choose(200, "frames"), p = 2 + c.choose(4, "period"), k = c.choose(KINDS), l = c.choose(KINDS); struct Off { ~Off() { no_symbols = false; } } off; no_symbols = p == 2 && n < 20 && c.choose(2, "memory"); for (int i = 0; i != n; ++i) kind_of[i] = (Kind)(i % p ? k : l); shift = 0; check_frames(c, n, 0); }
// Names of every length.
struct Lengths { ~Lengths() { memset(length_of, 0, sizeof length_of); } };
MC_SCENARIO(long_names, .balance = true) { Lengths guard; static const int ns[] = {1, 2, 5, 130}, ls[] = {20, 60, 100, 200, 240, 480, 500, 1000, 1010, 2030, 4080, 8180, LONGEST}; int n = ns[c.choose(4, "frames")], l = ls[c.choose(13, "length")], more = c.choose(c.bound(20, 40), "more"), k = c.choose(KINDS, "kind"), which = c.choose(3, "which frames"); shift = 0; if (l == LONGEST && more) throw mc::Skip(); if (n > 5 && (which == 1 || (which == 2 && (l > 1000 || more % 5)))) throw mc::Skip();
    for (int i = 0; i != n; ++i) { kind_of[i] = (Kind)k; length_of[i] = which == 2 || i == (which ? n - 1 : 0) ? l + more : 0; } check_frames(c, n, 0); c.state(mc::mix((mc::u64)(l + more), (mc::u64)(k * 4 + which))); }
#endif
MC_MAIN
