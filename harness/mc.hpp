// mc.hpp - a small stateless model checker for C++ code.
//
// A scenario is a function that drives real code and calls c.choose(n) at every point where the
// environment or the driver is free. The explorer runs it once for every sequence of choices
// (depth-first, by re-execution), compares with a reference model through MC_CHECK, and reports the
// choice sequence of a violation, after reproducing it in a fresh process.
#ifndef MC_HPP
#define MC_HPP

#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <string>
#include <vector>
#include <unordered_map>
#include <exception>
#include <algorithm>
#include <functional>
#include <iostream>
#include <iterator>
#include <list>
#include <map>
#include <memory>
#include <set>
#include <stdexcept>
#include <tuple>
#include <type_traits>
#include <utility>
#include <typeinfo>
#include <atomic>
#include <sstream>
#include <fcntl.h>
#include <signal.h>
#include <time.h>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>

extern "C" __attribute__((weak)) int __sanitizer_install_malloc_and_free_hooks(
    void (*malloc_hook)(const volatile void*, size_t), void (*free_hook)(const volatile void*));

namespace mc {

typedef uint64_t u64;

// ---------------------------------------------------------------- allocation balance
inline thread_local int disarmed = 1;
inline thread_local long live_allocs = 0;
inline void malloc_hook(const volatile void*, size_t) { if (!disarmed) ++live_allocs; }
inline void free_hook(const volatile void* p) { if (p && !disarmed) --live_allocs; }
struct Disarm { Disarm() { ++disarmed; } ~Disarm() { --disarmed; } };

// ---------------------------------------------------------------- hashing
inline u64 mix(u64 h, u64 x) {
    h ^= x + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2);
    h ^= h >> 31; h *= 0xBF58476D1CE4E5B9ull; h ^= h >> 29; return h; }
inline u64 hash_bytes(const char* p, size_t n, u64 h = 1469598103934665603ull) {
    for (size_t i = 0; i != n; ++i) { h ^= (unsigned char)p[i]; h *= 1099511628211ull; }
    return mix(h, n); }
inline u64 hash_str(std::string const& s) { return hash_bytes(s.data(), s.size()); }

// ---------------------------------------------------------------- control flow of executions
struct Skip { };                                       // prune this execution
struct Fail { std::string key; std::string msg; };     // property violated

enum { MAXPATH = 4096, MAXMSG = 6000, MAXLOG = 60000, MAXSAMPLE = 64, MAXKNOWN = 16 };

struct KnownSlot { char key[128]; char msg[1024]; int path[MAXPATH]; int len; };

struct Shared {   // one per worker, in shared memory
    std::atomic<u64> ticks;
    u64 executions, transitions, pruned, checks;
    int path[MAXPATH]; int npick;
    int fail_path[MAXPATH]; int fail_len;
    int failed; char fail_key[128]; char fail_msg[MAXMSG];
    int done, truncated, diverged;
    u64 maxdepth;
    KnownSlot known[MAXKNOWN]; int nknown;
    int sample_path[4][MAXPATH]; int sample_len[4]; int nsample;
    char log[MAXLOG]; int loglen;
};

struct StateTable {   // set of hashes shared by all workers
    std::atomic<u64>* slot; u64 mask; std::atomic<u64>* count;
    bool insert(u64 h) {
        if (h == 0) h = 1;
        for (u64 i = h & mask, n = 0; n <= mask; i = (i + 1) & mask, ++n) {
            u64 cur = slot[i].load(std::memory_order_relaxed);
            if (cur == h) return false;
            if (cur == 0) {
                if (slot[i].compare_exchange_strong(cur, h)) { ++*count; return true; }
                if (cur == h) return false;
            }
        }
        return false; }
};

inline void* shm(size_t n) {
    void* p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) { perror("mmap"); exit(3); }
    return p; }

inline char pending_msg[MAXMSG]; inline bool pending = false;
// Report a violation from a place that must not throw (destructors); picked up at the next step.
inline void poison(const char* msg) {
    if (!pending) { pending = true; snprintf(pending_msg, sizeof pending_msg, "%s", msg); } }

class Ctx {
  public:
    // explorer side
    Shared* sh; StateTable states, outcomes;
    int tier = 0; bool verbose = false;
    int picks[MAXPATH]; int arity[MAXPATH]; int n = 0;     // this execution
    int forced = 0;                                        // picks[0..forced) are given
    int worker = 0, workers = 1; enum { SPLIT = 5 };
    bool owned_checked = false; int split_n = 0;
    u64 my_transitions = 0, my_checks = 0;                 // of this execution
    // From here on the executions are divided among the workers (by default after SPLIT choices).
    void split() { if (!owned_checked) { split_n = n < SPLIT ? n : (int)SPLIT; owned_checked = true; if (!owner()) throw Skip(); } }
    std::unordered_map<u64, int> visited;

    bool quick() const { return tier == 0; }
    bool thorough() const { return tier == 1; }
    int bound(int q, int t) const { return tier == 0 ? q : t; }

    // A free choice among 0..k-1.
    int choose(int k, const char* what = nullptr) {
        Disarm d;
        raise_pending();
        if (k <= 0) { fprintf(stderr, "mc: choose(%d)\n", k); _exit(4); }
        if (n >= MAXPATH) { fprintf(stderr, "mc: path too long\n"); _exit(4); }
        if (n == SPLIT) split();
        int pick = 0;
        if (n < forced) {
            pick = picks[n];
            if (pick >= k) { sh->diverged = 1; fprintf(stderr, "mc: replay diverged\n"); _exit(5); }
        }
        picks[n] = pick; arity[n] = k; sh->path[n] = pick; ++n; sh->npick = n;
        sh->ticks.fetch_add(1, std::memory_order_relaxed);
        if (verbose && what) { logf("%s=%d ", what, pick); }
        return pick; }
    // The alternatives after the one taken at the latest choice need not be explored (they behave alike).
    void no_more() { arity[n - 1] = picks[n - 1] + 1; }
    bool flip(const char* what = nullptr) { return choose(2, what) == 1; }
    template<class T, size_t N> T const& pick(T const (&alphabet)[N], const char* what = nullptr) {
        return alphabet[choose((int)N, what)]; }
    template<class T> T const& pick(std::vector<T> const& alphabet, const char* what = nullptr) {
        return alphabet[(size_t)choose((int)alphabet.size(), what)]; }

    // One operation of the code under test is about to run.
    void op(const char* fmt, ...) __attribute__((format(printf, 2, 3))) {
        Disarm d; raise_pending();
        ++my_transitions; sh->ticks.fetch_add(1, std::memory_order_relaxed);
        if (verbose) { va_list ap; va_start(ap, fmt); vlogf(fmt, ap); va_end(ap); logf("; "); } }
    void ops(u64 k) { my_transitions += k; sh->ticks.fetch_add(1, std::memory_order_relaxed); }
    void note(const char* fmt, ...) __attribute__((format(printf, 2, 3))) {
        if (verbose) { Disarm d; va_list ap; va_start(ap, fmt); vlogf(fmt, ap); va_end(ap); logf("; "); } }

    // Record an abstract state that was reached.
    void state(u64 h) { Disarm d; states.insert(h); }
    void outcome(u64 h) { Disarm d; outcomes.insert(h); }
    // Record a state and prune if it was already explored with at least this many steps left.
    void state_or_prune(u64 h, int remaining) {
        Disarm d; states.insert(h);
        if (n < forced) return;                       // still replaying the prefix
        if (!owned_checked) return;                        // above the split all workers must branch alike
        auto it = visited.find(h);
        if (it != visited.end() && it->second >= remaining) { ++sh->pruned; throw Skip(); }
        visited[h] = remaining; }

    void checked() { ++my_checks; }
    [[noreturn]] void fail(std::string const& msg) { Disarm d; throw Fail{"", msg}; }
    // A violation that is identified by a key, which may be listed as a known finding.
    void finding(const char* key, std::string const& msg) {
        Disarm d;
        for (int i = 0; i < sh->nknown; ++i) if (!strcmp(sh->known[i].key, key)) return;
        if (sh->nknown == MAXKNOWN) throw Fail{key, msg};
        KnownSlot& s = sh->known[sh->nknown];
        snprintf(s.key, sizeof s.key, "%s", key); snprintf(s.msg, sizeof s.msg, "%s", msg.c_str());
        memcpy(s.path, picks, sizeof(int) * (size_t)n); s.len = n; ++sh->nknown; }

    void raise_pending() { if (pending) { pending = false; throw Fail{"", pending_msg}; } }
    bool owner() const {
        u64 h = 7; int k = owned_checked ? split_n : n < SPLIT ? n : (int)SPLIT; for (int i = 0; i < k; ++i) h = mix(h, (u64)picks[i] + 1);
        return workers == 1 || (int)(h % (u64)workers) == worker; }

    void vlogf(const char* fmt, va_list ap) {
        int room = MAXLOG - 1 - sh->loglen; if (room <= 1) return;
        int k = vsnprintf(sh->log + sh->loglen, (size_t)room, fmt, ap);
        sh->loglen += k < room ? k : room - 1; }
    void logf(const char* fmt, ...) { va_list ap; va_start(ap, fmt); vlogf(fmt, ap); va_end(ap); }
};

#define MC_CHECK(c, cond, ...) do { (c).checked(); if (!(cond)) { ::mc::Disarm mc_d; \
    std::ostringstream mc_os; mc_os << __VA_ARGS__ << "  [check: " #cond "]"; (c).fail(mc_os.str()); } } while (0)

// ---------------------------------------------------------------- scenarios
struct Options {
    bool balance = false;          // allocations made by an execution must all be released by it
    u64 max_exec = 0;              // 0: no cap
};
struct Scenario { std::string name; void (*fn)(Ctx&); Options opt; };
inline std::vector<Scenario>& scenarios() { static std::vector<Scenario> v; return v; }
struct Register { Register(const char* n, void (*f)(Ctx&), Options o) { scenarios().push_back({n, f, o}); } };
#define MC_SCENARIO(name, ...) static void name(mc::Ctx&); \
    static mc::Register mc_reg_##name(#name, name, mc::Options{__VA_ARGS__}); static void name(mc::Ctx& c)
// An optional per-execution reset hook of the harness (clears ledgers, fault plans, ...).
inline void (*before_execution)() = nullptr;
inline void (*after_execution)(Ctx&) = nullptr;

// Run one execution. Returns 0: complete, 1: skipped, 2: failed.
inline int run_once(Scenario const& sc, Ctx& c, std::string& key, std::string& msg) {
    c.n = 0; c.sh->npick = 0; c.owned_checked = false; pending = false; c.my_transitions = c.my_checks = 0;
    if (before_execution) before_execution();
    long before = live_allocs; int r = 0;
    try {
        struct Arm { int old; Arm() : old(disarmed) { disarmed = 0; } ~Arm() { disarmed = old; } } arm;
        sc.fn(c);
        if (after_execution) after_execution(c);
        c.raise_pending();
    }
    catch (Skip const&) { r = 1; }
    catch (Fail const& f) { r = 2; key = f.key; msg = f.msg; }
    catch (std::exception const& e) { r = 2; key = ""; msg = std::string("unexpected exception escaped: ") + typeid(e).name() + ": " + e.what(); }
    catch (...) { r = 2; key = ""; msg = "unexpected unknown exception escaped"; }
    if (r == 0 && sc.opt.balance && live_allocs != before) {
        r = 3; key = ""; msg = "allocations not balanced: " + std::to_string(live_allocs - before) + " block(s) " + (live_allocs > before ? "leaked" : "over-released"); }
    live_allocs = before;
    if (r == 0 && !c.owned_checked && !c.owner()) r = 1;   // short path: counted by its owner only
    if (c.owner()) { c.sh->transitions += c.my_transitions; c.sh->checks += c.my_checks; }
    return r; }

inline double now_s() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return double(t.tv_sec) + 1e-9 * double(t.tv_nsec); }

inline void worker_main(Scenario const& sc, Ctx& c, double deadline) {
    static std::string key, msg;
    while (true) {
        c.sh->path[0] = -1;
        int r = run_once(sc, c, key, msg);
        if (r == 3) { // confirm an allocation imbalance by running the same path again
            c.forced = c.n; r = run_once(sc, c, key, msg); if (r == 3) r = 2; }
        if (r == 0 || r == 2) {
            ++c.sh->executions;
            if ((u64)c.n > c.sh->maxdepth) c.sh->maxdepth = (u64)c.n;
            u64 e = c.sh->executions;
            if (e == 1 || e == 7 || e == 100 || e == 3000) {
                int k = c.sh->nsample++; memcpy(c.sh->sample_path[k], c.picks, sizeof(int) * (size_t)c.n); c.sh->sample_len[k] = c.n; }
        }
        if (r == 2) {
            memcpy(c.sh->fail_path, c.picks, sizeof(int) * (size_t)c.n); c.sh->fail_len = c.n;
            snprintf(c.sh->fail_key, sizeof c.sh->fail_key, "%s", key.c_str());
            snprintf(c.sh->fail_msg, sizeof c.sh->fail_msg, "%s", msg.c_str());
            c.sh->failed = 1; return; }
        int i = c.n - 1;
        while (i >= 0 && c.picks[i] + 1 >= c.arity[i]) --i;
        if (i < 0) break;
        ++c.picks[i]; c.forced = i + 1;
        if (sc.opt.max_exec && c.sh->executions >= sc.opt.max_exec) { c.sh->truncated = 1; break; }
        if ((c.sh->executions & 255) == 0 && now_s() > deadline) { c.sh->truncated = 2; break; }
    }
    c.sh->done = 1; }

inline std::string jstr(std::string const& s) {
    std::string r = "\"";
    for (unsigned char ch : s) {
        if (ch == '"' || ch == '\\') { r += '\\'; r += (char)ch; }
        else if (ch == '\n') r += "\\n";
        else if (ch < 32 || ch > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", ch); r += b; }
        else r += (char)ch; }
    return r + "\""; }
inline std::string jpath(const int* p, int n) {
    std::string r = "["; for (int i = 0; i < n; ++i) { if (i) r += ","; r += std::to_string(p[i]); } return r + "]"; }

inline void limits() {
    signal(SIGPIPE, SIG_IGN);
    rlimit core{0, 0}; setrlimit(RLIMIT_CORE, &core);
    if (!&__sanitizer_install_malloc_and_free_hooks) { rlimit as{4ull << 30, 4ull << 30}; setrlimit(RLIMIT_AS, &as); } }

struct Harness {
    int tier = 0, workers = 8; double hang_s = 20, budget_s = 600; std::string tmp = "/tmp";
    StateTable table(size_t bits) {
        StateTable t; t.mask = (1ull << bits) - 1; t.slot = (std::atomic<u64>*)shm(sizeof(u64) << bits);
        t.count = (std::atomic<u64>*)shm(4096); return t; }
    void prepare(Ctx& c, Shared* sh, StateTable s, StateTable o, int w, int nw) {
        c.sh = sh; c.states = s; c.outcomes = o; c.worker = w; c.workers = nw; c.tier = tier; }

    // Runs one path in a fresh process. Returns 0 fine, 2 violated, 3 crashed, 4 hung, 5 diverged.
    int replay(Scenario const& sc, const int* path, int len, double limit, std::string& log, std::string& msg, std::string& key) {
        Shared* sh = (Shared*)shm(sizeof(Shared)); StateTable s = table(20), o = table(16);
        char errname[256]; snprintf(errname, sizeof errname, "%s/mc-replay-%d.err", tmp.c_str(), (int)getpid());
        pid_t pid = fork();
        if (pid == 0) {
            limits();
            int fd = open(errname, O_CREAT | O_TRUNC | O_WRONLY, 0600); dup2(fd, 2);
            static Ctx c; prepare(c, sh, s, o, 0, 1); c.verbose = true;
            memcpy(c.picks, path, sizeof(int) * (size_t)len); c.forced = len;
            static std::string k, m; int r = run_once(sc, c, k, m);
            if (r == 3) { c.forced = c.n; r = run_once(sc, c, k, m); if (r == 3) r = 2; }
            snprintf(sh->fail_msg, sizeof sh->fail_msg, "%s", m.c_str()); snprintf(sh->fail_key, sizeof sh->fail_key, "%s", k.c_str());
            for (int i = 0; i < sh->nknown && r == 0; ++i) { snprintf(sh->fail_msg, sizeof sh->fail_msg, "%s", sh->known[i].msg); snprintf(sh->fail_key, sizeof sh->fail_key, "%s", sh->known[i].key); }
            sh->failed = r; sh->done = 1; _exit(0); }
        double t0 = now_s(); int st = 0; bool hung = false; u64 seen = 0;
        while (waitpid(pid, &st, WNOHANG) == 0) {
            u64 t = sh->ticks.load(); if (t != seen) { seen = t; t0 = now_s(); }
            if (now_s() - t0 > limit) { kill(pid, SIGKILL); waitpid(pid, &st, 0); hung = true; break; }
            usleep(2000); }
        log.assign(sh->log, (size_t)sh->loglen); int r;
        if (hung) { r = 4; msg = "does not terminate (no result after " + std::to_string((int)limit) + " s alone)"; }
        else if (!sh->done && sh->diverged) { r = 5; msg = "replay diverged"; }
        else if (!sh->done) {
            r = 3; std::string err; if (FILE* f = fopen(errname, "r")) { char b[3000]; size_t k = fread(b, 1, sizeof b, f); err.assign(b, k); fclose(f); }
            msg = "crash (wait status " + std::to_string(st) + "): " + err; }
        else { r = sh->failed == 1 ? 0 : sh->failed; msg = sh->fail_msg; key = sh->fail_key; }
        unlink(errname); munmap(sh, sizeof(Shared)); munmap(s.slot, sizeof(u64) << 20); munmap(o.slot, sizeof(u64) << 16);
        return r; }

    struct Worker { pid_t pid; Shared* sh; u64 last; double since; bool running; };

    std::string explore(Scenario const& sc, bool& violated, int only_worker = -1) {
        double t0 = now_s(), deadline = t0 + budget_s;
        StateTable s = table(24), o = table(20);
        std::vector<Worker> ws;
        auto start = [&](int w, Shared* sh, const int* from, int len) {
            fflush(stdout); pid_t pid = fork();
            if (pid == 0) {
                limits();
                int fd = open("/dev/null", O_WRONLY); if (!getenv("MC_STDERR")) { dup2(fd, 2); } dup2(fd, 1);
                Ctx& c = *new Ctx(); prepare(c, sh, s, o, w, workers);
                if (len) { memcpy(c.picks, from, sizeof(int) * (size_t)len); c.forced = len; }
                worker_main(sc, c, deadline); _exit(0); }
            return Worker{pid, sh, 0, now_s(), true}; };
        for (int w = 0; w < workers; ++w) { Shared* sh = (Shared*)shm(sizeof(Shared)); ws.push_back(start(w, sh, nullptr, 0)); if (only_worker >= 0 && w != only_worker) { kill(ws.back().pid, SIGKILL); } }
        int bad = -1; std::string kind, msg, key, log, mode = "single"; std::vector<int> path; int slow = 0;
        bool broken = false;
        auto confirm = [&](int w, bool hang) {
            Worker& k = ws[(size_t)w];
            path.assign(k.sh->failed ? k.sh->fail_path : k.sh->path, k.sh->failed ? k.sh->fail_path + k.sh->fail_len : k.sh->path + k.sh->npick);
            std::string m1 = k.sh->failed ? k.sh->fail_msg : hang ? "no progress" : "crash";
            int r = replay(sc, path.data(), (int)path.size(), hang ? 60 : 30, log, msg, key);
            if (r != 0) { bad = w; return true; }
            if (hang) return false;
            // not reproducible alone: it depends on earlier executions in the same process
            mode = "shard"; msg = m1 + " (only after the earlier executions of the same process: hidden state)";
            if (only_worker >= 0) { bad = w; return true; }
            bool v2 = false; std::string again = explore(sc, v2, w);
            if (v2) { bad = w; return true; }
            broken = true; kind = "irreproducible: " + m1; return true; };
        while (bad < 0 && !broken) {
            bool any = false;
            for (int w = 0; w < workers && bad < 0 && !broken; ++w) {
                Worker& k = ws[(size_t)w]; if (!k.running) continue;
                int st; pid_t p = waitpid(k.pid, &st, WNOHANG);
                if (p == k.pid) {
                    k.running = false;
                    if (only_worker >= 0 && w != only_worker) continue;
                    if (k.sh->failed || !k.sh->done) confirm(w, false);
                    continue; }
                any = true;
                u64 t = k.sh->ticks.load();
                if (t != k.last) { k.last = t; k.since = now_s(); }
                else if (now_s() - k.since > hang_s) {
                    kill(k.pid, SIGKILL); waitpid(k.pid, &st, 0); k.running = false;
                    if (!confirm(w, true)) { // merely slow: go on from this path
                        if (++slow > 20) { broken = true; kind = "too slow"; break; }
                        std::vector<int> from = path; k = start(w, k.sh, from.data(), (int)from.size()); }
                } }
            if (!any) break;
            usleep(2000); }
        for (auto& k : ws) if (k.running) { kill(k.pid, SIGKILL); int st; waitpid(k.pid, &st, 0); }
        u64 ex = 0, tr = 0, pr = 0, ck = 0, md = 0; int trunc = 0;
        for (auto& k : ws) { ex += k.sh->executions; tr += k.sh->transitions; pr += k.sh->pruned; ck += k.sh->checks; if (k.sh->maxdepth > md) md = k.sh->maxdepth; if (k.sh->truncated > trunc) trunc = k.sh->truncated; }
        std::string js = "{\"scenario\":" + jstr(sc.name) + ",\"executions\":" + std::to_string(ex) + ",\"transitions\":" + std::to_string(tr)
            + ",\"pruned\":" + std::to_string(pr) + ",\"checks\":" + std::to_string(ck) + ",\"states\":" + std::to_string(s.count->load()) + ",\"outcomes\":" + std::to_string(o.count->load())
            + ",\"max_choices\":" + std::to_string(md) + ",\"truncated\":" + std::to_string(trunc) + ",\"wall_s\":" + std::to_string(now_s() - t0);
        // samples: re-run a few explored paths, logging the operations
        js += ",\"samples\":["; int ns = 0;
        if (bad < 0 && !broken && (now_s() - t0) * workers < 30.0 * (double)(ex + 1)) for (int i = 0; i < 4 && ns < 3; ++i) for (auto& k : ws) {
            if (i >= k.sh->nsample || ns >= 3) continue;
            std::string l, m, kk; replay(sc, k.sh->sample_path[i], k.sh->sample_len[i], 60, l, m, kk);
            if (ns++) js += ","; js += "{\"choices\":" + jpath(k.sh->sample_path[i], k.sh->sample_len[i]) + ",\"operations\":" + jstr(l.substr(0, 1500)) + "}"; break; }
        js += "],\"findings\":["; int nf = 0; std::vector<std::string> seen;
        for (auto& k : ws) for (int i = 0; i < k.sh->nknown; ++i) {
            std::string kk = k.sh->known[i].key; bool dup = false; for (auto& x : seen) dup = dup || x == kk; if (dup) continue; seen.push_back(kk);
            if (nf++) js += ","; js += "{\"key\":" + jstr(kk) + ",\"message\":" + jstr(k.sh->known[i].msg) + ",\"choices\":" + jpath(k.sh->known[i].path, k.sh->known[i].len) + "}"; }
        js += "]";
        if (bad >= 0) { violated = true;
            js += ",\"violation\":{\"mode\":" + jstr(mode) + ",\"worker\":" + std::to_string(bad) + ",\"key\":" + jstr(key) + ",\"message\":" + jstr(msg) + ",\"choices\":" + jpath(path.data(), (int)path.size()) + ",\"operations\":" + jstr(log) + "}"; }
        if (broken) js += ",\"error\":" + jstr(kind);
        js += "}";
        for (auto& k : ws) munmap(k.sh, sizeof(Shared));
        munmap(s.slot, sizeof(u64) << 24); munmap(o.slot, sizeof(u64) << 20);
        return js; }
};

inline int main_(int argc, char** argv) {
    Harness h; std::string only, rep, out; int shard = -1; bool list = false;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i]; auto val = [&] { return std::string(argv[++i]); };
        if (a == "--tier") h.tier = val() == "thorough" ? 1 : 0; else if (a == "--workers") h.workers = atoi(val().c_str());
        else if (a == "--scenario") only = val(); else if (a == "--replay") rep = val(); else if (a == "--tmp") h.tmp = val();
        else if (a == "--out") out = val(); else if (a == "--shard") shard = atoi(val().c_str()); else if (a == "--budget") h.budget_s = atof(val().c_str());
        else if (a == "--list") list = true; else { fprintf(stderr, "unknown option %s\n", a.c_str()); return 3; } }
    if (list) { for (auto& s : scenarios()) printf("%s\n", s.name.c_str()); return 0; }
    if (&__sanitizer_install_malloc_and_free_hooks) __sanitizer_install_malloc_and_free_hooks(malloc_hook, free_hook);
    FILE* f = out.empty() ? stdout : fopen(out.c_str(), "w");
    if (!rep.empty() || shard >= 0) {
        for (auto& s : scenarios()) if (s.name == only) {
            if (shard >= 0) { bool v = false; std::string js = h.explore(s, v, shard); fprintf(f, "%s\n", js.c_str()); return v ? 1 : 0; }
            std::vector<int> p; std::stringstream ss(rep); std::string t; while (std::getline(ss, t, ',')) if (!t.empty() && t != "-") p.push_back(atoi(t.c_str()));
            std::string log, msg, key; int r = h.replay(s, p.data(), (int)p.size(), 60, log, msg, key);
            fprintf(f, "operations: %s\nresult: %s%s%s\n", log.c_str(), r == 0 ? "no violation" : "violation: ", key.c_str(), msg.c_str()); return r == 0 && key.empty() ? 0 : 1; }
        fprintf(stderr, "no such scenario\n"); return 3; }
    bool violated = false; fprintf(f, "[\n"); bool first = true;
    for (auto& s : scenarios()) {
        if (!only.empty() && s.name != only) continue;
        std::string js = h.explore(s, violated);
        fprintf(f, "%s%s", first ? "" : ",\n", js.c_str()); first = false; fflush(f);
        if (violated) break; }
    fprintf(f, "\n]\n"); if (f != stdout) fclose(f);
    return violated ? 1 : 0; }

} // namespace mc

#define MC_MAIN int main(int argc, char** argv) { return mc::main_(argc, argv); }
#endif
