// Histories of operations on two arrays, against two vectors. Used for C03 (values) and C04 (lifetimes, faults).
#include "tracked.hpp"
#include "alloc.hpp"
#include <string>
#include <cmath>
#include <memory>
#include <limits>
#include <iostream>
#include "array.hpp"
using mc::Ctx; using mc::Tr; using mc::ledger; using mc::Boom;
using Helper::Array;

template<class T> T make(int k) { return T(k); }
template<> inline std::string make<std::string>(int k) { static const char* v[] = {"", "x", "a-string-that-is-longer-than-the-small-buffer", "yy"}; return v[k & 3]; }
template<> inline double make<double>(int k) { const double v[] = {0.0, -0.0, 1.5, std::numeric_limits<double>::quiet_NaN()}; return v[k & 3]; }
struct Padded { char c; int i; Padded() : Padded(0) { }
    Padded(int k) { memset((void*)this, 0x11 * (++salt & 7), sizeof *this); c = (char)k; i = k; }
    Padded(Padded const& p) { memset((void*)this, 0x11 * (++salt & 7), sizeof *this); c = p.c; i = p.i; }
    Padded& operator=(Padded const& p) { c = p.c; i = p.i; return *this; }
    static inline int salt = 0;
    bool operator==(Padded const& p) const { return c == p.c && i == p.i; } bool operator!=(Padded const& p) const { return !(*this == p); } };
// trivially copyable, with an equality that ignores a member
struct Loose { int v; int ignored; bool operator==(Loose const& p) const { return v == p.v; } bool operator!=(Loose const& p) const { return v != p.v; } };
template<> inline Loose make<Loose>(int k) { static int salt = 0; return Loose{k, ++salt & 3}; }
inline std::ostream& operator<<(std::ostream& os, Loose const& p) { return os << p.v; }
inline std::ostream& operator<<(std::ostream& os, Padded const& p) { return os << p.i; }

// an element with memory of its own
struct Owner : Tr { std::unique_ptr<int> p; Owner() : Owner(0) { } Owner(int k) : Tr(k), p(new int(k)) { } Owner(Owner const& o) : Tr(o), p(new int(*o.p)) { }
    Owner& operator=(Owner const& o) { std::unique_ptr<int> q(new int(*o.p)); Tr::operator=(o); p.swap(q); return *this; } };
inline bool operator==(Owner const& a, Owner const& b) { return a.get() == b.get() && *a.p == *b.p && *a.p == a.get(); } inline bool operator!=(Owner const& a, Owner const& b) { return !(a == b); }

// an element that has to lie at certain addresses
template<size_t A> struct alignas(A) Wide : Tr { Wide() : Wide(0) { } Wide(int k) : Tr(k) { here(); } Wide(Wide const& o) : Tr(o) { here(); } Wide& operator=(Wide const&) = default; __attribute__((noinline)) void here() { volatile size_t p = (size_t)(void*)this; if (p % A) mc::poison("an element was made at an address that is no multiple of its alignment"); } };
template<size_t A> bool operator==(Wide<A> const& a, Wide<A> const& b) { return a.get() == b.get(); } template<size_t A> bool operator!=(Wide<A> const& a, Wide<A> const& b) { return !(a == b); }
template<class T> bool same(T const& a, T const& b) { return a == b; }
template<> inline bool same(double const& a, double const& b) { return (a == b && std::signbit(a) == std::signbit(b)) || (a != a && b != b); }
template<class T> mc::u64 hash_of(T const& t) { std::ostringstream os; os << t; return mc::hash_str(os.str()); }
template<> inline mc::u64 hash_of(int const& t) { return (mc::u64)t; }
template<> inline mc::u64 hash_of(Tr const& t) { return (mc::u64)t.v; } template<> inline mc::u64 hash_of(Owner const& t) { return (mc::u64)t.v; }

struct NoFault { NoFault() { saved = ledger.countdown; ledger.countdown = -1; memory = mc::memory.countdown; mc::memory.countdown = -1; } ~NoFault() { ledger.countdown = saved; mc::memory.countdown = memory; } long saved, memory; };

template<class T> void look(Ctx& c, Array<T>& a, std::vector<T> const& m, const char* who, bool brief = true) {
    Array<T> const& k = a; size_t n = m.size();
    MC_CHECK(c, a.size() == n, "size of " << who << " is " << a.size() << " expected " << n);
    MC_CHECK(c, a.empty() == (n == 0), "emptiness of " << who);
    MC_CHECK(c, (size_t)(a.end() - a.begin()) == n && (size_t)(k.end() - k.begin()) == n, "iterator range of " << who);
    for (size_t i = 0; i != n; ++i) {
        MC_CHECK(c, same(a[i], m[i]), "element " << i << " of " << who << " (size " << n << ") is " << a[i] << " expected " << m[i]);
        bool thrown = false;
        try { MC_CHECK(c, &a.at(i) == &a[i] && &k.at(i) == &a[i] && &k[i] == &a[i] && a.begin() + i == &a[i] && k.begin() + i == &a[i], "access to element " << i << " of " << who << " by at, [] and iterators differs"); }
        catch (std::exception const&) { thrown = true; }
        MC_CHECK(c, !thrown, "checked access to valid index " << i << " of " << who << " threw"); }
    if (n) MC_CHECK(c, &a.front() == &a[0] && &k.front() == &a[0] && &a.back() == &a[n-1] && &k.back() == &a[n-1], "front and back of " << who);
    if (brief) return;
    const size_t bad[] = {n, size_t(-1), n + 1, n + 2, 2 * n + 1, size_t(1) << 31, size_t(1) << 32, (size_t(1) << 32) + n, size_t(1) << 63, size_t(-1) - n, size_t(-2)};
    for (size_t i : bad) if (i >= n) { int r = 0;
        try { (void)a.at(i); } catch (std::out_of_range const&) { r |= 1; } catch (std::exception const&) { }
        try { (void)k.at(i); } catch (std::out_of_range const&) { r |= 2; } catch (std::exception const&) { }
        MC_CHECK(c, r == 3, "checked access to index " << i << " of " << who << " (size " << n << ") did not throw an out-of-range error"); } }

enum Faults { no_faults, element_faults, memory_faults };
template<class T> struct Pair {
    Ctx& c; Array<T> a[2]; std::vector<T> m[2]; Faults faults; int budget = 1; int sizes; int values;
    Pair(Ctx& c_, Faults f, int sizes_, int values_) : c(c_), faults(f), sizes(sizes_), values(values_) { }
    T val(const char* w = "x") { return make<T>(c.choose(values, w)); }
    size_t siz() { return (size_t)c.choose(sizes, "n"); }

    enum { KINDS = 24 };
    // Runs a possibly failing operation on array i, the other one being changed too if both.
    template<class F> bool act(int i, bool both, F f) {
        int k = -1;
        if (faults && budget) { k = c.choose(40, "fault") - 1; if (k >= 0) c.note("%s %d fails", faults == memory_faults ? "allocation" : "element operation", k); }
        bool memory = faults == memory_faults; if (memory) mc::memory.plan(k); else ledger.plan(k); bool boom = false;
        try { f(); } catch (Boom const&) { boom = true; } catch (std::bad_alloc const&) { boom = true; }
        bool fired = memory ? mc::memory.fired : ledger.fired; ledger.cancel(); mc::memory.cancel(); mc::memory.fired = false;
        if (k >= 0 && !fired) { c.no_more(); throw mc::Skip(); }
        MC_CHECK(c, boom == fired || (memory && fired), (boom ? "spurious failure" : "the failure of an element operation did not reach the caller"));
        if (boom) { --budget;
            for (int j = 0; j != 2; ++j) {
                if (j != i && !both) look(c, a[j], m[j], "the other array after a failure");
                else { m[j].clear(); for (auto const& x : a[j]) { MC_CHECK(c, same(x, x) || x != x, ""); m[j].push_back(x); } } } }
        return !boom; }

    void step(int kind) {
        int i = c.choose(2, "array"), j = 1 - i; Array<T>& A = a[i]; Array<T>& B = a[j]; std::vector<T>& M = m[i]; std::vector<T>& N = m[j];
        switch (kind) {
          case 0: { T x = val(); size_t n = siz(); c.op("a%d=Array(%zu,x)", i, n); if (act(i, false, [&] { A = Array<T>(n, x); })) M.assign(n, x); break; }
          case 1: { size_t n = siz(); c.op("a%d=Array(%zu)", i, n); if (act(i, false, [&] { A = Array<T>(n); })) M.assign(n, T()); break; }
          case 2: { c.op("a%d={0,1,2}", i); if (act(i, false, [&] { A = Array<T>{make<T>(0), make<T>(1), make<T>(2)}; })) M = {make<T>(0), make<T>(1), make<T>(2)}; break; }
          case 3: { c.op("a%d=a%d", i, j); if (act(i, false, [&] { auto&& r = (A = B); MC_CHECK(c, &r == &A, "assignment does not return the array assigned to"); })) M = N; break; }
          case 4: { c.op("a%d=a%d(itself)", i, i); Array<T>& S = A; act(i, false, [&] { A = S; }); break; }
          case 5: { c.op("a%d=move(a%d)", i, j); if (act(i, true, [&] { auto&& r = (A = std::move(B)); MC_CHECK(c, &r == &A, "move assignment does not return the array assigned to"); })) { M = N; N.clear(); } break; }
          case 6: { c.op("a%d built as copy, a%d moved out", i, j); bool ok = false; Array<T>* P = nullptr;
                    ok = act(i, true, [&] { P = new Array<T>(A); });
                    if (ok) { look(c, *P, M, "copy"); Array<T> Q(std::move(*P)); MC_CHECK(c, P->size() == 0 && P->empty(), "moved-from array has size " << P->size()); look(c, *P, std::vector<T>(), "moved-from array"); look(c, Q, M, "move-constructed array");
                        B.swap(Q); N = M; delete P; } break; }
          case 7: { c.op("swap(a%d,a%d)", i, j); A.swap(B); M.swap(N); break; }
          case 8: { c.op("swap(a%d,itself)", i); A.swap(A); Array<T>& S = A; act(i, false, [&] { A = std::move(S); }); break; }
          case 9: { size_t n = siz(); c.op("a%d.resize(%zu)", i, n); if (act(i, false, [&] { A.resize(n); })) M.resize(n, T()); break; }
          case 10: { T x = val(); size_t n = siz(); c.op("a%d.resize(%zu,x)", i, n); if (act(i, false, [&] { A.resize(n, x); })) M.resize(n, x); break; }
          case 11: { if (M.empty()) throw mc::Skip(); size_t k = (size_t)c.choose((int)M.size(), "k"), n = siz(); c.op("a%d.resize(%zu,a%d[%zu])", i, n, i, k); T x = M[k]; if (act(i, false, [&] { A.resize(n, A[k]); })) M.resize(n, x); break; }
          case 12: { size_t n = siz(); if (n == M.size()) throw mc::Skip(); c.op("a%d.reallocate(%zu)", i, n); if (act(i, false, [&] { A.reallocate(n); })) M.assign(n, T()); break; }
          case 13: { T x = val(); c.op("a%d.fill(x)", i); if (act(i, false, [&] { A.fill(x); })) for (auto& e : M) e = x; break; }
          case 14: { if (M.empty()) throw mc::Skip(); size_t k = (size_t)c.choose((int)M.size(), "k"); c.op("a%d.fill(a%d[%zu])", i, i, k); T x = M[k]; if (act(i, false, [&] { A.fill(A[k]); })) for (auto& e : M) e = x; break; }
          case 15: { c.op("a%d.fill(iterator)", i); std::vector<T> src; for (int k = 0; k != 12; ++k) src.push_back(make<T>(k + 1)); if (act(i, false, [&] { A.fill(src.begin()); })) for (size_t k = 0; k != M.size(); ++k) M[k] = src[k]; break; }
          case 16: { c.op("a%d.assign(a%d)", i, j); if (act(i, false, [&] { A.assign(B.begin(), B.end()); })) M = N; break; }
          case 17: { size_t n = siz(); c.op("a%d.assign(range of %zu)", i, n); std::vector<T> src; for (size_t k = 0; k != n; ++k) src.push_back(make<T>((int)k + 1)); if (act(i, false, [&] { A.assign(src.begin(), src.end()); })) M = src; break; }
          case 18: { if (M.empty()) throw mc::Skip(); size_t k = (size_t)c.choose((int)M.size(), "k"); T x = val(); int how = c.choose(4, "how"); c.op("a%d[%zu]=x", i, k);
                     if (act(i, false, [&] { (how == 0 ? A[k] : how == 1 ? A.at(k) : how == 2 ? *(A.begin() + k) : *(A.end() - (M.size() - k))) = x; })) M[k] = x; break; }
          case 19: { size_t n = siz(); c.op("a%d=Array(%zu,generator)", i, n); std::vector<size_t> calls; auto g = [&](size_t k) { { mc::Disarm d; calls.push_back(k); } return make<T>((int)k); };
                     bool ok = act(i, false, [&] { A = Array<T>(n, g); });
                     if (ok) { MC_CHECK(c, calls.size() == n, "generator called " << calls.size() << " times for " << n << " elements"); for (size_t k = 0; k != n; ++k) MC_CHECK(c, calls[k] == k, "generator called for index " << calls[k] << " at position " << k); M.clear(); for (size_t k = 0; k != n; ++k) M.push_back(make<T>((int)k)); }
                     { mc::Disarm d; std::vector<size_t>().swap(calls); } break; }
          case 20: { size_t n = siz(); c.op("a%d=Array(range of %zu)", i, n); std::vector<T> src; for (size_t k = 0; k != n; ++k) src.push_back(make<T>((int)k + 1)); if (act(i, false, [&] { A = Array<T>(src.begin(), src.end()); })) M = src; break; }
          case 21: { if (M.empty()) throw mc::Skip(); T x = val(); c.op("a%d.back()=x,front()=back()", i); if (act(i, false, [&] { A.back() = x; A.front() = A.back(); })) { M.back() = x; M.front() = x; } break; }
          case 22: { if (M.empty()) throw mc::Skip(); c.op("a%d.assign(tail of a%d)", j, i); if (act(j, false, [&] { B.assign(A.begin() + 1, A.end()); })) N.assign(M.begin() + 1, M.end()); break; }
          case 23: { c.op("a%d=Array(%zu,Uninitialised)", i, M.size()); if (act(i, false, [&] { Array<T> R(M.size(), Helper::Uninitialised()); size_t k = 0;
                        try { for (; k != M.size(); ++k) new (&R[k]) T(A[k]); }
                        catch (...) { NoFault nf; for (; k != M.size(); ++k) new (&R[k]) T(make<T>(0)); throw; }
                        A = std::move(R); })) { } break; }
        } }
    void look_all() {
        NoFault nf; look(c, a[0], m[0], "a0"); look(c, a[1], m[1], "a1");
        bool eq = m[0].size() == m[1].size(); if (eq) for (size_t k = 0; k != m[0].size(); ++k) eq = eq && m[0][k] == m[1][k];
        MC_CHECK(c, (a[0] == a[1]) == eq && (a[1] == a[0]) == eq && (a[0] != a[1]) == !eq, "equality of arrays is wrong (expected " << eq << ")");
        for (int i = 0; i != 2; ++i) { bool self = true; for (auto const& x : m[i]) self = self && x == x; Array<T> const& k = a[i]; MC_CHECK(c, (k == k) == self, "equality of an array with itself"); } }
    mc::u64 hash() { mc::u64 h = mc::mix(3, (mc::u64)budget); for (auto& v : m) { h = mc::mix(h, v.size() + 100); for (auto& x : v) h = mc::mix(h, hash_of(x)); } return h; }
};

// All histories of the given depth; prune: continue only from states not seen before.
template<class T> void histories(Ctx& c, int depth, Faults faults, bool prune, int sizes, int values) {
    { Pair<T> p(c, faults, sizes, values);
      for (int s = 0; s != depth; ++s) {
        int k = c.choose(Pair<T>::KINDS + 1, "op"); if (k == 0) break;
        p.step(k - 1); p.look_all();
        if (prune) c.state_or_prune(p.hash(), depth - s); else c.state(p.hash()); }
      c.outcome(p.hash()); } }
