// C17: coded variants of every number of alternatives, every position, many assignments of codes.
#include <climits>
#include <cstdlib>
#include <csetjmp>
#include <csignal>
#include <cstring>
#include "mc.hpp"
#include "variant.hpp"
#include "variant.inl.hpp"
using mc::Ctx; using Helper::CodedVariant;
// ---- assignments of codes: element i of n
struct Same { typedef int C; static constexpr C code(int i, int) { return i; } };
struct Reversed { typedef int C; static constexpr C code(int i, int n) { return n - 1 - i; } };
struct Sparse { typedef int C; static constexpr C code(int i, int) { return i * 17 + 3; } };
struct Signed { typedef int C; static constexpr C code(int i, int) { return (i % 2 ? 1 : -1) * (1000 * i + 1); } };
struct Extreme { typedef int C; static constexpr C code(int i, int) { return i % 2 ? INT_MIN + i - 1 : INT_MAX - i; } };
struct Letters { typedef char C; static constexpr C code(int i, int) { return (char)('a' + (i * 7) % 26); } };
struct Bytes { typedef unsigned char C; static constexpr C code(int i, int) { return (unsigned char)(255 - i * 15); } };
struct Wide { typedef long long C; static constexpr C code(int i, int) { return ((long long)i << 32) + 7; } };
enum class E : unsigned { };
struct Enumerated { typedef E C; static constexpr C code(int i, int) { return E((i * 5 + 1) % 16); } };
struct High { typedef unsigned C; static constexpr C code(int i, int) { return 0xFFFFFFF0u + (unsigned)((i * 3) % 16); } };
// The alternatives report their code in a narrower type than that of the variant.
struct Narrow { typedef long C; static constexpr short code(int i, int) { return (short)(300 * i - 2000); } };
template<class S, int N, int I> struct Alt { static constexpr auto code() { return S::code(I, N); } static constexpr int index = I; };

static int calls; static int last; static int slot[32]; static const void* self;
struct Int { int operator()(auto const& a) const { ++calls; last = a.index; self = this; return 100 + a.index; } };
struct Ref { int& operator()(auto const& a) const { ++calls; last = a.index; return slot[a.index]; } };
struct CRef { int const& operator()(auto a) const { ++calls; last = a.index; return slot[a.index]; } };
struct Void { void operator()(auto const& a) const { ++calls; last = a.index; } };
struct Moved { std::unique_ptr<int> operator()(auto const& a) const { ++calls; last = a.index; return std::make_unique<int>(200 + a.index); } };
struct Text { std::string operator()(auto a) const { ++calls; last = a.index; return "alternative number " + std::to_string(a.index); } };
struct Thrower { int operator()(auto const& a) const { ++calls; last = a.index; if (a.index % 2 == 0) throw a.index; return a.index; } };
struct Kept { Kept() = default; Kept(Kept const&) = delete; mutable int seen = 0; bool operator()(auto const& a) const { ++calls; last = a.index; ++seen; return a.index > 0; } };

template<class S, int N, class Is> struct MakeT; template<class S, int N, int... I> struct MakeT<S, N, std::integer_sequence<int, I...>> { typedef CodedVariant<typename S::C, Alt<S, N, I>...> Type; };
template<class S, int N> using Var = typename MakeT<S, N, std::make_integer_sequence<int, N>>::Type;
// The variant holding alternative p, made in the given way.
template<class S, int N, int I = 0> Var<S, N> make(int p, int how) {
    if constexpr (I + 1 < N) if (p != I) return make<S, N, I + 1>(p, how);
    Alt<S, N, I> a; if (how == 0) return Var<S, N>(a); if (how == 1) { Var<S, N> v = a; return v; } if (how == 2) return Var<S, N>((typename S::C)S::code(I, N)); return Alt<S, N, I>(); }
template<class S, int N, int I> void recognised(Ctx& c, Var<S, N> const& v, int p) {
    MC_CHECK(c, (Helper::holds_alternative<Alt<S, N, I>>(v) == (p == I)), "variant of " << N << " holding " << p << " is asked for alternative " << I);
    if constexpr (I + 1 < N) recognised<S, N, I + 1>(c, v, p); }
template<class F> void visited(Ctx& c, int n, int p, const char* what, F f) { calls = 0; last = -1; f(); MC_CHECK(c, calls == 1, what << ": the visitor was called " << calls << " times (" << n << " alternatives, holding " << p << ")"); MC_CHECK(c, last == p, what << ": the visitor was called on alternative " << last << " of " << n << " holding " << p); c.ops(1); }
template<class S, int N> void inspect(Ctx& c, Var<S, N> const& v, int p) {
    MC_CHECK(c, v.code() == (typename S::C)S::code(p, N), "wrong code of alternative " << p << " of " << N); recognised<S, N, 0>(c, v, p);
    visited(c, N, p, "int", [&] { Int w; int r = v.accept(w); MC_CHECK(c, r == 100 + p, "visiting returned " << r << " for alternative " << p << " of " << N); MC_CHECK(c, (std::is_same<decltype(v.accept(w)), int>::value), "type of the result"); });
    visited(c, N, p, "temporary", [&] { int r = v.accept(Int()); MC_CHECK(c, r == 100 + p, "visiting returned " << r); }); }
template<class S, int N> void visitors(Ctx& c, Var<S, N> const& v, int p) {
    visited(c, N, p, "reference", [&] { Ref w; int* q = &v.accept(w); MC_CHECK(c, q == slot + p, "the reference returned is another one"); });
    visited(c, N, p, "const reference", [&] { CRef w; const int* q = &v.accept(w); MC_CHECK(c, q == slot + p, "the reference returned is another one"); });
    visited(c, N, p, "void", [&] { v.accept(Void()); });
    visited(c, N, p, "moved", [&] { auto r = v.accept(Moved()); MC_CHECK(c, r && *r == 200 + p, "result lost"); });
    visited(c, N, p, "text", [&] { auto r = v.accept(Text()); MC_CHECK(c, r == "alternative number " + std::to_string(p), "result " << r); });
    visited(c, N, p, "throwing", [&] { int r = -1, t = -1; try { r = v.accept(Thrower()); } catch (int x) { t = x; } MC_CHECK(c, p % 2 == 0 ? t == p && r == -1 : r == p && t == -1, "alternative " << p << " gave " << r << " and threw " << t); });
    visited(c, N, p, "kept", [&] { Kept k; bool r = v.accept(k); MC_CHECK(c, r == (p > 0) && k.seen == 1, "the visitor given saw " << k.seen << " calls"); });
    inspect<S, N>(c, v, p); }
template<class S, int N> void one(Ctx& c) {
    int p = c.choose(N, "position"), how = c.choose(4, "made"); c.op("%d alternatives", N); Var<S, N> v = make<S, N>(p, how); visitors<S, N>(c, v, p); inspect<S, N>(c, v, p);
    for (int q = 0; q != N; ++q) { Var<S, N> w = make<S, N>(q, (how + q) % 4); inspect<S, N>(c, w, q); Var<S, N> x(v), y(w); x = w; inspect<S, N>(c, x, q); y = v; inspect<S, N>(c, y, p); std::swap(x, y); inspect<S, N>(c, x, p); inspect<S, N>(c, y, q); x = x; inspect<S, N>(c, x, p); inspect<S, N>(c, w, q); inspect<S, N>(c, v, p); x = make<S, N>(q, 3); inspect<S, N>(c, x, q); }
    c.state(mc::mix(mc::mix((mc::u64)N, (mc::u64)p), mc::hash_str(typeid(S).name()))); c.outcome((mc::u64)p); }
template<class S, int N = 1> void all(Ctx& c, int n) { if constexpr (N <= 16) { if (n == N) one<S, N>(c); else all<S, N + 1>(c, n); } }
#define CODES(S) MC_SCENARIO(codes_##S) { all<S>(c, 1 + c.choose(16, "alternatives")); }
#if PART == 0
CODES(Same) CODES(Reversed)
#elif PART == 1
CODES(Sparse) CODES(Signed)
#elif PART == 2
CODES(Extreme) CODES(Letters)
#elif PART == 3
CODES(Bytes) CODES(Wide)
#elif PART == 4
CODES(Enumerated) CODES(High)
#elif PART == 5
CODES(Narrow)
// Variants of different kinds in one history: assignment and visiting in any order.
template<class S, int N> void history(Ctx& c, int depth) { Var<S, N> a = make<S, N>(0, 0), b = make<S, N>(N - 1, 1), d = make<S, N>(N / 2, 2); Var<S, N>* v[3] = {&a, &b, &d}; int m[3] = {0, N - 1, N / 2}; 
    for (int q = 0; q != depth; ++q) { int k = c.choose(10); if (k == 0) break; --k; if (k < 6) { int i = k / 2, j = (i + 1 + k % 2) % 3; c.op("v%d=v%d", i, j); *v[i] = *v[j]; m[i] = m[j]; } else { int i = k - 6; m[i] = (m[i] + 1) % N; c.op("v%d=alternative %d", i, m[i]); *v[i] = make<S, N>(m[i], q % 4); }
        mc::u64 h = 1; for (int i = 0; i != 3; ++i) { inspect<S, N>(c, *v[i], m[i]); h = mc::mix(h, (mc::u64)m[i]); } c.state(h); } }
MC_SCENARIO(history_2) { history<Wide, 2>(c, c.bound(5, 6)); }
MC_SCENARIO(history_5) { history<Signed, 5>(c, c.bound(5, 6)); }
MC_SCENARIO(history_16) { history<Enumerated, 16>(c, c.bound(4, 6)); }
#else
// Codes that no alternative has: whatever else happens, no alternative is visited. All other codes of a byte; for wider codes those near, or equal modulo 2^8, 2^16 or 2^32 to, the codes of the alternatives.
static sigjmp_buf ended; static void on_abort(int) { siglongjmp(ended, 1); }
template<class S, int N> void foreign(Ctx& c, std::vector<typename S::C> const& codes) {
    struct sigaction a, old; std::memset(&a, 0, sizeof a); a.sa_handler = on_abort; a.sa_flags = SA_NODEFER;
    for (auto code : codes) { bool has = false; for (int i = 0; i != N; ++i) has = has || (typename S::C)S::code(i, N) == code; if (has) continue;
        calls = 0; static int volatile end; end = 0; sigaction(SIGABRT, &a, &old);
        if (sigsetjmp(ended, 1) == 0) { try { Var<S, N> v(code); v.accept(Int()); end = 1; } catch (...) { end = 2; } }
        sigaction(SIGABRT, &old, nullptr);
        MC_CHECK(c, calls == 0, "a variant of " << N << " alternatives with code " << (long long)code << ", which none of them has, ran the visitor on alternative " << last);
        MC_CHECK(c, end != 1, "visiting a variant of " << N << " alternatives with code " << (long long)code << ", which none of them has, gave a result"); c.state(mc::mix((mc::u64)N, (mc::u64)code)); } }
template<class S> std::vector<typename S::C> near_codes(int n) { typedef typename S::C T; std::vector<T> r;
    if constexpr (sizeof(T) == 1) for (int k = 0; k != 256; ++k) r.push_back((T)k);
    else { auto add = [&](unsigned long long x) { r.push_back((T)x); }; for (int i = 0; i != n; ++i) { unsigned long long k = (unsigned long long)(T)S::code(i, n);
        for (int d = -3; d != 4; ++d) add(k + (unsigned long long)d); for (int b = 0; b != (int)sizeof(T) * 8; ++b) { add(k ^ (1ull << b)); add(k + (1ull << b)); } add(~k); add(0 - k); } for (int k = -2; k != 40; ++k) add((unsigned long long)k); }
    return r; }
template<class S, int... N> void foreigns(Ctx& c, std::integer_sequence<int, N...>) { int n = 1 + c.choose(16, "alternatives"); c.op("%d alternatives", n); auto r = near_codes<S>(n); bool done = ((n == N + 1 && (foreign<S, N + 1>(c, r), true)) || ...); MC_CHECK(c, done, "no such number"); c.outcome((mc::u64)n); }
#define FOREIGN(S) MC_SCENARIO(foreign_##S) { foreigns<S>(c, std::make_integer_sequence<int, 16>()); }
#if PART == 6
FOREIGN(Same) FOREIGN(Sparse) FOREIGN(Extreme) FOREIGN(Letters)
#else
FOREIGN(Bytes) FOREIGN(Wide) FOREIGN(High)
#endif
#endif
MC_MAIN
