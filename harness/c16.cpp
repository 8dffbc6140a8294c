// C16: random values under chosen answers of the generator, and seeding under chosen entropy.
#include "vclock.hpp"
#include <random>
#include <cfloat>
#include <climits>
#include <cmath>
#include <set>
// ---- entropy of the environment
static unsigned the_entropy = 1; static int entropy_mode = 0; static unsigned entropy_calls = 0;
std::random_device::result_type std::random_device::_M_getval() { ++entropy_calls; return entropy_mode == 0 ? ::the_entropy : ::the_entropy + (entropy_calls - 1) * 0x9E3779B9u; }
#include "randomiser.hpp"
using mc::Ctx; typedef unsigned u32; typedef uint64_t u64;
using Helper::UniformIntRandomiser; using Helper::UniformRealRandomiser;
// ---- answers of the generator: a Mersenne twister whose next outputs are chosen (its output function is inverted)
static u32 untemper(u32 y) { y ^= y >> 18; y ^= (y << 15) & 0xefc60000u; u32 x = y; for (int i = 0; i != 5; ++i) x = y ^ ((x << 7) & 0x9d2c5680u); y = x; x = y; for (int i = 0; i != 3; ++i) x = y ^ (x >> 11); return x; }
static void load(std::mt19937& e, std::vector<u32> const& first, u32 filler = 77) {
    static char buf[624 * 12 + 32]; char* p = buf; for (int i = 0; i != 624; ++i) { u32 a = i < (int)first.size() ? first[(size_t)i] : (u32)(i + 1) * 0x9E3779B1u + filler; u32 x = untemper(a); char t[12]; int n = 0; do { t[n++] = (char)('0' + x % 10); x /= 10; } while (x); while (n) *p++ = t[--n]; *p++ = ' '; } *p++ = '0'; *p = 0;
    std::istringstream is(buf); is >> e; }
// The same for the first few answers only, by writing the state in place (checked against the above by self_test).
struct Raw { unsigned long x[624]; size_t p; }; static_assert(sizeof(Raw) == sizeof(std::mt19937), "layout");
static inline void load_fast(void* e, u32 const* a, int n) { Raw* r = (Raw*)e; for (int i = 0; i != n; ++i) r->x[i] = untemper(a[i]); r->p = 0; }
#ifndef NO_ENGINE
static auto& engine() { return Helper::RANDOM_GENERATOR.engine(); }
typedef std::remove_reference_t<decltype(engine())> Engine;
template<class E> constexpr bool controllable = std::is_same<E, std::mt19937>::value;
static void answers(Ctx& c, std::vector<u32> const& a, u32 filler = 77) { if constexpr (controllable<Engine>) { load(engine(), a, filler); } else throw mc::Skip(); }
MC_SCENARIO(self_test) { c.choose(2, "k"); std::vector<u32> a; for (u32 i = 0; i != 624; ++i) a.push_back(i * 2654435761u + 5); std::mt19937 e; load(e, a); c.op("load"); bool ok = true; for (u32 x : a) ok = ok && e() == x; u32 b[3] = {7, 0xfffffff0u, 123456789u}; load_fast(&e, b, 3); for (int i = 0; i != 3; ++i) ok = ok && e() == b[i]; ok = ok && e() == a[3]; if (!ok) { fprintf(stderr, "harness: generator not controlled\n"); _exit(4); } c.checked(); c.state(1); c.outcome(1); }
static const u32 edge[] = {0, 1, 0x7fffffffu, 0x80000000u, 0xffffffffu, 0xfffffffeu, 0x55555555u};
// ---- every answer sequence from a boundary alphabet, every interval from a boundary set
template<class T> void bounds(Ctx& c, std::vector<std::pair<T, T>> const& ivs, int len) {
    auto iv = ivs[(size_t)c.choose((int)ivs.size(), "interval")]; std::vector<u32> a; for (int i = 0; i != len; ++i) a.push_back(c.pick(edge, "answer")); u32 filler = (u32)c.choose(2, "rest") * 0x80000000u; answers(c, a, filler);
    auto check = [&](T v, const char* what) { MC_CHECK(c, v >= iv.first && v <= iv.second, what << " of [" << +iv.first << "," << +iv.second << "] is " << +v); };
    c.op("draw"); if constexpr (std::is_integral<T>::value) { UniformIntRandomiser<T> r(iv.first, iv.second), r2(r); for (int i = 0; i != 4; ++i) { check(r.get(), "an integer"); check(r2.get(), "an integer"); } Helper::RandomiserInterface<T>& b = r; check(b.get(), "an integer"); }
    else { UniformRealRandomiser<T> r(iv.first, iv.second), r2(r); for (int i = 0; i != 4; ++i) { check(r.get(), "a real"); check(r2.get(), "a real"); } Helper::RandomiserInterface<T>& b = r; check(b.get(), "a real"); }
    mc::u64 h = 7; for (u32 x : a) h = mc::mix(h, x); c.state(mc::mix(h, (u64)filler)); c.outcome(h & 63); c.ops(8); }
template<class T> std::vector<std::pair<T, T>> ints() { T lo = std::numeric_limits<T>::min(), hi = std::numeric_limits<T>::max(); std::vector<std::pair<T, T>> v{{lo, hi}, {0, hi}, {lo, lo}, {hi, hi}, {(T)(hi - 1), hi}, {lo, (T)(lo + 1)}, {0, 0}, {0, 1}, {0, 2}, {3, 9}, {1, 6}, {0, 99}, {(T)(hi / 2), hi}, {(T)(lo / 2), (T)(hi / 2)}, {0, (T)(hi - 1)}, {1, hi}}; if (lo < 0) { v.push_back({lo, 0}); v.push_back({(T)-1, (T)1}); v.push_back({(T)-7, (T)-3}); v.push_back({lo, (T)-1}); v.push_back({(T)(lo + 1), hi}); } return v; }
template<class T> std::vector<std::pair<T, T>> reals() { T M = std::numeric_limits<T>::max(), m = std::numeric_limits<T>::min(), e = std::numeric_limits<T>::epsilon(); return {{0, 1}, {-1, 1}, {0, M}, {-M / 2, M / 2}, {0, 0}, {5, 5}, {1, 1 + e}, {0, m}, {-m, m}, {1, 2}, {-3, T(-2.5)}, {1000000, 1000001}, {T(0.1), T(0.3)}, {-M, 0}, {0, std::numeric_limits<T>::denorm_min()}, {T(-1e-3), T(1e6)}}; }
MC_SCENARIO(int_bounds) { bounds<int>(c, ints<int>(), c.bound(4, 5)); }
MC_SCENARIO(unsigned_bounds) { bounds<unsigned>(c, ints<unsigned>(), 3); }
MC_SCENARIO(short_bounds) { bounds<short>(c, ints<short>(), 3); }
MC_SCENARIO(long_bounds) { bounds<long>(c, ints<long>(), c.bound(4, 5)); }
MC_SCENARIO(ulonglong_bounds) { bounds<unsigned long long>(c, ints<unsigned long long>(), 4); }
MC_SCENARIO(double_bounds) { bounds<double>(c, reals<double>(), 4); }
MC_SCENARIO(float_bounds) { bounds<float>(c, reals<float>(), c.bound(3, 4)); }
MC_SCENARIO(longdouble_bounds) { bounds<long double>(c, reals<long double>(), 4); }
// ---- over a complete lattice of answers, each outcome (or pair of successive outcomes) comes equally often
static const u32 mult[] = {2654435769u, 3242174889u, 2447445413u, 1181783497u, 3860031u * 2 + 1, 2891336453u, 747796405u, 1664525u, 22695477u, 1103515245u, 134775813u, 214013u};

template<class F> void spread(Ctx& c, int cells, u64 N, int per, double tol, const char* what, F draw) {      // draw() -> cell
    std::vector<u64> count((size_t)cells, 0); u32 a[12]; answers(c, {});
    for (u64 i = 0; i < N; ++i) { for (int k = 0; k != per; ++k) a[k] = (u32)i * mult[k] + 0x1234567u * (u32)(k + 1) + (u32)(i >> 32); load_fast(&engine(), a, per); int cell = draw(); if (cell < 0 || cell >= cells) c.fail(std::string(what) + ": a value outside the interval"); ++count[(size_t)cell]; if ((i & 0xfffff) == 0) c.ops(1); } c.ops(N); c.checked();
    double e = (double)N / cells; for (int i = 0; i != cells; ++i) MC_CHECK(c, std::fabs((double)count[(size_t)i] - e) <= tol * e + 6, what << ": over " << N << " evenly spread generator answers outcome " << i << " of " << cells << " came " << count[(size_t)i] << " times, expected about " << e); c.outcome((u64)cells); c.state((u64)cells * 1000 + N + 1); }
// One value: all integers of the interval; all cells of a real interval.
template<class T> void spread_int(Ctx& c, T lo, int n, u64 N) { T hi = (T)(lo + (T)(n - 1)); UniformIntRandomiser<T> r(lo, hi); c.op("integers of [%lld,%lld]", (long long)lo, (long long)hi); spread(c, n, N, 4, 0.02, "one integer", [&] { return (int)(r.get() - lo); }); }
template<class T> void spread_real(Ctx& c, T lo, T hi, int cells, u64 N) { UniformRealRandomiser<T> r(lo, hi); c.op("%d cells of a real interval", cells); T w = (hi - lo) / (T)cells; spread(c, cells, N, 4, 0.02, "one real", [&] { T v = r.get(); if (!(v >= lo && v <= hi)) return -1; int k = (int)((v - lo) / w); return k >= cells ? cells - 1 : k; }); }
MC_SCENARIO(spread_ints) { static const int ns[] = {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 16, 17, 24, 31, 32, 33, 50, 64, 99, 100, 101, 127, 128, 129, 200, 255, 256, 257, 365, 500, 999, 1000}; int n = c.pick(ns, "n"), k = c.choose(8, "kind"); c.split(); u64 N = 1ull << c.bound(19, 21); switch (k) { case 0: spread_int<int>(c, 0, n, N); break; case 1: spread_int<int>(c, -n / 2, n, N); break; case 2: spread_int<long>(c, 1, n, N); break; case 3: spread_int<unsigned>(c, 0, n, N); break; case 4: spread_int<short>(c, (short)-5, n, N); break; case 5: spread_int<int>(c, INT_MAX - n + 1, n, N); break; case 6: spread_int<long long>(c, LLONG_MIN, n, N); break; case 7: spread_int<unsigned long>(c, ULONG_MAX - (u32)n + 1, n, N); break; } }
// Large intervals: each of a number of equal parts equally often.
MC_SCENARIO(spread_wide) { int k = c.choose(7, "interval"); static const int cs[] = {2, 3, 5, 8, 64, 100}; int cells = c.pick(cs, "cells"); c.split(); u64 N = 1ull << c.bound(19, 21); c.op("wide interval %d", k); auto go = [&](auto lo, auto hi) { typedef decltype(lo) T; UniformIntRandomiser<T> r(lo, hi); long double w = ((long double)hi - (long double)lo + 1) / cells; spread(c, cells, N, 12, 0.03, "one integer of a wide interval", [&] { T v = r.get(); if (v < lo || v > hi) return -1; int q = (int)(((long double)v - (long double)lo) / w); return q >= cells ? cells - 1 : q; }); };
    switch (k) { case 0: go(INT_MIN, INT_MAX); break; case 1: go(0, INT_MAX); break; case 2: go(0u, UINT_MAX); break; case 3: go(LONG_MIN, LONG_MAX); break; case 4: go(0L, (1L << 40) - 1); break; case 5: go(-1000000, 1000000); break; case 6: go((unsigned long)1, ULONG_MAX); break; } }
MC_SCENARIO(spread_reals) { int k = c.choose(7, "interval"); static const int cs[] = {2, 3, 10, 64, 100, 1000}; int cells = c.pick(cs, "cells"), ty = c.choose(3, "type"); c.split(); u64 N = 1ull << c.bound(19, 21); static const double lo[] = {0, -1, 5, -1e6, 1, -0.25, 100}, hi[] = {1, 1, 15, 1e6, 1.5, 0, 1000}; if (ty == 0) spread_real<double>(c, lo[k], hi[k], cells, N); else if (ty == 1) spread_real<float>(c, (float)lo[k], (float)hi[k], cells, N); else spread_real<long double>(c, lo[k], hi[k], cells, N); }
// Two successive values, of one randomiser or of two: all pairs equally often.
template<class A, class B> void spread_pair(Ctx& c, int n, int m, u64 N, const char* what, A first, B second) { spread(c, n * m, N, 8, 0.12, what, [&] { int x = first(), y = second(); return x < 0 || x >= n || y < 0 || y >= m ? -1 : x * m + y; }); }
MC_SCENARIO(spread_pairs) { static const int ns[] = {2, 3, 4, 6, 10}; int n = c.pick(ns, "n"), m = c.pick(ns, "m"), k = c.choose(10, "kind"); c.split(); u64 N = 1ull << c.bound(18, 21); c.op("pairs %d x %d kind %d", n, m, k); UniformIntRandomiser<int> a(0, n - 1), b(10, 9 + m); UniformIntRandomiser<long> l(0, m - 1); UniformRealRandomiser<double> d(0, 1); UniformRealRandomiser<float> f(0, 1); auto ia = [&] { return (int)a.get(); }; auto cell = [](double x, int q) { int r = (int)(x * q); return r >= q ? q - 1 : r; };
    switch (k) { case 0: { if (m != n) throw mc::Skip(); spread_pair(c, n, n, N, "two integers of one randomiser", ia, ia); break; } case 1: spread_pair(c, n, m, N, "integers of two randomisers", ia, [&] { return b.get() - 10; }); break; case 2: spread_pair(c, n, m, N, "an int and a long", ia, [&] { return (int)l.get(); }); break; case 3: spread_pair(c, n, m, N, "two reals of one randomiser", [&] { return cell(d.get(), n); }, [&] { return cell(d.get(), m); }); break; case 4: spread_pair(c, n, m, N, "an integer and a real", ia, [&] { return cell(d.get(), m); }); break; case 5: spread_pair(c, n, m, N, "a real and an integer", [&] { return cell(d.get(), n); }, [&] { return b.get() - 10; }); break; case 6: spread_pair(c, n, m, N, "a float and a double", [&] { return cell(f.get(), n); }, [&] { return cell(d.get(), m); }); break; case 7: spread_pair(c, n, m, N, "a value of a new randomiser and another", [&] { UniformIntRandomiser<int> t(0, n - 1); return t.get(); }, [&] { UniformIntRandomiser<int> t(0, m - 1); return t.get(); }); break;
        case 8: { if (m != n) throw mc::Skip(); spread_pair(c, n, n, N, "a randomiser and its copy", ia, [&] { UniformIntRandomiser<int> t(a); return t.get(); }); break; } case 9: spread_pair(c, n, m, N, "values with another drawn between", [&] { int x = a.get(); b.get(); return x; }, [&] { return b.get() - 10; }); break; } }
// Three successive values of one randomiser.
MC_SCENARIO(spread_triples) { static const int ns[] = {2, 3, 5}; int n = c.pick(ns, "n"), k = c.choose(3, "kind"); c.split(); u64 N = 1ull << c.bound(19, 21); c.op("triples of %d", n); UniformIntRandomiser<int> a(0, n - 1); UniformRealRandomiser<double> d(0, n); auto g = [&]() -> int { if (k == 1) { int r = (int)d.get(); return r >= n ? n - 1 : r; } if (k == 2) { UniformIntRandomiser<int> t(0, n - 1); return t.get(); } return a.get(); }; spread(c, n * n * n, N, 8, 0.15, "three successive values", [&] { int x = g(), y = g(), z = g(); return x < 0 || y < 0 || z < 0 || x >= n || y >= n || z >= n ? -1 : (x * n + y) * n + z; }); }
// All answers there are (thorough): exactly equally often, up to the answers a rejection leaves over.
MC_SCENARIO(all_answers) { static const int ns[] = {2, 3, 6, 10, 100}; int n = ns[c.choose(c.bound(1, 5), "n")], part = c.choose(64, "part"); c.split(); if (c.quick() && part != 5) throw mc::Skip(); u64 from = (u64)part << 26, to = c.quick() ? from + (1u << 22) : from + (1ull << 26); UniformIntRandomiser<int> r(0, n - 1); c.op("answers %llu to %llu, %d values", (unsigned long long)from, (unsigned long long)to, n); answers(c, {}); std::vector<u64> count((size_t)n, 0); for (u64 x = from; x != to; ++x) { u32 a = (u32)x * 2654435769u; load_fast(&engine(), &a, 1); int v = r.get(); if (v < 0 || v >= n) c.fail("a value outside the interval"); ++count[(size_t)v]; if ((x & 0xfffff) == 0) c.ops(1); } double e = (double)(to - from) / n; for (int i = 0; i != n; ++i) MC_CHECK(c, std::fabs((double)count[(size_t)i] - e) <= 1e-4 * e + 8, "value " << i << " came " << count[(size_t)i] << " times, expected " << e); c.state((u64)part * 128 + (u64)n); c.outcome((u64)n); }
// Long runs across the refill of the generator: no stretch of values comes again, whatever the mix of randomisers.
MC_SCENARIO(no_repeat) { int k = c.choose(6, "kind"), start = c.choose(4, "start"); c.op("run of kind %d", k); answers(c, {(u32)start, 5, 6, 7}, (u32)start * 991u); UniformIntRandomiser<unsigned> u(0, UINT_MAX), u2(0, UINT_MAX); UniformIntRandomiser<int> s(INT_MIN, INT_MAX), die(1, 6); UniformRealRandomiser<double> d(0, 1); int n = c.bound(6000, 100000); std::set<std::vector<u32>> seen; std::vector<u32> w; for (int i = 0; i != n; ++i) { u32 v; if (k == 0) v = u.get(); else if (k == 1) v = i & 1 ? u.get() : u2.get(); else if (k == 2) { die.get(); v = u.get(); } else if (k == 3) v = (u32)(d.get() * 4294967296.0); else if (k == 4) { UniformIntRandomiser<unsigned> t(0, UINT_MAX); v = t.get(); } else v = (u32)s.get();
        w.push_back(v); if (w.size() == 3) { MC_CHECK(c, seen.insert(w).second, "after " << i << " values three successive values come a second time"); w.erase(w.begin()); } } c.ops((u64)n); c.state((u64)(k * 4 + start + 1)); c.outcome(w[0]); }
#else
// The shared generator is not reachable by name here: the same statements over chosen entropy only.
MC_SCENARIO(no_engine_ranges) { int n = 1 + c.choose(100, "n"); c.op("interval of %d", n); UniformIntRandomiser<int> a(-n, n); UniformRealRandomiser<double> d(-n, n); std::set<int> seen; bool low = false, high = false; for (int i = 0; i != 4000; ++i) { int v = a.get(); MC_CHECK(c, v >= -n && v <= n, "an integer of [-" << n << "," << n << "] is " << v); seen.insert(v); double x = d.get(); MC_CHECK(c, x >= -n && x <= n, "a real of [-" << n << "," << n << "] is " << x); low = low || x < 0; high = high || x > 0; } MC_CHECK(c, low && high && seen.size() > (size_t)n, "values are not spread"); c.ops(8000); c.state((u64)n); c.outcome((u64)n); }
MC_SCENARIO(no_engine_repeat) { int k = c.choose(3, "kind"); c.op("run %d", k); UniformIntRandomiser<unsigned> u(0, UINT_MAX); std::set<std::vector<u32>> seen; std::vector<u32> w; for (int i = 0; i != 6000; ++i) { u32 v; if (k == 0) v = u.get(); else if (k == 1) { UniformIntRandomiser<unsigned> t(0, UINT_MAX); v = t.get(); } else { u.get(); v = u.get(); } w.push_back(v); if (w.size() == 3) { MC_CHECK(c, seen.insert(w).second, "three successive values come a second time"); w.erase(w.begin()); } } c.ops(6000); c.state((u64)k + 1); c.outcome((u64)k); }
#endif
// ---- seeding: a generator for each entropy value; all of them start differently
static const u32 entropies[] = {0, 1, 2, 3, 0x7fffffff, 0x80000000u, 0xffffffffu, 0xfffffffe, 0x10000, 0x100, 0xff, 0x101, 0xdeadbeef, 0x12345678, 0x00ff00ff, 0x55555555};
static std::vector<u32> start(u32 e, int mode, vclock::ll wall, vclock::ll mono) { vclock::On on(mono, wall, 0); the_entropy = e; entropy_mode = mode; entropy_calls = 0; Helper::RandomGenerator g; std::vector<u32> r; for (int i = 0; i != 4; ++i) r.push_back((u32)g.engine()()); return r; }
MC_SCENARIO(seeding) { int i = c.choose(272, "first"); int mode = c.choose(2, "device"), cl = c.choose(4, "clock"); c.split(); static const vclock::ll walls[] = {0, 1790000000LL * 1000000000, 4102444800LL * 1000000000 + 999999999, 1}; auto val = [&](int k) { return k < 16 ? entropies[k] : 1000u + (u32)(k - 16); }; std::vector<u32> a = start(val(i), mode, walls[cl], 5); unsigned n = entropy_calls; MC_CHECK(c, n > 0, "no entropy is drawn for a new generator"); for (int j = 0; j != 272; ++j) if (val(j) != val(i)) MC_CHECK(c, start(val(j), mode, walls[cl], 5) != a, "generators with entropy " << val(i) << " and " << val(j) << " start in the same state"); c.op("272 generators"); c.ops(272); c.state((u64)((i * 2 + mode) * 4 + cl + 1)); c.outcome(a[0]); }
MC_MAIN
