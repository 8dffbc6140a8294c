// C25: conversions between containers of every pair of arithmetic element types, with the values at the edges of the types.
#include "mc.hpp"
#include <cmath>
#include <limits>
#include <set>
#include "container.hpp"
using mc::Ctx; using Helper::Array; using Helper::Set; using Helper::List; using Helper::LinkedList; using Helper::Map;
template<class A> std::vector<A> edges() {
    typedef std::numeric_limits<A> L; std::vector<A> v{A(0), A(1), A(2), A(100), L::max(), A(L::max() / 2), L::lowest(), A(L::lowest() / 2)}; if (std::is_signed<A>::value) { v.push_back(A(-1)); v.push_back(A(-2)); v.push_back(A(-100)); }
    if (std::is_floating_point<A>::value) { v.push_back(A(0.5)); v.push_back(A(-1.75)); v.push_back(A(3e9)); v.push_back(A(-5e9)); v.push_back(L::min()); v.push_back(L::infinity()); v.push_back(A(16777217.0)); v.push_back(A(0.1)); v.push_back(A(1) / A(3)); }
    for (int k : {7, 8, 15, 16, 24, 31, 32, 53, 63}) if (k < L::digits || std::is_floating_point<A>::value) { A p = A(1); for (int i = 0; i != k; ++i) p = A(p * 2); v.push_back(p); v.push_back(A(p - 1)); v.push_back(A(p + 1)); if (std::is_signed<A>::value) v.push_back(A(-p)); } return v; }
// Whether the language says what A(x) is as a B.
template<class A, class B> bool defined(A x) { if constexpr (std::is_floating_point<A>::value && std::is_integral<B>::value && !std::is_same<B, bool>::value) { long double y = std::trunc((long double)x); return std::isfinite(x) && y >= (long double)std::numeric_limits<B>::min() && y <= (long double)std::numeric_limits<B>::max(); } else if constexpr (std::is_floating_point<A>::value && std::is_floating_point<B>::value) return !std::isfinite(x) || std::fabs((long double)x) <= (long double)std::numeric_limits<B>::max(); else return true; }
template<class B, class L> void same(Ctx& c, L const& got, std::vector<B> const& want, const char* what, const char* pretty) { MC_CHECK(c, got.size() == want.size(), what << " has " << got.size() << " elements, expected " << want.size() << " (" << pretty << ")"); size_t i = 0; for (auto const& g : got) { static_assert(std::is_same<std::decay_t<decltype(g)>, B>::value, "element type"); B w = want[i]; MC_CHECK(c, g == w, what << " has " << +g << " at " << i << ", expected " << +w << " (" << pretty << ")"); ++i; } }
#define SAME(expr, want) do { auto const& mc_e = (expr); same<B>(c, mc_e, want, #expr, __PRETTY_FUNCTION__); } while (0)
template<class A, class B> void convert(Ctx& c, std::vector<A> const& v) {
    std::vector<B> w; for (A x : v) w.push_back(static_cast<B>(x)); std::set<B> ws(w.begin(), w.end()); std::vector<B> u(ws.begin(), ws.end());
    List<A> const l(v); Array<A> const r(v.begin(), v.end()); LinkedList<A> const k(l); Set<A> const s(v.begin(), v.end()); std::set<A> const& ss = s; Map<int, A> m; for (size_t i = 0; i != v.size(); ++i) m[(int)i] = v[i];
    SAME(List<B>(v), w); SAME(List<B>(l), w); SAME(Array<B>(r), w); SAME(Array<B>(v.begin(), v.end()), w); SAME(LinkedList<B>(l), w); SAME(LinkedList<B>(k), w); SAME(Set<B>(v), u); SAME(Set<B>(s), u); SAME(Set<B>(ss), u);
    { List<B> x = l; SAME(x, w); Array<B> y = r; SAME(y, w); LinkedList<B> z = k; SAME(z, w); Set<B> t = s; SAME(t, u); Set<B> q = l; SAME(q, u); Map<int, B> n = m; MC_CHECK(c, n.size() == m.size(), "the map has " << n.size() << " entries"); List<B> values = n.values(); SAME(values, w); }
    SAME(Helper::make_array(w), w); SAME(Helper::make_list(w), w); SAME(Helper::make_set(w), u); SAME(Helper::make_list(Helper::make_array(w)), w); SAME(Helper::make_list(Helper::make_set(w)), u); SAME((static_cast<List<B>>(Set<B>(w))), u);
    same<A>(c, l, v, "the source list", ""); same<A>(c, r, v, "the source array", ""); same<A>(c, k, v, "the source linked list", ""); c.ops(24); }
template<class A, class B> void pairs_of(Ctx& c) { static const std::vector<A> all = [] { std::vector<A> v; for (A x : edges<A>()) if (defined<A, B>(x)) v.push_back(x); return v; }(); int n = (int)all.size(), i = c.choose(n + 1, "first"), j = i < n ? c.choose(n + 1, "second") : 0; c.op("two edges"); std::vector<A> v; if (i == n) v = all; else { v.push_back(all[(size_t)i]); if (j < n) v.push_back(all[(size_t)j]); } convert<A, B>(c, v); c.state(mc::mix(mc::hash_str(__PRETTY_FUNCTION__), (mc::u64)(i * 100 + j))); c.outcome((mc::u64)(i + j)); }
template<class A> void from(Ctx& c) { switch (c.choose(9, "to")) { case 0: pairs_of<A, signed char>(c); break; case 1: pairs_of<A, unsigned short>(c); break; case 2: pairs_of<A, int>(c); break; case 3: pairs_of<A, unsigned>(c); break; case 4: pairs_of<A, long>(c); break; case 5: pairs_of<A, unsigned long>(c); break; case 6: pairs_of<A, float>(c); break; case 7: pairs_of<A, double>(c); break; default: pairs_of<A, unsigned char>(c); } }
#if PART == 1
MC_SCENARIO(edges_small, .balance = true) { switch (c.choose(4, "from")) { case 0: from<signed char>(c); break; case 1: from<unsigned short>(c); break; case 2: from<int>(c); break; default: from<unsigned>(c); } }
#else
MC_SCENARIO(edges_large, .balance = true) { switch (c.choose(4, "from")) { case 0: from<long>(c); break; case 1: from<unsigned long long>(c); break; case 2: from<float>(c); break; default: from<double>(c); } }
#endif
MC_MAIN
