// C25: conversions between containers, for every small source and structured larger ones.
#include "tracked.hpp"
#include <string>
#include <sstream>
#include "container.hpp"
using mc::Ctx; using Helper::Array; using Helper::Set; using Helper::List; using Helper::LinkedList; using Helper::Map;
typedef std::vector<int> V;
// A target type that converts implicitly, and one that converts only explicitly.
struct Imp { int v; Imp() : v(-1) { } Imp(int k) : v(k) { } Imp(std::string const& s); bool operator<(Imp const& o) const { return v < o.v; } bool operator==(Imp const& o) const { return v == o.v; } bool operator!=(Imp const& o) const { return v != o.v; } };
struct Exp { int v; Exp() : v(-1) { } explicit Exp(int k) : v(k) { } bool operator<(Exp const& o) const { return v < o.v; } };
struct Half { int v; explicit Half(int k) : v(k / 2) { } Half() : v(-1) { } bool operator<(Half const& o) const { return v < o.v; } };
struct Scaled { int v; Scaled() : v(-1) { } Scaled(double d, int pr) : v((int)(d * pr)) { } };
struct Dual { int v; Dual(double d = -1) : v((int)d) { } Dual(double d, int pr) : v((int)(d * pr)) { } bool operator<(Dual const& o) const { return v < o.v; } };
// Pointers whose conversion changes their value.
struct Left { int l = 0; virtual ~Left() { } }; struct Right { int k = 0; virtual ~Right() { } }; struct Both : Left, Right { }; static Both both_table[256]; typedef Both* PB; typedef Right* PR;
enum Plain { plain_zero, plain_last = 255 };
template<class T> T make(int k) { return T(k); } template<> PB make<PB>(int k) { both_table[k].k = k; return &both_table[k]; }
template<> std::string make<std::string>(int k) { std::string s = std::to_string(k); return std::string("a-long-prefix-beyond-the-small-buffer-") + std::string(s.size() < 6 ? 6 - s.size() : 0, '0') + s; }
template<class T> int num(T const& t) { return (int)t; } template<> int num(std::string const& t) { return std::stoi(t.substr(38)); } template<> int num(Imp const& t) { return t.v; } template<> int num(Exp const& t) { return t.v; } template<> int num(Half const& t) { return t.v; } template<> int num(Scaled const& t) { return t.v; } template<> int num(Dual const& t) { return t.v; } template<> int num(PR const& p) { return p ? p->k : -1; } template<> int num(PB const& p) { return p->k; } template<> int num(double const& d) { return (int)d; }
template<class E, class L> V nums(L const& l) { V r; for (auto const& x : l) { static_assert(std::is_same<std::decay_t<decltype(x)>, E>::value, "element type"); r.push_back(num<E>(x)); } return r; }
static std::string str(V const& v) { std::string s = "["; for (int k : v) { s += " " + std::to_string(k); if (s.size() > 400) return s + " ..."; } return s + " ]"; }
static V uniq(V v) { std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end()); return v; }
#define IS(E, expr, want) do { auto const& mc_e = (expr); V mc_g = nums<E>(mc_e), mc_w = (want); MC_CHECK(c, mc_g == mc_w && mc_e.size() == mc_w.size(), #expr << " gives " << str(mc_g) << " expected " << str(mc_w) << " from " << str(a)); } while (0)
template<class T> std::vector<T> vec(V const& a) { std::vector<T> v; for (int k : a) v.push_back(make<T>(k)); return v; }

template<class T> void same_type(Ctx& c, V const& a) {
    std::vector<T> const v = vec<T>(a); List<T> const l(v); Array<T> const r(v.begin(), v.end()); std::list<T> sl(v.begin(), v.end()); LinkedList<T> const k(sl); Set<T> const s(v.begin(), v.end()); V u = uniq(a);
    IS(T, l, a); IS(T, r, a); IS(T, k, a); IS(T, s, u);
    IS(T, Helper::make_array(v), a); IS(T, Helper::make_array(l), a); IS(T, Helper::make_array(r), a); IS(T, Helper::make_list(v), a); IS(T, Helper::make_list(l), a); IS(T, Helper::make_list(r), a); IS(T, Helper::make_list(s), u); IS(T, Helper::make_set(v), u); IS(T, Helper::make_set(l), u);
    IS(T, List<T>(l), a); IS(T, LinkedList<T>(l), a); IS(T, LinkedList<T>(k), a); IS(T, LinkedList<T>(v.begin(), v.end()), a); IS(T, LinkedList<T>(r.begin(), r.end()), a); IS(T, Set<T>(v), u); IS(T, Set<T>(l), u); IS(T, static_cast<List<T>>(s), u); IS(T, Array<T>(l.begin(), l.end()), a); IS(T, Array<T>(s.begin(), s.end()), u); IS(T, Array<T>(k.begin(), k.end()), a);
    // the result shares nothing with the source
    if (!a.empty()) { std::vector<T> w(v); List<T> wl(v); Array<T> wr(r); Array<T> x1 = Helper::make_array(w), x2 = Helper::make_array(wr); List<T> y1 = Helper::make_list(w), y2 = Helper::make_list(wr); LinkedList<T> z(wl); Set<T> s2 = Helper::make_set(w), s3(s); List<T> y3 = Helper::make_list(s3); T other = make<T>(77);
        for (auto& e : w) e = other; for (auto& e : wr) e = other; for (auto& e : wl) e = other; s3.clear(); IS(T, x1, a); IS(T, x2, a); IS(T, y1, a); IS(T, y2, a); IS(T, z, a); IS(T, s2, u); IS(T, y3, u);
        x1[0] = make<T>(55); y1[0] = make<T>(55); z.front() = make<T>(55); IS(T, w, V(a.size(), 77)); IS(T, wr, V(a.size(), 77)); IS(T, wl, V(a.size(), 77)); }
    IS(T, v, a); IS(T, l, a); IS(T, r, a); IS(T, k, a); IS(T, s, u); c.ops(30); }
template<class A, class B> void other_type(Ctx& c, V const& a) {     // B converts implicitly from A
    std::vector<A> const v = vec<A>(a); List<A> const l(v); Array<A> const r(v.begin(), v.end()); std::list<A> sl(v.begin(), v.end()); LinkedList<A> const k(sl); Set<A> const s(v.begin(), v.end()); std::set<A> const& ss = s; V u = uniq(a), h; for (int x : a) h.push_back(num<B>(B(make<A>(x)))); V hu; for (int x : u) hu.push_back(num<B>(B(make<A>(x)))); hu = uniq(hu);
    { List<B> x = l; IS(B, x, h); List<B> y = v; IS(B, y, h); List<B> z(r.begin(), r.end()); IS(B, z, h); } { Array<B> x = r; IS(B, x, h); Array<B> y(v.begin(), v.end()); IS(B, y, h); Array<B> z(r); IS(B, z, h); }
    { LinkedList<B> x = l; IS(B, x, h); LinkedList<B> y = k; IS(B, y, h); } { Set<B> x = l; IS(B, x, hu); Set<B> y = s; IS(B, y, hu); Set<B> z = ss; IS(B, z, hu); Set<B> w = v; IS(B, w, hu); }
    { Map<int, A> m; for (size_t i = 0; i != a.size(); ++i) m[(int)(i * 3 % 7 + 10 * i)] = make<A>(a[i]); std::map<int, A> const& sm = m; Map<int, B> n = m; Map<int, B> q = sm; MC_CHECK(c, n.size() == m.size() && q.size() == m.size(), "converted map has " << n.size() << " entries, expected " << m.size()); auto i = n.begin(); auto j = q.begin(); for (auto& e : m) { MC_CHECK(c, i->first == e.first && j->first == e.first && num<B>(i->second) == num<B>(B(e.second)) && num<B>(j->second) == num<B>(B(e.second)), "entry " << e.first << " of a converted map"); ++i; ++j; } }
    IS(A, v, a); IS(A, l, a); IS(A, r, a); IS(A, k, a); IS(A, s, u); c.ops(14); }
template<class A, class B> void explicit_type(Ctx& c, V const& a) {
    std::vector<A> const v = vec<A>(a); List<A> const l(v); Array<A> const r(v.begin(), v.end()); Set<A> const s(v.begin(), v.end()); V u = uniq(a), h; for (int x : a) h.push_back(num<B>(B(make<A>(x)))); V hu; for (int x : u) hu.push_back(num<B>(B(make<A>(x)))); hu = uniq(hu);
    { List<B> x(l); IS(B, x, h); List<B> y(v); IS(B, y, h); } { Array<B> x(r); IS(B, x, h); } { LinkedList<B> x(l); IS(B, x, h); } { Set<B> x(s); IS(B, x, hu); } IS(A, l, a); IS(A, r, a); IS(A, s, u); c.ops(5); }
template<class T> void single(Ctx& c, int k) { V a{k}; T const x = make<T>(k); IS(T, Helper::make_array(x), a); IS(T, Helper::make_list(x), a); { List<T> l = x; IS(T, l, a); if constexpr (!std::is_same<T, size_t>::value) { List<T> m(x); IS(T, m, a); } } for (unsigned n : {0u, 1u, 2u, 5u}) { IS(T, LinkedList<T>(n, x), V(n, k)); IS(T, Array<T>(n, x), V(n, k)); IS(T, List<T>(n, x), V(n, k)); MC_CHECK(c, LinkedList<T>(n).size() == n, "size of LinkedList(n)"); } c.ops(8); }
static void params(Ctx& c, V const& a) { for (int pr : {1, 3, 10}) { Array<double> d(a.begin(), a.end()); Array<Scaled> s(d, pr); V w; for (int x : a) w.push_back(x * pr); IS(Scaled, s, w); Array<Dual> t(d, pr); IS(Dual, t, w); Array<int> i(a.begin(), a.end()); Array<Dual> u(i, pr); IS(Dual, u, w); Array<Dual> x(i); IS(Dual, x, a); Array<Dual> f({1.0, 2.0, 5.0}, pr); IS(Dual, f, (V{pr, 2 * pr, 5 * pr})); Array<Scaled> none({}, pr); IS(Scaled, none, V()); Array<Scaled> e({1.0, 2.0, 5.0}, pr); IS(Scaled, e, (V{pr, 2 * pr, 5 * pr})); } }
// element types of the same size and another representation; negative values
template<class A, class B> void arrays_and_lists(Ctx& c, V const& a) { std::vector<A> const v = vec<A>(a); List<A> const l(v); Array<A> const r(v.begin(), v.end()); LinkedList<A> k(l); Set<A> const s(v.begin(), v.end()); V h, hu; for (auto& x : v) h.push_back(num<B>(B(x))); for (auto& x : s) hu.push_back(num<B>(B(x))); { Array<B> x = r; IS(B, x, h); Array<B> y(r.begin(), r.end()); IS(B, y, h); List<B> z = l; IS(B, z, h); List<B> w = v; IS(B, w, h); LinkedList<B> q = l; IS(B, q, h); LinkedList<B> p = k; IS(B, p, h); Array<B> t(v.begin(), v.end()); IS(B, t, h); } { Set<B> x = s; V g = nums<B>(x), w = uniq(hu); std::sort(g.begin(), g.end()); MC_CHECK(c, g == w, "converted set has " << str(g) << " expected " << str(w)); } IS(A, r, nums<A>(v)); IS(A, l, nums<A>(v)); c.ops(7); }
static void same_size(Ctx& c, V const& a) { V m; for (int x : a) m.push_back(x - 2); arrays_and_lists<int, float>(c, m); arrays_and_lists<float, int>(c, m); arrays_and_lists<long, double>(c, m); arrays_and_lists<double, long>(c, m); arrays_and_lists<int, unsigned>(c, m); arrays_and_lists<short, signed char>(c, m); arrays_and_lists<int, bool>(c, m); arrays_and_lists<unsigned char, bool>(c, a); arrays_and_lists<PB, PR>(c, a); arrays_and_lists<int, Imp>(c, m); arrays_and_lists<int, Dual>(c, m); arrays_and_lists<Plain, int>(c, a); }
static void all(Ctx& c, V const& a) {
    same_type<int>(c, a); same_type<std::string>(c, a); same_type<unsigned char>(c, a); same_type<unsigned>(c, a); same_type<double>(c, a); other_type<int, double>(c, a); other_type<int, long>(c, a); other_type<int, Imp>(c, a); other_type<double, int>(c, a); other_type<unsigned char, int>(c, a); explicit_type<int, Exp>(c, a); explicit_type<int, Half>(c, a); explicit_type<int, double>(c, a); params(c, a); same_size(c, a); }
MC_SCENARIO(words, .balance = true) { int len = c.choose(c.bound(5, 7) + 1, "length"); V a; for (int i = 0; i < len; ++i) a.push_back(c.choose(4, "x")); if (c.verbose) c.note("source %s", str(a).c_str()); all(c, a); mc::u64 h = 1; for (int x : a) h = mc::mix(h, (mc::u64)x); c.state(h); c.outcome(uniq(a).size() * 10 + a.size()); }
MC_SCENARIO(singles, .balance = true) { int k = c.choose(64, "x"); c.op("value %d", k); single<int>(c, k); single<std::string>(c, k); single<double>(c, k); single<unsigned>(c, k); single<size_t>(c, k); single<unsigned char>(c, k); single<char>(c, k); c.state((mc::u64)k + 1); c.outcome((mc::u64)k); }
MC_SCENARIO(nested, .balance = true) { // containers of containers
    int n = c.choose(4, "n"), m = c.choose(4, "m"); c.op("%d lists of %d", n, m); std::vector<List<int>> v; for (int i = 0; i < n; ++i) { List<int> l; for (int j = 0; j < m; ++j) l.push_back(10 * i + j); v.push_back(l); }
    auto same = [&](auto const& x) { MC_CHECK(c, x.size() == v.size(), "nested size"); size_t i = 0; for (auto const& e : x) { MC_CHECK(c, e.size() == v[i].size() && std::equal(e.begin(), e.end(), v[i].begin()), "nested element " << i); ++i; } };
    same(Helper::make_array(v)); same(Helper::make_list(v)); same(Helper::make_list(Helper::make_array(v))); if (m || n < 2) same(Helper::make_list(Helper::make_set(v))); same(List<List<int>>(v)); List<LinkedList<int>> q(v); same(q); c.state((mc::u64)(n * 4 + m + 1)); }
MC_SCENARIO(large, .balance = true) { static const int ns[] = {6, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 200, 250}; int n = c.pick(ns, "n"), shape = c.choose(5, "shape"); c.split(); c.op("%d elements, shape %d", n, shape); V a; for (int i = 0; i < n; ++i) a.push_back(shape == 0 ? i : shape == 1 ? n - i : shape == 2 ? 5 : shape == 3 ? i * 7 % 10 : (i * 37) % 251); all(c, a);
    if (shape == 0) for (int f : {4, 40, 260}) { V b; for (int i = 0; i < n * f; ++i) b.push_back(i); V& a = b; std::vector<int> v(b); IS(int, Helper::make_array(v), b); IS(int, Helper::make_list(v), b); IS(int, Helper::make_set(v), b); IS(double, Array<double>(Array<int>(v.begin(), v.end())), b); IS(double, List<double>(List<int>(v)), b); IS(int, LinkedList<int>(List<int>(v)), b); }
    c.state((mc::u64)(n * 5 + shape)); c.outcome((mc::u64)shape); }
MC_SCENARIO(huge, .balance = true) { static const int ns[] = {1025, 4097, 32769, 65537, 131073}; int n = c.pick(ns, "n"), shape = c.choose(3, "shape"), k = c.choose(4, "types"); c.split(); if (n > c.bound(66000, 200000)) throw mc::Skip(); c.op("%d elements, shape %d", n, shape); V a; for (int i = 0; i < n; ++i) a.push_back(shape == 0 ? i : shape == 1 ? n - i : i / 2);
    if (k == 0) { same_type<int>(c, a); } else if (k == 1) { other_type<int, double>(c, a); other_type<int, Imp>(c, a); } else if (k == 2) { explicit_type<int, Exp>(c, a); explicit_type<int, double>(c, a); } else { V m; for (int x : a) m.push_back(x - n / 2); arrays_and_lists<int, float>(c, m); arrays_and_lists<long, double>(c, m); for (int& x : m) x = (x & 0x7fffffff) % 251; arrays_and_lists<PB, PR>(c, m); } c.state((mc::u64)((n * 3 + shape) * 4 + k)); c.outcome((mc::u64)k); }
MC_MAIN
