// C08: set operations against set algebra on sorted vectors.
#include "mc.hpp"
#include <string>
#include <sstream>
#include "container.hpp"
using mc::Ctx; using Helper::Set; using Helper::List;

// An element that can only be ordered, and whose order ignores a part of it.
struct Ord { int v; int extra; Ord(int k) : v(k), extra(++salt) { } bool operator<(Ord const& o) const { return v < o.v; } static inline int salt = 0; };
template<class T> T make(int k) { return T(k); }
template<> std::string make<std::string>(int k) { static const char* pre[] = {"", "b", "a-long-prefix-beyond-the-small-buffer-", "c"}; std::string s = std::to_string(k); return std::string(k & 1 ? pre[2] : "") + std::string(s.size() < 6 ? 6 - s.size() : 0, '0') + s; }
template<class T> int num(T const& t) { return (int)t; }
template<> int num(Ord const& t) { return t.v; }
template<> int num(std::string const& t) { return std::stoi(t.size() > 6 && t[0] == 'a' ? t.substr(38) : t); }
typedef std::vector<int> V;     // model: sorted, without repetition
static const V NONE;
static bool has(V const& v, int k) { return std::binary_search(v.begin(), v.end(), k); }
static V uni(V const& a, V const& b) { V r(a); r.insert(r.end(), b.begin(), b.end()); std::sort(r.begin(), r.end()); r.erase(std::unique(r.begin(), r.end()), r.end()); return r; }
static V inter(V const& a, V const& b) { V r; for (int k : a) if (has(b, k)) r.push_back(k); return r; }
static V diff(V const& a, V const& b) { V r; for (int k : a) if (!has(b, k)) r.push_back(k); return r; }
static bool incl(V const& a, V const& b) { for (int k : a) if (!has(b, k)) return false; return true; }
static bool disj(V const& a, V const& b) { for (int k : a) if (has(b, k)) return false; return true; }
static std::string str(V const& v) { std::string s = "{"; for (int k : v) { if (s.size() > 400) return s + " ...(" + std::to_string(v.size()) + ") }"; s += " " + std::to_string(k); } return s + " }"; }
template<class C> V nums(C const& s) { V r; for (auto const& x : s) r.push_back(num(x)); return r; }
template<class T> Set<T> mk(V const& v) { Set<T> s; for (int k : v) s.std::template set<T>::insert(make<T>(k)); return s; }
template<class T> List<T> mkl(V const& v) { List<T> s; for (int k : v) s.push_back(make<T>(k)); return s; }
template<class S> V got(S const& s) { V r = nums(s); std::sort(r.begin(), r.end()); return r; }
#define EQ(expr, want) do { V mc_g = got(expr); MC_CHECK(c, mc_g == (want) && (expr).size() == (want).size(), #expr << " gives " << str(mc_g) << " expected " << str(want) << " for s=" << str(a) << " t=" << str(b) << " list=" << str(l)); } while (0)
#define IS(expr, want) do { bool mc_g = (expr); MC_CHECK(c, mc_g == (want), #expr << " is " << mc_g << " for s=" << str(a) << " t=" << str(b) << " list=" << str(l)); } while (0)
static V sorted(V v) { std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end()); return v; }

template<class T> void queries(Ctx& c, V const& a, V const& b, V const& l, int maxv) {
    Set<T> const s = mk<T>(a), t = mk<T>(b); List<T> const ls = mkl<T>(l); V lm = sorted(l); std::set<T> const& bs = s; std::set<T> const& bt = t; std::vector<T> const& bl = ls;
    for (int k = 0; k <= maxv; ++k) { T x = make<T>(k); IS(s.contains(x), has(a, k)); IS(Helper::contains(s, x), has(a, k)); IS(Helper::contains(bs, x), has(a, k)); }
    IS(s.subset(t), incl(b, a)); IS(s.subset(bt), incl(b, a)); IS(Helper::subset(s, t), incl(a, b)); IS(Helper::subset(bs, bt), incl(a, b));
    IS(s.disjoint(t), disj(a, b)); IS(s.disjoint(ls), disj(a, lm)); IS(s.disjoint(bl), disj(a, lm)); IS(Helper::disjoint(s, t), disj(a, b)); IS(Helper::disjoint(s, ls), disj(a, lm)); IS(Helper::disjoint(bs, bl), disj(a, lm));
    IS(s.subset(s), true); IS(s.disjoint(s), a.empty()); IS(Helper::subset(s, s), true); IS(Helper::disjoint(s, s), a.empty());
    EQ(Helper::join(s, t), uni(a, b)); EQ(Helper::join(s, s), a); EQ(Helper::intersection(s, t), inter(a, b)); EQ(Helper::intersection(bs, bt), inter(a, b)); EQ(Helper::intersection(s, s), a); EQ(Helper::intersection(s, ls), inter(a, lm)); EQ(Helper::intersection(bs, bl), inter(a, lm));
    EQ(Helper::difference(s, t), diff(a, b)); EQ(Helper::difference(bs, bt), diff(a, b)); EQ(Helper::difference(s, s), NONE);
    EQ(s, a); EQ(t, b); MC_CHECK(c, nums(ls) == l, "a query changed the list"); c.ops(30); }
template<class T> void updates(Ctx& c, V const& a, V const& b, V const& l, int maxv) {
    Set<T> const s0 = mk<T>(a), t = mk<T>(b); List<T> const ls = mkl<T>(l); V lm = sorted(l);
    { Set<T> s(s0); auto& r = s.adjoin(t); EQ(s, uni(a, b)); IS(&r == &s, true); auto& q = s.adjoin(s); EQ(s, uni(a, b)); IS(&q == &s, true); }
    { Set<T> s(s0); auto& r = s.remove(t); EQ(s, diff(a, b)); IS(&r == &s, true); }
    { Set<T> s(s0); s.remove(s); EQ(s, NONE); }
    { Set<T> s(s0); auto& r = s.restrict(t); EQ(s, inter(a, b)); IS(&r == &s, true); }
    { Set<T> s(s0); s.restrict(s); EQ(s, a); }
    { Set<T> s(s0); auto& r = s.remove(ls); EQ(s, diff(a, lm)); IS(&r == &s, true); std::vector<T> const& bl = ls; Set<T> q(s0); q.remove(bl); EQ(q, diff(a, lm)); }
    for (int k = 0; k <= maxv; ++k) { Set<T> s(s0); auto& r = s.remove(make<T>(k)); EQ(s, diff(a, V{k})); IS(&r == &s, true); }
    for (size_t i = 0; i < a.size(); i += a.size() > 400 ? a.size() - 1 : 1) { int k = a[i]; Set<T> s(s0); auto it = s.find(make<T>(k)); s.remove(*it); EQ(s, diff(a, V{k})); }
    { std::set<T> s(s0); std::set<T>& r = Helper::remove(s, t); EQ(s, diff(a, b)); IS(&r == &s, true); Set<T> q(s0); Helper::remove(q, t); EQ(q, diff(a, b)); }
    { std::set<T> s(s0); std::set<T>& r = Helper::restrict(s, t); EQ(s, inter(a, b)); IS(&r == &s, true); Set<T> q(s0); Helper::restrict(q, t); EQ(q, inter(a, b)); }
    { std::set<T> s(s0); Helper::remove(s, s); EQ(s, NONE); } { std::set<T> s(s0); Helper::restrict(s, s); EQ(s, a); }
    EQ(t, b); EQ(s0, a); MC_CHECK(c, nums(ls) == l, "an update changed the list"); c.ops(20); }
template<class T> void images(Ctx& c, V const& a) { V b, l;
    Set<T> const s = mk<T>(a); { V seen; V want; for (int k : a) want.push_back(k / 2); want = sorted(want); auto r = Helper::apply([&](T const& x) { seen.push_back(num(x)); return num(x) / 2; }, s); EQ(r, want); std::sort(seen.begin(), seen.end()); MC_CHECK(c, seen == a, "the function was applied to " << str(seen) << " for the set " << str(a)); }
    { auto r = Helper::apply([](T const& x) { return std::string(1, (char)('z' - num(x) % 20)); }, s); V want, g; for (int k : a) want.push_back('z' - k % 20); want = sorted(want); for (auto const& x : r) g.push_back(x[0]); MC_CHECK(c, g == want, "images of " << str(a)); }
    EQ(s, a); }
static V subset_of(int mask, int n, int stride) { V v; for (int k = 0; k < n; ++k) if (mask >> k & 1) v.push_back(k * stride); return v; }

// All pairs of sets over a small universe.
template<class T> void pairs(Ctx& c, int n) { V a = subset_of(c.choose(1 << n, "s"), n, 1), b = subset_of(c.choose(1 << n, "t"), n, 1); c.split(); if (c.verbose) c.note("s=%s t=%s", str(a).c_str(), str(b).c_str()); V l(b.rbegin(), b.rend());
    queries<T>(c, a, b, l, n); updates<T>(c, a, b, l, n); if (b.empty()) images<T>(c, a); mc::u64 h = 1; for (int k : a) h = mc::mix(h, (mc::u64)k); h = mc::mix(h, 99); for (int k : b) h = mc::mix(h, (mc::u64)k); c.state(h); c.outcome((mc::u64)(incl(a, b) + 2 * incl(b, a) + 4 * disj(a, b))); }
MC_SCENARIO(pairs_int) { pairs<int>(c, c.bound(8, 10)); }
MC_SCENARIO(pairs_string) { pairs<std::string>(c, c.bound(6, 8)); }
MC_SCENARIO(pairs_ordered) { pairs<Ord>(c, c.bound(6, 8)); }
// All lists with repetitions and any order as second argument.
template<class T> void lists(Ctx& c, int n, int len) { V a = subset_of(c.choose(1 << n, "s"), n, 1), l; int k = c.choose(len + 1, "length"); for (int i = 0; i < k; ++i) l.push_back(c.choose(n + 1, "x")); if (c.verbose) c.note("s=%s list=%s", str(a).c_str(), str(l).c_str());
    queries<T>(c, a, sorted(l), l, n); updates<T>(c, a, sorted(l), l, n); mc::u64 h = 1; for (int x : a) h = mc::mix(h, (mc::u64)x); h = mc::mix(h, 99); for (int x : l) h = mc::mix(h, (mc::u64)x); c.state(h); }
MC_SCENARIO(lists_int) { lists<int>(c, 4, c.bound(5, 6)); }
MC_SCENARIO(lists_string) { lists<std::string>(c, 3, c.bound(4, 6)); }
// All orders of a list of distinct elements.
template<class T> void orders(Ctx& c, int len) { V a, l, left; for (int i = 0; i < len; ++i) left.push_back(i); int mask = c.choose(1 << len, "s"); a = subset_of(mask, len, 1); if (mask >> 1 & 1) a.push_back(len + 1); while (!left.empty()) { int i = c.choose((int)left.size(), "next"); l.push_back(left[(size_t)i]); left.erase(left.begin() + i); if ((int)l.size() == 2) c.split(); }
    if (c.verbose) c.note("s=%s list=%s", str(a).c_str(), str(l).c_str()); V b = sorted(l), lm = b; Set<T> const s = mk<T>(a); List<T> const ls = mkl<T>(l);
    IS(s.disjoint(ls), disj(a, lm)); IS(Helper::disjoint(s, ls), disj(a, lm)); EQ(Helper::intersection(s, ls), inter(a, lm)); { Set<T> q(s); q.remove(ls); EQ(q, diff(a, lm)); } { Set<T> q(ls); EQ(q, lm); }
    V part(l.begin() + 1, l.end() - 1); V pm = sorted(part); List<T> const lp = mkl<T>(part); IS(s.disjoint(lp), disj(a, pm)); IS(Helper::disjoint(s, lp), disj(a, pm)); EQ(Helper::intersection(s, lp), inter(a, pm)); { Set<T> q(s); q.remove(lp); EQ(q, diff(a, pm)); } EQ(s, a); MC_CHECK(c, nums(ls) == l, "a query changed the list");
    mc::u64 h = (mc::u64)mask + 1; for (int x : l) h = mc::mix(h, (mc::u64)x); c.state(h); c.ops(10); c.outcome((mc::u64)a.size()); }
MC_SCENARIO(orders_int) { orders<int>(c, c.bound(6, 8)); }
MC_SCENARIO(orders_string) { orders<std::string>(c, c.bound(6, 7)); }
// Histories in which nothing but the operations themselves looks at the sets until the end.
template<class T> void quiet(Ctx& c, int n, int depth) { Set<T> s[2]; V m[2]; V l; V a, b; mc::u64 h = 1;
    for (int q = 0; q != depth; ++q) { int k = c.choose(11, "op"); if (k == 0) break; int i = c.choose(2, "set"), j = 1 - i; V& v = m[i]; V const& w = m[j]; a = v; b = w; if (q == 1) c.split();
        if (k <= 4) { int x = c.choose(n, "x"); T t = make<T>(x); static const char* const names[] = {"", "insert", "remove", "contains", "erase"}; c.op("s%d.%s(%d)", i, names[k], x); if (k == 1) { s[i].insert(t); v = uni(v, V{x}); } else if (k == 2) { s[i].remove(t); v = diff(v, V{x}); } else if (k == 3) IS(s[i].contains(t), has(v, x)); else { s[i].erase(t); v = diff(v, V{x}); } }
        else if (k == 5) { c.op("s%d.adjoin(s%d)", i, j); s[i].adjoin(s[j]); v = uni(v, w); } else if (k == 6) { c.op("s%d.remove(s%d)", i, j); s[i].remove(s[j]); v = diff(v, w); } else if (k == 7) { c.op("s%d.restrict(s%d)", i, j); s[i].restrict(s[j]); v = inter(v, w); }
        else if (k == 8) { c.op("s%d.subset(s%d)", i, j); IS(s[i].subset(s[j]), incl(w, v)); } else if (k == 9) { c.op("s%d.disjoint(s%d)", i, j); IS(s[i].disjoint(s[j]), disj(v, w)); } else { c.op("s%d=s%d", i, j); s[i] = s[j]; v = w; } }
    a = m[0]; b = m[1]; EQ(s[0], a); EQ(s[1], b); for (int x : a) h = mc::mix(h, (mc::u64)x + 1); h = mc::mix(h, 99); for (int x : b) h = mc::mix(h, (mc::u64)x + 1); c.state(h); }
MC_SCENARIO(quiet_int) { quiet<int>(c, 2, c.bound(4, 5)); }
MC_SCENARIO(quiet_string) { quiet<std::string>(c, 2, c.bound(3, 4)); }
// Histories of updates on two sets.
MC_SCENARIO(histories) { int n = 3; Set<int> s[2]; V m[2]; int depth = c.bound(4, 6);
    for (int q = 0; q != depth; ++q) { int k = c.choose(8, "op"); if (k == 0) break; int i = c.choose(2, "set"), j = 1 - i; V a = m[i], b = m[j], l;
        if (k == 1) { int x = c.choose(n, "x"); c.op("s%d.insert(%d)", i, x); s[i].insert(x); m[i] = uni(a, V{x}); } else if (k == 2) { int x = c.choose(n, "x"); c.op("s%d.remove(%d)", i, x); s[i].remove(x); m[i] = diff(a, V{x}); }
        else if (k == 3) { c.op("s%d.adjoin(s%d)", i, j); s[i].adjoin(s[j]); m[i] = uni(a, b); } else if (k == 4) { c.op("s%d.remove(s%d)", i, j); s[i].remove(s[j]); m[i] = diff(a, b); } else if (k == 5) { c.op("s%d.restrict(s%d)", i, j); s[i].restrict(s[j]); m[i] = inter(a, b); }
        else if (k == 6) { c.op("s%d=join", i); s[i] = Helper::join(s[i], s[j]); m[i] = uni(a, b); } else { c.op("s%d=difference(s%d,s%d)", i, j, i); s[i] = Helper::difference(s[j], s[i]); m[i] = diff(b, a); }
        a = m[0]; b = m[1]; EQ(s[0], a); EQ(s[1], b); IS(Helper::subset(s[0], s[1]), incl(a, b)); IS(s[0].subset(s[1]), incl(b, a)); IS(Helper::disjoint(s[0], s[1]), disj(a, b)); EQ(Helper::intersection(s[0], s[1]), inter(a, b));
        mc::u64 h = 0; for (int x : a) h |= 1u << x; for (int x : b) h |= 256u << x; c.state_or_prune(h + 1, depth - q); } }
// Larger sets, related in structured ways.
template<class T> void large_pair(Ctx& c, int n) { int shape = c.choose(12, "relation"); c.split(); c.op("sets of %d elements, relation %d", n, shape);
    V a, b; for (int i = 0; i < n; ++i) a.push_back(2 * i);
    switch (shape) { case 0: b = a; break; case 1: for (int i = 0; i < n; ++i) b.push_back(2 * i + 1); break; case 2: b = a; b.pop_back(); break; case 3: b.assign(a.begin() + 1, a.end()); break; case 4: b = a; b.push_back(2 * n); break; case 5: for (int i = 0; i < n; i += 2) b.push_back(2 * i); break; case 6: b = V{a.back()}; break; case 7: b = V{a[0]}; break;
        case 8: b = a; b.erase(b.begin() + n / 2); break; case 9: b = V{2 * (n / 2)}; break; case 10: for (int i = 0; i < n; ++i) b.push_back(2 * i + n); b = sorted(b); break; default: b = V{2 * n + 5}; }
    V l(b.rbegin(), b.rend()); l.insert(l.end(), b.begin(), b.end()); queries<T>(c, a, b, l, 2 * n + 2); if (!b.empty()) { V g; size_t z = b.size(), f = z * 5 / 8; while (std::__gcd(f, z) != 1) ++f; for (size_t i = 0, p = z / 3; i != z; ++i, p = (p + f) % z) g.push_back(b[p]); l = g; } queries<T>(c, b, a, l, 2); if (n <= 1000) queries<T>(c, a, b, l, 2); if (n > 400) { updates<T>(c, b, a, V(a.rbegin(), a.rend()), 1); } if (n <= 65) { updates<T>(c, a, b, l, n <= 20 ? 2 * n : 2); } else updates<T>(c, a, b, l, 1); images<T>(c, a); c.state((mc::u64)(n * 16 + shape)); }
template<class T> void large(Ctx& c, bool deep) { static const int ns[] = {1, 2, 7, 8, 9, 10, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 128, 200, 257, 400}; int n = c.pick(ns, "n"); if (!deep && n > 130) throw mc::Skip(); large_pair<T>(c, n); }
MC_SCENARIO(huge, .balance = false) { static const int ns[] = {256, 257, 1000, 1025, 4097, 10001, 32768, 32769, 65536, 65537, 70001, 131073}; int n = c.pick(ns, "n"); if (n > c.bound(66000, 200000) || (c.quick() && (n == 10001 || n == 65536 || n == 257 || n == 1000))) throw mc::Skip(); large_pair<int>(c, n); }
MC_SCENARIO(large_int) { large<int>(c, c.thorough()); }
MC_SCENARIO(large_string) { large<std::string>(c, c.thorough()); }
// Elements that hold sets and lists of elements of their own kind: such a set or list is the argument of an operation on the set it lies in.
struct Elem { int id; Set<Elem> s; List<Elem> l; Elem(int i) : id(i) { } friend bool operator<(Elem const& a, Elem const& b) { return a.id < b.id; } };
MC_SCENARIO(sets_in_elements, .balance = true) { int n = c.bound(3, 4); Set<Elem> s; std::vector<std::set<int>> held((size_t)n); std::set<int> all;
    for (int k = 0; k != n; ++k) { int v = c.choose(1 << (n + 1), "held") - 1; if (v < 0) continue; if (v >= (1 << (n + 1)) - 1) throw mc::Skip(); Elem e(k); for (int b = 0; b <= n; ++b) if (v >> b & 1) { e.s.insert(Elem(b)); e.l.append(Elem(b)); held[(size_t)k].insert(b); } s.insert(e); all.insert(k); }
    int i = c.choose(n, "element"), op = c.choose(10, "op"); if (!all.count(i)) throw mc::Skip(); std::set<int> const& h = held[(size_t)i]; Elem const& e = *s.find(Elem(i));
    static const char* const names[] = {"remove set", "remove list", "restrict", "free remove", "free restrict", "adjoin", "intersection", "difference", "intersection with list", "remove element"}; std::string txt; for (int b : h) txt += std::to_string(b) + " "; c.op("%s { %s} held by element %d of %zu", names[op], txt.c_str(), i, s.size());
    std::set<int> want; for (int k : all) { bool in = h.count(k); if (op == 5 || (op == 9 ? k != i : (op == 2 || op == 4 || op == 6 || op == 8) == in)) want.insert(k); } if (op == 5) want.insert(h.begin(), h.end());
    switch (op) { case 0: s.remove(e.s); break; case 1: s.remove(e.l); break; case 2: s.restrict(e.s); break; case 3: Helper::remove((std::set<Elem>&)s, (std::set<Elem> const&)e.s); break; case 4: Helper::restrict((std::set<Elem>&)s, (std::set<Elem> const&)e.s); break; case 5: s.adjoin(e.s); break;
        case 6: s = intersection(s, e.s); break; case 7: s = difference(s, e.s); break; case 8: s = intersection(s, e.l); break; default: s.remove(e); }
    std::set<int> got; for (auto& x : s) got.insert(x.id); MC_CHECK(c, got == want && s.size() == want.size(), names[op] << " leaves " << s.size() << " elements, expected " << want.size()); mc::u64 z = mc::mix((mc::u64)op, (mc::u64)i); for (int k = 0; k != n; ++k) { z = mc::mix(z, all.count(k)); for (int b : held[(size_t)k]) z = mc::mix(z, (mc::u64)b + 7); } c.state(z); c.outcome(mc::mix((mc::u64)op, want.size())); }
MC_MAIN
