// C10: list operations against plain vectors.
#include "tracked.hpp"
#include <string>
#include <sstream>
#include "container.hpp"
using mc::Ctx; using mc::Tr; using Helper::Set; using Helper::List; using Helper::LinkedList;
static mc::UseLedger use_ledger;
typedef std::vector<int> V;
static const V NONE;
template<class T> T make(int k) { return T(k); }
template<> bool make<bool>(int k) { return k & 1; }
template<> std::string make<std::string>(int k) { std::string s = std::to_string(k); return std::string(k & 1 ? "a-long-prefix-beyond-the-small-buffer-" : "b") + std::string(s.size() < 6 ? 6 - s.size() : 0, '0') + s; }
template<class T> int num(T const& t) { return (int)t; } template<> int num(Tr const& t) { return t.get(); } template<> int num(std::string const& t) { return std::stoi(t.substr(t[0] == 'a' ? 38 : 1)); }
template<class L> V nums(L const& l) { V r; for (auto const& x : l) r.push_back(num<typename L::value_type>(x)); return r; }
static std::string str(V const& v) { std::string s = "["; for (int k : v) { s += " " + std::to_string(k); if (s.size() > 400) return s + " ..."; } return s + " ]"; }
static V cat(V a, V const& b) { V r(a); r.insert(r.end(), b.begin(), b.end()); return r; }
template<class T> List<T> mk(V const& v) { List<T> l; for (int k : v) l.push_back(make<T>(k)); return l; }
template<class T> LinkedList<T> mkl(V const& v) { LinkedList<T> l; for (int k : v) l.push_back(make<T>(k)); return l; }
#define EQ(expr, want) do { V mc_g = nums(expr); MC_CHECK(c, mc_g == (want) && (expr).size() == (want).size(), #expr << " gives " << str(mc_g) << " expected " << str(want) << " for a=" << str(a) << " b=" << str(b)); } while (0)

template<class T> void joins(Ctx& c, V const& a, V const& b) {
    List<T> const l0 = mk<T>(a), m = mk<T>(b); std::vector<T> const& bm = m; V ab = cat(a, b), aa = cat(a, a);
    { List<T> l(l0); l.append(m); EQ(l, ab); } { List<T> l(l0); l.append(bm); EQ(l, ab); } { List<T> l(l0); l.concatenate(m); EQ(l, ab); }
    { List<T> l(l0); l.append(l); EQ(l, aa); l.append(m); EQ(l, cat(aa, b)); } { List<T> l(l0); l.concatenate(l); EQ(l, aa); }
    { List<T> l(l0); l.shrink_to_fit(); l.append(l); EQ(l, aa); } { List<T> l(l0); l.reserve(4 * a.size() + 4); l.append(l); EQ(l, aa); l.concatenate(l); EQ(l, cat(aa, aa)); }
    { auto r = Helper::catenate(l0, m); EQ(r, ab); auto q = Helper::catenate(l0, l0); EQ(q, aa); }
    for (size_t i = 0; i < b.size() && i < 5; ++i) { T x = make<T>(b[i]); V w = cat(a, V{b[i]}); { List<T> l(l0); l.append(x); EQ(l, w); } auto r = Helper::catenate(l0, x); EQ(r, w); }
    EQ(l0, a); EQ(m, b);
    if constexpr (!std::is_same<T, bool>::value) for (size_t i = 0; i < a.size() && i < 6; ++i) { List<T> l(l0); l.append(l[i]); EQ(l, cat(a, V{a[i]})); l.shrink_to_fit(); l.append(l[i]); EQ(l, cat(a, V{a[i], a[i]})); auto r = Helper::catenate(l0, l0[i]); EQ(r, cat(a, V{a[i]})); }
    LinkedList<T> const k0 = mkl<T>(a), n = mkl<T>(b);
    { LinkedList<T> l(k0); l.append(n); EQ(l, ab); } { LinkedList<T> l(k0); l.concatenate(n); EQ(l, ab); } { LinkedList<T> l(k0); l.append(l); EQ(l, aa); l.concatenate(l); EQ(l, cat(aa, aa)); }
    for (size_t i = 0; i < b.size() && i < 5; ++i) { LinkedList<T> l(k0); l.append(make<T>(b[i])); EQ(l, cat(a, V{b[i]})); }
    if (!a.empty()) { LinkedList<T> l(k0); l.append(l.front()); l.append(l.back()); EQ(l, cat(a, V{a[0], a[0]})); }
    EQ(k0, a); EQ(n, b); c.ops(24); }
static int plus3(int x) { return x + 3; }
template<class T> void maps(Ctx& c, V const& a) { V b; List<T> const l = mk<T>(a);
    { V seen, want; for (int k : a) want.push_back(2 * k + 1); auto r = Helper::apply([&](T const& x) { seen.push_back(num<T>(x)); return 2 * num<T>(x) + 1; }, l); EQ(r, want); MC_CHECK(c, seen == a, "the function was applied to " << str(seen) << " for the list " << str(a)); }
    { V seen, want; for (int k : a) want.push_back(k - 4); auto r = Helper::elementwise([&](T const& x) { seen.push_back(num<T>(x)); return num<T>(x) - 4; }, l); EQ(r, want); MC_CHECK(c, seen == a, "the function was applied elementwise to " << str(seen) << " for the list " << str(a)); }
    { int n = 0; V want; for (size_t i = 0; i != a.size(); ++i) want.push_back((int)i * 100 + a[i]); auto r = Helper::apply([&](T const& x) { return 100 * n++ + num<T>(x); }, l); EQ(r, want); n = 0; auto q = Helper::elementwise([&](T const& x) { return 100 * n++ + num<T>(x); }, l); EQ(q, want); }
    { auto r = Helper::apply([](T const& x) { return std::to_string(num<T>(x)); }, l); MC_CHECK(c, r.size() == a.size(), "size of the list of results"); for (size_t i = 0; i != a.size(); ++i) MC_CHECK(c, r[i] == std::to_string(a[i]), "result " << i << " of " << str(a)); }
    if constexpr (std::is_same<T, int>::value) { V want; for (int k : a) want.push_back(k + 3); auto r = Helper::apply(plus3, l); EQ(r, want); auto q = Helper::apply(std::function<int(int)>(plus3), l); EQ(q, want); }
    EQ(l, a); c.ops(5); }
template<class T> void maps2(Ctx& c, V const& a, V const& b) { if (a.size() != b.size()) return; List<T> const l = mk<T>(a); List<int> const m = mk<int>(b);
    V s1, s2, want; for (size_t i = 0; i != a.size(); ++i) want.push_back(a[i] - 10 * b[i]); auto r = Helper::elementwise([&](T const& x, int y) { s1.push_back(num<T>(x)); s2.push_back(y); return num<T>(x) - 10 * y; }, l, m);
    EQ(r, want); MC_CHECK(c, s1 == a && s2 == b, "the function was applied to " << str(s1) << " and " << str(s2)); auto q = Helper::elementwise([](T const& x, T const& y) { return num<T>(x) * 3 + num<T>(y); }, l, l); V w2; for (int k : a) w2.push_back(4 * k); EQ(q, w2); EQ(l, a); EQ(m, b); c.ops(2); }
template<class T> void repeats(Ctx& c, V const& a) { V b; List<T> const l = mk<T>(a); std::vector<T> const& v = l; V s(a), dup; std::sort(s.begin(), s.end()); for (size_t i = 1; i < s.size(); ++i) if (s[i] == s[i-1] && (dup.empty() || dup.back() != s[i])) dup.push_back(s[i]);
    MC_CHECK(c, Helper::unique_elements(l) == dup.empty() && Helper::unique_elements(v) == dup.empty(), "uniqueness of " << str(a) << " is wrong"); auto d = Helper::duplicate_elements(l); V g = nums(d); std::sort(g.begin(), g.end()); MC_CHECK(c, g == dup, "duplicates of " << str(a) << " are " << str(g)); EQ(l, a); c.ops(3); }
static V word(Ctx& c, int len, int alpha, const char* w) { int n = c.choose(len + 1, w); V v; for (int i = 0; i < n; ++i) v.push_back(c.choose(alpha, "x")); return v; }
static mc::u64 hash(V const& a, V const& b) { mc::u64 h = 3; for (int k : a) h = mc::mix(h, (mc::u64)k); h = mc::mix(h, 999); for (int k : b) h = mc::mix(h, (mc::u64)k); return h; }
template<class T> void pairs(Ctx& c, int len, int alpha) { { V a = word(c, len, alpha, "a"), b = word(c, len, alpha, "b"); if (c.verbose) c.note("a=%s b=%s", str(a).c_str(), str(b).c_str()); joins<T>(c, a, b); maps2<T>(c, a, b); if (b.empty()) { maps<T>(c, a); if constexpr (!std::is_same<T, bool>::value) repeats<T>(c, a); } c.state(hash(a, b)); c.outcome(a.size() * 64 + b.size()); } }
MC_SCENARIO(pairs_int, .balance = true) { pairs<int>(c, c.bound(4, 5), 3); }
MC_SCENARIO(pairs_string, .balance = true) { pairs<std::string>(c, 3, c.bound(3, 4)); }
MC_SCENARIO(pairs_tracked, .balance = true) { pairs<Tr>(c, 3, c.bound(3, 4)); MC_CHECK(c, mc::ledger.live.empty(), "elements never destroyed"); }
MC_SCENARIO(pairs_bool, .balance = true) { pairs<bool>(c, c.bound(4, 5), 2); }
MC_SCENARIO(repeats_int, .balance = true) { V a = word(c, c.bound(6, 8), 4, "a"); repeats<int>(c, a); repeats<std::string>(c, a); maps<int>(c, a); c.state(hash(a, NONE)); c.outcome(a.size()); }
// Histories of appends on two lists and two linked lists.
MC_SCENARIO(histories, .balance = true) { { List<int> s[2]; LinkedList<int> t[2]; V m[2]; int depth = c.bound(6, 8);
    for (int q = 0; q != depth; ++q) { int k = c.choose(6, "op"); if (k == 0) break; int i = c.choose(2, "list"), j = 1 - i; V a = m[0], b = m[1];
        if (k == 1) { c.op("l%d.append(%d)", i, q); s[i].append(q); t[i].append(q); m[i].push_back(q); } else if (k == 2) { c.op("l%d.append(l%d)", i, j); s[i].append(s[j]); t[i].append(t[j]); m[i] = cat(m[i], m[j]); } else if (k == 3) { c.op("l%d.append(itself)", i); s[i].append(s[i]); t[i].append(t[i]); m[i] = cat(m[i], m[i]); }
        else if (k == 4) { c.op("l%d=catenate(l%d,l%d)", i, j, i); s[i] = Helper::catenate(s[j], s[i]); LinkedList<int> r(t[j]); r.concatenate(t[i]); t[i] = r; m[i] = cat(m[j], m[i]); } else { c.op("l%d.concatenate(l%d)", i, i); s[i].concatenate(s[i]); t[i].concatenate(t[i]); m[i] = cat(m[i], m[i]); }
        for (int w = 0; w != 2; ++w) { EQ(s[w], m[w]); EQ(t[w], m[w]); } c.state(hash(m[0], m[1])); } c.outcome(hash(m[0], m[1])); } }
// Larger lists.
MC_SCENARIO(large, .balance = true) { static const int ns[] = {0, 1, 2, 4, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 1000, 1024, 1025}; int n = c.pick(ns, "n"), m = c.pick(ns, "m"), shape = c.choose(3, "shape"); c.split(); c.op("lists of %d and %d elements", n, m);
    { V a, b; for (int i = 0; i < n; ++i) a.push_back(shape == 0 ? i : shape == 1 ? n - i : i % 7); for (int i = 0; i < m; ++i) b.push_back(5000 + i); joins<int>(c, a, b); maps2<int>(c, a, b); if (n < 130 && m < 130) joins<std::string>(c, a, b); if (m == 0) { maps<int>(c, a); repeats<int>(c, a); maps<std::string>(c, a);
        if (shape < 2) for (int i : {0, 1, n / 2, n - 2, n - 1}) for (int j : {0, 1, n / 2, n - 2, n - 1}) if (0 <= i && i < j && j < n) { V d(a); d[(size_t)j] = d[(size_t)i]; repeats<int>(c, d); } } c.state((mc::u64)((n * 3 + shape) * 2000 + m)); } }
MC_SCENARIO(huge, .balance = true) { static const int ns[] = {1, 4097, 10001, 32768, 32769, 65536, 65537, 131073}; int n = c.pick(ns, "n"), m = c.pick(ns, "m"), shape = c.choose(3, "shape"); c.split(); if ((n < 2 && m < 2) || std::max(n, m) > c.bound(66000, 200000) || (c.quick() && n > 1 && m > 1 && n != m)) throw mc::Skip(); c.op("lists of %d and %d elements", n, m);
    { V a, b; for (int i = 0; i < n; ++i) a.push_back(shape == 0 ? i : shape == 1 ? n - i : i / 2); for (int i = 0; i < m; ++i) b.push_back(500000 + i); joins<int>(c, a, b); maps2<int>(c, a, b); if (m == 1) { maps<int>(c, a); repeats<int>(c, a); if (shape < 2) { V d(a); d[(size_t)n - 1] = d[0]; repeats<int>(c, d); d = a; d[(size_t)n - 1] = d[(size_t)n - 2]; repeats<int>(c, d); } } c.state((mc::u64)(n * 3 + shape) * 200000 + (mc::u64)m); } }
// Lists whose elements hold lists of their own kind: a list that lies in an element is appended to the list itself.
struct Node { int v = 0; List<Node> sub; }; struct LNode { int v = 0; LinkedList<LNode> sub; }; struct MNode { int v = 0; std::vector<MNode> sub; };
template<class N> static void grow(Ctx& c, N& n, MNode& m, int& next, int w, int levels) { n.v = m.v = next++; if (!levels) return; size_t k = (size_t)c.choose(w + 1, "sub"); m.sub.resize(k); for (size_t i = 0; i != k; ++i) n.sub.push_back(N()); size_t i = 0; for (auto& e : n.sub) { grow(c, e, m.sub[i], next, i ? 1 : w, levels - 1); ++i; } }
template<class N> static void all_nodes(N& n, MNode& m, std::vector<std::pair<N*, MNode*>>& out) { out.push_back({&n, &m}); size_t i = 0; for (auto& e : n.sub) all_nodes(e, m.sub[i++], out); }
template<class N> static void same_tree(Ctx& c, N const& n, MNode const& m) { MC_CHECK(c, n.v == m.v, "element is " << n.v << " expected " << m.v); MC_CHECK(c, n.sub.size() == m.sub.size(), "a list has " << n.sub.size() << " elements, expected " << m.sub.size()); size_t i = 0; for (auto& e : n.sub) same_tree(c, e, m.sub[i++]); }
static mc::u64 tree_hash(MNode const& m) { mc::u64 h = mc::mix(3, (mc::u64)m.v); for (auto& s : m.sub) h = mc::mix(h, tree_hash(s)); return h; }
template<class N> static void trees(Ctx& c, int steps) {
    N root; MNode model; int next = 1; grow(c, root, model, next, 2, c.bound(2, 3));
    for (int s = 0; s != steps; ++s) { std::vector<std::pair<N*, MNode*>> all; all_nodes(root, model, all); if (all.size() > 14) break; int op = c.choose(5, "op"); if (op == 0) break;
        size_t x = (size_t)c.choose((int)all.size(), "x"), y = (size_t)c.choose((int)all.size(), "y"); N& X = *all[x].first; N& Y = *all[y].first; MNode& mx = *all[x].second; MNode& my = *all[y].second;
        c.op("list of %d %s %d", mx.v, op == 1 ? "append list of" : op == 2 ? "append" : op == 3 ? "concatenate list of" : "= catenated with list of", my.v);
        std::vector<MNode> t = op == 2 ? std::vector<MNode>{my} : my.sub; { std::vector<MNode> u = mx.sub; u.insert(u.end(), t.begin(), t.end()); mx.sub.swap(u); }
        if (op == 1) X.sub.append(Y.sub); else if (op == 2) X.sub.append(Y); else if (op == 3) X.sub.concatenate(Y.sub); else if constexpr (std::is_same<N, Node>::value) X.sub = catenate(X.sub, Y.sub); else throw mc::Skip();
        same_tree(c, root, model); c.state(tree_hash(model)); c.outcome(mc::mix(tree_hash(model), (mc::u64)op)); } }
MC_SCENARIO(lists_in_elements, .balance = true) { trees<Node>(c, 2); }
MC_SCENARIO(linked_lists_in_elements, .balance = true) { trees<LNode>(c, 2); }
MC_MAIN
