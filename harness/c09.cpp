// C09: maps against an association list.
#include "mc.hpp"
#include <string>
#include <sstream>
#include <climits>
#include <map>
#include <set>
#include "container.hpp"
using mc::Ctx; using Helper::Set; using Helper::List; using Helper::Map;
struct Ord { int v; Ord(int k) : v(k) { } bool operator<(Ord const& o) const { return v < o.v; } };
template<class T> T make(int k) { return T(k); }
template<> std::string make<std::string>(int k) { std::string s = std::to_string(k); return std::string(k & 1 ? "a-long-prefix-beyond-the-small-buffer-" : "b") + std::string(s.size() < 6 ? 6 - s.size() : 0, '0') + s; }
template<class T> bool eq(T const& a, T const& b) { return a == b; } template<> bool eq(Ord const& a, Ord const& b) { return a.v == b.v; }
typedef std::vector<std::pair<int,int>> V;     // (key,value), ascending by key index; strings: order of the real keys
static int at(V const& v, int k) { if (v.size() > 400) { auto p = std::lower_bound(v.begin(), v.end(), std::make_pair(k, INT_MIN)); return p != v.end() && p->first == k ? (int)(p - v.begin()) : -1; } for (size_t i = 0; i != v.size(); ++i) if (v[i].first == k) return (int)i; return -1; }
template<class K> void put(V& v, int k, int x) { int i = at(v, k); if (i >= 0) { v[(size_t)i].second = x; return; } v.push_back({k, x}); std::sort(v.begin(), v.end(), [](auto const& a, auto const& b) { return make<K>(a.first) < make<K>(b.first); }); }
template<class K> void add(V& v, int k, int x) { if (at(v, k) < 0) put<K>(v, k, x); }
static std::string str(V const& v) { std::string s = "{"; for (auto& k : v) if (s.size() > 400) return s + " ... }"; else s += " " + std::to_string(k.first) + ":" + std::to_string(k.second); return s + " }"; }
template<class F> int refusal(F f) { try { f(); } catch (std::runtime_error const&) { return 1; } catch (std::exception const&) { return 2; } return 0; }

template<class K, class T> void look(Ctx& c, Map<K,T>& m, V const& v, int maxk, const char* who) {
    Map<K,T> const& k = m;
    MC_CHECK(c, m.size() == v.size(), who << " has " << m.size() << " entries, expected " << str(v));
    size_t i = 0; for (auto const& e : k) { MC_CHECK(c, eq(e.first, make<K>(v[i].first)) && eq(e.second, make<T>(v[i].second)), "entry " << i << " of " << who << ", expected " << str(v)); ++i; }
    Set<K> ks = k.keys(); List<T> vs = k.values(); MC_CHECK(c, ks.size() == v.size() && vs.size() == v.size(), "listings of " << who << " have " << ks.size() << " and " << vs.size() << " items, expected " << str(v));
    i = 0; for (auto const& x : ks) { MC_CHECK(c, eq(x, make<K>(v[i].first)), "key " << i << " of " << who << " listed wrongly, expected " << str(v)); MC_CHECK(c, eq(vs[i], make<T>(v[i].second)), "value " << i << " of " << who << " listed wrongly, expected " << str(v)); ++i; }
    for (int q = 0; q <= maxk; ++q) { K key = make<K>(q); int p = at(v, q);
        MC_CHECK(c, k.has_key(key) == (p >= 0), "presence of key " << q << " in " << who << " " << str(v));
        if (p >= 0) { T want = make<T>(v[(size_t)p].second); bool same = true; int r = refusal([&] { same = eq(k[key], want) && eq(k.get(key), want) && eq(k.value(key), want) && eq(m.value(key), want) && eq(m[key], want) && eq(m.get(key), want); });
            MC_CHECK(c, r == 0 && same, "lookup of key " << q << " in " << who << " " << str(v) << (r ? " was refused" : " gives a wrong value")); MC_CHECK(c, &k.get(key) == &k.value(key) && &k[key] == &m.value(key), "lookups of key " << q << " give different places"); } }
    MC_CHECK(c, m.size() == v.size(), "a lookup changed " << who); c.ops(4 + 5 * (mc::u64)maxk); }
template<class K, class T> void absent(Ctx& c, Map<K,T>& m, V const& v, int maxk, const char* who) { Map<K,T> const& k = m;
    for (int q = 0; q <= maxk; ++q) if (at(v, q) < 0) { K key = make<K>(q); int r[4] = {refusal([&] { (void)k.get(key); }), refusal([&] { (void)k.value(key); }), refusal([&] { (void)m.value(key); }), refusal([&] { (void)k[key]; })};
        for (int w = 0; w != 4; ++w) MC_CHECK(c, r[w] == 1, "checked lookup " << w << " of the absent key " << q << " in " << who << " " << str(v) << (r[w] ? " threw another exception" : " succeeded")); MC_CHECK(c, m.size() == v.size() && !k.has_key(key), "a checked lookup changed " << who); } }
template<class K, class T> Map<K,T> mk(V const& v) { Map<K,T> m; for (auto& e : v) m[make<K>(e.first)] = make<T>(e.second); return m; }
template<class K> Set<K> mks(std::vector<int> const& v) { Set<K> s; for (int k : v) s.std::template set<K>::insert(make<K>(k)); return s; }
template<class K> V fromq(std::vector<std::pair<int,int>> const& e) { V v; for (auto& x : e) put<K>(v, x.first, x.second); return v; }

// All pairs of a map and another map, and of a map and a set of keys, over small universes.
template<class K, class T> void both(Ctx& c, V const& a, V const& b, std::vector<int> const& keys, int maxk) {
    V j = a; if (a.size() > 400) { std::map<int,int> q(a.begin(), a.end()); q.insert(b.begin(), b.end()); j.assign(q.begin(), q.end()); } else for (auto& e : b) add<K>(j, e.first, e.second);
    std::set<int> ks(keys.begin(), keys.end()); V rem, res; for (auto& e : a) (ks.count(e.first) ? res : rem).push_back(e);
    Map<K,T> m = mk<K,T>(a), n = mk<K,T>(b); look(c, m, a, maxk, "map"); absent(c, m, a, maxk, "map");
    { Map<K,T> r(m); r.adjoin(n); look(c, r, j, maxk, "adjoined map"); r.adjoin(r); look(c, r, j, maxk, "map adjoined to itself"); std::map<K,T> const& bn = n; Map<K,T> q(m); q.adjoin(bn); look(c, q, j, maxk, "adjoined map"); }
    { Map<K,T> r = Helper::join(m, n); look(c, r, j, maxk, "joined map"); Map<K,T> q = Helper::join(m, m); look(c, q, a, maxk, "map joined with itself"); }
    { Set<K> s = mks<K>(keys); Map<K,T> r(m); r.remove_keys(s); look(c, r, rem, maxk, "map with keys removed"); Map<K,T> q = Helper::restrict_keys(m, s); look(c, q, res, maxk, "restricted map"); MC_CHECK(c, s.size() == keys.size(), "the key set changed");
      Map<K,T> z(m); z.remove_keys(z.keys()); look(c, z, V(), maxk, "map with all keys removed"); Map<K,T> y = Helper::restrict_keys(m, m.keys()); look(c, y, a, maxk, "map restricted to its keys"); }
    look(c, m, a, maxk, "source map"); look(c, n, b, maxk, "argument map"); }
template<class K, class T> void pairs(Ctx& c, int n) {
    std::vector<std::pair<int,int>> ea, eb; std::vector<int> keys; int x = c.choose(1 << n, "m"), y = c.choose(1 << n, "n"), z = c.choose(1 << n, "keys"); c.split();
    for (int k = 0; k != n; ++k) { if (x >> k & 1) ea.push_back({k, 10 + k}); if (y >> k & 1) eb.push_back({k, 20 + k}); if (z >> k & 1) keys.push_back(k); }
    both<K,T>(c, fromq<K>(ea), fromq<K>(eb), keys, n); c.state((mc::u64)(x + (y << n) + (z << 2 * n)) + 1); c.outcome((mc::u64)((x & y) != 0)); }
MC_SCENARIO(pairs_int) { pairs<int,int>(c, c.bound(4, 5)); }
MC_SCENARIO(pairs_string) { pairs<std::string,std::string>(c, c.bound(3, 4)); }
MC_SCENARIO(pairs_ordered) { pairs<Ord,std::string>(c, 3); }

// Histories.
template<class K, class T> void history(Ctx& c, int n, int depth, bool prune) { Map<K,T> s[2]; V m[2]; int stamp = 0;
    for (int q = 0; q != depth; ++q) { int k = c.choose(10, "op"); if (k == 0) break; int i = k < 7 ? c.choose(2, "map") : 0; if (k >= 7) i = k == 7 ? 0 : 1; int j = 1 - i; Map<K,T>& M = s[i]; V& v = m[i]; int x = k < 7 ? c.choose(n, "key") : 0; K key = make<K>(x); int p = at(v, x);
        if (k == 1) { int y = ++stamp; c.op("m%d[%d]=%d", i, x, y); M[key] = make<T>(y); put<K>(v, x, y); }
        else if (k == 2) { int y = ++stamp; c.op("m%d.insert(%d,%d)", i, x, y); M.insert(key, make<T>(y)); add<K>(v, x, y); }
        else if (k == 3) { int y = ++stamp; c.op("m%d.insert({%d,%d})", i, x, y); M.insert(std::pair<K,T>(key, make<T>(y))); add<K>(v, x, y); }
        else if (k == 4) { int y = ++stamp; c.op("insert(m%d,%d,%d)", i, x, y); T& r = Helper::insert(M, key, make<T>(y)); add<K>(v, x, y); MC_CHECK(c, &r == &M.value(key), "insert returned a reference to another value"); }
        else if (k == 5) { if (p < 0) throw mc::Skip(); int y = ++stamp; c.op("m%d.value(%d)=%d", i, x, y); M.value(key) = make<T>(y); v[(size_t)p].second = y; }
        else if (k == 6) { c.op("m%d.remove_keys({%d})", i, x); M.remove_keys(mks<K>({x})); if (p >= 0) v.erase(v.begin() + p); }
        else if (k == 9) { c.op("m1.remove_keys(keys of m0)"); M.remove_keys(s[0].keys()); V r; for (auto& e : v) if (at(m[0], e.first) < 0) r.push_back(e); v = r; }
        else { c.op("m%d.adjoin(m%d)", i, j); M.adjoin(s[j]); for (auto& e : m[j]) add<K>(v, e.first, e.second); }
        for (int w = 0; w != 2; ++w) look(c, s[w], m[w], n, w ? "m1" : "m0"); if (prune) absent(c, s[0], m[0], n, "m0");
        mc::u64 h = 5; std::vector<int> vals; for (auto& w : m) { h = mc::mix(h, 77); for (auto& e : w) { size_t g = 0; while (g < vals.size() && vals[g] != e.second) ++g; if (g == vals.size()) vals.push_back(e.second); h = mc::mix(h, (mc::u64)e.first * 64 + g); } }
        if (prune) c.state_or_prune(h, depth - q); else c.state(h); c.outcome(mc::mix(h, (mc::u64)k)); } }
// Histories in which nothing but the operations themselves looks at the maps until the end.
template<class K, class T> void quiet(Ctx& c, int n, int depth, int maps) { Map<K,T> s[2]; V m[2]; int stamp = 0; static const char* const names[] = {"end", "m[k]=v", "m[k]", "const m[k]", "get", "value", "const value", "has_key", "erase", "insert", "remove_keys", "value=v", "adjoin other", "assign other", "keys", "values"};
    for (int q = 0; q != depth; ++q) { int k = c.choose(16, "op"); if (k == 0) break; if (maps == 1 && (k == 12 || k == 13)) throw mc::Skip(); int i = c.choose(maps, "map"); if (q == 1) c.split(); Map<K,T>& M = s[i]; Map<K,T> const& C = M; V& v = m[i]; int x = k < 12 ? c.choose(n, "key") : 0; K key = make<K>(x); int p = k < 12 ? at(v, x) : -1, y = ++stamp; c.op("m%d %s %d", i, names[k], x); T const* got = nullptr; int r = 0;
        switch (k) { case 1: M[key] = make<T>(y); put<K>(v, x, y); break; case 2: if (p < 0) throw mc::Skip(); got = &M[key]; break; case 3: r = refusal([&] { got = &C[key]; }); break; case 4: r = refusal([&] { got = &C.get(key); }); break; case 5: r = refusal([&] { got = &M.value(key); }); break; case 6: r = refusal([&] { got = &C.value(key); }); break;
            case 7: MC_CHECK(c, C.has_key(key) == (p >= 0), "presence of key " << x << " in " << str(v)); break; case 8: M.erase(key); if (p >= 0) v.erase(v.begin() + p); break; case 9: M.insert(key, make<T>(y)); add<K>(v, x, y); break; case 10: M.remove_keys(mks<K>({x})); if (p >= 0) v.erase(v.begin() + p); break;
            case 11: r = refusal([&] { M.value(key) = make<T>(y); }); if (p >= 0) v[(size_t)p].second = y; break; case 12: M.adjoin(s[1 - i]); for (auto& e : m[1 - i]) add<K>(v, e.first, e.second); break; case 13: M = s[1 - i]; v = m[1 - i]; break;
            case 14: { Set<K> ks = C.keys(); size_t z = 0; MC_CHECK(c, ks.size() == v.size(), "keys of " << str(v)); for (auto const& e : ks) { MC_CHECK(c, eq(e, make<K>(v[z].first)), "keys of " << str(v)); ++z; } break; } default: { List<T> vs = C.values(); MC_CHECK(c, vs.size() == v.size(), "values of " << str(v)); for (size_t z = 0; z != v.size(); ++z) MC_CHECK(c, eq(vs[z], make<T>(v[z].second)), "values of " << str(v)); } }
        if ((k >= 3 && k <= 6) || k == 11) MC_CHECK(c, r == (p < 0 ? 1 : 0), names[k] << " of " << x << " in " << str(v) << (r ? " was refused" : " was not refused")); if (got) MC_CHECK(c, p >= 0 && eq(*got, make<T>(v[(size_t)p].second)), names[k] << " of " << x << " in " << str(v) << " is wrong"); }
    for (int w = 0; w != 2; ++w) { MC_CHECK(c, s[w].size() == m[w].size(), "m" << w << " has " << s[w].size() << " entries, expected " << str(m[w])); size_t z = 0; for (auto const& e : s[w]) { MC_CHECK(c, eq(e.first, make<K>(m[w][z].first)) && eq(e.second, make<T>(m[w][z].second)), "entry " << z << " of m" << w << ", expected " << str(m[w])); ++z; } look(c, s[w], m[w], n, "map at the end"); }
    mc::u64 h = 5; for (auto& w : m) { h = mc::mix(h, 77); for (auto& e : w) h = mc::mix(h, (mc::u64)e.first * 64 + (mc::u64)e.second); } c.state(h); }
MC_SCENARIO(quiet_int) { quiet<int,int>(c, 2, c.bound(3, 4), 2); }
MC_SCENARIO(quiet_one_int) { quiet<int,int>(c, 2, c.bound(4, 5), 1); }
MC_SCENARIO(quiet_string) { quiet<std::string,std::string>(c, 2, 3, 2); }
MC_SCENARIO(history_int) { history<int,int>(c, 2, c.bound(3, 5), false); }
MC_SCENARIO(history_string) { history<std::string,std::string>(c, 2, c.bound(3, 4), false); }
MC_SCENARIO(reach) { history<int,int>(c, c.bound(3, 4), c.bound(5, 6), true); }
// Larger maps.
static void larger(Ctx& c, int n, int shape) { V a, b; std::vector<int> keys; for (int i = 0; i < n; ++i) a.push_back({2 * i, shape % 4 == 1 ? 7 : shape % 4 == 3 ? i / 2 : 3 * i + 1});
    for (int i = 0; i < 2 * n + 2; ++i) { bool in = shape == 0 ? true : shape == 1 ? i % 2 : shape == 2 ? i < n : shape == 3 ? i >= n : shape == 4 ? i == 2 * n - 2 : shape == 5 ? i == 0 : shape == 6 ? i % 4 == 0 : false; if (in) { b.push_back({i, -i}); keys.push_back(i); } }
    both<int,int>(c, a, b, keys, 2 * n + 2); c.state((mc::u64)(n * 8 + shape) + 1); c.outcome((mc::u64)shape); }
MC_SCENARIO(large) { static const int ns[] = {1, 2, 7, 8, 9, 15, 16, 17, 31, 32, 33, 64, 65, 100, 128, 257, 1000}; int n = c.pick(ns, "n"), shape = c.choose(8, "relation"), order = c.choose(3, "order"); c.split(); if (c.quick() && n > 300) throw mc::Skip(); c.op("%d entries, relation %d, order %d", n, shape, order); larger(c, n, shape);
    Map<int,int> m; V v; for (int q = 0; q < n; ++q) { int i = order == 0 ? q : order == 1 ? n - 1 - q : (q * 7) % n; m.insert(i, q); if (order == 2) m.insert(i, -5); put<int>(v, i, at(v, i) >= 0 ? v[(size_t)at(v, i)].second : q); } look(c, m, v, n, "map built by insertion"); c.state((mc::u64)((n * 8 + shape) * 3 + order)); }
MC_SCENARIO(huge) { static const int ns[] = {513, 1025, 4097, 10001, 32769, 65537, 131073}; int n = c.pick(ns, "n"), shape = c.choose(8, "relation"); c.split(); if (n > c.bound(5000, 200000) && !(shape == 1 && n < 66000)) throw mc::Skip(); c.op("%d entries, relation %d", n, shape); larger(c, n, shape); }
// Maps whose values are sets of keys: a set that lies in the map names the keys to keep or to remove (also its own).
MC_SCENARIO(keys_held_by_the_map, .balance = true) { int n = c.bound(3, 4); typedef std::map<int, std::set<int>> Mod; Mod model; Map<int, Set<int>> m;
    for (int k = 0; k != n; ++k) { int v = c.choose((1 << n) + 1, "value") - 1; if (v < 0) continue; Set<int> s; for (int b = 0; b != n; ++b) if (v >> b & 1) s.insert(b); m.insert(k, s); model[k] = s; }
    int i = c.choose(n, "key"), op = c.choose(4, "op"); if (!model.count(i)) throw mc::Skip(); std::set<int> const keys = model[i]; std::string txt; for (int k : keys) txt += std::to_string(k) + " ";
    static const char* const names[] = {"removed", "kept (in a new map)", "kept (read-only)", "joined with itself"}; c.op("map of %zu keys, the keys %sheld at %d %s", model.size(), txt.c_str(), i, names[op]); Mod want;
    for (auto& e : model) if (op == 3 || (op == 0 ? !keys.count(e.first) : (bool)keys.count(e.first))) want.insert(e);
    if (op == 0) m.remove_keys(m.value(i)); else if (op == 1) m = restrict_keys(m, m.value(i)); else if (op == 2) { Map<int, Set<int>> const& q = m; Map<int, Set<int>> r = restrict_keys(q, q.value(i)); MC_CHECK(c, std::equal(q.begin(), q.end(), model.begin(), model.end(), [](auto const& a, auto const& b) { return a.first == b.first && std::set<int>(a.second) == b.second; }), "restriction changed the map"); m = r; } else m.adjoin(m);
    MC_CHECK(c, m.size() == want.size(), m.size() << " entries, expected " << want.size()); for (auto& e : want) MC_CHECK(c, m.has_key(e.first) && std::set<int>(m.get(e.first)) == e.second, "entry of key " << e.first); mc::u64 h = mc::mix((mc::u64)op, (mc::u64)i); for (auto& e : model) { h = mc::mix(h, (mc::u64)e.first); for (int k : e.second) h = mc::mix(h, (mc::u64)k + 100); } c.state(h); c.outcome(mc::mix((mc::u64)op, want.size())); }
MC_MAIN
