// C01: LRU cache against a recency list.
#include "mc.hpp"
#include <string>
#include <iostream>
#include "string.hpp"
#include "lru_cache.hpp"
#include <list>
#include <optional>
#include <algorithm>
using mc::Ctx;

template<class L> L label(int i);
template<> int label<int>(int i) { return i; }
template<> std::string label<std::string>(int i) { return (i % 2 ? "a-rather-long-label-beyond-sso-" : "") + std::to_string(1000 + i); }
template<> Helper::String label<Helper::String>(int i) { return Helper::String(label<std::string>(i)); }
template<class V> V value(int i);
template<> int value<int>(int i) { return i; }
template<> std::string value<std::string>(int i) { return "value-number-" + std::to_string(i); }

struct Model {
    size_t cap; std::vector<std::pair<int,int>> order;      // most recent first: (label, value)
    int find(int l) const { for (size_t i = 0; i != order.size(); ++i) if (order[i].first == l) return (int)i; return -1; }
    void touch(int i) { auto x = order[(size_t)i]; order.erase(order.begin() + i); order.insert(order.begin(), x); }
    void put(int l, int v) { if (order.size() == cap) order.pop_back(); order.insert(order.begin(), {l, v}); }
    mc::u64 hash() const { mc::u64 h = mc::mix(17, cap); for (auto& x : order) h = mc::mix(h, (mc::u64)x.first + 1); return h; }
};

template<class C, class M> void observe(Ctx& c, C& cache, M const& m, int labels, auto mk) {
    MC_CHECK(c, cache.current_size() == m.order.size(), "size " << cache.current_size() << " expected " << m.order.size());
    MC_CHECK(c, cache.maximum_size() == m.cap, "maximum size " << cache.maximum_size());
    for (int l = 0; l != labels; ++l) {
        int i = m.find(l); auto lab = mk(l);
        bool has = cache.has_label(lab);
        MC_CHECK(c, has == (i >= 0), "presence of label " << l << " is " << has);
        if (i >= 0) { size_t a = cache.age(lab); MC_CHECK(c, a == (size_t)i, "age of label " << l << " is " << a << " expected " << i); }
    } }

template<class F> bool refused(Ctx& c, F f) {
    try { f(); } catch (std::runtime_error const&) { return true; }
    catch (std::exception const& e) { c.fail(std::string("refused with another exception: ") + e.what()); }
    return false; }

// One step; returns false for a step that was refused.
template<class L, class V> void step(Ctx& c, Helper::LRUCache<L,V>& cache, Model& m, int kind, int l, int& counter) {
    L lab = label<L>(l); int i = m.find(l);
    if (kind == 0) {
        int v = ++counter; c.op("put(%d)%s", l, i >= 0 ? "!" : "");
        bool r = refused(c, [&] { cache.put(lab, value<V>(v)); });
        MC_CHECK(c, r == (i >= 0), "insertion of " << (i >= 0 ? "present" : "absent") << " label " << l << (r ? " refused" : " accepted"));
        if (!r) m.put(l, v);
    } else if (kind == 1) {
        c.op("get(%d)%s", l, i >= 0 ? "" : "!");
        bool r = refused(c, [&] { V const& got = cache.get(lab);
            if (i >= 0) MC_CHECK(c, got == value<V>(m.order[(size_t)i].second), "wrong value for label " << l << ": " << got); });
        MC_CHECK(c, r == (i < 0), "lookup of " << (i >= 0 ? "present" : "absent") << " label " << l << (r ? " refused" : " accepted"));
        if (!r) m.touch(i);
    } else {
        c.op("age(%d)%s", l, i >= 0 ? "" : "!");
        bool r = refused(c, [&] { size_t a = cache.age(lab); if (i >= 0) MC_CHECK(c, a == (size_t)i, "age of label " << l << " is " << a << " expected " << i); });
        MC_CHECK(c, r == (i < 0), "age query of label " << l << (r ? " refused" : " accepted"));
    } }

template<class L, class V> void finish(Ctx& c, Helper::LRUCache<L,V>& cache, Model& m, int labels) {
    observe(c, cache, m, labels, label<L>);
    auto order = m.order;      // values, oldest first; afterwards the order is reversed
    for (size_t k = order.size(); k-- > 0; ) { V const& got = cache.get(label<L>(order[k].first));
        MC_CHECK(c, got == value<V>(order[k].second), "final value of label " << order[k].first << " is " << got); }
    std::reverse(m.order.begin(), m.order.end()); auto o2 = m.order;
    for (size_t k = 0; k != o2.size(); ++k) m.touch(m.find(order[order.size() - 1 - k].first));
    m.order = order;
    observe(c, cache, m, labels, label<L>); }

#ifndef FAR
// All histories up to a depth, without merging states.
template<class L, class V> void histories(Ctx& c, int maxcap, int extra, int depth, int depth_small) {
    int cap = 1 + c.choose(maxcap, "cap"), labels = cap + extra;
    bool watch = c.flip("watch");          // observe everything after each step, or only at the end
    c.note("capacity %d%s", cap, watch ? " observed" : "");
    Helper::LRUCache<L,V> cache((size_t)cap); Model m{(size_t)cap, {}}; int counter = 0;
    int d = cap == 1 ? depth_small : depth;
    for (int s = 0; s != d; ++s) {
        int k = c.choose(2 * labels + 1); if (k == 0) break;      // stop here
        step(c, cache, m, (k - 1) / labels, (k - 1) % labels, counter);
        c.state(m.hash());
        if (watch) observe(c, cache, m, labels, label<L>); }
    finish(c, cache, m, labels); c.outcome(m.hash()); }

MC_SCENARIO(histories_int, .balance = true) { histories<int,int>(c, c.bound(3,4), 2, c.bound(5,6), c.bound(6,7)); }
MC_SCENARIO(histories_string, .balance = true) { histories<Helper::String,std::string>(c, 2, 2, c.bound(5,6), c.bound(5,6)); }

// All reachable states (labels in recency order), to a fixed point.
template<class L, class V> void reachable(Ctx& c, int maxcap, int extra) {
    int cap = 1 + c.choose(maxcap, "cap"), labels = cap + extra; c.note("capacity %d", cap);
    Helper::LRUCache<L,V> cache((size_t)cap); Model m{(size_t)cap, {}}; int counter = 0;
    int depth = cap + c.bound(6, 12);
    for (int s = 0; s != depth; ++s) {
        int k = c.choose(3 * labels); if (s == 1) c.split();
        step(c, cache, m, k / labels, k % labels, counter);
        observe(c, cache, m, labels, label<L>);
        c.state_or_prune(m.hash(), depth - s); }
    finish(c, cache, m, labels); c.outcome(m.hash()); }

MC_SCENARIO(reachable_int, .balance = true) { reachable<int,int>(c, c.bound(4,5), 2); }
MC_SCENARIO(reachable_string, .balance = true) { reachable<std::string,std::string>(c, 3, 1); }

// Several caches of one type, their copies and moves.
template<class L, class V> void several(Ctx& c, int depth, bool prune) { typedef Helper::LRUCache<L,V> C; { int ca = 1 + c.choose(2, "cap0"), cb = 1 + c.choose(3, "cap1"), labels = 3, counter = 0; std::unique_ptr<C> x[2] = {std::unique_ptr<C>(new C((size_t)ca)), std::unique_ptr<C>(new C((size_t)cb))}; Model m[2] = {{(size_t)ca, {}}, {(size_t)cb, {}}};
    for (int s = 0; s != depth; ++s) { int k = c.choose(12, "op"); if (k == 0) break; int i = c.choose(2, "cache"), j = 1 - i;
        if (k <= 3) step(c, *x[i], m[i], 0, k - 1, counter); else if (k <= 6) step(c, *x[i], m[i], 1, k - 4, counter);
        else if (k == 7) { c.op("c%d=c%d", i, j); *x[i] = *x[j]; m[i] = m[j]; } else if (k == 8) { c.op("c%d copy of c%d", i, j); x[i].reset(new C(*x[j])); m[i] = m[j]; }
        else if (k == 9) { c.op("c%d=move(c%d)", i, j); *x[i] = std::move(*x[j]); m[i] = m[j]; x[j].reset(new C((size_t)ca)); m[j] = Model{(size_t)ca, {}}; } else if (k == 10) { c.op("swap"); std::swap(*x[0], *x[1]); std::swap(m[0], m[1]); } else { c.op("c%d made anew", i); x[i].reset(); x[i].reset(new C((size_t)cb)); m[i] = Model{(size_t)cb, {}}; }
        for (int q = 0; q != 2; ++q) observe(c, *x[q], m[q], labels, label<L>); mc::u64 h = mc::mix(mc::mix(m[0].hash(), m[1].hash()), (mc::u64)(ca * 4 + cb)); if (prune) c.state_or_prune(h, depth - s); else c.state(h); }
    finish(c, *x[0], m[0], labels); observe(c, *x[1], m[1], labels, label<L>); finish(c, *x[1], m[1], labels); c.outcome(mc::mix(m[0].hash(), m[1].hash())); } }
MC_SCENARIO(several_int, .balance = true) { several<int,int>(c, c.bound(3, 4), false); }
MC_SCENARIO(several_reachable, .balance = true) { several<int,int>(c, c.bound(7, 9), true); }
MC_SCENARIO(several_string, .balance = true) { several<std::string,std::string>(c, c.bound(3, 4), false); }
// The label's own order decides, labels may be equal without being identical; other label types.
struct Name { std::string s; int note = 0; bool operator<(Name const& o) const { return s.size() > o.s.size() || (s.size() == o.s.size() && s > o.s); } }; static std::ostream& operator<<(std::ostream& os, Name const& n) { return os << n.s; }
template<> Name label<Name>(int i) { static int salt = 0; return Name{std::string((size_t)(i % 3), 'a') + std::to_string(i), ++salt}; }
template<> double label<double>(int i) { return (i - 1) * 0.25; }
template<> long label<long>(int i) { return (long)(i - 1) << 33; }
template<> char label<char>(int i) { return (char)(i * 100); }
MC_SCENARIO(histories_own_order, .balance = true) { histories<Name,int>(c, 2, 2, 4, 5); }
MC_SCENARIO(histories_double, .balance = true) { histories<double,std::string>(c, 2, 2, 4, 5); }
MC_SCENARIO(histories_long, .balance = true) { histories<long,int>(c, 2, 2, 4, 5); }
MC_SCENARIO(histories_char, .balance = true) { histories<char,int>(c, 2, 2, 4, 5); }
// Ages beyond the range of small integers.
MC_SCENARIO(huge) { int cap = c.bound(1025, 65537) + c.choose(2); c.split(); c.op("capacity %d", cap); Helper::LRUCache<int,int> cache((size_t)cap); int n = cap + 2; for (int i = 0; i != n; ++i) cache.put(i, 3 * i); c.ops((mc::u64)n); for (int i = 0; i != 2; ++i) MC_CHECK(c, !cache.has_label(i), "entry " << i << " should have been evicted"); for (int i = 2; i != n; ++i) { MC_CHECK(c, cache.has_label(i), "entry " << i << " was evicted"); MC_CHECK(c, cache.age(i) == (size_t)(n - 1 - i), "age of entry " << i << " is " << cache.age(i) << " expected " << n - 1 - i); }
    MC_CHECK(c, cache.get(2) == 6 && cache.age(2) == 0 && cache.age(3) == (size_t)cap - 1, "a hit of the oldest entry"); cache.put(n, 1); MC_CHECK(c, cache.has_label(2) && !cache.has_label(3) && cache.has_label(4) && cache.current_size() == (size_t)cap, "eviction after a hit of the oldest entry"); c.state((mc::u64)cap); c.outcome(1); }
// Large capacities: fill with m labels, look one up (or miss), insert k more, observe; ascending,
// descending and scattered label order.
MC_SCENARIO(large, .balance = true) {
    static const int caps[] = {2,3,4,5,6,7,8,9,10,12,15,16,17,31,32,33,63,64,65,100,127,128,129,200,255,256,257,300};
    int cap = c.pick(caps, "cap"); int order = c.choose(3, "order");
    int fill = std::vector<int>{cap - 1, cap, cap + 1, 2 * cap + 1}[(size_t)c.choose(4, "fill")];
    int more = std::vector<int>{0, 1, cap / 2, cap - 1, cap}[(size_t)c.choose(5, "more")];
    int N = fill + more + 2; int hit = c.choose(6, "hit");
    c.note("cap %d order %d fill %d more %d hit %d", cap, order, fill, more, hit);
    auto name = [&](int i) { return order == 0 ? i : order == 1 ? N - i : (int)((unsigned)i * 2654435761u % 1000003u); };
    Helper::LRUCache<int,int> cache((size_t)cap); std::list<int> rec;     // most recent first
    auto put = [&](int i) { cache.put(name(i), 3 * i); if ((int)rec.size() == cap) rec.pop_back(); rec.push_front(i); };
    auto get = [&](int i) { int v = cache.get(name(i)); MC_CHECK(c, v == 3 * i, "value of entry " << i << " is " << v);
        auto it = std::find(rec.begin(), rec.end(), i); rec.erase(it); rec.push_front(i); };
    for (int i = 0; i != fill; ++i) put(i);
    c.ops((mc::u64)fill);
    if (!rec.empty()) {
        std::vector<int> r(rec.begin(), rec.end()); size_t z = r.size();
        if (hit == 1) get(r[0]); if (hit == 2) get(r[z - 1]); if (hit == 3) get(r[z / 2]);
        if (hit == 4) { get(r[z - 1]); get(r[z / 3]); if (z > 2) get(r[z - 2]); }
        if (hit == 5) { for (size_t k = z; k-- > 0; ) if (k % 2) get(r[k]); }
        c.ops(z / 2 + 1); }
    bool refusedit = false; try { cache.get(-5); } catch (std::runtime_error const&) { refusedit = true; }
    MC_CHECK(c, refusedit, "lookup of an absent label accepted");
    for (int i = fill; i != fill + more; ++i) put(i);
    c.op("fill/hit/more done");
    if (!rec.empty()) { refusedit = false; try { cache.put(name(rec.back()), 1); } catch (std::runtime_error const&) { refusedit = true; } MC_CHECK(c, refusedit, "insertion of a present label accepted"); }
    MC_CHECK(c, cache.current_size() == rec.size(), "size " << cache.current_size() << " expected " << rec.size());
    std::vector<char> held((size_t)N, 0); size_t a = 0; mc::u64 h = mc::mix(5, (mc::u64)cap);
    for (int i : rec) { held[(size_t)i] = 1; size_t got = cache.has_label(name(i)) ? cache.age(name(i)) : (size_t)-1;
        MC_CHECK(c, got == a, "age of entry " << i << " is " << (long)got << " expected " << a); ++a; h = mc::mix(h, (mc::u64)i); }
    for (int i = 0; i != N; ++i) if (!held[(size_t)i]) MC_CHECK(c, !cache.has_label(name(i)), "entry " << i << " should have been evicted");
    for (int i : std::vector<int>(rec.rbegin(), rec.rend())) get(i);
    a = 0; for (int i : rec) { size_t got = cache.age(name(i)); MC_CHECK(c, got == a, "age of entry " << i << " is " << got << " expected " << a); ++a; }
    c.state(h); c.outcome(h); }

// Very long histories of hits on a small cache (nothing may wear out), every period up to 5.
MC_SCENARIO(endurance, .balance = true) {
    int cap = 2 + c.choose(4, "cap"), period = 1 + c.choose(5, "period"), puts = c.choose(3, "puts"); c.note("cap %d period %d puts %d", cap, period, puts);
    Helper::LRUCache<int,int> cache((size_t)cap); Model m{(size_t)cap, {}}; int counter = 0;
    for (int i = 0; i != cap; ++i) step(c, cache, m, 0, i, counter);
    int rounds = c.bound(1200, 70000);
    for (int r = 0; r != rounds; ++r) {
        if (puts == 1 && r % 7 == 3) { int l = 0; while (m.find(l) >= 0) ++l; step(c, cache, m, 0, l, counter); }
        else if (puts == 2 && r % 300 == 299) { int l = cap + r / 300; if (m.find(l) < 0) step(c, cache, m, 0, l, counter); }
        else { int l = m.order[(size_t)((r % period) % cap)].first; step(c, cache, m, 1, l, counter); } }
    observe(c, cache, m, cap + 3, label<int>); c.outcome(m.hash()); }

// Capacities that are never reached, around the limits of the integer types.
MC_SCENARIO(capacities) { static const size_t caps[] = {127, 128, 255, 256, 32767, 32768, 65535, 65536, 0x7fffffffu, 0x80000000u, 0xffffffffu, 0x100000000ull, 0x100000001ull, 0x7fffffffffffffffull, 0x8000000000000000ull, 0x8000000000000001ull, ~(size_t)0 - 1, ~(size_t)0};
    size_t cap = caps[c.choose(18, "capacity")]; c.op("capacity %zu", cap); std::optional<Helper::LRUCache<int,int>> made; try { made.emplace(cap); } catch (std::bad_alloc const&) { throw mc::Skip(); } catch (std::length_error const&) { throw mc::Skip(); } auto& cache = *made; Model m{cap, {}};
    int n = c.bound(5, 6); for (int i = 0; i != n; ++i) { int k = c.choose(2, "operation"), l = c.choose(3, "label"), at = m.find(l); if (k == 0) { if (at >= 0) MC_CHECK(c, refused(c, [&] { cache.put(l, 9); }), "a present label is inserted"); else { cache.put(l, i); m.put(l, i); } } else { if (at < 0) MC_CHECK(c, refused(c, [&] { cache.get(l); }), "an absent label is found"); else { int v = m.order[(size_t)at].second; MC_CHECK(c, cache.get(l) == v, "another value for label " << l); m.touch(at); } } observe(c, cache, m, 3, [](int x) { return x; }); } c.ops((mc::u64)n); c.state(m.hash()); }
MC_SCENARIO(capacity_zero) {
    int k = c.choose(2); bool thrown = false; c.op("construct with capacity %d", k);
    try { Helper::LRUCache<int,int> cache((size_t)k); MC_CHECK(c, cache.current_size() == 0 && cache.maximum_size() == 1, "fresh cache"); } catch (std::runtime_error const&) { thrown = true; }
    MC_CHECK(c, thrown == (k == 0), "capacity " << k << (thrown ? " refused" : " accepted")); c.state((mc::u64)k); c.outcome((mc::u64)thrown); }
#else
// Ages beyond 16 bits, in every run (a build without sanitizers).
MC_SCENARIO(far) { int cap = 65537; c.choose(1); c.op("capacity %d", cap); Helper::LRUCache<int,int> cache((size_t)cap); int n = cap + 2; double t0 = mc::now_s(); for (int i = 0; i != n; ++i) { cache.put(i, 3 * i); if (i % 64 == 0) { c.ops(64); if (mc::now_s() - t0 > 240) { c.sh->truncated = 2; return; } } }
    for (int i = 0; i != 2; ++i) MC_CHECK(c, !cache.has_label(i), "entry " << i << " should have been evicted"); auto look = [&](int i) { MC_CHECK(c, cache.has_label(i), "entry " << i << " was evicted"); size_t const age = cache.age(i); MC_CHECK(c, age == (size_t)(n - 1 - i), "age of entry " << i << " is " << age << " expected " << n - 1 - i); };
    for (int i = 2; i != 12; ++i) { look(i); look(n + 1 - i); } for (int s = 1; s < n - 3; s *= 2) { look(n - 1 - s); look(n - s); look(s + 2); } for (int i = 2; i != n; ++i) { look(i); if (i % 64 == 0) { c.ops(64); if (mc::now_s() - t0 > 300) { c.sh->truncated = 2; break; } } }
    MC_CHECK(c, cache.get(2) == 6 && cache.age(2) == 0 && cache.age(3) == (size_t)cap - 1, "a hit of the oldest entry"); cache.put(n, 1); MC_CHECK(c, cache.has_label(2) && !cache.has_label(3) && cache.has_label(4) && cache.current_size() == (size_t)cap, "eviction after a hit of the oldest entry"); c.state((mc::u64)cap); c.outcome(1); }
#endif
MC_MAIN
