// C02: cache insertion under aliasing arguments and failing copies.
#include "tracked.hpp"
#include "alloc.hpp"
#include <string>
#include <memory>
#include <iostream>
#include "lru_cache.hpp"
using mc::Ctx; using mc::Tr; using mc::Mv; using mc::ledger; using mc::Boom;
static mc::UseLedger use_ledger;

template<class T> struct Val { T t; int next; Val(int v, int n) : t(v), next(n) { } friend std::ostream& operator<<(std::ostream& os, Val const& v) { return os << v.t.v; } };
struct Model { size_t cap; std::vector<std::pair<int,int>> order;
    int find(int l) const { for (size_t i = 0; i != order.size(); ++i) if (order[i].first == l) return (int)i; return -1; }
    void touch(int i) { auto x = order[(size_t)i]; order.erase(order.begin() + i); order.insert(order.begin(), x); }
    void put(int l, int v) { if (order.size() == cap) order.pop_back(); order.insert(order.begin(), {l, v}); }
    mc::u64 hash() const { mc::u64 h = mc::mix(17, cap); for (auto& x : order) h = mc::mix(h, (mc::u64)x.first + 1); return h; } };

template<class L> int lab(L const& l); template<> int lab<int>(int const& l) { return l; } template<> int lab<Tr>(Tr const& l) { return l.v; } template<> int lab<Mv>(Mv const& l) { return l.v; }

template<class C> void same(Ctx& c, C& cache, Model const& m, int labels, auto mk, const char* when) {
    MC_CHECK(c, cache.current_size() == m.order.size(), when << ": size " << cache.current_size() << " expected " << m.order.size());
    for (int l = 0; l != labels; ++l) { int i = m.find(l); auto x = mk(l);
        MC_CHECK(c, cache.has_label(x) == (i >= 0), when << ": presence of label " << l);
        if (i >= 0) MC_CHECK(c, cache.age(x) == (size_t)i, when << ": age of label " << l << " is " << cache.age(x) << " expected " << i); } }
template<class C> void values(Ctx& c, C& cache, Model& m, auto mk, auto val, const char* when) {
    auto o = m.order; for (size_t k = o.size(); k-- > 0; ) { auto x = mk(o[k].first); auto const& got = cache.get(x);
        MC_CHECK(c, val(got) == o[k].second, when << ": value of label " << o[k].first << " is " << val(got) << " expected " << o[k].second); } }

// Values (and labels inside values) that refer into the cache.
template<class T> void alias(Ctx& c, int cut) {
    int cap = 1 + c.choose(3, "cap"), labels = cap + 2, depth = c.bound(cap == 1 ? 6 : 5, cap == 1 ? 7 : 6) - cut; c.note("capacity %d", cap);
    typedef Val<T> V; Helper::LRUCache<int,V> cache((size_t)cap); Model m{(size_t)cap, {}}; int counter = 0;
    V const* held = nullptr; int held_label = -1; auto mk = [](int l) { return l; }; auto val = [](V const& v) { return v.t.get(); };
    for (int s = 0; s != depth; ++s) {
        int k = c.choose(1 + 3 * labels + 1); if (k == 0) break; --k;
        if (k < labels) { if (m.find(k) >= 0) throw mc::Skip(); int v = ++counter; c.op("put(%d)", k); { V x(v, (k + 1) % labels); cache.put(k, x); MC_CHECK(c, x.t.get() == v && x.next == (k + 1) % labels, "the value inserted was changed in the caller's own variable"); } m.put(k, v); }
        else if (k < 2 * labels) { int l = k - labels, i = m.find(l); if (i < 0) throw mc::Skip(); c.op("hold=get(%d)", l); held = &cache.get(l); held_label = l;
            MC_CHECK(c, val(*held) == m.order[(size_t)i].second, "value of label " << l); m.touch(i); }
        else if (k < 3 * labels) { int l = k - 2 * labels; if (!held || m.find(held_label) < 0 || m.find(l) >= 0) throw mc::Skip();
            int v = m.order[(size_t)m.find(held_label)].second; c.op("put(%d, held value of %d)", l, held_label); cache.put(l, *held); m.put(l, v); if (m.find(held_label) < 0) held = nullptr; else MC_CHECK(c, val(*held) == v, "inserting the value held for label " << held_label << " changed it there"); }
        else { if (!held || m.find(held_label) < 0) throw mc::Skip(); int l = held->next; if (m.find(l) >= 0) throw mc::Skip();
            int v = m.order[(size_t)m.find(held_label)].second; c.op("put(held label %d, held value of %d)", l, held_label); cache.put(held->next, *held); m.put(l, v); if (m.find(held_label) < 0) held = nullptr; else MC_CHECK(c, val(*held) == v, "inserting the value held for label " << held_label << " changed it there"); }
        if (held && m.find(held_label) < 0) held = nullptr;
        same(c, cache, m, labels, mk, "after step"); c.state(m.hash()); }
    values(c, cache, m, mk, val, "finally"); c.outcome(m.hash()); }

MC_SCENARIO(alias_values, .balance = true) { alias<Tr>(c, 0); }
MC_SCENARIO(alias_movable, .balance = true) { alias<Mv>(c, 0); }

// Labels and values that can be moved, text among them, are copied: what the caller passed stays as it was, failed insertions included.
template<class L, class V> void kept(Ctx& c, auto mkl, auto mkv, auto lv, auto vv, int depth) {
    int cap = 1 + c.choose(2, "cap"), labels = cap + 1; c.note("capacity %d", cap);
    Helper::LRUCache<L,V> cache((size_t)cap); Model m{(size_t)cap, {}}; int counter = 0;
    for (int s = 0; s != depth; ++s) {
        int k = c.choose(1 + 2 * labels); if (k == 0) break; --k; int l = k % labels, i = m.find(l); L x = mkl(l);
        if (k < labels) { int v = ++counter; V y = mkv(v); c.op("put(%d)", l); bool refused = false; try { cache.put(x, y); } catch (std::runtime_error const&) { refused = true; }
            MC_CHECK(c, refused == (i >= 0), "insertion of a " << (i >= 0 ? "present" : "absent") << " label " << (refused ? "refused" : "accepted"));
            MC_CHECK(c, vv(y) == v, "the value inserted was changed in the caller's own variable"); if (!refused) m.put(l, v); }
        else { if (i < 0) throw mc::Skip(); c.op("get(%d)", l); int got = vv(cache.get(x)); MC_CHECK(c, got == m.order[(size_t)i].second, "value of label " << l << " is " << got); m.touch(i); }
        MC_CHECK(c, lv(x) == l, "the label was changed in the caller's own variable");
        same(c, cache, m, labels, mkl, "after step"); c.state(m.hash()); }
    values(c, cache, m, mkl, vv, "finally"); c.outcome(m.hash()); }
static std::string text(int k) { return std::string(40, 'a') + char('A' + k % 26) + std::to_string(k); }
static int number(std::string const& s) { return s.size() > 41 ? std::stoi(s.substr(41)) : -1; }
MC_SCENARIO(kept_movable, .balance = true) { kept<Mv,Mv>(c, [](int l) { return Mv(l); }, [](int v) { return Mv(v); }, [](Mv const& x) { return x.get(); }, [](Mv const& x) { return x.get(); }, c.bound(4,6)); }
MC_SCENARIO(kept_text, .balance = true) { kept<std::string,std::string>(c, text, text, number, number, c.bound(5,6)); }

// Every copy of a label or value during an operation may fail.
template<class L, class V = Tr> void faults(Ctx& c, int maxcap, int depth, bool memory = false) {
    int cap = 1 + c.choose(maxcap, "cap"), labels = cap + 2; c.note("capacity %d", cap); int budget = 1;
    auto mk = [](int l) { return L(l); }; auto val = [](V const& v) { return v.get(); };
    { Helper::LRUCache<L,V> cache((size_t)cap); Model m{(size_t)cap, {}}; int counter = 0;
      for (int s = 0; s != depth; ++s) {
        int k = c.choose(1 + 2 * labels); if (k == 0) break; --k; int l = k % labels, i = m.find(l);
        L x = mk(l);
        if (k < labels) { int v = ++counter; V y(v);
            int f = budget && i < 0 ? c.choose(30, "fault") - 1 : -1;      // which element operation of this insertion fails
            c.op("put(%d)%s", l, f >= 0 ? " failing" : ""); if (memory) mc::memory.plan(f); else ledger.plan(f); bool boom = false, refused = false;
            try { cache.put(x, y); } catch (Boom const&) { boom = true; } catch (std::bad_alloc const&) { boom = true; } catch (std::runtime_error const&) { refused = true; }
            bool fired = memory ? mc::memory.fired : ledger.fired; ledger.cancel(); mc::memory.cancel(); mc::memory.fired = false;
            if (f >= 0 && !fired) { c.no_more(); throw mc::Skip(); }                       // fewer element operations than f: same as no fault
            MC_CHECK(c, boom == fired || (memory && fired), "a failing copy was not reported to the caller");
            MC_CHECK(c, refused == (i >= 0), "insertion of a " << (i >= 0 ? "present" : "absent") << " label " << (refused ? "refused" : "accepted"));
            MC_CHECK(c, val(y) == v && lab(x) == l, "an argument of put was changed in the caller's own variable");
            if (boom) { --budget; same(c, cache, m, labels, mk, "after a failed insertion"); }
            else if (!refused) m.put(l, v); }
        else { if (i < 0) throw mc::Skip(); c.op("get(%d)", l); int got = val(cache.get(x)); MC_CHECK(c, got == m.order[(size_t)i].second, "value of label " << l << " is " << got); m.touch(i); }
        same(c, cache, m, labels, mk, "after step"); c.state(mc::mix(m.hash(), (mc::u64)budget)); }
      values(c, cache, m, mk, val, "finally"); c.outcome(mc::mix(m.hash(), (mc::u64)budget)); }
    MC_CHECK(c, ledger.live.empty(), ledger.live.size() << " values or labels never destroyed"); }
MC_SCENARIO(fault_value, .balance = true) { faults<int>(c, c.bound(3,3), c.bound(5,6)); }
MC_SCENARIO(fault_label, .balance = true) { faults<Tr>(c, c.bound(2,3), c.bound(4,5)); }
MC_SCENARIO(fault_movable, .balance = true) { faults<Mv,Mv>(c, c.bound(2,3), c.bound(3,4)); }
// Every allocation of an insertion fails in turn: in the cache itself, in the label (a long text) and in the value.
struct Named { std::string s; Named(int k) : s(text(k)) { } friend bool operator<(Named const& a, Named const& b) { return a.s < b.s; } friend std::ostream& operator<<(std::ostream& os, Named const& n) { return os << n.s; } };
struct Held { std::string s; std::unique_ptr<int> p; Held(int k) : s(text(k)), p(new int(k)) { } Held(Held const& o) : s(o.s), p(new int(*o.p)) { } int get() const { return number(s) == *p ? *p : -1; } };
template<> int lab<Named>(Named const& n) { return number(n.s); }
MC_SCENARIO(memory_runs_out, .balance = true) { faults<int, Held>(c, 3, c.bound(5,6), true); }
MC_SCENARIO(memory_runs_out_labels, .balance = true) { faults<Named, Held>(c, c.bound(2,3), c.bound(4,5), true); }
// Values that can always be copied, under labels that cannot.
struct Plain { int v; explicit Plain(int x) : v(x) { } int get() const noexcept { return v; } };
static_assert(std::is_trivially_copyable<Plain>::value);
struct Quiet { int v; explicit Quiet(int x) : v(x) { } Quiet(Quiet const& o) noexcept : v(o.v) { } Quiet(Quiet&& o) noexcept : v(o.v) { o.v = -7; } int get() const noexcept { return v; } };
MC_SCENARIO(fault_label_plain, .balance = true) { faults<Tr, Plain>(c, c.bound(2,3), c.bound(4,5)); }
MC_SCENARIO(fault_label_quiet, .balance = true) { faults<Tr, Quiet>(c, 2, c.bound(4,5)); }
MC_SCENARIO(memory_runs_out_plain, .balance = true) { faults<Named, Plain>(c, c.bound(2,3), c.bound(4,5), true); }
MC_SCENARIO(memory_runs_out_bare, .balance = true) { faults<int, Plain>(c, 3, c.bound(5,6), true); }
MC_MAIN
