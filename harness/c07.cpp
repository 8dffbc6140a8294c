// C07: histories of lazy objects with every answer of the factory.
#include "tracked.hpp"
#include "alloc.hpp"
#include <memory>
#include <set>
#include <deque>
#include <string>
#include <iostream>
#include "lazy.hpp"
using mc::Ctx; using mc::Tr; using mc::ledger; using mc::Boom; using Helper::Lazy;
static mc::UseLedger use_ledger;
struct Shape { virtual ~Shape() = default; virtual int id() const = 0; };
struct Round : Shape { Tr v; Round(int k) : v(k) { } int id() const override { return v.get(); } };
struct Plain { Tr v; Plain(int k) : v(k) { } int id() const { return v.get(); } };
static int id_of(Shape const& s) { return s.id(); } static int id_of(Plain const& s) { return s.id(); } static int id_of(Tr const& s) { return s.get(); } static int id_of(int const& s) { return s; }

static Ctx* ctx; static int calls, made, stamp, last_source; static bool expected_call;
struct Problem : std::runtime_error { int n; Problem(int k) : std::runtime_error("problem"), n(k) { } };
template<class O> O* build(int k); template<> Shape* build<Shape>(int k) { return new Round(k); } template<> Plain* build<Plain>(int k) { return new Plain(k); } template<> Tr* build<Tr>(int k) { return new Tr(k); } template<> int* build<int>(int k) { return new int(k); }
template<class O> O* factory(int source) { ++calls; last_source = source; if (!expected_call) mc::poison("the factory was run outside of a first access");
    int a = ctx->choose(3, "answer"); if (a == 1) { ctx->note("factory throws"); throw Problem(source); } if (a == 2) { ctx->note("factory throws other"); throw Boom(); } ++made; return build<O>(++stamp); }

struct Cell { int source = -1; std::shared_ptr<int> made; const void* at = nullptr; };     // model of a lazy: its factory, and the object once made
template<class O> void history(Ctx& c, int slots, int depth, bool prune) {
    ctx = &c; calls = made = stamp = 0; int sources = 0;
    { std::vector<std::unique_ptr<Lazy<O>>> own((size_t)slots); std::vector<Cell> cell((size_t)slots);
      for (int s = 0; s != depth; ++s) {
        int k = c.choose(7, "op"); if (k == 0) break; int i = c.choose(slots, "lazy"); size_t u = (size_t)i; auto& o = own[u]; Cell& m = cell[u];
        auto other = [&] { int j = c.choose(slots, "other"); if (!own[(size_t)j]) throw mc::Skip(); return (size_t)j; };
        if ((k <= 2) == (bool)o) throw mc::Skip(); expected_call = false;
        if (k == 1) { int src = sources++; c.op("l%d: new", i); o.reset(new Lazy<O>([src] { return factory<O>(src); })); m = Cell(); m.source = src; }
        else if (k == 2) { size_t j = other(); c.op("l%d: copy of l%zu", i, j); o.reset(new Lazy<O>(*own[j])); m = cell[j]; }
        else if (k == 3) { size_t j = other(); c.op("l%d = l%zu", i, j); *o = *own[j]; m = cell[j]; }
        else if (k == 4) { size_t j = other(); if (j == u) throw mc::Skip(); c.op("l%d = move(l%zu), which is destroyed", i, j); *o = std::move(*own[j]); own[j].reset(); m = cell[j]; cell[j] = Cell(); }
        else if (k == 5) { c.op("l%d destroyed", i); o.reset(); m = Cell(); }
        else { c.op("l%d accessed", i); bool first = !m.made; expected_call = first; int before = calls, problem = -1; bool boom = false; O const* got = nullptr;
            try { got = &(*o)(); } catch (Problem const& p) { problem = p.n; } catch (Boom const&) { boom = true; }
            c.raise_pending(); expected_call = false;
            MC_CHECK(c, calls == before + (first ? 1 : 0), "an access ran the factory " << calls - before << " times, expected " << first);
            if (first) { MC_CHECK(c, last_source == m.source, "the factory of another lazy object was run"); bool failed = problem >= 0 || boom; int a = c.picks[c.n - 1];
                MC_CHECK(c, failed == (a != 0) && boom == (a == 2) && (a != 1 || problem == m.source), "the exception of the factory did not reach the caller");
                if (!failed) { m.made = std::make_shared<int>(stamp); m.at = got; } }
            else MC_CHECK(c, !boom && problem < 0, "a later access failed"); }
        mc::u64 h = 3; std::vector<int*> seen; std::vector<int> srcs;
        for (size_t j = 0; j != own.size(); ++j) { if (!own[j]) { h = mc::mix(h, 1); continue; } Cell& q = cell[j];
            if (q.made) { int before = calls; O const* p1 = &(*own[j])(); O const* p2 = &std::as_const(*own[j])(); MC_CHECK(c, calls == before, "a later access ran the factory again");
                MC_CHECK(c, p1 == q.at && p2 == q.at, "lazy " << j << " yields another object than before"); MC_CHECK(c, id_of(*p1) == *q.made, "lazy " << j << " yields the wrong object"); }
            mc::Disarm d; size_t g = 0; while (g < seen.size() && seen[g] != q.made.get()) ++g; if (q.made && g == seen.size()) seen.push_back(q.made.get());
            size_t e = 0; while (e < srcs.size() && srcs[e] != q.source) ++e; if (e == srcs.size()) srcs.push_back(q.source); h = mc::mix(h, (q.made ? g + 3 : 2) * 16 + e); }
        size_t groups = seen.size(); { mc::Disarm d; std::vector<int*>().swap(seen); std::vector<int>().swap(srcs); }
        if (!std::is_same<O, int>::value) MC_CHECK(c, ledger.live.size() == groups, ledger.live.size() << " objects alive, " << groups << " expected");
        if (prune) c.state_or_prune(h, depth - s); else c.state(h); c.outcome(mc::mix(h, (mc::u64)k)); } }
    MC_CHECK(c, ledger.live.empty(), ledger.live.size() << " object(s) never destroyed"); }
MC_SCENARIO(history_shape, .balance = true) { history<Shape>(c, 2, c.bound(6, 7), false); }
MC_SCENARIO(history_plain, .balance = true) { history<Plain>(c, 3, c.bound(5, 6), false); }
MC_SCENARIO(history_tr, .balance = true) { history<Tr>(c, 2, c.bound(5, 6), false); }
MC_SCENARIO(history_int, .balance = true) { history<int>(c, 2, c.bound(5, 6), false); }
MC_SCENARIO(reach, .balance = true) { history<Plain>(c, c.bound(3, 4), c.bound(8, 9), true); }
// Lazies whose factories access other lazies, some of which fail: each factory runs once, and within the access that needs it.
MC_SCENARIO(nested, .balance = true) { int n = 3, steps = c.bound(4, 5); ctx = &c;
    { std::vector<Lazy<Tr>> own, copy; std::vector<int> made((size_t)n), value((size_t)n), runs((size_t)n), needs((size_t)n); std::vector<const void*> at((size_t)n); own.reserve(9);
      for (int i = 0; i != n; ++i) needs[(size_t)i] = i == 0 ? 0 : c.choose(1 << i, "needs");
      bool inside = false;
      for (int i = 0; i != n; ++i) own.emplace_back([&, i]() -> Tr* { size_t u = (size_t)i; MC_CHECK(c, inside && !made[u], "factory " << i << " run " << (inside ? "again" : "before an access")); ++runs[u]; int sum = i + 1;
          for (int j = 0; j != i; ++j) if (needs[u] >> j & 1) sum += 10 * own[(size_t)j]().get();
          if (c.choose(2, "fails")) { c.note("factory %d throws", i); throw Boom(); } made[u] = 1; value[u] = sum; return new Tr(sum); });
      for (int s = 0; s != steps; ++s) { int i = c.choose(n + 1, "access"); if (i == n) break; size_t u = (size_t)i; int how = c.choose(2, "how"); c.op("access %d%s", i, how ? " by a copy" : ""); std::vector<int> before = runs, was = made; bool boom = false; const Tr* p = nullptr; inside = true;
        if (how == 0 || !was[u]) { try { p = &own[u](); } catch (Boom const&) { boom = true; } } else { Lazy<Tr> l(own[u]); p = &l(); }
        inside = false; c.raise_pending(); MC_CHECK(c, boom == !made[u], "the access " << (boom ? "failed" : "did not fail") << " but the object " << (made[u] ? "was made" : "was not made"));
        MC_CHECK(c, runs[u] - before[u] == (was[u] ? 0 : 1), "factory run " << runs[u] - before[u] << " times"); if (p) { if (was[u]) MC_CHECK(c, p == at[u], "another object than before"); at[u] = p; MC_CHECK(c, p->get() == value[u], "object is " << p->get() << " expected " << value[u]); }
        size_t alive = 0; mc::u64 h = 3; for (int j = 0; j != n; ++j) { size_t w = (size_t)j; alive += (size_t)made[w]; if (made[w]) { Tr const& t = own[w](); MC_CHECK(c, t.get() == value[w], "object " << j << " changed"); at[w] = &t; } h = mc::mix(h, (mc::u64)(made[w] * 8 + needs[w])); }
        MC_CHECK(c, ledger.live.size() == alive, ledger.live.size() << " objects alive, expected " << alive); c.state(h); c.outcome(mc::mix(h, (mc::u64)i)); } }
    MC_CHECK(c, ledger.live.empty(), ledger.live.size() << " object(s) never destroyed"); }
// Factories that copy lazies, their own too, while they run: such a copy has no object yet and makes its own.
MC_SCENARIO(copies_by_factories, .balance = true) { int steps = c.bound(5, 6); const int N = 4;
    { struct S { std::unique_ptr<Lazy<Tr>> l; int source = -1; std::shared_ptr<int> made; const void* at = nullptr; }; std::vector<S> s((size_t)N); int stamp = 0, running = -1, runs = 0;
      auto make = [&](int source) { return [&, source]() -> Tr* { ++runs; MC_CHECK(c, running == source, "factory " << source << " run by an access that needs " << running); int a = c.choose(3, "answer"); if (a) { size_t from = (size_t)(a - 1), to = 2; while (to < (size_t)N && s[to].l) ++to; if (to == (size_t)N || !s[from].l) throw mc::Skip(); c.note("copies l%zu to l%zu", from, to); s[to].l.reset(new Lazy<Tr>(*s[from].l)); s[to].source = s[from].source; s[to].made = s[from].made; s[to].at = s[from].at; }
          if (c.choose(2, "fails")) { c.note("throws"); throw Boom(); } return new Tr(++stamp); }; };
      for (int i = 0; i != 2; ++i) { s[(size_t)i].l.reset(new Lazy<Tr>(make(i))); s[(size_t)i].source = i; }
      for (int q = 0; q != steps; ++q) { int op = c.choose(2 * N + 1, "op"); if (op == 2 * N) break; S& x = s[(size_t)(op % N)]; if (!x.l) throw mc::Skip();
        if (op >= N) { c.op("l%d destroyed", op - N); x.l.reset(); x = S(); }
        else { c.op("l%d accessed", op); bool first = !x.made, boom = false; int before = runs; running = first ? x.source : -1; Tr const* p = nullptr; try { p = &(*x.l)(); } catch (Boom const&) { boom = true; } c.raise_pending(); running = -1;
            MC_CHECK(c, runs - before == (first ? 1 : 0), "the access ran a factory " << runs - before << " times"); MC_CHECK(c, boom == !p && (first || p), "a later access failed"); if (p && first) { x.made = std::make_shared<int>(stamp); x.at = p; } if (p) MC_CHECK(c, p == x.at && p->get() == *x.made, "another object"); }
        std::set<int> alive; mc::u64 h = 3; for (auto& y : s) { h = mc::mix(h, y.l ? (y.made ? 2 : 1) * 4 + (mc::u64)y.source : 0); if (y.made) { alive.insert(*y.made); MC_CHECK(c, &(*y.l)() == y.at && (*y.l)().get() == *y.made, "another object"); } }
        MC_CHECK(c, ledger.live.size() == alive.size(), ledger.live.size() << " objects alive, expected " << alive.size()); c.state(h); c.outcome(mc::mix(h, (mc::u64)op)); } }
    MC_CHECK(c, ledger.live.empty(), ledger.live.size() << " object(s) never destroyed"); }
// Memory runs out within an access: the access fails, no object stays behind and a later access tries again.
struct Big { Tr v; std::unique_ptr<int> p; Big(int k) : v(k), p(new int(k)) { } };
MC_SCENARIO(memory_runs_out, .balance = true) { int steps = c.bound(5, 6), runs = 0;
    { std::vector<Lazy<Big>> own; own.reserve(3); own.emplace_back([&]() -> Big* { ++runs; return new Big(runs); }); int value = 0; const void* at = nullptr; 
      for (int s = 0; s != steps; ++s) { int op = c.choose(3, "op"); if (op == 0) break; if (op == 2) { if (own.size() > 1 || !value) throw mc::Skip(); c.op("copy"); own.push_back(own[0]); continue; }
        c.op("access"); int before = runs; Big const* b = nullptr; bool failed = mc::starved(c, 8, [&] { b = &own.back()(); }); MC_CHECK(c, !failed || !value, "a later access failed"); MC_CHECK(c, runs - before == (value ? 0 : 1), "the factory ran " << runs - before << " times");
        if (!failed) { if (!value) { value = runs; at = b; } MC_CHECK(c, b == at && b->v.get() == value && *b->p == value, "another object"); } MC_CHECK(c, ledger.live.size() == (value ? 1 : 0), ledger.live.size() << " objects alive"); c.state((mc::u64)(value * 100 + runs)); c.outcome((mc::u64)failed); } }
    MC_CHECK(c, ledger.live.empty(), "object never destroyed"); }
// Repeated failures and many accesses.
MC_SCENARIO(endurance, .balance = true) { static const int ns[] = {0, 1, 2, 3, 10, 100, 300}; static const int as[] = {1, 2, 10, 300, 70000}; int fails = c.pick(ns), acc = c.pick(as), copies = c.choose(3); c.split(); c.op("%d failures, %d accesses, %d copies", fails, acc, copies); c.ops((mc::u64)(fails + acc));
    { int n = 0, ok = 0, left = fails; std::vector<Lazy<Tr>> v; v.reserve(4); v.emplace_back([&]() -> Tr* { ++n; if (left > 0) { --left; throw Problem(1); } ++ok; return new Tr(7); });
      for (int i = 0; i < fails; ++i) { bool t = false; try { v[0](); } catch (Problem const&) { t = true; } MC_CHECK(c, t && n == i + 1, "failure " << i << " of the factory not passed on"); }
      Tr const* at = &v[0](); for (int i = 0; i < copies; ++i) v.push_back(v[(size_t)i]);
      for (int i = 0; i < acc; ++i) for (auto& l : v) if (&l() != at) MC_CHECK(c, false, "access " << i << " yields another object");
      MC_CHECK(c, ok == 1 && n == fails + 1, "factory run " << n << " times"); v.erase(v.begin()); if (copies) MC_CHECK(c, v[0]().get() == 7 && ledger.live.size() == 1, "object gone with its first holder"); c.state((mc::u64)(fails * 1000000 + acc * 3 + copies)); }
    MC_CHECK(c, ledger.live.empty(), "object never destroyed"); }
// Any number of holders: made from the first, from one another or by assignment, before or after the object, destroyed from either end.
MC_SCENARIO(many_holders, .balance = true) { static const int extra[] = {50, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 1000, 4096, 65535, 65536, 65537}; int k = c.choose(40 + 16, "number"), n = k < 40 ? k + 1 : extra[k - 40], how = c.choose(4, "copied"), gone = c.choose(3, "destroyed"), fail = c.choose(2, "first access fails"); c.split(); c.op("%d holders", n);
    int runs = 0, ok = 0, left = fail; { std::deque<Lazy<Tr>> v; v.emplace_back([&]() -> Tr* { ++runs; if (left) { --left; throw Boom(); } ++ok; return new Tr(7); }); if (fail) { bool t = false; try { v[0](); } catch (Boom const&) { t = true; } MC_CHECK(c, t, "the failure of the factory was not passed on"); }
      Tr const* at = &v[0](); for (int i = 1; i < n; ++i) { Lazy<Tr> const& from = how == 0 ? v.front() : how == 1 ? v.back() : v[(size_t)i / 2]; if (how == 3) { Lazy<Tr> l([&]() -> Tr* { ++ok; return new Tr(8); }); l = from; v.push_back(l); } else v.push_back(from); if (n < 300 || i % 97 == 0 || i > n - 3) MC_CHECK(c, &v.back()() == at, "copy " << i << " yields another object"); }
      for (size_t i = 0; i != v.size(); ++i) if (&v[i]() != at) MC_CHECK(c, false, "holder " << i << " of " << n << " yields another object"); MC_CHECK(c, ok == 1 && ledger.live.size() == 1, "the factory made " << ok << " objects, of which " << ledger.live.size() << " are alive"); c.ops((mc::u64)n);
      while (v.size() > 1) { if (gone == 0 || (gone == 2 && v.size() % 2)) v.pop_front(); else v.pop_back(); if (v.size() < 300 || v.size() % 97 == 0) { MC_CHECK(c, &v.front()() == at && &v.back()() == at, "a holder yields another object when " << v.size() << " of " << n << " are left"); MC_CHECK(c, v[0]().get() == 7 && ok == 1, "object changed"); } }
      MC_CHECK(c, v[0]().get() == 7 && ledger.live.size() == 1 && ok == 1 && runs == 1 + fail, "the object is gone with one of its holders"); c.state((mc::u64)((n * 4 + how) * 6 + gone * 2 + fail)); }
    MC_CHECK(c, ledger.live.empty(), "object never destroyed"); }
// Objects that hold lazies: chains, also with a lazy assigned from the object that it holds.
struct Stage { Tr v; Lazy<Stage> next; Stage(int k, Lazy<Stage> const& n) : v(k), next(n) { } };
struct MStage; struct MLazy { int source = -1; std::shared_ptr<MStage> made; }; struct MStage { int v; MLazy next; const void* at; };
static int stage_runs; static std::vector<MLazy>* held_models; static std::vector<Lazy<Stage>>* held_lazies;   // what the factory of a source puts into its object
static Stage* make_stage(int src) { ++stage_runs; if (ctx->choose(2, "factory throws")) { ctx->note("factory %d throws", src); throw Boom(); } ++stamp; return new Stage(stamp, (*held_lazies)[(size_t)src]); }
static Lazy<Stage> stage_end() { return Lazy<Stage>([]() -> Stage* { ++stage_runs; throw Problem(-1); }); }
MC_SCENARIO(chains, .balance = true) { ctx = &c; stage_runs = 0; stamp = 0; int steps = c.bound(6, 7);
    { std::vector<Lazy<Stage>> held, own; std::vector<MLazy> hm, mod; held_lazies = &held; held_models = &hm; held.reserve(20); hm.reserve(20);
      auto fresh = [&](Lazy<Stage> const& n, MLazy const& mn, MLazy& m) { int src = (int)held.size(); held.push_back(n); hm.push_back(mn); m = MLazy{src, nullptr}; return Lazy<Stage>([src] { return make_stage(src); }); };
      for (int i = 0; i != 2; ++i) { MLazy m; Lazy<Stage> l = fresh(stage_end(), MLazy(), m); own.push_back(l); mod.push_back(m); }
      for (int s = 0; s != steps; ++s) { int op = c.choose(6, "op"); if (op == 0) break; size_t i = (size_t)c.choose(2, "lazy"), j = 1 - i; Lazy<Stage>& l = own[i]; MLazy& m = mod[i];
        auto access = [&](Lazy<Stage> const& l, MLazy& m) { int before = stage_runs, st = stamp; bool boom = false; Stage const* got = nullptr; try { got = &l(); } catch (Boom const&) { boom = true; } catch (Problem const&) { boom = true; }
            MC_CHECK(c, stage_runs - before == (m.made ? 0 : 1), "the factory was run " << stage_runs - before << " times"); if (m.source < 0) { MC_CHECK(c, boom, "the end of a chain was made"); return false; }
            MC_CHECK(c, boom == (!m.made && stamp == st), "access " << (boom ? "failed" : "did not fail")); if (boom) return false;
            if (!m.made) m.made.reset(new MStage{stamp, hm[(size_t)m.source], got}); MC_CHECK(c, got == m.made->at && got->v.get() == m.made->v, "access yields another object"); return true; };
        if (op == 1) { c.op("access l%zu", i); access(l, m); }
        else if (op == 2) { c.op("l%zu = l%zu", i, j); l = own[j]; m = mod[j]; }
        else if (op == 3) { if (!m.made) throw mc::Skip(); c.op("l%zu = the lazy in its object", i); l = l().next; MLazy t = m.made->next; m = t; }
        else if (op == 4) { if (!m.made) throw mc::Skip(); c.op("access to the lazy in the object of l%zu", i); access(l().next, m.made->next); }
        else { if (held.size() > 6) throw mc::Skip(); c.op("l%zu = new lazy whose object holds a copy of l%zu", i, i); MLazy n; Lazy<Stage> f = fresh(l, m, n); l = f; m = n; }
        int runs = stage_runs; size_t live = 0; mc::u64 z = 3; std::vector<const void*> seen; auto count = [&](auto&& self, MLazy const& x) -> void { z = mc::mix(z, (mc::u64)(x.source + 1) * 2 + (x.made != nullptr)); if (x.made && std::find(seen.begin(), seen.end(), x.made->at) == seen.end()) { seen.push_back(x.made->at); ++live; self(self, x.made->next); } };
        for (auto& x : mod) count(count, x); for (auto& x : hm) count(count, x);
        for (size_t k = 0; k != 2; ++k) if (mod[k].made) { Stage const& o = own[k](); MC_CHECK(c, &o == mod[k].made->at && o.v.get() == mod[k].made->v, "l" << k << " yields another object"); } MC_CHECK(c, runs == stage_runs, "a factory was run again");
        MC_CHECK(c, ledger.live.size() == live, ledger.live.size() << " objects alive, expected " << live); c.state(z); c.outcome(mc::mix(z, (mc::u64)op)); } }
    MC_CHECK(c, ledger.live.empty(), ledger.live.size() << " object(s) never destroyed"); }
MC_MAIN
