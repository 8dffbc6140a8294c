// C05: histories of owners of shared arrays, against reference-counted vectors.
#include "tracked.hpp"
#include "alloc.hpp"
#include <memory>
#include <string>
#include <iostream>
#include "array.hpp"
using mc::Ctx; using mc::Tr; using Helper::SharedArray;
static mc::UseLedger use_ledger;

template<class T> T make(int k) { return T(k); }
template<> std::string make<std::string>(int k) { return k == 0 ? "" : "some-string-that-needs-its-own-storage-" + std::to_string(k); }
template<class T> constexpr bool tracked = std::is_same<T, Tr>::value;

template<class T> void look(Ctx& c, SharedArray<T>& a, std::vector<T> const& m, int who) {
    SharedArray<T> const& k = a; size_t n = m.size();
    MC_CHECK(c, a.size() == n, "size seen by owner " << who << " is " << a.size() << " expected " << n);
    MC_CHECK(c, (size_t)(a.end() - a.begin()) == n && (size_t)(k.end() - k.begin()) == n, "iterator range of owner " << who);
    for (size_t i = 0; i != n; ++i) {
        MC_CHECK(c, a[i] == m[i], "element " << i << " seen by owner " << who << " is " << a[i] << " expected " << m[i]);
        MC_CHECK(c, &k[i] == &a[i] && a.begin() + i == &a[i] && k.begin() + i == &a[i], "accesses of owner " << who << " differ"); } }

template<class T> void history(Ctx& c, int slots, int depth, int maxn, bool prune) {
    {
    typedef std::shared_ptr<std::vector<T>> M;
    std::vector<std::unique_ptr<SharedArray<T>>> own((size_t)slots); std::vector<M> mod((size_t)slots); int stamp = 1;
    for (int s = 0; s != depth; ++s) {
        int k = c.choose(8, "op"); if (k == 0) break;
        int i = c.choose(slots, "owner"); auto& o = own[(size_t)i]; auto& m = mod[(size_t)i];
        auto other = [&] { int j = c.choose(slots, "other"); if (!own[(size_t)j]) throw mc::Skip(); return (size_t)j; };
        if (k <= 4 && o) throw mc::Skip(); if (k > 4 && !o) throw mc::Skip();
        if (k == 1) { size_t n = (size_t)c.choose(maxn + 1, "n"); c.op("o%d: new array of %zu", i, n); o.reset(new SharedArray<T>(n)); m.reset(new std::vector<T>());
            if (tracked<T> || std::is_same<T, std::string>::value) *m = std::vector<T>(n, T()); else for (size_t q = 0; q != n; ++q) { (*o)[q] = make<T>((int)q); m->push_back(make<T>((int)q)); } }
        else if (k == 2) { size_t n = (size_t)c.choose(maxn + 1, "n"); c.op("o%d: new array of %zu filled", i, n); ++stamp; T x = make<T>(stamp); o.reset(new SharedArray<T>(n, x)); m.reset(new std::vector<T>(n, x)); }
        else if (k == 3) { c.op("o%d: new array {5,6}", i); o.reset(new SharedArray<T>{make<T>(5), make<T>(6)}); m.reset(new std::vector<T>{make<T>(5), make<T>(6)}); }
        else if (k == 4) { size_t j = other(); c.op("o%d: copy of o%zu", i, j); o.reset(new SharedArray<T>(*own[j])); m = mod[j]; }
        else if (k == 5) { size_t j = other(); c.op("o%d = o%zu", i, j); SharedArray<T>& r = (*o = *own[j]); MC_CHECK(c, &r == o.get(), "assignment returned another owner"); m = mod[j]; }
        else if (k == 6) { c.op("o%d destroyed", i); o.reset(); m.reset(); }
        else { if (m->empty()) throw mc::Skip(); size_t q = (size_t)c.choose((int)m->size(), "i"); bool it = c.flip("through iterator"); c.op("o%d[%zu]=new", i, q); ++stamp; (it ? *(o->begin() + (long)q) : (*o)[q]) = make<T>(stamp); (*m)[q] = make<T>(stamp); }
        mc::u64 h = 5; std::vector<void*> seen; size_t live = 0;
        for (int a = 0; a != slots; ++a) { if (own[(size_t)a]) look(c, *own[(size_t)a], *mod[(size_t)a], a);
            mc::Disarm d; void* p = mod[(size_t)a].get(); size_t g = 0; while (g < seen.size() && seen[g] != p) ++g; if (p && g == seen.size()) { seen.push_back(p); live += mod[(size_t)a]->size(); }
            h = mc::mix(h, p ? g + 2 + 16 * mod[(size_t)a]->size() : 1); }
        { mc::Disarm d; std::vector<void*>().swap(seen); }
        if (tracked<T>) MC_CHECK(c, mc::ledger.live.size() == 2 * live, "elements alive: " << (long)mc::ledger.live.size() - (long)live << " expected " << live);   // ours and the model's
        if (prune) c.state_or_prune(h, depth - s); else c.state(h); c.outcome(mc::mix(h, (mc::u64)k)); }
    // let the owners go in either order
    bool rev = c.flip("release order"); for (int a = 0; a != slots; ++a) { size_t b = (size_t)(rev ? slots - 1 - a : a); own[b].reset(); mod[b].reset(); for (int e = 0; e != slots; ++e) if (own[(size_t)e]) look(c, *own[(size_t)e], *mod[(size_t)e], e); }
    if (tracked<T>) MC_CHECK(c, mc::ledger.live.empty(), mc::ledger.live.size() << " element(s) alive without an owner"); } }
MC_SCENARIO(history_tracked, .balance = true) { history<Tr>(c, 3, c.bound(5, 6), 1, false); }
MC_SCENARIO(history_int, .balance = true) { history<int>(c, 3, c.bound(4, 5), 2, false); }
MC_SCENARIO(history_string, .balance = true) { history<std::string>(c, 3, c.bound(4, 5), 2, false); }
MC_SCENARIO(reach, .balance = true) { history<Tr>(c, c.bound(3, 4), c.bound(7, 8), 2, true); }

// Many owners of one array.
MC_SCENARIO(many_owners, .balance = true) {
    static const int extra[] = {63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 1000, 32769, 65535, 65536, 65537};
    int m = c.choose(40 + 16, "owners"), n = m < 40 ? m + 1 : extra[m - 40], order = c.choose(3, "order"), how = c.choose(2, "how"); c.split(); c.op("%d owners, release order %d, made by %s", n, order, how ? "assignment" : "copy");
    { std::vector<std::unique_ptr<SharedArray<Tr>>> v; v.reserve((size_t)n); v.emplace_back(new SharedArray<Tr>(2, Tr(4)));
      for (int i = 1; i < n; ++i) if (how) { v.emplace_back(new SharedArray<Tr>(0)); *v.back() = *v[(size_t)i - 1]; } else v.emplace_back(new SharedArray<Tr>(*v[(size_t)i / 2])); c.ops((mc::u64)n);
      (*v[0])[1] = Tr(9); MC_CHECK(c, (*v.back())[1].get() == 9, "a write is not seen by the last owner");
      MC_CHECK(c, mc::ledger.live.size() == 2, mc::ledger.live.size() << " elements alive, expected 2");
      for (int i = 0; i < n - 1; ++i) { size_t b = order == 0 ? (size_t)i : order == 1 ? (size_t)(n - 1 - i) : (size_t)(i % 2 ? i / 2 : n - 1 - i / 2); v[b].reset();
          if (i > n - 4 || i < 3 || n < 600 || i % 1000 == 0) MC_CHECK(c, mc::ledger.live.size() == 2, "elements released while " << n - 1 - i << " owners remain");
          if (n < 130) { int left = -1; for (auto& p : v) if (p) { if (left < 0) { left = i; (*p)[0] = Tr(left); } MC_CHECK(c, (*p)[0].get() == left && (*p)[1].get() == 9 && p->size() == 2, "an owner of " << n - 1 - i << " does not see what another wrote"); } } }
      for (auto& p : v) if (p) { MC_CHECK(c, (*p)[1].get() == 9 && p->size() == 2, "the last owner lost its elements"); p.reset(); } c.ops((mc::u64)n);
      MC_CHECK(c, mc::ledger.live.empty(), mc::ledger.live.size() << " elements alive after the last owner"); c.state((mc::u64)(n * 6 + order * 2 + how)); c.outcome((mc::u64)n); } }
// Larger arrays keep every element.
MC_SCENARIO(sizes, .balance = true) { static const size_t ns[] = {0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 255, 256, 257, 1000, 4097, 65537}; size_t n = c.pick(ns, "n"); int how = c.choose(2, "how"); c.split(); c.op("array of %zu", n);
    { SharedArray<int> a = how ? SharedArray<int>(n, 5) : SharedArray<int>(n); SharedArray<int> b(a); if (how) for (size_t i = 0; i != n; ++i) MC_CHECK(c, b[i] == 5, "element " << i << " of " << n << " not filled");
      for (size_t i = 0; i != n; ++i) a[i] = (int)i; MC_CHECK(c, b.size() == n, "size"); for (size_t i = 0; i != n; ++i) MC_CHECK(c, b[i] == (int)i && b.begin()[i] == (int)i, "element " << i << " of " << n); SharedArray<int> d(1); d = b; for (size_t i = 0; i != n; ++i) MC_CHECK(c, d[i] == (int)i, "element " << i << " of " << n << " after assignment"); c.state(n * 2 + (size_t)how); } }
// Every element operation, or every allocation, of making an owner fails in turn, while other owners exist.
static void failing(Ctx& c, bool memory) { size_t n = (size_t)c.choose(6, "n"); int how = c.choose(4, "how"), others = c.choose(3, "other owners"), f = c.choose(40, "fault") - 1; c.op("making an array of %zu (way %d), %s %d fails", n, how, memory ? "allocation" : "element operation", f);
    { SharedArray<Tr> a{Tr(1), Tr(2)}; std::unique_ptr<SharedArray<Tr>> b; if (others) b.reset(new SharedArray<Tr>(a)); std::unique_ptr<SharedArray<Tr>> made; Tr x(7); bool boom = false; if (memory) mc::memory.plan(f); else mc::ledger.plan(f);
      try { switch (how) { case 0: made.reset(new SharedArray<Tr>(n)); break; case 1: made.reset(new SharedArray<Tr>(n, x)); break; case 2: made.reset(new SharedArray<Tr>{Tr(4), x, Tr(6)}); break; default: a = SharedArray<Tr>(n, Tr(9)); } } catch (mc::Boom const&) { boom = true; } catch (std::bad_alloc const&) { boom = true; }
      bool fired = memory ? mc::memory.fired : mc::ledger.fired; mc::ledger.cancel(); mc::memory.cancel(); if (f >= 0 && !fired) { c.no_more(); throw mc::Skip(); } MC_CHECK(c, boom == fired || (memory && fired), "the failure of an element did not reach the caller");
      if (boom || how != 3) MC_CHECK(c, a.size() == 2 && a[0].get() == 1 && a[1].get() == 2, "another owner changed"); else { MC_CHECK(c, a.size() == n, "size after assignment"); for (auto& y : a) MC_CHECK(c, y.get() == 9, "element after assignment"); }
      if (b) { MC_CHECK(c, (*b)[1].get() == 2, "another owner changed"); if (others == 2) { b.reset(); if (boom || how != 3) MC_CHECK(c, a[1].get() == 2, "another owner changed"); } }
      MC_CHECK(c, bool(made) == (!boom && how != 3), "made although it failed"); if (made) { size_t k = how == 2 ? 3 : n; MC_CHECK(c, made->size() == k, "size"); for (size_t i = 0; i != k; ++i) MC_CHECK(c, (*made)[i].get() == (how == 0 ? 0 : how == 1 ? 7 : i == 0 ? 4 : i == 1 ? 7 : 6), "element " << i); }
      c.state(((n * 4 + (size_t)how) * 3 + (size_t)others) * 41 + (size_t)(f + 1)); c.outcome(boom); }
    MC_CHECK(c, mc::ledger.live.empty(), mc::ledger.live.size() << " element(s) never destroyed"); }
MC_SCENARIO(failing_elements, .balance = true) { failing(c, false); }
MC_SCENARIO(memory_runs_out, .balance = true) { failing(c, true); }
// Owners inside elements: an array goes when its last owner goes, also when that owner lies in an element of another
// array, and when it is assigned to the owner of the array in which it lies.
struct Node { Tr v; SharedArray<Node> sub; Node() : v(0), sub(0) { } };
struct MNode { typedef std::shared_ptr<std::vector<MNode>> P; int v = 0; P sub = std::make_shared<std::vector<MNode>>(); };
static bool reaches(MNode::P const& p, MNode::P const& q) { if (p == q) return true; for (auto& e : *p) if (reaches(e.sub, q)) return true; return false; }
static void all_nodes(Node& n, MNode& m, MNode::P const& in, std::vector<std::tuple<Node*, MNode*, MNode::P>>& out) { for (auto& t : out) if (std::get<1>(t) == &m) return; out.push_back({&n, &m, in}); for (size_t i = 0; i != m.sub->size(); ++i) all_nodes(n.sub[i], (*m.sub)[i], m.sub, out); }
static void same_nodes(Ctx& c, Node const& n, MNode const& m) { MC_CHECK(c, n.v.get() == m.v, "element is " << n.v.get() << " expected " << m.v); MC_CHECK(c, n.sub.size() == m.sub->size(), "an array has " << n.sub.size() << " elements, expected " << m.sub->size()); for (size_t i = 0; i != m.sub->size(); ++i) same_nodes(c, n.sub[i], (*m.sub)[i]); }
static mc::u64 node_hash(MNode const& m) { mc::u64 h = mc::mix(3, (mc::u64)m.v); for (auto& s : *m.sub) h = mc::mix(h, node_hash(s)); return h; }
MC_SCENARIO(owners_in_elements, .balance = true) {
    { Node a, b; MNode ma, mb; int next = 1, steps = c.bound(4, 5);
      for (int s = 0; s != steps; ++s) {
        std::vector<std::tuple<Node*, MNode*, MNode::P>> all; all_nodes(a, ma, nullptr, all); all_nodes(b, mb, nullptr, all);
        int op = c.choose(s == steps - 1 ? 4 : 5, "op"); if (op == 0) break; size_t x = (size_t)c.choose((int)all.size(), "x"); Node& X = *std::get<0>(all[x]); MNode& mx = *std::get<1>(all[x]); MNode::P in = std::get<2>(all[x]);
        if (op == 4) { size_t n = (size_t)c.choose(3, "n"); c.op("node %d gets a new array of %zu", mx.v, n); MNode::P p = std::make_shared<std::vector<MNode>>(n); SharedArray<Node> f(n); for (size_t i = 0; i != n; ++i) { (*p)[i].v = next; f[i].v = Tr(next); ++next; } mx.sub = p; X.sub = f; }
        else if (op == 3) { ++next; c.op("node %d is written", mx.v); mx.v = next; X.v = Tr(next); }
        else { size_t y = (size_t)c.choose((int)all.size(), "y"); Node& Y = *std::get<0>(all[y]); MNode& my = *std::get<1>(all[y]); if (in && reaches(my.sub, in)) throw mc::Skip();     // would make a cycle
            c.op("%s of node %d = that of node %d", op == 1 ? "array" : "all", mx.v, my.v); if (op == 2) mx.v = my.v; { MNode::P t = my.sub; mx.sub.swap(t); } if (op == 1) X.sub = Y.sub; else X = Y; }
        all.clear(); in.reset(); same_nodes(c, a, ma); same_nodes(c, b, mb); all_nodes(a, ma, nullptr, all); all_nodes(b, mb, nullptr, all); MC_CHECK(c, mc::ledger.live.size() == all.size(), mc::ledger.live.size() << " elements alive, expected " << all.size());
        mc::u64 h = mc::mix(node_hash(ma), node_hash(mb)); c.state(mc::mix(h, all.size())); c.outcome(mc::mix(h, (mc::u64)op)); } }
    MC_CHECK(c, mc::ledger.live.empty(), mc::ledger.live.size() << " element(s) never destroyed"); }
MC_MAIN
