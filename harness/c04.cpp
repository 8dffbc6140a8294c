// C04: lifetimes of array elements, with every element operation failing in turn.
#include "array_driver.hpp"
static mc::UseLedger use_ledger;
MC_SCENARIO(faults, .balance = true) { histories<Tr>(c, c.bound(3, 3), element_faults, false, c.bound(3, 4), c.bound(1, 2)); }
MC_SCENARIO(lifetimes, .balance = true) { histories<Tr>(c, c.bound(3, 3), no_faults, false, c.bound(3, 4), 2); }
MC_SCENARIO(reach, .balance = true) { histories<Tr>(c, c.bound(3, 5), element_faults, true, c.bound(3, 4), 2); }
// Every allocation fails in turn: of the arrays and of elements with memory of their own.
MC_SCENARIO(memory_runs_out, .balance = true) { histories<Tr>(c, c.bound(2, 3), memory_faults, false, c.bound(3, 4), c.bound(1, 2)); }
MC_SCENARIO(memory_runs_out_in_elements, .balance = true) { histories<Owner>(c, c.bound(3, 5), memory_faults, true, c.bound(3, 4), c.bound(1, 2)); }
// Elements that have to lie at certain addresses.
MC_SCENARIO(alignment_64, .balance = true) { histories<Wide<64>>(c, 2, element_faults, false, c.bound(3, 4), c.bound(1, 2)); }
MC_SCENARIO(alignment_32, .balance = true) { histories<Wide<32>>(c, 2, memory_faults, false, c.bound(3, 3), 1); }
MC_SCENARIO(alignment_4096, .balance = true) { histories<Wide<4096>>(c, 2, no_faults, false, c.bound(3, 4), c.bound(1, 2)); }

// A failure at every position of larger arrays, for every way of making or changing an array.
MC_SCENARIO(fault_positions, .balance = true) {
    static const size_t sz[] = {0, 1, 2, 3, 5, 8, 16, 17, 33, 64, 100};
    size_t n = c.pick(sz, "n"), m = c.pick(sz, "m"); int how = c.choose(12, "how"); c.split(); if (how < 3 && m) throw mc::Skip();
    { std::vector<Tr> src; src.reserve(128); for (int i = 0; i != 128; ++i) src.emplace_back(i); Tr x(7);
      Array<Tr> a(src.begin(), src.begin() + (long)n), b(src.begin() + 1, src.begin() + 1 + (long)m);
      int k = c.choose(400, "fault") - 1; c.op("n=%zu m=%zu operation %d, element operation %d fails", n, m, how, k);
      ledger.plan(k); bool boom = false;
      try { switch (how) {
        case 0: { Array<Tr> r(n); break; } case 1: { Array<Tr> r(n, x); break; } case 2: { Array<Tr> r(n, [&](size_t i) { return src[i]; }); break; }
        case 3: { Array<Tr> r(a); r = b; break; } case 4: { a = b; break; } case 5: { a.resize(m); break; } case 6: { a.resize(m, x); break; }
        case 7: { a.reallocate(m); break; } case 8: { a.fill(x); break; } case 9: { a.assign(b.begin(), b.end()); break; } case 10: { a = Array<Tr>(b); break; } case 11: { a.assign(src.begin(), src.begin() + (long)m); break; } } }
      catch (Boom const&) { boom = true; }
      bool fired = ledger.fired; ledger.cancel();
      if (k >= 0 && !fired) { c.no_more(); throw mc::Skip(); }
      MC_CHECK(c, boom == fired, "the failure did not reach the caller");
      size_t seen = 0; for (auto& e : a) { (void)e.get(); ++seen; } MC_CHECK(c, seen == a.size(), ""); for (auto& e : b) (void)e.get();
      MC_CHECK(c, b.size() == m, "the argument changed size"); for (size_t i = 0; i != m; ++i) MC_CHECK(c, b[i].get() == (int)i + 1, "the argument changed");
      b = a; a.resize(3); a.fill(x); MC_CHECK(c, a[2].get() == 7, ""); c.state(((n * 101 + m) * 20 + (size_t)how) * 401 + (size_t)(k + 1)); c.outcome((mc::u64)how * 2 + boom); }
    MC_CHECK(c, ledger.live.empty(), ledger.live.size() << " element(s) never destroyed"); }

// Elements of derived behaviour: nested arrays.
MC_SCENARIO(nested, .balance = true) {
    { typedef Array<Tr> In; Array<In> a, b; int steps = c.bound(3, 4);
      for (int s = 0; s != steps; ++s) { int k = c.choose(8); if (k == 0) break; c.op("nested op %d", k); int f = c.choose(25) - 1; ledger.plan(f); bool boom = false;
        try { switch (k) { case 1: a = Array<In>(2, In(2, Tr(3))); break; case 2: b = a; break; case 3: a.resize(3); break; case 4: if (a.size()) a[0].resize(3, Tr(5)); break;
            case 5: b = std::move(a); break; case 6: if (a.size() > 1) a[0] = a[1]; break; case 7: if (b.size()) b.resize(1, b[b.size() - 1]); break; } } catch (Boom const&) { boom = true; }
        bool fired = ledger.fired; ledger.cancel(); if (f >= 0 && !fired) { c.no_more(); throw mc::Skip(); } MC_CHECK(c, boom == fired, "lost failure");
        for (auto* p : {&a, &b}) for (auto& x : *p) for (auto& y : x) (void)y.get(); c.state(a.size() * 100 + b.size() * 10 + (a.size() ? a[0].size() : 9)); if (boom) break; } }
    MC_CHECK(c, ledger.live.empty(), ledger.live.size() << " element(s) never destroyed"); }
// Elements that hold arrays of their own kind: assigning a part of an array to the array, and the other way round.
struct Node { Tr v; Array<Node> sub; Node() : v(0), sub() { } Node(int x) : v(x), sub() { } };
struct MNode { int v = 0; std::vector<MNode> sub; };
static void grow(Ctx& c, Node& n, MNode& m, int& next, int w, int levels) { m.v = next; n.v = Tr(next); ++next; if (!levels) return; size_t k = (size_t)c.choose(w + 1, "sub"); n.sub.resize(k); m.sub.resize(k); for (size_t i = 0; i != k; ++i) grow(c, n.sub[i], m.sub[i], next, i ? 1 : w, levels - 1); }
static void all_nodes(Node& n, MNode& m, std::vector<std::pair<Node*, MNode*>>& out, std::vector<int>& up, int parent) { int me = (int)out.size(); out.push_back({&n, &m}); up.push_back(parent); for (size_t i = 0; i != m.sub.size(); ++i) all_nodes(n.sub[i], m.sub[i], out, up, me); }
static void same_tree(Ctx& c, Node const& n, MNode const& m) { MC_CHECK(c, n.v.get() == m.v, "element is " << n.v.get() << " expected " << m.v); MC_CHECK(c, n.sub.size() == m.sub.size(), "an array has " << n.sub.size() << " elements, expected " << m.sub.size()); for (size_t i = 0; i != m.sub.size(); ++i) same_tree(c, n.sub[i], m.sub[i]); }
static mc::u64 tree_hash(MNode const& m) { mc::u64 h = mc::mix(3, (mc::u64)m.v); for (auto& s : m.sub) h = mc::mix(h, tree_hash(s)); return h; }
static size_t tree_size(MNode const& m) { size_t k = 1; for (auto& s : m.sub) k += tree_size(s); return k; }
MC_SCENARIO(trees, .balance = true) {
    { Node root; MNode model; int next = 1; grow(c, root, model, next, c.bound(2, 2), c.bound(2, 3));
      for (int s = 0, steps = c.bound(2, 2); s != steps; ++s) {
        std::vector<std::pair<Node*, MNode*>> all; std::vector<int> up; all_nodes(root, model, all, up, -1); if (all.size() > 12) break;
        int op = c.choose(7, "op"); if (op == 0) break; int x = c.choose((int)all.size(), "x"), y = c.choose((int)all.size(), "y"); auto& X = *all[(size_t)x].first; auto& Y = *all[(size_t)y].first; auto& mx = *all[(size_t)x].second; auto& my = *all[(size_t)y].second;
        bool y_above_x = false; for (int p = up[(size_t)x]; p >= 0; p = up[(size_t)p]) y_above_x = y_above_x || p == y;
        if ((op == 2 || op == 4) && y_above_x) throw mc::Skip();      // would make a cycle
        if (op == 6 && up[(size_t)y] != x) { bool y_below_x = x == y; for (int p = up[(size_t)y]; p >= 0; p = up[(size_t)p]) y_below_x = y_below_x || p == x; if (y_below_x) throw mc::Skip(); }
        static const char* const names[] = {"", "array of x = array of y", "array of x = move(array of y)", "x = y", "x = move(y)", "resize the array of x with y", "fill the array of x with y"}; c.op("x=%d y=%d %s", mx.v, my.v, names[op]);
        if (op == 1) { std::vector<MNode> t = my.sub; mx.sub.swap(t); X.sub = Y.sub; }
        else if (op == 2) { if (&mx != &my) { std::vector<MNode> t = std::move(my.sub); my.sub.clear(); mx.sub.swap(t); } X.sub = std::move(Y.sub); }
        else if (op == 3) { mx.v = my.v; std::vector<MNode> t = my.sub; mx.sub.swap(t); X = Y; }      // memberwise
        else if (op == 4) { if (&mx != &my) { mx.v = my.v; std::vector<MNode> t = std::move(my.sub); my.sub.clear(); mx.sub.swap(t); } X = std::move(Y); }
        else if (op == 5) { size_t k = (size_t)c.choose(4, "size"); MNode t = my; mx.sub.resize(k, t); X.sub.resize(k, Y); }
        else { for (auto& e : mx.sub) { e.v = my.v; std::vector<MNode> t = my.sub; e.sub.swap(t); } X.sub.fill(Y); }
        same_tree(c, root, model); c.state(tree_hash(model)); c.outcome(mc::mix(tree_hash(model), (mc::u64)op));
        MC_CHECK(c, ledger.live.size() == tree_size(model), ledger.live.size() << " elements alive, expected " << tree_size(model)); } }
    MC_CHECK(c, ledger.live.empty(), ledger.live.size() << " element(s) never destroyed"); }
MC_MAIN
