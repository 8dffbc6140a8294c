// C26: tuples of references of every arity, with every choice of variables; component access.
#include "mc.hpp"
#include "tuple.hpp"
using mc::Ctx; using Helper::make_lpair; using Helper::make_ltuple;
enum { VARS = 6 };
// A component that knows how often it was assigned.
struct Item { int v; int assigned = 0; Item(int x = 0) : v(x) { } Item(Item const& o) : v(o.v) { } Item(Item&& o) : v(o.v) { o.v = -7; } Item& operator=(Item const& o) { v = o.v; ++assigned; return *this; } Item& operator=(Item&& o) { v = o.v; ++assigned; return *this; } };
template<size_t... I> void assign(Ctx& c, std::index_sequence<I...>) {
    constexpr size_t N = sizeof...(I); Item x[VARS]; for (int i = 0; i != VARS; ++i) x[i].v = 100 + i; int t[N]; bool used[VARS] = {};
    for (size_t i = 0; i != N; ++i) { int k = c.choose(VARS - (int)i, "variable"); int q = 0; for (; used[q] || k > 0; ++q) if (!used[q]) --k; t[i] = q; used[q] = true; }
    int how = c.choose(4, "from"); c.op("%zu components", N); std::tuple<decltype((void)I, Item())...> src(Item((int)I + 1)...); std::tuple<decltype((void)I, int())...> ints((int)I + 1 ...);
    auto lhs = make_ltuple(x[t[I]]...); MC_CHECK(c, ((&std::get<I>(lhs) == &x[t[I]]) && ...), "a component does not refer to its variable"); for (auto& y : x) MC_CHECK(c, y.assigned == 0, "making the tuple assigned a variable");
    if (how == 0) make_ltuple(x[t[I]]...) = src; else if (how == 1) lhs = src; else if (how == 2) make_ltuple(x[t[I]]...) = std::make_tuple(Item((int)I + 1)...); else make_ltuple(x[t[I]]...) = ints;
    mc::u64 h = N; for (int i = 0; i != VARS; ++i) { int want = 100 + i, n = 0; for (size_t j = 0; j != N; ++j) if (t[j] == i) { want = (int)j + 1; n = 1; } MC_CHECK(c, x[i].v == want && (x[i].assigned == n), "variable " << i << " is " << x[i].v << " (assigned " << x[i].assigned << " times), expected " << want); h = mc::mix(h, (mc::u64)want); }
    MC_CHECK(c, ((std::get<I>(src).v == (int)I + 1) && ...), "the source was changed"); c.state(h);
    if constexpr (N == 2) { Item y[2]; make_lpair(y[0], y[1]) = how % 2 ? std::make_pair(Item(5), Item(6)) : std::pair<Item, Item>(5, 6); MC_CHECK(c, y[0].v == 5 && y[1].v == 6, "pair"); for (auto& z : x) z.assigned = 0; auto p = make_lpair(x[t[0]], x[t[1]]); MC_CHECK(c, &p.first == &x[t[0]] && &p.second == &x[t[1]], "a component of the pair does not refer to its variable"); std::pair<Item, Item> s(Item(8), Item(9)); std::pair<int, int> si(8, 9); if (how == 0) p = s; else if (how == 1) p = std::make_pair(Item(8), Item(9)); else if (how == 2) p = si; else make_lpair(x[t[0]], x[t[1]]) = std::make_pair(8, 9);
        for (int i = 0; i != VARS; ++i) { int n = i == t[0] || i == t[1], want = i == t[0] ? 8 : i == t[1] ? 9 : 100 + i; MC_CHECK(c, x[i].v == want && x[i].assigned == n, "variable " << i << " is " << x[i].v << " after assigning a pair, expected " << want); } MC_CHECK(c, s.first.v == 8 && s.second.v == 9, "the source pair was changed"); make_ltuple(x[t[0]], x[t[1]]) = std::make_pair(3, 4); MC_CHECK(c, x[t[0]].v == 3 && x[t[1]].v == 4, "assigning a pair to a tuple of references");
        // the new values may come from the variables themselves
        make_lpair(x[t[0]], x[t[1]]) = std::make_pair(x[t[1]], x[t[0]]); MC_CHECK(c, x[t[0]].v == 4 && x[t[1]].v == 3, "exchange of two variables"); make_ltuple(x[t[0]], x[t[1]]) = std::make_tuple(x[t[1]], x[t[0]]); MC_CHECK(c, x[t[0]].v == 3 && x[t[1]].v == 4, "exchange of two variables by a tuple"); } }
MC_SCENARIO(assignments) { switch (c.choose(6, "arity")) { case 0: assign(c, std::make_index_sequence<1>()); break; case 1: assign(c, std::make_index_sequence<2>()); break; case 2: assign(c, std::make_index_sequence<3>()); break; case 3: assign(c, std::make_index_sequence<4>()); break; case 4: assign(c, std::make_index_sequence<5>()); break; default: assign(c, std::make_index_sequence<6>()); } }
// Components of different types, moved and converted.
MC_SCENARIO(mixed) { int n = c.choose(3, "kind"); double d = 0.5; std::string s = "old"; std::unique_ptr<int> p(new int(1)); int i = 3; long l = 4; const int other = 77;
    if (n == 0) { c.op("pair"); make_lpair(s, p) = std::make_pair("new text that is long enough to be allocated", std::make_unique<int>(5)); MC_CHECK(c, s == "new text that is long enough to be allocated" && p && *p == 5, "mixed pair"); make_lpair(d, i) = std::make_pair(7, 8); MC_CHECK(c, d == 7.0 && i == 8 && l == 4, "converted pair"); }
    else if (n == 1) { c.op("tuple"); make_ltuple(d, s, p, i, l) = std::make_tuple(2, std::string("b"), std::make_unique<int>(9), short(11), other); MC_CHECK(c, d == 2.0 && s == "b" && *p == 9 && i == 11 && l == 77, "mixed tuple"); }
    else { c.op("kept"); auto a = make_ltuple(i, s); auto b = make_lpair(l, d); std::get<0>(a) = 5; std::get<1>(a) = "x"; b.first = 6; b.second = 1.5; MC_CHECK(c, i == 5 && s == "x" && l == 6 && d == 1.5, "writing through the components"); auto a2 = a; std::get<0>(a2) = 9; MC_CHECK(c, i == 9, "copy of a tuple of references"); a = std::make_tuple(1, "y"); b = std::make_pair(2L, 2.5); MC_CHECK(c, i == 1 && s == "y" && l == 2 && d == 2.5, "assigning kept tuples"); std::swap(i, i); const int k = 4; auto r = make_ltuple(k, i); MC_CHECK(c, &std::get<0>(r) == &k, "reference to a constant"); }
    c.state((mc::u64)n + 1); c.outcome((mc::u64)n); }

template<size_t K, class T> decltype(auto) component(T&& t) { if constexpr (K == 0) return Helper::get_first(std::forward<T>(t)); else if constexpr (K == 1) return Helper::get_second(std::forward<T>(t)); else if constexpr (K == 2) return Helper::get_third(std::forward<T>(t)); else if constexpr (K == 3) return Helper::get_fourth(std::forward<T>(t)); else return Helper::get_fifth(std::forward<T>(t)); }
template<size_t K, class T, class M> void access(Ctx& c, M make, size_t n) { c.op("component %zu of %zu", K, n);
    T t = make(); const T& ct = t; MC_CHECK(c, &component<K>(t) == &std::get<K>(t), "component " << K << " of " << n << " is not a reference to it"); MC_CHECK(c, &component<K>(ct) == &std::get<K>(ct), "component " << K << " of a constant tuple of " << n << " is not a reference to it");
    MC_CHECK(c, component<K>(t).v == (int)K + 10 && component<K>(ct).v == (int)K + 10, "component " << K << " of " << n << " is " << component<K>(t).v); MC_CHECK(c, component<K>(make()).v == (int)K + 10, "component " << K << " of a temporary tuple of " << n);
    component<K>(t) = Item(55); MC_CHECK(c, std::get<K>(t).v == 55 && std::get<K>(t).assigned == 1, "writing component " << K << " of " << n); T u(t); MC_CHECK(c, component<K>(u).v == 55 && &component<K>(u) != &component<K>(t), "component of a copy"); Item it = component<K>(t); MC_CHECK(c, it.v == 55 && component<K>(t).v == 55, "copying a component changed it"); Item moved = component<K>(std::move(t)); MC_CHECK(c, moved.v == 55, "moved component");
    [&]<size_t... I>(std::index_sequence<I...>) { MC_CHECK(c, ((I == K || (std::get<I>(t).v == (int)I + 10 && std::get<I>(t).assigned == 0)) && ...), "another component changed than " << K << " of " << n); }(std::make_index_sequence<std::tuple_size<T>::value>()); c.state(mc::mix(K, mc::hash_str(typeid(T).name()))); c.outcome(K); }
template<class T, class M> void components(Ctx& c, M make) { constexpr size_t N = std::tuple_size<T>::value; int k = c.choose(N < 5 ? (int)N : 5, "component"); if (k == 0) access<0, T>(c, make, N); if constexpr (N > 1) if (k == 1) access<1, T>(c, make, N); if constexpr (N > 2) if (k == 2) access<2, T>(c, make, N); if constexpr (N > 3) if (k == 3) access<3, T>(c, make, N); if constexpr (N > 4) if (k == 4) access<4, T>(c, make, N); }
template<size_t... I> void of_size(Ctx& c, std::index_sequence<I...>) { typedef std::tuple<decltype((void)I, Item())...> T; components<T>(c, [] { return T(Item((int)I + 10)...); }); }
MC_SCENARIO(accessors) { switch (c.choose(10, "length")) { case 0: of_size(c, std::make_index_sequence<1>()); break; case 1: of_size(c, std::make_index_sequence<2>()); break; case 2: of_size(c, std::make_index_sequence<3>()); break; case 3: of_size(c, std::make_index_sequence<4>()); break; case 4: of_size(c, std::make_index_sequence<5>()); break; case 5: of_size(c, std::make_index_sequence<6>()); break; case 6: of_size(c, std::make_index_sequence<7>()); break; case 7: of_size(c, std::make_index_sequence<8>()); break; case 8: of_size(c, std::make_index_sequence<12>()); break; default: { typedef std::pair<Item, Item> T; components<T>(c, [] { return T(10, 11); }); } } }
// Accessors of tuples of references reach the variables.
static Item nowhere; template<size_t K, class T> Item& through(T&& t) { if constexpr (std::is_same<decltype(component<K>(std::forward<T>(t))), Item&>::value) return component<K>(std::forward<T>(t)); else return nowhere; }
template<class T> Item& reach(int k, T&& t) { switch (k) { case 0: return through<0>(std::forward<T>(t)); case 1: return through<1>(std::forward<T>(t)); case 2: return through<2>(std::forward<T>(t)); case 3: return through<3>(std::forward<T>(t)); default: return through<4>(std::forward<T>(t)); } }
MC_SCENARIO(referred) { Item x[5]; for (int i = 0; i != 5; ++i) x[i].v = i; auto t = make_ltuple(x[0], x[1], x[2], x[3], x[4]); const auto ct = t; auto p = make_lpair(x[0], x[1]); int k = c.choose(5, "component"); c.op("component %d", k); Item* a[] = {&Helper::get_first(t), &Helper::get_second(t), &Helper::get_third(t), &Helper::get_fourth(t), &Helper::get_fifth(t)}; Item* b[] = {&Helper::get_first(ct), &Helper::get_second(ct), &Helper::get_third(ct), &Helper::get_fourth(ct), &Helper::get_fifth(ct)}; MC_CHECK(c, a[k] == &x[k] && b[k] == &x[k], "component " << k << " of a tuple of references is another variable"); if (k < 2) MC_CHECK(c, (k ? &Helper::get_second(p) : &Helper::get_first(p)) == &x[k], "component " << k << " of a pair of references"); MC_CHECK(c, &reach(k, make_ltuple(x[0], x[1], x[2], x[3], x[4])) == &x[k] && &reach(k, std::move(ct)) == &x[k], "component " << k << " of a temporary tuple of references is not its variable"); if (k < 2) MC_CHECK(c, &(k ? through<1>(make_lpair(x[0], x[1])) : through<0>(make_lpair(x[0], x[1]))) == &x[k], "component " << k << " of a temporary pair of references is not its variable"); *a[k] = Item(9); for (int i = 0; i != 5; ++i) MC_CHECK(c, x[i].v == (i == k ? 9 : i), "variable " << i << " after writing component " << k); c.state((mc::u64)k + 1); c.outcome((mc::u64)k); }
// The types: references of the constness of the tuple.
MC_SCENARIO(types) { typedef std::tuple<Item, Item, Item, Item, Item> T; int k = c.choose(5, "component"); c.op("types"); bool ok = false;
    auto same = [&](auto I) { constexpr size_t K = decltype(I)::value; return std::is_same<decltype(component<K>(std::declval<T&>())), Item&>::value && std::is_same<decltype(component<K>(std::declval<T const&>())), Item const&>::value && std::is_same<std::decay_t<decltype(component<K>(std::declval<T>()))>, Item>::value; };
    switch (k) { case 0: ok = same(std::integral_constant<size_t, 0>()); break; case 1: ok = same(std::integral_constant<size_t, 1>()); break; case 2: ok = same(std::integral_constant<size_t, 2>()); break; case 3: ok = same(std::integral_constant<size_t, 3>()); break; default: ok = same(std::integral_constant<size_t, 4>()); } MC_CHECK(c, ok, "component " << k << " does not have the type of a reference to it"); c.state((mc::u64)k + 1); }
MC_MAIN
