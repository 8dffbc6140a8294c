// C03: arrays as sequence values.
#include "array_driver.hpp"
MC_SCENARIO(history_int, .balance = true) { histories<int>(c, 3, no_faults, false, c.bound(3, 4), 2); }
MC_SCENARIO(history_string, .balance = true) { histories<std::string>(c, 2, no_faults, false, c.bound(3, 4), 3); }
MC_SCENARIO(history_double, .balance = true) { histories<double>(c, 2, no_faults, false, 3, 4); }
MC_SCENARIO(history_byte, .balance = true) { histories<unsigned char>(c, 2, no_faults, false, 4, 2); }
MC_SCENARIO(history_padded, .balance = true) { histories<Padded>(c, 2, no_faults, false, 4, 2); }
MC_SCENARIO(history_loose, .balance = true) { histories<Loose>(c, 2, no_faults, false, 4, 2); }
MC_SCENARIO(reach_int, .balance = true) { histories<int>(c, c.bound(4, 7), no_faults, true, c.bound(3, 4), 2); }
MC_SCENARIO(reach_string, .balance = true) { histories<std::string>(c, c.bound(4, 5), no_faults, true, 3, 2); }

// Every size, and every pair of sizes, through every operation.
static std::vector<size_t> const& big() { static std::vector<size_t> v; if (v.empty()) { for (size_t i = 0; i <= 20; ++i) v.push_back(i);
    for (size_t b : {32, 64, 128, 256, 512, 1024, 4096, 65536}) for (size_t d : {-1, 0, 1}) v.push_back(b + d); v.push_back(100000); } return v; }
template<class T> std::vector<T> seq(size_t n, int from) { std::vector<T> r; for (size_t k = 0; k != n; ++k) r.push_back(make<T>((int)(k * 7 + (size_t)from) % 251)); return r; }
template<class T> void slook(Ctx& c, Array<T> const& a, std::vector<T> const& m, const char* who) {
    MC_CHECK(c, a.size() == m.size(), "size of " << who << " is " << a.size() << " expected " << m.size());
    for (size_t i = 0; i != m.size(); ++i) if (!same(a[i], m[i])) MC_CHECK(c, false, "element " << i << " of " << who << " of size " << m.size());
    if (m.size()) { MC_CHECK(c, &a.at(m.size() - 1) == &a[m.size() - 1] && &a.back() == &a[m.size() - 1], "last element of " << who); }
    bool thrown = false; try { (void)a.at(m.size()); } catch (std::out_of_range const&) { thrown = true; } MC_CHECK(c, thrown, "checked access past the end of " << who); }
template<class T> void sizes(Ctx& c, size_t limit) {
    size_t n = c.pick(big(), "n"), m = c.pick(big(), "m"); if (n > limit || m > limit) throw mc::Skip(); c.split();
    c.op("sizes %zu and %zu", n, m); T x = make<T>(2), d = T();
    auto s = seq<T>(n, 1), t = seq<T>(m, 5); Array<T> a(s.begin(), s.end()), b(t.begin(), t.end()); slook(c, a, s, "range-constructed array"); slook(c, b, t, "range-constructed array");
    { Array<T> k(a); slook(c, k, s, "copy"); MC_CHECK(c, k == a && !(k != a), "copy of size " << n << " is not equal"); k = b; slook(c, k, t, "assigned array"); slook(c, a, s, "source"); 
      Array<T> q(std::move(k)); slook(c, q, t, "moved array"); slook(c, k, {}, "moved-from array"); k = std::move(q); slook(c, k, t, "move-assigned array"); slook(c, q, {}, "moved-from array"); k.swap(a); slook(c, k, s, "swapped"); slook(c, a, t, "swapped"); a.swap(k); }
    { Array<T> k(a); auto w = s; k.resize(m); w.resize(m, d); slook(c, k, w, "resized array"); k.resize(n); w.resize(n, d); slook(c, k, w, "resized-back array"); }
    { Array<T> k(a); auto w = s; k.resize(m, x); w.resize(m, x); slook(c, k, w, "resized array"); k.fill(x); w.assign(m, x); slook(c, k, w, "filled array"); }
    { Array<T> k(n); slook(c, k, std::vector<T>(n, d), "default array"); if (n != m) { k.reallocate(m); slook(c, k, std::vector<T>(m, d), "reallocated array"); } k.assign(s.begin(), s.end()); slook(c, k, s, "assigned range"); k.assign(b.begin(), b.end()); slook(c, k, t, "assigned array range"); }
    { Array<T> k(n, x); slook(c, k, std::vector<T>(n, x), "filled construction"); Array<T> g(n, [&](size_t i) { return s[i]; }); slook(c, g, s, "generated array"); k.fill(s.begin()); slook(c, k, s, "filled from iterator"); }
    // equality sees every position
    if (n && n < 2000 && m == 0) for (size_t i = 0; i != n; ++i) { Array<T> k(a); k[i] = make<T>(251 + (int)(i & 1)); if (k[i] == a[i]) k[i] = make<T>(3);
        bool eq = k[i] == a[i]; MC_CHECK(c, (k == a) == eq && (a == k) == eq && (a != k) == !eq, "equality of arrays of size " << n << " that differ at " << i); }
    if (n != m) { bool eq = a == b; MC_CHECK(c, !eq && a != b && !(b == a), "arrays of sizes " << n << " and " << m << " compare equal"); Array<T> k(a); k.resize(m, x); MC_CHECK(c, k != a && a != k, "prefix compares equal"); }
    c.state(n * 200003 + m); c.outcome(n < m); }
MC_SCENARIO(sizes_int, .balance = true) { sizes<int>(c, c.bound(70000, 200000)); }
MC_SCENARIO(sizes_byte, .balance = true) { sizes<unsigned char>(c, c.bound(70000, 200000)); }
MC_SCENARIO(sizes_string, .balance = true) { sizes<std::string>(c, c.bound(600, 5000)); }
// Arrays from the elements of another array, or from numbers, and a parameter.
struct One { int v; One(int d, int p) : v(d * 1000 + p) { } One(double d, int p) : v((int)(d * 4) * 1000 + p) { } }; struct Two { int v; Two(double d) : v((int)(d * 4)) { } Two(double d, int p) : v((int)(d * 4) * 1000 + p) { } }; struct Three { int v; explicit Three(int d) : v(d) { } Three(int d, std::string const& p) : v(d * 1000 + (int)p.size()) { } Three(double d, std::string const& p) : v((int)(d * 4) * 1000 + (int)p.size()) { } };
template<class T, class S, class P> void params(Ctx& c, size_t n, P p, S (*elem)(int)) { std::vector<S> s; for (size_t i = 0; i != n; ++i) s.push_back(elem((int)i)); Array<S> const a(s.begin(), s.end()); Array<T> const r(a, p); MC_CHECK(c, r.size() == n, "size of an array made with a parameter is " << r.size() << " expected " << n); for (size_t i = 0; i != n; ++i) { MC_CHECK(c, r[i].v == T(s[i], p).v, "element " << i << " of an array made with a parameter is " << r[i].v << " expected " << T(s[i], p).v); MC_CHECK(c, a[i] == s[i], "the source of a conversion changed"); }
    Array<T> const z({}, p); MC_CHECK(c, z.size() == 0 && z.empty(), "size of an array from an empty list"); Array<T> const y({0.5, -2.0, 3.25}, p); MC_CHECK(c, y.size() == 3, "size of an array from a list and a parameter"); double w[] = {0.5, -2.0, 3.25}; for (size_t i = 0; i != 3; ++i) MC_CHECK(c, y[i].v == T(w[i], p).v, "element " << i << " of an array from a list and a parameter is " << y[i].v); c.ops(3); }
MC_SCENARIO(parameters, .balance = true) { size_t n = (size_t)c.choose(20, "n"); int p = c.choose(5, "parameter"); c.op("%zu elements, parameter %d", n, p); auto i = [](int k) { return k * 3 - 2; }; auto d = [](int k) { return k * 0.75 - 1; }; params<One, int>(c, n, p, +i); params<One, double>(c, n, p, +d); params<Two, double>(c, n, p, +d); params<Two, int>(c, n, p, +i); params<Three, int>(c, n, std::string((size_t)p * 10, 'x'), +i); c.state(n * 5 + (size_t)p + 1); c.outcome(n); }
// Checked access: every valid index and many invalid ones, for every small size.
MC_SCENARIO(access, .balance = true) { size_t n = (size_t)c.choose(70, "n"); c.split(); c.op("size %zu", n); auto s = seq<int>(n, 3); Array<int> a(s.begin(), s.end()); look(c, a, s, "array", false);
    auto t = seq<std::string>(n, 3); Array<std::string> b(t.begin(), t.end()); look(c, b, t, "array of strings", false); c.state(n); c.outcome(n); }
MC_MAIN
