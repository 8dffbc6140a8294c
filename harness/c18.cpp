// C18: iterators made with the facades, against positions in a sequence.
#include "mc.hpp"
#include <iterator>
#include <cstddef>
#include "iterator.hpp"
using mc::Ctx; using std::ptrdiff_t;
using Helper::IteratorFacade; using Helper::RandomAccessTraversalTag; using Helper::ForwardTraversalTag; using Helper::IteratorCoreAccess;

// ---- random access: a pointer into memory, with any stride (negative: backwards)
template<class V> class Strided : public IteratorFacade<Strided<V>, V, RandomAccessTraversalTag> {
    V* _p; ptrdiff_t _s; friend class Helper::IteratorCoreAccess;
    bool equal(Strided const& o) const { return _p == o._p; }
    ptrdiff_t distance_to(Strided const& o) const { return (o._p - _p) / _s; }
    void advance(ptrdiff_t n) { _p += n * _s; }
    V& dereference() const { return *_p; }
  public:
    Strided(V* p, ptrdiff_t s) : _p(p), _s(s) { }
    V* where() const { return _p; } };
// An index whose elements are computed.
class Index : public IteratorFacade<Index, long, RandomAccessTraversalTag, long> {
    ptrdiff_t _i; friend class Helper::IteratorCoreAccess;
    bool equal(Index const& o) const { return _i == o._i; }
    ptrdiff_t distance_to(Index const& o) const { return o._i - _i; }
    void advance(ptrdiff_t n) { _i += n; }
    long dereference() const { return 3 * _i + 1; }
  public:
    explicit Index(ptrdiff_t i) : _i(i) { } };
// One row out of a table: equality and distance by index, the container by reference.
struct Rec { int a; int b; };
class Row : public IteratorFacade<Row, Rec const, RandomAccessTraversalTag> {
    std::vector<Rec> const* _v; size_t _i; friend class Helper::IteratorCoreAccess;
    bool equal(Row const& o) const { return _i == o._i; }
    ptrdiff_t distance_to(Row const& o) const { return (ptrdiff_t)o._i - (ptrdiff_t)_i; }
    void advance(ptrdiff_t n) { _i += (size_t)n; }
    Rec const& dereference() const { return (*_v)[_i]; }
  public:
    Row(std::vector<Rec> const& v, size_t i) : _v(&v), _i(i) { } };

// All laws that concern two positions and an offset.
template<class I, class At> void laws(Ctx& c, At at, ptrdiff_t p, ptrdiff_t q, ptrdiff_t n) {
    I a = at(p), b = at(q); const I ca = a, cb = b; c.ops(20); c.note("positions %ld, %ld, offset %ld", (long)p, (long)q, (long)n);
    MC_CHECK(c, (ca == cb) == (p == q) && (ca != cb) == (p != q), "equality of positions " << p << " and " << q);
    MC_CHECK(c, (ca < cb) == (p < q) && (ca <= cb) == (p <= q) && (ca > cb) == (p > q) && (ca >= cb) == (p >= q), "order of positions " << p << " and " << q << ": " << (ca < cb) << (ca <= cb) << (ca > cb) << (ca >= cb));
    MC_CHECK(c, cb - ca == q - p && ca - cb == p - q && ca - ca == 0, "difference of positions " << q << " and " << p << " is " << (cb - ca));
    MC_CHECK(c, ca + (q - p) == cb && cb - (q - p) == ca && ca + (cb - ca) == cb && cb + (ca - cb) == ca && ca - (ca - cb) == cb, "adding the difference of positions " << p << " and " << q);
    I s = ca + n, d = ca - n; MC_CHECK(c, s - ca == n && d - ca == -n && s == at(p + n) && d == at(p - n) && (n == 0) == (s == ca), "position " << p << " plus and minus " << n);
    MC_CHECK(c, (ca + n) - n == ca && (ca - n) + n == ca && (s + q) == (ca + q) + n, "additions to position " << p << " of " << n << " and " << q);
    I x = ca; I* r = &(x += n); MC_CHECK(c, r == &x && x == s && x - ca == n, "in-place addition of " << n); r = &(x -= n); MC_CHECK(c, r == &x && x == ca, "in-place subtraction of " << n);
    x = ca; x -= n; MC_CHECK(c, x == d, "in-place subtraction of " << n << " from position " << p); x += n; MC_CHECK(c, x == ca, "in-place addition after subtraction");
    x = ca; r = &++x; MC_CHECK(c, r == &x && x == ca + 1 && x - ca == 1 && x > ca, "increment of position " << p); r = &--x; MC_CHECK(c, r == &x && x == ca, "decrement after increment"); r = &--x; MC_CHECK(c, r == &x && x == ca - 1 && ca - x == 1, "decrement of position " << p);
    MC_CHECK(c, a == at(p) && b == at(q), "an operation changed its argument"); }
static mc::u64 h3(ptrdiff_t a, ptrdiff_t b, ptrdiff_t d) { return mc::mix(mc::mix((mc::u64)(a + 1000), (mc::u64)(b + 1000)), (mc::u64)(d + 1000)); }
enum { SIZE = 400, MID = 200 };
template<class V> void strided(Ctx& c) {
    static int mem[SIZE]; for (int i = 0; i != SIZE; ++i) mem[i] = 7 * i; static const ptrdiff_t strides[] = {1, -1, 2, -2, 3, -5}; ptrdiff_t s = strides[c.choose(6, "stride")]; int m = c.bound(6, 9), p = c.choose(2 * m + 1, "p") - m, q = c.choose(2 * m + 1, "q") - m;
    typedef Strided<V> I; auto at = [&](ptrdiff_t k) { return I(mem + MID + k * s, s); };
    for (int n = -m; n <= m; ++n) { laws<I>(c, at, p, q, n); I x = at(p) + n; MC_CHECK(c, &*x == mem + MID + (p + n) * s && x.operator->() == &*x && *x == 7 * (MID + (p + n) * s), "dereferencing position " << p + n << " with stride " << s); c.state(h3(p + 100 * s, q, n)); }
    if constexpr (!std::is_const<V>::value) { I x = at(p), y = at(q); *x = 1; *y = 2; MC_CHECK(c, mem[MID + q * s] == 2 && (p == q || mem[MID + p * s] == 1) && *at(q) == 2, "writing through the iterator"); const I z = at(p); *z = 5; MC_CHECK(c, mem[MID + p * s] == 5, "writing through a constant iterator"); }
    c.outcome((mc::u64)(p < q)); }
MC_SCENARIO(pointers) { strided<int>(c); }
MC_SCENARIO(const_pointers) { strided<const int>(c); }
MC_SCENARIO(indices) { static const ptrdiff_t ps[] = {0, 1, 2, 5, -1, -3, 2147483647LL, 2147483648LL, 4294967296LL, -2147483649LL, 1LL << 40, -(1LL << 55), (1LL << 61) - 1, -(1LL << 61)}; int i = c.choose(14, "p"), j = c.choose(14, "q"), k = c.choose(14, "n");
    auto at = [](ptrdiff_t x) { return Index(x); }; ptrdiff_t p = ps[i], q = ps[j], n = ps[k] % (1LL << 60); laws<Index>(c, at, p, q, n); ptrdiff_t s = (p % (1LL << 58)); MC_CHECK(c, *Index(s) == 3 * s + 1, "dereferencing"); c.state(h3(i, j, k)); c.outcome((mc::u64)(p < q)); }
// The farthest positions there are.
MC_SCENARIO(farthest) { const ptrdiff_t M = PTRDIFF_MAX; static const ptrdiff_t ps[] = {0, 1, -1, 2, M, M - 1, M - 2, -M, 1 - M, M / 2, M / 2 + 1, -(M / 2), -(M / 2) - 1, INT32_MAX, INT32_MIN, UINT32_MAX, -(ptrdiff_t)UINT32_MAX}; int i = c.choose(17, "p"), j = c.choose(17, "q"); ptrdiff_t p = ps[i], q = ps[j]; __int128 d = (__int128)q - p; if (d > M || d < -(__int128)M) throw mc::Skip(); Index a(p), b(q); c.op("positions %ld and %ld", (long)p, (long)q);
    MC_CHECK(c, (a == b) == (p == q) && (a != b) == (p != q) && (a < b) == (p < q) && (a <= b) == (p <= q) && (a > b) == (p > q) && (a >= b) == (p >= q), "order of positions " << p << " and " << q << ": " << (a == b) << (a != b) << (a < b) << (a <= b) << (a > b) << (a >= b)); MC_CHECK(c, b - a == q - p && a - b == p - q, "difference of positions " << p << " and " << q);
    Index x(a); x += q - p; MC_CHECK(c, x == b && a + (q - p) == b && b - (q - p) == a, "adding the difference of positions " << p << " and " << q); x -= q - p; MC_CHECK(c, x == a, "subtracting it again"); if (p < M) { ++x; MC_CHECK(c, x == Index(p + 1) && x > a, "increment at " << p); --x; MC_CHECK(c, x == a, "decrement"); } c.state(h3(i, j, 1)); c.outcome((mc::u64)(p < q)); }
MC_SCENARIO(rows) { std::vector<Rec> v; int len = 1 + c.choose(c.bound(6, 8), "length"); for (int i = 0; i != len; ++i) v.push_back({i, 10 * i}); int p = c.choose(len + 1, "p"), q = c.choose(len + 1, "q"), k = c.choose(len + 1, "to"); auto at = [&](ptrdiff_t x) { return Row(v, (size_t)x); };
    laws<Row>(c, at, p, q, k - p); Row first(v, 0), last(v, (size_t)len); if (p < len) { Row x = at(p); MC_CHECK(c, x->a == p && x->b == 10 * p && &*x == &v[(size_t)p] && (*x).b == 10 * p, "element at " << p); }
    std::vector<int> seen; for (Row x = first; x != last; ++x) seen.push_back(x->a); MC_CHECK(c, (int)seen.size() == len, "the loop visits " << seen.size() << " of " << len); for (int i = 0; i != len; ++i) MC_CHECK(c, seen[(size_t)i] == i, "order of the loop");
    seen.clear(); for (Row x = last; x > first; ) { --x; seen.push_back(x->a); } for (int i = 0; i != len; ++i) MC_CHECK(c, seen[(size_t)i] == len - 1 - i, "order of the backward loop"); seen.clear(); for (Row x = first; x < last; x += 2) { seen.push_back(x->a); if (last - x < 2) break; } MC_CHECK(c, (int)seen.size() == (len + 1) / 2, "steps of two");
    MC_CHECK(c, std::distance(first, last) == len && std::distance(at(p), at(q)) == q - p, "std::distance"); Row x = at(p); std::advance(x, q - p); MC_CHECK(c, x == at(q), "std::advance"); MC_CHECK(c, std::next(at(p), k - p) == at(k) && std::prev(at(p), p - k) == at(k), "std::next");
    MC_CHECK(c, std::lower_bound(first, last, Rec{p, 0}, [](Rec const& l, Rec const& r) { return l.a < r.a; }) == at(p), "binary search"); c.state(h3(len, p, mc::u64(q * 10 + k))); c.outcome((mc::u64)len); }
// Histories: three iterators, moved in every way.
MC_SCENARIO(history) { static int mem[SIZE]; for (int i = 0; i != SIZE; ++i) mem[i] = i; ptrdiff_t s = c.choose(2, "stride") ? -3 : 1; typedef Strided<int> I; I a(mem + MID, s), b(mem + MID + s, s), d(mem + MID, s); I* it[3] = {&a, &b, &d}; ptrdiff_t m[3] = {0, 1, 0}; int depth = c.bound(4, 6);
    for (int q = 0; q != depth; ++q) { int k = c.choose(16); if (k == 0) break; --k; int i = k % 2, j = 1 - i;
        switch (k / 2) { case 0: c.op("++%d", i); ++*it[i]; ++m[i]; break; case 1: c.op("--%d", i); --*it[i]; --m[i]; break; case 2: c.op("%d+=3", i); *it[i] += 3; m[i] += 3; break; case 3: c.op("%d-=2", i); *it[i] -= 2; m[i] -= 2; break;
          case 4: c.op("%d=%d", i, j); *it[i] = *it[j]; m[i] = m[j]; break; case 5: c.op("third=%d+4", i); d = *it[i] + 4; m[2] = m[i] + 4; break; case 6: c.op("%d=third-1", i); *it[i] = d - 1; m[i] = m[2] - 1; break; default: if (i) { c.op("swap"); std::swap(a, b); std::swap(m[0], m[1]); } else { c.op("++ ++"); ++ ++d; m[2] += 2; } }
        mc::u64 h = (mc::u64)s; for (int x = 0; x != 3; ++x) { MC_CHECK(c, **it[x] == MID + m[x] * s && it[x]->where() == mem + MID + m[x] * s, "iterator " << x << " is at " << it[x]->where() - mem << " expected " << MID + m[x] * s); for (int y = 0; y != 3; ++y) MC_CHECK(c, *it[x] - *it[y] == m[x] - m[y] && (*it[x] < *it[y]) == (m[x] < m[y]) && (*it[x] == *it[y]) == (m[x] == m[y]), "comparison of iterators " << x << " and " << y); h = mc::mix(h, (mc::u64)(m[x] + 50)); } c.state(h); } }

// ---- forward: a list of nodes
struct Node { int value; Node* next; };
template<class V> class Link : public IteratorFacade<Link<V>, V, ForwardTraversalTag> {
    Node* _n; friend class Helper::IteratorCoreAccess;
    bool equal(Link const& o) const { return _n == o._n; }
    void increment() { _n = _n->next; }
    V& dereference() const { return _n->value; }
  public:
    explicit Link(Node* n = nullptr) : _n(n) { }
    Node* where() const { return _n; } };
class Count : public IteratorFacade<Count, int, ForwardTraversalTag, int> {
    int _i; int* _steps; friend class Helper::IteratorCoreAccess;
    bool equal(Count const& o) const { return _i == o._i; }
    void increment() { ++_i; ++*_steps; }
    int dereference() const { return _i * _i; }
  public:
    Count(int i, int* s) : _i(i), _steps(s) { } };
template<class V> void walk(Ctx& c, int len) { Node n[12]; for (int i = 0; i != len; ++i) { n[i].value = 10 * i; n[i].next = i + 1 == len ? nullptr : n + i + 1; } typedef Link<V> I; I first(len ? n : nullptr), last; 
    std::vector<int> seen; for (I x = first; x != last; ++x) seen.push_back(*x); MC_CHECK(c, (int)seen.size() == len, "the loop visits " << seen.size() << " of " << len); for (int i = 0; i != len; ++i) MC_CHECK(c, seen[(size_t)i] == 10 * i, "order of the loop"); std::vector<int> again; for (I x = first; !(x == last); ) again.push_back(*x++); MC_CHECK(c, again == seen, "the loop with post-increments visits something else"); std::vector<int> third(first, last); MC_CHECK(c, third == seen && std::distance(first, last) == len, "the range constructor visits something else"); c.ops((mc::u64)len * 3);
    // histories of three iterators over the list
    I it[3] = {first, first, last}; int m[3] = {0, 0, len}; int depth = c.bound(5, 7); auto node = [&](int k) { return k == len ? nullptr : n + k; };
    for (int q = 0; q != depth; ++q) { int k = c.choose(9); if (k == 0) break; --k; int i = k % 2, j = 1 - i;
        if (k < 2) { if (m[i] == len) throw mc::Skip(); c.op("++%d", i); I* r = &++it[i]; ++m[i]; MC_CHECK(c, r == &it[i], "pre-increment returns something else"); }
        else if (k < 4) { if (m[i] == len) throw mc::Skip(); c.op("%d++", i); I r = it[i]++; MC_CHECK(c, r.where() == node(m[i]), "post-increment does not return the old position"); ++m[i]; it[2] = r; m[2] = m[i] - 1; }
        else if (k < 6) { c.op("%d=%d", i, j); it[i] = it[j]; m[i] = m[j]; } else if (k < 8) { if (m[2] == len) throw mc::Skip(); c.op("%d=third++", i); it[i] = it[2]++; m[i] = m[2]++; }
        mc::u64 h = (mc::u64)len; for (int x = 0; x != 3; ++x) { MC_CHECK(c, it[x].where() == node(m[x]), "iterator " << x << " is not at position " << m[x]); if (m[x] < len) MC_CHECK(c, *it[x] == 10 * m[x] && &*it[x] == &n[m[x]].value && it[x].operator->() == &n[m[x]].value, "dereferencing position " << m[x]); for (int y = 0; y != 3; ++y) MC_CHECK(c, (it[x] == it[y]) == (m[x] == m[y]) && (it[x] != it[y]) == (m[x] != m[y]), "comparison of positions " << m[x] << " and " << m[y]); h = mc::mix(h, (mc::u64)m[x]); } c.state(h); }
    if constexpr (!std::is_const<V>::value) if (m[0] < len) { *it[0] = -1; MC_CHECK(c, n[m[0]].value == -1, "writing through the iterator"); } c.outcome((mc::u64)len); }
MC_SCENARIO(links) { walk<int>(c, c.choose(c.bound(6, 8), "length")); }
MC_SCENARIO(const_links) { walk<const int>(c, c.choose(c.bound(5, 7), "length")); }
MC_SCENARIO(ring) { int len = 1 + c.choose(5, "length"), steps = c.choose(12, "steps"), mode = c.choose(2, "post"); Node n[6]; for (int i = 0; i != len; ++i) n[i] = {i, n + (i + 1) % len}; Link<int> a(n), b(n); for (int i = 0; i != steps; ++i) { c.op("step"); if (mode) { Link<int> o = a++; MC_CHECK(c, *o == i % len, "old position"); } else ++a; MC_CHECK(c, *a == (i + 1) % len && (a == b) == ((i + 1) % len == 0), "position " << *a << " after " << i + 1 << " steps"); } c.state(mc::mix((mc::u64)len, (mc::u64)(steps * 2 + mode))); c.outcome((mc::u64)*a); }
MC_SCENARIO(computed) { int from = c.choose(4, "from"), n = c.choose(8, "count"), mode = c.choose(2, "post"), steps = 0; std::vector<int> v; Count x(from, &steps), e(from + n, &steps); int made = 0; while (x != e) { c.op("step"); ++made; if (mode) v.push_back(*x++); else { v.push_back(*x); ++x; } MC_CHECK(c, steps == made, "one increment made " << steps - made + 1 << " steps"); } MC_CHECK(c, (int)v.size() == n, "visits " << v.size()); for (int i = 0; i != n; ++i) MC_CHECK(c, v[(size_t)i] == (from + i) * (from + i), "element " << i); c.state(mc::mix((mc::u64)from, (mc::u64)(n * 2 + mode))); c.outcome((mc::u64)n); }
// Pairs of iterators: both move together, and two pairs are equal exactly when both parts are.
MC_SCENARIO(pairs) { typedef Helper::PairIterator<int*, long*> P; typedef Helper::PairIterator<const int*, const long*> CP; static int a[40]; static long b[40]; const int N = c.bound(4, 6); auto place = [&](const char* what) { return 20 + c.choose(2 * N + 1, what) - N; };
    int i = place("first"), j = place("second"), k = place("other first"), l = place("other second"), n = c.choose(4 * N + 1, "by") - 2 * N; c.op("pair %d,%d and pair %d,%d", i, j, k, l);
    P p(a + i, b + j), q(a + k, b + l); MC_CHECK(c, p._iter1 == a + i && p._iter2 == b + j, "parts of a pair"); MC_CHECK(c, p.equal(q) == (i == k && j == l) && q.equal(p) == (i == k && j == l), "equality of pairs of positions");
    CP cp(p), cq(q); MC_CHECK(c, cp._iter1 == a + i && cp._iter2 == b + j, "parts of a converted pair"); MC_CHECK(c, cp.equal(q) == (i == k && j == l) && p.equal(cq) == (i == k && j == l), "equality of pairs of different types");
    P r(p); if (i + n >= 0 && i + n <= 40 && j + n >= 0 && j + n <= 40) { r.advance(n); MC_CHECK(c, r._iter1 == a + i + n && r._iter2 == b + j + n, "advancing a pair by " << n); MC_CHECK(c, p._iter1 == a + i && p._iter2 == b + j, "advancing a copy moved the pair it was copied from"); MC_CHECK(c, r.equal(p) == (n == 0), "equality after advancing"); r.advance(-n); MC_CHECK(c, r.equal(p), "advancing back"); }
    c.state(mc::mix(mc::mix((mc::u64)(i * 41 + j), (mc::u64)(k * 41 + l)), (mc::u64)(n + 50))); c.outcome((mc::u64)(p.equal(q))); }
MC_MAIN
