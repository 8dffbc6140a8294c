// C21: index ranges with every pair of bounds, complements of every selection.
#include "mc.hpp"
#include "array.hpp"
#include "range.hpp"
using mc::Ctx; using Helper::Array; using Helper::Range; using Helper::RangeIterator; using std::size_t;
static const size_t bases[] = {0, 1, 5, 255, 65535, 0x7ffffff0u, 0xfffffff8u, 0x100000000ull, 0x7ffffffffffffff8ull, 0x8000000000000000ull, (size_t)-20};
template<class R> void visits(Ctx& c, R rng, size_t a, size_t b, const char* what) { size_t want = a, k = 0; for (size_t i : rng) { MC_CHECK(c, k < b - a, what << ": more than " << b - a << " indices are visited in the range from " << a << " to " << b); MC_CHECK(c, i == want, what << ": visits " << i << " in place of " << want); ++want; ++k; } MC_CHECK(c, k == b - a, what << ": visits " << k << " of the " << b - a << " indices from " << a << " to " << b); c.ops(k + 1); }
static void facts(Ctx& c, Range const& r, size_t a, size_t b, size_t n) { MC_CHECK(c, r.size() == b - a && r.start() == a && r.stop() == b && r.stride() == 1, "range from " << a << " to " << b << " has size " << r.size() << ", start " << r.start() << ", stop " << r.stop() << ", stride " << r.stride()); for (size_t i = 0; i != n; ++i) MC_CHECK(c, r[i] == a + i, "element " << i << " of the range from " << a << " to " << b << " is " << r[i]); c.ops(n + 4); }
MC_SCENARIO(bounds) { size_t base = bases[c.choose(11, "base")]; int m = c.bound(18, 19); size_t a = base + (size_t)c.choose(m, "from"), len = (size_t)c.choose(m + 2, "length"); if (len > (size_t)-1 - a) throw mc::Skip(); size_t b = a + len; c.op("range(%zu,%zu)", a, b); Range r = Helper::range(a, b), s(a, b), t = Helper::range(0, 1); t = r; Range u(t);
    facts(c, r, a, b, len); facts(c, s, a, b, len); facts(c, u, a, b, len); visits(c, r, a, b, "range"); visits(c, s, a, b, "constructed"); visits(c, t, a, b, "assigned"); visits(c, Helper::range(a, b), a, b, "temporary"); visits(c, r, a, b, "again"); facts(c, r, a, b, len);
    if (a == 0) { Range o = Helper::range(b); facts(c, o, 0, b, len); visits(c, o, 0, b, "one argument"); }
    // iterators, side by side
    RangeIterator i = begin(r), j = begin(r), e = end(r); size_t k = 0; for (; i != e; ++k) { MC_CHECK(c, *i == a + k && *j == a + k / 2, "iterators side by side"); RangeIterator x = i; RangeIterator* p = &++i; MC_CHECK(c, p == &i && *x == a + k && x != i, "increment"); if (k % 2) ++j; MC_CHECK(c, k < len, "runs past the end"); } MC_CHECK(c, k == len && !(i != e), "iterators side by side visit " << k); MC_CHECK(c, (begin(r) != end(r)) == (len != 0), "emptiness");
    size_t pairs = 0; for (size_t x : r) for (size_t y : r) { MC_CHECK(c, x - a < len && y - a < len, "nested loops"); ++pairs; } MC_CHECK(c, pairs == len * len, "nested loops visit " << pairs << " pairs"); c.state(mc::mix(a, b)); c.outcome(len); }
MC_SCENARIO(long_ranges) { static const size_t lens[] = {100, 255, 256, 257, 4095, 4096, 65535, 65536, 65537, 300000}; size_t len = lens[c.choose(c.bound(10, 10), "length")], a = bases[c.choose(10, "base")]; if (len > (size_t)-1 - a) throw mc::Skip(); Range r = Helper::range(a, a + len); facts(c, r, a, a + len, 300); for (size_t i = len - 100; i != len; ++i) MC_CHECK(c, r[i] == a + i, "element " << i); size_t want = a; for (size_t i : r) { if (i != want) c.fail("visits " + std::to_string(i) + " in place of " + std::to_string(want)); ++want; } MC_CHECK(c, want == a + len, "visits " << want - a << " of " << len); c.ops(len); c.state(mc::mix(a, len)); c.outcome(len); }
MC_SCENARIO(huge_ranges) { static const size_t v[] = {0, 1, 3, 0x7fffffffu, 0x80000000u, 0xffffffffu, 0x100000000ull, 0x7fffffffffffffffull, 0x8000000000000000ull, (size_t)-2, (size_t)-1}; size_t a = v[c.choose(11, "from")], b = v[c.choose(11, "to")]; if (a > b) throw mc::Skip(); Range r = Helper::range(a, b); facts(c, r, a, b, 0); for (size_t x : v) if (x < b - a) MC_CHECK(c, r[x] == a + x, "element " << x << " of the range from " << a << " to " << b); if (b > a) MC_CHECK(c, r[b - a - 1] == b - 1, "last element"); RangeIterator i = begin(r), e = end(r); MC_CHECK(c, *i == a && (i != e) == (a != b), "begin and end"); for (int k = 0; k != 300 && i != e; ++k, ++i) MC_CHECK(c, *i == a + (size_t)k, "index " << k << " of the range from " << a << " to " << b); if (a == 0) facts(c, Helper::range(b), 0, b, 0); c.ops(5); c.state(mc::mix(a, b)); c.outcome(a == b); }

static void complements(Ctx& c, size_t n, Array<size_t> const& sel) { std::vector<size_t> want; std::vector<bool> in(n, false); for (size_t x : sel) in[x] = true; for (size_t i = 0; i != n; ++i) if (!in[i]) want.push_back(i); Array<size_t> copy(sel); c.op("complement in %zu of %zu indices", n, sel.size());
    for (int rep = 0; rep != 2; ++rep) { Array<size_t> got = rep ? Helper::complement(n, Array<size_t>(sel)) : Helper::complement(n, sel); MC_CHECK(c, got.size() == want.size(), "the complement of " << sel.size() << " of " << n << " indices has " << got.size() << " elements"); for (size_t i = 0; i != want.size(); ++i) MC_CHECK(c, got[i] == want[i], "element " << i << " of the complement is " << got[i] << " expected " << want[i] << " (" << sel.size() << " of " << n << ")"); Array<size_t> back = Helper::complement(n, got); MC_CHECK(c, back == sel, "the complement of the complement is something else"); } MC_CHECK(c, sel == copy, "the selection was changed"); }
MC_SCENARIO(selections, .balance = true) { size_t n = (size_t)c.choose(c.bound(13, 17), "n"); std::vector<size_t> s; mc::u64 h = n + 1; for (size_t i = 0; i != n; ++i) if (c.flip()) { s.push_back(i); h = mc::mix(h, i); } complements(c, n, Array<size_t>(s.begin(), s.end())); c.state(h); c.outcome(s.size()); }
MC_SCENARIO(large_selections, .balance = true) { static const size_t ns[] = {20, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1000, 1024, 4096, 32769, 65535, 65536, 65537, 70002, 131073}; size_t n = ns[c.choose(22, "n")]; int kind = c.choose(16, "pattern"); std::vector<size_t> s; for (size_t i = 0; i != n; ++i) { bool b = false; switch (kind) { case 0: break; case 1: b = true; break; case 2: b = i % 2; break; case 3: b = i % 2 == 0; break; case 4: b = i == 0; break; case 5: b = i == n - 1; break; case 6: b = i < n / 2; break; case 7: b = i >= n / 2; break; case 8: b = i != 0; break; case 9: b = i != n - 1; break; case 10: b = i % 7 < 3; break; case 11: b = i == (n > 2 ? n - 2 : 0); break; case 12: b = i % 256 == 3; break; case 13: b = i / 256 % 2; break; case 14: b = i + 3 > n || i < 2; break; default: b = i != n / 3 && i % 64 != 63; } if (b) s.push_back(i); } complements(c, n, Array<size_t>(s.begin(), s.end())); c.state(mc::mix(n, (mc::u64)kind)); c.outcome(s.size()); }
MC_MAIN
