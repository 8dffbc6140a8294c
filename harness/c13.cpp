// C13: binary words against strings of '0' and '1'.
#include "mc.hpp"
#include <climits>
#include "binary_word.hpp"
using mc::Ctx; using Helper::BinaryWord; typedef std::string S;
static BinaryWord word(S const& s) { BinaryWord w; for (char ch : s) w.push_back(ch == '1'); return w; }
static S bits(BinaryWord const& w) { S s; for (size_t i = 0; i != w.size(); ++i) s += w[i] ? '1' : '0'; return s; }
static S show(S const& s) { return s.size() > 80 ? s.substr(0, 80) + "...(" + std::to_string(s.size()) + ")" : "\"" + s + "\""; }
static bool before(S const& a, S const& b) { return std::lexicographical_compare(a.begin(), a.end(), b.begin(), b.end()); }
static void same(Ctx& c, BinaryWord const& w, S const& s, const char* what) { MC_CHECK(c, bits(w) == s, what << " gives " << show(bits(w)) << " expected " << show(s)); MC_CHECK(c, w.bytes() == (s.size() + 7) / 8, "byte count of " << s.size() << " bits is " << w.bytes()); }
static void relations(Ctx& c, BinaryWord const& a, BinaryWord const& b, S const& s, S const& t) {
    MC_CHECK(c, (a < b) == before(s, t), show(s) << " < " << show(t) << " is " << (a < b)); MC_CHECK(c, (b < a) == before(t, s), show(t) << " < " << show(s) << " is " << (b < a)); MC_CHECK(c, (a == b) == (s == t), show(s) << " == " << show(t));
    MC_CHECK(c, a.is_prefix(b) == (t.compare(0, s.size(), s) == 0 && s.size() <= t.size()), show(s) << " is_prefix " << show(t) << " is " << a.is_prefix(b)); MC_CHECK(c, a.is_subword(b) == (t.find(s) != S::npos), show(s) << " is_subword " << show(t) << " is " << a.is_subword(b)); }
static void edits(Ctx& c, S const& s) {
    for (int x = 0; x != 2; ++x) { BinaryWord w = word(s); w.append(x == 1); same(c, w, s + (x ? "1" : "0"), "append(bit)"); if (!s.empty()) { BinaryWord v = word(s); v.set_back(x == 1); same(c, v, s.substr(0, s.size() - 1) + (x ? "1" : "0"), "set_back"); } }
    int n = (int)s.size(); std::vector<int> ks{INT_MIN, -1000000, -2, -1, 0, INT_MAX, 1000000, n - 1, n, n + 1, n / 2, n - 7, n - 8, n - 9, 8, 7, 9, 63, 64, 65, 256, -256, 65536}; if (n > 5000) ks = {INT_MIN, -1, 0, 1, 2, 9};    // erasing many bits takes quadratic time
    if (n <= 20) for (int k = 0; k <= n + 2; ++k) ks.push_back(k);
    for (int k : ks) { BinaryWord w = word(s); w.erase_prefix(k); same(c, w, k <= 0 ? s : k >= n ? S() : s.substr((size_t)k), "erase_prefix"); w.append(true); same(c, w, (k <= 0 ? s : k >= n ? S() : s.substr((size_t)k)) + "1", "append after erase_prefix"); }
    { BinaryWord w = word(s); w.append(w); same(c, w, s + s, "append(itself)"); w.append(w); same(c, w, s + s + s + s, "append(itself) again"); } { BinaryWord w = word(s); BinaryWord& r = w; BinaryWord v(w); w.append(v); v.append(w); same(c, r, s + s, "append"); same(c, v, s + s + s, "append"); }
    { BinaryWord w; same(c, w, "", "default word"); w.append(word(s)); same(c, w, s, "append to the empty word"); w.append(BinaryWord()); same(c, w, s, "append of the empty word"); } c.ops(10); }
static S nth(int len, int k) { S s; for (int i = 0; i != len; ++i) s += (k >> i) & 1 ? '1' : '0'; return s; }
MC_SCENARIO(pairs, .balance = true) { int n = c.choose(c.bound(8, 10) + 1, "length"), k = c.choose(1 << n, "word"); c.split(); S s = nth(n, k); c.op("word %s", s.c_str()); BinaryWord const a = word(s); edits(c, s); int m = c.bound(8, 10);
    for (int l = 0; l <= m; ++l) for (int j = 0; j != 1 << l; ++j) { S t = nth(l, j); BinaryWord const b = word(t); relations(c, a, b, s, t); BinaryWord w(a); w.append(b); MC_CHECK(c, bits(w) == s + t, "append of " << t << " to " << s << " gives " << bits(w)); MC_CHECK(c, bits(b) == t && bits(a) == s, "append changes its argument"); }
    relations(c, a, a, s, s); c.ops((2ull << m) * 6); c.state(mc::hash_str(s)); c.outcome((mc::u64)n); }
// A longer second word for the subword relation.
MC_SCENARIO(subwords) { int n = c.bound(11, 13), k = c.choose(1 << n, "word"); c.split(); S t = nth(n, k); BinaryWord const b = word(t); c.op("within %s", t.c_str()); for (int l = 0; l <= 6; ++l) for (int j = 0; j != 1 << l; ++j) { S s = nth(l, j); BinaryWord const a = word(s); MC_CHECK(c, a.is_subword(b) == (t.find(s) != S::npos), s << " is_subword " << t << " is " << a.is_subword(b)); } c.ops(127); c.state((mc::u64)k + 1); c.outcome((mc::u64)(k & 7)); }
// Order: strict total order (antisymmetric, transitive) on all triples of short words.
MC_SCENARIO(triples) { int n = c.bound(4, 5), total = (2 << n) - 1; int i = c.choose(total, "a"), j = c.choose(total, "b"); c.split(); auto w = [&](int x) { int l = 0; while (x >= (1 << l)) { x -= 1 << l; ++l; } return word(nth(l, x)); }; BinaryWord const a = w(i), b = w(j); c.op("pair"); MC_CHECK(c, (a < b) + (b < a) + (a == b) == 1, "not exactly one of <, >, =="); for (int k = 0; k != total; ++k) { BinaryWord const d = w(k); if (a < b && b < d) MC_CHECK(c, a < d, "not transitive: " << bits(a) << bits(b) << bits(d)); if (a.is_prefix(b) && b.is_prefix(d)) MC_CHECK(c, a.is_prefix(d), "prefix not transitive"); if (a.is_prefix(b)) MC_CHECK(c, a.is_subword(b) && !(b < a), "a prefix that is not a subword or comes later"); } c.ops((mc::u64)total * 3); c.state((mc::u64)(i * total + j + 1)); c.outcome((mc::u64)(i < j)); }
// Histories of edits on two words.
MC_SCENARIO(histories, .balance = true) { BinaryWord w[2]; S m[2]; int depth = c.bound(5, 6); for (int q = 0; q != depth; ++q) { int k = c.choose(17); if (k == 0) break; --k; int i = k / 8; k %= 8; BinaryWord& x = w[i]; S& s = m[i];
        switch (k) { case 0: c.op("w%d.append(0)", i); x.append(false); s += "0"; break; case 1: c.op("w%d.append(1)", i); x.append(true); s += "1"; break; case 2: c.op("w%d.append(w%d)", i, 1 - i); x.append(w[1 - i]); s += m[1 - i]; break; case 3: c.op("w%d.append(w%d)", i, i); x.append(x); s += S(s); break;
            case 4: c.op("w%d.erase_prefix(1)", i); x.erase_prefix(1); if (!s.empty()) s.erase(0, 1); break; case 5: c.op("w%d.erase_prefix(3)", i); x.erase_prefix(3); s.erase(0, std::min<size_t>(3, s.size())); break; case 6: { if (s.empty()) throw mc::Skip(); bool b = s.back() == '0'; c.op("w%d.set_back(%d)", i, (int)b); x.set_back(b); s.back() = b ? '1' : '0'; break; } case 7: c.op("w%d=w%d", i, 1 - i); x = w[1 - i]; s = m[1 - i]; break; }
        same(c, w[0], m[0], "w0 after the step"); same(c, w[1], m[1], "w1 after the step"); relations(c, w[0], w[1], m[0], m[1]); c.state(mc::hash_str(m[0] + "," + m[1])); } c.outcome(mc::hash_str(m[0] + "," + m[1])); }
// Histories in which nothing but the operations themselves looks at the words until the end.
MC_SCENARIO(quiet, .balance = true) { static const char* const starts[] = {"", "0110", "01101001", "100100100100100100", "0000000011111111000000001111111100000000111111110000000011111111001"}; BinaryWord w[2]; S m[2]; m[0] = starts[c.choose(5, "start")]; int how = c.choose(3, "other"); m[1] = how == 0 ? m[0] : how == 1 ? m[0] + "1" : m[0].empty() ? "0" : m[0].substr(m[0].size() / 2); for (int i = 0; i != 2; ++i) w[i] = word(m[i]); int depth = c.bound(3, 4);
    for (int q = 0; q != depth; ++q) { int k = c.choose(29); if (k == 0) break; --k; int i = k / 14; k %= 14; BinaryWord& x = w[i]; BinaryWord const& y = w[1 - i]; S& s = m[i]; S const& t = m[1 - i]; int o = 1 - i; if (q == 0) c.split();
        switch (k) { case 0: case 1: c.op("w%d.append(%d)", i, k); x.append(k == 1); s += k ? "1" : "0"; break; case 2: c.op("w%d.append(w%d)", i, o); x.append(y); s += t; break; case 3: c.op("w%d.erase_prefix(1)", i); x.erase_prefix(1); if (!s.empty()) s.erase(0, 1); break; case 4: { if (s.empty()) throw mc::Skip(); bool b = s.back() == '0'; c.op("w%d.set_back(%d)", i, (int)b); x.set_back(b); s.back() = b ? '1' : '0'; break; }
            case 5: c.op("w%d=w%d", i, o); x = y; s = t; break; case 6: { if (s.empty()) throw mc::Skip(); size_t p = s.size() / 2; c.op("w%d[%zu] flipped", i, p); x[p] = !x[p]; s[p] ^= 1; break; } case 7: c.op("w%d<w%d", i, o); MC_CHECK(c, (x < y) == before(s, t), show(s) << " < " << show(t)); break; case 8: c.op("w%d==w%d", i, o); MC_CHECK(c, (x == y) == (s == t), show(s) << " == " << show(t)); break;
            case 9: c.op("w%d.is_prefix(w%d)", i, o); MC_CHECK(c, x.is_prefix(y) == (t.compare(0, s.size(), s) == 0 && s.size() <= t.size()), show(s) << " is_prefix " << show(t)); break; case 10: c.op("w%d.is_subword(w%d)", i, o); MC_CHECK(c, x.is_subword(y) == (t.find(s) != S::npos), show(s) << " is_subword " << show(t)); break;
            case 11: c.op("w%d.bytes", i); MC_CHECK(c, x.bytes() == (s.size() + 7) / 8, "bytes of " << show(s)); break; case 12: c.op("w%d.back removed", i); if (s.empty()) throw mc::Skip(); x.pop_back(); s.pop_back(); break; default: { c.op("w%d copied", i); BinaryWord z(x); same(c, z, s, "copy"); } } }
    same(c, w[0], m[0], "w0 at the end"); same(c, w[1], m[1], "w1 at the end"); relations(c, w[0], w[1], m[0], m[1]); c.state(mc::hash_str(m[0] + "," + m[1])); }
// Long words: lengths around machine boundaries, several patterns, difference or occurrence at every interesting place.
static const int lens[] = {1, 7, 8, 9, 15, 16, 17, 23, 24, 25, 31, 32, 33, 47, 48, 63, 64, 65, 66, 100, 127, 128, 129, 191, 192, 193, 255, 256, 257, 320, 500, 511, 512, 513, 1000, 1025};
static S pattern(int kind, int n) { S s; for (int i = 0; i != n; ++i) s += kind == 0 ? '0' : kind == 1 ? '1' : kind == 2 ? "01"[i & 1] : kind == 3 ? "001"[i % 3] : kind == 4 ? (((unsigned)i * 2654435761u) >> 13 & 1 ? '1' : '0') : (i == n - 1 ? '1' : '0'); return s; }
MC_SCENARIO(long_words, .balance = true) { int n = c.pick(lens, "length") * c.bound(1, 3), kind = c.choose(6, "pattern"); c.split(); S s = pattern(kind, n); c.op("%d bits of pattern %d", n, kind); BinaryWord const a = word(s); edits(c, s); std::vector<int> at; for (int p : lens) { if (p - 1 < n) at.push_back(p - 1); } at.push_back(n - 1); at.push_back(n / 2); if (n > 1) at.push_back(n - 2);
    for (int p : at) { S t = s; t[(size_t)p] ^= 1; relations(c, a, word(t), s, t); S u = s.substr(0, (size_t)p); relations(c, word(u), a, u, s); S v = u + (s[(size_t)p] == '0' ? "1" : "0"); relations(c, word(v), a, v, s); S x = s.substr((size_t)p); relations(c, word(x), a, x, s); x[x.size() - 1] ^= 1; relations(c, word(x), a, x, s); if (x.size() > 1) { x = s.substr((size_t)p); x[0] ^= 1; relations(c, word(x), a, x, s); } S y = s + t; relations(c, a, word(y), s, y); relations(c, word(t), word(y), t, y); S z = S((size_t)p, '0') + "1" + s; relations(c, a, word(z), s, z); BinaryWord w(a); w.append(word(t)); same(c, w, s + t, "append"); c.ops(12); }
    relations(c, a, a, s, s); c.state((mc::u64)(n * 6 + kind)); c.outcome((mc::u64)kind); }
// Very long words.
MC_SCENARIO(huge, .balance = true) { static const int ls[] = {2048, 2049, 4097, 10001, 32767, 32768, 32769, 65535, 65536, 65537, 70001, 131073, 300001}; int n = c.pick(ls, "length"), kind = c.choose(6, "pattern"); c.split(); if (n > c.bound(132000, 400000)) throw mc::Skip(); S s = pattern(kind, n); c.op("%d bits of pattern %d", n, kind); BinaryWord const a = word(s); edits(c, s); bool quick = n < 3000 || kind == 4;    // a search in a periodic word takes quadratic time
    for (int k : {3, 8, 31, 33, 64, 257}) if (k < n) { BinaryWord w(a); w.erase_prefix(k); same(c, w, s.substr((size_t)k), "erase_prefix"); MC_CHECK(c, a.is_prefix(a) && word(s.substr(0, (size_t)k)).is_prefix(a), "a beginning of the word is not a prefix"); c.ops(3); }
    for (int p : {0, 1, 63, 64, n / 2, 32767, 32768, 65535, 65536, n - 2, n - 1}) if (p < n) { S t = s; t[(size_t)p] ^= 1; BinaryWord const b = word(t); MC_CHECK(c, (a < b) == before(s, t) && (b < a) == before(t, s) && !(a == b), "order of words that differ in bit " << p); MC_CHECK(c, !a.is_prefix(b) && !b.is_prefix(a) && (!quick || !a.is_subword(b)), "a word of the same length and another bit " << p << " counts as prefix or part");
        S u = s.substr(0, (size_t)p); BinaryWord const d = word(u); MC_CHECK(c, d.is_prefix(a) && !a.is_prefix(d) && d.is_subword(a) && (!quick || !a.is_subword(d)) && d < a && !(a < d), "the first " << p << " bits"); S v = u + (s[(size_t)p] == '0' ? "1" : "0"); MC_CHECK(c, !word(v).is_prefix(a), "the first " << p << " bits and another one"); BinaryWord w(a); w.append(b); same(c, w, s + t, "append"); c.ops(10); }
    for (int p : {1, 8, 64, n / 2, n - 1}) { S x = s.substr((size_t)p, 40); MC_CHECK(c, word(x).is_subword(a), "40 bits from " << p << " are no part"); S y = s + x; MC_CHECK(c, a.is_prefix(word(y)) && a.is_subword(word(y)), "the word is no prefix of a longer one"); } if (kind < 2 || kind == 5) { S x(24, kind == 1 ? '0' : '1'); MC_CHECK(c, !word(x).is_subword(a), "a part that does not occur"); }
    relations(c, a, a, s, s); c.state((mc::u64)(n * 6 + kind)); c.outcome((mc::u64)kind); }
MC_SCENARIO(byte_counts) { int n = c.choose(c.bound(700, 5000), "bits"); c.op("bytes of %d bits", n); BinaryWord w; for (int i = 0; i != n; ++i) w.append(i & 1); MC_CHECK(c, w.bytes() == (size_t)(n / 8 + (n % 8 != 0)) && w.size() == (size_t)n, "byte count of " << n << " bits is " << w.bytes()); c.state((mc::u64)n + 1); c.outcome((mc::u64)(n % 8)); if (n < 12) { size_t big = n == 0 ? 100000 : n == 1 ? 65535 * 8 : n == 2 ? 65536 * 8 + 1 : n == 3 ? (1u << 24) + 1 : 1u << (n + 8); w.resize(big); MC_CHECK(c, w.bytes() == big / 8 + (big % 8 != 0), "byte count of " << big << " bits is " << w.bytes()); } }
MC_MAIN
