// C14: text output and input of binary words; every text over small alphabets; chosen prior memory.
#include "mc.hpp"
#include <iomanip>
#include <locale>
#include <alloca.h>
#include "string.hpp"
#include "binary_word.hpp"
#ifndef DEEP
#define DEEP 0
#endif
using mc::Ctx; using Helper::BinaryWord; typedef std::string S;
__attribute__((noinline)) static void fill_stack(int byte) { volatile char* p = (volatile char*)alloca(6000); for (int i = 0; i != 6000; ++i) p[i] = (char)byte; asm volatile("" : : "r"(p) : "memory"); }
static const int fills[] = {0, '0', '1', 'e', '[', ']', ',', ' ', 255};
static BinaryWord word(S const& s) { BinaryWord w; for (char ch : s) w.push_back(ch == '1'); return w; }
static S bits(BinaryWord const& w) { S s; for (size_t i = 0; i != w.size(); ++i) s += w[i] ? '1' : '0'; return s; }
static S show(S const& t) { S r; for (char ch : t) { if (ch == '\n') r += "\\n"; else if (ch == '\t') r += "\\t"; else r += ch; if (r.size() > 120) return r + "..."; } return "\"" + r + "\""; }
static S plain(S const& s) { return s.empty() ? "e" : s; }
static S bracketed(S const& s, int style) { S r = "["; for (size_t i = 0; i != s.size(); ++i) { if (i) r += style == 1 ? ", " : style == 2 ? " ,\n" : ","; if (style == 2) r += " "; r += s[i]; } return r + (style == 2 ? " ]" : "]"); }
struct OneChar : std::streambuf { S text; size_t next = 0; char buf[2]; OneChar(S t) : text(t) { setg(buf, buf + 1, buf + 1); }
    int_type underflow() override { if (gptr() < egptr()) return traits_type::to_int_type(*gptr()); if (next >= text.size()) return traits_type::eof(); buf[0] = next ? text[next - 1] : ' '; buf[1] = text[next++]; setg(next > 1 ? buf : buf + 1, buf + 1, buf + 2); return traits_type::to_int_type(buf[1]); } };
struct Result { int how; S word, rest; };    // how: 0 fine, 1 stream failed, 2 stream failure thrown, 3 other exception
static Result read(S const& t, int fill, int stream) {
    BinaryWord w = word("1011"); Result r{0, "", ""}; auto run = [&](std::istream& is) { fill_stack(fill); try { is >> w; r.how = is.fail() ? 1 : 0; } catch (std::ios_base::failure const&) { r.how = 2; } catch (std::exception const&) { r.how = 3; } is.exceptions(std::ios::goodbit); is.clear(); r.rest = S(std::istreambuf_iterator<char>(is.rdbuf()), std::istreambuf_iterator<char>()); };
    if (stream == 1) { OneChar b(t); std::istream is(&b); run(is); } else { std::istringstream is(t); if (stream == 2) is.exceptions(std::ios::failbit | std::ios::badbit); run(is); } r.word = bits(w); return r; }
// What a text must be read as: 1 and the word and the end of it, or 0 when the text does not start with a word.
static int expected(S const& t, S& w, size_t& end) {
    size_t p = 0; w.clear(); auto blank = [&] { while (p < t.size() && isspace((unsigned char)t[p])) ++p; }; blank(); if (p == t.size()) return 0;
    if (t[p] == 'e') { end = p + 1; return 1; } if (t[p] == '0' || t[p] == '1') { while (p < t.size() && (t[p] == '0' || t[p] == '1')) w += t[p++]; end = p; return 1; } if (t[p] != '[') return 0;
    ++p; blank(); if (p < t.size() && t[p] == ']') { end = p + 1; return 1; }
    for (;;) { std::istringstream is(t.substr(p)); bool x; is >> x; if (is.fail()) return 0; is.clear(); p += (size_t)is.tellg(); w += x ? '1' : '0'; blank(); if (p >= t.size()) return 0; if (t[p] == ']') { end = p + 1; return 1; } if (t[p] != ',') return 0; ++p; } }
static void text(Ctx& c, S const& t, int nfill) {
    S w; size_t end = 0; int good = expected(t, w, end); bool none = true; for (char ch : t) none = none && isspace((unsigned char)ch);
    for (int stream = 0; stream != 3; ++stream) { Result first{}; if (!good && stream == 2) break;
        for (int f = 0; f != nfill; ++f) { int fill = fills[f]; Result r = read(t, fill, stream);
            if (good) { MC_CHECK(c, r.how == 0, "reading " << show(t) << (r.how == 1 ? " leaves the stream failed" : " throws") << " (prior memory " << fill << ", stream " << stream << ")"); MC_CHECK(c, r.word == w, "reading " << show(t) << " gives " << show(r.word) << " expected " << show(w) << " (prior memory " << fill << ")"); MC_CHECK(c, r.rest == t.substr(end), "reading " << show(t) << " leaves " << show(r.rest) << " unread, expected " << show(t.substr(end))); }
            if (none) MC_CHECK(c, r.word.empty(), "reading blank text " << show(t) << " gives " << r.word << " (prior memory " << fill << ")");
            if (f == 0) first = r; else MC_CHECK(c, r.how == first.how && r.word == first.word && r.rest == first.rest, "reading " << show(t) << " depends on the prior memory: " << show(r.word) << " with " << fill << ", " << show(first.word) << " with " << fills[0]); c.ops(1); } }
    // construction from the text
    int how = 0; S made; for (int f = 0; f != nfill; ++f) { int h = 0; S m; fill_stack(fills[f]); try { BinaryWord v = Helper::make_binary_word(t); m = bits(v); } catch (std::ios_base::failure const&) { h = 2; } int h2 = 0; S m2; fill_stack(fills[f]); try { BinaryWord v(t); m2 = bits(v); } catch (std::ios_base::failure const&) { h2 = 2; }
        if (good) MC_CHECK(c, h == 0 && h2 == 0 && m == w && m2 == w, "constructing from " << show(t) << " gives " << show(m) << " and " << show(m2) << " expected " << show(w)); if (none) MC_CHECK(c, m.empty() && m2.empty() && !h && !h2, "constructing from blank text " << show(t) << " gives " << show(m) << " and " << show(m2) << " (prior memory " << fills[f] << ")");
        if (f == 0) { how = h; made = m; } MC_CHECK(c, h == how && m == made && h2 == how && m2 == made, "constructing from " << show(t) << " depends on the prior memory (" << fills[f] << ")"); c.ops(2); }
    c.state(mc::hash_str(t)); c.outcome(good ? mc::hash_str(w) : 0); }
template<size_t N> S texts(Ctx& c, char const (&al)[N], int longest) { int n = c.choose(longest + 1, "length"); S t; for (int i = 0; i != n; ++i) t += al[c.choose((int)N - 1, "char")]; c.op("read %s", show(t).c_str()); return t; }
MC_SCENARIO(all_texts, .balance = true) { S t = texts(c, "01e[], x", c.bound(DEEP ? 5 : 3, DEEP ? 6 : 4)); text(c, t, DEEP ? 9 : 3); }
MC_SCENARIO(bracket_texts, .balance = true) { S t = "["; t += texts(c, "01], 2", c.bound(DEEP ? 5 : 3, DEEP ? 7 : 5)); text(c, t, DEEP ? 4 : 2); }
MC_SCENARIO(plain_texts, .balance = true) { S t = texts(c, "01 e\n", c.bound(DEEP ? 6 : 4, DEEP ? 8 : 6)); text(c, t, 3); }
// Output with every stream setting, then input.
struct Grouping : std::numpunct<char> { char do_thousands_sep() const override { return '\''; } std::string do_grouping() const override { return "\1"; } std::string do_truename() const override { return "ja"; } };
static void settings(std::ostream& os, int k) { switch (k) { case 0: break; case 1: os << std::hex << std::showbase << std::uppercase; break; case 2: os << std::boolalpha << std::fixed << std::setprecision(3) << std::setfill('*'); break; case 3: os << std::oct << std::left << std::showpos << std::unitbuf; break; case 4: os.imbue(std::locale(std::locale::classic(), new Grouping)); os << std::boolalpha << std::internal; break; case 5: os << std::scientific << std::showpoint << std::setfill('0') << std::right; break; } }
static void written(Ctx& c, S const& s, int k) {
    BinaryWord const w = word(s); std::ostringstream os; settings(os, k); std::ios like(nullptr); like.copyfmt(os); std::ostream& back = (os << w); MC_CHECK(c, os.str() == plain(s) && &back == &os, "writing " << show(s) << " gives " << show(os.str()));
    MC_CHECK(c, os.flags() == like.flags() && os.precision() == like.precision() && os.fill() == like.fill() && os.width() == 0 && os.getloc() == like.getloc() && os.good(), "writing a word changes the settings of the stream"); os << ' ' << w << w << true; std::ostringstream o2; settings(o2, k); o2 << true; MC_CHECK(c, os.str() == plain(s) + " " + plain(s) + plain(s) + o2.str(), "writing words one after another gives " << show(os.str())); MC_CHECK(c, bits(w) == s, "writing changes the word"); MC_CHECK(c, Helper::to_string(w) == plain(s), "conversion to a string"); c.ops(4); }
MC_SCENARIO(words, .balance = true) { int n = c.choose(c.bound(DEEP ? 9 : 6, DEEP ? 11 : 8) + 1, "length"); S s; for (int i = 0; i != n; ++i) s += (char)('0' + c.choose(2, "bit")); c.op("word %s", s.c_str()); for (int k = 0; k != 6; ++k) written(c, s, k); static const char* tails[] = {"", " ", "x", ",", "]", "2", "e", "\n1", " e", "[0]", "-"}; for (auto tail : tails) { if (!(s.empty() && tail[0] == 'e') ) text(c, plain(s) + tail, 1); for (int st = 0; st != 3; ++st) text(c, bracketed(s, st) + tail, 1); } text(c, "  \t" + plain(s), 3); text(c, "\n " + bracketed(s, 2), 3); c.state(mc::hash_str(s) + 1); }
// Sequences of words written with blanks and read back, into the same and into fresh words.
MC_SCENARIO(sequences, .balance = true) { static const char* al[] = {"", "0", "1", "01", "110", "0000000011111111", "111111111111111111111111111111111"}; int n = c.choose(c.bound(DEEP ? 4 : 3, 5) + 1, "count"); std::vector<S> v; S all; for (int i = 0; i != n; ++i) { v.push_back(al[c.choose(7, "word")]); all += v.back() + "."; } int style = c.choose(5, "style"), stream = c.choose(3, "stream"); c.op("sequence %s style %d", all.c_str(), style); std::ostringstream os; std::vector<BinaryWord> ws; for (auto& s : v) ws.push_back(word(s)); for (int i = 0; i != n; ++i) { if (style == 4 && i % 2) os << bracketed(v[(size_t)i], i & 3); else os << ws[(size_t)i]; os << (style == 0 ? " " : style == 1 ? (i + 1 < n ? "\n" : "") : style == 2 ? "\t  " : (i + 1 < n ? " " : "")); }
    S t = os.str(); auto run = [&](std::istream& is) { BinaryWord r = word("111"); for (int i = 0; i != n; ++i) { fill_stack(fills[(i + n) % 9]); BinaryWord fresh; BinaryWord& w = style == 3 ? fresh : r; is >> w; MC_CHECK(c, !is.fail() && bits(w) == v[(size_t)i], "word " << i << " of " << show(t) << " is read as " << show(bits(w)) << (is.fail() ? " and the stream fails" : "")); c.ops(1); } };
    if (stream == 1) { OneChar b(t); std::istream is(&b); run(is); } else { std::istringstream is(t); if (stream == 2) is.exceptions(std::ios::failbit | std::ios::badbit); run(is); } c.state(mc::hash_str(t)); c.outcome(mc::hash_str(all));
    // the loop that reads until the words run out
    if (style <= 1 && n && stream == 0) { std::istringstream is(os.str()); int k = 0; BinaryWord w; while (k < n && is >> w) { MC_CHECK(c, bits(w) == v[(size_t)k], "word " << k << " of a loop over " << show(os.str()) << " is " << show(bits(w))); ++k; } MC_CHECK(c, k == n, "a loop reads " << k << " of " << n << " words of " << show(os.str())); } }
MC_SCENARIO(long_words, .balance = true) { static const int ns[] = {7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 4097, 10000}; int n = c.pick(ns, "length"), kind = c.choose(4, "pattern"); c.split(); S s; for (int i = 0; i != n; ++i) s += kind == 0 ? '0' : kind == 1 ? '1' : kind == 2 ? "01"[i & 1] : (((unsigned)i * 2654435761u) >> 13 & 1 ? '1' : '0'); c.op("%d bits, pattern %d", n, kind); for (int k = 0; k != 3; ++k) written(c, s, k); text(c, s, 2); text(c, s + " 0", 2); text(c, s + "x", 2); for (int st = 0; st != 3; ++st) text(c, bracketed(s, st) + s, 2); text(c, S((size_t)n, ' ') + s, 2); c.state((mc::u64)(n * 4 + kind)); c.outcome((mc::u64)n); }
MC_MAIN
