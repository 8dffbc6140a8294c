// C12: reading sequences - every text over small alphabets against an independent position parser.
#include "mc.hpp"
#include <deque>
#include <climits>
#include <alloca.h>
#include "stlio.hpp"
#include "container.hpp"
#ifndef DEEP
#define DEEP 0
#endif
using mc::Ctx; using Helper::List; using Helper::LinkedList;
typedef std::string S;
// What was in memory before the call: part of the stack is filled with a chosen byte.
__attribute__((noinline)) static void fill_stack(int byte) { volatile char* p = (volatile char*)alloca(6000); for (int i = 0; i != 6000; ++i) p[i] = (char)byte; asm volatile("" : : "r"(p) : "memory"); }
// A stream that cannot seek and holds one character at a time (like an interactive stream), one put back allowed.
struct OneChar : std::streambuf { S text; size_t next = 0; char buf[2]; OneChar(S t) : text(t) { setg(buf, buf + 1, buf + 1); }
    int_type underflow() override { if (gptr() < egptr()) return traits_type::to_int_type(*gptr()); if (next >= text.size()) return traits_type::eof(); buf[0] = next ? text[next - 1] : ' '; buf[1] = text[next++]; setg(next > 1 ? buf : buf + 1, buf + 1, buf + 2); return traits_type::to_int_type(buf[1]); }
    S rest() { S r; int ch; while ((ch = sbumpc()) != EOF) r += (char)ch; return r; } };
template<class T> struct Value { static bool get(S const& t, size_t& p, T& x) { std::istringstream is(t.substr(p)); is >> x; if (is.fail()) return false; is.clear(); long k = (long)is.tellg(); p += (size_t)k; return true; } };
static void blanks(S const& t, size_t& p) { while (p < t.size() && isspace((unsigned char)t[p])) ++p; }
// The grammar: open ( value ( sep value )* )? close.
template<class T> bool parse(S const& t, size_t& p, std::vector<T>& r, char o, char cl, char s) {
    r.clear(); blanks(t, p); if (p >= t.size() || t[p] != o) return false; ++p; blanks(t, p); if (p < t.size() && t[p] == cl) { ++p; return true; }
    for (;;) { T x{}; if (!Value<T>::get(t, p, x)) return false; r.push_back(x); blanks(t, p); if (p >= t.size()) return false; if (t[p] == cl) { ++p; return true; } if (t[p] != s) return false; ++p; } }
template<class T> struct Value<std::vector<T>> { static bool get(S const& t, size_t& p, std::vector<T>& x) { return parse<T>(t, p, x, '[', ']', ','); } };

static S show(S const& t) { S r; for (char ch : t) { if (ch == '\n') r += "\\n"; else if (ch == '\t') r += "\\t"; else r += ch; if (r.size() > 200) return r + "..."; } return "\"" + r + "\""; }
template<class Co, class T> Co prefilled() { Co v; v.push_back(T{}); v.push_back(T{}); return v; }
// Reads t into a container and compares with what the grammar says.
template<class Co, class T, class R> void read_one(Ctx& c, S const& t, std::vector<T> const& want, bool ok, size_t end, int fill, int stream, const char* what, R read) {
    Co v = prefilled<Co, T>(); int res = 2; S rest; bool failed = false; S what2;
    auto run = [&](std::istream& is) { if (stream == 2) is.exceptions(std::ios::failbit | std::ios::badbit); fill_stack(fill); try { std::istream& b = read(is, v); res = &b == &is ? 1 : 3; failed = is.fail(); } catch (std::ios_base::failure const& e) { res = 0; } catch (std::exception const& e) { what2 = e.what(); } };
    if (stream == 1) { OneChar b(t); std::istream is(&b); run(is); rest = b.rest(); } else { std::istringstream is(t); run(is); is.exceptions(std::ios::goodbit); is.clear(); rest = S(std::istreambuf_iterator<char>(is.rdbuf()), std::istreambuf_iterator<char>()); }
    MC_CHECK(c, res != 2, what << " of " << show(t) << " throws something that is not a stream failure: " << what2);
    MC_CHECK(c, res == 0 || res == 1, what << " returns another stream");
    MC_CHECK(c, (res == 1) == ok, what << " of " << show(t) << (ok ? " is rejected" : " is accepted") << " (prior memory " << fill << ")");
    if (ok) { bool eq = v.size() == want.size() && std::equal(v.begin(), v.end(), want.begin()); MC_CHECK(c, eq, what << " of " << show(t) << " yields " << v.size() << " values, expected " << want.size() << " or values differ (prior memory " << fill << ")");
        MC_CHECK(c, !failed, what << " of " << show(t) << " leaves the stream failed"); MC_CHECK(c, rest == t.substr(end), what << " of " << show(t) << " leaves " << show(rest) << " unread, expected " << show(t.substr(end))); }
    c.ops(1); }
struct Default { template<class V> std::istream& operator()(std::istream& is, V& v) const { return Helper::read_sequence(is, v); } };
struct Operator { template<class V> std::istream& operator()(std::istream& is, V& v) const { return is >> v; } };
struct Custom { char o, c, s; template<class V> std::istream& operator()(std::istream& is, V& v) const { return Helper::read_sequence(is, v, o, c, s); } };
template<class T> void text(Ctx& c, S const& t, int fill, int depth) {
    std::vector<T> want; size_t p = 0; bool ok = parse<T>(t, p, want, '[', ']', ',');
    read_one<std::vector<T>>(c, t, want, ok, p, fill, 0, "reading a vector", Operator());
    if (depth >= 1) { read_one<List<T>>(c, t, want, ok, p, fill, 1, "reading a list from an unbuffered stream", Operator()); read_one<std::list<T>>(c, t, want, ok, p, fill, 0, "reading into std::list", Default()); }
    if (depth >= 2) { read_one<LinkedList<T>>(c, t, want, ok, p, fill, 2, "reading into LinkedList, stream with exceptions", Default()); read_one<std::deque<T>>(c, t, want, ok, p, fill, 0, "reading into deque", Custom{'[', ']', ','}); read_one<std::vector<T>>(c, t, want, ok, p, fill, 1, "reading a vector, unbuffered", Default()); }
    c.state(mc::hash_str(t)); c.outcome(ok ? want.size() + 1 : 0); }
static const int fills[] = {0, '[', ']', ',', '1', 255};
template<size_t N> S texts(Ctx& c, char const (&al)[N], int longest, int open_from) {   // all texts; longer than open_from only when they start with a bracket
    int n = c.choose(longest + 1, "length"); S t; for (int i = 0; i != n; ++i) { if (i == 0 && n > open_from) { t += '['; continue; } t += al[c.choose((int)N - 1, "char")]; } c.op("read %s", show(t).c_str()); return t; }
MC_SCENARIO(int_texts) { S t = texts(c, "[],1 -x", c.bound(DEEP ? 7 : 5, DEEP ? 8 : 6), DEEP ? 5 : 3); text<int>(c, t, fills[t.size() % 6], DEEP ? 2 : 1); }
MC_SCENARIO(memory) { int f = c.choose(6, "memory"); S t = texts(c, "[],1 ", c.bound(DEEP ? 6 : 3, DEEP ? 7 : 4), DEEP ? 4 : 3); text<int>(c, t, fills[f], 2); }
MC_SCENARIO(numbers) { S t = texts(c, "[],1-0+", c.bound(DEEP ? 6 : 4, DEEP ? 7 : 6), 3); text<long>(c, t, ',', DEEP ? 1 : 0); text<unsigned>(c, t, ']', 0); }
MC_SCENARIO(double_texts) { S t = texts(c, "[],1.-e", c.bound(DEEP ? 7 : 4, DEEP ? 8 : 6), 3); text<double>(c, t, '1', DEEP ? 1 : 0); }
MC_SCENARIO(char_texts) { S t = texts(c, "[],a \t", c.bound(DEEP ? 7 : 4, DEEP ? 8 : 5), 4); text<char>(c, t, ']', 1); }
MC_SCENARIO(string_texts, .balance = true) { S t = texts(c, "[],a \n", c.bound(DEEP ? 6 : 4, DEEP ? 7 : 6), 3); text<S>(c, t, ']', 1); }
MC_SCENARIO(bool_texts) { S t = texts(c, "[],102", c.bound(DEEP ? 5 : 4, 6), 3); text<bool>(c, t, '1', 0); }
MC_SCENARIO(nested_texts, .balance = true) { S t = texts(c, "[],1 ", c.bound(DEEP ? 8 : 6, DEEP ? 9 : 7), 5); text<std::vector<int>>(c, t, ']', DEEP ? 1 : 0); }
MC_SCENARIO(nested3, .balance = true) { S t = texts(c, "[],1", c.bound(DEEP ? 8 : 6, DEEP ? 9 : 7), 4); text<std::vector<std::vector<int>>>(c, t, ']', 0); }
// Longer texts built from tokens, so that lists of several values are reached with every kind of defect.
MC_SCENARIO(token_texts, .balance = true) { static const char* al[] = {"[", "]", ",", " \t\n", "12", "-7", "2147483647", "2147483648", "x", "1.5"}; int n = c.choose(c.bound(DEEP ? 5 : 3, DEEP ? 6 : 4) + 1, "tokens"); S t = "["; for (int i = 0; i != n; ++i) t += c.pick(al, "token"); c.op("read %s", show(t).c_str()); text<int>(c, t, ',', 1); text<double>(c, t, ',', 0); }
// One defect in an otherwise good text: every position, every deletion, insertion and replacement.
MC_SCENARIO(defects, .balance = true) { static const char* good[] = {"[1,2,3]", "[ 10 , -20 ,30 ]", "[]", " [1]tail", "[[1],[2,3],[]]", "[[],[]]", "[1,2,3,4,5,6,7,8,9,10]"}; S t = c.pick(good, "text"); size_t at = (size_t)c.choose((int)t.size() + 1, "position"); int kind = c.choose(4, "kind"); static const char al[] = {'[', ']', ',', ' ', '1', '-', 'x', '\0', (char)0xff, ';', '\n'}; S u = t;
    if (kind == 0) u = t.substr(0, at); else if (kind == 1) { if (at == t.size()) throw mc::Skip(); u.erase(at, 1); } else if (kind == 2) { u.insert(at, 1, c.pick(al, "char")); } else { if (at == t.size()) throw mc::Skip(); u[at] = c.pick(al, "char"); }
    c.op("read %s", show(u).c_str()); int f = (int)(at % 6); text<int>(c, u, fills[f], 2); text<std::vector<int>>(c, u, fills[f], 1); text<double>(c, u, fills[f], 1); text<S>(c, u, fills[f], 1); }
MC_SCENARIO(delimiters, .balance = true) { static const struct { char o, c, s; } al[] = {{'(', ')', ';'}, {'{', '}', ','}, {'<', '>', ':'}, {'[', ']', ';'}, {'[', ')', ','}, {'|', '|', ','}, {'a', 'b', 'c'}, {'"', '"', '/'}, {'(', ']', ','}}; auto d = al[c.choose(9, "delimiters")]; S letters = S(1, d.o) + (d.c == d.o ? "" : S(1, d.c)) + S(1, d.s) + "1 ,]["; int n = c.choose(c.bound(DEEP ? 5 : 4, 6) + 1, "length"); S t; for (int i = 0; i != n; ++i) { if (i == 0 && n > 3) { t += d.o; continue; } t += letters[(size_t)c.choose((int)letters.size(), "char")]; } c.op("read %s", show(t).c_str());
    std::vector<int> want; size_t p = 0; bool ok = parse<int>(t, p, want, d.o, d.c, d.s); read_one<std::vector<int>>(c, t, want, ok, p, d.s, 0, "reading with delimiters", Custom{d.o, d.c, d.s}); read_one<std::list<int>>(c, t, want, ok, p, d.c, 1, "reading with delimiters, unbuffered", Custom{d.o, d.c, d.s}); c.state(mc::hash_str(t)); c.outcome(ok ? want.size() + 1 : 0);
    if (n < 4 && d.o != d.c) { std::vector<int> v; for (int i = 0; i != n; ++i) v.push_back(i * 111 - 100); std::ostringstream os; Helper::write_sequence(os, v.begin(), v.end(), d.o, d.c, d.s); read_one<std::vector<int>>(c, os.str() + t, v, true, os.str().size(), 0, 0, "reading back with delimiters", Custom{d.o, d.c, d.s}); } }
// ---- what was written is read back
template<class T> constexpr bool nested = false; template<class T> constexpr bool nested<std::vector<T>> = true;   // std containers inside std::list are not printable
template<class T> void back(Ctx& c, std::vector<T> const& v, S const& tail) {
    using Helper::operator<<; std::ostringstream os; os << v; S t = os.str() + tail; for (int stream = 0; stream != 3; ++stream) { read_one<std::vector<T>>(c, t, v, true, os.str().size(), ',', stream, "reading back a vector", Operator()); read_one<List<T>>(c, t, v, true, os.str().size(), ']', stream, "reading back a list", Operator()); read_one<LinkedList<T>>(c, t, v, true, os.str().size(), 0, stream, "reading back a linked list", Default()); }
    std::ostringstream o2; o2 << List<T>(v); if constexpr (nested<T>) o2 << v; else o2 << LinkedList<T>(std::list<T>(v.begin(), v.end())); o2 << "  " << v << "\n" << v; std::istringstream is(o2.str() + tail); for (int i = 0; i != 4; ++i) { std::vector<T> w(3); is >> w; MC_CHECK(c, w == v, "sequence " << i << " of several written ones is not read back equal"); } S r(std::istreambuf_iterator<char>(is.rdbuf()), std::istreambuf_iterator<char>()); MC_CHECK(c, r == tail, "text after several sequences"); c.ops(4); }
template<class T, size_t N> void round_trip(Ctx& c, T const (&al)[N], int len) { int n = c.choose(len + 1, "length"); std::vector<T> v; mc::u64 h = 5; for (int i = 0; i != n; ++i) { int k = c.choose((int)N, "x"); v.push_back(al[k]); h = mc::mix(h, (mc::u64)k); } c.op("write and read %d", n); back(c, v, c.flip("tail") ? " [9" : ""); c.state(h); c.outcome((mc::u64)n); }
MC_SCENARIO(trip_int, .balance = true) { static const int al[] = {0, 1, -1, INT_MIN, INT_MAX, 1000}; round_trip(c, al, c.bound(DEEP ? 4 : 3, 5)); }
MC_SCENARIO(trip_double, .balance = true) { static const double al[] = {0, 0.5, -1e300, 1e-9, 123456, -2}; round_trip(c, al, c.bound(3, 4)); }
MC_SCENARIO(trip_char, .balance = true) { static const char al[] = {'a', '0', '-', '(', 'e'}; round_trip(c, al, c.bound(3, 5)); }
MC_SCENARIO(trip_nested, .balance = true) { static const std::vector<int> al[] = {{}, {0}, {-1, 2}, {3, 4, 5}}; round_trip(c, al, c.bound(3, 5)); static const std::vector<std::vector<int>> a2[] = {{}, {{}}, {{}, {1}}, {{2, 3}, {}}}; round_trip(c, a2, 2); }
MC_SCENARIO(large, .balance = true) { static const int ns[] = {5, 6, 7, 8, 9, 10, 11, 15, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 500, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 2048, 4096, 5000, 10000}; int n = c.pick(ns, "n"), shape = c.choose(5, "shape"); c.split(); c.op("%d elements, shape %d", n, shape); std::vector<int> v; for (int i = 0; i != n; ++i) v.push_back(shape == 0 ? i : shape == 1 ? -i * 1000 : shape == 2 ? 0 : (int)((unsigned)i * 2654435761u)); if (shape < 4) back(c, v, shape == 3 ? "," : "");
    else { S sp((size_t)n, ' '); S t = sp + "[" + sp + "1" + sp + "," + sp + "2" + sp + "]" + sp; text<int>(c, t, ']', 1); text<int>(c, t.substr(0, t.size() - 1 - (size_t)n), ']', 1); std::vector<std::vector<int>> w((size_t)n / 3, std::vector<int>{1, 2}); back(c, w, "]"); std::vector<std::vector<int>> w1(2, v); back(c, w1, ""); S cut; for (int i = 0; i != n; ++i) cut += i ? ",7" : "[7"; text<int>(c, cut, ']', 1); text<int>(c, cut + ",", ',', 1); text<int>(c, cut + ",]", ',', 1); text<int>(c, cut + ";8]", ',', 1); text<int>(c, cut + "]]", ',', 1); }
    c.state((mc::u64)(n * 5 + shape + 1)); c.outcome((mc::u64)n); }
MC_MAIN
