// C11: text output of containers, tuples, ranges and self-writing objects, against an independent printer.
#include "mc.hpp"
#include <forward_list>
#include <deque>
#include <iomanip>
#include <locale>
#include "writable.hpp"
#include "container.hpp"
#include "handle.hpp"
#include "string.hpp"
using mc::Ctx; using Helper::Array; using Helper::SharedArray; using Helper::List; using Helper::LinkedList; using Helper::Set; using Helper::Map;
typedef std::vector<int> V; typedef std::string S;
struct Boom { };
// An element that counts how often it is written, may fail, may change the settings while it writes (and puts
// them back), and may itself write a container while it is being written.
static long writes[8]; static int bad = -1;
struct El { int k; El(int k = 0) : k(k) { } bool operator<(El const& o) const { return k < o.k; } bool operator==(El const& o) const { return k == o.k; }
    friend std::ostream& operator<<(std::ostream& os, El const& e) { if (e.k == bad) throw Boom(); ++writes[e.k & 7]; return os << "<" << e.k << ">"; } };
struct Deep { int k; Deep(int k = 0) : k(k) { } bool operator<(Deep const& o) const { return k < o.k; } bool operator==(Deep const& o) const { return k == o.k; } };
static std::ostream& operator<<(std::ostream& os, Deep const& e) { using Helper::operator<<; if (e.k <= 0) return os << "leaf";
    std::vector<Deep> v((size_t)e.k, Deep(e.k - 1)); std::set<Deep> s; s.insert(Deep(e.k - 1)); std::map<int, Deep> m; m[e.k] = Deep(e.k - 1); os << v << s << m << Array<Deep>(v.begin(), v.end()); return os << Helper::to_string(e.k); }
struct Grouping : std::numpunct<char> { char do_thousands_sep() const override { return '\''; } std::string do_grouping() const override { return "\1"; } std::string do_truename() const override { return "ja"; } };
static void settings(std::ostream& os, int k) {
    switch (k) { case 0: break; case 1: os << std::hex << std::showbase << std::uppercase << std::setprecision(2); break; case 2: os << std::boolalpha << std::fixed << std::setprecision(3) << std::setfill('*'); break;
        case 3: os << std::oct << std::scientific << std::setprecision(1) << std::left << std::showpos; break; case 4: os.imbue(std::locale(std::locale::classic(), new Grouping)); os << std::boolalpha; break; case 5: os << std::unitbuf << std::internal << std::setfill('0') << std::showpoint; break; } }
enum { SETTINGS = 6 };
// ---- independent printer
template<class T> S one(T const& t, std::ostream const& like) { std::ostringstream os; os.copyfmt(like); os.width(0); os.exceptions(std::ios::goodbit); os << t; return os.str(); }
static S join(std::vector<S> const& e, S open, S close, S sep) { S r = open; for (size_t i = 0; i != e.size(); ++i) { r += e[i]; if (i + 1 != e.size()) r += sep; } return r + close; }
template<class L> std::vector<S> each(L const& l, std::ostream const& like) { std::vector<S> r; for (auto i = l.begin(); i != l.end(); ++i) { typename L::value_type x = *i; r.push_back(one(x, like)); } return r; }
// ---- writing to a stream with chosen settings and comparing text and settings
struct Out : std::ostringstream { std::ios before; Out(int k) : before(nullptr) { settings(*this, k); before.copyfmt(*this); }
    void same(Ctx& c, S const& want, const char* what) { S got = this->str(); MC_CHECK(c, got == want, what << " is written as \"" << got.substr(0, 300) << "\", expected \"" << want.substr(0, 300) << "\"");
        MC_CHECK(c, this->flags() == before.flags() && this->precision() == before.precision() && this->fill() == before.fill() && this->width() == 0 && this->getloc() == before.getloc() && this->tie() == before.tie() && this->exceptions() == before.exceptions(), what << ": writing changed the settings of the stream");
        MC_CHECK(c, this->good(), what << ": the stream is not good afterwards"); } };
#define WRITES(expr, want) do { using Helper::operator<<; Out os(k); S mc_want = (want); std::ostream& back = (os << expr); os.same(c, mc_want, #expr); MC_CHECK(c, &back == &os, #expr << ": the result is not the stream"); \
    os << (expr) << '|' << (expr); os.same(c, mc_want + mc_want + "|" + mc_want, #expr); if (k == 0) { MC_CHECK(c, Helper::to_string(expr) == mc_want && Helper::to_str(expr) == mc_want, #expr << " converts to \"" << Helper::to_string(expr) << "\", expected \"" << mc_want << "\""); } } while (0)
#define CALLS(expr, want) do { Out os(k); S mc_want = (want); std::ostream& back = (expr); os.same(c, mc_want, #expr); MC_CHECK(c, &back == &os, #expr << ": the result is not the stream"); } while (0)
template<class T> T make(int k) { return T(k); }
template<> S make<S>(int k) { return k == 0 ? S() : k == 1 ? S(",\0y\0", 4) : k == 2 ? S("a b]") : S(40, 'z'); }
template<> char make<char>(int k) { return ",[\0 "[k & 3]; }
template<> double make<double>(int k) { return k * 1234.5678 - 0.25; }
template<> int make<int>(int k) { return k < 4 ? k * 1001 - 1000 : k; }
template<class T> struct Coef { int i; T x; int index() const { return i; } T const& coefficient() const { return x; } };

template<class T> void containers(Ctx& c, V const& a, int k) {
    std::vector<T> const v = [&] { std::vector<T> w; for (int x : a) w.push_back(make<T>(x)); return w; }(); Out like(k);
    std::vector<S> e = each(v, like); S seq = join(e, "[", "]", ",");
    List<T> const l(v); Array<T> const r(v.begin(), v.end()); SharedArray<T> const h(v.size()); { SharedArray<T> g(h); for (size_t i = 0; i != v.size(); ++i) g[i] = v[i]; } std::list<T> const sl(v.begin(), v.end()); LinkedList<T> const k1(sl); std::set<T> const ss(v.begin(), v.end()); Set<T> const s(v.begin(), v.end());
    std::map<int, T> m; std::map<T, int> q; for (size_t i = 0; i != v.size(); ++i) { m[(int)(i * 5 % 7)] = v[i]; q[v[i]] = (int)i; } Map<int, T> const m1(m); Map<T, int> const q1(q);
    WRITES(v, seq); WRITES(l, seq); WRITES(r, seq); WRITES(h, seq); WRITES(sl, seq); WRITES(k1, seq);
    S st = join(each(ss, like), "{", "}", ","); WRITES(ss, st); WRITES(s, st);
    auto entries = [&](auto const& mm) { std::vector<S> t; for (auto& x : mm) t.push_back(one(x.first, like) + ":" + one(x.second, like)); return t; };
    auto mapped = [&](auto const& mm) { return mm.empty() ? S("{ }") : join(entries(mm), "{ ", " }", ", "); };
    WRITES(m, mapped(m)); WRITES(m1, mapped(m)); WRITES(q, mapped(q)); WRITES(q1, mapped(q));
    std::vector<std::shared_ptr<T>> p; for (auto const& x : v) p.push_back(std::make_shared<T>(x)); std::map<int, std::shared_ptr<T>> mp; for (auto& x : m) mp[x.first] = std::make_shared<T>(x.second); std::vector<Coef<T>> cf; for (size_t i = 0; i != v.size(); ++i) cf.push_back({(int)i * 3, v[i]}); std::forward_list<T> fl(v.begin(), v.end());
    std::vector<S> ce; for (auto& x : cf) ce.push_back(one(x.i, like) + ":" + one(x.x, like));
    CALLS(Helper::write_sequence(os, v.begin(), v.end()), seq); CALLS(Helper::write_sequence(os, v.rbegin(), v.rend()), join(std::vector<S>(e.rbegin(), e.rend()), "[", "]", ",")); CALLS(Helper::write_sequence(os, fl.begin(), fl.end()), seq); CALLS(Helper::write_sequence(os, v.data(), v.data() + v.size()), seq); CALLS(Helper::write_sequence(os, s.begin(), s.end()), join(each(ss, like), "[", "]", ","));
    CALLS(Helper::write_pointer_sequence(os, p.begin(), p.end()), seq); CALLS(Helper::write_map_sequence(os, m.begin(), m.end()), join(entries(m), "{", "}", ",")); CALLS(Helper::write_map_pointer_sequence(os, mp.begin(), mp.end()), join(entries(m), "{", "}", ",")); CALLS(Helper::write_coefficient_map_sequence(os, cf.begin(), cf.end()), join(ce, "{", "}", ","));
    for (size_t i = 0; i <= v.size(); ++i) { CALLS(Helper::write_sequence(os, v.begin() + (long)i, v.end()), join(std::vector<S>(e.begin() + (long)i, e.end()), "[", "]", ",")); CALLS(Helper::write_sequence(os, v.begin(), v.begin() + (long)i, '(', ')', ';'), join(std::vector<S>(e.begin(), e.begin() + (long)i), "(", ")", ";")); if (i > 4) break; }
    for (size_t i = 0; i != v.size(); ++i) { MC_CHECK(c, r[i] == v[i] && l[i] == v[i] && h[i] == v[i], "writing changed element " << i); } MC_CHECK(c, sl.size() == v.size() && std::equal(sl.begin(), sl.end(), v.begin()) && std::equal(k1.begin(), k1.end(), v.begin()) && l == v && m1 == m && q1 == q && ss == s, "writing changed a container");
    c.ops(30); }
template<> void containers<bool>(Ctx& c, V const& a, int k) { std::vector<bool> v; for (int x : a) v.push_back(x & 1); Out like(k); S seq = join(each(v, like), "[", "]", ","); WRITES(v, seq); Array<bool> r(v.begin(), v.end()); WRITES(r, seq); c.ops(2); }
static V word(Ctx& c, int len, int letters) { int n = c.choose(len + 1, "length"); V a; for (int i = 0; i != n; ++i) a.push_back(c.choose(letters, "x")); return a; }
static void record(Ctx& c, V const& a, int k) { mc::u64 h = (mc::u64)k; for (int x : a) h = mc::mix(h, (mc::u64)x + 1); c.state(h); c.outcome(a.size()); }
template<class T> void words(Ctx& c, int q, int t) { int k = c.choose(SETTINGS, "settings"); V a = word(c, c.bound(q, t), 4); c.op("write"); containers<T>(c, a, k); record(c, a, k); }
MC_SCENARIO(ints, .balance = true) { words<int>(c, 5, 6); }
MC_SCENARIO(doubles) { words<double>(c, 4, 5); }
MC_SCENARIO(strings, .balance = true) { words<S>(c, 4, 5); }
MC_SCENARIO(chars) { words<char>(c, 4, 5); }
MC_SCENARIO(bools) { words<bool>(c, 5, 7); }
MC_SCENARIO(elements, .balance = true) { words<El>(c, 4, 5); }
MC_SCENARIO(nested) { int k = c.choose(SETTINGS, "settings"); V a = word(c, c.bound(3, 5), 3); int m = c.choose(3, "m"); c.op("nested"); Out like(k);
    std::vector<List<int>> v; for (int x : a) v.push_back(List<int>(std::vector<int>((size_t)x, 1000 + m))); std::vector<S> e; for (auto& l : v) e.push_back(join(each(l, like), "[", "]", ","));
    Array<List<int>> r(v.begin(), v.end()); List<List<int>> l(v); std::list<List<int>> sl(v.begin(), v.end()); S seq = join(e, "[", "]", ","); WRITES(v, seq); WRITES(r, seq); WRITES(l, seq); WRITES(sl, seq);
    std::map<int, std::vector<List<int>>> mm; for (int i = 0; i != m; ++i) mm[10 * i] = v; std::vector<S> me; for (auto& x : mm) me.push_back(one(x.first, like) + ":" + seq); WRITES(mm, mm.empty() ? S("{ }") : join(me, "{ ", " }", ", ")); std::map<std::vector<List<int>>, Set<int>> m2; m2[v] = Set<int>(a.begin(), a.end()); S st = join(each(Set<int>(a.begin(), a.end()), like), "{", "}", ","); WRITES(m2, "{ " + seq + ":" + st + " }");
    auto pr = std::make_pair(v, Set<int>(a.begin(), a.end())); WRITES(pr, "(" + seq + "," + st + ")"); auto tp = std::make_tuple(v, pr, 5, Set<int>()); WRITES(tp, "(" + seq + ",(" + seq + "," + st + ")," + one(5, like) + ",{})"); std::vector<decltype(pr)> vp((size_t)m, pr); std::vector<S> pe((size_t)m, "(" + seq + "," + st + ")"); WRITES(vp, join(pe, "[", "]", ",")); Set<Set<int>> sets; std::vector<S> se; for (auto& x : a) sets.insert(Set<int>({x, 7})); for (auto& x : sets) se.push_back(join(each(x, like), "{", "}", ",")); WRITES(sets, join(se, "{", "}", ",")); Array<Array<double>> ad(3, Array<double>((size_t)m, 0.5)); S h = one(0.5, like); S inner = join(std::vector<S>((size_t)m, h), "[", "]", ","); WRITES(ad, "[" + inner + "," + inner + "," + inner + "]"); c.ops(12); record(c, a, k * 3 + m); }
template<class... TS> void tuple(Ctx& c, int k, TS const&... ts) { Out like(k); std::vector<S> e{one(ts, like)...}; std::tuple<TS...> t(ts...); S w = join(e, "(", ")", ","); WRITES(t, w); WRITES(std::tie(ts...), w); std::tuple<std::tuple<TS...>, int> n(t, 4); WRITES(n, "(" + w + "," + one(4, like) + ")"); std::vector<std::tuple<TS...>> v(3, t); WRITES(v, "[" + w + "," + w + "," + w + "]"); c.ops(4); }
MC_SCENARIO(tuples) { int k = c.choose(SETTINGS, "settings"); int x = c.choose(4, "x"), y = c.choose(4, "y"), z = c.choose(3, "z"); c.op("tuples"); Out like(k); int a = make<int>(x), b = make<int>(y); S s = make<S>(z); double d = make<double>(x); char ch = make<char>(y);
    auto p = std::make_pair(a, s); WRITES(p, "(" + one(a, like) + "," + s + ")"); std::pair<int const&, char> rp(a, ch); WRITES(rp, "(" + one(a, like) + "," + S(1, ch) + ")"); auto pp = std::make_pair(p, std::make_pair(d, El(y))); WRITES(pp, "((" + one(a, like) + "," + s + "),(" + one(d, like) + "," + one(El(y), like) + "))");
    tuple(c, k); tuple(c, k, a); tuple(c, k, s); tuple(c, k, a, b); tuple(c, k, s, d, a); tuple(c, k, ch, El(x), El(y), b); tuple(c, k, a, b, a, s, d); tuple(c, k, a, b, d, s, El(x), ch); tuple(c, k, 1, 2, 3, 4, 5, 6, 7); tuple(c, k, 1, 2, 3, 4, 5, 6, 7, El(z)); tuple(c, k, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, a, b, d, El(z)); record(c, {x, y, z}, k); }
MC_SCENARIO(delimiters) { static const char al[] = {'[', ',', ' ', ';', '\0', '\n', 'x', '"'}; char o = c.pick(al, "open"), cl = c.pick(al, "close"), s = c.pick(al, "sep"), d = c.bound(1, 0) ? (char)(c.choose(2, "desc") ? '=' : '\0') : c.pick(al, "desc"); int n = c.choose(5, "n"), k = 0; c.op("%d elements", n);
    std::vector<El> v; std::map<int, El> m; std::map<int, El*> mp; std::vector<El*> p; std::vector<Coef<El>> cf; std::vector<S> e, em; for (int i = 0; i != n; ++i) v.push_back(El(i)); for (int i = 0; i != n; ++i) { m[i * 2] = El(i); mp[i * 2] = &v[(size_t)i]; p.push_back(&v[(size_t)i]); cf.push_back({i * 2, El(i)}); e.push_back("<" + std::to_string(i) + ">"); em.push_back(std::to_string(2 * i) + S(1, d) + e.back()); }
    S a = join(e, S(1, o), S(1, cl), S(1, s)), b = join(em, S(1, o), S(1, cl), S(1, s)); CALLS(Helper::write_sequence(os, v.begin(), v.end(), o, cl, s), a); CALLS(Helper::write_pointer_sequence(os, p.begin(), p.end(), o, cl, s), a); CALLS(Helper::write_map_sequence(os, m.begin(), m.end(), o, cl, s, d), b); CALLS(Helper::write_map_pointer_sequence(os, mp.begin(), mp.end(), o, cl, s, d), b); CALLS(Helper::write_coefficient_map_sequence(os, cf.begin(), cf.end(), o, cl, s, d), b);
    CALLS(Helper::write_sequence(os, v.begin(), v.end(), o), join(e, S(1, o), "]", ",")); CALLS(Helper::write_sequence(os, v.begin(), v.end(), o, cl), join(e, S(1, o), S(1, cl), ",")); c.ops(7); c.state(mc::hash_str(a + b)); c.outcome((mc::u64)n); }
// Every element is written once in each writing, also when an element fails to be written part-way.
template<class C> void count(Ctx& c, C const& x, int n, const char* what, int fail) {
    using Helper::operator<<; bad = fail; std::fill(writes, writes + 8, 0); bool boom = false; std::ostringstream os; os << std::hex; os.exceptions(std::ios::badbit); try { os << x; } catch (Boom const&) { boom = true; } catch (std::ios_base::failure const&) { boom = true; } bool refused = os.bad() || boom; MC_CHECK(c, refused == (fail >= 0 && fail < n), what << ": failure of element " << fail << " of " << n << (refused ? " reported" : " not reported"));
    if (fail < 0 || fail >= n) for (int i = 0; i != n; ++i) MC_CHECK(c, writes[i] == 1, what << ": element " << i << " was written " << writes[i] << " times"); MC_CHECK(c, (os.flags() & std::ios::basefield) == std::ios::hex, what << ": settings changed");
    bad = -1; std::fill(writes, writes + 8, 0); std::ostringstream o2; o2 << x; MC_CHECK(c, o2.str().find("<") != S::npos || n == 0, what << ": nothing written"); for (int i = 0; i != n; ++i) MC_CHECK(c, writes[i] == 1, what << ": element " << i << " was written " << writes[i] << " times after a failure"); c.ops(2); }
template<class C> void text_after(Ctx& c, C const& x, S const& want, const char* what) { using Helper::operator<<; std::ostringstream os; os << x; MC_CHECK(c, os.str() == want, what << " is written as " << os.str() << " expected " << want); S t = Helper::to_string(x); MC_CHECK(c, t == want, what << " converts to " << t << " expected " << want); }
MC_SCENARIO(failing, .balance = true) { int n = c.choose(8, "n"), f = c.choose(n + 1, "failing") - 1, which = c.choose(8, "container"); c.op("container %d of %d elements, element %d fails", which, n, f); std::vector<El> v; for (int i = 0; i != n; ++i) v.push_back(El(i)); std::map<int, El> m; for (auto& x : v) m[x.k] = x; std::vector<S> e, em; for (auto& x : v) { e.push_back("<" + std::to_string(x.k) + ">"); em.push_back(std::to_string(x.k) + ":" + e.back()); }
    auto go = [&](auto const& x, S const& want, const char* what) { count(c, x, n, what, f); text_after(c, x, want, what); bad = f; try { Helper::to_string(x); } catch (Boom const&) { } catch (std::ios_base::failure const&) { } bad = -1; text_after(c, x, want, what); typename std::decay<decltype(x)>::type none; text_after(c, none, want.substr(0, 1) + (want.size() > 1 && want[1] == ' ' ? " " : "") + want.back(), "the empty container"); };
    S seq = join(e, "[", "]", ","), st = join(e, "{", "}", ","); switch (which) { case 0: go(v, seq, "vector"); break; case 1: go(List<El>(v), seq, "List"); break; case 2: go(Array<El>(v.begin(), v.end()), seq, "Array"); break; case 3: go(std::list<El>(v.begin(), v.end()), seq, "list"); break; case 4: go(LinkedList<El>(v.begin(), v.end()), seq, "LinkedList"); break; case 5: go(Set<El>(v.begin(), v.end()), st, "Set"); break; case 6: go(Map<int, El>(m), n ? join(em, "{ ", " }", ", ") : S("{ }"), "Map"); break;
        case 7: { SharedArray<El> s(v.size()); for (size_t i = 0; i != v.size(); ++i) s[i] = v[i]; count(c, s, n, "SharedArray", f); text_after(c, s, seq, "SharedArray"); break; } }
    c.state((mc::u64)((n * 9 + f + 1) * 8 + which + 1)); c.outcome((mc::u64)(f < 0)); }
// An element that writes other containers of the same kind while it is written.
static S deep(int k) { if (k <= 0) return "leaf"; S d = deep(k - 1); std::vector<S> e((size_t)k, d); S seq = join(e, "[", "]", ","); return seq + "{" + d + "}" + "{ " + std::to_string(k) + ":" + d + " }" + seq + std::to_string(k); }
MC_SCENARIO(reentrant, .balance = true) { V a = word(c, 3, 4); c.op("nested writing"); int k = 0; std::vector<Deep> v; for (int x : a) v.push_back(Deep(x)); std::vector<S> e; for (int x : a) e.push_back(deep(x)); S seq = join(e, "[", "]", ","); WRITES(v, seq); Array<Deep> r(v.begin(), v.end()); WRITES(r, seq); std::list<Deep> l(v.begin(), v.end()); WRITES(l, seq); Set<Deep> s(v.begin(), v.end()); std::vector<S> se; for (auto& x : s) se.push_back(deep(x.k)); WRITES(s, join(se, "{", "}", ",")); c.ops(4); record(c, a, 0); }
MC_SCENARIO(large, .balance = true) { static const int ns[] = {5, 6, 7, 8, 9, 10, 11, 12, 15, 16, 17, 20, 25, 31, 32, 33, 50, 63, 64, 65, 99, 100, 101, 127, 128, 129, 200, 255, 256, 257, 500, 511, 512, 513, 1000, 1023, 1024, 1025, 2000, 4097}; int n = c.pick(ns, "n"), k = c.choose(3, "settings"); c.split(); c.op("%d elements", n); V a; for (int i = 0; i != n; ++i) a.push_back(i * 7 % n); containers<int>(c, a, k); if (n <= 300) { for (auto& x : a) x &= 3; containers<S>(c, a, k); containers<double>(c, a, k); containers<bool>(c, a, k); } c.state((mc::u64)(n * 3 + k + 1)); c.outcome((mc::u64)n); }
// ---- objects that write themselves
struct Base : Helper::WritableInterface { virtual Base* clone() const = 0; virtual Base* _copy() const { return clone(); } };
struct W1 : Base { int k; W1(int k) : k(k) { } W1* clone() const override { return new W1(*this); } std::ostream& _write(std::ostream& os) const override { return os << "W1(" << k << ")"; } };
struct W2 : W1 { using W1::W1; W2* clone() const override { return new W2(*this); } std::ostream& _write(std::ostream& os) const override { return os << "W2[" << k << "," << k << "]"; } };
struct Own { int k; std::ostream& _write(std::ostream& os) const { return os << "own " << k; } };
struct OwnVoidless { S s; std::ostream& _write(std::ostream& os) const { os << s; return os; } };
struct Plain { int k; };
template<class T> struct Bracket : Helper::WriterInterface<T> { S open; int* calls; Bracket(S o, int* n) : open(o), calls(n) { } Bracket* clone() const { return new Bracket(*this); } private: std::ostream& _write(std::ostream& os, T const& t) const override { ++*calls; return os << open << num(t) << "]"; } static int num(Plain const& p) { return p.k; } static int num(int p) { return p; } };
MC_SCENARIO(self_writing, .balance = true) { using Helper::operator<<; int k = c.choose(SETTINGS, "settings"); V a = word(c, c.bound(3, 4), 3); c.op("write"); Out like(k); std::vector<S> e; S all;
    std::vector<Own> v; std::vector<OwnVoidless> vs; std::vector<W2> w2; for (int x : a) { v.push_back({make<int>(x)}); vs.push_back({make<S>(x)}); w2.push_back(W2(make<int>(x))); }
    for (size_t i = 0; i != a.size(); ++i) { int x = make<int>(a[i]); S n = one(x, like); W1 w(x); W2 u(x); W1 const& r = u; Helper::WritableInterface const& b = u; WRITES(w, "W1(" + n + ")"); WRITES(u, "W2[" + n + "," + n + "]"); WRITES(r, "W2[" + n + "," + n + "]"); WRITES(b, "W2[" + n + "," + n + "]"); WRITES(v[i], "own " + n); WRITES(vs[i], vs[i].s); CALLS(b.write(os), "W2[" + n + "," + n + "]"); e.push_back("own " + n);
        int calls = 0; Bracket<Plain> bp("<", &calls); Plain p{x}; Helper::WriterInterface<Plain> const& wi = bp; { Out os(k); os << wi(p); os.same(c, "<" + n + "]", "writer(object)"); MC_CHECK(c, calls == 1 && p.k == x, "the writer was called " << calls << " times"); os << bp(p) << ";" << wi(p); os.same(c, "<" + n + "]<" + n + "];<" + n + "]", "writer(object)"); }
        calls = 0; Helper::Writer<Plain> wr{std::make_shared<Bracket<Plain>>("{", &calls)}; Helper::Writer<Plain> wr2(Helper::Handle<Helper::WriterInterface<Plain>>(std::make_shared<Bracket<Plain>>("((", &calls))); { Out os(k); os << wr(p) << wr2(p) << wr(p); os.same(c, "{" + n + "]((" + n + "]{" + n + "]", "writer handle(object)"); MC_CHECK(c, calls == 3, "the writers were called " << calls << " times"); } Helper::Writer<Plain> cp(wr); wr = wr2; { Out os(k); os << cp(p) << wr(p); os.same(c, "{" + n + "]((" + n + "]", "copied writer handles"); }
        Helper::WriterInterface<int> const& iw = *new Bracket<int>("i", &calls); { Out os(k); os << iw(x); os.same(c, "i" + n + "]", "writer(int)"); } delete &iw; c.ops(14); }
    S seq = join(e, "[", "]", ","); WRITES(v, seq); WRITES(Array<Own>(v.begin(), v.end()), seq); std::vector<S> e2; for (int x : a) { S n = one(make<int>(x), like); e2.push_back("W2[" + n + "," + n + "]"); } WRITES(w2, join(e2, "[", "]", ",")); auto t = std::make_tuple(List<Own>(v), 1); WRITES(t, "(" + seq + "," + one(1, like) + ")"); static_assert(Helper::IsWritable<Own>::value && Helper::IsWritable<W1>::value && !Helper::IsWritable<Plain>::value && !Helper::IsWritable<int>::value, "recognition"); record(c, a, k); }
// ---- conversion to a string, in any order of kinds of values
struct Sticky { }; static std::ostream& operator<<(std::ostream& os, Sticky const&) { return os << std::hex << std::setprecision(2) << std::setfill('#') << std::boolalpha << 255; }
// writes the same kinds of values in any case, after changing the formatting or not
struct Moody { int m; }; static std::ostream& operator<<(std::ostream& os, Moody const& x) { if (x.m == 1) os << std::hex << std::showbase << std::uppercase; if (x.m == 2) os << std::setprecision(2) << std::scientific << std::boolalpha; if (x.m == 3) os << std::setfill('#') << std::left << std::showpos; os << 255 << ' ' << 1.0 / 3 << ' ' << true << ' ' << std::setw(6) << -4; if (x.m == 4) os << std::setw(40); return os; }
static S mood(int m) { std::ostringstream os; os << Moody{m}; return os.str(); }
struct Recursive { int d; }; static std::ostream& operator<<(std::ostream& os, Recursive const& r) { os << r.d; if (r.d) os << "(" << Helper::to_string(Recursive{r.d - 1}) << Helper::to_str(Recursive{r.d - 1}) << ")"; return os << "."; }
struct Breaker { }; static std::ostream& operator<<(std::ostream& os, Breaker const&) { os << "part"; os.setstate(std::ios::failbit); return os; }
struct Thrower { }; static std::ostream& operator<<(std::ostream& os, Thrower const&) { os << "part"; throw Boom(); }
static S rec(int d) { return std::to_string(d) + (d ? "(" + rec(d - 1) + rec(d - 1) + ")" : S()) + "."; }
MC_SCENARIO(to_strings, .balance = true) { using Helper::operator<<; int n = c.bound(4, 5); S last; for (int i = 0; i != n; ++i) { int k = c.choose(20, "kind"); c.op("to_string %d", k); S got, want; auto both = [&](auto const& x) { got = Helper::to_string(x); S other = Helper::to_str(x); MC_CHECK(c, got == other, "to_string gives " << got << " but to_str gives " << other); };
        switch (k) { default: both(Moody{k - 15}); want = mood(k - 15); break; case 0: both(255); want = "255"; break; case 1: both(S("")); want = ""; break; case 2: both(Sticky()); want = "ff"; break; case 3: both(true); want = "1"; break; case 4: both(1234.5); want = "1234.5"; break; case 5: both(Recursive{2}); want = rec(2); break; case 6: both(Breaker()); want = "part"; break;
            case 7: { bool b = false; try { Helper::to_string(Thrower()); } catch (Boom const&) { b = true; } MC_CHECK(c, b, "failure of the written object is lost"); want = got = ""; break; }
            case 8: both(std::vector<int>{1, 2}); want = "[1,2]"; break; case 9: both(S(300, 'q')); want = S(300, 'q'); break; case 10: both("lit"); want = "lit"; break; case 11: both('c'); want = "c"; break; case 13: both(S("a\0b\0", 4)); want = S("a\0b\0", 4); break; case 14: both(std::vector<char>{'x', '\0', 'y'}); want = S("[x,\0,y]", 7); break; case 12: { Helper::String s(S("wrapped")); both(s); want = "wrapped"; MC_CHECK(c, S(Helper::c_str(s)) == "wrapped", "c_str"); break; } }
        MC_CHECK(c, got == want, "converted to \"" << got << "\" expected \"" << want << "\""); last += (char)('a' + k); c.state(mc::hash_str(last)); } c.outcome(mc::hash_str(last)); }
MC_MAIN
