// C19: every assertion macro with every kind of condition and message in every kind of context; once with
// debug macros on and once off (-DNDEBUG).
#include "mc.hpp"
#include <cmath>
#include <optional>
#include "macros.hpp"
using mc::Ctx;
#ifdef NDEBUG
enum { DEBUG = 0 };
#else
enum { DEBUG = 1 };
#endif
struct Sink : std::streambuf { char mem[1 << 14]; size_t n = 0; int overflow(int ch) override { if (ch != EOF) { if (n < sizeof mem) mem[n] = (char)ch; ++n; } return 0; } std::streamsize xsputn(const char* s, std::streamsize k) override { for (std::streamsize i = 0; i != k; ++i) overflow((unsigned char)s[i]); return k; } std::string text() const { return std::string(mem, n < sizeof mem ? n : sizeof mem); } };
static Sink err, out;
struct Capture { std::streambuf* e; std::streambuf* o; Capture() { err.n = out.n = 0; e = std::cerr.rdbuf(&err); o = std::cout.rdbuf(&out); } ~Capture() { std::cerr.rdbuf(e); std::cout.rdbuf(o); } };
struct Off { };
struct Probe {
    bool value; int evals = 0, notes = 0; bool off = false;
    struct Answer { bool b; explicit operator bool() const { return b; } };
    bool cond() { ++evals; return value; } int count() { ++evals; return value ? 2 : 0; } long long big() { ++evals; return value ? 1LL << 40 : 0; } double real() { ++evals; return value ? 0.25 : 0.0; } const char* pointer() { ++evals; return value ? "x" : nullptr; } Answer object() { ++evals; return Answer{value}; } std::shared_ptr<int> shared() { ++evals; return value ? std::make_shared<int>(0) : nullptr; } std::optional<bool> maybe() { ++evals; return value ? std::optional<bool>(false) : std::nullopt; }
    bool text(const char*) { ++evals; return value; } template<class A, class B> bool two(A, B) { ++evals; return value; } bool thrower() { ++evals; if (!value) throw Off(); return true; } int negative() { ++evals; return value ? -1 : 0; }
    const char* note() { ++notes; return "noted"; } int number() { ++notes; return 4711; }
    bool nested() { ++evals; HELPER_ASSERT(evals >= 1) HELPER_PRECONDITION(evals < 100) return value; } };

typedef void (*Fn)(Probe&); struct Site { const char* macro; const char* text; const char* message; bool debug_only; Fn fn; bool passes_exception; };
static std::vector<Site>& sites() { static std::vector<Site> v; return v; }
struct Add { Add(Site s) { sites().push_back(s); } };
#define CAT2(a, b) a##b
#define CAT(a, b) CAT2(a, b)
// ---- contexts in which a statement is placed
#define IN_plain(s) static void run(Probe& p) { s }
#define IN_semicolon(s) static void run(Probe& p) { s; }
#define IN_loop(s) static void run(Probe& p) { for (int i = 0; i != 3; ++i) { if (i == 2) { s } } }
#define IN_lambda(s) static void run(Probe& p) { auto f = [&p]() { s }; f(); }
#define IN_generic(s) template<class P> static void inner(P& p) { s } static void run(Probe& p) { inner(p); }
#define IN_constructor(s) struct L { L(Probe& p) { s } }; static void run(Probe& p) { L l(p); }
#define IN_else(s) static void run(Probe& p) { if (p.off) ; else s }
#define IN_if(s) static void run(Probe& p) { if (!p.off) s }
#define IN_switch(s) static void run(Probe& p) { switch (p.off) { case false: s default: break; } }
#define IN_body(s) static void run(Probe& p) { for (int i = 0; i != 1; ++i) s }
#define IN_try(s) static void run(Probe& p) { try { s } catch (std::logic_error const&) { ++p.evals; } }
#define IN_names(s) static void run(Probe& p) { bool result = p.cond(), value = result, error = result, msg = result, func = result, e = result, first_time = result, ok = result; std::ostringstream ss; ss << "in ss: " << p.number(); (void)value; (void)error; (void)msg; (void)func; (void)e; (void)first_time; (void)ok; s }
// ---- the seven macros with a condition
#define ALL_MACROS(CTX, e) S0(ASSERT, false, CTX, e) S0(PRECONDITION, false, CTX, e) S0(DEBUG_ASSERT, true, CTX, e) S0(DEBUG_PRECONDITION, true, CTX, e)
#define ALL_MSG_MACROS(CTX, e, m) S1(ASSERT_MSG, false, CTX, e, m) S1(PRECONDITION_MSG, false, CTX, e, m) S1(DEBUG_ASSERT_MSG, true, CTX, e, m)
#define S0(M, D, CTX, e) S0_(M, D, CTX, e, __COUNTER__)
#define S0_(M, D, CTX, e, n) S0__(M, D, CTX, e, n)
#define S0__(M, D, CTX, e, n) namespace { struct Site##n { IN_##CTX(HELPER_##M(e)) }; Add add##n({#M " (" #CTX ")", #e, nullptr, D, &Site##n::run, false}); }
#define S1(M, D, CTX, e, m) S1_(M, D, CTX, e, m, __COUNTER__)
#define S1_(M, D, CTX, e, m, n) S1__(M, D, CTX, e, m, n)
#define S1__(M, D, CTX, e, m, n) namespace { struct Site##n { IN_##CTX(HELPER_##M(e, m)) }; Add add##n({#M " (" #CTX ")", #e, #m, D, &Site##n::run, false}); }
#define EVERYWHERE(X, ...) X(plain, __VA_ARGS__) X(semicolon, __VA_ARGS__) X(loop, __VA_ARGS__) X(lambda, __VA_ARGS__) X(generic, __VA_ARGS__) X(constructor, __VA_ARGS__) X(else, __VA_ARGS__) X(if, __VA_ARGS__) X(switch, __VA_ARGS__) X(body, __VA_ARGS__) X(try, __VA_ARGS__)
EVERYWHERE(ALL_MACROS, p.cond())
EVERYWHERE(ALL_MSG_MACROS, p.cond(), "just text")
ALL_MACROS(plain, p.count()) ALL_MACROS(plain, p.big()) ALL_MACROS(plain, p.real()) ALL_MACROS(plain, p.pointer()) ALL_MACROS(plain, p.object()) ALL_MACROS(plain, p.shared()) ALL_MACROS(plain, p.maybe()) ALL_MACROS(plain, p.negative())
ALL_MACROS(plain, p.cond() || p.off) ALL_MACROS(plain, p.cond() ? true : false) ALL_MACROS(plain, (p.two<int, long>(1, 2))) ALL_MACROS(plain, p.text("%d%s 100% \"q\" \\ \n")) ALL_MACROS(plain, p.cond() == true) ALL_MACROS(plain, p.count() & 2) ALL_MACROS(plain, p.off = p.cond()) ALL_MACROS(plain, not not p.cond()) ALL_MACROS(plain, p.thrower()) ALL_MACROS(plain, p.nested()) ALL_MACROS(plain, [&p] { return p.cond(); }())
ALL_MACROS(names, result && value && error && msg && func && e && first_time && ok)
#define MSG_CONDITIONS(m) ALL_MSG_MACROS(plain, p.cond(), m)
MSG_CONDITIONS(p.note()) MSG_CONDITIONS("count " << p.number() << " of " << p.note()) MSG_CONDITIONS("%s %d 100% \\ \"quoted\" `x'") MSG_CONDITIONS(std::string("made")) MSG_CONDITIONS("") MSG_CONDITIONS('c') MSG_CONDITIONS(1.5 << ' ' << std::hex << 255) MSG_CONDITIONS("line\nline")
ALL_MSG_MACROS(plain, p.count(), "n=" << p.number()) ALL_MSG_MACROS(plain, p.big(), p.note()) ALL_MSG_MACROS(plain, p.object(), p.note()) ALL_MSG_MACROS(plain, p.pointer(), p.note()) ALL_MSG_MACROS(plain, p.cond() || p.off, p.note()) ALL_MSG_MACROS(plain, p.cond() ? true : false, "a" << "b") ALL_MSG_MACROS(plain, p.real(), p.note()) ALL_MSG_MACROS(plain, p.thrower(), p.note()) ALL_MSG_MACROS(plain, p.off = p.cond(), p.note()) ALL_MSG_MACROS(plain, p.nested(), p.note())
ALL_MSG_MACROS(names, result && value && error && msg && func && e && first_time && ok, ss.str())
// ---- conditions that mention macros: the source text is what is written there (not passed on through another macro, which would replace it)
#define LIMIT 2
#define OVER(x, y) ((x) > (y))
#define NOTHING
namespace direct { 
#define SITE(name) static void name(Probe& p)
SITE(a1) { HELPER_ASSERT(p.count() == LIMIT) } SITE(a2) { HELPER_ASSERT(OVER(p.count(), 1)) } SITE(a3) { HELPER_ASSERT(NOTHING p.cond()) } SITE(a4) { HELPER_ASSERT(p.pointer() != NULL) }
SITE(b1) { HELPER_PRECONDITION(p.count() == LIMIT) } SITE(b2) { HELPER_PRECONDITION(OVER(p.count(), 1)) } SITE(b3) { HELPER_PRECONDITION(NOTHING p.cond()) } SITE(b4) { HELPER_PRECONDITION(p.pointer() != NULL) }
SITE(c1) { HELPER_DEBUG_ASSERT(p.count() == LIMIT) } SITE(c2) { HELPER_DEBUG_ASSERT(OVER(p.count(), 1)) } SITE(c3) { HELPER_DEBUG_ASSERT(NOTHING p.cond()) } SITE(c4) { HELPER_DEBUG_ASSERT(p.pointer() != NULL) }
SITE(d1) { HELPER_DEBUG_PRECONDITION(p.count() == LIMIT) } SITE(d2) { HELPER_DEBUG_PRECONDITION(OVER(p.count(), 1)) } SITE(d3) { HELPER_DEBUG_PRECONDITION(NOTHING p.cond()) } SITE(d4) { HELPER_DEBUG_PRECONDITION(p.pointer() != NULL) }
SITE(e1) { HELPER_ASSERT_MSG(p.count() == LIMIT, p.note()) } SITE(e2) { HELPER_ASSERT_MSG(OVER(p.count(), 1), p.note()) } SITE(e3) { HELPER_ASSERT_MSG(NOTHING p.cond(), p.note()) } SITE(e4) { HELPER_ASSERT_MSG(p.pointer() != NULL, p.note()) }
SITE(f1) { HELPER_PRECONDITION_MSG(p.count() == LIMIT, p.note()) } SITE(f2) { HELPER_PRECONDITION_MSG(OVER(p.count(), 1), p.note()) } SITE(f3) { HELPER_PRECONDITION_MSG(NOTHING p.cond(), p.note()) } SITE(f4) { HELPER_PRECONDITION_MSG(p.pointer() != NULL, p.note()) }
SITE(g1) { HELPER_DEBUG_ASSERT_MSG(p.count() == LIMIT, p.note()) } SITE(g2) { HELPER_DEBUG_ASSERT_MSG(OVER(p.count(), 1), p.note()) } SITE(g3) { HELPER_DEBUG_ASSERT_MSG(NOTHING p.cond(), p.note()) } SITE(g4) { HELPER_DEBUG_ASSERT_MSG(p.pointer() != NULL, p.note()) }
#define FOUR(l, M, D, m) Add l##_1({#M " (of macros)", "p.count() == LIMIT", m, D, &l##1, false}), l##_2({#M " (of macros)", "OVER(p.count(), 1)", m, D, &l##2, false}), l##_3({#M " (of macros)", "NOTHING p.cond()", m, D, &l##3, false}), l##_4({#M " (of macros)", "p.pointer() != NULL", m, D, &l##4, false});
FOUR(a, ASSERT, false, nullptr) FOUR(b, PRECONDITION, false, nullptr) FOUR(c, DEBUG_ASSERT, true, nullptr) FOUR(d, DEBUG_PRECONDITION, true, nullptr) FOUR(e, ASSERT_MSG, false, "p.note()") FOUR(f, PRECONDITION_MSG, false, "p.note()") FOUR(g, DEBUG_ASSERT_MSG, true, "p.note()") }
static const struct { const char* text; const char* meaning; } meanings[] = {{"\"just text\"", "just text"}, {"p.note()", "noted"}, {"\"count \" << p.number() << \" of \" << p.note()", "count 4711 of noted"}, {"\"%s %d 100% \\\\ \\\"quoted\\\" `x'\"", "%s %d 100% \\ \"quoted\" `x'"}, {"std::string(\"made\")", "made"}, {"\"\"", ""}, {"'c'", "c"}, {"1.5 << ' ' << std::hex << 255", "1.5 ff"}, {"\"line\\nline\"", "line\nline"}, {"\"n=\" << p.number()", "n=4711"}, {"\"a\" << \"b\"", "ab"}, {"ss.str()", "in ss: 4711"}};
static std::string meaning(Ctx& c, const char* m) { for (auto& x : meanings) if (!strcmp(x.text, m)) return x.meaning; c.fail(std::string("harness: no meaning for ") + m); }
static void invoke(Ctx& c, Site const& s, bool value) {
    Probe p{value}; bool names = strstr(s.macro, "names") != nullptr, thrower = strstr(s.text, "thrower") != nullptr; std::string what; int got = 0; c.op("HELPER_%s of %s being %d", s.macro, s.text, value);
    { Capture k; try { s.fn(p); } catch (std::runtime_error const& e) { got = 1; what = e.what(); } catch (Off const&) { got = 2; } catch (...) { got = 3; } }
    bool off = s.debug_only && !DEBUG; int want = value || off ? 0 : thrower ? 2 : 1; static const char* kinds[] = {"no exception", "a runtime error", "the exception of the condition", "another exception"};
    MC_CHECK(c, got == want, "HELPER_" << s.macro << " of `" << s.text << "' being " << value << " gave " << kinds[got] << ", expected " << kinds[want]); MC_CHECK(c, p.evals == (names ? 1 : off ? 0 : 1), "HELPER_" << s.macro << " of `" << s.text << "' being " << value << " evaluated it " << p.evals << " times"); MC_CHECK(c, err.n == 0 && out.n == 0, "HELPER_" << s.macro << " wrote something: " << err.text() << out.text());
    if (!names) MC_CHECK(c, got == 1 || p.notes == 0, "HELPER_" << s.macro << " evaluated the message although it does not fail");
    if (got == 1) { MC_CHECK(c, what.find(s.text) != std::string::npos, "the message of HELPER_" << s.macro << " does not contain the condition `" << s.text << "': " << what); if (s.message) MC_CHECK(c, what.find(meaning(c, s.message)) != std::string::npos, "the message of HELPER_" << s.macro << " does not contain \"" << meaning(c, s.message) << "\": " << what); }
    c.state(mc::mix(mc::hash_str(std::string(s.macro) + s.text), value)); c.outcome((mc::u64)got); }
MC_SCENARIO(each_site) { Site const& s = sites()[(size_t)c.choose((int)sites().size(), "site")]; bool v = c.flip("value"); invoke(c, s, v); invoke(c, s, v); invoke(c, s, !v); invoke(c, s, v); }
MC_SCENARIO(histories) { int depth = c.bound(3, 4); static const size_t step = sites().size() / 23 + 1; for (int q = 0; q != depth; ++q) { int k = c.choose(1 + 2 * (int)(sites().size() / step)); if (k == 0) break; --k; invoke(c, sites()[(size_t)(k / 2) * step], k % 2); } }

// ---- equality
struct Value { int v; static inline int copies = 0; }; static bool operator==(Value const& a, Value const& b) { return a.v == b.v; } static std::ostream& operator<<(std::ostream& os, Value const& x) { return os << "Value" << x.v; }
static int left_evals, right_evals; template<class T> T const& left(T const& t) { ++left_evals; return t; } template<class T> T const& right(T const& t) { ++right_evals; return t; }
template<class A, class B> void equal(Ctx& c, A const& a, B const& b) { for (int form = 0; form != 4; ++form) { int got = 0; std::string what; const char* text[2] = {"left(a)", "right(b)"}; left_evals = right_evals = 0; c.op("equality");
    { Capture k; try { if (form == 0) { HELPER_ASSERT_EQUAL(left(a), right(b)) } else if (form == 1) HELPER_ASSERT_EQUAL(left(a), right(b)) else if (form == 2) { auto f = [&] { HELPER_ASSERT_EQUAL(left(a), right(b)); }; f(); } else { text[0] = "true ? left(a) : a"; text[1] = "false ? b : right(b)"; HELPER_ASSERT_EQUAL(true ? left(a) : a, false ? b : right(b)) } } catch (std::runtime_error const& e) { got = 1; what = e.what(); } catch (...) { got = 2; } }
    bool same = a == b; MC_CHECK(c, got == !same, "HELPER_ASSERT_EQUAL of values that are " << (same ? "equal" : "different") << " gave " << got); if (same) MC_CHECK(c, left_evals == 1 && right_evals == 1, "HELPER_ASSERT_EQUAL evaluated its operands " << left_evals << " and " << right_evals << " times"); else { MC_CHECK(c, left_evals >= 1 && right_evals >= 1, "operands not evaluated"); MC_CHECK(c, what.find(text[0]) != std::string::npos && what.find(text[1]) != std::string::npos, "the message does not contain the condition: " << what); } MC_CHECK(c, err.n == 0 && out.n == 0, "something was written"); c.outcome((mc::u64)got + 1); } }
MC_SCENARIO(equality) { int k = c.choose(5, "type"), i = c.choose(5, "left"), j = c.choose(5, "right"); if (k == 0) { static const int v[] = {0, 1, -1, 1 << 30, INT32_MIN}; equal(c, v[i], v[j]); } else if (k == 1) { static const double v[] = {0.0, -0.0, NAN, 1e300, 0.1}; equal(c, v[i], v[j]); } else if (k == 2) { static const std::string v[] = {"", "a", "ab", "a\n", "%s"}; equal(c, v[i], v[j]); } else if (k == 3) { static const long long v[] = {0, 1, 1LL << 32, -1, (1LL << 32) + 1}; equal(c, v[i], (long long)v[j]); } else { static const Value v[] = {{0}, {1}, {2}, {3}, {0}}; equal(c, v[i], v[j]); } c.state(mc::mix((mc::u64)k, (mc::u64)(i * 5 + j))); }
MC_SCENARIO(equality_of_operators) { int x = c.choose(4, "x"), y = c.choose(4, "y"), got = 0; std::string what; c.op("equality"); { Capture k; try { HELPER_ASSERT_EQUAL(x | 1, y ? y : 1) } catch (std::runtime_error const& e) { got = 1; what = e.what(); } } MC_CHECK(c, got == ((x | 1) != (y ? y : 1)), "operands with operators"); { int got2 = 0; std::string what2; try { HELPER_ASSERT_EQUAL(OVER(x, y), LIMIT - 1) } catch (std::runtime_error const& e) { got2 = 1; what2 = e.what(); } MC_CHECK(c, got2 == !(x > y), "operands with macros"); if (got2) MC_CHECK(c, what2.find("OVER(x, y)") != std::string::npos && what2.find("LIMIT - 1") != std::string::npos, "message: " << what2); } if (got) MC_CHECK(c, what.find("x | 1") != std::string::npos && what.find("y ? y : 1") != std::string::npos, "message: " << what); got = 0; { Capture k; try { HELPER_ASSERT_EQUAL(x << 1, y & 2) } catch (std::runtime_error const& e) { got = 1; } } MC_CHECK(c, got == ((x << 1) != (y & 2)), "operands with shifts"); c.state((mc::u64)(x * 4 + y)); }

// ---- unconditional failures
struct MyError : std::exception { std::string s; MyError(std::string const& t) : s(t) { } const char* what() const noexcept override { return s.c_str(); } };
namespace Inner { struct Rare : std::out_of_range { using std::out_of_range::out_of_range; }; }
template<class F> void throws(Ctx& c, int k, F f) { int got = 0; std::string what; { Capture cap; try { f(); } catch (Inner::Rare const& e) { got = 4; what = e.what(); } catch (std::out_of_range const& e) { got = 2; what = e.what(); } catch (MyError const& e) { got = 3; what = e.what(); } catch (std::runtime_error const& e) { got = 1; what = e.what(); } catch (...) { got = 9; } } static const int want[] = {1, 1, 1, 1, 2, 3, 4, 1}; MC_CHECK(c, got == want[k], "failure macro " << k << " threw " << got << " expected " << want[k]); static const char* text[] = {"just so", "noted 7", "", "so it is", "index 9", "mine", "rare thing", "in ss"}; MC_CHECK(c, what.find(text[k]) != std::string::npos, "failure macro " << k << " has the message " << what); if (k >= 3) MC_CHECK(c, k == 7 || what.find("somewhere") != std::string::npos, "failure macro " << k << " does not name the function: " << what); MC_CHECK(c, err.n == 0 && out.n == 0, "something was written"); }
MC_SCENARIO(failures) { int k = c.choose(8, "macro"), where = c.choose(3, "where"); c.op("failure"); const char* note = "noted"; std::ostringstream ss; ss << "in ss"; auto one = [&] { switch (k) { case 0: HELPER_FAIL_MSG("just so") break; case 1: HELPER_FAIL_MSG(note << ' ' << 7); break; case 2: HELPER_NOT_IMPLEMENTED break; case 3: HELPER_THROW(std::runtime_error, "somewhere", "so it is") break; case 4: HELPER_THROW(std::out_of_range, "some" << "where", "index " << 9); break; case 5: HELPER_THROW(MyError, "somewhere", "mine") break; case 6: HELPER_THROW(Inner::Rare, "somewhere", "rare thing") break; default: HELPER_FAIL_MSG(ss.str()) } };
    if (where == 0) throws(c, k, one); else if (where == 1) throws(c, k, [&] { for (int i = 0; i != 5; ++i) if (i == 3) one(); }); else throws(c, k, [&] { struct Guard { int& n; ~Guard() { ++n; } }; int n = 0; try { Guard g{n}; one(); } catch (...) { if (n != 1) throw std::logic_error("not unwound"); throw; } }); c.state((mc::u64)(k * 3 + where + 1)); }

// ---- notifications
static size_t occurrences(std::string const& s, std::string const& t) { size_t n = 0; for (size_t i = s.find(t); i != std::string::npos; i = s.find(t, i + t.size())) ++n; return n; }
template<int N> struct Once { static bool used[4]; static void warn(int i) { HELPER_WARN_ONCE("site " << N << " seen with " << i << ".") } static void deprecated(int) { HELPER_DEPRECATED(old_function, "use new_function"); }
    static void both(int i) { HELPER_WARN_ONCE("first of " << N << " with " << i << ".") HELPER_WARN_ONCE("second of " << N << " with " << i << ".") } static void branch(int i) { if (i % 2) HELPER_WARN_ONCE("odd of " << N << " with " << i << ".") else HELPER_DEPRECATED(even_function, "odd ones") } };
template<int N> bool Once<N>::used[4];
struct Entry { void (*fn[4])(int); bool* used; }; template<int... N> static Entry* entries(std::integer_sequence<int, N...>) { static Entry e[] = {Entry{{&Once<N>::warn, &Once<N>::deprecated, &Once<N>::both, &Once<N>::branch}, Once<N>::used}...}; return e; }
enum { FRESH = 96 }; static Entry* fresh() { return entries(std::make_integer_sequence<int, FRESH>()); } static int next_fresh = 0;
static void once(Ctx& c, Entry& e, int kind, int number, bool& odd_used) { std::string name = "?"; int thrown = 0; { Capture k; try { e.fn[kind](number); } catch (...) { thrown = 1; } } MC_CHECK(c, !thrown, "a notification macro threw"); std::string t = err.text(); MC_CHECK(c, out.n == 0, "something was written to the output stream: " << out.text()); bool first = kind == 3 && number % 2 ? !odd_used : !e.used[kind]; size_t lines = occurrences(t, "\n");
    std::string with = " with " + std::to_string(number) + "."; size_t want = first ? kind == 2 ? 2 : 1 : 0; MC_CHECK(c, lines == want, "a once-only notification wrote " << lines << " lines, expected " << want << ": " << t); if (first) { if (kind == 0) MC_CHECK(c, occurrences(t, "seen" + with) == 1, "text: " << t); if (kind == 1) MC_CHECK(c, occurrences(t, "old_function") == 1 && occurrences(t, "use new_function") == 1, "text: " << t); if (kind == 2) MC_CHECK(c, occurrences(t, with) == 2 && occurrences(t, "first of") == 1 && occurrences(t, "second of") == 1, "text: " << t); if (kind == 3) MC_CHECK(c, number % 2 ? occurrences(t, with) == 1 : occurrences(t, "even_function") == 1, "text: " << t); } if (kind == 3 && number % 2) odd_used = true; else e.used[kind] = true; }
static bool odd[FRESH];
MC_SCENARIO(once_only) { int a = next_fresh, b = (next_fresh + 1) % FRESH; next_fresh = (next_fresh + 2) % FRESH; int depth = c.bound(4, 5); for (int q = 0; q != depth; ++q) { int k = c.choose(9); if (k == 0) break; --k; int site = k % 2 ? a : b, kind = k / 2; c.op("once-only macro %d at site %s", kind, k % 2 ? "a" : "b"); once(c, fresh()[site], kind, q, odd[site]); c.state(mc::mix(mc::mix((mc::u64)k, (mc::u64)q), 7)); } }
MC_SCENARIO(notifications) { int depth = c.bound(3, 4); for (int q = 0; q != depth; ++q) { int k = c.choose(9); if (k == 0) break; --k; bool failed = k >= 6; int notes = 0, thrown = 0; auto note = [&] { ++notes; return 4000 + q; }; c.op("notification %d", k); { Capture cap; if (failed) std::cerr.setstate(std::ios::failbit); try { switch (k) { case 0: case 6: HELPER_WARN("number " << note()) break; case 1: HELPER_NOTIFY("number " << note()); break; case 2: case 7: HELPER_ERROR("number " << note()) break; case 3: if (q >= 0) HELPER_WARN("number " << note()) else HELPER_ERROR("wrong branch") break; case 4: for (int i = 0; i != 1; ++i) HELPER_NOTIFY("number " << note()) break; default: HELPER_ERROR("number" << ' ' << note()); } } catch (...) { thrown = 1; } std::cerr.clear(); }
    std::string t = err.text(), want = "number " + std::to_string(4000 + q); MC_CHECK(c, !thrown, "a notification macro threw"); MC_CHECK(c, out.n == 0, "something was written to the output stream"); if (!failed) { MC_CHECK(c, occurrences(t, want) == 1 && occurrences(t, "\n") == 1 && t.back() == '\n', "notification " << k << " wrote " << t); MC_CHECK(c, notes == 1, "the message was evaluated " << notes << " times"); } c.state(mc::mix((mc::u64)k, (mc::u64)q)); c.outcome((mc::u64)k); } }
MC_MAIN
