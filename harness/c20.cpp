// C20: every macro of the test framework with every outcome, alone and in every short program of checks,
// called cases and exceptions; the counts and the error stream against an independent account.
#include "mc.hpp"
#include <cmath>
#include <stdexcept>
#include "string.hpp"
#include "metaprogramming.hpp"
#include "test.hpp"
using mc::Ctx;
struct Sink : std::streambuf { char mem[1 << 15]; size_t n = 0; int overflow(int ch) override { if (ch != EOF) { if (n < sizeof mem) mem[n] = (char)ch; ++n; } return 0; } std::streamsize xsputn(const char* s, std::streamsize k) override { for (std::streamsize i = 0; i != k; ++i) overflow((unsigned char)s[i]); return k; } std::string text() const { return std::string(mem, n < sizeof mem ? n : sizeof mem); } };
static Sink err, out;
struct Capture { std::streambuf* e; std::streambuf* o; Capture() { err.n = out.n = 0; e = std::cerr.rdbuf(&err); o = std::cout.rdbuf(&out); } ~Capture() { std::cerr.rdbuf(e); std::cout.rdbuf(o); } };
// names that the framework leaves to its users
namespace User {
    template<class A, class B> concept Same = std::is_same<A, B>::value;
    template<class A, class B> struct IsEquivalent { static const bool value = std::is_same<std::remove_cv_t<A>, std::remove_cv_t<B>>::value; };
    template<class A, class B> bool same(A const& a, B const& b) { return a == b; }
    using Helper::class_name; using Helper::First;
    template<class T> struct Big { static const bool value = sizeof(T) > 4; };
    template<class T> concept Small = sizeof(T) <= 4;
}
namespace Helper { template<> inline String class_name<char>() { return "char"; } template<> inline String class_name<long>() { return "long"; } template<> inline String class_name<const char>() { return "const char"; } }
struct Base : std::runtime_error { using std::runtime_error::runtime_error; }; struct Derived : Base { using Base::Base; }; struct Other : std::exception { const char* what() const noexcept override { return "other thing"; } }; struct Odd { };

enum Raise { NOTHING, BASE, DERIVED, OTHER, LOGIC, RUNTIME, ODD, NUMBER, RAISES };
static void raise_one(int k) { switch (k) { case BASE: throw Base("base thing"); case DERIVED: throw Derived("derived thing"); case OTHER: throw Other(); case LOGIC: throw std::logic_error("logic thing"); case RUNTIME: throw std::runtime_error("runtime thing"); case ODD: throw Odd(); case NUMBER: throw 7; } }
static bool standard(int k) { return k >= BASE && k <= RUNTIME; }
enum { NONE, ERROR, WARNING };
struct Want { int failures, skipped, report, escapes; };
struct P { int k; int ran = 0; bool pass() { ++ran; return k == 0; } int value() { ++ran; return 40 + k; } int try_value() { ++ran; raise_one(k); return 42; } void act() { ++ran; raise_one(k); } };
struct Site { const char* name; const char* text; int line; int outcomes; void (*fn)(P&); Want (*want)(int); int ran; };
static std::vector<Site>& sites() { static std::vector<Site> v; return v; }
struct Add { Add(Site s) { sites().push_back(s); } };
#define CAT2(a, b) a##b
#define CAT(a, b) CAT2(a, b)
#define SITE(name, text, outcomes, rule, ran, ...) SITE_(name, text, outcomes, rule, ran, __COUNTER__, __VA_ARGS__)
#define SITE_(name, text, outcomes, rule, ran, n, ...) SITE__(name, text, outcomes, rule, ran, n, __VA_ARGS__)
#define SITE__(name, text, outcomes, rule, ran, n, ...) namespace { void fn##n(P& p) { using namespace User; (void)p; __VA_ARGS__ } Add add##n({name, text, __LINE__, outcomes, &fn##n, &rule, ran}); }
static Want check(int k) { return k ? Want{1, 0, ERROR, 0} : Want{0, 0, NONE, 0}; }
static Want quiet(int) { return Want{0, 0, NONE, 0}; }
static Want warns(int) { return Want{0, 0, WARNING, 0}; }
static Want warns_on_failure(int k) { return Want{0, 0, k ? WARNING : NONE, 0}; }
static Want skipped(int) { return Want{0, 1, NONE, 0}; }
static Want guarded(int k) { return k ? Want{1, 0, ERROR, 0} : Want{0, 0, NONE, 0}; }
static Want called(int k) { return k == NOTHING ? Want{0, 0, NONE, 0} : standard(k) ? Want{1, 0, ERROR, 0} : Want{-1, 0, -1, 1}; }
static Want unguarded(int k) { return Want{0, 0, NONE, k != NOTHING}; }
static Want expects_base(int k) { return k == BASE || k == DERIVED ? Want{0, 0, NONE, 0} : k == NOTHING || standard(k) ? Want{1, 0, ERROR, 0} : Want{-1, 0, -1, 1}; }
static Want expects_std(int k) { return standard(k) ? Want{0, 0, NONE, 0} : k == NOTHING ? Want{1, 0, ERROR, 0} : Want{-1, 0, -1, 1}; }
static Want expects_logic(int k) { return k == LOGIC ? Want{0, 0, NONE, 0} : k == NOTHING || standard(k) ? Want{1, 0, ERROR, 0} : Want{-1, 0, -1, 1}; }
static Want expects_odd(int k) { return k == ODD ? Want{0, 0, NONE, 0} : k == NOTHING || standard(k) ? Want{1, 0, ERROR, 0} : Want{-1, 0, -1, 1}; }
static Want expects_any(int k) { return k == NOTHING ? Want{1, 0, ERROR, 0} : Want{0, 0, NONE, 0}; }
static bool is_forty(int x) { return x == 40; } static bool are_equal(int x, int y) { return x == y; }
// ---- checks (outcome 0 passes, others fail); the sixth argument tells how often the operand runs at least
SITE("ASSERT", "p.pass()", 2, check, 1, HELPER_TEST_ASSERT(p.pass()))
SITE("ASSERT with a semicolon", "p.pass()", 2, check, 1, HELPER_TEST_ASSERT(p.pass());)
SITE("ASSERT of a count", "p.pass() ? 2 : 0", 2, check, 1, HELPER_TEST_ASSERT(p.pass() ? 2 : 0))
SITE("ASSERT of a number", "p.pass() ? 0.25 : 0.0", 2, check, 1, HELPER_TEST_ASSERT(p.pass() ? 0.25 : 0.0))
SITE("ASSERT of a pointer", "p.pass() ? &p : nullptr", 2, check, 1, HELPER_TEST_ASSERT(p.pass() ? &p : nullptr))
SITE("ASSERT of a shared pointer", "make(p)", 2, check, 1, auto make = [](P& q) { return q.pass() ? std::make_shared<bool>(false) : nullptr; }; HELPER_TEST_ASSERT(make(p)))
SITE("ASSERT of a disjunction", "p.pass() || p.k > 5", 2, check, 1, HELPER_TEST_ASSERT(p.pass() || p.k > 5))
SITE("ASSERT of a conjunction", "p.pass() and p.pass()", 2, check, 1, HELPER_TEST_ASSERT(p.pass() and p.pass()))
SITE("CHECK", "p.value()", 3, check, 1, HELPER_TEST_CHECK(p.value(), 40))
SITE("CHECK of operators", "p.value() | 64", 3, check, 1, HELPER_TEST_CHECK(p.value() | 64, 40 | 64))
SITE("CHECK_WARN", "p.value()", 3, warns_on_failure, 1, HELPER_TEST_CHECK_WARN(p.value(), 40))
SITE("SAME", "p.value()", 3, check, 1, HELPER_TEST_SAME(p.value(), 40))
SITE("SAME_AS", "p.value()", 3, check, 1, HELPER_TEST_SAME_AS(p.value(), 40))
SITE("EQUAL", "p.value()", 3, check, 1, HELPER_TEST_EQUAL(p.value(), 40))
SITE("EQUAL exchanged", "p.value()", 3, check, 1, HELPER_TEST_EQUAL(40, p.value()))
SITE("NOT_EQUAL", "p.value()", 2, check, 1, HELPER_TEST_NOT_EQUAL(p.value(), 41))
SITE("EQUALS", "p.value()", 3, check, 1, HELPER_TEST_EQUALS(p.value(), 40))
SITE("EQUALS in a branch", "p.value()", 3, check, 1, if (p.k < 9) HELPER_TEST_EQUALS(p.value(), 40) else HELPER_TEST_ASSERT(p.pass()))
SITE("EQUALS in a loop", "p.value()", 3, check, 1, for (int i = 0; i != 2; ++i) if (i) HELPER_TEST_EQUALS(p.value(), 40))
SITE("WITHIN", "p.value()", 4, check, 1, HELPER_TEST_WITHIN(p.value() * (p.k + 1), 40, 0))
SITE("LESS", "p.value()", 4, check, 1, HELPER_TEST_LESS(p.value(), 41))
SITE("UNARY_PREDICATE", "is_forty", 3, check, 1, HELPER_TEST_UNARY_PREDICATE(is_forty, p.value()))
SITE("BINARY_PREDICATE", "are_equal", 3, check, 1, HELPER_TEST_BINARY_PREDICATE(are_equal, p.value(), 40))
SITE("COMPARE ==", "p.value()", 3, check, 1, HELPER_TEST_COMPARE(p.value(), ==, 40))
SITE("COMPARE <=", "p.value()", 3, check, 1, HELPER_TEST_COMPARE(p.value(), <=, 40))
SITE("COMPARE >", "41", 3, check, 1, HELPER_TEST_COMPARE(41, >, p.value()))
SITE("RESULT_COMPARE", "p.value()", 3, check, 1, HELPER_TEST_RESULT_COMPARE(int, p.value(), ==, 40))
SITE("RESULT_COMPARE converting", "p.value()", 3, check, 1, HELPER_TEST_RESULT_COMPARE(unsigned char, p.value() + 256, <, 41))
SITE("STATIC_ASSERT", "Big<", 2, check, 0, if (p.k) HELPER_TEST_STATIC_ASSERT(Big<char>) else HELPER_TEST_STATIC_ASSERT(Big<long>))
SITE("STATIC_ASSERT of a list", "IsEquivalent<", 2, check, 0, if (p.k) HELPER_TEST_STATIC_ASSERT(IsEquivalent<char, long>) else HELPER_TEST_STATIC_ASSERT(IsEquivalent<char, const char>))
SITE("CONCEPT", "Small<", 2, check, 0, if (p.k) HELPER_TEST_CONCEPT(Small<long>) else HELPER_TEST_CONCEPT(Small<char>))
SITE("CONCEPT of a list", "Same<", 2, check, 0, if (p.k) HELPER_TEST_CONCEPT(Same<long, char>) else HELPER_TEST_CONCEPT(Same<char, char>))
SITE("SAME_TYPE", "char", 2, check, 0, if (p.k) HELPER_TEST_SAME_TYPE(char, const char) else HELPER_TEST_SAME_TYPE(char, char))
SITE("EQUIVALENT_TYPE", "char", 2, check, 0, if (p.k) HELPER_TEST_EQUIVALENT_TYPE(char, long) else HELPER_TEST_EQUIVALENT_TYPE(char, const char))
// ---- reports
SITE("WARN", "take care", 1, warns, 0, HELPER_TEST_WARN("take care"))
SITE("NOTIFY", "take note", 1, warns, 0, HELPER_TEST_NOTIFY("take note"))
SITE("TITLE", "", 1, quiet, 0, HELPER_PRINT_TEST_CASE_TITLE("a title"))
SITE("COMMENT", "", 1, quiet, 0, HELPER_PRINT_TEST_COMMENT("a comment"))
SITE("SKIP", "", RAISES, skipped, -1, HELPER_TEST_SKIP(p.act()))
// ---- statements and values
SITE("PRINT", "", 1, quiet, 1, HELPER_TEST_PRINT(p.value()))
SITE("CONSTRUCT", "", 1, quiet, 1, HELPER_TEST_CONSTRUCT(int, x, (p.value())) (void)x;)
SITE("DEFAULT_CONSTRUCT", "", 1, quiet, 0, HELPER_TEST_DEFAULT_CONSTRUCT(std::string, x) (void)x;)
SITE("DECLARE", "", 1, quiet, 0, HELPER_TEST_DECLARE(std::string, x) (void)x;)
struct Named { int v; static Named make(int v) { return Named{v}; } }; static std::ostream& operator<<(std::ostream& os, Named const& n) { return os << n.v; }
SITE("NAMED_CONSTRUCT", "", 1, quiet, 1, HELPER_TEST_NAMED_CONSTRUCT(Named, x, make(p.value())) (void)x;)
SITE("ASSIGN_CONSTRUCT", "", 1, quiet, 1, HELPER_TEST_ASSIGN_CONSTRUCT(int, x, p.value()) (void)x;)
SITE("EXECUTE", "", RAISES, unguarded, 1, HELPER_TEST_EXECUTE(p.act()))
SITE("TRY", "p.act()", RAISES, guarded, 1, HELPER_TEST_TRY(p.act()))
SITE("EVALUATE", "p.try_value()", RAISES, guarded, 1, HELPER_TEST_EVALUATE(p.try_value()))
SITE("ASSIGN", "p.try_value()", RAISES, guarded, 1, int x = 0; HELPER_TEST_ASSIGN(x, p.try_value()))
SITE("CALL", "p.act()", RAISES, called, 1, HELPER_TEST_CALL(p.act()))
SITE("CALL in a branch", "p.act()", RAISES, called, 1, if (p.k < 99) HELPER_TEST_CALL(p.act()) else HELPER_TEST_SKIP(p.act()))
SITE("THROWS the class", "", RAISES, expects_base, 1, HELPER_TEST_THROWS(p.act(), Base))
SITE("THROWS any standard exception", "", RAISES, expects_std, 1, HELPER_TEST_THROWS(p.act(), std::exception))
SITE("THROWS a logic error", "", RAISES, expects_logic, 1, HELPER_TEST_THROWS(p.act(), std::logic_error))
SITE("THROWS an own class", "", RAISES, expects_odd, 1, HELPER_TEST_THROWS(p.act(), Odd))
SITE("FAIL", "", RAISES, expects_any, 1, HELPER_TEST_FAIL(p.act()))
SITE("FAIL of a value", "", RAISES, expects_any, 1, HELPER_TEST_FAIL(p.try_value()))
// A few sites that stand for their kind in longer programs.
static std::vector<size_t> const& chosen() { static std::vector<size_t> v = [] { std::vector<size_t> r; for (const char* n : {"ASSERT", "EQUALS", "COMPARE <=", "CHECK_WARN", "WARN", "SKIP", "TRY", "THROWS the class", "FAIL", "CHECK", "SAME_TYPE"}) for (size_t i = 0; i != sites().size(); ++i) if (!strcmp(sites()[i].name, n)) r.push_back(i); return r; }(); return v; }
struct Account { int failures = HELPER_TEST_FAILURES, skipped = HELPER_TEST_SKIPPED; };
static bool has(std::string const& t, std::string const& s) { return t.find(s) != std::string::npos; }
static void invoke(Ctx& c, Site const& s, int k) {
    Want w = s.want(k); P p{k}; c.op("HELPER_TEST_%s with outcome %d", s.name, k); Account before; int escaped = 0;
    { Capture cap; try { s.fn(p); } catch (...) { escaped = 1; } }
    int df = HELPER_TEST_FAILURES - before.failures, ds = HELPER_TEST_SKIPPED - before.skipped; std::string t = err.text();
    if (w.failures < 0) return;                                                        // another kind of exception than the standard ones
    MC_CHECK(c, df == w.failures, "HELPER_TEST_" << s.name << " with outcome " << k << " added " << df << " to the failure count, expected " << w.failures);
    MC_CHECK(c, ds == w.skipped, "HELPER_TEST_" << s.name << " with outcome " << k << " added " << ds << " to the skip count, expected " << w.skipped);
    MC_CHECK(c, escaped == w.escapes, "HELPER_TEST_" << s.name << " with outcome " << k << (escaped ? " let an exception pass" : " swallowed an exception"));
    if (w.report == NONE) MC_CHECK(c, t.empty(), "HELPER_TEST_" << s.name << " with outcome " << k << " wrote to the error stream: " << t);
    else { MC_CHECK(c, w.report == ERROR ? has(t, "ERROR") : has(t, "WARNING") || has(t, "NOTIFICATION"), "HELPER_TEST_" << s.name << " with outcome " << k << " wrote to the error stream: " << t); MC_CHECK(c, has(t, s.text), "HELPER_TEST_" << s.name << " does not report what failed: " << t); if (w.report == ERROR) MC_CHECK(c, has(t, ":" + std::to_string(s.line) + ":"), "HELPER_TEST_" << s.name << " does not report its line " << s.line << ": " << t); }
    MC_CHECK(c, s.ran < 0 ? p.ran == 0 : p.ran >= s.ran, "HELPER_TEST_" << s.name << " with outcome " << k << " ran its operand " << p.ran << " times"); }
MC_SCENARIO(each_site) { Site const& s = sites()[(size_t)c.choose((int)sites().size(), "site")]; for (int i = 0; i != 3; ++i) { int k = c.choose(s.outcomes, "outcome"); invoke(c, s, k); c.state(mc::mix(mc::hash_str(s.name), (mc::u64)k)); c.outcome((mc::u64)(s.want(k).failures * 8 + s.want(k).skipped * 4 + s.want(k).report)); } }
MC_SCENARIO(pairs_of_sites) { for (int i = 0; i != 2; ++i) { Site const& s = sites()[(size_t)c.choose((int)sites().size(), "site")]; invoke(c, s, c.choose(s.outcomes, "outcome")); } }
// ---- programs: sequences of checks and called cases whose bodies are sequences again
struct Program { Ctx* c; int budget, level; int want_failures = 0, want_skipped = 0, marks = 0, ran = 0; bool unknown = false; };
static Program* cur;
static void body();
struct TestClass { void test() { body(); } };
static void block(Program& q) { for (;;) { if (q.budget == 0) return; int k = q.c->choose(3 + (int)chosen().size(), "statement"); if (k == 0) return; --q.budget; if (k <= 2) { ++q.marks; ++q.level; if (k == 1 || q.level > 2) { HELPER_TEST_CALL(body()) } else { HELPER_TEST_CLASS(TestClass, TestClass()) MC_CHECK(*q.c, HELPER_CURRENT_TESTING_CLASS == "TestClass", "testing class is " << HELPER_CURRENT_TESTING_CLASS); } --q.level; ++q.ran; } else { Site const& s = sites()[chosen()[(size_t)k - 3]]; int o = q.c->choose(s.outcomes > 4 ? 4 : s.outcomes, "outcome"); Want w = s.want(o); q.want_failures += w.failures; q.want_skipped += w.skipped; ++q.marks; P p{o}; s.fn(p); ++q.ran; } } }
static void body() { Program& q = *cur; block(q); if (q.level && q.budget) { int k = q.c->choose(3, "end of the case"); if (k) { --q.budget; ++q.want_failures; int l = q.level; q.level = l; raise_one(k == 1 ? DERIVED : OTHER); } } }
// A class whose test raises an exception is not called by HELPER_TEST_CALL itself: put each program in one case.
MC_SCENARIO(programs) { Program q{&c, c.bound(3, 4), 1}; cur = &q; Account a; int escaped = 0; int kind = 0; std::string what;
    { Capture cap; try { HELPER_TEST_CALL(body()) } catch (mc::Fail const&) { throw; } catch (mc::Skip const&) { throw; } catch (std::exception const& e) { escaped = 1; what = e.what(); } } (void)kind;
    c.op("program of %d statements", q.marks); c.ops((mc::u64)q.marks); MC_CHECK(c, !escaped, "an exception left a called case: " << what); MC_CHECK(c, HELPER_TEST_FAILURES - a.failures == q.want_failures, "a program of " << q.marks << " statements added " << HELPER_TEST_FAILURES - a.failures << " to the failure count, expected " << q.want_failures); MC_CHECK(c, HELPER_TEST_SKIPPED - a.skipped == q.want_skipped, "a program added " << HELPER_TEST_SKIPPED - a.skipped << " to the skip count, expected " << q.want_skipped); c.state(mc::mix(mc::mix((mc::u64)q.want_failures, (mc::u64)q.want_skipped), (mc::u64)q.marks)); }
// ---- the comparing checks over all pairs of values, with the plain operators as oracle
template<class F> void judged(Ctx& c, const char* macro, bool passes, F f, const char* reports = "ERROR") { Account a; int thrown = 0; { Capture cap; try { f(); } catch (...) { thrown = 1; } } bool counted = !strcmp(reports, "ERROR"); c.op("HELPER_TEST_%s of values", macro); MC_CHECK(c, !thrown, "HELPER_TEST_" << macro << " threw"); MC_CHECK(c, HELPER_TEST_FAILURES - a.failures == (!passes && counted ? 1 : 0), "HELPER_TEST_" << macro << " that " << (passes ? "holds" : "does not hold") << " added " << HELPER_TEST_FAILURES - a.failures << " to the failure count"); MC_CHECK(c, HELPER_TEST_SKIPPED == a.skipped, "HELPER_TEST_" << macro << " changed the skip count"); MC_CHECK(c, passes ? err.n == 0 : has(err.text(), reports), "HELPER_TEST_" << macro << " that " << (passes ? "holds" : "does not hold") << " wrote to the error stream: " << err.text()); c.outcome(mc::mix(mc::hash_str(macro), passes)); }
template<class T> bool eq(T const& a, T const& b) { return a == b; } template<class T> bool positive(T const& a) { return !(a < T()) && !(a == T()); }
template<class T> void compared(Ctx& c, T const& a, T const& b) { using User::same;
    bool e = a == b, l = a < b; judged(c, "EQUAL", e, [&] { HELPER_TEST_EQUAL(a, b) }); judged(c, "EQUALS", e, [&] { HELPER_TEST_EQUALS(a, b) }); judged(c, "NOT_EQUAL", !e, [&] { HELPER_TEST_NOT_EQUAL(a, b) }); judged(c, "CHECK", e, [&] { HELPER_TEST_CHECK(a, b) }); judged(c, "CHECK_WARN", e, [&] { HELPER_TEST_CHECK_WARN(a, b) }, "WARNING"); judged(c, "SAME", e, [&] { HELPER_TEST_SAME(a, b) }); judged(c, "SAME_AS", e, [&] { HELPER_TEST_SAME_AS(a, b) });
    judged(c, "LESS", l, [&] { HELPER_TEST_LESS(a, b) }); judged(c, "COMPARE ==", e, [&] { HELPER_TEST_COMPARE(a, ==, b) }); judged(c, "COMPARE !=", a != b, [&] { HELPER_TEST_COMPARE(a, !=, b) }); judged(c, "COMPARE <", l, [&] { HELPER_TEST_COMPARE(a, <, b) }); judged(c, "COMPARE >=", a >= b, [&] { HELPER_TEST_COMPARE(a, >=, b) }); judged(c, "COMPARE >", a > b, [&] { HELPER_TEST_COMPARE(a, >, b) }); judged(c, "COMPARE <=", a <= b, [&] { HELPER_TEST_COMPARE(a, <=, b) });
    judged(c, "RESULT_COMPARE", e, [&] { HELPER_TEST_RESULT_COMPARE(T, a, ==, b) }); judged(c, "RESULT_COMPARE", l, [&] { HELPER_TEST_RESULT_COMPARE(T, a, <, b) }); judged(c, "BINARY_PREDICATE", e, [&] { HELPER_TEST_BINARY_PREDICATE(eq, a, b) }); judged(c, "UNARY_PREDICATE", positive(a), [&] { HELPER_TEST_UNARY_PREDICATE(positive, a) }); judged(c, "ASSERT", e, [&] { HELPER_TEST_ASSERT(a == b) }); judged(c, "ASSERT", !l, [&] { HELPER_TEST_ASSERT(not(a < b)) }); }
template<class T> void within(Ctx& c, T a, T b, T t) { using std::abs; bool near = a - b <= t && b - a <= t; judged(c, "WITHIN", near, [&] { HELPER_TEST_WITHIN(a, b, t) }); judged(c, "WITHIN", near, [&] { HELPER_TEST_WITHIN(a, b - T(1) + T(1), t) }); judged(c, "WITHIN", near, [&] { HELPER_TEST_WITHIN(t == t ? a : b, b, t) }); judged(c, "WITHIN", near, [&] { HELPER_TEST_WITHIN(a, t == t ? b : a, t) }); judged(c, "WITHIN", near, [&] { HELPER_TEST_WITHIN(a, b, t == t ? t : a) }); judged(c, "WITHIN", near, [&] { HELPER_TEST_WITHIN(a - T(2) + T(2), b, t == t && a == a ? t : T(100)) }); }
template<class T, class U> void compared_mixed(Ctx& c, T const& a, U const& b) { bool e = a == b, l = a < b; judged(c, "EQUAL", e, [&] { HELPER_TEST_EQUAL(a, b) }); judged(c, "EQUALS", e, [&] { HELPER_TEST_EQUALS(a, b) }); judged(c, "NOT_EQUAL", !e, [&] { HELPER_TEST_NOT_EQUAL(a, b) }); judged(c, "CHECK", e, [&] { HELPER_TEST_CHECK(a, b) }); judged(c, "CHECK_WARN", e, [&] { HELPER_TEST_CHECK_WARN(a, b) }, "WARNING");
    judged(c, "LESS", l, [&] { HELPER_TEST_LESS(a, b) }); judged(c, "COMPARE ==", e, [&] { HELPER_TEST_COMPARE(a, ==, b) }); judged(c, "COMPARE !=", a != b, [&] { HELPER_TEST_COMPARE(a, !=, b) }); judged(c, "COMPARE <", l, [&] { HELPER_TEST_COMPARE(a, <, b) }); judged(c, "COMPARE >=", a >= b, [&] { HELPER_TEST_COMPARE(a, >=, b) }); judged(c, "COMPARE >", a > b, [&] { HELPER_TEST_COMPARE(a, >, b) }); judged(c, "COMPARE <=", a <= b, [&] { HELPER_TEST_COMPARE(a, <=, b) }); judged(c, "ASSERT", e, [&] { HELPER_TEST_ASSERT(a == b) }); }
static const int ints[] = {0, 1, -1, 1 << 30, INT32_MIN, 2, 3, -2, 256, 257, 65536, INT32_MAX, INT32_MAX - 1};
static const double reals[] = {0.0, -0.0, (double)NAN, 1e300, 0.1, (double)INFINITY, -(double)INFINITY, std::nextafter(0.1, 1.0), 0.1 + 1e-12, 1e-18, -1e-18, std::nextafter(1e300, 0.0), 4.9e-324, (double)0.1f, 1.0, std::nextafter(1.0, 2.0), std::nextafter(1.0, 0.0)};
static const std::string texts[] = {"", "a", "ab", "a\n", "%s", "b", "A", "a ", " a", std::string("a\0", 2), std::string("a\0b", 3), std::string(1000, 'a'), std::string(999, 'a') + 'b'};
static const long long longs[] = {0, 1, 1LL << 32, -1, (1LL << 32) + 1, INT64_MIN, 1LL << 53, (1LL << 53) + 1, INT64_MAX, INT64_MAX - 1, INT64_MIN + 1, 1LL << 31, -(1LL << 32)};
static const float floats[] = {0.0f, -0.0f, (float)NAN, 0.1f, std::nextafter(0.1f, 1.0f), 1e-20f, 1.0f, std::nextafter(1.0f, 2.0f), 1e38f, -1e-20f};
static const unsigned long long naturals[] = {0, 1, 1ull << 32, ~0ull, ~0ull - 1, 1ull << 63, (1ull << 63) - 1, 3, (1ull << 53) + 1, 1ull << 53};
static const char* const words[] = {"", "a", "ab", "b"};
template<class A> int all_of(A const& a) { return (int)(sizeof a / sizeof *a); }
MC_SCENARIO(values) { int k = c.choose(13, "types"); auto same_type = [&](auto const& v) { int n = all_of(v), i = c.choose(n, "left"), j = c.choose(n, "right"); compared(c, v[i], v[j]); c.state(mc::mix((mc::u64)k + 77, (mc::u64)(i * n + j))); };
    auto mixed = [&](auto const& v, auto const& w) { int i = c.choose(all_of(v), "left"), j = c.choose(all_of(w), "right"); compared_mixed(c, v[i], w[j]); c.state(mc::mix((mc::u64)k + 77, (mc::u64)(i * 100 + j))); };
    switch (k) { case 0: same_type(ints); break; case 1: same_type(reals); break; case 2: same_type(texts); break; case 3: same_type(longs); break; case 4: same_type(floats); break; case 5: same_type(naturals); break;
        case 6: mixed(ints, longs); break; case 7: mixed(longs, ints); break; case 8: mixed(floats, reals); break; case 9: mixed(ints, reals); break; case 10: mixed(reals, longs); break; case 11: mixed(texts, words); break; default: mixed(words, texts); } }
MC_SCENARIO(tolerances) { int k = c.choose(2, "type"), i = c.choose(11, "left"), j = c.choose(11, "right"), t = c.choose(7, "tolerance"); if (k == 0) { static const int v[] = {0, 1, -1, 2, -3, 100, 65536, 65537, -65535, 1000000, 1000001}, w[] = {0, 1, 3, 100, 65536, 131071, 1000000}; within<int>(c, v[i], v[j], w[t]); } else { static const double v[] = {0.0, 0.5, -0.5, 3.0, -8.0, (double)NAN, 0x1p-40, 1.0, 1.0 + 0x1p-40, 1048576.0, -0x1p-40}, w[] = {0.0, 0.5, 1.0, 3.5, 0x1p-41, 0x1p-40, 1048580.0}; within<double>(c, v[i], v[j], w[t]); } c.state(mc::mix((mc::u64)(k * 100 + i), (mc::u64)(j * 7 + t))); }
#ifndef NO_NAMES
// ---- operands that use names which a macro might use itself
MC_SCENARIO(own_names) { using User::same; int k = c.choose(14, "macro"), v = c.choose(3, "value"), name = c.choose(7, "name");
#define USING(x) { int x = v, pass = x == 1; switch (k) { case 0: judged(c, "ASSERT", pass, [&] { HELPER_TEST_ASSERT(x == 1) }); break; case 1: judged(c, "EQUAL", pass, [&] { HELPER_TEST_EQUAL(x, 1) }); break; case 2: judged(c, "EQUALS", pass, [&] { HELPER_TEST_EQUALS(x, 1) }); break; case 3: judged(c, "NOT_EQUAL", !pass, [&] { HELPER_TEST_NOT_EQUAL(1, x) }); break; case 4: judged(c, "CHECK", pass, [&] { HELPER_TEST_CHECK(x, 1) }); break; case 5: judged(c, "SAME", pass, [&] { HELPER_TEST_SAME(x, 1) }); break; case 6: judged(c, "SAME_AS", pass, [&] { HELPER_TEST_SAME_AS(1, x) }); break; case 7: judged(c, "LESS", x < 1, [&] { HELPER_TEST_LESS(x, 1) }); break; case 8: judged(c, "COMPARE", x > 1, [&] { HELPER_TEST_COMPARE(x, >, 1) }); break; case 9: judged(c, "RESULT_COMPARE", x >= 1, [&] { HELPER_TEST_RESULT_COMPARE(int, x, >=, 1) }); break; case 10: judged(c, "RESULT_COMPARE", x <= 1, [&] { HELPER_TEST_RESULT_COMPARE(int, 1, >=, x) }); break; case 11: judged(c, "WITHIN", x <= 1, [&] { HELPER_TEST_WITHIN(0, x, 1) }); break; case 12: judged(c, "UNARY_PREDICATE", x > 0, [&] { HELPER_TEST_UNARY_PREDICATE(positive, x) }); break; default: judged(c, "BINARY_PREDICATE", pass, [&] { HELPER_TEST_BINARY_PREDICATE(eq, x, 1) }); } }
    switch (name) { case 0: USING(ok) break; case 1: USING(result) break; case 2: USING(error) break; case 3: USING(except) break; case 4: USING(err) break; case 5: USING(r) break; default: USING(os) } c.state(mc::mix((mc::u64)(k * 3 + v), (mc::u64)name + 1)); }
#endif
MC_SCENARIO(titles) { int n = c.choose(4, "titles"), first = test_case_counter; for (int i = 0; i != n; ++i) { Account a; c.op("title"); { Capture cap; HELPER_PRINT_TEST_CASE_TITLE("title " << i) } MC_CHECK(c, test_case_counter == first + i + 1 && has(out.text(), std::to_string(first + i + 1) + ": title " + std::to_string(i)) && err.n == 0, "test case title: " << out.text()); MC_CHECK(c, a.failures == HELPER_TEST_FAILURES && a.skipped == HELPER_TEST_SKIPPED, "a title changed a count"); } c.state((mc::u64)n); }
// ---- the check of an iteration, and the clearing of what a test made
struct GridTreeSubpaving { std::vector<int> cells; typedef std::vector<int>::const_iterator ConstIterator; ConstIterator begin() const { return cells.begin(); } ConstIterator end() const { return cells.end(); } };
MC_SCENARIO(iterations) { GridTreeSubpaving tree; int n = c.choose(c.bound(4, 6), "visited"), m = c.choose(c.bound(4, 6), "expected"), wrong = n != m; std::vector<int> want; for (int i = 0; i != n; ++i) tree.cells.push_back(c.choose(2, "cell")); for (int i = 0; i != m; ++i) want.push_back(c.choose(2, "wanted"));
    for (int i = 0; i != n && i != m; ++i) wrong += want[(size_t)i] != tree.cells[(size_t)i]; std::vector<int*> expected; for (int& x : want) expected.push_back(&x); size_t number = (size_t)m;
    Account a; int thrown = 0; { Capture cap; try { HELPER_TEST_GRID_TREE_SUBPAVING_ITERATOR(expected, tree, number) } catch (...) { thrown = 1; } } std::string t = err.text(); size_t reports = 0; for (size_t i = t.find("ERROR"); i != std::string::npos; i = t.find("ERROR", i + 1)) ++reports;
    c.op("check of an iteration over %d, %d expected", n, m); MC_CHECK(c, !thrown && HELPER_TEST_FAILURES - a.failures == wrong && HELPER_TEST_SKIPPED == a.skipped, "the check of an iteration over " << n << " elements where " << m << " were expected added " << HELPER_TEST_FAILURES - a.failures << " to the failure count, expected " << wrong);
    MC_CHECK(c, wrong ? reports >= (size_t)wrong : t.empty(), "the check of an iteration wrote to the error stream: " << t); mc::u64 h = (mc::u64)(n * 7 + m); for (int x : tree.cells) h = mc::mix(h, (mc::u64)x); for (int x : want) h = mc::mix(h, (mc::u64)x + 5); c.state(h); c.outcome((mc::u64)wrong); }
struct Counted { int* n; ~Counted() { ++*n; } };
MC_SCENARIO(cleaning) { int n = c.choose(c.bound(5, 8), "length"), made = 0, gone = 0; std::vector<Counted*> v; for (int i = 0; i != n; ++i) { bool some = c.choose(2, "pointer"); made += some; v.push_back(some ? new Counted{&gone} : nullptr); }
    for (int round = 1; round <= 2; ++round) { Account a; { Capture cap; HELPER_CLEAN_TEST_VECTOR(v) } c.op("cleaning, round %d", round); MC_CHECK(c, gone == made, "cleaning a vector of " << made << " objects destroyed " << gone); MC_CHECK(c, (int)v.size() == n && HELPER_TEST_FAILURES == a.failures && err.n == 0, "cleaning a vector did something else"); for (auto* q : v) MC_CHECK(c, !q, "cleaning left a pointer"); } c.state((mc::u64)(n * 16 + made)); }
MC_MAIN
