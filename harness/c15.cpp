// C15: stopwatches under every pattern of clock progress and wall clock adjustment.
#include "vclock.hpp"
#include <cmath>
#include "stopwatch.hpp"
using mc::Ctx; using vclock::ll; using Helper::Stopwatch;
// The instants between which a restart or a click took place; with one clock read per call they coincide.
struct Span { ll lo, hi; };
struct Watch { Span start, click; bool clicked; };
template<class D> struct Unit { static constexpr long double ns = (long double)D::period::num * 1e9L / D::period::den; };
template<class D> D cut(ll ns) { return std::chrono::duration_cast<D>(std::chrono::nanoseconds(ns)); }
template<class D> void query(Ctx& c, Stopwatch<D> const& w, Watch const& m, const char* when) {
    ll lo = m.clicked ? m.click.lo - m.start.hi : 0, hi = m.clicked ? m.click.hi - m.start.lo : 0; if (lo < 0) lo = 0; bool integral = std::is_integral<typename D::rep>::value;
    for (int rep = 0; rep != 2; ++rep) { D d = w.duration(); double e = w.elapsed_seconds(); long double x = (long double)e * 1e9L, tol = (integral ? Unit<D>::ns : 0) + 1e-15L * (long double)hi * 4 + 1e-3L;
        if (integral) MC_CHECK(c, d >= cut<D>(lo) && d <= cut<D>(hi), when << ": duration is " << d.count() << " units, expected " << cut<D>(lo).count() << (lo == hi ? "" : " or up to ") << (lo == hi ? "" : std::to_string(cut<D>(hi).count())) << " (interval " << lo << " ns)");
        else MC_CHECK(c, std::fabs((long double)d.count() * Unit<D>::ns - (long double)lo) <= (long double)(hi - lo) + 1e-12L * (long double)hi + 1, when << ": duration is " << d.count() << " expected " << (long double)lo / Unit<D>::ns);
        if (!m.clicked) MC_CHECK(c, d == D::zero() && e == 0.0, when << ": not zero after creation or restart: " << d.count() << ", " << e << " s");
        MC_CHECK(c, x >= (long double)lo - tol && x <= (long double)hi + tol, when << ": elapsed seconds are " << e << " for an interval of " << lo << " ns"); c.ops(2); vclock::pass(rep == 0 ? 12345678901LL : 0); } vclock::pass(-12345678901LL); }
template<class F> Span during(F f) { Span s; s.lo = vclock::mono; f(); s.hi = vclock::step == 0 ? vclock::mono : vclock::mono - vclock::step; if (s.hi < s.lo) s.hi = s.lo; return s; }
static const ll deltas[] = {1, 999, 1000, 999999999LL, 1000000000LL, 60LL * 1000000000 + 500000000, 5000LL * 86400 * 1000000000};
static const ll bases[] = {0, 1, 432000LL * 1000000000 + 999999999, 1LL << 61};
static const ll steps[] = {0, 1, 1500000000LL};
template<class D> void history(Ctx& c, int depth) {
    ll base = bases[c.choose(4, "base")], step = steps[c.choose(3, "step")]; vclock::On on(base, 1790000000LL * 1000000000, step); c.note("clock starts at %lld, %lld ns per reading", base, step);
    Watch m[2]; int n = 1; alignas(Stopwatch<D>) char mem[2][sizeof(Stopwatch<D>)]; memset(mem, 0x5a, sizeof mem); Stopwatch<D>* w[2] = {nullptr, nullptr};
    m[0].start = during([&] { w[0] = new (mem[0]) Stopwatch<D>; }); m[0].clicked = false; query(c, *w[0], m[0], "after creation"); MC_CHECK(c, step == 0 || vclock::reads > 0, "harness: no clock was read"); mc::u64 h = 3;
    for (int q = 0; q != depth; ++q) { int k = c.choose(15); if (k == 0) break; --k;
        if (k == 0) { c.op("restart"); Stopwatch<D>* r = nullptr; m[0].start = during([&] { r = &w[0]->restart(); }); m[0].clicked = false; MC_CHECK(c, r == w[0], "restart returns something else"); }
        else if (k == 1) { c.op("click"); Stopwatch<D>* r = nullptr; m[0].click = during([&] { r = &w[0]->click(); }); m[0].clicked = true; MC_CHECK(c, r == w[0], "click returns something else"); }
        else if (k == 2) { c.op("second watch"); if (n == 2) throw mc::Skip(); n = 2; m[1].start = during([&] { w[1] = new (mem[1]) Stopwatch<D>; }); m[1].clicked = false; }
        else if (k == 3) { c.op("click second"); if (n == 1) throw mc::Skip(); m[1].click = during([&] { w[1]->click(); }); m[1].clicked = true; }
        else if (k == 4) { c.op("copy"); Stopwatch<D> t(*w[0]); query(c, t, m[0], "copy"); if (n == 2) { *w[1] = *w[0]; m[1] = m[0]; } }
        else if (k < 12) { ll d = deltas[k - 5]; if (vclock::mono > (1LL << 62)) throw mc::Skip(); c.op("%lld ns pass", d); vclock::pass(d); }
        else { ll j = k == 12 ? -7200LL * 1000000000 : 3600LL * 1000000000 + 1; c.op("wall clock set by %lld ns", j); vclock::wall += j; }
        h = mc::mix(h, (mc::u64)k); query(c, *w[0], m[0], "first watch"); if (n == 2) query(c, *w[1], m[1], "second watch"); c.state(mc::mix(h, (mc::u64)(base ^ step))); }
    c.outcome(m[0].clicked ? (mc::u64)(m[0].click.hi - m[0].start.lo) : 0); }
MC_SCENARIO(seconds) { history<Helper::Seconds>(c, c.bound(5, 6)); }
MC_SCENARIO(milliseconds) { history<Helper::Milliseconds>(c, c.bound(5, 6)); }
MC_SCENARIO(microseconds) { history<Helper::Microseconds>(c, c.bound(4, 6)); }
MC_SCENARIO(nanoseconds) { history<std::chrono::nanoseconds>(c, c.bound(4, 5)); }
MC_SCENARIO(minutes) { history<std::chrono::minutes>(c, c.bound(4, 5)); }
MC_SCENARIO(real_seconds) { history<std::chrono::duration<double>>(c, c.bound(4, 5)); }
MC_SCENARIO(real_millis) { history<std::chrono::duration<double, std::milli>>(c, c.bound(3, 5)); }
MC_SCENARIO(thirds) { history<std::chrono::duration<long long, std::ratio<1, 3>>>(c, c.bound(4, 5)); }
// Chains of calls and the truncation at every border of a unit.
MC_SCENARIO(borders) { static const ll units[] = {1000, 1000000, 1000000000, 60000000000LL}; ll u = units[c.choose(4, "unit")], n = std::vector<ll>{0, 1, 2, 9, 10, 59, 60, 999, 1000, 1001, 4294967, 1000000}[(size_t)c.choose(12, "count")], o = c.choose(5, "offset") - 2; ll t = n * u + o; if (t < 0) throw mc::Skip(); vclock::On on(77, 88, 0); c.op("%lld ns", t);
    auto one = [&](auto unit) { typedef decltype(unit) D; Stopwatch<D> w; vclock::pass(3333); vclock::wall -= 100000000000LL; ll s = vclock::mono; auto& r = w.restart(); vclock::pass(t); Watch m{{s, s}, {vclock::mono, vclock::mono}, true}; r.click(); query(c, w, m, "at a border"); MC_CHECK(c, w.click().duration() == cut<D>(vclock::mono - s) && w.restart().duration() == D::zero() && w.restart().click().duration() == D::zero(), "chained calls"); };
    one(Helper::Seconds()); one(Helper::Milliseconds()); one(Helper::Microseconds()); one(std::chrono::nanoseconds()); one(std::chrono::minutes()); one(std::chrono::hours()); one(std::chrono::duration<long long, std::ratio<1, 60>>()); c.state((mc::u64)t + 1); c.outcome((mc::u64)n); }
MC_MAIN
