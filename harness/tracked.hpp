// tracked.hpp - an element type with a lifetime ledger and injectable faults.
#ifndef MC_TRACKED_HPP
#define MC_TRACKED_HPP
#include "mc.hpp"
#include <unordered_set>
#include <ostream>

namespace mc {

struct Boom { };    // the injected failure (deliberately not a std::exception)

struct Ledger {
    std::unordered_set<const void*> live;
    long constructed = 0, destroyed = 0;
    long countdown = -1;      // the element operation with this index throws
    bool fired = false; long steps = 0;
    void reset() { Disarm d; live.clear(); constructed = destroyed = 0; countdown = -1; fired = false; steps = 0; }
    void plan(long k) { countdown = k; fired = false; steps = 0; }     // k<0: never
    void cancel() { countdown = -1; }
    void step() { ++steps; if (countdown >= 0 && countdown-- == 0) { fired = true; throw Boom(); } }
    void born(const void* p) { Disarm d; ++constructed; if (!live.insert(p).second) poison("element constructed over a live element"); }
    void dead(const void* p) { Disarm d; ++destroyed; if (!live.erase(p)) poison("element destroyed that is not alive"); }
    void use(const void* p, const char* what) const { Disarm d; if (!live.count(p)) poison(what); }
};
inline Ledger ledger;

// A value with tracked lifetime. Every construction and assignment may be made to fail.
struct Tr {
    int v;
    Tr() : v(0) { ledger.step(); ledger.born(this); }
    Tr(int x) : v(x) { ledger.step(); ledger.born(this); }
    Tr(Tr const& t) { ledger.use(&t, "copy from an element that is not alive"); ledger.step(); v = t.v; ledger.born(this); }
    Tr& operator=(Tr const& t) {
        ledger.use(&t, "assignment from an element that is not alive"); ledger.use(this, "assignment to an element that is not alive");
        ledger.step(); v = t.v; return *this; }
    struct Quiet { int v; };
    explicit Tr(Quiet q) : v(q.v) { ledger.born(this); }                // a construction that cannot fail
    ~Tr() { ledger.dead(this); v = -777; }
    int get() const { ledger.use(this, "read of an element that is not alive"); return v; }
    friend bool operator==(Tr const& a, Tr const& b) { return a.get() == b.get(); }
    friend bool operator!=(Tr const& a, Tr const& b) { return a.get() != b.get(); }
    friend bool operator<(Tr const& a, Tr const& b) { return a.get() < b.get(); }
    friend std::ostream& operator<<(std::ostream& os, Tr const& a) { return os << a.get(); }
};

// The same, with moves that leave their source visibly empty: an object that must not change is seen to have been moved from.
struct Mv : Tr {
    static constexpr int moved = -555;
    using Tr::Tr;
    Mv() = default;
    Mv(Mv const&) = default;
    Mv(Mv&& o) noexcept : Tr(Quiet{o.v}) { ledger.use(&o, "move from an element that is not alive"); o.v = moved; }
    Mv& operator=(Mv const&) = default;
    Mv& operator=(Mv&& o) noexcept {
        ledger.use(&o, "move from an element that is not alive"); ledger.use(this, "assignment to an element that is not alive");
        if (this != &o) { v = o.v; o.v = moved; } return *this; }
};

inline void ledger_before() { ledger.reset(); }
inline void ledger_after(Ctx& c) {
    ledger.cancel();
    if (!ledger.live.empty()) c.fail(std::to_string(ledger.live.size()) + " element(s) never destroyed"); }
struct UseLedger { UseLedger() { before_execution = ledger_before; after_execution = ledger_after; } };

} // namespace mc
#endif
