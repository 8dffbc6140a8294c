// C06: histories of handles, against independent values.
#include "tracked.hpp"
#include "alloc.hpp"
#include <iostream>
#include <memory>
#include <typeinfo>
#include "handle.hpp"
using mc::Ctx; using mc::Tr; using mc::ledger; using mc::Boom; using Helper::Handle;
static mc::UseLedger use_ledger;
struct NullBuf : std::streambuf { int overflow(int x) override { return x; } std::streamsize xsputn(const char*, std::streamsize n) override { return n; } };
static NullBuf& null_buf = *new NullBuf; struct Quiet { Quiet() { std::cerr.rdbuf(&null_buf); } } quiet;

struct Base { virtual ~Base() = default; virtual Base* clone() const = 0; virtual int get() const = 0; virtual void set(int) = 0; };
struct Sub : Base { virtual Sub* clone() const override = 0; virtual int tag() const = 0; };
struct Other { virtual ~Other() = default; virtual Other* clone() const = 0; virtual int get() const = 0; virtual void set(int) = 0; };
struct X : Base { Tr v; X(int k) : v(k) { } X* clone() const override { return new X(*this); } int get() const override { return v.get(); } void set(int k) override { (void)v.get(); v.v = k; } };
struct Y : Sub, Helper::WritableInterface { Tr v; Y(int k) : v(k) { } Y* clone() const override { return new Y(*this); } int get() const override { return v.get(); } void set(int k) override { (void)v.get(); v.v = k; } int tag() const override { return 1; }
    std::ostream& _write(std::ostream& os) const override { return os << "Y" << v.get(); } };
struct Z : Y { Z(int k) : Y(k) { } Z* clone() const override { return new Z(*this); } int tag() const override { return 2; } };
struct Pad { virtual ~Pad() = default; long filler[3] = {1, 2, 3}; };
struct M : Pad, Sub, Other { Tr v; M(int k) : v(k) { } M* clone() const override { return new M(*this); } int get() const override { return v.get(); } void set(int k) override { (void)v.get(); v.v = k; } int tag() const override { return 3; } };
struct P { Tr v; P(int k) : v(k) { } virtual ~P() = default; };
struct W : Helper::Wrapper<P, Base> { W(int k) : Helper::Wrapper<P, Base>(P(k)) { } W* clone() const override { return new W(*this); } int get() const override { return v.get(); } void set(int k) override { (void)v.get(); v.v = k; } };
struct SubHandle : Handle<Sub> { using Handle<Sub>::Handle; SubHandle(Handle<Sub> h) : Handle<Sub>(h) { } int tag() const { return this->const_reference().tag(); } };

typedef Handle<Base> H; typedef Handle<const Base> CH;
enum { TX, TY, TZ, TM, TW, NT };
static bool is_a(int type, int query) { static const bool t[NT][8] = { // X Y Z M P Sub Other Base
    {1,0,0,0,0,0,0,1}, {0,1,0,0,0,1,0,1}, {0,1,1,0,0,1,0,1}, {0,0,0,1,0,1,1,1}, {0,0,0,0,1,0,0,1} }; return t[type][query]; }
static Base* fresh(int t, int v) { switch (t) { case TX: return new X(v); case TY: return new Y(v); case TZ: return new Z(v); case TM: return new M(v); default: return new W(v); } }

// Every way of extracting Q from an object of dynamic type t held by h.
template<class Q> void extract(Ctx& c, H const& h, int t, int q, const char* name) {
    Base const* obj = h.const_pointer(); Q const* want = dynamic_cast<Q const*>(obj); bool ok = is_a(t, q);
    MC_CHECK(c, (want != nullptr) == ok, "harness type table");
    bool bad = false; Q const* got = nullptr;
    try { got = &Helper::dynamic_handle_extract<Q>(h); } catch (std::bad_cast const&) { bad = true; }
    MC_CHECK(c, bad == !ok, "extracting " << name << " from an object of type " << typeid(*obj).name() << (bad ? " failed" : " succeeded"));
    MC_CHECK(c, bad || got == want, "extracting " << name << " gave another object");
    CH ch(h); bad = false; got = nullptr;
    try { got = &Helper::dynamic_handle_extract<Q>(ch); } catch (std::bad_cast const&) { bad = true; }
    MC_CHECK(c, bad == !ok && (bad || got == want), "extracting " << name << " from a handle to const " << (bad ? "failed" : "succeeded or gave another object"));
    std::shared_ptr<const Base> sp = h.managed_pointer();
    { std::shared_ptr<const Q> p = Helper::dynamic_pointer_extract<Q>(sp);
      MC_CHECK(c, (p != nullptr) == ok && (!ok || p.get() == want), "pointer extraction of " << name << (p ? " gave a wrong object" : " gave null")); }
    MC_CHECK(c, h.const_pointer() == obj, "extraction changed the handle"); }
template<class D> void cast(Ctx& c, H const& h, int t, int q, int v, const char* name) {
    typedef typename D::Interface DI; bool ok = is_a(t, q), bad = false; Base const* obj = h.const_pointer(); auto* want = dynamic_cast<DI const*>(obj);
    try { D d = Helper::dynamic_handle_cast<D>(h);
        MC_CHECK(c, ok, "casting to " << name << " succeeded for " << typeid(*obj).name());
        MC_CHECK(c, d.const_pointer() == want, "casting to " << name << " refers to another object"); MC_CHECK(c, d.const_reference().get() == v, "value through a cast handle");
        if constexpr (!std::is_const<DI>::value) { d.reference().set(v + 1000); MC_CHECK(c, std::as_const(d).reference().get() == v + 1000, "a change through a cast handle is not seen through it"); }
    } catch (std::bad_cast const&) { bad = true; }
    MC_CHECK(c, bad == !ok, "casting to " << name << (bad ? " failed" : " succeeded") << " for " << typeid(*obj).name());
    MC_CHECK(c, h.const_reference().get() == v && h.const_pointer() == obj, "casting to " << name << " (and changing the result) changed the source handle"); }
static void casts(Ctx& c, H const& h, int t, int v) {
    extract<X>(c, h, t, 0, "X"); extract<Y>(c, h, t, 1, "Y"); extract<Z>(c, h, t, 2, "Z"); extract<M>(c, h, t, 3, "M"); extract<P>(c, h, t, 4, "P");
    cast<Handle<Sub>>(c, h, t, 5, v, "Handle<Sub>"); cast<SubHandle>(c, h, t, 5, v, "SubHandle"); cast<Handle<Other>>(c, h, t, 6, v, "Handle<Other>");
    cast<Handle<Y>>(c, h, t, 1, v, "Handle<Y>"); cast<Handle<Z>>(c, h, t, 2, v, "Handle<Z>"); cast<Handle<M>>(c, h, t, 3, v, "Handle<M>"); cast<Handle<X>>(c, h, t, 0, v, "Handle<X>"); cast<H>(c, h, t, 7, v, "Handle<Base>");
    CH ch(h); bool ok = is_a(t, 5), bad = false;
    try { Handle<const Sub> d = Helper::dynamic_handle_cast<Handle<const Sub>>(ch); MC_CHECK(c, d.const_pointer() == dynamic_cast<Sub const*>(h.const_pointer()), "const cast refers to another object"); } catch (std::bad_cast const&) { bad = true; }
    MC_CHECK(c, bad == !ok, "casting a handle to const"); }

enum { READS = 10, WRITES = 6 };
static int read(H const& h, int how) { switch (how) { case 0: return h.reference().get(); case 1: return h.const_reference().get(); case 2: return h.pointer()->get(); case 3: return h.const_pointer()->get(); case 4: return h.raw_pointer()->get();
    case 5: return h.raw_const_pointer()->get(); case 6: return h.ref().get(); case 7: return h.ptr()->get(); case 8: return h.managed_pointer()->get(); default: return static_cast<Base const&>(h).get(); } }
static const void* where(H const& h, int how) { switch (how) { case 0: return &h.reference(); case 1: return &h.const_reference(); case 2: return h.pointer(); case 3: return h.const_pointer(); case 4: return h.raw_pointer();
    case 5: return h.raw_const_pointer(); case 6: return &h.ref(); case 7: return h.ptr(); case 8: return h.managed_pointer().get(); default: return &static_cast<Base const&>(h); } }
static void write(H& h, int how, int v) { switch (how) { case 0: h.reference().set(v); break; case 1: h.pointer()->set(v); break; case 2: h.raw_pointer()->set(v); break; case 3: h.ref().set(v); break; case 4: h.ptr()->set(v); break; default: h.managed_pointer()->set(v); } }

static void history(Ctx& c, int slots, int depth, bool prune, bool faults, int types, int writes, bool memory = false) {
    { std::vector<std::unique_ptr<H>> own((size_t)slots); std::unique_ptr<CH> frozen; int ftype = 0, fval = 0; std::vector<int> type((size_t)slots), val((size_t)slots); int stamp = 0, budget = 1;
      for (int s = 0; s != depth; ++s) {
        int k = c.choose(10, "op"); if (k == 0) break; int i = c.choose(slots, "handle"); size_t u = (size_t)i; auto& o = own[u]; bool live = o && o->const_pointer();
        auto other = [&] { int j = c.choose(slots, "other"); if (!own[(size_t)j] || !own[(size_t)j]->const_pointer()) throw mc::Skip(); return (size_t)j; };
        if ((k <= 2) == (bool)o) throw mc::Skip(); if (k > 2 && !live && k != 3 && k != 5) throw mc::Skip();
        if (k == 1) { int t = c.choose(types, "type"), how = c.choose(t == TW || t == TM ? 2 : 4, "how"), v = ++stamp; c.op("h%d: new object type %d", i, t);
            if (how == 0) o.reset(new H(fresh(t, v))); else if (how == 1) o.reset(new H(std::shared_ptr<Base>(fresh(t, v))));
            else if (how == 2) { if (t == TX) { X x(v); o.reset(new H(x)); } else if (t == TY) { Y x(v); o.reset(new H(x)); } else { Z x(v); o.reset(new H(x)); } }
            else { if (t == TX) o.reset(new H(X(v))); else if (t == TY) o.reset(new H(Y(v))); else o.reset(new H(Z(v))); }
            type[u] = t; val[u] = v; }
        else if (k == 2) { size_t j = other(); int how = c.choose(2, "how"); c.op("h%d: copy of h%zu", i, j); if (how == 0) o.reset(new H(*own[j])); else { if (!is_a(type[j], 5)) throw mc::Skip(); Handle<Sub> hs = Helper::dynamic_handle_cast<Handle<Sub>>(std::as_const(*own[j])); o.reset(new H(hs)); } type[u] = type[j]; val[u] = val[j]; }
        else if (k == 3) { size_t j = other(); c.op("h%d = h%zu", i, j); H& r = (*o = *own[j]); MC_CHECK(c, &r == o.get(), "assignment returned another handle"); type[u] = type[j]; val[u] = val[j]; }
        else if (k == 4) { c.op("h%d destroyed", i); o.reset(); }
        else if (k == 5) { size_t j = other(); if (j == u) throw mc::Skip(); c.op("h%d = move(h%zu)", i, j); *o = std::move(*own[j]); type[u] = type[j]; val[u] = val[j]; own[j].reset(); }
        else if (k == 6) { int how = c.choose(writes, "access"), v = ++stamp; if (faults && budget) { int f = c.choose(6, "fault") - 1; if (memory) mc::memory.plan(f); else ledger.plan(f); }
            c.op("h%d changed%s", i, ledger.countdown >= 0 || mc::memory.countdown >= 0 ? " (copy may fail)" : ""); bool boom = false, want = ledger.countdown >= 0 || mc::memory.countdown >= 0; try { write(*o, how, v); } catch (Boom const&) { boom = true; } catch (std::bad_alloc const&) { boom = true; }
            bool fired = ledger.fired || mc::memory.fired; ledger.cancel(); mc::memory.cancel(); mc::memory.fired = false; if (want && !fired) { c.no_more(); throw mc::Skip(); } ledger.fired = false;
            if (boom) { --budget; } else val[u] = v; }
        else if (k == 7) { if (frozen) { c.op("frozen dropped"); frozen.reset(); } else { c.op("frozen = handle to const of h%d", i); frozen.reset(new CH(*o)); ftype = type[u]; fval = val[u]; } }
        else if (k == 8) { c.op("h%d cast in every way", i); casts(c, *o, type[u], val[u]); }
        else { // mutable extraction: a reference to the object, through which it may be changed
            c.op("h%d extracted mutably and changed", i); int v = ++stamp; bool bad = false;
            try { switch (type[u]) { case TX: Helper::dynamic_handle_extract<X>(*o).set(v); break; case TY: Helper::dynamic_handle_extract<Y>(*o).set(v); break; case TZ: Helper::dynamic_handle_extract<Y>(*o).set(v); break;
                case TM: Helper::dynamic_handle_extract<M>(*o).set(v); break; default: Helper::dynamic_handle_extract<P>(*o).v.v = v; } } catch (std::bad_cast const&) { bad = true; }
            MC_CHECK(c, !bad, "mutable extraction of the dynamic type failed"); val[u] = v;
            MC_CHECK(c, o->const_reference().get() == v, "a change through an extracted reference is not visible through the handle");
            bool thrown = false; try { if (type[u] == TX) (void)Helper::dynamic_handle_extract<M>(*o); else (void)Helper::dynamic_handle_extract<X>(*o); } catch (std::bad_cast const&) { thrown = true; }
            MC_CHECK(c, thrown, "mutable extraction of another type succeeded"); }
        mc::u64 h = 11; std::vector<const void*> seen;
        for (size_t j = 0; j != own.size(); ++j) { if (!own[j] || !own[j]->const_pointer()) { h = mc::mix(h, own[j] ? 1 : 0); continue; }
            const void* p = own[j]->const_pointer(); long before = ledger.constructed;
            for (int how = 0; how != READS; ++how) { int got = read(*own[j], how); MC_CHECK(c, got == val[j], "handle " << j << " shows " << got << " expected " << val[j] << " (read access " << how << ")"); MC_CHECK(c, where(*own[j], how) == p, "read-only access " << how << " changed the object of handle " << j); }
            MC_CHECK(c, ledger.constructed == before, "read-only access copied the object");
            MC_CHECK(c, dynamic_cast<Sub const*>(own[j]->const_pointer()) ? is_a(type[j], 5) : !is_a(type[j], 5), "handle " << j << " lost its dynamic type");
            mc::Disarm d; size_t g = 0; while (g < seen.size() && seen[g] != p) ++g; if (g == seen.size()) seen.push_back(p); h = mc::mix(h, (mc::u64)type[j] * 8 + g + 2); }
        if (frozen) { MC_CHECK(c, frozen->const_reference().get() == fval && frozen->reference().get() == fval && frozen->ref().get() == fval, "the handle to const changed its value to " << frozen->ref().get() << " expected " << fval); mc::Disarm d; size_t g = 0; const void* p = frozen->const_pointer(); while (g < seen.size() && seen[g] != p) ++g; h = mc::mix(h, 50 + g + 8 * (mc::u64)ftype); }
        { mc::Disarm d; std::vector<const void*>().swap(seen); }
        h = mc::mix(h, (mc::u64)budget); if (prune) c.state_or_prune(h, depth - s); else c.state(h); c.outcome(mc::mix(h, (mc::u64)k)); } }
    MC_CHECK(c, ledger.live.empty(), ledger.live.size() << " object(s) never destroyed"); }
MC_SCENARIO(histories, .balance = true) { history(c, 2, c.bound(4, 5), false, false, c.bound(3, 5), 6); }
MC_SCENARIO(reach, .balance = true) { history(c, 3, c.bound(4, 7), true, false, 5, 3); }
MC_SCENARIO(faults, .balance = true) { history(c, 2, c.bound(4, 5), false, true, 2, 3); }

MC_SCENARIO(memory_runs_out, .balance = true) { history(c, 2, c.bound(4, 5), false, true, 2, 3, true); }
// Handles to const interfaces and to concrete types.
MC_SCENARIO(concrete, .balance = true) { int how = c.choose(2), v = c.choose(3), depth = 3; c.op("make_handle");
    { Handle<Z> a = Helper::make_handle<Z>(v); Handle<Z> b(a); Handle<Y> y(a); Handle<const Y> cy(a); int va = v, vb = v, vy = v;
      for (int s = 0; s != depth; ++s) { int k = c.choose(4), nv = 10 * (s + 1) + k; c.op("write %d", k); if (k == 0) { (how ? a.reference() : a.ref()).set(nv); va = nv; } else if (k == 1) { (how ? b.pointer() : b.ptr())->set(nv); vb = nv; } else if (k == 2) { (how ? y.raw_pointer() : y.managed_pointer().get())->set(nv); vy = nv; } else { b = a; vb = va; }
        MC_CHECK(c, std::as_const(a).reference().get() == va && std::as_const(b).reference().get() == vb && std::as_const(y).ref().get() == vy && cy.ref().get() == v, "values " << std::as_const(a).ref().get() << "," << std::as_const(b).ref().get() << "," << std::as_const(y).ref().get() << "," << cy.ref().get());
        MC_CHECK(c, std::as_const(y).reference().tag() == 2, "slicing"); c.state(mc::mix(mc::mix(va, vb), vy)); }
    } MC_CHECK(c, ledger.live.empty(), "object never destroyed"); }
// Many handles of one object.
MC_SCENARIO(many, .balance = true) { static const int extra[] = {63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 1000, 32769, 65535, 65536, 65537}; int m = c.choose(40 + 15, "number"), n = m < 40 ? m + 1 : extra[m - 40], how = c.choose(WRITES), at = c.choose(3, "written"); c.split(); c.op("%d handles", n);
    { std::vector<H> v; v.reserve((size_t)n); v.push_back(H(new X(3))); for (int i = 1; i < n; ++i) v.push_back(v.back()); int w = at == 0 ? n / 2 : at == 1 ? 0 : n - 1; write(v[(size_t)w], how, 8);
      for (int i = 0; i < n; ++i) MC_CHECK(c, std::as_const(v[(size_t)i]).reference().get() == (i == w ? 8 : 3), "handle " << i << " of " << n << " shows " << std::as_const(v[(size_t)i]).reference().get() << " after a change through handle " << w);
      while (v.size() > 1) { v.erase(v.end() - 1); if (v.size() < 300 && (int)v.size() != w) { size_t k = v.size(), j = k / 2; int was = std::as_const(v[j]).ref().get(); write(v[j], how, 100 + (int)k); for (size_t i = 0; i != k; ++i) if (i != j && i + 2 > k) MC_CHECK(c, std::as_const(v[i]).ref().get() != 100 + (int)k, "handle " << i << " of the " << k << " left shows a change made through another"); MC_CHECK(c, std::as_const(v[j]).ref().get() == 100 + (int)k, "a change is not seen"); write(v[j], how, was); } } MC_CHECK(c, std::as_const(v[0]).ref().get() == (w == 0 ? 8 : 3), "last handle"); c.state((mc::u64)((n * 10 + how) * 3 + at)); }
    MC_CHECK(c, ledger.live.empty(), "object never destroyed"); }
// Objects that hold handles: chains of handles behave as sequences of values, also when a handle is assigned from the object it holds.
struct Link { virtual ~Link() = default; virtual Link* clone() const = 0; Tr v; Handle<Link>* next; Link(int k, Handle<Link> const* n) : v(k), next(n ? new Handle<Link>(*n) : nullptr) { } };
struct Cons : Link { Cons(int k, Handle<Link> const* n) : Link(k, n) { } Cons(Cons const& o) : Link(o.v.get(), o.next) { } Cons& operator=(Cons const&) = delete; ~Cons() { delete next; } Cons* clone() const override { return new Cons(*this); } };
MC_SCENARIO(chains, .balance = true) { typedef Handle<Link> L; typedef std::vector<int> Mod; int stamp = 1, slots = 2, steps = c.bound(4, 5);
    { std::vector<std::unique_ptr<L>> own; std::vector<Mod> mod; for (int i = 0; i != slots; ++i) { own.emplace_back(new L(new Cons(stamp, nullptr))); mod.push_back(Mod{stamp}); ++stamp; }
      for (int s = 0; s != steps; ++s) { int op = c.choose(7, "op"); if (op == 0) break; size_t i = (size_t)c.choose(slots, "handle"), j = 1 - i; L& h = *own[i]; Mod& m = mod[i];
        if ((op == 2 || op == 6) && m.size() < 2) throw mc::Skip();
        switch (op) {
          case 1: c.op("h%zu = h%zu", i, j); h = *own[j]; m = mod[j]; break;
          case 2: c.op("h%zu = the handle in its object", i); h = *static_cast<L const&>(h).const_reference().next; m.erase(m.begin()); break;
          case 3: c.op("h%zu is written", i); ++stamp; h.reference().v = Tr(stamp); m[0] = stamp; break;
          case 4: { c.op("a new object in front of h%zu", i); ++stamp; L n(new Cons(stamp, &h)); h = n; m.insert(m.begin(), stamp); break; }
          case 5: { c.op("the object of h%zu gets a copy of h%zu", i, j); Link& o = h.reference(); L* n = new L(*own[j]); delete o.next; o.next = n; m.resize(1); m.insert(m.end(), mod[j].begin(), mod[j].end()); break; }
          default: { c.op("the handle in the object of h%zu is written", i); ++stamp; h.reference().next->reference().v = Tr(stamp); m[1] = stamp; } }
        mc::u64 z = 7; for (int k = 0; k != slots; ++k) { size_t n = 0; for (L const* p = own[(size_t)k].get(); p; p = p->const_reference().next) { MC_CHECK(c, n < mod[(size_t)k].size(), "chain h" << k << " is too long"); MC_CHECK(c, p->const_reference().v.get() == mod[(size_t)k][n], "element " << n << " of chain h" << k << " is " << p->const_reference().v.get() << " expected " << mod[(size_t)k][n]); ++n; }
            MC_CHECK(c, n == mod[(size_t)k].size(), "chain h" << k << " has " << n << " objects, expected " << mod[(size_t)k].size()); for (int v : mod[(size_t)k]) z = mc::mix(z, (mc::u64)v); z = mc::mix(z, 1000); }
        c.state(z); c.outcome(mc::mix(z, (mc::u64)op)); } }
    MC_CHECK(c, ledger.live.empty(), ledger.live.size() << " object(s) never destroyed"); }
MC_MAIN
