// C23: threads that read shared objects and threads that work on their own objects, under every interleaving
// up to a preemption bound; every memory access of the library's code is a possible place for a switch.
#include "mc.hpp"
#include "sched.hpp"
#include <sstream>
#include <mutex>
#include <shared_mutex>
#include <atomic>
#include "array.hpp"
#include "container.hpp"
#include "binary_word.hpp"
#include "range.hpp"
#include "lazy.hpp"
#include "handle.hpp"
#include "lru_cache.hpp"
#include "string.hpp"
#include "stlio.hpp"
#include "tuple.hpp"
#include "stopwatch.hpp"
#include "iterator.hpp"
#include "writable.hpp"
#include "variant.inl.hpp"
using mc::Ctx; using namespace Helper;
// An element that owns memory.
struct Cell { int* p; Cell(int v = 0) : p(new int(v)) { } Cell(Cell const& o) : p(new int(*o.p)) { } Cell& operator=(Cell const& o) { *p = *o.p; return *this; } ~Cell() { delete p; } operator int() const { return *p; } friend bool operator<(Cell const& a, Cell const& b) { return *a.p < *b.p; } friend bool operator==(Cell const& a, Cell const& b) { return *a.p == *b.p; } friend std::ostream& operator<<(std::ostream& os, Cell const& c) { return os << *c.p; } };
struct Base { virtual ~Base() = default; virtual Base* clone() const = 0; virtual int get() const = 0; virtual void set(int) = 0; };
struct Sub : Base { int v; int* q; Sub(int k) : v(k), q(new int(k)) { } Sub(Sub const& o) : v(o.v), q(new int(*o.q)) { } ~Sub() { delete q; } Sub* clone() const override { return new Sub(*this); } int get() const override { return v == *q ? v : -1; } void set(int k) override { v = k; *q = k; } };
struct Other : Base { int get() const override { return 1; } void set(int) override { } Other* clone() const override { return new Other(*this); } };
typedef Handle<Base> H; typedef Handle<const Base> CH;
// An iterator on the facade, a variant, an object that writes itself and a writer.
struct It : IteratorFacade<It, int const, RandomAccessTraversalTag> { int const* p; It(int const* q) : p(q) { } bool equal(It const& o) const { return p == o.p; } std::ptrdiff_t distance_to(It const& o) const { return o.p - p; } void advance(std::ptrdiff_t n) { p += n; } int const& dereference() const { return *p; } };
struct Fi : IteratorFacade<Fi, int const, ForwardTraversalTag> { int const* p; Fi(int const* q) : p(q) { } bool equal(Fi const& o) const { return p == o.p; } void increment() { ++p; } int const& dereference() const { return *p; } };
struct C1 { static constexpr int code() { return 1; } }; struct C2 { static constexpr int code() { return 2; } }; struct C5 { static constexpr int code() { return 5; } }; typedef CodedVariant<int, C1, C2, C5> Var; struct Which { int n; int operator()(C1) const { return n + 1; } int operator()(C2) const { return n + 2; } int operator()(C5) const { return n + 5; } };
struct SelfWriting : WritableInterface { int n; SelfWriting(int k) : n(k) { } std::ostream& _write(std::ostream& os) const override { return os << "self" << n; } };
struct Wr : WriterInterface<int> { int n; Wr(int k) : n(k) { } std::ostream& _write(std::ostream& os, int const& t) const override { return os << "<" << n << ":" << t << ">"; } };
static int larger = 0; // how many elements the objects of a World have in addition
struct World {
    Array<int> a{4, 7, 1}, b{4, 7, 2}, none; Array<Cell> cells{Cell(5), Cell(6)}; SharedArray<int> shared{3, 1, 2}; List<int> l{3, 1, 2}, l2{2, 9}; List<Cell> lc{Cell(8), Cell(9)}; LinkedList<int> ll{4, 5}; Set<int> s{1, 3, 5}, t{3, 4}; Set<Cell> sc{Cell(2), Cell(1)}; Map<int, String> m{{1, "one"}, {4, "a text that is longer than the small ones"}}; Set<int> keys{4, 6}; BinaryWord w{String("[0,1,1,0]")}, v{String("[1,1]")}, e; Range r{3, 7};
    Lazy<Cell> lazy{function<Cell*()>([] { return new Cell(77); })}; Lazy<int> lazy2{function<int*()>([] { return new int(5); })}; H h{new Sub(7)}; CH ch{std::shared_ptr<const Base>(new Sub(8))}; LRUCache<int, Cell> cache{3};
    World() { lazy(); cache.put(1, Cell(11)); cache.put(2, Cell(22)); cache.put(3, Cell(33)); cache.put(4, Cell(44)); cache.get(2); if (larger) grow(); }
    void grow() { a.resize((size_t)larger, 8); b.resize((size_t)larger, 8); cells.resize((size_t)larger, Cell(4)); shared = SharedArray<int>((size_t)larger, 5); for (int i = 0; i != larger; ++i) { l.append(i % 7); l2.append(i); lc.append(Cell(i)); ll.append(i); s.insert(2 * i); t.insert(3 * i); sc.insert(Cell(i)); m.insert(2 * i + 10, String("text ") + std::to_string(i)); keys.insert(i * 3); w.append(i % 3 == 0); v.append(i % 2 == 0); } } };
struct Larger { Larger(int n) { larger = n; } ~Larger() { larger = 0; } };
struct Reader { int kind; const char* name; void (*fn)(World&, std::ostream&); };
static const auto twice = [](int x) { return 2 * x; }; static const auto sum2 = [](int x, int y) { return x + y; };
static const Reader readers[] = {
    {0, "array iteration", [](World& x, std::ostream& os) { for (auto& y : std::as_const(x.a)) os << y << ' '; }}, {0, "array print", [](World& x, std::ostream& os) { os << std::as_const(x.a) << x.none; }}, {0, "array copy", [](World& x, std::ostream& os) { Array<int> y(std::as_const(x.a)); y[0] = 9; os << y.size() << y[1]; }}, {0, "array compare", [](World& x, std::ostream& os) { os << (std::as_const(x.a) == x.b) << (std::as_const(x.a) != x.a); }}, {0, "array of cells conversion", [](World& x, std::ostream& os) { Array<int> y(std::as_const(x.cells)); Array<Cell> z = std::as_const(x.cells); os << y[1] << z[0] << std::as_const(x.cells).at(1) << x.cells.front() << x.cells.back(); }}, {0, "shared array reading", [](World& x, std::ostream& os) { for (auto& y : std::as_const(x.shared)) os << y; os << std::as_const(x.shared)[1] << std::as_const(x.shared).size(); }}, {0, "shared array print", [](World& x, std::ostream& os) { os << std::as_const(x.shared); }}, {0, "array make list", [](World& x, std::ostream& os) { os << make_list(std::as_const(x.a)).size() << make_array(x.l).size(); }},
    {1, "list print", [](World& x, std::ostream& os) { os << std::as_const(x.l); }}, {1, "list catenate", [](World& x, std::ostream& os) { os << catenate(std::as_const(x.l), x.l2).size() << catenate(x.l, 4).back(); }}, {1, "list apply", [](World& x, std::ostream& os) { os << elementwise(twice, std::as_const(x.l))[1] << elementwise(sum2, x.l, x.l).size(); }}, {1, "list of cells conversion", [](World& x, std::ostream& os) { List<int> y(std::as_const(x.lc)); List<Cell> z(x.lc); os << y[0] << z[1]; }}, {1, "unique elements", [](World& x, std::ostream& os) { os << unique_elements(std::as_const(x.l)) << duplicate_elements(std::as_const(x.l)).size(); }}, {1, "list make set", [](World& x, std::ostream& os) { os << make_set(std::as_const(x.l)).size(); }}, {1, "linked list print", [](World& x, std::ostream& os) { os << std::as_const(x.ll); }}, {1, "linked list copy", [](World& x, std::ostream& os) { LinkedList<int> y(std::as_const(x.ll)); y.push_back(1); os << y.size(); }}, {1, "stlio", [](World& x, std::ostream& os) { write_sequence(os, x.l.begin(), x.l.end()); }},
    {2, "set print", [](World& x, std::ostream& os) { os << std::as_const(x.s); }}, {2, "set contains", [](World& x, std::ostream& os) { os << std::as_const(x.s).contains(3) << contains(x.s, 4); }}, {2, "set subset", [](World& x, std::ostream& os) { os << subset(std::as_const(x.s), x.t) << std::as_const(x.s).subset(x.s) << disjoint(x.s, x.t) << std::as_const(x.s).disjoint(x.l); }}, {2, "set algebra", [](World& x, std::ostream& os) { os << intersection(std::as_const(x.s), x.t).size() << difference(std::as_const(x.s), x.t).size() << join(x.s, x.t).size(); }}, {2, "set copy", [](World& x, std::ostream& os) { Set<int> y(std::as_const(x.s)); y.adjoin(x.t); y.remove(1); os << y.size(); }}, {2, "set of cells", [](World& x, std::ostream& os) { Set<Cell> y(std::as_const(x.sc)); List<Cell> z(std::as_const(x.sc)); os << y.size() << z[0]; }}, {2, "set apply", [](World& x, std::ostream& os) { os << apply(twice, std::as_const(x.s)).size() << make_list(x.s).size(); }},
    {3, "map print", [](World& x, std::ostream& os) { os << std::as_const(x.m); }}, {3, "map get", [](World& x, std::ostream& os) { os << std::as_const(x.m)[1] << std::as_const(x.m).get(4) << x.m.value(1) << x.m.has_key(2); }}, {3, "map failing get", [](World& x, std::ostream& os) { try { os << std::as_const(x.m).get(9); } catch (std::exception const&) { os << "no key"; } }}, {3, "map keys and values", [](World& x, std::ostream& os) { os << std::as_const(x.m).keys().size() << std::as_const(x.m).values()[0]; }}, {3, "map restrict", [](World& x, std::ostream& os) { os << restrict_keys(std::as_const(x.m), x.keys).size() << join(x.m, x.m).size(); }}, {3, "map copy", [](World& x, std::ostream& os) { Map<int, String> y(std::as_const(x.m)); y.insert(2, "b"); os << y.size(); }},
    {4, "word print", [](World& x, std::ostream& os) { os << std::as_const(x.w) << x.e; }}, {4, "word compare", [](World& x, std::ostream& os) { os << (std::as_const(x.w) < x.v) << (x.v < x.w) << (x.w == x.v); }}, {4, "word prefix", [](World& x, std::ostream& os) { os << std::as_const(x.v).is_prefix(x.w) << x.v.is_subword(x.w); }}, {4, "word copy", [](World& x, std::ostream& os) { BinaryWord y(std::as_const(x.w)); y.append(x.v); y.erase_prefix(1); os << y.size() << y.bytes() << y.back(); }}, {4, "word text", [](World& x, std::ostream& os) { os << to_string(std::as_const(x.w)) << make_binary_word("[1,0]").size(); }}, {4, "range", [](World& x, std::ostream& os) { for (auto i : x.r) os << i; os << std::as_const(x.r)[1] << x.r.size() << range(2).stop(); }},
    {5, "lazy read", [](World& x, std::ostream& os) { os << std::as_const(x.lazy)() << std::as_const(x.lazy)(); }}, {5, "lazy copy", [](World& x, std::ostream& os) { Lazy<Cell> y(std::as_const(x.lazy)); os << y(); Lazy<Cell> z(y); z = x.lazy; os << z(); }}, {5, "unevaluated lazy copy", [](World& x, std::ostream& os) { Lazy<int> y(std::as_const(x.lazy2)); os << y() << y(); }}, {5, "handle read", [](World& x, std::ostream& os) { os << std::as_const(x.h).const_reference().get() << std::as_const(x.h).pointer()->get() << std::as_const(x.h).ref().get() << x.ch.const_reference().get(); }}, {5, "handle copy", [](World& x, std::ostream& os) { H y(std::as_const(x.h)); os << std::as_const(y).reference().get(); y.reference().set(3); os << std::as_const(y).reference().get(); }}, {5, "handle cast", [](World& x, std::ostream& os) { Handle<Sub> y = dynamic_handle_cast<Handle<Sub>>(std::as_const(x.h)); os << std::as_const(y).reference().get(); }}, {5, "handle failing cast", [](World& x, std::ostream& os) { try { (void)dynamic_handle_cast<Handle<Other>>(std::as_const(x.h)); os << "cast"; } catch (std::bad_cast const&) { os << "no cast"; } }}, {5, "handle extract", [](World& x, std::ostream& os) { os << dynamic_handle_extract<Sub>(std::as_const(x.h)).get() << dynamic_handle_extract<Sub>(std::as_const(x.ch)).get(); }}, {5, "handle managed pointer", [](World& x, std::ostream& os) { auto p = std::as_const(x.h).managed_pointer(); os << p->get(); auto q = x.ch.managed_const_pointer(); os << q->get(); }}, {5, "handle to const", [](World& x, std::ostream& os) { CH y(std::as_const(x.h)); CH z(y); os << z.const_reference().get(); }},
    {6, "cache labels", [](World& x, std::ostream& os) { os << x.cache.has_label(1) << x.cache.has_label(2) << x.cache.has_label(9); }}, {6, "cache ages", [](World& x, std::ostream& os) { os << x.cache.age(2) << x.cache.age(3); }}, {6, "cache failing age", [](World& x, std::ostream& os) { try { os << x.cache.age(8); } catch (std::exception const&) { os << "no label"; } }}, {6, "cache size", [](World& x, std::ostream& os) { os << std::as_const(x.cache).current_size() << std::as_const(x.cache).maximum_size(); }},
};
enum { READERS = sizeof readers / sizeof readers[0], KINDS = 7 };
struct Script { const char* name; void (*fn)(int, std::ostream&); };
static const Script scripts[] = {
    {"own array", [](int n, std::ostream& os) { Array<Cell> a((size_t)(2 + n), Cell(n)), b(a); a.resize(1); a[0] = Cell(5 + n); b = a; Array<Cell> c(std::move(a)); os << b << c << a.size(); std::swap(b, c); os << (b == c); }},
    {"own shared array", [](int n, std::ostream& os) { SharedArray<int> a{n, 2, 3}, b(a); b[0] = n + 4; SharedArray<int> c(3u, n); c = a; os << a << b << c; }},
    {"own list", [](int n, std::ostream& os) { List<int> l{n, 2}; l.append(3); l.concatenate(List<int>{n, n}); l.append(catenate(l, n)); os << l << unique_elements(l) << duplicate_elements(l); }},
    {"own set", [](int n, std::ostream& os) { Set<Cell> s{Cell(n), Cell(3)}; s.adjoin(Set<Cell>{Cell(9)}); s.insert(Cell(n + 20)); s.restrict(Set<Cell>{Cell(9), Cell(n)}); os << s << s.contains(Cell(n)); s.remove(Cell(n)); os << s.size(); }},
    {"own map", [](int n, std::ostream& os) { Map<int, Cell> m{{n, Cell(1)}}; m.insert(n + 5, Cell(2)); m[n] = Cell(4); os << m; m.erase(n); os << m.keys() << m.values(); Map<int, Cell> k = restrict_keys(m, Set<int>{n + 5}); os << k.size() << join(k, m); }},
    {"own word", [](int n, std::ostream& os) { BinaryWord w(n ? "[0,1]" : "[1]"); w.append(true); w.append(w); w.set_back(n); os << w << w.is_prefix(w); std::stringstream ss("[1,0,1]x"); ss >> w; w.erase_prefix(n); os << w << to_string(w); }},
    {"own lazy", [](int n, std::ostream& os) { Lazy<Cell> l([n] { return new Cell(n); }), k(l); os << l() << k() << l(); Lazy<Cell> j(l); k = j; os << k() << j(); }},
    {"own handle", [](int n, std::ostream& os) { H h(new Sub(n)), g(h); g.reference().set(n + 7); os << std::as_const(h).reference().get() << std::as_const(g).reference().get(); h = g; h.pointer()->set(2); os << std::as_const(g).reference().get(); H k(std::move(g)); os << k.managed_pointer()->get(); try { (void)dynamic_handle_cast<Handle<Other>>(k); os << "cast"; } catch (std::bad_cast const&) { os << "bad"; } }},
    {"own cache", [](int n, std::ostream& os) { LRUCache<int, Cell> c(2); c.put(1, Cell(n)); c.put(2, Cell(5)); os << c.get(1); c.put(3, Cell(6)); os << c.has_label(2) << c.age(1) << c.current_size(); try { c.get(2); } catch (std::exception const&) { os << "none"; } try { c.put(3, Cell(1)); } catch (std::exception const&) { os << "there"; } }},
    {"own texts", [](int n, std::ostream& os) { std::vector<int> v{n, 2}; os << to_string(n) << to_str(n * 1.5) << to_string(v); write_sequence(os, v.begin(), v.end(), '(', ')', ';'); std::map<int, String> m{{n, "x"}}; os << m << std::make_pair(n, 2) << std::make_tuple(n, 1); }},
    {"own reading", [](int n, std::ostream& os) { std::stringstream ss(n ? "{1,2,3}" : "{7}"); std::vector<int> v; read_sequence(ss, v, '{', '}', ','); os << v; std::stringstream tt("[4, 5"); try { read_sequence(tt, v, '[', ']', ','); os << v; } catch (std::exception const&) { os << "malformed"; } }},
    {"own tuple and range", [](int n, std::ostream& os) { int a = 0, b = 0; make_lpair(a, b) = std::make_pair(n, 4); os << a << b; for (auto i : range((size_t)n, (size_t)n + 3)) os << i; }},
    {"own stopwatch", [](int, std::ostream& os) { Stopwatch<Microseconds> s; os << s.duration().count() << (s.click().duration().count() >= 0) << s.restart().duration().count() << s.elapsed_seconds(); }},
    {"own iterators", [](int n, std::ostream& os) { int a[] = {n, 4, 5, 6}; It i(a), j(a + 3); os << (j - i) << *(i + 2) << (i < j) << (i >= j) << *j << (i == j); i += 2; --i; os << *i; Fi f(a); Fi g = f++; os << *f << *g << (f != g); }},
    {"own variant", [](int n, std::ostream& os) { Var v = C2(), w(n ? 5 : 1); os << v.code() << w.code() << v.accept(Which{n}) << w.accept(Which{10}) << holds_alternative<C5>(w); v = w; os << v.code(); }},
    {"own writers", [](int n, std::ostream& os) { SelfWriting s(n); os << s << static_cast<WritableInterface const&>(s); Wr w(n); os << w(4) << to_string(s); }},
    {"own linked list and conversions", [](int n, std::ostream& os) { LinkedList<int> l(List<int>{n, 3}); l.append(4); l.concatenate(l); os << l << make_list(Set<int>{5, n}) << make_set(List<int>{2, n, 2}) << make_array(List<int>{n}) << complement(4u, Array<size_t>{(size_t)n}); os << Helper::apply([n](int x) { return x + n; }, List<int>{1, 2}) << elementwise(twice, List<int>{n}); }},
    {"own set operations", [](int n, std::ostream& os) { Set<int> s{n, 3, 7}, t{3, n + 4}; os << s.subset(t) << subset(t, s) << disjoint(s, t) << s.disjoint(List<int>{n}) << contains(s, 3) << intersection(s, t) << intersection(s, List<int>{3, 3}) << difference(s, t) << join(s, t); s.remove(t); s.remove(List<int>{7}); remove(t, s); os << s << t << Helper::apply(twice, t); }},
    {"own failures", [](int n, std::ostream& os) { try { HELPER_ASSERT_MSG(n > 5, "n is " << n) } catch (std::exception const& e) { os << e.what(); } try { HELPER_PRECONDITION(n == 7) } catch (std::exception const& e) { os << e.what(); } try { HELPER_THROW(std::out_of_range, "here", "with " << n) } catch (std::exception const& e) { os << e.what(); } }},
};
enum { SCRIPTS = sizeof scripts / sizeof scripts[0] };
// The same with larger objects of several element types; N is the size.
static int N = 17; template<class T> static T item(int k); template<> int item<int>(int k) { return k; } template<> double item<double>(int k) { return k + 0.5; } template<> std::string item<std::string>(int k) { return "a text with the number " + std::to_string(k); } template<> Cell item<Cell>(int k) { return Cell(k); }
template<class T> static List<T> items(int n, int from = 0, int step = 1) { List<T> l; for (int i = 0; i != n; ++i) l.append(item<T>(from + i * step)); return l; }
template<class T> [[maybe_unused]] static void large_array(int n, std::ostream& os) { Array<T> a((size_t)N, item<T>(n)), b(a); a.resize((size_t)N + 3); a[1] = item<T>(5 + n); a.resize((size_t)N / 2, item<T>(9)); b = a; Array<T> c(std::move(a)); os << b << c << a.size(); std::swap(b, c); os << (b == c); b.fill(item<T>(7)); c = Array<T>((size_t)N, [n](size_t i) { return item<T>((int)i * 3 + n); }); os << c << c.at((size_t)N - 1); std::vector<T> v(c.begin(), c.end()); Array<T> d(v.begin(), v.end()); os << (d == c) << (d != b); d.reallocate(3); std::swap(d, c); os << d.size(); }
template<class T> [[maybe_unused]] static void large_shared(int n, std::ostream& os) { SharedArray<T> a((size_t)N, item<T>(n)), b(a); b[(size_t)N - 1] = item<T>(n + 4); SharedArray<T> c(3u, item<T>(1)); c = a; a = SharedArray<T>((size_t)N + 1, item<T>(2)); os << a << b << c << c.size(); std::vector<SharedArray<T>> o; for (int i = 0; i != 20; ++i) o.push_back(c); os << o[7][2]; }
template<class T> [[maybe_unused]] static void large_list(int n, std::ostream& os) { List<T> l = items<T>(N, n); l.append(item<T>(n)); l.concatenate(items<T>(N / 2, 3)); l.append(items<T>(3)); os << l << unique_elements(l) << duplicate_elements(l) << catenate(l, l).size() << catenate(l, item<T>(4)).size(); l.append(l); l.concatenate(l); os << l.size(); }
template<class T> [[maybe_unused]] static void large_set(int n, std::ostream& os) { Set<T> s(items<T>(N, n, 2)), t(items<T>(N, 0, 3)); os << s.subset(t) << subset(t, s) << disjoint(s, t) << s.disjoint(items<T>(N, 1, 5)) << contains(s, item<T>(6)) << s.contains(item<T>(7)) << intersection(s, t) << intersection(s, items<T>(N)) << difference(s, t) << join(s, t); Set<T> u(s); u.adjoin(t); os << u.size(); u.restrict(t); os << u; u.remove(s); u.remove(items<T>(5)); os << u << make_list(u).size(); u.insert(item<T>(n)); os << u; u.clear(); remove(t, s); os << t; }
template<class T> [[maybe_unused]] static void large_map(int n, std::ostream& os) { Map<int, T> m, k; for (int i = 0; i != N; ++i) { m.insert(i * 2 + n, item<T>(i)); k[i * 3] = item<T>(i + 100); } os << m << m.keys() << m.values() << m.has_key(4) << m.has_key(-1) << m.get(n + 2) << m.value(n + 4); try { m.get(-5); } catch (std::exception const& e) { os << e.what(); } Set<int> s(items<int>(N, 0, 4)); os << restrict_keys(m, s) << join(m, k).size(); m.adjoin(k); m.remove_keys(s); os << m << restrict_keys(k, s).size(); Map<int, T> j(k); j.insert(std::make_pair(-3, item<T>(1))); j.erase(3); os << (j.begin()->first); }
template<class T> [[maybe_unused]] static void large_cache(int n, std::ostream& os) { LRUCache<T, T> c((size_t)N); for (int i = 0; i != N + N / 2; ++i) { T x = item<T>(i); c.put(x, item<T>(i + n)); if (i % 3 == 0 && i > 3) os << c.get(item<T>(i - 2)) << ' '; } for (int i = 0; i != N + N / 2; i += 5) { T x = item<T>(i); os << c.has_label(x); if (c.has_label(x)) os << c.age(x) << c.get(x); else try { c.get(x); } catch (std::exception const& e) { os << std::string(e.what()).size(); } } os << c.current_size() << c.maximum_size(); }
static const Script large_scripts[] = {
    {"array of int", large_array<int>}, {"array of double", large_array<double>}, {"array of text", large_array<std::string>}, {"array of cells", large_array<Cell>}, {"shared array of int", large_shared<int>}, {"shared array of text", large_shared<std::string>},
    {"list of int", large_list<int>}, {"list of text", large_list<std::string>}, {"list of cells", large_list<Cell>}, {"set of int", large_set<int>}, {"set of text", large_set<std::string>}, {"set of cells", large_set<Cell>}, {"map to double", large_map<double>}, {"map to text", large_map<std::string>}, {"cache of int", large_cache<int>}, {"cache of text", large_cache<std::string>},
    {"words", [](int n, std::ostream& os) { BinaryWord w, v; for (int i = 0; i != N; ++i) { w.append(i % 3 == n); v.append(i % 5 == 0); } BinaryWord u(w); u.append(v); os << w << u << w.is_prefix(u) << v.is_subword(u) << (w < u) << (u < v) << (u == w) << u.bytes() << u.size(); std::stringstream ss; ss << u << ' ' << v; BinaryWord x, y; ss >> x >> y; os << (x == u) << (y == v); x.erase_prefix(N / 2); os << x; x.set_back(true); x.append(x); os << to_string(x) << BinaryWord(to_string(w)); }},
    {"linked lists and conversions", [](int n, std::ostream& os) { List<int> l = items<int>(N, n); LinkedList<int> k(l); k.append(4); k.concatenate(k); os << k << make_list(make_set(l)) << make_array(l) << Array<double>(make_array(l)) << List<double>(l) << Set<long>(make_set(l)) << Helper::apply(twice, l) << elementwise(twice, l) << elementwise(sum2, l, l) << Helper::apply(twice, make_set(l)); }},
    {"complements and ranges", [](int n, std::ostream& os) { Array<size_t> s((size_t)N / 2, [n](size_t i) { return i * 2 + (size_t)n; }); os << complement((size_t)N + 2, s); size_t k = 0; for (auto i : range((size_t)n, (size_t)N)) k += i; auto r = range((size_t)N); os << k << r.size() << r[3]; }},
    {"texts", [](int n, std::ostream& os) { List<int> l = items<int>(N, n); std::vector<std::string> v; for (int i = 0; i != N; ++i) v.push_back(item<std::string>(i)); os << to_string(l) << to_str(v) << to_string(n * 0.5); write_sequence(os, v.begin(), v.end(), '<', '>', ';'); std::ostringstream ss; write_sequence(ss, l.begin(), l.end(), '[', ']', ','); std::istringstream is(ss.str()); std::vector<int> back; read_sequence(is, back, '[', ']', ','); os << back << (back == l); Map<std::string, std::vector<int>> m; m["x"] = back; m["y"]; os << m << std::make_pair(l, n) << std::make_tuple(n, l, item<std::string>(n)); }},
    {"handles", [](int n, std::ostream& os) { H h(new Sub(n)); std::vector<H> v; for (int i = 0; i != N; ++i) v.push_back(i % 2 ? v[(size_t)i / 2] : h); v[3].reference().set(44); v[(size_t)N - 1].pointer()->set(55); for (auto const& x : v) os << x.const_reference().get() << ' '; for (int i = 0; i + 1 < N; i += 3) v[(size_t)i] = v[(size_t)i + 1]; for (auto const& x : v) os << x.const_reference().get() << ' '; while (v.size() > 2) { v.pop_back(); v[1].reference().set((int)v.size()); } os << v[0].const_reference().get() << v[1].const_reference().get() << std::as_const(h).reference().get(); }},
    {"lazies", [](int n, std::ostream& os) { int made = 0; Lazy<Cell> l([&made, n] { ++made; return new Cell(n); }); std::vector<Lazy<Cell>> v; for (int i = 0; i != N; ++i) { v.push_back(i ? v[(size_t)i / 2] : l); if (i == N / 2) for (auto& x : v) os << x(); } for (auto& x : v) os << x(); os << (made > 0); }},
    {"variants and writers", [](int n, std::ostream& os) { for (int i = 0; i != N; ++i) { Var v(i % 3 == 0 ? 1 : i % 3 == 1 ? 2 : 5); os << v.accept(Which{n}); SelfWriting s(i); os << s; Wr w(i); os << w(n); } }},
};
enum { LARGE = sizeof large_scripts / sizeof large_scripts[0] };
// ---- running
struct Driver { Ctx* c; bool skip = false; }; static int choose(int n, void* arg) { Driver& d = *(Driver*)arg; if (d.skip) return -1; try { return d.c->choose(n, "next"); } catch (mc::Skip const&) { d.skip = true; return -1; } }
template<class F> static void run(Ctx& c, int n, F f, sched::Mode mode, int preemptions) { Driver d{&c}; sched::run(n, [](int t, void* a) { (*(F*)a)(t); }, &f, mode, preemptions, &choose, &d); if (d.skip) throw mc::Skip(); c.ops(sched::accesses()); }
static void clean(Ctx& c, std::string const& what) { MC_CHECK(c, !sched::violation(), what << ": " << sched::violation()); }
static std::string alone(Reader const& r) { World w; std::ostringstream os; r.fn(w, os); return os.str(); }
static void read_shared(Ctx& c, int n, int const* op, int preemptions, sched::Mode mode = sched::AT_ALL) { std::unique_ptr<World> w(new World); std::unique_ptr<std::ostringstream[]> os(new std::ostringstream[(size_t)n]); std::string what;
    for (int t = 0; t != n; ++t) { what += (t ? " and " : "threads doing ") + std::string(readers[op[t]].name); c.op("%s", readers[op[t]].name); } Reader const* r[3] = {}; for (int t = 0; t != n; ++t) r[t] = &readers[op[t]]; World* x = w.get(); std::ostringstream* o = os.get();
    run(c, n, [&r, x, o](int t) { sched::doing(r[t]->name); try { r[t]->fn(*x, o[t]); } catch (...) { o[t] << "exception"; } }, mode, preemptions); clean(c, what);
    for (int t = 0; t != n; ++t) { std::string want = alone(*r[t]); MC_CHECK(c, os[(size_t)t].str() == want, what << ": thread " << t << " saw " << os[(size_t)t].str() << ", alone it sees " << want); c.state(mc::mix(mc::hash_str(want), (mc::u64)op[t])); }
    for (int k = 0; k != READERS; ++k) if (readers[k].kind == r[0]->kind) { std::ostringstream after; readers[k].fn(*w, after); MC_CHECK(c, after.str() == alone(readers[k]), what << ": afterwards " << readers[k].name << " gives " << after.str()); } }
static int in_kind(Ctx& c, int kind, int from) { int first = 0; while (readers[first].kind != kind) ++first; int n = 0; while (first + n != READERS && readers[first + n].kind == kind) ++n; if (from < first) from = first; return from + c.choose(first + n - from, "operation"); }
MC_SCENARIO(two_readers) { int k = c.choose(KINDS, "kind"), op[2]; op[0] = in_kind(c, k, 0); op[1] = in_kind(c, k, op[0]); read_shared(c, 2, op, c.bound(2, 3)); }
MC_SCENARIO(three_readers) { int k = c.choose(KINDS, "kind"), op[3]; op[0] = in_kind(c, k, 0); op[1] = in_kind(c, k, op[0]); op[2] = in_kind(c, k, op[1]); read_shared(c, 3, op, c.bound(1, 2)); }
MC_SCENARIO(readers_of_different_kinds) { int op[2]; op[0] = c.choose(READERS, "operation"); op[1] = c.choose(READERS, "operation"); read_shared(c, 2, op, c.bound(0, 1)); }
MC_SCENARIO(readers_of_large_objects) { static const int ns[] = {20, 70, 300}; Larger guard(ns[c.choose(c.bound(2, 3), "size")]); int k = c.choose(KINDS, "kind"), op[2]; op[0] = in_kind(c, k, 0); op[1] = in_kind(c, k, op[0]); read_shared(c, 2, op, 1, sched::AT_SYNC); }
static std::string alone(int k, int n) { std::ostringstream os; scripts[k].fn(n, os); return os.str(); }
static void own_objects(Ctx& c, int n, int const* op, int preemptions) { std::unique_ptr<std::ostringstream[]> os(new std::ostringstream[(size_t)n]); std::string what; Script const* s[3] = {}; std::ostringstream* o = os.get(); for (int t = 0; t != n; ++t) { s[t] = &scripts[op[t]]; what += (t ? " and " : "threads working on ") + std::string(s[t]->name); c.op("%s", s[t]->name); }
    run(c, n, [&s, o](int t) { sched::doing(s[t]->name); try { s[t]->fn(t, o[t]); } catch (...) { o[t] << "exception"; } }, sched::AT_ALL, preemptions); clean(c, what);
    for (int t = 0; t != n; ++t) { std::string want = alone(op[t], t); MC_CHECK(c, os[(size_t)t].str() == want, what << ": thread " << t << " gives " << os[(size_t)t].str() << ", alone it gives " << want); c.state(mc::mix(mc::hash_str(want), (mc::u64)(op[t] * 3 + t))); } }
MC_SCENARIO(own_objects_of_two) { int op[2]; op[0] = c.choose(SCRIPTS, "script"); op[1] = c.choose(SCRIPTS, "script"); own_objects(c, 2, op, c.bound(2, 3)); }
MC_SCENARIO(own_large_objects) { static const int ns[] = {17, 70, 260}; N = ns[c.choose(c.bound(2, 3), "size")]; int op[2]; op[0] = c.choose(LARGE, "script"); op[1] = c.choose(LARGE, "script"); std::unique_ptr<std::ostringstream[]> os(new std::ostringstream[2]); std::ostringstream* o = os.get(); c.op("%s and %s of %d elements", large_scripts[op[0]].name, large_scripts[op[1]].name, N); std::string what = "threads working on own " + std::string(large_scripts[op[0]].name) + " and " + large_scripts[op[1]].name + " of " + std::to_string(N) + " elements";
    run(c, 2, [&op, o](int t) { sched::doing(large_scripts[op[t]].name); try { large_scripts[op[t]].fn(t, o[t]); } catch (...) { o[t] << "exception"; } }, sched::AT_SYNC, 2); clean(c, what);
    for (int t = 0; t != 2; ++t) { std::ostringstream want; large_scripts[op[t]].fn(t, want); MC_CHECK(c, os[(size_t)t].str() == want.str(), what << ": thread " << t << " gives " << os[(size_t)t].str().substr(0, 300) << ", alone it gives " << want.str().substr(0, 300)); c.state(mc::mix(mc::hash_str(want.str()), (mc::u64)(op[t] * 3 + t))); } }
MC_SCENARIO(own_objects_of_three) { int op[3]; op[0] = c.choose(SCRIPTS, "script"); op[1] = op[0] + c.choose(SCRIPTS - op[0], "script"); op[2] = op[1] + c.choose(SCRIPTS - op[1], "script"); own_objects(c, 3, op, c.bound(1, 2)); }
// ---- copies of handles: programs of operations on two own handles per thread, all of which share one object at first
static const char* const handle_ops[] = {"read a", "write a", "b = a", "a = b", "renew b", "temporary copy", "move", "write b", "managed pointer", "cast", "swap", "pass by value"}; enum { HANDLE_OPS = 12 };
struct Own { std::unique_ptr<H> a, b; int va, vb; std::vector<int> log; }; static int by_value(H h, int v) { int before = std::as_const(h).reference().get(); h.reference().set(v); return before * 1000 + std::as_const(h).reference().get(); }
static void handle_step(H& a, H& b, int op, int v, std::vector<int>& log) { sched::doing(handle_ops[op]); switch (op) { case 0: log.push_back(std::as_const(a).reference().get()); break; case 1: a.reference().set(v); break; case 2: b = a; break; case 3: a = b; break; case 4: b = H(new Sub(v)); break; case 5: { H t(a); log.push_back(t.const_reference().get()); } break; case 6: { H t(std::move(b)); b = a; a = std::move(t); } break; case 7: b.pointer()->set(v); break; case 8: { auto p = a.managed_pointer(); log.push_back(p->get()); } break; case 9: { auto d = dynamic_handle_cast<Handle<Sub>>(a); d.reference().set(v + 1); log.push_back(std::as_const(d).reference().get()); } break; case 10: std::swap(a, b); break; default: log.push_back(by_value(a, v)); } log.push_back(std::as_const(a).reference().get()); log.push_back(std::as_const(b).reference().get()); }
static void model_step(int& a, int& b, int op, int v, std::vector<int>& log) { switch (op) { case 0: case 5: case 8: log.push_back(a); break; case 1: a = v; break; case 2: b = a; break; case 3: a = b; break; case 4: case 7: b = v; break; case 6: case 10: std::swap(a, b); break; case 9: log.push_back(v + 1); break; default: log.push_back(a * 1000 + v); } if (op == 6) { } log.push_back(a); log.push_back(b); }
static void handles(Ctx& c, int n, int const (*prog)[3], int const* len, sched::Mode mode, int preemptions) { std::vector<int> log[3], want[3]; int fin[3][2]; H* h = new H(new Sub(7)); H keep(*h); H* own[3][2] = {}; for (int t = 0; t != n; ++t) for (int k = 0; k != 2; ++k) own[t][k] = new H(*h); delete h; std::string what = "handle programs";
    for (int t = 0; t != n; ++t) { log[t].reserve(16); int a = 7, b = 7; for (int k = 0; k != len[t]; ++k) { model_step(a, b, prog[t][k], 100 * (t + 1) + 10 * k, want[t]); c.op("thread %d: %s", t, handle_ops[prog[t][k]]); what += std::string(k ? ", " : t ? " || " : " ") + handle_ops[prog[t][k]]; } fin[t][0] = a; fin[t][1] = b; }
    run(c, n, [&](int t) { for (int k = 0; k != len[t]; ++k) handle_step(*own[t][0], *own[t][1], prog[t][k], 100 * (t + 1) + 10 * k, log[t]); if (t == 1) { sched::doing("destroying its handles"); delete own[t][0]; delete own[t][1]; own[t][0] = own[t][1] = nullptr; } }, mode, preemptions);
    clean(c, what); for (int t = 0; t != n; ++t) { MC_CHECK(c, log[t] == want[t], what << ": thread " << t << " saw other values than alone"); for (int k = 0; k != 2; ++k) if (own[t][k]) { MC_CHECK(c, own[t][k]->const_reference().get() == fin[t][k], what << ": afterwards handle " << k << " of thread " << t << " has " << own[t][k]->const_reference().get() << ", expected " << fin[t][k]); delete own[t][k]; } for (int x : want[t]) c.state(mc::mix((mc::u64)x, (mc::u64)t)); } MC_CHECK(c, keep.const_reference().get() == 7 && std::as_const(keep).managed_pointer().use_count() == 2, what << ": a handle that no thread has sees " << keep.const_reference().get() << " with " << std::as_const(keep).managed_pointer().use_count() << " owners"); }
MC_SCENARIO(handles_every_switch) { int prog[3][3], len[3] = {1, 1, 0}; prog[0][0] = c.choose(HANDLE_OPS, "operation"); prog[1][0] = c.choose(HANDLE_OPS, "operation"); handles(c, 2, prog, len, sched::AT_ALL, c.bound(2, 3)); }
MC_SCENARIO(handles_two_threads) { int prog[3][3], len[3] = {2, 2, 0}; prog[0][0] = c.choose(HANDLE_OPS, "operation"); prog[0][1] = c.choose(HANDLE_OPS, "operation"); for (int k = 0; k != len[1]; ++k) prog[1][k] = c.choose(HANDLE_OPS, "operation"); handles(c, 2, prog, len, sched::AT_SYNC, c.bound(2, 3)); }
MC_SCENARIO(handles_three_threads) { int prog[3][3], len[3] = {1, 1, 1}; for (int t = 0; t != 3; ++t) prog[t][0] = c.choose(HANDLE_OPS, "operation"); handles(c, 3, prog, len, sched::AT_SYNC, c.bound(2, 3)); }
// ---- one evaluated lazy object and own copies of it
MC_SCENARIO(lazies) { static int made; made = 0; int n = c.choose(2, "threads") + 2, op[3]; for (int t = 0; t != n; ++t) op[t] = c.choose(4, "operation"); bool evaluated = c.flip("evaluated"); Lazy<Cell>* l = new Lazy<Cell>(function<Cell*()>([] { return new Cell(77); })); if (evaluated) (*l)(); Lazy<Cell>* own[3]; int got[3][2] = {}; for (int t = 0; t != n; ++t) own[t] = new Lazy<Cell>(*l); delete l; for (int t = 0; t != n; ++t) c.op("lazy %d", op[t]);
    run(c, n, [&](int t) { sched::doing("using its copy of a lazy object"); Lazy<Cell>& x = *own[t]; switch (op[t]) { case 0: got[t][0] = x(); got[t][1] = x(); break; case 1: { Lazy<Cell> y(x); got[t][0] = y(); got[t][1] = x(); } break; case 2: got[t][0] = x(); { Lazy<Cell> y(std::move(x)); got[t][1] = y(); } break; default: { Lazy<Cell> y(function<Cell*()>([] { return new Cell(5); })); got[t][0] = y() + 72; y = x; got[t][1] = y(); } } delete own[t]; }, sched::AT_ALL, n == 2 ? c.bound(2, 3) : c.bound(1, 2)); clean(c, "copies of a lazy object"); for (int t = 0; t != n; ++t) MC_CHECK(c, got[t][0] == 77 && got[t][1] == 77, "thread " << t << " gets " << got[t][0] << " and " << got[t][1] << " from its copy of a lazy object"); c.state((mc::u64)(n * 64 + op[0] * 16 + op[1] * 4 + evaluated)); }
// ---- the scheduler itself: it must see what it is there for
struct Probe { int k; int* x; std::atomic<int>* y; std::shared_ptr<int>* p; std::mutex* m; std::shared_mutex* s; std::once_flag* f; std::atomic<int>* spin; int got[2]; };
struct Local { std::string s; ~Local() { s.clear(); } };
static void probe(int t, Probe& a) {
    switch (a.k) {
    case 0: ++*a.x; break;
    case 1: { static std::string buf; buf = "text"; } break;
    case 2: { if (t == 0) { std::lock_guard<std::mutex> g(*a.m); ++*a.x; } else ++*a.x; } break;
    case 3: { if (t == 0) { std::unique_lock<std::shared_mutex> g(*a.s); ++*a.x; } else { std::shared_lock<std::shared_mutex> g(*a.s); } *a.x = 1; } break;
    case 4: { if (t == 0) delete a.x; else a.got[1] = *a.x; } break;
    case 5: ++*a.y; break;
    case 6: { std::shared_ptr<int> q(*a.p); } break;
    case 7: { std::lock_guard<std::mutex> g(*a.m); a.got[t] = ++*a.x; } break;
    case 8: { thread_local std::string buf; thread_local Local l; buf += "text of a thread-local variable"; l.s = buf; a.got[t] = (int)buf.size(); } break;
    case 9: { if (t == 0) { std::unique_lock<std::shared_mutex> g(*a.s); ++*a.x; } else { std::shared_lock<std::shared_mutex> g(*a.s); a.got[1] = *a.x; } } break;
    case 10: { std::call_once(*a.f, [&a] { *a.x = 5; }); a.got[t] = *a.x; } break;
    case 11: { static std::string text("a static text that is initialised once"); a.got[t] = (int)text.size(); } break;
    case 12: { int e = 0; while (!a.spin->compare_exchange_weak(e, 1)) e = 0; a.got[t] = ++*a.x; a.spin->store(0); } break;
    default: if (t == 0) { *a.x = 3; a.y->store(1); } else if (a.y->load()) a.got[1] = *a.x; } }
MC_SCENARIO(scheduler_finds_races) { int k = c.choose(14, "program"), *x = new int(0); std::atomic<int> *y = new std::atomic<int>(0), *spin = new std::atomic<int>(0); std::shared_ptr<int> p(new int(1)); std::mutex m; std::shared_mutex s; std::once_flag f; Driver d{&c}; Probe a{k, x, y, &p, &m, &s, &f, spin, {0, 0}};
    sched::run(2, [](int t, void* v) { probe(t, *(Probe*)v); }, &a, sched::AT_ALL, 2, &choose, &d); if (d.skip) throw mc::Skip(); bool want = k < 5; MC_CHECK(c, (sched::violation() != nullptr) == want, "self-test of the scheduler: program " << k << (want ? ": no race found" : ": race reported: ") << (want ? "" : sched::violation())); if (k == 7 || k == 12) MC_CHECK(c, a.got[0] + a.got[1] == 3, "self-test of the scheduler: a lock does not exclude"); if (k == 8) MC_CHECK(c, a.got[0] == 31 && a.got[1] == 31, "self-test of the scheduler: thread-local variables give " << a.got[0] << " and " << a.got[1]); if (k == 10) MC_CHECK(c, a.got[0] == 5 && a.got[1] == 5, "self-test of the scheduler: call_once gives " << a.got[0] << " and " << a.got[1]); if (k != 4) delete x; delete y; delete spin; c.state((mc::u64)(k * 16 + a.got[0])); c.state((mc::u64)(k * 16 + a.got[1] + 1000)); }
MC_MAIN
