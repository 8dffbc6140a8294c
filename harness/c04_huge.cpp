// C04: sizes that cannot be represented, built without sanitizers under an address-space limit.
#include "tracked.hpp"
#include <iostream>
#include "array.hpp"
using mc::Ctx; using Helper::Array;
template<int N> struct Blob { char b[N]; Blob() { } Blob(int x) { b[0] = (char)x; } };
static size_t sizes_for(Ctx& c, size_t item) {   // sizes whose byte count does not fit in memory; most wrap around
    size_t top = size_t(-1) / item; int w = c.choose(9, "size");
    if (item == 1) { const size_t big[] = {size_t(-1), size_t(-2), size_t(1) << 63, (size_t(1) << 63) + 1, (size_t(1) << 63) - 1, size_t(1) << 62, size_t(1) << 48, size_t(-1) - 4096, size_t(-1) - 64}; return big[w]; }
    switch (w) { case 0: return top + 1; case 1: return top + 2; case 2: return top; case 3: return size_t(-1); case 4: return size_t(1) << 63; case 5: return (size_t(1) << 63) + 1; case 6: return 2 * (top + 1) + 1; case 7: return size_t(-1) / 2 + 2; default: return (size_t(1) << 62) + 3; } }
template<class T> void huge(Ctx& c) {
    size_t n = sizes_for(c, sizeof(T)); int how = c.choose(6, "how"); c.split();
    c.op("item size %zu, %zu elements, way %d", sizeof(T), n, how); bool refused = false; std::string what;
    Array<T> a(3, T(1));
    try { switch (how) { case 0: { Array<T> r(n, Helper::Uninitialised()); static_cast<void>(&r); new (&r) Array<T>(); break; } case 1: { Array<T> r(n); break; } case 2: { Array<T> r(n, T(2)); break; }
        case 3: a.resize(n); break; case 4: a.resize(n, T(3)); break; case 5: a.reallocate(n); break; } }
    catch (std::exception const& e) { refused = true; }
    MC_CHECK(c, refused, "a size of " << n << " elements of " << sizeof(T) << " bytes was not refused");
    MC_CHECK(c, a.size() == 3 && a[2].b[0] == 1, "the array changed although the new size was refused"); c.state(mc::mix(n, sizeof(T)) + (mc::u64)how); c.outcome(how); }
MC_SCENARIO(huge1) { huge<Blob<1>>(c); }
MC_SCENARIO(huge4) { huge<Blob<4>>(c); }
MC_SCENARIO(huge8) { huge<Blob<8>>(c); }
MC_SCENARIO(huge12) { huge<Blob<12>>(c); }
MC_SCENARIO(huge16) { huge<Blob<16>>(c); }
MC_SCENARIO(huge24) { huge<Blob<24>>(c); }
MC_SCENARIO(huge1000) { huge<Blob<1000>>(c); }
MC_SCENARIO(huge65536) { huge<Blob<65536>>(c); }
MC_MAIN
