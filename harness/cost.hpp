// Counting element, allocator and comparators with the cost-bound helpers shared by cost_seq.cpp and cost_assoc.cpp.
#ifndef VF_COST_HPP
#define VF_COST_HPP
#include "core.hpp"
#include <algorithm>
#include <cmath>
#include <ctime>
#include <iterator>
#include <memory>
#include <new>
using namespace vf;
struct Cost { uint64_t ctor, assign, dtor, cmp, alloc; uint64_t ops() const { return ctor + assign; } };
static Cost g;
struct CE {
    int v;
    CE() : v(0) { ++g.ctor; } explicit CE(int x) : v(x) { ++g.ctor; }
    CE(const CE& o) : v(o.v) { ++g.ctor; } CE(CE&& o) noexcept : v(o.v) { ++g.ctor; }
    CE& operator=(const CE& o) { v = o.v; ++g.assign; return *this; } CE& operator=(CE&& o) noexcept { v = o.v; ++g.assign; return *this; }
    ~CE() { ++g.dtor; }
    friend bool operator==(const CE& a, const CE& b) { ++g.cmp; return a.v == b.v; }
    friend bool operator<(const CE& a, const CE& b) { ++g.cmp; return a.v < b.v; }
};
template <class T> struct CA {
    using value_type = T; CA() {} template <class U> CA(const CA<U>&) {}
    T* allocate(size_t n) { ++g.alloc; return static_cast<T*>(::operator new(n * sizeof(T))); }
    void deallocate(T* p, size_t) { ::operator delete(p); }
    friend bool operator==(const CA&, const CA&) { return true; } friend bool operator!=(const CA&, const CA&) { return false; }
};

static uint64_t lg(uint64_t n) { uint64_t r = 0; while (n) { ++r; n >>= 1; } return r; }
template <class F> static Cost measure(const char* name, size_t sz, size_t pos, size_t n, F f) {
    op_begin(name, "size=%zu pos=%zu n=%zu", sz, pos, n); uint64_t h = 7; for (const char* q = name; *q; ++q) h = mix(h, uint64_t(*q)); distinct(mix(mix(h, sz), mix(pos, n)));
    Cost a = g; f(); Cost b = g; Cost d{b.ctor - a.ctor, b.assign - a.assign, b.dtor - a.dtor, b.cmp - a.cmp, b.alloc - a.alloc};
    count((std::string("ops:") + name).c_str(), d.ops());
    return d;
}
static void bound(uint64_t got, uint64_t lim, const char* kind, const char* what) { VF_CHECK(got <= lim, kind, "%llu %s, bound %llu", (unsigned long long)got, what, (unsigned long long)lim); }
static double cpu() { timespec t; clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &t); return double(t.tv_sec) + 1e-9 * double(t.tv_nsec); }
static volatile size_t sink;
template <class F> static double timed(F f) { double b = 1e9; for (int i = 0; i < 3; ++i) { double t = cpu(); f(); t = cpu() - t; if (t < b) b = t; } return b; }
#endif
