// Sequence containers: element operations, allocations and time of single operations on large containers
// against generous multiples of the documented complexity (-DVF_PROP=10: growth, 12: operations).
#include "cost.hpp"
#include "seqtraits.hpp"
#ifndef VF_PROP
#define VF_PROP 12
#endif

template <class C> static void fill(C& c, size_t n) { for (size_t i = 0; i < n; ++i) c.emplace_back(int(i)); }
template <class CT, class C> struct Bench {
static constexpr size_t MAXN = CT::is_static ? size_t(CT::N) : size_t(-1);
#if VF_PROP == 10
// n insertions at an end: allocations logarithmic (contiguous) or proportional to n / N (segmented); element operations linear
template <class F> static void grow(const char* name, size_t n, F push, bool end_only = true) {
    C c; size_t live_max = 0;
    op_begin(name, "%zu insertions", n);
    Cost a = g; uint64_t jumps = 0, maxn = 0;
    for (size_t i = 0; i < n; ++i) { size_t cap = c.capacity(); push(c, i); if (c.size() > live_max) live_max = c.size(); if (c.capacity() != cap) { ++jumps; if (jumps > maxn) maxn = jumps; VF_CHECK(c.capacity() >= c.size(), "size-over-capacity", "size %zu capacity %zu", size_t(c.size()), size_t(c.capacity())); } }
    uint64_t al = g.alloc - a.alloc, ops = g.ctor + g.assign - a.ctor - a.assign;
    distinct(mix(uint64_t(name[0]) * 131 + std::strlen(name), n)); count((std::string("allocs:") + name).c_str(), al); count((std::string("insertions:") + name).c_str(), n);
    if (CT::segmented) bound(al, n / (CT::N ? CT::N : 1) + 6 * lg(n) + 12, "growth-allocations", "allocations");
    else if (!CT::compact) bound(al, 5 * lg(n) + 12, "growth-allocations", "allocations");
    if (end_only && CT::segmented) bound(ops, n + 8, "growth-moves", "element constructions and assignments");
    else if (!CT::compact) bound(ops, 16 * n + 64, "growth-moves", "element constructions and assignments");
}
static void one(uint64_t cn) {
    Rng r(mix(ctx().seed, cn)); size_t n = cn == 0 ? 40000 : 100 + r.below(cn % 4 == 0 ? 20000 : 2000); if (n > MAXN) n = MAXN; if (CT::compact && n > 300) n = 300;
    grow("push_back run", n, [](C& c, size_t i) { c.push_back(CE(int(i))); } , false);
    grow("emplace_back run", n, [](C& c, size_t i) { c.emplace_back(int(i)); });
    grow("insert(end) run", n, [](C& c, size_t i) { c.emplace(c.end(), int(i)); }, false);
    if constexpr (CT::front) {
        grow("emplace_front run", n, [](C& c, size_t i) { c.emplace_front(int(i)); });
        grow("push_front run", n, [](C& c, size_t i) { c.push_front(CE(int(i))); }, false);
        grow("insert(begin) run", n, [](C& c, size_t i) { c.emplace(c.begin(), int(i)); }, false);
        grow("alternating ends run", n, [](C& c, size_t i) { if (i & 1) c.emplace_front(int(i)); else c.emplace_back(int(i)); });
        unsigned p = 1 + r.below(15); Rng q(cn);
        grow("random ends run", n, [&](C& c, size_t i) { if (q.chance(p, 16)) c.emplace_front(int(i)); else c.emplace_back(int(i)); });
    }
    if constexpr (CT::reserve) { C c; size_t k = n; c.reserve(k); uint64_t a = g.alloc; op_begin("reserved run", "%zu", k); for (size_t i = 0; i < k; ++i) c.emplace_back(int(i)); bound(g.alloc - a, 0, "reserved-allocates", "allocations"); }
    if constexpr (CT::reserve_fb) { C c; c.reserve_back(n); c.reserve_front(n / 2); uint64_t a = g.alloc; op_begin("reserved run", "%zu", n); for (size_t i = 0; i < n / 2; ++i) c.emplace_front(int(i)); for (size_t i = c.size(); i < n / 2; ++i) c.emplace_back(int(i)); bound(g.alloc - a, 0, "reserved-allocates", "allocations"); }
}
#else
// constant-time members must not get slower with the size
static void constant_time(size_t small, size_t big) {
    if (CT::compact) big = 20000; C a, b; fill(a, small); fill(b, big); const size_t K = 30000;
    struct Probe { const char* name; size_t (*f)(C&, size_t); };
    static const Probe ps[] = {
        {"size", [](C& c, size_t) { return size_t(c.size()) + c.empty() + c.capacity() + c.max_size(); }},
        {"begin/end", [](C& c, size_t) { return size_t(c.end() - c.begin()) + size_t(c.rend() - c.rbegin()); }},
        {"operator[]", [](C& c, size_t i) { return size_t(c[i % c.size()].v); }},
        {"at", [](C& c, size_t i) { return size_t(c.at(i % c.size()).v); }},
        {"front/back", [](C& c, size_t) { return size_t(c.front().v + c.back().v); }},
        {"nth", [](C& c, size_t i) { return size_t(c.nth(i % c.size())->v); }},
        {"index_of", [](C& c, size_t i) { return size_t(c.index_of(c.begin() + std::ptrdiff_t(i % c.size()))); }},
        {"iterator-arithmetic", [](C& c, size_t i) { auto it = c.begin(); it += std::ptrdiff_t(i % c.size()); auto e = c.end(); e -= std::ptrdiff_t(i % c.size()); return size_t(it->v) + size_t(e - it) + (it < e) + (it == e); }},
        {"iterator-step", [](C& c, size_t i) { auto it = c.begin() + std::ptrdiff_t(i % c.size()); auto jt = it; ++jt; --jt; return size_t(jt == it); }},
    };
    for (auto& p : ps) {
        op_begin(p.name, "sizes %zu and %zu", small, big); distinct(mix(big, std::strlen(p.name)));
        double ta = timed([&] { size_t s = 0, x = 7; for (size_t i = 0; i < K; ++i) { x = x * 2654435761u + 1; s += p.f(a, x); } sink = s; });
        double tb = timed([&] { size_t s = 0, x = 7; for (size_t i = 0; i < K; ++i) { x = x * 2654435761u + 1; s += p.f(b, x); } sink = s; });
        VF_CHECK(tb <= 60 * ta + 0.4, "size-dependent-time", "%zu calls take %.4f s at size %zu and %.4f s at size %zu", K, ta, small, tb, big);
        count("timed_members");
    }
    op_begin("swap", "sizes"); if (CT::dyn && !CT::small) { Cost d = measure("swap", big, 0, 0, [&] { a.swap(b); a.swap(b); }); bound(d.ops(), 0, "swap-not-constant", "element operations"); }
    Cost d = measure("move-ctor", big, 0, 0, [&] { C x(std::move(b)); b = std::move(x); }); if (CT::dyn && !(CT::small && big <= CT::N)) bound(d.ops(), 0, "move-not-constant", "element operations");
}
static size_t dist(size_t p, size_t n) { return CT::front ? std::min(p, n - p) : n - p; }
static void one(uint64_t cn) {
    Rng r(mix(ctx().seed, cn)); size_t n = 200 + r.below(1800); if (n > MAXN - 40) n = MAXN - 40;
    if (cn == 0) { constant_time(64 < n ? 64 : n, CT::is_static ? n : 400000); }
    auto roomy = [&](C& c) { if constexpr (CT::reserve_fb) { c.reserve_front(n + 64); c.reserve_back(n + 64); } else if constexpr (CT::reserve) c.reserve(n + 64); fill(c, n); if constexpr (CT::reserve_fb) { c.reserve_front(n + 64); c.reserve_back(n + 64); } };
    const bool realloc_free = !CT::compact; const size_t k = 1 + r.below(30), p = r.chance(1, 6) ? 0 : r.chance(1, 6) ? n : r.below(unsigned(n + 1));
    auto lim = [&](size_t ins, size_t pos) { return realloc_free ? 3 * (ins + dist(pos, n)) + 8 : 4 * (n + ins) + 8; };
    std::vector<CE> src; for (size_t i = 0; i < k; ++i) src.push_back(CE(int(i))); CE val(5);
    auto at = [](C& c, size_t q) { return c.cbegin() + std::ptrdiff_t(q); };
    { C c; roomy(c); Cost d = measure("emplace", n, p, 1, [&] { c.emplace(at(c, p), 1); }); bound(d.ops(), lim(1, p), "insert-cost", "element operations"); }
    { C c; roomy(c); Cost d = measure("insert(const&)", n, p, 1, [&] { c.insert(at(c, p), static_cast<const CE&>(val)); }); bound(d.ops(), lim(1, p), "insert-cost", "element operations"); }
    { C c; roomy(c); Cost d = measure("insert(&&)", n, p, 1, [&] { CE t(1); c.insert(at(c, p), std::move(t)); }); bound(d.ops(), lim(1, p), "insert-cost", "element operations"); }
    { C c; roomy(c); Cost d = measure("insert(n,value)", n, p, k, [&] { c.insert(at(c, p), k, static_cast<const CE&>(val)); }); bound(d.ops(), lim(k, p), "insert-cost", "element operations"); }
    { C c; roomy(c); Cost d = measure("insert(range)", n, p, k, [&] { c.insert(at(c, p), src.begin(), src.end()); }); bound(d.ops(), lim(k, p), "insert-cost", "element operations"); }
    { C c; roomy(c); Cost d = measure("insert(ilist)", n, p, 3, [&] { c.insert(at(c, p), {CE(1), CE(2), CE(3)}); }); bound(d.ops(), lim(3, p) + 6, "insert-cost", "element operations"); }
    if (p < n) { C c; roomy(c); Cost d = measure("erase(pos)", n, p, 1, [&] { c.erase(at(c, p)); }); if (realloc_free) bound(d.ops(), 3 * (1 + dist(p, n)) + 8, "erase-cost", "element operations"); else bound(d.ops(), 4 * n + 8, "erase-cost", "element operations"); bound(d.dtor, d.ops() + 2, "erase-cost", "destructions"); }
    { size_t kk = std::min(k, n - p); C c; roomy(c); Cost d = measure("erase(range)", n, p, kk, [&] { c.erase(at(c, p), at(c, p + kk)); }); if (realloc_free) bound(d.ops(), 3 * std::min<size_t>(CT::front ? p : n, n - p - kk) + 8, "erase-cost", "element operations"); else bound(d.ops(), 4 * n + 8, "erase-cost", "element operations"); }
    if (!CT::compact) {
        C c; roomy(c); Cost d = measure("pop_back", n, n, 1, [&] { c.pop_back(); }); bound(d.ops() + d.dtor, 2, "pop-cost", "element operations");
        d = measure("push_back", n, n, 1, [&] { c.push_back(val); }); bound(d.ops(), 2, "push-cost", "element operations");
        d = measure("emplace_back", n, n, 1, [&] { c.emplace_back(1); }); bound(d.ops(), 2, "push-cost", "element operations");
        if constexpr (CT::front) { d = measure("pop_front", n, 0, 1, [&] { c.pop_front(); }); bound(d.ops() + d.dtor, 2, "pop-cost", "element operations"); d = measure("push_front", n, 0, 1, [&] { c.push_front(val); }); bound(d.ops(), 2, "push-cost", "element operations"); d = measure("emplace_front", n, 0, 1, [&] { c.emplace_front(1); }); bound(d.ops(), 2, "push-cost", "element operations"); }
        d = measure("resize(n)", c.size(), 0, k, [&] { c.resize(c.size() + k); }); bound(d.ops(), 2 * k + 4, "resize-cost", "element operations");
        d = measure("resize(n,value)", c.size(), 0, k, [&] { c.resize(c.size() - k, val); }); bound(d.ops() + d.dtor, 2 * k + 4, "resize-cost", "element operations");
        if constexpr (CT::front) { d = measure("resize_front(n)", c.size(), 0, k, [&] { c.resize_front(c.size() + k); }); bound(d.ops(), 2 * k + 4, "resize-cost", "element operations"); d = measure("resize_front(n,value)", c.size(), 0, k, [&] { c.resize_front(c.size() - k, val); }); bound(d.ops() + d.dtor, 2 * k + 4, "resize-cost", "element operations"); }
        size_t sz = c.size(); d = measure("clear", sz, 0, sz, [&] { c.clear(); }); bound(d.ops(), 0, "clear-cost", "element operations"); bound(d.dtor, sz, "clear-cost", "destructions");
    }
    { C c; fill(c, n); Cost d = measure("copy-ctor", n, 0, n, [&] { C x(c); sink = x.size(); }); bound(d.ops(), 2 * n + 8, "copy-cost", "element operations");
      C y; fill(y, n / 2); d = measure("copy-assign", n, 0, n, [&] { y = c; }); bound(d.ops(), 2 * n + 8, "copy-cost", "element operations");
      d = measure("compare", n, 0, n, [&] { bool e = y == c; sink = e; }); bound(d.cmp, n + 4, "compare-cost", "comparisons");
      d = measure("compare<", n, 0, n, [&] { bool e = y < c; sink = e; }); bound(d.cmp, 2 * n + 4, "compare-cost", "comparisons");
      if (n > 1) { C z; fill(z, n - 1); d = measure("compare(size)", n, 0, n, [&] { bool e = z == c; sink = e; }); bound(d.cmp, 2, "compare-cost", "comparisons of containers of different size"); }
      if constexpr (CT::shrink) { d = measure("shrink_to_fit", n, 0, 0, [&] { c.shrink_to_fit(); }); bound(d.ops(), 2 * n + 8, "shrink-cost", "element operations"); if (CT::segmented) bound(d.ops(), 0, "shrink-cost", "element operations of a segmented container"); }
      if constexpr (CT::reserve) { d = measure("reserve", n, 0, 2 * n, [&] { c.reserve(2 * n); }); bound(d.ops(), 2 * n + 8, "reserve-cost", "element operations"); }
      uint64_t calls = 0; size_t sz = c.size(); d = measure("erase_if(c,pred)", sz, 0, sz / 2, [&] { sink = erase_if(c, [&](const CE& x) { ++calls; return x.v % 2 == 0; }); }); bound(d.ops(), 4 * sz + 8, "erase-if-cost", "element operations"); bound(calls, 2 * sz + 8, "erase-if-cost", "predicate calls");
      sz = y.size(); d = measure("erase(c,value)", sz, 0, 1, [&] { sink = erase(y, CE(int(sz / 2))); }); bound(d.ops(), 4 * sz + 8, "erase-if-cost", "element operations"); bound(d.cmp, 2 * sz + 8, "erase-if-cost", "comparisons");
      d = measure("assign(n,value)", y.size(), 0, n, [&] { y.assign(n, val); }); bound(d.ops(), 2 * n + 8, "assign-cost", "element operations");
      d = measure("assign(range)", y.size(), 0, k, [&] { y.assign(src.begin(), src.end()); }); bound(d.ops(), 2 * n + 2 * k + 8, "assign-cost", "element operations");
    }
    // queue-like use: amortised constant at the supported ends
    if (!CT::compact) {
        C c; size_t w = 1 + r.below(64); if (w > MAXN - 2) w = MAXN - 2; fill(c, w); size_t it = 4000; Rng q(cn); unsigned mode = r.below(4);
        Cost d = measure("end-operations mix", w, mode, it, [&] { for (size_t i = 0; i < it; ++i) {
            bool fr = CT::front && (mode == 0 ? true : mode == 1 ? false : q.chance(1, 2));
            if constexpr (CT::front) { if (fr) { c.emplace_front(1); if (mode == 2) c.pop_back(); else if (mode == 3) c.pop_front(); else c.pop_back(); continue; } }
            c.emplace_back(1); if constexpr (CT::front) { if (mode == 1 || mode == 2) { c.pop_front(); continue; } } c.pop_back(); } });
        bound(d.ops(), 16 * it + 256, "end-cost", "element operations of amortised constant end operations");
    }
}
#endif
};
int main(int argc, char** argv) { parse_args(argc, argv, CT::name()); run_cases([](uint64_t n) { Bench<CT, Cont<CE, CA<CE>>>::one(n); add_sample(); }); return finish(); }
