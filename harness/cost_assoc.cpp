// Associative containers: comparisons, element operations and time of single operations on large containers
// against generous multiples of the documented complexity (-DVF_PROP=10: growth, 12: operations).
#include "cost.hpp"
#include "assoctraits.hpp"
#ifndef VF_PROP
#define VF_PROP 12
#endif
struct CK { int k; CK() : k(0) { ++g.ctor; } CK(int x) : k(x) { ++g.ctor; } CK(const CK& o) : k(o.k) { ++g.ctor; } CK(CK&& o) noexcept : k(o.k) { ++g.ctor; }
    CK& operator=(const CK& o) { k = o.k; ++g.assign; return *this; } CK& operator=(CK&& o) noexcept { k = o.k; ++g.assign; return *this; } ~CK() { ++g.dtor; }
    friend bool operator==(const CK& a, const CK& b) { ++g.cmp; return a.k == b.k; } friend bool operator<(const CK& a, const CK& b) { ++g.cmp; return a.k < b.k; } };
struct FK { int k; };
struct Cmp { using is_transparent = void;
    static int v(const CK& c) { return c.k; } static int v(const FK& c) { return c.k; }
    template <class A, class B> bool operator()(const A& a, const B& b) const { ++g.cmp; return AT::ordered ? v(a) < v(b) : v(a) == v(b); } };
static const size_t NN = AT::is_static ? 1400 : 8;
using C = ACont<CK, int, NN, Cmp, CA<AVal<CK, int>>>;
template <class C> static const CK& key(const C& c, size_t i) { return ((const CK&)*reinterpret_cast<const CK*>(&*c.nth(i))); }
template <bool M> struct Mk { static CK make(int k) { return CK(k); } };
template <> struct Mk<true> { static std::pair<CK, int> make(int k) { return std::pair<CK, int>(std::piecewise_construct, std::forward_as_tuple(k), std::forward_as_tuple(k)); } };
template <class C> static void put(C& c, int k) { c.insert(Mk<AT::is_map>::make(k)); }

template <class AT, class C> struct Bench {
static void roomy(C& c, size_t n) { if constexpr (AT::dyn) c.reserve(n); }
// keys 0, 2, 4, ... (every key dup times for multi containers), inserted in random order for small sizes
static void fill(C& c, size_t n, size_t dup, Rng& r) {
    std::vector<int> k; for (size_t i = 0; i < n; ++i) k.push_back(int(2 * (i / dup)));
    if (!AT::ordered) for (size_t i = n; i > 1; --i) std::swap(k[i - 1], k[r.below(unsigned(i))]);
    for (size_t i = 0; i < n; ++i) { if (AT::ordered) c.emplace_hint(c.end(), Mk<AT::is_map>::make(k[i])); else put(c, k[i]); }
}
#if VF_PROP == 10
// n insertions of new keys: logarithmically many allocations, capacity consistent, reserved room used without allocating
template <class F> static void grow(const char* name, size_t n, size_t dup, F ins) {
    C c; op_begin(name, "%zu insertions, %zu per key", n, dup); Cost a = g;
    for (size_t i = 0; i < n; ++i) { ins(c, i, int(i / dup)); VF_CHECK(c.capacity() >= c.size(), "size-over-capacity", "size %zu capacity %zu", size_t(c.size()), size_t(c.capacity())); }
    uint64_t al = g.alloc - a.alloc, ops = g.ctor + g.assign - a.ctor - a.assign; VF_CHECK(c.size() == n, "lost-elements", "%zu insertions of new keys leave %zu elements", n, size_t(c.size()));
    uint64_t h = 3; for (const char* q = name; *q; ++q) h = mix(h, uint64_t(*q)); distinct(mix(mix(h, n), dup)); count((std::string("allocs:") + name).c_str(), al); count((std::string("insertions:") + name).c_str(), n);
    bound(al, AT::dyn ? 5 * lg(n) + 12 : 0, "growth-allocations", "allocations"); bound(ops, 24 * n + 64, "growth-moves", "element operations of insertions at the end");
}
static void one(uint64_t cn) {
    Rng r(mix(ctx().seed, cn)); const size_t lim = AT::is_static ? 1390 : AT::ordered ? 12000 : 1400; size_t n = cn == 0 ? lim : 100 + r.below(unsigned(lim / (cn % 8 == 0 ? 1 : 8))); if (n > lim) n = lim; const size_t dup = AT::multi ? 1 + r.below(4) : 1;
    using M = Mk<AT::is_map>;
    grow("insert(&&) run", n, dup, [](C& c, size_t, int k) { c.insert(M::make(k)); });
    grow("insert(const&) run", n, dup, [](C& c, size_t, int k) { const auto v = M::make(k); c.insert(v); });
    grow("emplace run", n, dup, [](C& c, size_t, int k) { c.emplace(M::make(k)); });
    grow("emplace_hint run", n, dup, [](C& c, size_t, int k) { c.emplace_hint(c.cend(), M::make(k)); });
    grow("insert(hint) run", n, dup, [](C& c, size_t, int k) { c.insert(c.cend(), M::make(k)); });
    if constexpr (AT::is_map && !AT::multi) {
        grow("try_emplace run", n, dup, [](C& c, size_t, int k) { c.try_emplace(CK(k), 1); });
        grow("insert_or_assign run", n, dup, [](C& c, size_t, int k) { c.insert_or_assign(CK(k), 1); });
        grow("operator[] run", n, dup, [](C& c, size_t, int k) { c[CK(k)] = 1; });
    }
    { using VT = decltype(M::make(0)); std::vector<VT> all; for (size_t i = 0; i < n; ++i) all.push_back(M::make(int(i / dup)));
      size_t step = 1 + r.below(7); C c; op_begin("insert(range) run", "%zu insertions in ranges of %zu", n, step); uint64_t a = g.alloc;
      for (size_t i = 0; i < n; i += step) c.insert(all.begin() + std::ptrdiff_t(i), all.begin() + std::ptrdiff_t(std::min(n, i + step)));
      bound(g.alloc - a, AT::dyn ? 5 * lg(n) + 12 : 0, "growth-allocations", "allocations"); VF_CHECK(c.size() == n, "lost-elements", "%zu insertions of new keys leave %zu elements", n, size_t(c.size())); }
    if constexpr (AT::dyn) { C c; c.reserve(n); uint64_t a = g.alloc; op_begin("reserved run", "%zu", n); for (size_t i = 0; i < n; ++i) put(c, int(i / dup)); bound(g.alloc - a, 0, "reserved-allocates", "allocations");
      c.shrink_to_fit(); a = g.alloc; c.clear(); for (size_t i = 0; i < n; ++i) put(c, int(i / dup)); bound(g.alloc - a, 0, "refill-allocates", "allocations when the capacity was kept by clear"); }
}
#else
static void constant_time(size_t small, size_t big) {
    C a, b; Rng r(1); fill(a, small, 1, r); fill(b, big, 1, r); const size_t K = 30000;
    struct Probe { const char* name; size_t (*f)(C&, size_t); };
    static const Probe ps[] = {
        {"size", [](C& c, size_t) { return size_t(c.size()) + c.empty() + c.capacity() + c.available() + c.max_size(); }},
        {"begin/end", [](C& c, size_t) { return size_t(c.end() - c.begin()) + size_t(c.cend() - c.cbegin()); }},
        {"nth", [](C& c, size_t i) { return size_t(c.nth(i % c.size()) - c.begin()); }},
        {"index_of", [](C& c, size_t i) { return size_t(c.index_of(c.begin() + std::ptrdiff_t(i % c.size()))); }},
        {"data", [](C& c, size_t) { return size_t(c.data() != nullptr); }},
    };
    for (auto& p : ps) {
        op_begin(p.name, "sizes %zu and %zu", small, big); distinct(mix(big, std::strlen(p.name)));
        double ta = timed([&] { size_t s = 0, x = 7; for (size_t i = 0; i < K; ++i) { x = x * 2654435761u + 1; s += p.f(a, x); } sink = s; });
        double tb = timed([&] { size_t s = 0, x = 7; for (size_t i = 0; i < K; ++i) { x = x * 2654435761u + 1; s += p.f(b, x); } sink = s; });
        VF_CHECK(tb <= 60 * ta + 0.4, "size-dependent-time", "%zu calls take %.4f s at size %zu and %.4f s at size %zu", K, ta, small, tb, big);
        count("timed_members");
    }
    if constexpr (AT::dyn) {
        Cost d = measure("swap", big, 0, 0, [&] { C x; fill(x, 20, 1, r); x.swap(b); x.swap(b); C y(std::move(b)); b = std::move(y); });
        bound(d.ops(), 20 * 4 + 200, "swap-not-constant", "element operations");
    }
}
static void one(uint64_t cn) {
    Rng r(mix(ctx().seed, cn)); size_t n = 150 + r.below(cn % 8 == 0 && AT::ordered ? 1200 : 400); const size_t dup = AT::multi ? 1 + r.below(r.chance(1, 4) ? 200 : 4) : 1;
    if (cn == 0) constant_time(64, AT::is_static ? 1200 : AT::ordered ? 30000 : 4000);
    const uint64_t L = lg(n), look = 2 * L + 6, range = 4 * L + 8, insc = 4 * L + 16, CF = AT::ordered ? 1 : 0;
    const bool hit = r.chance(1, 2); const size_t p = r.chance(1, 6) ? 0 : r.chance(1, 6) ? n - 1 : r.below(unsigned(n));
    C base; fill(base, n, dup, r); const CK k(AT::ordered ? int(2 * (p / dup)) + (hit ? 0 : 1) : hit ? key(base, p).k : 1); const FK f{k.k};
    const size_t lim1 = AT::ordered ? look : n + 2, lim2 = AT::ordered ? range : 2 * n + 2;
    auto cmps = [&](const Cost& d, uint64_t lim, const char* kind) { bound(d.cmp, lim, kind, "comparisons"); count("max_lookup_comparisons_seen", d.cmp); };
    auto lookups = [&](auto& c, const auto& q) {
        cmps(measure("find", n, p, hit, [&] { sink = size_t(c.find(q) - c.begin()); }), lim1, "lookup-cost");
        cmps(measure("contains", n, p, hit, [&] { sink = c.contains(q); }), lim1, "lookup-cost");
        cmps(measure("count", n, p, hit, [&] { sink = c.count(q); }), AT::ordered ? range : n + 2, "lookup-cost");
        if constexpr (AT::ordered) {
            cmps(measure("lower_bound", n, p, hit, [&] { sink = size_t(c.lower_bound(q) - c.begin()); }), lim1, "lookup-cost");
            cmps(measure("upper_bound", n, p, hit, [&] { sink = size_t(c.upper_bound(q) - c.begin()); }), lim1, "lookup-cost");
            cmps(measure("equal_range", n, p, hit, [&] { sink = size_t(c.equal_range(q).first - c.begin()); }), lim2, "lookup-cost");
        }
        if constexpr (AT::is_map && !AT::multi) { if (hit) cmps(measure("at", n, p, hit, [&] { sink = size_t(c.at(q)); }), lim1, "lookup-cost"); }
    };
    const C& cb = base; lookups(base, k); lookups(cb, k); lookups(base, f); lookups(cb, f);
    // insertion: comparisons logarithmic (ordered); element operations linear in the distance to the end (ordered) or constant
    const uint64_t place = AT::ordered ? 3 * (n - p + dup) + 16 : 16, icmp = AT::ordered ? insc : n + 4;
    auto inserting = [&](const char* name, bool map_only, auto fn) {
        (void)map_only; C c(base); roomy(c, n + 8); Cost d = measure(name, n, p, hit, [&] { fn(c); });
        cmps(d, icmp, "insert-comparisons"); bound(d.ops(), place, "insert-moves", "element operations"); bound(d.alloc, 0, "insert-allocates", "allocations with room");
    };
    inserting("insert(const&)", false, [&](C& c) { auto v = Mk<AT::is_map>::make(k.k); const auto& cv = v; c.insert(cv); });
    inserting("insert(&&)", false, [&](C& c) { c.insert(Mk<AT::is_map>::make(k.k)); });
    inserting("emplace", false, [&](C& c) { c.emplace(Mk<AT::is_map>::make(k.k)); });
    { size_t h = r.below(unsigned(n + 1)); inserting("emplace_hint", false, [&](C& c) { c.emplace_hint(c.nth(h), Mk<AT::is_map>::make(k.k)); });
      inserting("insert(hint)", false, [&](C& c) { c.insert(c.nth(h), Mk<AT::is_map>::make(k.k)); }); }
    if constexpr (AT::is_map && !AT::multi) {
        inserting("try_emplace", true, [&](C& c) { c.try_emplace(k, 1); });
        inserting("insert_or_assign", true, [&](C& c) { c.insert_or_assign(k, 1); });
        inserting("operator[]", true, [&](C& c) { c[k] = 1; });
        size_t h = r.below(unsigned(n + 1));
        inserting("try_emplace(hint)", true, [&](C& c) { c.try_emplace(c.nth(h), k, 1); });
        inserting("insert_or_assign(hint)", true, [&](C& c) { c.insert_or_assign(c.nth(h), k, 1); });
    }
    // removal
    { C c(base); Cost d = measure("erase(pos)", n, p, 1, [&] { c.erase(c.cbegin() + std::ptrdiff_t(p)); }); bound(d.ops(), AT::ordered ? 2 * (n - p) + 4 : 4, "erase-cost", "element operations"); bound(d.cmp, 0, "erase-cost", "comparisons"); bound(d.dtor, d.ctor + 1, "erase-cost", "destructions"); }
    { size_t m = std::min<size_t>(1 + r.below(40), n - p); C c(base); Cost d = measure("erase(range)", n, p, m, [&] { c.erase(c.cbegin() + std::ptrdiff_t(p), c.cbegin() + std::ptrdiff_t(p + m)); });
      bound(d.ops(), 2 * (n - p) + 4, "erase-cost", "element operations"); bound(d.cmp, 0, "erase-cost", "comparisons"); }
    if (dup < 5) { C c(base); Cost d = measure("erase(key)", n, p, hit, [&] { sink = c.erase(k); }); cmps(d, AT::ordered ? range : 2 * n + 8, "erase-comparisons"); bound(d.ops(), AT::ordered ? 2 * (n - p + 2 * dup) + 8 : 4 * dup + 4, "erase-cost", "element operations"); }
    { C c(base); uint64_t calls = 0; unsigned mode = r.below(4), mm = 2 + r.below(6); Cost d = measure("erase_if", n, mode, mm, [&] { sink = erase_if(c, [&](const typename C::value_type& v) { ++calls; int q = reinterpret_cast<const CK&>(v).k / 2; return mode == 0 ? true : mode == 1 ? q % int(mm) == 0 : mode == 2 ? q % int(mm) != 0 : q < int(n) / 2; }); });
      bound(d.ops(), 4 * n + 16, "erase-if-cost", "element operations"); bound(calls, 2 * n + 8, "erase-if-cost", "predicate calls"); bound(d.cmp, 0, "erase-if-cost", "comparisons"); }
    // whole-container operations
    { Cost d = measure("copy-ctor", n, 0, 0, [&] { C x(base); sink = x.size(); }); bound(d.ops(), n + 8, "copy-cost", "element operations"); bound(d.cmp, 0, "copy-cost", "comparisons"); bound(d.alloc, 1, "copy-cost", "allocations");
      C y; fill(y, n / 2, 1, r); d = measure("copy-assign", n, n / 2, 0, [&] { y = base; }); bound(d.ops(), 2 * n + 8, "copy-cost", "element operations"); bound(d.alloc, 1, "copy-cost", "allocations");
      d = measure("compare==", n, 0, 0, [&] { sink = y == base; }); bound(d.cmp, AT::ordered ? n + 4 : 2 * n * n + n, "compare-cost", "comparisons");
      if constexpr (AT::ordered) { d = measure("compare<", n, 0, 0, [&] { sink = y < base; }); bound(d.cmp, 6 * n + 8, "compare-cost", "comparisons"); }
      C z(base); z.erase(z.begin()); d = measure("compare(size)", n, 0, 0, [&] { sink = (z == base) + (base != z); }); bound(d.cmp, 2, "compare-cost", "comparisons of containers of different size");
      d = measure("move-ctor", n, 0, 0, [&] { C x(std::move(y)); y = std::move(x); }); bound(d.ops(), AT::dyn ? 16 : 4 * n + 8, "move-cost", "element operations"); bound(d.cmp, 0, "move-cost", "comparisons");
      size_t s = y.size(); d = measure("clear", s, 0, 0, [&] { y.clear(); }); bound(d.ops() + d.cmp, 0, "clear-cost", "element operations"); bound(d.dtor, s, "clear-cost", "destructions");
      if constexpr (AT::dyn) { C q(base); d = measure("reserve", n, 0, 2 * n, [&] { q.reserve(2 * n + 1); }); bound(d.ops(), n + 4, "reserve-cost", "element operations"); bound(d.alloc, 1, "reserve-cost", "allocations");
        d = measure("shrink_to_fit", n, 0, 0, [&] { q.shrink_to_fit(); }); bound(d.ops(), n + 4, "shrink-cost", "element operations"); bound(d.alloc, 1, "shrink-cost", "allocations"); }
      if constexpr (AT::dyn) { C q; size_t m = n; d = measure("insertion run", m, 0, 0, [&] { fill(q, m, dup, r); }); bound(d.alloc, 5 * lg(m) + 12, "growth-allocations", "allocations"); bound(d.ops(), 16 * m + 64, "growth-moves", "element operations of ascending insertions"); }
    }
    (void)CF;
}
#endif
};
int main(int argc, char** argv) { parse_args(argc, argv, AT::name()); run_cases([](uint64_t n) { Bench<AT, C>::one(n); add_sample(); }); return finish(); }
