// C14, associative containers: iterator laws over all pairs of positions and read-only algorithms.
#include "assoc.hpp"
#include "iter.hpp"
using namespace vf;
template <class K, class V, size_t N, bool TR, class A> struct ItWorld : AssocWorld<K, V, N, TR, A> {
    using B = AssocWorld<K, V, N, TR, A>; using C = typename B::C; using O = typename B::O; using It = typename C::iterator; using CIt = typename C::const_iterator; using VT = typename B::VT;
    explicit ItWorld(uint64_t s) : B(s) {}
    void inspect(int i) {
        Quiet qq; C& c = *this->c[i]; const C& k = c; std::vector<long long> v; auto get = [](const VT& x) { KV p = O::get(x); return (long long)p.first * 100000 + p.second; };
        for (const VT* p = k.data(), *q = p + k.size(); p != q; ++p) v.push_back(get(*p));
        const size_t n = v.size(); op_begin("iterator-laws", "size %zu", n); distinct(mix(n, c.capacity()));
        laws(c.begin(), c.end(), c.cbegin(), c.cend(), v, get, this->rng, n <= 24); laws(k.begin(), k.end(), c.cbegin(), c.cend(), v, get, this->rng, n <= 12);
        if constexpr (AT::ordered) { reverse_laws(c.rbegin(), c.rend(), v, get); reverse_laws(k.rbegin(), k.rend(), v, get); reverse_laws(c.crbegin(), c.crend(), v, get); }
        op_begin("positions", "size %zu", n);
        for (size_t p = 0; p <= n; ++p) {
            It x = c.begin() + std::ptrdiff_t(p); VF_CHECK(c.nth(p) == x && k.nth(p) == k.begin() + std::ptrdiff_t(p) && c.index_of(x) == p && c.index_of(CIt(x)) == p && k.index_of(k.nth(p)) == p, "position-law", "nth / index_of of position %zu of %zu", p, n);
            VF_CHECK((p == n) == (c.nth(p) == c.end()) && (p == n) == (k.nth(p) == c.cend()), "position-law", "nth(%zu) against end of %zu", p, n);
            if (p < n) { const VT* a = std::addressof(*x); VF_CHECK(std::addressof(*c.nth(p)) == a && std::addressof(*k.nth(p)) == a && k.data() + p == a && c.data() + p == a, "position-law", "element %zu has different names", p); }
        }
        op_begin("read-algorithms", "size %zu", n); for (int z = 0; z < 3; ++z) { read_algorithms(k.begin(), v, get, this->rng); read_algorithms(c.begin(), v, get, this->rng); }
        if constexpr (AT::ordered) { std::vector<long long> rv(v.rbegin(), v.rend()); read_algorithms(c.rbegin(), rv, get, this->rng); }
    }
};
template <class K, class V, size_t N, bool TR, class A> void go(uint64_t cn) {
    ItWorld<K, V, N, TR, A> w(mix(ctx().seed, cn)); if (cn % 9 == 3 && !AT::is_static) { w.soft_max = 90; w.max_n = 30; }
    for (int round = 0; round < 5; ++round) { size_t s = 2 + w.rng.below(12); for (size_t i = 0; i < s; ++i) w.step(); w.inspect(int(w.rng.below(3))); }
    add_sample(); w.verify_all(); w.finish_world();
}
int main(int argc, char** argv) {
    parse_args(argc, argv, AT::name()); elems(); constructed(); blocks().v.reserve(256);
    run_cases([](uint64_t n) {
        switch (n % 2) {
        case 0: go<int, int, AT::is_static ? 20 : 4, true, std::allocator<AVal<int, int>>>(n); break;
        case 1: go<Pod, Obj<EF_NTM>, AT::is_static ? 9 : 3, true, MonAlloc<AVal<Pod, Obj<EF_NTM>>, AP_POCMA | AP_FANCY>>(n); break;
        }
    });
    return finish();
}
