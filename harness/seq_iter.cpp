// C14, sequence containers: iterator laws over all pairs of positions and standard algorithms, in the states random histories reach.
#include "seq.hpp"
#include "iter.hpp"
using namespace vf;
template <class T, class A> struct ItWorld : SeqWorld<T, A> {
    using B = SeqWorld<T, A>; using C = typename B::C; using E = typename B::E; using It = typename C::iterator; using CIt = typename C::const_iterator;
    explicit ItWorld(uint64_t s) : B(s) {}
    void inspect(int i) {
        Quiet qq; C& c = *this->c[i]; const C& k = c; std::vector<long long> v(this->m[i].begin(), this->m[i].end()); const size_t n = v.size(); auto get = [](const T& x) { return (long long)E::get(x); };
        op_begin("iterator-laws", "size %zu", n); distinct(mix(n, c.capacity()));
        laws(c.begin(), c.end(), c.cbegin(), c.cend(), v, get, this->rng, n <= 36); laws(k.begin(), k.end(), c.cbegin(), c.cend(), v, get, this->rng, n <= 12);
        reverse_laws(c.rbegin(), c.rend(), v, get); reverse_laws(k.rbegin(), k.rend(), v, get); reverse_laws(c.crbegin(), c.crend(), v, get);
        op_begin("positions", "size %zu", n);
        for (size_t p = 0; p <= n; ++p) {
            It x = c.begin() + std::ptrdiff_t(p); VF_CHECK(c.nth(p) == x && k.nth(p) == k.begin() + std::ptrdiff_t(p) && c.index_of(x) == p && c.index_of(CIt(x)) == p && k.index_of(k.nth(p)) == p, "position-law", "nth / index_of of position %zu of %zu", p, n);
            VF_CHECK((p == n) == (c.nth(p) == c.end()) && (p == n) == (k.nth(p) == c.cend()), "position-law", "nth(%zu) against end of %zu", p, n);
            if (p < n) { const T* a = std::addressof(*x); VF_CHECK(std::addressof(c[p]) == a && std::addressof(k[p]) == a && std::addressof(c.at(p)) == a && std::addressof(k.at(p)) == a && std::addressof(*c.nth(p)) == a && get(*a) == v[p], "position-law", "element %zu has different names", p); if constexpr (CT::data) VF_CHECK(c.data() + p == a && k.data() + p == a, "position-law", "data() + %zu", p); }
        }
        if (n) VF_CHECK(std::addressof(c.front()) == std::addressof(*c.begin()) && std::addressof(c.back()) == std::addressof(*(c.end() - 1)) && std::addressof(k.front()) == std::addressof(*c.begin()) && std::addressof(k.back()) == std::addressof(c[n - 1]), "position-law", "front / back");
        op_begin("read-algorithms", "size %zu", n); for (int z = 0; z < 3; ++z) { read_algorithms(k.begin(), v, get, this->rng); read_algorithms(c.begin(), v, get, this->rng); }
        { std::vector<long long> rv(v.rbegin(), v.rend()); read_algorithms(c.rbegin(), rv, get, this->rng); }
        for (int z = 0; z < 4; ++z) { write_algorithm(c.begin(), v, E(), this->rng); }
        { std::vector<long long> rv(v.rbegin(), v.rend()); write_algorithm(c.rbegin(), rv, E(), this->rng); v.assign(rv.rbegin(), rv.rend()); }
        this->m[i].assign(v.begin(), v.end());
    }
};
template <class T, class A> void go(uint64_t cn) {
    ItWorld<T, A> w(mix(ctx().seed, cn)); if (cn % 11 == 3 && !CT::is_static) { w.soft_max = 150; w.max_n = 60; }
    for (int round = 0; round < 5; ++round) { size_t s = 2 + w.rng.below(14); for (size_t i = 0; i < s; ++i) w.step(); w.inspect(int(w.rng.below(3))); }
    add_sample(); w.verify_all(); w.finish_world();
}
int main(int argc, char** argv) {
    parse_args(argc, argv, CT::name()); elems(); constructed(); blocks().v.reserve(256);
    run_cases([](uint64_t n) {
        switch (n % 3) {
        case 0: go<int, std::allocator<int>>(n); break;
        case 1: go<Obj<EF_NTM>, MonAlloc<Obj<EF_NTM>, AP_POCMA>>(n); break;
        case 2: go<Pod, MonAlloc<Pod, AP_FANCY>>(n); break;
        }
    });
    return finish();
}
