// C18, sequence containers
#include "par.hpp"
#include "seqtraits.hpp"
#include <algorithm>
#include <memory>
using namespace vf;
template <class T> struct W {
    using C = Cont<T, std::allocator<T>>; using M = std::vector<int>;
    static size_t lim() { return CT::is_static ? CT::N : 40; }
    static void eq(Th& t, const C& c, const M& m, const char* kind) { t.check(c.size() == m.size(), kind, "size %zu, expected %zu", size_t(c.size()), m.size()); size_t j = 0; for (auto it = c.begin(); it != c.end(); ++it, ++j) { t.check(j < m.size() && val(*it) == m[j], kind, "element %zu is %d, expected %d", j, val(*it), j < m.size() ? m[j] : -1); } t.check(j == m.size(), kind, "iteration length %zu", j); }
    static void read(Th& t, const C& c, const M& m) {
        const size_t n = m.size(); const char* K = "wrong-concurrent-read"; size_t p = n ? t.rng.below(unsigned(n)) : 0;
        switch (t.rng.below(18)) {
        case 0: t.op(0, "iteration"); eq(t, c, m, K); break;
        case 1: t.op(1, "size"); t.check(c.size() == n && c.empty() == (n == 0), K, "size %zu", size_t(c.size())); break;
        case 2: if (n) { t.op(2, "operator[]"); t.check(val(c[p]) == m[p], K, "[%zu]", p); } break;
        case 3: if (n) { t.op(3, "at"); t.check(val(c.at(p)) == m[p], K, "at(%zu)", p); } break;
        case 4: if (n) { t.op(4, "front/back"); t.check(val(c.front()) == m[0] && val(c.back()) == m[n - 1], K, "front/back of %zu", n); } break;
        case 5: { t.op(5, "nth"); auto it = c.nth(p); t.check(size_t(it - c.begin()) == p, K, "nth(%zu)", p); break; }
        case 6: { t.op(6, "index_of"); t.check(c.index_of(c.cbegin() + std::ptrdiff_t(p)) == p, K, "index_of(%zu)", p); break; }
        case 7: { t.op(7, "reverse iteration"); size_t z = n; for (auto it = c.rbegin(); it != c.rend(); ++it) { --z; t.check(val(*it) == m[z], K, "reverse %zu", z); } t.check(z == 0, K, "reverse length"); break; }
        case 8: t.op(8, "capacity"); t.check(c.capacity() >= n && c.max_size() >= n, K, "capacity %zu", size_t(c.capacity())); break;
        case 9: { t.op(9, "copy construction"); C x(c); eq(t, x, m, K); break; }
        case 10: { t.op(10, "comparison"); t.check(c == c && !(c < c) && c <= c && !(c != c), K, "self comparison of %zu", n); break; }
        case 11: { t.op(11, "copy assignment from"); C x; x = c; eq(t, x, m, K); break; }
        case 12: { t.op(12, "find"); if (n) { auto it = std::find(c.begin(), c.end(), c[p]); t.check(it != c.end() && val(*it) == m[p], K, "find"); } break; }
        case 13: { t.op(13, "range construction from"); C x(c.begin(), c.end()); eq(t, x, m, K); break; }
        case 14: { t.op(14, "distance"); t.check(size_t(std::distance(c.cbegin(), c.cend())) == n && c.cbegin() + std::ptrdiff_t(n) == c.cend(), K, "distance"); break; }
        case 15: { t.op(15, "available"); if constexpr (CT::front) t.check(c.available_front() + n + c.available_back() == c.capacity(), K, "available"); else if constexpr (!CT::compact) t.check(c.available() + n == c.capacity(), K, "available"); break; }
        case 16: { t.op(16, "data/get_allocator"); if constexpr (CT::data) if (n) t.check(val(c.data()[p]) == m[p], K, "data"); if constexpr (CT::dyn) { auto a = c.get_allocator(); (void)a; } if constexpr (CT::is_static) t.check(c.full() == (n == CT::N), K, "full"); break; }
        default: { t.op(17, "comparison with a copy"); C x(c); t.check(x == c && c == x && !(c < x) && !(x < c), K, "copy differs"); break; }
        }
    }
    static void mutate(Th& t, C& c, M& m, const C* shared, const M* sm) {
        const size_t n = m.size(); const size_t room = n < lim() ? lim() - n : 0; std::ptrdiff_t p = std::ptrdiff_t(t.rng.below(unsigned(n + 1))); int v = 1 + int(t.rng.below(5000));
        switch (t.rng.below(20)) {
        case 0: case 1: if (room) { t.op(30, "push_back"); c.push_back(T(v)); m.push_back(v); } break;
        case 2: if (room) { t.op(31, "emplace"); c.emplace(c.cbegin() + p, v); m.insert(m.begin() + p, v); } break;
        case 3: if (room) { t.op(32, "insert"); const T x(v); c.insert(c.cbegin() + p, x); m.insert(m.begin() + p, v); } break;
        case 4: if (room >= 4) { t.op(33, "insert(n)"); c.insert(c.cbegin() + p, 4, T(v)); m.insert(m.begin() + p, 4, v); } break;
        case 5: if (n) { t.op(34, "pop_back"); c.pop_back(); m.pop_back(); } break;
        case 6: if (n && size_t(p) < n) { t.op(35, "erase"); c.erase(c.cbegin() + p); m.erase(m.begin() + p); } break;
        case 7: { t.op(36, "erase(range)"); c.erase(c.cbegin() + p, c.cend()); m.erase(m.begin() + p, m.end()); break; }
        case 8: { t.op(37, "resize"); size_t k = t.rng.below(unsigned(lim() / 2)); if (k > n) k = n; c.resize(k); m.resize(k); break; }
        case 9: { t.op(38, "assign"); size_t k = t.rng.below(6); if (k > lim()) k = lim(); c.assign(k, T(v)); m.assign(k, v); break; }
        case 10: { t.op(39, "clear"); if (t.rng.chance(1, 4)) { c.clear(); m.clear(); } break; }
        case 11: if (shared) { t.op(40, "copy from shared"); c = *shared; m = *sm; } break;
        case 12: { t.op(41, "move round trip"); C x(std::move(c)); c = std::move(x); break; }
        case 13: { t.op(42, "swap"); C x; M y; if (lim() >= 2) { x.push_back(T(v)); y.push_back(v); } c.swap(x); m.swap(y); if (t.rng.chance(1, 2)) { swap(c, x); m.swap(y); } break; }
        case 14: { if constexpr (CT::shrink && CT::dyn) { t.op(43, "shrink_to_fit"); c.shrink_to_fit(); } break; }
        case 15: { if constexpr (CT::reserve) { t.op(44, "reserve"); c.reserve(t.rng.below(40)); } else if constexpr (CT::reserve_fb) { t.op(45, "reserve_front/back"); c.reserve_front(t.rng.below(40)); c.reserve_back(t.rng.below(40)); } break; }
        case 16: { if constexpr (CT::front) { if (room) { t.op(46, "push_front"); c.push_front(T(v)); m.insert(m.begin(), v); } else { t.op(47, "pop_front"); c.pop_front(); m.erase(m.begin()); } } break; }
        case 17: if (n) { t.op(48, "write"); size_t q = t.rng.below(unsigned(n)); c[q] = T(v); m[q] = v; } break;
        case 18: { t.op(49, "erase_if"); erase_if(c, [](const T& x) { return val(x) % 3 == 0; }); m.erase(std::remove_if(m.begin(), m.end(), [](int x) { return x % 3 == 0; }), m.end()); break; }
        default: { t.op(50, "check"); eq(t, c, m, "wrong-thread-local-result"); read(t, c, m); break; }
        }
    }
    static void go(uint64_t cn) {
        Th t0(0, mix(ctx().seed, cn)); C base; M bm; sh().cur[0] = -1; size_t s = t0.rng.below(60); for (size_t i = 0; i < s; ++i) mutate(t0, base, bm, nullptr, nullptr);
        uint64_t sd = t0.rng.next(); const unsigned L = ctx().thorough ? 200 : 60;
        { const C& k = base; parallel("const members on one container", mix(sd, 1), [&](Th& t) { for (unsigned i = 0; i < L; ++i) { read(t, k, bm); if (t.rng.chance(1, 16)) std::this_thread::yield(); } }); }
        // four containers copied, moved or swapped from one another
        std::vector<std::unique_ptr<C>> cs; M ms[NT]; cs.emplace_back(new C(base)); ms[0] = bm; cs.emplace_back(new C(*cs[0])); ms[1] = bm; { C tmp(base); cs.emplace_back(new C(std::move(tmp))); ms[2] = bm; } { C tmp; tmp = base; cs.emplace_back(new C()); cs[3]->swap(tmp); ms[3] = bm; }
        { const C& k = base; parallel("own containers while sharing a source", mix(sd, 2), [&](Th& t) { for (unsigned i = 0; i < L; ++i) { if (t.rng.chance(1, 6)) read(t, k, bm); else mutate(t, *cs[size_t(t.id)], ms[t.id], &k, &bm); } eq(t, *cs[size_t(t.id)], ms[t.id], "wrong-thread-local-result"); }); }
        // each thread now owns what its neighbour built
        parallel("containers handed to other threads", mix(sd, 3), [&](Th& t) { size_t o = size_t(t.id + 1) % NT; for (unsigned i = 0; i < L / 2; ++i) mutate(t, *cs[o], ms[o], nullptr, nullptr); eq(t, *cs[o], ms[o], "wrong-thread-local-result"); cs[o].reset(); });
        Th e(0, 1); e.name = "final"; eq(e, base, bm, "shared-container-changed"); add_sample();
    }
};
int main(int argc, char** argv) {
    parse_args(argc, argv, CT::name());
    run_cases([](uint64_t n) { if (n % 2) W<int>::go(n); else W<Box>::go(n); });
    return finish();
}
