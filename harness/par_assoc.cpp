// C18, associative containers
#include "par.hpp"
#include "assoctraits.hpp"
#include <algorithm>
#include <functional>
#include <memory>
using namespace vf;
struct FKey { int k; };
struct Less { using is_transparent = void; template <class A, class B> bool operator()(const A& a, const B& b) const { return kv(a) < kv(b); } template <class X> static int kv(const X& x) { return val(x); } static int kv(const FKey& f) { return f.k; } };
struct Eq { using is_transparent = void; template <class A, class B> bool operator()(const A& a, const B& b) const { return Less::kv(a) == Less::kv(b); } };
using Cm = std::conditional<AT::ordered, Less, Eq>::type;
template <class K, class V, size_t N> struct W {
    using C = ACont<K, V, N, Cm, std::allocator<AVal<K, V>>>; using P = std::pair<int, int>; using M = std::vector<P>; // sorted model
    static P get(const AVal<K, V>& x) { if constexpr (AT::is_map) return P(val(x.first), val(x.second)); else return P(val(x), 0); }
    static AVal<K, V> mk(int k, int v) { if constexpr (AT::is_map) return AVal<K, V>(K(k), V(v)); else { (void)v; return K(k); } }
    static size_t lim() { return AT::is_static ? N : 40; }
    static void eq(Th& t, const C& c, const M& m, const char* kind) { M a; for (auto it = c.begin(); it != c.end(); ++it) { a.push_back(get(*it)); t.check(a.size() <= m.size(), kind, "more elements than %zu", m.size()); } std::sort(a.begin(), a.end()); t.check(a == m && c.size() == m.size(), kind, "contents differ (size %zu, expected %zu)", a.size(), m.size()); if (AT::ordered) { int l = -1; for (auto it = c.begin(); it != c.end(); ++it) { int k = get(*it).first; t.check(AT::multi ? k >= l : k > l, kind, "order"); l = k; } } }
    static size_t cntk(const M& m, int k) { size_t n = 0; for (auto& e : m) n += e.first == k; return n; }
    template <class X> static void look(Th& t, const C& c, const M& m, const X& x, int k) {
        const char* kd = "wrong-concurrent-read"; const size_t n = cntk(m, k);
        switch (t.rng.below(AT::ordered ? 6 : 3)) {
        case 0: { t.op(1, "find"); auto it = c.find(x); t.check((it != c.end()) == (n != 0) && (!n || get(*it).first == k), kd, "find(%d)", k); break; }
        case 1: t.op(2, "count"); t.check(c.count(x) == n, kd, "count(%d)", k); break;
        case 2: t.op(3, "contains"); t.check(c.contains(x) == (n != 0), kd, "contains(%d)", k); break;
        case 3: if constexpr (AT::ordered) { t.op(4, "lower_bound"); size_t lo = 0; for (auto& e : m) lo += e.first < k; t.check(size_t(c.lower_bound(x) - c.begin()) == lo, kd, "lower_bound(%d)", k); } break;
        case 4: if constexpr (AT::ordered) { t.op(5, "upper_bound"); size_t hi = 0; for (auto& e : m) hi += e.first <= k; t.check(size_t(c.upper_bound(x) - c.begin()) == hi, kd, "upper_bound(%d)", k); } break;
        default: if constexpr (AT::ordered) { t.op(6, "equal_range"); auto r = c.equal_range(x); t.check(size_t(r.second - r.first) == n, kd, "equal_range(%d)", k); } break;
        }
    }
    static void read(Th& t, const C& c, const M& m) {
        const char* kd = "wrong-concurrent-read"; int k = int(t.rng.below(60)); const size_t n = m.size();
        switch (t.rng.below(12)) {
        case 0: case 1: case 2: { K key(k); look(t, c, m, key, k); break; }
        case 3: case 4: { FKey f{k}; look(t, c, m, f, k); break; }
        case 5: t.op(7, "iteration"); eq(t, c, m, kd); break;
        case 6: t.op(8, "size"); t.check(c.size() == n && c.empty() == (n == 0) && c.max_size() >= n, kd, "size"); if constexpr (AT::dyn) t.check(c.capacity() >= n, kd, "capacity"); else t.check(c.full() == (n == N), kd, "full"); break;
        case 7: if constexpr (AT::is_map && !AT::multi) { t.op(9, "at"); if (n) { auto& e = m[t.rng.below(unsigned(n))]; K key(e.first); t.check(val(c.at(key)) == e.second, kd, "at(%d)", e.first); } } break;
        case 8: { t.op(10, "copy construction"); C x(c); eq(t, x, m, kd); t.check(x == c && !(x != c), kd, "copy differs"); break; }
        case 9: { t.op(11, "copy assignment from"); C x; x = c; eq(t, x, m, kd); break; }
        case 10: { t.op(12, "nth/index_of/data"); size_t p = t.rng.below(unsigned(n + 1)); t.check(c.index_of(c.nth(p)) == p, kd, "nth(%zu)", p); if (p < n) t.check(get(c.data()[p]) == get(*c.nth(p)), kd, "data"); break; }
        default: { t.op(13, "observers"); if constexpr (AT::ordered) { if (n > 1) { auto a = c.begin(), b = a + 1; t.check(!c.value_comp()(*b, *a), kd, "value_comp"); t.check(!(c < c) && c <= c, kd, "<"); } auto q = c.key_comp(); (void)q; } else { auto q = c.key_eq(); (void)q; } break; }
        }
    }
    static void put(M& m, int k, int v) { if (!AT::is_map) v = 0; if (!AT::multi && cntk(m, k)) return; m.push_back(P(k, v)); std::sort(m.begin(), m.end()); }
    static void mutate(Th& t, C& c, M& m, const C* shared, const M* sm) {
        const bool room = m.size() < lim(); int k = int(t.rng.below(60)), v = 1 + int(t.rng.below(1000));
        switch (t.rng.below(16)) {
        case 0: case 1: case 2: if (room) { t.op(30, "insert"); c.insert(mk(k, v)); put(m, k, v); } break;
        case 3: if (room) { t.op(31, "emplace"); if constexpr (AT::is_map) c.emplace(K(k), V(v)); else c.emplace(K(k)); put(m, k, v); } break;
        case 4: if (room) { t.op(32, "insert(hint)"); const auto x = mk(k, v); c.insert(c.cbegin() + std::ptrdiff_t(t.rng.below(unsigned(m.size() + 1))), x); put(m, k, v); } break;
        case 5: if constexpr (AT::is_map && !AT::multi) { if (room) { t.op(33, "operator[]"); c[K(k)] = V(v); if (cntk(m, k)) { for (auto& e : m) if (e.first == k) e.second = v; } else put(m, k, v); } } break;
        case 6: if constexpr (AT::is_map && !AT::multi) { if (room) { t.op(34, "try_emplace/insert_or_assign"); if (t.rng.chance(1, 2)) { c.try_emplace(K(k), V(v)); put(m, k, v); } else { c.insert_or_assign(K(k), V(v)); if (cntk(m, k)) { for (auto& e : m) if (e.first == k) e.second = v; } else put(m, k, v); } } } break;
        case 7: { t.op(35, "erase(key)"); K key(k); c.erase(key); m.erase(std::remove_if(m.begin(), m.end(), [&](const P& e) { return e.first == k; }), m.end()); break; }
        case 8: if (!m.empty()) { t.op(36, "erase(pos)"); auto it = c.cbegin() + std::ptrdiff_t(t.rng.below(unsigned(m.size()))); P e = get(*it); c.erase(it); m.erase(std::find(m.begin(), m.end(), e)); } break;
        case 9: { t.op(37, "clear"); if (t.rng.chance(1, 6)) { c.clear(); m.clear(); } break; }
        case 10: if (shared) { t.op(38, "copy from shared"); c = *shared; m = *sm; } break;
        case 11: { t.op(39, "move round trip"); C x(std::move(c)); c = std::move(x); break; }
        case 12: { t.op(40, "swap"); C x; M y; x.insert(mk(k, v)); put(y, k, v); c.swap(x); m.swap(y); if (t.rng.chance(1, 2)) { swap(c, x); m.swap(y); } break; }
        case 13: { if constexpr (AT::dyn) { t.op(41, "reserve/shrink"); if (t.rng.chance(1, 2)) c.reserve(t.rng.below(40)); else c.shrink_to_fit(); } break; }
        case 14: { t.op(42, "erase_if"); erase_if(c, [](const AVal<K, V>& x) { return get(x).first % 5 == 0; }); m.erase(std::remove_if(m.begin(), m.end(), [](const P& e) { return e.first % 5 == 0; }), m.end()); break; }
        default: { t.op(43, "check"); eq(t, c, m, "wrong-thread-local-result"); read(t, c, m); break; }
        }
    }
    static void go(uint64_t cn) {
        Th t0(0, mix(ctx().seed, cn)); C base; M bm; for (int i = 0; i < NT; ++i) sh().cur[i] = -1; size_t s = t0.rng.below(70); for (size_t i = 0; i < s; ++i) mutate(t0, base, bm, nullptr, nullptr);
        uint64_t sd = t0.rng.next(); const unsigned L = ctx().thorough ? 200 : 60;
        { const C& k = base; parallel("const members on one container", mix(sd, 1), [&](Th& t) { for (unsigned i = 0; i < L; ++i) { read(t, k, bm); if (t.rng.chance(1, 16)) std::this_thread::yield(); } }); }
        std::vector<std::unique_ptr<C>> cs; M ms[NT]; cs.emplace_back(new C(base)); ms[0] = bm; cs.emplace_back(new C(*cs[0])); ms[1] = bm; { C tmp(base); cs.emplace_back(new C(std::move(tmp))); ms[2] = bm; } { C tmp; tmp = base; cs.emplace_back(new C()); cs[3]->swap(tmp); ms[3] = bm; }
        { const C& k = base; parallel("own containers while sharing a source", mix(sd, 2), [&](Th& t) { for (unsigned i = 0; i < L; ++i) { if (t.rng.chance(1, 6)) read(t, k, bm); else mutate(t, *cs[size_t(t.id)], ms[t.id], &k, &bm); } eq(t, *cs[size_t(t.id)], ms[t.id], "wrong-thread-local-result"); }); }
        parallel("containers handed to other threads", mix(sd, 3), [&](Th& t) { size_t o = size_t(t.id + 1) % NT; for (unsigned i = 0; i < L / 2; ++i) mutate(t, *cs[o], ms[o], nullptr, nullptr); eq(t, *cs[o], ms[o], "wrong-thread-local-result"); cs[o].reset(); });
        Th e(0, 1); e.name = "final"; eq(e, base, bm, "shared-container-changed"); add_sample();
    }
};
int main(int argc, char** argv) {
    parse_args(argc, argv, AT::name());
    run_cases([](uint64_t n) { const bool S = AT::is_static; if (n % 2) W<int, int, S ? 20 : 0>::go(n); else W<Box, Box, S ? 30 : 6>::go(n); });
    return finish();
}
