// C23, associative containers
#include "digest.hpp"
#include "assoctraits.hpp"
using namespace vd;
struct FK { int v; }; inline int val(const FK& x) { return x.v; }
struct Cmp { typedef void is_transparent; int mode; Cmp() : mode(0) {} explicit Cmp(int m) : mode(m) {}
    template <class A, class B> bool operator()(const A& a, const B& b) const {
#if VF_UNORD
        using vd::val; return val(a) == val(b);
#else
        using vd::val; return mode ? val(b) < val(a) : val(a) < val(b);
#endif
    } };
template <class V> struct ValOf { static u64 of(const V& v) { return u64(val(v)); } static int key(const V& v) { return val(v); } };
template <class K, class M> struct ValOf<std::pair<K, M> > { static u64 of(const std::pair<K, M>& p) { return u64(val(p.first)) * 100003 + u64(val(p.second)); } static int key(const std::pair<K, M>& p) { return val(p.first); } };
template <class K, class M, sz N, bool Copy> struct H {
    typedef ACont<K, M, N, Cmp, std::allocator<AVal<K, M> > > C; typedef typename C::value_type V; typedef typename C::iterator It; typedef typename C::const_iterator CIt;
    Rng r; std::unique_ptr<C> c[2]; int nv;
    explicit H(u64 s) : r(s), nv(0) { for (int i = 0; i < 2; ++i) c[i].reset(new C(Cmp(int(r.below(2))))); }
    int v() { nv = nv % 9000 + 1; return nv; }
    int key() { return int(r.below(11)) * 3; }
    static sz lim() { return AT::is_static ? N : 40; }
#if VF_MAP
    V mk() { return V(K(key()), M(v())); }
    V mk(int k) { return V(K(k), M(v())); }
#else
    V mk() { return V(key()); }
    V mk(int k) { return V(k); }
#endif
    void look(C& x) {
        const C& k = x; note("size", k.size()); note("empty", k.empty()); note("capacity", k.capacity()); note("available", k.available());
#if VF_STATIC
        note("full", k.full());
#endif
        for (CIt i = k.begin(); i != k.end(); ++i) note("element", ValOf<V>::of(*i));
#if !VF_UNORD
        if (r.below(4) == 0) for (typename C::const_reverse_iterator i = k.rbegin(); i != k.rend(); ++i) add(ValOf<V>::of(*i));
#endif
        if (!k.empty()) { sz p = r.below(unsigned(k.size())); note("nth", ValOf<V>::of(*k.nth(p))); note("index_of", k.index_of(x.nth(p))); note("data", ValOf<V>::of(k.data()[p])); }
        { int q = key() + int(r.below(4) == 0); K kk(q); FK f = {q}; note("find", u64(k.find(kk) - k.begin())); note("find foreign", u64(x.find(f) - x.begin())); note("count", k.count(kk)); note("count foreign", k.count(f)); note("contains", k.contains(kk)); note("contains foreign", k.contains(f));
#if !VF_UNORD
            note("lower_bound", u64(k.lower_bound(kk) - k.begin())); note("upper_bound", u64(x.upper_bound(kk) - x.begin())); note("equal_range", u64(k.equal_range(f).second - k.equal_range(kk).first)); note("lower foreign", u64(x.lower_bound(f) - x.begin()));
            note("comp", u64(k.key_comp()(kk, f))); 
#else
            note("eq", u64(k.key_eq()(kk, f)));
#endif
#if VF_MAP && !VF_MULTI
            if (k.contains(f)) { note("at", u64(val(k.at(kk)))); note("at foreign", u64(val(x.at(f)))); }
#endif
        }
    }
    void ret(C& k, It i) { note("returned", u64(i - k.begin())); }
    void ret(C& k, std::pair<It, bool> i) { note("returned", u64(i.first - k.begin())); note("inserted", i.second); }
    void copying(C& k, sz p, sz room, True) {
        V src[6] = {mk(), mk(), mk(), mk(), mk(), mk()}; sz n = r.below(6); if (n > room) n = room; const V x = mk(); sz na = r.below(7); CIt h = k.cbegin() + std::ptrdiff_t(p);
        switch (r.below(16)) {
        case 0: if (room) { op("insert(const&)", k.size()); ret(k, k.insert(x)); } break;
        case 1: if (room) { op("insert(hint,const&)", k.size(), p); ret(k, k.insert(h, x)); } break;
        case 2: op("insert(range)", k.size(), n); k.insert(src, src + n); break;
        case 3: { op("insert(input)", k.size(), n); InIt<V> a = {src}, b = {src + n}; k.insert(a, b); break; }
        case 4: { op("insert(forward)", k.size(), n); FwIt<V> a = {src}, b = {src + n}; k.insert(a, b); break; }
        case 5: if (room >= 3) { op("insert(ilist)", k.size()); k.insert({src[0], src[1], src[2]}); } break;
        case 6: op("operator=(ilist)", k.size()); k = {src[0], src[1], src[2]}; break;
        case 7: op("copy assignment", c[0]->size(), c[1]->size()); *c[0] = *c[1]; break;
        case 8: { op("copy construction", k.size()); C y(k); note("equal", y == k); look(y); break; }
        case 9: { op("construct(range)", na); C y(src, src + (na > 6 ? 6 : na), Cmp(1)); look(y); InIt<V> a = {src}, b = {src + (na > 6 ? 6 : na)}; C z(a, b); look(z); break; }
        case 10: { op("construct(ilist)"); C y = {src[0], src[1]}; look(y); C z({src[2], src[3]}, Cmp(1)); look(z); break; }
        case 11: if (room && !k.empty()) { op("insert(own)", k.size(), p); ret(k, k.insert(*k.nth(p % k.size()))); } break;
        default: copying2(k, p, room);
        }
    }
    void copying2(C& k, sz p, sz room) {
        (void)k; (void)p; (void)room;
#if VF_MAP && !VF_MULTI
        if (!room) return;
        const K kk(key()); const M m(v()); CIt h = k.cbegin() + std::ptrdiff_t(p);
        switch (r.below(5)) {
        case 0: op("insert_or_assign(const&)", k.size()); ret(k, k.insert_or_assign(kk, m)); break;
        case 1: op("insert_or_assign(hint,const&)", k.size(), p); ret(k, k.insert_or_assign(h, kk, m)); break;
        case 2: op("try_emplace(const&)", k.size()); ret(k, k.try_emplace(kk, m)); break;
        case 3: op("try_emplace(hint,const&)", k.size(), p); ret(k, k.try_emplace(h, kk, v())); break;
        default: op("[](const&)", k.size()); note("[]", u64(val(k[kk]))); k[kk] = m; break;
        }
#endif
    }
    void copying(C& k, sz p, sz room, False) { if (room) { op("insert(hint,&&)", k.size(), p); ret(k, k.insert(k.cbegin() + std::ptrdiff_t(p), mk())); } }
    void cross(True) {
        note("==", *c[0] == *c[1]); note("!=", *c[0] != *c[1]);
#if !VF_UNORD
        note("<", *c[0] < *c[1]); note(">=", *c[0] >= *c[1]); note(">", *c[0] > *c[1]); note("<=", *c[0] <= *c[1]);
#endif
    }
    void step() {
        int i = int(r.below(2)); C& k = *c[i]; sz n = k.size(), room = n < lim() ? lim() - n : 0, p = r.below(unsigned(n + 1)); CIt h = k.cbegin() + std::ptrdiff_t(p);
        switch (r.below(26)) {
        case 0: case 1: case 2: if (room) { op("insert(&&)", n); ret(k, k.insert(mk())); } break;
        case 3: if (room) { op("insert(hint,&&)", n, p); ret(k, k.insert(h, mk())); } break;
        case 4: case 5: if (room) { op("emplace", n);
#if VF_MAP
            ret(k, k.emplace(key(), v()));
#else
            ret(k, k.emplace(key()));
#endif
        } break;
        case 6: if (room) { op("emplace_hint", n, p);
#if VF_MAP
            ret(k, k.emplace_hint(h, std::piecewise_construct, std::forward_as_tuple(key()), std::forward_as_tuple(v())));
#else
            ret(k, k.emplace_hint(h, key()));
#endif
        } break;
        case 7: if (p < n) { op("erase", n, p); ret(k, k.erase(h)); } break;
        case 8: if (p < n) { op("erase(iterator)", n, p); ret(k, k.erase(k.nth(p))); } break;
        case 9: if (r.below(2)) { sz q = p + r.below(unsigned(n - p + 1)); op("erase(range)", n, p * 64 + q); ret(k, k.erase(h, k.cbegin() + std::ptrdiff_t(q))); } break;
        case 10: { op("erase(key)", n); note("erased", k.erase(K(key()))); break; }
        case 11: { op("erase(foreign)", n); FK f = {key()}; note("erased", k.erase(f)); break; }
        case 12: if (r.below(3) == 0) { op("clear", n); k.clear(); } break;
        case 13: op("swap", c[0]->size(), c[1]->size()); if (r.below(2)) c[0]->swap(*c[1]); else swap(*c[0], *c[1]); break;
        case 14: op("move assignment", c[0]->size(), c[1]->size()); *c[i] = std::move(*c[1 - i]); c[1 - i].reset(new C()); break;
        case 15: { op("move construction", n); C y(std::move(k)); look(y); k = std::move(y); break; }
        case 16: op("comparison", c[0]->size(), c[1]->size()); cross(True()); break;
        case 17: { op("erase_if", n); int m = int(r.below(5)); note("erased", erase_if(k, [m](const V& x) { return ValOf<V>::key(x) % 5 == m; })); break; }
        case 18:
#if !VF_STATIC
            { sz m = r.below(30); op("reserve", n, m); k.reserve(m); }
#endif
            break;
        case 19:
#if !VF_STATIC
            op("shrink_to_fit", n); k.shrink_to_fit();
#endif
            break;
        case 20: case 21:
#if VF_MAP && !VF_MULTI
            if (room) switch (r.below(8)) {
            case 0: op("insert_or_assign(&&)", n); ret(k, k.insert_or_assign(K(key()), M(v()))); break;
            case 1: op("insert_or_assign(hint,&&)", n, p); ret(k, k.insert_or_assign(h, K(key()), M(v()))); break;
            case 2: op("try_emplace(&&)", n); ret(k, k.try_emplace(K(key()), v())); break;
            case 3: op("try_emplace(hint,&&)", n, p); ret(k, k.try_emplace(h, K(key()), v())); break;
            case 4: op("[](&&)", n); k[K(key())] = M(v()); break;
            case 5: op("insert_or_assign(foreign)", n); ret(k, k.insert_or_assign(key(), M(v()))); break;
            case 6: op("try_emplace(foreign)", n); ret(k, k.try_emplace(key(), v())); break;
            default: op("[](foreign)", n); k[key()] = M(v()); break;
            }
#endif
            break;
        default: copying(k, p, room, typename Bool<Copy>::type()); break;
        }
        look(*c[0]); if (r.below(3) == 0) look(*c[1]);
    }
    void run(unsigned steps) { for (unsigned i = 0; i < steps; ++i) step(); look(*c[0]); look(*c[1]); }
};
#if VF_STATIC
#define VD_N1 24
#define VD_N2 9
#else
#define VD_N1 0
#define VD_N2 6
#endif
int main(int argc, char** argv) {
    init(argc, argv);
    cases([](u64 n) { unsigned L = n % 9 == 0 ? 200 : 60; u64 s = mix(S().seed, n);
        switch (n % 5) { case 0: { H<int, Str, VD_N1, true> h(s); h.run(L); break; } case 1: { H<Str, Mov, VD_N2, false> h(s); h.run(L); break; } case 2: { H<Mov, int, VD_N1, false> h(s); h.run(L); break; } case 3: { H<Thr, Thr, VD_N2, true> h(s); h.run(L); break; } default: { H<int, int, VD_N2, true> h(s); h.run(L); break; } } });
    return finish();
}
