// C23, sequence containers
#include "digest.hpp"
#if defined(VF_vector)
#include <sfl/vector.hpp>
template <class T> struct CC { typedef sfl::vector<T> type; };
#define VD_RES 1
#define VD_DATA 1
#define VD_NAME "vector"
#elif defined(VF_devector)
#include <sfl/devector.hpp>
template <class T> struct CC { typedef sfl::devector<T> type; };
#define VD_FRONT 1
#define VD_DATA 1
#elif defined(VF_compact_vector)
#include <sfl/compact_vector.hpp>
template <class T> struct CC { typedef sfl::compact_vector<T> type; };
#define VD_DATA 1
#define VD_COMPACT 1
#elif defined(VF_segmented_vector)
#include <sfl/segmented_vector.hpp>
template <class T> struct CC { typedef sfl::segmented_vector<T, VF_N> type; };
#define VD_RES 1
#elif defined(VF_segmented_devector)
#include <sfl/segmented_devector.hpp>
template <class T> struct CC { typedef sfl::segmented_devector<T, VF_N> type; };
#define VD_FRONT 1
#elif defined(VF_small_vector)
#include <sfl/small_vector.hpp>
template <class T> struct CC { typedef sfl::small_vector<T, VF_N> type; };
#define VD_RES 1
#define VD_DATA 1
#elif defined(VF_static_vector)
#include <sfl/static_vector.hpp>
template <class T> struct CC { typedef sfl::static_vector<T, VF_N> type; };
#define VD_DATA 1
#define VD_STATIC 1
#endif
using namespace vd;
template <class T, bool Copy> struct H {
    typedef typename CC<T>::type C; typedef typename C::iterator It; typedef typename C::const_iterator CIt;
    Rng r; std::unique_ptr<C> c[2]; int nv;
    explicit H(u64 s) : r(s), nv(0) { c[0].reset(new C()); c[1].reset(new C()); }
    int v() { nv = nv % 9000 + 1; return nv; }
    static sz lim() {
#ifdef VD_STATIC
        return VF_N;
#else
        return 48;
#endif
    }
    void look(C& x) {
        const C& k = x; note("size", k.size()); note("empty", k.empty()); note("capacity", k.capacity()); 
#ifdef VD_STATIC
        note("full", k.full());
#endif
#if defined(VD_FRONT)
        note("available_front", k.available_front()); note("available_back", k.available_back());
#elif !defined(VD_COMPACT)
        note("available", k.available());
#endif
        for (CIt i = k.begin(); i != k.end(); ++i) note("element", u64(val(*i)));
        if (r.below(4) == 0) { for (typename C::const_reverse_iterator i = k.rbegin(); i != k.rend(); ++i) add(u64(val(*i))); for (typename C::reverse_iterator i = x.rbegin(); i != x.rend(); ++i) add(u64(val(*i))); }
        if (!k.empty()) { sz p = r.below(unsigned(k.size())); note("[]", u64(val(k[p]))); note("at", u64(val(x.at(p)))); note("front", u64(val(k.front()))); note("back", u64(val(x.back()))); note("nth", u64(val(*k.nth(p)))); note("index_of", k.index_of(x.nth(p)));
#ifdef VD_DATA
            note("data", u64(val(k.data()[p])));
#endif
        }
    }
    CIt pos(C& k, sz p) { return k.cbegin() + std::ptrdiff_t(p); }
    void ret(C& k, It i) { note("returned", u64(i - k.begin())); }
    // operations that need copies
    void copying(C& k, sz p, sz room, True) {
        T src[8] = {T(v()), T(v()), T(v()), T(v()), T(v()), T(v()), T(v()), T(v())}; sz n = r.below(8); if (n > room) n = room; const T x(v()); sz na = r.below(9); if (na > lim()) na = lim(); if (na > 8) na = 8;
        switch (r.below(20)) {
        case 0: if (room) { op("push_back(const&)", k.size(), p); k.push_back(x); } break;
        case 1: if (room) { op("insert(const&)", k.size(), p); ret(k, k.insert(pos(k, p), x)); } break;
        case 2: op("insert(n,value)", k.size(), p * 16 + n); ret(k, k.insert(pos(k, p), n, x)); break;
        case 3: op("insert(range)", k.size(), p * 16 + n); ret(k, k.insert(pos(k, p), src, src + n)); break;
        case 4: { op("insert(forward)", k.size(), p * 16 + n); FwIt<T> a = {src}, b = {src + n}; ret(k, k.insert(pos(k, p), a, b)); break; }
        case 5: { op("insert(input)", k.size(), p * 16 + n); InIt<T> a = {src}, b = {src + n}; ret(k, k.insert(pos(k, p), a, b)); break; }
        case 6: if (room >= 3) { op("insert(ilist)", k.size(), p); ret(k, k.insert(pos(k, p), {T(5), T(6), T(7)})); } break;
        case 7: op("assign(n,value)", k.size(), na); k.assign(na, x); break;
        case 8: op("assign(range)", k.size(), na); k.assign(src, src + na); break;
        case 9: { op("assign(input)", k.size(), na); InIt<T> a = {src}, b = {src + na}; k.assign(a, b); break; }
        case 10: if (lim() >= 4) { op("assign(ilist)", k.size()); k.assign({T(1), T(2), T(3), T(4)}); } break;
        case 11: if (lim() >= 3) { op("operator=(ilist)", k.size()); k = {T(1), T(2), T(3)}; } break;
        case 12: op("copy assignment", c[0]->size(), c[1]->size()); *c[0] = *c[1]; break;
        case 13: { op("copy construction", k.size()); C y(k); note("equal", y == k); look(y); break; }
        case 14: { op("resize(n,value)", k.size(), n); sz m = r.below(unsigned(lim() / 2 + 1)); k.resize(m, x); break; }
        case 15: { op("construct(n,value)", na); C y(na, x); look(y); C z(src, src + na); look(z); InIt<T> a = {src}, b = {src + na}; C w(a, b); look(w); break; }
        case 16: if (lim() >= 2) { op("construct(ilist)"); C y = {T(3), T(4)}; look(y); } break;
        case 17: if (room && !k.empty()) { op("push_back(own)", k.size()); k.push_back(k.front()); ret(k, k.insert(pos(k, 0), 0, k.back())); } break;
        case 18: { op("erase(value)", k.size()); note("erased", erase(k, x)); break; }
        default:
#ifdef VD_FRONT
            if (room >= 9) { op("front copies", k.size()); k.push_front(x); k.resize_front(k.size() + 2, x); k.resize_back(k.size() + 2, x); }
#endif
            break;
        }
    }
    void copying(C& k, sz p, sz room, False) { if (room) { op("push_back(&&)", k.size(), p); k.push_back(T(v())); } }
    void cross(True) { note("==", *c[0] == *c[1]); note("<", *c[0] < *c[1]); note(">=", *c[0] >= *c[1]); note(">", *c[0] > *c[1]); note("<=", *c[0] <= *c[1]); note("!=", *c[0] != *c[1]); }
    void step() {
        int i = int(r.below(2)); C& k = *c[i]; sz n = k.size(), room = n < lim() ? lim() - n : 0, p = r.below(unsigned(n + 1));
        switch (r.below(24)) {
        case 0: case 1: if (room) { op("push_back(&&)", n); k.push_back(T(v())); } break;
        case 2: if (room) { op("emplace_back", n); note("emplaced", u64(val(k.emplace_back(v())))); } break;
        case 3: if (room) { op("insert(&&)", n, p); ret(k, k.insert(pos(k, p), T(v()))); } break;
        case 4: if (room) { op("emplace", n, p); ret(k, k.emplace(pos(k, p), v())); } break;
        case 5: if (n) { op("pop_back", n); k.pop_back(); } break;
        case 6: if (p < n) { op("erase", n, p); ret(k, k.erase(pos(k, p))); } break;
        case 7: { sz q = p + r.below(unsigned(n - p + 1)); op("erase(range)", n, p * 64 + q); ret(k, k.erase(pos(k, p), pos(k, q))); break; }
        case 8: { sz m = r.below(unsigned(lim() / 2 + 1)); op("resize", n, m); k.resize(m); break; }
        case 9: if (r.below(3) == 0) { op("clear", n); k.clear(); } break;
        case 10: op("swap", c[0]->size(), c[1]->size()); if (r.below(2)) c[0]->swap(*c[1]); else swap(*c[0], *c[1]); break;
        case 11: op("move assignment", c[0]->size(), c[1]->size()); *c[i] = std::move(*c[1 - i]); c[1 - i].reset(new C()); break;
        case 12: { op("move construction", n); C y(std::move(k)); look(y); k = std::move(y); break; }
        case 13: op("comparison", c[0]->size(), c[1]->size()); cross(True()); break;
        case 14: if (n) { op("write", n, p); sz q = r.below(unsigned(n)); k[q] = T(v()); *k.nth(q) = T(v()); } break;
        case 15: { op("erase_if", n); note("erased", erase_if(k, [](const T& x) { return val(x) % 4 == 0; })); break; }
        case 16: { sz m = r.below(unsigned(lim() < 9 ? lim() : 9)); op("construct(n)", m); C y(m); look(y); break; }
        case 17:
#if defined(VD_RES)
            { sz m = r.below(60); op("reserve", n, m); k.reserve(m); break; }
#elif defined(VD_FRONT)
            { sz m = r.below(60); op("reserve_front", n, m); k.reserve_front(m); m = r.below(60); op("reserve_back", n, m); k.reserve_back(m); break; }
#else
            break;
#endif
        case 18:
#if !defined(VD_COMPACT) && !defined(VD_STATIC)
            op("shrink_to_fit", n); k.shrink_to_fit();
#endif
            break;
        case 19:
#ifdef VD_FRONT
            if (room > 4) { op("front", n); k.push_front(T(v())); note("emplaced", u64(val(k.emplace_front(v())))); k.pop_front(); k.resize_front(k.size() + 1); k.resize_back(k.size() + 1); }
#endif
            break;
        default: copying(k, p, room, typename Bool<Copy>::type()); break;
        }
        look(*c[0]); if (r.below(3) == 0) look(*c[1]);
    }
    void run(unsigned steps) { for (unsigned i = 0; i < steps; ++i) step(); look(*c[0]); look(*c[1]); }
};
int main(int argc, char** argv) {
    init(argc, argv);
#if __cplusplus >= 201703L
    {   // deduction guides
        int a[3] = {1, 2, 3}; (void)a;
#if defined(VF_vector)
        sfl::vector d1(a, a + 3); sfl::vector d2{4, 5}; static_assert(std::is_same<decltype(d1), sfl::vector<int>>::value && std::is_same<decltype(d2), sfl::vector<int>>::value, "guides");
#elif defined(VF_devector)
        sfl::devector d1(a, a + 3); static_assert(std::is_same<decltype(d1), sfl::devector<int>>::value, "guides");
#endif
    }
#endif
    cases([](u64 n) { unsigned L = n % 9 == 0 ? 200 : 60; u64 s = mix(S().seed, n); switch (n % 4) { case 0: { H<int, true> h(s); h.run(L); break; } case 1: { H<Str, true> h(s); h.run(L); break; } case 2: { H<Mov, false> h(s); h.run(L); break; } default: { H<Thr, true> h(s); h.run(L); break; } } });
    return finish();
}
