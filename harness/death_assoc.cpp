// C17, associative containers
#include "assoc.hpp"
#include "death.hpp"
using namespace vf;
template <class K, class V, size_t N, bool TR, class A> struct DeathWorld : AssocWorld<K, V, N, TR, A> {
    using B = AssocWorld<K, V, N, TR, A>; using C = typename B::C; using VT = typename B::VT; using O = typename B::O; using CIt = typename C::const_iterator; using B::c; using B::m; using B::rng;
    explicit DeathWorld(uint64_t s) : B(s) {}
    bool foreign(int i, CIt& out, const char*& how) {
        C& k = *c[i]; const size_t sz = k.size();
        switch (rng.below(4)) {
        case 0: case 1: { int j = (i + 1 + int(rng.below(2))) % 3; C& o = *c[j]; if (o.size() == 0) return false; out = o.cbegin() + std::ptrdiff_t(rng.below(unsigned(o.size()))); how = "an iterator of another container"; return true; }
        case 2: { size_t room = B::cap_of(k) - sz; if (!room) return false; out = k.cend() + 1 + std::ptrdiff_t(rng.below(unsigned(room > 40 ? 40 : room))); how = "an iterator past the end"; return true; }
        default: if (!sz) return false; out = k.cbegin() - 1; how = "an iterator before the beginning"; return true;
        }
    }
    int key_for(int i, bool fresh) { for (int t = 0; t < 300; ++t) { int k = int(rng.below(64)) * 16 + int(rng.below(16)); if ((this->m_count(i, k) == 0) == fresh) return k; } return fresh || m[i].empty() ? -1 : m[i][0].first; }
    void misuse(int i) {
        C& k = *c[i]; const C& ck = k; const size_t sz = k.size(); volatile size_t sink = 0; (void)sink;
        { const size_t bad[] = {sz + 1, B::cap_of(k) + 1, ~size_t(0), sz + 1 + rng.below(100)}; size_t p = bad[rng.below(4)]; die("nth", "an index out of range", [&] { auto it = k.nth(p); (void)it; }); die("nth const", "an index out of range", [&] { auto it = ck.nth(p); (void)it; }); }
        die("erase(pos)", "end()", [&] { k.erase(k.cend()); });
        if constexpr (!std::is_same<typename C::iterator, CIt>::value) die("erase(iterator)", "end()", [&] { k.erase(k.end()); });
        if (sz) { size_t a = rng.below(unsigned(sz)), b = a + 1 + rng.below(unsigned(sz - a)); die("erase(range)", "a reversed range", [&] { k.erase(k.cbegin() + std::ptrdiff_t(b), k.cbegin() + std::ptrdiff_t(a)); }); }
        const bool room = sz < N || !AT::is_static;
        CIt f; const char* how = "";
        if (foreign(i, f, how)) {
            die("index_of", how, [&] { sink = k.index_of(f); });
            die("erase(pos)", how, [&] { k.erase(f); }); die("erase(range)", "both foreign", [&] { k.erase(f, f); });
            if (sz) { auto g = k.cbegin() + std::ptrdiff_t(rng.below(unsigned(sz + 1))); if (rng.chance(1, 2)) die("erase(range)", "a foreign first", [&] { k.erase(f, g); }); else die("erase(range)", "a foreign last", [&] { k.erase(g, f); }); }
            const int key = key_for(i, rng.chance(1, 2)); if (room && key >= 0) hinted(i, f, key, how);
        }
        if constexpr (AT::dyn) { int j = (i + 1) % 3; if (!(k.get_allocator() == c[j]->get_allocator()) && !std::allocator_traits<A>::propagate_on_container_swap::value) die("swap", "unequal allocators that do not propagate", [&] { k.swap(*c[j]); }); }
        if constexpr (AT::is_static) {
            if (sz == N) { int key = key_for(i, true); if (key >= 0) full(i, key, "a new key and a full container"); if (!AT::multi) { key = key_for(i, false); if (key >= 0) existing(i, key); } }
            if constexpr (O::copyable) {
                std::vector<VT> src; std::vector<int> ks; for (int t = 0; t < 400 && src.size() < N + 3; ++t) { int q = t * 16; bool dup = false; if (!AT::multi) { dup = this->m_count(i, q) != 0; for (int u : ks) dup = dup || this->rk(i, u) == this->rk(i, q); } if (!dup) { ks.push_back(q); src.push_back(O::make(q, 3)); } }
                const VT* b = src.data(); typename B::Cm cm(this->mode[i]);
                const size_t more = N - sz + 1 + rng.below(2);
                if (src.size() >= N + 1) { const size_t n = src.size(); die("ctor(range)", "more than the capacity", [&] { C y(b, b + n, cm); sink = y.size(); }); die("ctor(input range)", "more than the capacity", [&] { C y(SP<VT>{b}, SP<VT>{b + n}, cm); sink = y.size(); }); }
                if (src.size() >= more) { die("insert(range)", "more than fits", [&] { k.insert(b, b + more); }); die("insert(input range)", "more than fits", [&] { k.insert(SP<VT>{b}, SP<VT>{b + more}); }); }
                if (N - sz < 2 && src.size() >= 2) die("insert(ilist)", "more than fits", [&] { k.insert({b[0], b[1]}); });
                if constexpr (N == 4) if (src.size() >= 5) { die("operator=(ilist)", "more than the capacity", [&] { k = {b[0], b[1], b[2], b[3], b[4]}; }); die("ctor(ilist)", "more than the capacity", [&] { C y({b[0], b[1], b[2], b[3], b[4]}, cm); sink = y.size(); }); }
            }
        }
    }
    void hinted(int i, CIt f, int key, const char* how) {
        C& k = *c[i]; VT val(O::make(key, 3)); K kk(EV<K>::make(key)); V vv(EV<V>::make(3)); (void)vv;
        switch (rng.below(AT::is_map && !AT::multi ? 7 : 3)) {
        case 0: if constexpr (O::copyable) { die("insert(hint,const&)", how, [&] { k.insert(f, static_cast<const VT&>(val)); }); break; } // fallthrough
        case 1: die("insert(hint,&&)", how, [&] { k.insert(f, std::move(val)); }); break;
        case 2: die("emplace_hint", how, [&] { if constexpr (AT::is_map) k.emplace_hint(f, std::move(kk), std::move(vv)); else k.emplace_hint(f, std::move(kk)); }); break;
        case 3: if constexpr (AT::is_map && !AT::multi) die("try_emplace(hint)", how, [&] { k.try_emplace(f, std::move(kk), std::move(vv)); }); break;
        case 4: if constexpr (AT::is_map && !AT::multi && EV<K>::copyable) die("try_emplace(hint,const&)", how, [&] { k.try_emplace(f, static_cast<const K&>(kk), std::move(vv)); }); break;
        case 5: if constexpr (AT::is_map && !AT::multi && EV<K>::copyable) die("insert_or_assign(hint,const&)", how, [&] { k.insert_or_assign(f, static_cast<const K&>(kk), std::move(vv)); }); break;
        default: if constexpr (AT::is_map && !AT::multi) die("insert_or_assign(hint)", how, [&] { k.insert_or_assign(f, std::move(kk), std::move(vv)); }); break;
        }
        if constexpr (TR && B::conv_key && AT::is_map && !AT::multi) { Fk x(key); if (rng.chance(1, 2)) die("try_emplace(hint,K&&)", how, [&] { k.try_emplace(f, x, std::move(vv)); }); else die("insert_or_assign(hint,K&&)", how, [&] { k.insert_or_assign(f, x, std::move(vv)); }); }
        if constexpr (TR && B::conv_key && !AT::is_map && !AT::multi) { Fk x(key); die("insert(hint,K&&)", how, [&] { k.insert(f, x); }); }
    }
    void existing(int i, int key) {
        C& k = *c[i]; const char* how = "an existing key and a full container"; VT val(O::make(key, 3)); K kk(EV<K>::make(key)); V vv(EV<V>::make(3)); (void)vv;
        switch (rng.below(3)) { case 0: die("insert(&&)", how, [&] { k.insert(std::move(val)); }); break; case 1: die("emplace", how, [&] { if constexpr (AT::is_map) k.emplace(std::move(kk), std::move(vv)); else k.emplace(std::move(kk)); }); break; default: if constexpr (AT::is_map && !AT::multi) die("try_emplace", how, [&] { k.try_emplace(std::move(kk), std::move(vv)); }); break; }
    }
    void full(int i, int key, const char* how) {
        C& k = *c[i]; VT val(O::make(key, 3)); K kk(EV<K>::make(key)); V vv(EV<V>::make(3)); (void)vv; CIt h = k.cbegin() + std::ptrdiff_t(rng.below(unsigned(k.size() + 1)));
        if (rng.chance(1, 2)) h = k.cbegin() + std::ptrdiff_t(AT::ordered ? this->m_upper(i, this->rk(i, key)) : k.size()); // a good hint
        die("insert(&&)", how, [&] { k.insert(std::move(val)); }); die("insert(hint,&&)", how, [&] { k.insert(h, std::move(val)); });
        if constexpr (O::copyable) { die("insert(const&)", how, [&] { k.insert(static_cast<const VT&>(val)); }); die("insert(hint,const&)", how, [&] { k.insert(h, static_cast<const VT&>(val)); }); die("insert(ilist)", how, [&] { k.insert({val}); }); }
        die("emplace", how, [&] { if constexpr (AT::is_map) k.emplace(std::move(kk), std::move(vv)); else k.emplace(std::move(kk)); }); die("emplace_hint", how, [&] { if constexpr (AT::is_map) k.emplace_hint(h, std::move(kk), std::move(vv)); else k.emplace_hint(h, std::move(kk)); });
        if constexpr (AT::is_map && !AT::multi) {
            die("try_emplace(&&)", how, [&] { k.try_emplace(std::move(kk), std::move(vv)); }); die("try_emplace(hint,&&)", how, [&] { k.try_emplace(h, std::move(kk), std::move(vv)); });
            die("insert_or_assign(&&)", how, [&] { k.insert_or_assign(std::move(kk), std::move(vv)); }); die("insert_or_assign(hint,&&)", how, [&] { k.insert_or_assign(h, std::move(kk), std::move(vv)); });
            die("operator[](&&)", how, [&] { k[std::move(kk)] = std::move(vv); });
            if constexpr (EV<K>::copyable) { const K& q = kk; die("try_emplace(const&)", how, [&] { k.try_emplace(q, std::move(vv)); }); die("try_emplace(hint,const&)", how, [&] { k.try_emplace(h, q, std::move(vv)); }); die("insert_or_assign(const&)", how, [&] { k.insert_or_assign(q, std::move(vv)); }); die("insert_or_assign(hint,const&)", how, [&] { k.insert_or_assign(h, q, std::move(vv)); }); die("operator[](const&)", how, [&] { k[q] = std::move(vv); }); }
            if constexpr (TR && B::conv_key) { Fk x(key); die("try_emplace(K&&)", how, [&] { k.try_emplace(x, std::move(vv)); }); die("try_emplace(hint,K&&)", how, [&] { k.try_emplace(h, x, std::move(vv)); }); die("insert_or_assign(K&&)", how, [&] { k.insert_or_assign(x, std::move(vv)); }); die("insert_or_assign(hint,K&&)", how, [&] { k.insert_or_assign(h, x, std::move(vv)); }); }
        }
        if constexpr (!AT::is_map && !AT::multi && TR && B::conv_key) { Fk x(key); die("insert(K&&)", how, [&] { k.insert(x); }); die("insert(hint,K&&)", how, [&] { k.insert(h, x); }); }
    }
};
template <class K, class V, size_t N, bool TR, unsigned P> void go(uint64_t cn) {
    DeathWorld<K, V, N, TR, MonAlloc<AVal<K, V>, P>> w(mix(ctx().seed, cn)); if (!AT::is_static) w.soft_max = 14; w.max_n = 6;
    if (AT::is_static) { w.w.insert1 = 60; w.w.erase = w.w.erasekey = w.w.erasebulk = 2; }
    for (int round = 0; round < 3; ++round) { size_t s = 1 + w.rng.below(14); for (size_t i = 0; i < s; ++i) w.step(); w.misuse(int(w.rng.below(3))); }
    add_sample(); w.verify_all(); w.finish_world();
}
int main(int argc, char** argv) {
    parse_args(argc, argv, AT::name()); elems(); constructed(); blocks().v.reserve(256); page(); devnull();
    run_cases([](uint64_t n) {
        const bool S = AT::is_static;
        switch (n % 3) {
        case 0: go<Obj<EF_NTM>, Obj<0>, S ? 4 : 3, true, AP_POCMA>(n); break;
        case 1: go<int, int, S ? 4 : 0, false, 0>(n); break;
        case 2: go<ObjM<0>, ObjM<0>, S ? 3 : 5, true, AP_POCCA>(n); break;
        }
    });
    return finish();
}
