// C16, associative containers: at() of absent keys, reservations, insertions and ranges around max_size from many
// states; a refused request must leave the container (contents, addresses, capacity, blocks, live elements) as it was.
#include "assoc.hpp"
#include "err.hpp"
using namespace vf;
template <class K, class V, size_t N, bool TR, unsigned P> struct ErrWorld : AssocWorld<K, V, N, TR, MonAlloc<AVal<K, V>, P>> {
    using A = MonAlloc<AVal<K, V>, P>; using B = AssocWorld<K, V, N, TR, A>; using C = typename B::C; using VT = typename B::VT; using O = typename B::O; using CIt = typename B::CIt;
    using B::m; using B::rng;
    explicit ErrWorld(uint64_t s) : B(s) {}
    struct Snap { std::vector<KV> v; const void* data; size_t cap, blocks, live, built; };
    Snap snap(int i) { Quiet q; const C& c = *this->c[i]; Snap s; s.v = this->read_all(i); s.data = c.data(); s.cap = B::cap_of(c); s.blocks = blocks().live(); s.live = elems().n; s.built = constructed().n; return s; }
    void same(const Snap& a, const Snap& b, const char* what, bool contents) {
        if (contents) { VF_CHECK(a.v == b.v, "error-changed-contents", "%s: contents changed by a refused request (size %zu -> %zu)", what, a.v.size(), b.v.size());
            VF_CHECK(a.cap == b.cap && a.data == b.data, "error-changed-capacity", "%s: capacity %zu -> %zu or elements moved", what, a.cap, b.cap); }
        VF_CHECK(a.blocks == b.blocks && a.live + (b.v.size() - a.v.size()) * O::per_elem == b.live && a.built + (AT::dyn && B::mon_c((A*)nullptr) ? b.v.size() - a.v.size() : 0) == b.built, "error-leak", "%s: blocks %zu -> %zu, objects %zu -> %zu, elements %zu -> %zu", what, a.blocks, b.blocks, a.live, b.live, a.v.size(), b.v.size());
    }
    size_t maxs(int i) { return this->c[i]->max_size(); }
    // want: LENGTH (must be refused), OK (must not), NOMEM (either)
    template <class F, class G> void request(const char* name, int i, size_t n, Out want, F f, G granted, bool contents = true) {
        op_begin(name, "s%d n=%zu size=%zu cap=%zu max=%zu", i, n, m[i].size(), B::cap_of(*this->c[i]), maxs(i)); distinct(mix(mix(n, m[i].size()), std::strlen(name) * 977 + name[0]));
        Snap a = snap(i); Out o = run(f); count(out_name(o));
        VF_CHECK(o != OTHER && o != RANGE, "wrong-exception", "%s: %s", name, out_name(o));
        if (want == LENGTH) VF_CHECK(o == LENGTH, "error-absorbed", "%s (n=%zu) at size %zu, max_size %zu ended in %s instead of length_error", name, n, m[i].size(), maxs(i), out_name(o));
        if (want == OK) VF_CHECK(o == OK || (o == NOMEM && n > 100000), "false-error", "%s (n=%zu) at size %zu capacity %zu, max_size %zu was refused: %s", name, n, m[i].size(), a.cap, maxs(i), out_name(o));
#ifdef SFL_NO_EXCEPTIONS
        Snap b = snap(i); same(a, b, name, true); (void)granted;
#else
        if (o != OK) { Snap b = snap(i); same(a, b, name, contents); if (!contents) { m[i] = b.v; this->check_order(i, "error-wrong-order"); VF_CHECK(subset(a.v, b.v), "error-lost", "%s: elements present before the refused request are gone", name); } }
        else granted();
        VF_CHECK(this->c[i]->size() <= maxs(i), "size-over-max", "%s: size %zu over max_size %zu", name, size_t(this->c[i]->size()), maxs(i));
        VF_CHECK(B::cap_of(*this->c[i]) <= (maxs(i) > N ? maxs(i) : N), "capacity-over-max", "%s: capacity %zu over max_size %zu", name, B::cap_of(*this->c[i]), maxs(i));
        this->verify(i, "error-wrong-contents");
#endif
    }
    static bool subset(std::vector<KV> a, std::vector<KV> b) { std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end()); return std::includes(b.begin(), b.end(), a.begin(), a.end()); }
    int fresh(int i) { for (int t = 0; t < 300; ++t) { int k = int(rng.below(64)) * 16 + int(rng.below(16)); if (AT::multi || this->m_count(i, k) == 0) return k; } return -1; }
    int present(int i) { return m[i][rng.below(unsigned(m[i].size()))].first; }
    void at_absent(int i) {
        if constexpr (AT::is_map && !AT::multi) {
            C& c = *this->c[i]; const C& k = c; op_begin("at", "size %zu", m[i].size()); Snap a = snap(i);
#ifdef SFL_NO_EXCEPTIONS
            const int rounds = 2; const Out bad = LENGTH;
#else
            const int rounds = 10; const Out bad = RANGE;
#endif
            for (int z = 0; z < rounds; ++z) {
                int key = rng.chance(1, 2) && !m[i].empty() ? present(i) : int(rng.below(40)) * 16 + int(rng.below(16)); const bool has = this->m_count(i, key) != 0; const Out want = has ? OK : bad;
                int x = -1, y = -1; { K kk(EV<K>::make(key)); Out o1 = run([&] { x = EV<V>::get(c.at(kk)); }), o2 = run([&] { y = EV<V>::get(k.at(kk)); });
                VF_CHECK(o1 == want && o2 == want, has ? "false-error" : "error-absorbed", "at(%s key) of size %zu: %s / %s", has ? "present" : "absent", m[i].size(), out_name(o1), out_name(o2)); }
                if constexpr (TR) { Fk fk(key); Out o1 = run([&] { (void)c.at(fk); }), o2 = run([&] { (void)k.at(fk); }); VF_CHECK(o1 == want && o2 == want, has ? "false-error" : "error-absorbed", "at(foreign %s key) of size %zu: %s / %s", has ? "present" : "absent", m[i].size(), out_name(o1), out_name(o2)); }
#ifndef SFL_NO_EXCEPTIONS
                if (has) { size_t f = this->m_find(i, key); VF_CHECK(x == m[i][f].second && y == x, "wrong-at", "at(%d) is %d, model %d", key, x, m[i][f].second); }
#endif
                count(has ? "good_at" : "bad_at"); distinct(mix(mix(size_t(key), m[i].size()), 5));
            }
            Snap b = snap(i); same(a, b, "at", true);
        } else (void)i;
    }
    // one insertion of key k in every way; want as in request()
    void insert_any(int i, int k, Out want, const char* when) {
        C& c = *this->c[i]; const bool has = !AT::multi && this->m_count(i, k) != 0; const int v = this->pick_v();
        const Out wemp = has && !AT::ordered ? NOMEM : want; // unordered emplace may build the element before looking for its key
        size_t f = this->m_find(i, k);
        auto g = [&] { auto act = this->read_all(i); std::vector<KV> want2 = m[i]; if (!has) want2.push_back(KV(k, v)); this->settle(i, want2, false, when); };
        auto gassign = [&] { if (has) { m[i][f].second = v; } else g(); };
        auto gsub = [&] { if (has) return; std::vector<KV> w2 = m[i]; w2.push_back(KV(k, v)); this->settle(i, w2, false, when); };
        (void)gassign; (void)gsub;
        CIt h = c.cbegin() + std::ptrdiff_t(rng.below(unsigned(m[i].size() + 1)));
        switch (rng.below(AT::is_map && !AT::multi ? 14 : 7)) {
        case 0: if constexpr (O::copyable) { const VT val(O::make(k, v)); request("insert(const&)", i, 1, want, [&] { (void)c.insert(val); }, g); break; } // fallthrough
        case 1: { VT val(O::make(k, v)); request("insert(&&)", i, 1, want, [&] { (void)c.insert(std::move(val)); }, g); break; }
        case 2: if constexpr (O::copyable) { const VT val(O::make(k, v)); request("insert(hint,const&)", i, 1, want, [&] { (void)c.insert(h, val); }, g); break; } // fallthrough
        case 3: { VT val(O::make(k, v)); request("insert(hint,&&)", i, 1, want, [&] { (void)c.insert(h, std::move(val)); }, g); break; }
        case 4: { K kk(EV<K>::make(k)); V vv(EV<V>::make(v)); (void)vv; request("emplace", i, 1, wemp, [&] { if constexpr (AT::is_map) (void)c.emplace(std::move(kk), std::move(vv)); else (void)c.emplace(std::move(kk)); }, g); break; }
        case 5: { K kk(EV<K>::make(k)); V vv(EV<V>::make(v)); (void)vv; request("emplace_hint", i, 1, wemp, [&] { if constexpr (AT::is_map) (void)c.emplace_hint(h, std::move(kk), std::move(vv)); else (void)c.emplace_hint(h, std::move(kk)); }, g); break; }
        case 6: if constexpr (!AT::is_map && TR && B::conv_key && !AT::multi) { Fk fk(k); request("insert(K&&)", i, 1, want, [&] { (void)c.insert(fk); }, g); } else if constexpr (O::copyable) { request("insert(ilist)", i, 1, has || want == OK ? want : LENGTH, [&] { (void)c.insert({O::make(k, v)}); }, g); } break;
        case 7: case 8: if constexpr (AT::is_map && !AT::multi) { K kk(EV<K>::make(k)); V vv(EV<V>::make(v)); if (rng.chance(1, 2)) request("try_emplace(&&)", i, 1, want, [&] { (void)c.try_emplace(std::move(kk), std::move(vv)); }, g); else if constexpr (EV<K>::copyable) request("try_emplace(const&)", i, 1, want, [&] { (void)c.try_emplace(kk, std::move(vv)); }, g); } break;
        case 9: if constexpr (AT::is_map && !AT::multi) { K kk(EV<K>::make(k)); V vv(EV<V>::make(v)); request("try_emplace(hint)", i, 1, want, [&] { (void)c.try_emplace(h, std::move(kk), std::move(vv)); }, g); } break;
        case 10: case 11: if constexpr (AT::is_map && !AT::multi) { K kk(EV<K>::make(k)); V vv(EV<V>::make(v)); if (rng.chance(1, 2)) request("insert_or_assign(&&)", i, 1, want, [&] { (void)c.insert_or_assign(std::move(kk), std::move(vv)); }, gassign); else request("insert_or_assign(hint)", i, 1, want, [&] { (void)c.insert_or_assign(h, std::move(kk), std::move(vv)); }, gassign); } break;
        case 12: if constexpr (AT::is_map && !AT::multi && TR && B::conv_key) { Fk fk(k); V vv(EV<V>::make(v)); request("try_emplace(K&&)", i, 1, want, [&] { (void)c.try_emplace(fk, std::move(vv)); }, g); } break;
        default: if constexpr (AT::is_map && !AT::multi) { K kk(EV<K>::make(k)); V vv(EV<V>::make(v)); request("operator[]", i, 1, want, [&] { c[std::move(kk)] = std::move(vv); }, gassign); } break;
        }
    }
    size_t big(size_t mx, size_t sz) {
        const size_t S = ~size_t(0), H = size_t(PTRDIFF_MAX);
        switch (rng.below(12)) { case 0: return mx + 1 + rng.below(8); case 1: return S; case 2: return S - rng.below(70); case 3: return S - sz; case 4: return S - sz + 1; case 5: return H; case 6: return H + 1 + rng.below(9); case 7: return S / sizeof(VT) + 1; case 8: return H / sizeof(VT) + 1; case 9: return mx * 2 > mx ? mx * 2 : S; case 10: return (size_t(1) << 63) / (sizeof(VT) > 1 ? sizeof(VT) / 2 : 1); default: return mx + 1; }
    }
    // copies and unequal-allocator moves of a container that became too large for the allocator's maximum
    void copies(int i) {
        if constexpr (AT::dyn && (P & AP_LIMIT) != 0) {
            C& c = *this->c[i]; const size_t sz = c.size(), old = alloc_limit(); if (sz < 2 || sz <= N) return;
            const size_t lim = rng.chance(1, 2) ? sz - 1 : 1 + rng.below(unsigned(sz - 1)); A al(rng.chance(1, 2) ? 1 : 77); const int kind = int(rng.below(4)), j = (i + 1) % 3; C& d = *this->c[j];
            if ((kind != 2 && !O::copyable) || (kind == 2 && al == c.get_allocator())) return;
            if (kind == 3 && (B::cap_of(d) >= sz || lim < B::cap_of(d))) return;
            static const char* const names[] = {"ctor(const&)", "ctor(const&,alloc)", "ctor(&&,alloc)", "operator=(const&)"};
            op_begin(names[kind], "s%d size=%zu max=%zu", i, sz, lim); distinct(mix(mix(sz, lim), unsigned(kind) * 977)); Snap a = snap(i), b = snap(j); alloc_limit() = lim;
            Out o = run([&] {
                if (kind == 2) { C x(std::move(c), al); }
                else if constexpr (O::copyable) { if (kind == 0) { C x(static_cast<const C&>(c)); } else if (kind == 1) { C x(static_cast<const C&>(c), al); } else d = static_cast<const C&>(c); } });
            alloc_limit() = old; count(out_name(o));
            VF_CHECK(o == LENGTH, "error-absorbed", "%s of %zu elements with max_size %zu ended in %s instead of length_error", names[kind], sz, lim, out_name(o));
            same(a, snap(i), names[kind], true); same(b, snap(j), names[kind], kind != 3); count("copies_refused");
#ifndef SFL_NO_EXCEPTIONS
            this->verify(i, "error-wrong-contents"); if (kind != 3) this->verify(j, "error-wrong-contents"); else { VF_CHECK(snap(j).v == b.v, "error-changed-contents", "the target of a refused copy assignment changed"); this->verify(j, "error-wrong-contents"); }
#endif
        }
        (void)i;
    }
    void lengths(int i) {
        if constexpr (AT::dyn) {
            C& c = *this->c[i]; const size_t mx = c.max_size();
            if (P & AP_LIMIT) VF_CHECK(mx <= alloc_limit(), "max-size", "max_size() %zu above the allocator's %zu", mx, alloc_limit());
            { size_t n = big(mx, m[i].size()); if (n <= mx) n = mx + 1; request("reserve", i, n, LENGTH, [&] { c.reserve(n); }, [] {}); }
            if (mx < 1000) {
#ifndef SFL_NO_EXCEPTIONS
                if (rng.chance(1, 3)) { size_t n = rng.below(unsigned(mx + 1)); if (rng.chance(1, 3)) n = mx; request("reserve(fits)", i, n, OK, [&] { c.reserve(n); }, [&] { VF_CHECK(c.capacity() >= n, "reserve-short", "reserve(%zu) left capacity %zu", n, size_t(c.capacity())); }); }
                size_t guard = 0;
                while (m[i].size() < mx && ++guard < 400) { int k = fresh(i); if (k < 0) break; insert_any(i, k, OK, "insertion below max_size"); }
                if (m[i].size() == mx) count("filled_to_max");
#endif
                if (m[i].size() == mx) for (int z = 0; z < 6; ++z) { int k = fresh(i); if (k >= 0) insert_any(i, k, LENGTH, "insertion at max_size"); }
                if (!AT::multi && !m[i].empty()) for (int z = 0; z < 4; ++z) insert_any(i, present(i), OK, "existing key at max_size");
                if constexpr (O::copyable) { // ranges that do not fit
                    Quiet* q = nullptr; (void)q; std::vector<VT> src; std::vector<int> ks; size_t need = mx - m[i].size() + 1 + rng.below(3);
                    if (AT::multi) { for (size_t z = 0; z < need; ++z) src.push_back(O::make(int(rng.below(64)) * 16, 3)); }
                    else { int base = int(rng.below(8)); for (int t = 0; t < 200 && ks.size() < need; ++t) { int k = ((t + base) % 100) * 16; bool dup = this->m_count(i, k) != 0; for (int u : ks) dup = dup || this->rk(i, u) == this->rk(i, k); if (!dup) ks.push_back(k); } for (int k : ks) src.push_back(O::make(k, 3)); }
                    if (src.size() >= need) request("insert(range)", i, src.size(), LENGTH, [&] { c.insert(src.begin(), src.end()); }, [] {}, false);
                    src.clear(); ks.clear();
                }
                if constexpr (O::copyable) { // a constructor that does not fit: the new container must leave nothing behind
                    std::vector<VT> src; std::vector<int> ks; const int md = this->mode[i]; size_t need = mx + 1;
                    for (int t = 0; t < 400 && src.size() < need; ++t) { int k = t * 16; bool dup = false; if (!AT::multi) for (int u : ks) dup = dup || rank_of(md, u) == rank_of(md, k); if (!dup) { ks.push_back(k); src.push_back(O::make(k, 4)); } }
                    if (src.size() >= need) { typename B::Cm cm(md); A al(1); bool made = false; request("ctor(range)", i, src.size(), LENGTH, [&] { C x(src.begin(), src.end(), cm, al); made = true; }, [] {}); (void)made; }
                }
            }
        } else (void)i;
    }
};
template <class K, class V, size_t N, bool TR, unsigned P> void go(uint64_t cn) {
    alloc_limit() = 1u << 20; ErrWorld<K, V, N, TR, P> w(mix(ctx().seed, cn)); if (!AT::is_static) w.soft_max = 12 + w.rng.below(12); w.max_n = 6;
    for (int round = 0; round < 4; ++round) {
        alloc_limit() = 1u << 20; size_t s = 2 + w.rng.below(14); for (size_t i = 0; i < s; ++i) w.step();
        for (int q = 0; q < 2; ++q) {
            int i = int(w.rng.below(3));
            if (P & AP_LIMIT) { size_t used = N + 4; for (int j = 0; j < 3; ++j) { size_t u = w.cap_of(*w.c[j]) + 1; if (u > used) used = u; } alloc_limit() = used + w.rng.below(30); }
            w.at_absent(i); w.lengths(i); if (q == 1) w.copies(i);
        }
    }
    alloc_limit() = 1u << 20; add_sample(); w.verify_all(); w.finish_world();
}
int main(int argc, char** argv) {
    parse_args(argc, argv, AT::name()); elems(); constructed(); blocks().v.reserve(256); absurd_allocations_fail() = true;
    run_cases([](uint64_t n) {
        const bool S = AT::is_static;
        switch (n % 4) {
        case 0: go<Obj<EF_NTM>, Obj<0>, S ? 12 : 3, true, AP_LIMIT | AP_POCMA>(n); break;
        case 1: go<int, int, S ? 10 : 0, false, AP_LIMIT>(n); break;
        case 2: go<ObjM<EF_NTM>, ObjM<0>, S ? 24 : 5, true, AP_LIMIT>(n); break;
        case 3: go<Obj<0>, int, S ? 9 : 2, true, AP_AEQ>(n); break;
        }
    });
    return finish();
}
