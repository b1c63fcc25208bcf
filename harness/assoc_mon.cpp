// Associative containers: random histories with property-specific monitors around every operation (-DVF_PROP=<number>).
#include "assoc.hpp"
#ifndef VF_PROP
#define VF_PROP 9
#endif
using namespace vf;
static uint64_t g_hidden_allocs = 0;
#ifdef VF_HOOK_NEW
void* operator new(std::size_t n) { if (in_lib()) ++g_hidden_allocs; void* p = std::malloc(n ? n : 1); if (!p) std::abort(); return p; }
void* operator new(std::size_t n, const std::nothrow_t&) noexcept { if (in_lib()) ++g_hidden_allocs; return std::malloc(n ? n : 1); }
void* operator new[](std::size_t n) { if (in_lib()) ++g_hidden_allocs; void* p = std::malloc(n ? n : 1); if (!p) std::abort(); return p; }
void* operator new[](std::size_t n, const std::nothrow_t&) noexcept { if (in_lib()) ++g_hidden_allocs; return std::malloc(n ? n : 1); }
void operator delete(void* p, const std::nothrow_t&) noexcept { std::free(p); }
void operator delete[](void* p) noexcept { std::free(p); }
void operator delete[](void* p, std::size_t) noexcept { std::free(p); }
void operator delete(void* p) noexcept { std::free(p); }
void operator delete(void* p, std::size_t) noexcept { std::free(p); }
#endif
static const int P_ = VF_PROP;

template <class K, class V, size_t N, bool TR, class A> struct MonWorld : AssocWorld<K, V, N, TR, A> {
    using W = AssocWorld<K, V, N, TR, A>; using C = typename W::C; using O = typename W::O; using CIt = typename W::CIt; using VT = typename W::VT; using Cm = typename W::Cm;
    using W::c; using W::m; using W::rng; using W::NS; using W::af; using W::aid; using W::stateful; using W::mode;
    struct Shot { bool in; const void* data; size_t size, cap, avail; bool inl; int id; };
    Shot A0, B0; Counters k0, k1; bool have, never_beyond; uint64_t h0, h1; size_t lib_calls;
    explicit MonWorld(uint64_t s) : W(s), have(false), never_beyond(false), h0(0), h1(0) { A0.in = B0.in = false; }
    static size_t avail(const C& k) { return k.available(); }
    bool inside(int i, const void* p) const { const char* b = (const char*)this->mem[i]; return (const char*)p >= b && (const char*)p + sizeof(VT) <= b + sizeof(C); }
    void take(Shot& s, int i) {
        s.in = i >= 0 && c[i]; if (!s.in) return;
        const C& k = *c[i]; s.data = k.data(); s.size = k.size(); s.cap = W::cap_of(k); s.avail = avail(k); s.inl = AT::is_static || inside(i, s.data) || s.cap == 0; s.id = this->alloc_id_of(i);
    }
    void pre(const AOp& o) override { Quiet q; take(A0, o.a); take(B0, o.b); k0 = cnt(); h0 = g_hidden_allocs; have = true; }
    void mid(const AOp&) override { k1 = cnt(); h1 = g_hidden_allocs; }
    uint64_t elem_ops() const { return k1.elem_total() - k0.elem_total(); }
    uint64_t allocs() const { return k1.alloc - k0.alloc; }
    uint64_t copies() const { return k1.copies() - k0.copies(); }
    static bool one(const AOp& o) { return o.kind == A_INSERT || o.kind == A_EMPLACE || o.kind == A_HINT || o.kind == A_ASSIGN1 || o.kind == A_TRY || o.kind == A_SUBSCRIPT; }
    void post(const AOp& o) override {
        if (!have) return;
        have = false; Quiet q;
        if (P_ == 9) refs(o);
        if (P_ == 10) capacity(o);
        if (P_ == 11) inline_storage(o);
        if (P_ == 20) hetero(o);
        if (P_ == 21) transfers(o);
        if (P_ == 22) noeffect(o);
    }
    // ---- C09
    void refs(const AOp& o) {
        Shot A1, B1; take(A1, o.a); take(B1, o.b);
        if (o.kind == A_MOVE_CTOR) {
            if (AT::dyn && !B0.inl && B0.size && (!stateful() || aid[o.a] == B0.id)) { VF_CHECK(elem_ops() == 0 && A1.data == B0.data, "handover-copies", "%s of dynamically stored elements performed %zu element operations", o.name, size_t(elem_ops())); count("handovers"); }
            return;
        }
        if (!A0.in) return;
        switch (o.kind) {
        case A_RESERVE: case A_SHRINK:
            if (A0.cap == A1.cap) { VF_CHECK(A0.data == A1.data && elem_ops() == 0, "element-moved", "%s without a change of capacity moved elements", o.name); count("capacity_kept"); }
            break;
        case A_LOOKUP: case A_COMPARE: case A_WRITE: case A_SELF_SWAP:
            VF_CHECK(A0.data == A1.data, "element-moved", "%s moved the elements", o.name); if (o.kind != A_WRITE) VF_CHECK(A0.size == A1.size, "element-moved", "%s changed the size", o.name);
            break;
        case A_SWAP:
            if (AT::dyn && !A0.inl && !B0.inl) { VF_CHECK(elem_ops() == 0 && A1.data == B0.data && B1.data == A0.data, "handover-copies", "swap of dynamically stored elements performed %zu element operations", size_t(elem_ops())); count("handovers"); }
            break;
        case A_ERASE_POS: case A_ERASE_RANGE: case A_ERASE_KEY: case A_ERASE_LOOP: case A_ERASE_IF: case A_CLEAR:
            VF_CHECK(A0.data == A1.data && allocs() == 0, "needless-reallocation", "%s moved the storage", o.name);
            break;
        default:
            if (one(o) && A0.size + 1 <= A0.cap) {
                VF_CHECK(A0.data == A1.data && allocs() == 0, "needless-reallocation", "%s with %zu of %zu used moved the storage", o.name, A0.size, A0.cap); count("fitting_insertions");
                // elements before the point of insertion stay where they are
                if (!o.existed && A1.size == A0.size + 1 && AT::ordered) VF_CHECK(k1.move + k1.massign + k1.copy + k1.cassign - k0.move - k0.massign - k0.copy - k0.cassign <= 2 * (A0.size + 4) * (AT::is_map ? 2 : 1), "element-moved", "%s moved more elements than exist", o.name);
            }
            if (o.kind == A_INSERT_RANGE && A0.size + o.n <= A0.cap) { VF_CHECK(A0.data == A1.data && allocs() == 0, "needless-reallocation", "%s of %zu elements with %zu of %zu used moved the storage", o.name, o.n, A0.size, A0.cap); count("fitting_insertions"); }
            break;
        }
    }
    // ---- C10
    void account(int i, const char* what) {
        const C& k = *c[i]; size_t cap = k.capacity(), sz = k.size();
        VF_CHECK(sz <= cap && sz <= k.max_size(), "size-over-capacity", "%s: size %zu, capacity %zu", what, sz, cap);
        VF_CHECK(sz + avail(k) == cap, "capacity-accounting", "%s: available %zu, size %zu, capacity %zu", what, avail(k), sz, cap);
        if (AT::is_static) VF_CHECK(cap == N && k.max_size() == N, "static-capacity", "capacity %zu, max_size %zu, N %zu", cap, size_t(k.max_size()), N);
        else VF_CHECK(cap >= N || (cap == 0 && sz == 0), "small-capacity", "%s: capacity %zu below N %zu", what, cap, N);
    }
    void capacity(const AOp& o) {
        account(o.a, o.name); if (o.b >= 0) account(o.b, o.name);
        if (!A0.in || o.kind == A_CTOR || o.kind == A_COPY_CTOR || o.kind == A_MOVE_CTOR) return;
        const C& k = *c[o.a]; size_t cap = k.capacity(), n1 = k.size();
        switch (o.kind) {
        case A_RESERVE: VF_CHECK(cap >= o.n && cap >= A0.cap, "reserve-capacity", "capacity %zu after reserve(%zu) with %zu before", cap, o.n, A0.cap);
            if (A0.cap >= o.n) VF_CHECK(cap == A0.cap && allocs() == 0, "reserve-capacity", "reserve(%zu) with capacity %zu changed it to %zu", o.n, A0.cap, cap);
            break;
        case A_SHRINK: VF_CHECK(cap == (n1 > N ? n1 : N) || (n1 == 0 && A0.cap == 0), "shrink-capacity", "capacity %zu after shrink_to_fit with %zu elements, N %zu", cap, n1, N); break;
        case A_CLEAR: case A_ERASE_POS: case A_ERASE_RANGE: case A_ERASE_KEY: case A_ERASE_LOOP: case A_ERASE_IF: case A_LOOKUP: case A_COMPARE: case A_WRITE:
            VF_CHECK(cap == A0.cap && allocs() == 0, "capacity-changed", "%s changed the capacity from %zu to %zu", o.name, A0.cap, cap); break;
        case A_INSERT_RANGE: if (o.n <= A0.avail) VF_CHECK(cap == A0.cap && allocs() == 0, "available-allocates", "%s of %zu allocates with %zu available", o.name, o.n, A0.avail); break;
        default: if (one(o) && A0.avail) VF_CHECK(cap == A0.cap && allocs() == 0, "available-allocates", "%s allocates with %zu available", o.name, A0.avail); break;
        }
    }
    // after reserve(n): n elements without allocation; exactly available() fit
    void reserve_fill(int i) {
        C& k = *c[i]; size_t n = rng.below(50);
        if constexpr (AT::dyn) { AOp o = this->op(A_RESERVE, "reserve", i, -1, 0, n); if (!this->call(o, [&] { k.reserve(n); })) return; this->done(o); }
        uint64_t a0 = cnt().alloc; size_t room = avail(k), cap = W::cap_of(k);
        for (size_t q = 0; q <= room && q < 60; ++q) {
            if (AT::is_static && q == room) break;
            int key = -1 - int(q); // keys no history uses: always new under every order
            int tries = 0; do { key = 16 * (40 + int(rng.below(3000))) + int(rng.below(16)); } while (this->m_count(i, key) && ++tries < 200);
            if (!AT::multi && this->m_count(i, key)) break;
            AOp o = this->op(A_INSERT, "insert(&&)", i, -1, 0, 1); int v = this->pick_v(); bool ok;
            { VT val(O::make(key, v)); ok = this->call(o, [&] { k.insert(std::move(val)); }); }
            have = false; if (!ok) return;
            std::vector<KV> want = m[i]; want.push_back(KV(key, v)); int md = mode[i]; if (AT::ordered) std::stable_sort(want.begin(), want.end(), [md](const KV& x, const KV& y) { return rank_of(md, x.first) < rank_of(md, y.first); });
            this->settle(i, want, false, o.name);
            if (q < room) VF_CHECK(cnt().alloc == a0, "available-allocates", "insertion %zu allocates although %zu were available", q + 1, room);
            else if (AT::dyn && cap) VF_CHECK(cnt().alloc > a0, "available-understated", "%zu available, yet %zu insertions succeeded without allocating", room, q + 1);
        }
        account(i, "reserve_fill"); this->verify(i); count("probes");
        AOp o = this->op(A_CLEAR, "clear", i); if (this->call(o, [&] { k.clear(); })) m[i].clear();
        this->done(o);
    }
    // ---- C11
    void inline_storage(const AOp& o) {
        if ((AT::is_static || never_beyond) && o.kind != A_LOOKUP && o.kind != A_ERASE_LOOP) VF_CHECK(h1 == h0, "static-allocates", "%s called operator new", o.name);
        for (int i : {o.a, o.b}) {
            if (i < 0) continue;
            const C& k = *c[i]; size_t n = k.size();
            bool expect = AT::is_static || never_beyond || k.capacity() == N;
            if (!AT::is_static && never_beyond) VF_CHECK(allocs() == 0 && k.capacity() == N, "small-allocates", "%s allocates (or capacity %zu) in a history that never exceeds N=%zu", o.name, size_t(k.capacity()), N);
            if (AT::dyn && i == o.a && n <= N) {
                if (o.kind == A_SHRINK) { VF_CHECK(k.capacity() == N || (n == 0 && A0.cap == 0), "shrink-not-inline", "shrink_to_fit with %zu elements leaves capacity %zu", n, size_t(k.capacity())); expect = true; count("returned_inline"); }
                if (o.kind == A_CTOR || o.kind == A_COPY_CTOR) expect = true;
                if (o.kind == A_COPY_CTOR) VF_CHECK(allocs() == 0, "small-allocates", "copy of %zu elements allocates, N=%zu", n, N);
                if (A0.in && A0.cap == 0 && n && (one(o) || o.kind == A_INSERT_RANGE || o.kind == A_ILIST_ASSIGN || o.kind == A_COPY_ASSIGN)) { VF_CHECK(k.capacity() == N && allocs() == 0, "small-allocates", "%s of %zu elements into a moved-from container: capacity %zu", o.name, n, size_t(k.capacity())); expect = true; count("moved_from_refilled_inline"); }
            }
            if (expect && n) { for (CIt it = k.begin(); it != k.end(); ++it) VF_CHECK(inside(i, std::addressof(*it)), "not-inline", "%s: element outside the container object (size %zu of N=%zu)", o.name, n, N); count("inline_checked"); }
        }
    }
    // ---- C20
    void hetero(const AOp& o) {
        if (!EV<K>::tracked || !o.hetero) return;
        uint64_t conv = k1.conv - k0.conv;
        if (o.kind == A_ERASE_KEY) { VF_CHECK(k1.ctor_total() - k0.ctor_total() <= k1.move - k0.move + k1.copy - k0.copy && conv == 0 && k1.dflt == k0.dflt, "hetero-constructs", "%s built a key", o.name); count("hetero_erases"); return; }
        if (o.existed) { VF_CHECK(k1.ctor_total() == k0.ctor_total(), "hetero-constructs", "%s of an existing key constructed %zu objects", o.name, size_t(k1.ctor_total() - k0.ctor_total())); count("hetero_existing"); }
        else { VF_CHECK(conv == 1, "hetero-constructs", "%s of a new key built %zu keys from the foreign one", o.name, size_t(conv)); count("hetero_insertions"); }
        if (o.fwd && !o.existed) {
            uint64_t l = k1.fk_l - k0.fk_l, r = k1.fk_r - k0.fk_r;
            VF_CHECK(o.fwd == 2 ? l == 0 && r == 1 : l == 1 && r == 0, "hetero-category", "%s given %s foreign key built the key from %s", o.name, o.fwd == 2 ? "an rvalue" : "an lvalue", l ? "an lvalue" : "an rvalue");
            count(o.fwd == 2 ? "hetero_rvalue_insertions" : "hetero_lvalue_insertions");
        } else if (o.fwd) VF_CHECK(k1.fk_l == k0.fk_l && k1.fk_r == k0.fk_r, "hetero-constructs", "%s of an existing key converted the foreign key", o.name);
    }
    // ---- C21
    bool moves_only(const AOp& o) const {
        if (!O::tracked || (!O::nothrow_move && !(A0.cap == W::cap_of(*c[o.a]) && allocs() == 0))) return false;
        if (o.kind == A_ERASE_POS || o.kind == A_ERASE_RANGE || o.kind == A_ERASE_KEY || o.kind == A_ERASE_LOOP || o.kind == A_ERASE_IF || o.kind == A_CLEAR || o.kind == A_RESERVE || o.kind == A_SHRINK || o.kind == A_LOOKUP) return true;
        if (o.kind == A_INSERT || o.kind == A_EMPLACE || o.kind == A_HINT || o.kind == A_ASSIGN1 || o.kind == A_TRY || o.kind == A_SUBSCRIPT) return !std::strstr(o.name, "own") && !std::strstr(o.name, "const&");
        return false;
    }
    void transfers(const AOp& o) {
        if (moves_only(o)) { VF_CHECK(copies() == 0, "rvalue-copies", "%s copied %zu objects", o.name, size_t(copies())); count("moving_operations"); }
        if (o.fwd) { uint64_t l = k1.fk_l - k0.fk_l, r = k1.fk_r - k0.fk_r; VF_CHECK((o.fwd == 2 ? l : r) == 0 && (o.existed || l + r > 0), "wrong-category", "%s given %s converted it %zu times as an lvalue and %zu times as an rvalue", o.name, o.fwd == 2 ? "an rvalue" : "an lvalue", size_t(l), size_t(r)); count("forwarded_arguments"); }
        if (o.kind == A_SWAP || o.kind == A_MOVE_ASSIGN || o.kind == A_MOVE_CTOR) { VF_CHECK(copies() == 0, "move-copies", "%s copied %zu objects", o.name, size_t(copies())); count("moves_watched"); }
        if (o.kind == A_COPY_ASSIGN || o.kind == A_COPY_CTOR) {
            Shot A1, B1; take(A1, o.a); take(B1, o.b);
            VF_CHECK(!A1.size || A1.data != B1.data, "shared-element", "%s: source and copy share storage", o.name);
            VF_CHECK(B1.data == B0.data && B1.cap == B0.cap && B1.size == B0.size, "source-changed", "%s changed its source", o.name);
            VF_CHECK(static_cast<const C&>(*c[o.a]) == static_cast<const C&>(*c[o.b]), "copy-differs", "%s: the copy does not compare equal", o.name);
            count("copies_watched");
        }
        for (int i = 0; i < NS; ++i) if (i != o.a && i != o.b) this->verify(i, "unrelated-container-changed");
    }
    // ---- C22
    void noeffect(const AOp& o) {
        if (!A0.in) return;
        Shot A1; take(A1, o.a);
        bool none = ((o.kind == A_INSERT_RANGE || o.kind == A_ERASE_RANGE) && o.n == 0) || (o.kind == A_CLEAR && A0.size == 0) || (o.kind == A_RESERVE && o.n <= A0.cap) || (o.kind == A_SHRINK && A0.cap == A0.size)
            || o.kind == A_LOOKUP || o.kind == A_COMPARE || ((o.kind == A_ERASE_IF || o.kind == A_ERASE_KEY) && o.n == 0);
        if (!none) return;
        VF_CHECK(A1.data == A0.data && A1.cap == A0.cap && A1.size == A0.size && allocs() == 0, "no-effect-realloc", "%s without effect touched the storage", o.name);
        if (o.kind != A_LOOKUP && o.kind != A_COMPARE) VF_CHECK(k1.cassign == k0.cassign && k1.massign == k0.massign && k1.ctor_total() == k0.ctor_total(), "no-effect-moved", "%s without effect constructed, moved or assigned elements", o.name);
        count("no_effect_calls");
    }
    // ---- C15: the same values into copies of one container, supplied in every possible way
    void differential(int i) {
        if constexpr (O::copyable) {
            size_t lim = this->room(i), n = rng.below(unsigned(this->max_n + 1)); if (n > lim) n = lim; n = W::IlistN::fit(n, lim);
            std::vector<KV> vals; Source<VT> s0; this->mksrc(s0, i, n, vals);
            op_begin("differential", "s%d n=%zu sz=%zu mode=%d", i, n, m[i].size(), mode[i]);
            std::vector<KV> ref; bool assign = rng.chance(1, 3);
            for (unsigned cat = 0; cat <= IC_NCAT2; ++cat) {
                C copy(static_cast<const C&>(*c[i]));
                if (assign && cat != IC_ILIST) copy.clear();
                op_begin(assign ? "equivalent assignments" : "equivalent insertions", "s%d n=%zu sz=%zu mode=%d %s", i, n, m[i].size(), mode[i], cat == IC_NCAT2 ? "single" : cat_name(cat));
                Source<VT> s; s.v.reserve(n); for (auto& e : vals) s.v.push_back(O::make(e.first, e.second)); s.reset();
                if (cat == IC_NCAT2) for (auto& x : s.v) copy.insert(static_cast<const VT&>(x));
                else if (cat == IC_ILIST) { if (assign) W::IlistN::go(s.v, [&](std::initializer_list<VT> l) { copy = l; }); else W::IlistN::go(s.v, [&](std::initializer_list<VT> l) { copy.insert(l); }); }
                else { auto f = [&](auto a, auto b) { copy.insert(a, b); }; RangeCall<VT, decltype(f), true>::go(s, cat, f); }
                std::vector<KV> got; for (auto it = copy.cbegin(); it != copy.cend(); ++it) got.push_back(O::get(*it));
                if (!AT::ordered) std::sort(got.begin(), got.end());
                if (cat == 0) ref = got; else VF_CHECK(got == ref, "supply-dependent", "%zu values through %s give another result than through a single-pass range", n, cat == IC_NCAT2 ? "single insertions" : cat_name(cat));
                if (!cat_moves(cat)) for (size_t q = 0; q < n; ++q) VF_CHECK(O::get(s.v[q]) == vals[q], "range-source-changed", "a source element was changed through %s", cat_name(cat));
            }
            count("differentials");
        } else (void)i;
    }
};

template <class K, class V, size_t N, bool TR, class A> void go(uint64_t cn, size_t steps) {
    MonWorld<K, V, N, TR, A> w(mix(ctx().seed, cn + 1000 * P_));
    if (w.rng.chance(1, 4) && !AT::is_static && P_ != 11) { w.soft_max = 90; w.max_n = 30; }
    if (w.rng.chance(1, 3)) w.ncls = 6;
    switch (P_) {
    case 5: break;
    case 6: w.nids = 3; w.w.xfer = 30; w.w.ctor = 20; w.w.reserve = 8; break;
    case 9: w.w.reserve = AT::dyn ? 14 : 0; w.w.xfer = 14; break;
    case 10: w.w.reserve = AT::dyn ? 14 : 0; break;
    case 11:
        if (AT::dyn && cn % 2 == 0 && N) { w.never_beyond = true; w.w.reserve = 0; w.w.xfer = 16; w.w.ctor = 12; w.soft_max = N; w.max_n = 0; w.w.insertn = 0; }
        else if (AT::dyn) { w.soft_max = N + 3; w.max_n = N + 2; w.w.reserve = 20; w.w.xfer = 14; w.w.ctor = 14; }
        break;
    case 13: w.w.alias_pct = 75; w.w.self = 12; w.w.reserve = AT::dyn ? 16 : 0; w.w.erasekey = 20; w.w.xfer = 3; w.w.ctor = 3; break;
    case 15: w.w.insertn = 50; w.w.ctor = 20; w.w.xfer = 3; break;
    case 19: w.w.compare = 70; break;
    case 20: w.w.hetero_pct = 70; w.w.mapassign *= 3; w.w.erasekey = 20; w.w.lookup = 30; w.w.alias_pct = 0; w.mon = M_NOEFFECT; break;
    case 21: w.w.xfer = 50; w.w.ctor = 40; w.w.self = 4; w.w.reserve = AT::dyn ? 10 : 0; break;
    case 22: w.mon = M_NOEFFECT; w.w.insertn = 12; w.w.erase = 14; w.w.erasekey = 14; w.w.mapassign *= 2; w.w.reserve = AT::dyn ? 10 : 0; if (w.rng.chance(1, 2)) w.ncls = 4; break;
    default: break;
    }
    if (P_ == 6 && w.rng.chance(1, 3)) w.nids = 2;
    for (size_t i = 0; i < steps; ++i) {
        if (P_ == 10 && w.rng.chance(1, 16)) { w.have = false; w.reserve_fill(int(w.rng.below(3))); }
        else if (P_ == 15 && w.rng.chance(1, 4)) { w.differential(int(w.rng.below(3))); w.check_live("differential "); }
        else if (P_ == 22 && w.rng.chance(1, 8)) { size_t mn = w.max_n; w.max_n = 0; w.do_insertn(int(w.rng.below(3))); w.max_n = mn; }
        else w.step();
    }
    add_sample();
    w.verify_all();
    w.finish_world();
}
// N for small / static containers
template <class K, class V, size_t NSM, size_t NST, bool TR, unsigned P> void g(uint64_t n, size_t steps) { go<K, V, AT::is_static ? NST : NSM, TR, MonAlloc<AVal<K, V>, P>>(n, steps); }
int main(int argc, char** argv) {
    parse_args(argc, argv, AT::name()); elems(); constructed(); blocks().v.reserve(256);
    run_cases([](uint64_t n) {
        size_t steps = n % 7 == 0 ? 200 : 50;
        using O0 = Obj<0>; using NT = Obj<EF_NTM>; using MO = ObjM<EF_NTM>; (void)steps;
#if VF_PROP == 6
        switch (n % 6) {
#if VF_HALF == 0
        case 0: g<NT, O0, 3, 8, true, 0>(n, steps); break;
        case 1: g<O0, NT, 0, 8, false, AP_POCCA>(n, steps); break;
        case 2: g<NT, int, 2, 8, true, AP_POCMA | AP_SOCCC | AP_FANCY>(n, steps); break;
#else
        case 3: g<O0, int, 4, 8, true, AP_POCS | AP_POCMA>(n, steps); break;
        case 4: g<NT, NT, 0, 8, false, AP_POCCA | AP_POCMA | AP_POCS | AP_SOCCC>(n, steps); break;
        case 5: g<int, O0, 2, 8, true, AP_AEQ | AP_POCS>(n, steps); break;
#endif
        default: break;
        }
#elif VF_PROP == 5
        switch (n % 4) {
        case 0: g<O0, O0, 3, 10, true, AP_POCMA | AP_POCS>(n, steps); break;
        case 1: g<ObjC<0>, ObjC<0>, 2, 9, false, AP_POCMA>(n, steps); break;
        case 2: g<MO, ObjM<0>, 4, 8, true, 0>(n, steps); break;
        case 3: g<ObjH<EF_NTM | EF_BIG>, Obj<EF_OVERALIGN>, 3, 12, true, AP_AEQ>(n, steps); break;
        }
#elif VF_PROP == 15
        switch (n % 3) {
        case 0: g<O0, O0, 3, 14, true, AP_POCMA>(n, steps); break;
        case 1: g<NT, int, 0, 24, false, AP_POCS>(n, steps); break;
        case 2: g<Pod, NT, 6, 10, true, AP_AEQ>(n, steps); break;
        }
#elif VF_PROP == 13 || VF_PROP == 19
        switch (n % 4) {
        case 0: g<O0, O0, 3, 12, true, AP_POCMA>(n, steps); break;
        case 1: g<NT, NT, 0, 24, false, AP_POCS>(n, steps); break;
        case 2: go<int, int, AT::is_static ? 16 : 5, true, std::allocator<AVal<int, int>>>(n, steps); break;
        case 3: g<Pod, O0, 6, 10, true, AP_AEQ>(n, steps); break;
        }
#elif VF_PROP == 20
        switch (n % 4) {
        case 0: g<O0, int, 3, 12, true, AP_POCMA>(n, steps); break;
        case 1: g<MO, Pod, 0, 24, true, AP_POCS>(n, steps); break;
        case 2: go<int, NT, AT::is_static ? 16 : 5, false, std::allocator<AVal<int, NT>>>(n, steps); break;
        case 3: g<NT, int, 6, 10, true, AP_AEQ>(n, steps); break;
        }
#else
        switch (n % 4) {
        case 0: g<O0, O0, 3, 12, true, AP_POCMA | AP_POCS>(n, steps); break;
        case 1: g<NT, MO, 5, 24, false, AP_POCMA>(n, steps); break;
        case 2: g<MO, int, 1, 6, true, AP_AEQ>(n, steps); break;
        case 3: g<Pod, NT, 8, 10, true, AP_POCCA | AP_POCS>(n, steps); break;
        }
#endif
    });
    return finish();
}
