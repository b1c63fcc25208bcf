// Random histories with property-specific monitors around every operation (-DVF_PROP=<number of the property>).
#include "seq.hpp"
#ifndef VF_PROP
#define VF_PROP 9
#endif
using namespace vf;
// global operator new: whatever the library allocates behind the allocator's back is seen here
static uint64_t g_hidden_allocs = 0;
#ifdef VF_HOOK_NEW
void* operator new(std::size_t n) { if (in_lib()) ++g_hidden_allocs; void* p = std::malloc(n ? n : 1); if (!p) std::abort(); return p; }
void* operator new(std::size_t n, const std::nothrow_t&) noexcept { if (in_lib()) ++g_hidden_allocs; return std::malloc(n ? n : 1); }
void* operator new[](std::size_t n) { if (in_lib()) ++g_hidden_allocs; void* p = std::malloc(n ? n : 1); if (!p) std::abort(); return p; }
void* operator new[](std::size_t n, const std::nothrow_t&) noexcept { if (in_lib()) ++g_hidden_allocs; return std::malloc(n ? n : 1); }
void operator delete(void* p, const std::nothrow_t&) noexcept { std::free(p); }
void operator delete[](void* p) noexcept { std::free(p); }
void operator delete[](void* p, std::size_t) noexcept { std::free(p); }
void operator delete(void* p) noexcept { std::free(p); }
void operator delete(void* p, std::size_t) noexcept { std::free(p); }
#endif
static const int P_ = VF_PROP;

template <class T, class A> struct MonWorld : SeqWorld<T, A> {
    using W = SeqWorld<T, A>; using C = typename W::C; using E = typename W::E; using CIt = typename C::const_iterator;
    using W::c; using W::m; using W::rng; using W::NS; using W::af; using W::aid; using W::stateful;
    struct Shot { bool in; std::vector<const void*> addr; std::vector<CIt> its; size_t cap, af, ab; bool inl; int id; };
    Shot A0, B0; Counters k0, k1; bool have; uint64_t h0, h1;
    explicit MonWorld(uint64_t s) : W(s), have(false), h0(0), h1(0) { A0.in = B0.in = false; }

    static size_t ab(const C& k) { if constexpr (CT::front) return k.available_back(); else return k.available(); }
    static size_t fr(const C& k) { if constexpr (CT::front) return k.available_front(); else { (void)k; return 0; } }
    bool inside(int i, const void* p) const { const char* b = (const char*)this->mem[i]; return (const char*)p >= b && (const char*)p + sizeof(T) <= b + sizeof(C); }
    bool is_inline(int i) const { if constexpr (CT::is_static) return true; else if constexpr (CT::small) return inside(i, c[i]->data()) || (c[i]->capacity() == 0); else return false; }
    void take(Shot& s, int i) {
        s.in = i >= 0 && c[i]; s.addr.clear(); s.its.clear(); if (!s.in) return;
        const C& k = *c[i];
        for (CIt it = k.begin(); it != k.end(); ++it) { s.addr.push_back(std::addressof(*it)); if (P_ == 9) s.its.push_back(it); }
        s.cap = k.capacity(); s.af = fr(k); s.ab = ab(k); s.inl = is_inline(i); s.id = this->alloc_id_of(i);
    }
    void pre(const Op& o) override { Quiet q; take(A0, o.a); take(B0, o.b); k0 = cnt(); h0 = g_hidden_allocs; have = true; }
    void mid(const Op&) override { k1 = cnt(); h1 = g_hidden_allocs; }
    uint64_t elem_ops() const { return k1.elem_total() - k0.elem_total(); }
    uint64_t allocs() const { return k1.alloc - k0.alloc; }
    uint64_t copies() const { return k1.copies() - k0.copies(); }
    static bool is_xfer(const Op& o) { return o.kind == K_SWAP || o.kind == K_MOVE_ASSIGN || o.kind == K_COPY_ASSIGN || o.kind == K_COPY_CTOR || o.kind == K_MOVE_CTOR || o.kind == K_CTOR; }
    static bool named(const Op& o, const char* s) { return std::strcmp(o.name, s) == 0; }

    void post(const Op& o) override {
        if (!have) return;
        have = false; Quiet q;
        if (P_ == 9) refs(o);
        if (P_ == 10) capacity(o);
        if (P_ == 11) inline_storage(o);
        if (P_ == 21) transfers(o);
        if (P_ == 22) noeffect(o);
    }
    // ---- C09 ------------------------------------------------------------------------------------------
    void same_addr(const std::vector<const void*>& x, size_t xo, const std::vector<const void*>& y, size_t yo, size_t n, const Op& o, const char* what) {
        for (size_t q = 0; q < n; ++q) VF_CHECK(x[xo + q] == y[yo + q], "element-moved", "%s: %s: element %zu changed its address", o.name, what, xo + q);
        if (n) count("addresses_compared", n);
    }
    static bool eq_run(const std::vector<const void*>& x, size_t xo, const std::vector<const void*>& y, size_t yo, size_t n) { for (size_t q = 0; q < n; ++q) if (x[xo + q] != y[yo + q]) return false; return true; }
    void its_valid(const Op& o) { // iterators taken before the operation still denote the same elements
        const C& k = *c[o.a];
        for (size_t q = 0; q < A0.its.size(); ++q) {
            VF_CHECK(A0.its[q] == k.nth(q) && A0.its[q] - k.begin() == std::ptrdiff_t(q), "iterator-invalidated", "%s: iterator to element %zu no longer agrees with nth", o.name, q);
            VF_CHECK(std::addressof(*A0.its[q]) == A0.addr[q] && E::get(*A0.its[q]) == m[o.a][q], "iterator-invalidated", "%s: iterator to element %zu denotes another element", o.name, q);
        }
        if (!A0.its.empty()) count("iterators_revalidated", A0.its.size());
    }
    static bool single(const Op& o) { return (o.kind == K_INSERTN) && (o.cat == IC_INPUT || o.cat == IC_MOVE_INPUT || o.cat == IC_MUT_INPUT); } // inserted one by one, each at its own nearer end
    void refs(const Op& o) {
        Shot A1, B1; take(A1, o.a); take(B1, o.b);
        if (o.kind == K_MOVE_CTOR) {
            bool eqalloc = !stateful(af()) || aid[o.a] == B0.id;
            if (!CT::is_static && !B0.inl && eqalloc && !B0.addr.empty()) {
                VF_CHECK(elem_ops() == 0, "handover-copies", "%s of dynamically stored elements performed %zu element operations", o.name, size_t(elem_ops()));
                same_addr(A1.addr, 0, B0.addr, 0, B0.addr.size(), o, "handed over");
            }
            return;
        }
        if (!A0.in) return;
        size_t n0 = A0.addr.size(), n1 = A1.addr.size();
        if (o.kind == K_RESERVE || o.kind == K_RESERVE_F || o.kind == K_RESERVE_B || o.kind == K_SHRINK) {
            bool same = A0.cap == A1.cap && A0.af == A1.af && A0.ab == A1.ab;
            if (same || CT::segmented) { same_addr(A0.addr, 0, A1.addr, 0, n0, o, "capacity unchanged"); VF_CHECK(elem_ops() == 0, "element-moved", "%s performed %zu element operations", o.name, size_t(elem_ops())); }
            if (same) its_valid(o);
            return;
        }
        if (o.kind == K_WRITE || o.kind == K_COMPARE || o.kind == K_SELF_SWAP) { same_addr(A0.addr, 0, A1.addr, 0, n0, o, "no change"); if (o.kind == K_COMPARE) its_valid(o); return; }
        if (o.kind == K_SWAP) {
            if (CT::is_static) return;
            if (!A0.inl && !B0.inl) {
                VF_CHECK(elem_ops() == 0, "handover-copies", "swap of dynamically stored elements performed %zu element operations", size_t(elem_ops()));
                VF_CHECK(A1.addr.size() == B0.addr.size() && B1.addr.size() == n0, "handover-copies", "swap sizes");
                same_addr(A1.addr, 0, B0.addr, 0, B0.addr.size(), o, "swapped"); same_addr(B1.addr, 0, A0.addr, 0, n0, o, "swapped");
            }
            return;
        }
        if (is_xfer(o) || o.kind == K_ASSIGN || o.kind == K_CLEAR || o.kind == K_ERASE_VAL || o.kind == K_SELF_COPY) return;
        if (CT::compact) return;
        size_t pos = o.pos;
        bool ins = o.kind == K_PUSH_BACK || o.kind == K_PUSH_FRONT || o.kind == K_INSERT1 || o.kind == K_INSERTN;
        bool ins1 = o.kind == K_INSERT1 || o.kind == K_INSERTN, free0 = CT::front && (n0 == 0 || single(o)) && ins1; // into an empty container: either end may take it
        bool fr_end = o.kind == K_PUSH_FRONT || (CT::front && ins1 && pos == 0 && !free0), bk_end = o.kind == K_PUSH_BACK || (ins1 && pos == n0 && !free0);
        if (ins) {
            size_t n = n1 - n0;
            if (CT::segmented) {
                if (bk_end) { same_addr(A0.addr, 0, A1.addr, 0, n0, o, "insertion at the end"); return; }
                if (fr_end) { same_addr(A0.addr, 0, A1.addr, n, n0, o, "insertion at the front"); return; }
                if (!CT::front) same_addr(A0.addr, 0, A1.addr, 0, pos, o, "before the insertion point");
                else if (!single(o)) VF_CHECK(eq_run(A0.addr, 0, A1.addr, 0, pos) || eq_run(A0.addr, pos, A1.addr, pos + n, n0 - pos), "element-moved", "%s at %zu of %zu moved elements on both sides", o.name, pos, n0);
                return;
            }
            bool fits = CT::front ? (bk_end && n <= A0.ab) || (fr_end && n <= A0.af) || (!bk_end && !fr_end && n <= (A0.ab < A0.af ? A0.ab : A0.af)) : n <= A0.ab;
            if (!fits) return;
            VF_CHECK(allocs() == 0 && A0.cap == A1.cap, "needless-reallocation", "%s of %zu elements at %zu of %zu reallocates with %zu free in front and %zu free at the back", o.name, n, pos, n0, A0.af, A0.ab);
            count("fitting_insertions");
            if (!CT::front) same_addr(A0.addr, 0, A1.addr, 0, pos, o, "before the insertion point");
            else if (bk_end) same_addr(A0.addr, 0, A1.addr, 0, n0, o, "insertion at the end");
            else if (fr_end) same_addr(A0.addr, 0, A1.addr, n, n0, o, "insertion at the front");
            else if (!single(o)) VF_CHECK(eq_run(A0.addr, 0, A1.addr, 0, pos) || eq_run(A0.addr, pos, A1.addr, pos + n, n0 - pos), "element-moved", "%s at %zu of %zu moved elements on both sides", o.name, pos, n0);
            return;
        }
        if (o.kind == K_POPB) { same_addr(A0.addr, 0, A1.addr, 0, n1, o, "after pop_back"); return; }
        if (o.kind == K_POPF) { same_addr(A0.addr, 1, A1.addr, 0, n1, o, "after pop_front"); return; }
        if (o.kind == K_ERASE1 || o.kind == K_ERASER) {
            size_t n = n0 - n1;
            if (!CT::front) same_addr(A0.addr, 0, A1.addr, 0, pos, o, "before the erased elements");
            else VF_CHECK(eq_run(A0.addr, 0, A1.addr, 0, pos) || eq_run(A0.addr, pos + n, A1.addr, pos, n1 - pos), "element-moved", "%s at %zu of %zu moved elements on both sides", o.name, pos, n0);
            VF_CHECK(allocs() == 0, "needless-reallocation", "%s reallocates", o.name);
            return;
        }
        if (o.kind == K_RESIZE || o.kind == K_RESIZE_F) {
            if (n1 <= n0) { // shrinking at one end
                if (o.kind == K_RESIZE_F) same_addr(A0.addr, n0 - n1, A1.addr, 0, n1, o, "after resize_front"); else same_addr(A0.addr, 0, A1.addr, 0, n1, o, "after resize");
            } else if (CT::segmented) {
                size_t off = n1 - n0;
                if (o.kind == K_RESIZE_F) same_addr(A0.addr, 0, A1.addr, off, n0, o, "after resize_front");
                else if (!std::strncmp(o.name, "resize_back", 11) || !CT::front) same_addr(A0.addr, 0, A1.addr, 0, n0, o, "after resize");
            } else {
                size_t n = n1 - n0;
                if (o.kind == K_RESIZE_F ? n <= A0.af : n <= A0.ab) {
                    VF_CHECK(allocs() == 0 && A0.cap == A1.cap, "needless-reallocation", "%s of %zu to %zu reallocates with %zu/%zu free", o.name, n0, n1, A0.af, A0.ab);
                    if (o.kind == K_RESIZE_F) same_addr(A0.addr, 0, A1.addr, n, n0, o, "after resize_front"); else same_addr(A0.addr, 0, A1.addr, 0, n0, o, "after resize");
                }
            }
        }
    }
    // ---- C10 ------------------------------------------------------------------------------------------
    void account(int i, const char* what) {
        const C& k = *c[i]; size_t cap = k.capacity(), sz = k.size();
        VF_CHECK(sz <= cap && sz <= k.max_size(), "size-over-capacity", "%s: size %zu, capacity %zu", what, sz, cap);
        VF_CHECK(fr(k) + sz + ab(k) == cap, "capacity-accounting", "%s: available %zu + %zu, size %zu, capacity %zu", what, fr(k), ab(k), sz, cap);
        if (CT::compact) VF_CHECK(cap == sz, "compact-capacity", "%s: capacity %zu, size %zu", what, cap, sz);
        if (CT::is_static) VF_CHECK(cap == CT::N && k.max_size() == CT::N, "static-capacity", "capacity %zu, max_size %zu, N %zu", cap, size_t(k.max_size()), CT::N);
        if (CT::small) VF_CHECK(cap >= CT::N || (cap == 0 && sz == 0) /* emptied by a move */, "small-capacity", "%s: capacity %zu below N %zu", what, cap, CT::N);
    }
    void capacity(const Op& o) {
        account(o.a, o.name); if (o.b >= 0) account(o.b, o.name);
        if (!A0.in || o.kind == K_COPY_CTOR || o.kind == K_MOVE_CTOR || o.kind == K_CTOR) return;
        const C& k = *c[o.a]; size_t n0 = A0.addr.size(), n1 = k.size(), cap = k.capacity();
        bool same = cap == A0.cap && fr(k) == A0.af;
        switch (o.kind) {
        case K_RESERVE:
            VF_CHECK(cap >= o.n && cap >= A0.cap, "reserve-capacity", "capacity %zu after reserve(%zu) with %zu before", cap, o.n, A0.cap);
            if (A0.cap >= o.n) VF_CHECK(same && allocs() == 0, "reserve-capacity", "reserve(%zu) with capacity %zu changed it to %zu", o.n, A0.cap, cap);
            break;
        case K_RESERVE_F: VF_CHECK(n1 + fr(k) >= o.n && fr(k) >= A0.af, "reserve-capacity", "%zu free in front after reserve_front(%zu) of size %zu", fr(k), o.n, n1);
            if (n0 + A0.af >= o.n) VF_CHECK(same && allocs() == 0, "reserve-capacity", "satisfied reserve_front(%zu) changed the capacity", o.n);
            break;
        case K_RESERVE_B: VF_CHECK(n1 + ab(k) >= o.n && ab(k) >= A0.ab, "reserve-capacity", "%zu free at the back after reserve_back(%zu) of size %zu", ab(k), o.n, n1);
            if (n0 + A0.ab >= o.n) VF_CHECK(same && allocs() == 0, "reserve-capacity", "satisfied reserve_back(%zu) changed the capacity", o.n);
            break;
        case K_SHRINK:
            if (CT::segmented) VF_CHECK(cap - n1 < 2 * CT::N + 1 && (CT::front || ab(k) <= CT::N), "shrink-capacity", "capacity %zu after shrink_to_fit with %zu elements, segment size %zu", cap, n1, CT::N);
            else if (CT::small) VF_CHECK(cap == (n1 > CT::N ? n1 : CT::N) || (n1 == 0 && A0.cap == 0), "shrink-capacity", "capacity %zu after shrink_to_fit with %zu elements, N %zu", cap, n1, CT::N);
            else VF_CHECK(cap == n1, "shrink-capacity", "capacity %zu after shrink_to_fit with %zu elements", cap, n1);
            break;
        case K_CLEAR: case K_POPB: case K_POPF: case K_ERASE1: case K_ERASER: case K_ERASE_VAL:
            if (!CT::compact) VF_CHECK(cap == A0.cap && allocs() == 0, "capacity-changed", "%s changed the capacity from %zu to %zu", o.name, A0.cap, cap);
            break;
        case K_PUSH_BACK: if (A0.ab) VF_CHECK(allocs() == 0 && cap == A0.cap, "available-allocates", "%s allocates with %zu available", o.name, A0.ab); break;
        case K_PUSH_FRONT: if (A0.af) VF_CHECK(allocs() == 0 && cap == A0.cap, "available-allocates", "%s allocates with %zu available in front", o.name, A0.af); break;
        case K_INSERT1: case K_INSERTN: {
            size_t n = n1 - n0; bool fit = CT::front ? (n0 && !single(o) && o.pos == 0 ? n <= A0.af : n0 && !single(o) && o.pos == n0 ? n <= A0.ab : n <= (A0.ab < A0.af ? A0.ab : A0.af)) : n <= A0.ab;
            if (fit && !(CT::compact && n)) VF_CHECK(allocs() == 0 && cap == A0.cap, "available-allocates", "%s of %zu at %zu allocates with %zu/%zu available", o.name, n, o.pos, A0.af, A0.ab);
            break; }
        case K_RESIZE: if (!CT::compact && n1 <= n0 + A0.ab) VF_CHECK(allocs() == 0 && cap == A0.cap, "available-allocates", "%s from %zu to %zu allocates with %zu available", o.name, n0, n1, A0.ab); break;
        case K_RESIZE_F: if (!CT::compact && n1 <= n0 + A0.af) VF_CHECK(allocs() == 0 && cap == A0.cap, "available-allocates", "%s from %zu to %zu allocates with %zu available", o.name, n0, n1, A0.af); break;
        case K_ASSIGN: if (!CT::compact && !CT::segmented && n1 <= A0.cap && !CT::front) VF_CHECK(allocs() == 0 && cap == A0.cap, "available-allocates", "%s of %zu elements allocates with capacity %zu", o.name, n1, A0.cap); break;
        default: break;
        }
    }
    // exactly `available` insertions fit without allocation
    void probe(int i) {
        C& k = *c[i]; bool front = CT::front && rng.chance(1, 2); size_t a = front ? fr(k) : ab(k), n = a;
        size_t lim = CT::is_static ? CT::N - m[i].size() : 400; if (n > lim) n = lim;
        uint64_t a0 = cnt().alloc; size_t cap0 = k.capacity();
        for (size_t q = 0; q <= n; ++q) {
            if (q == lim && CT::is_static) break;
            int v = this->fresh(i); Op o = this->op(front ? K_PUSH_FRONT : K_PUSH_BACK, front ? "push_front(&&)" : "push_back(&&)", i, -1, 0, 1); bool ok;
            { T val(E::make(v)); ok = this->call(o, [&] { if constexpr (CT::front) { if (front) { k.push_front(std::move(val)); return; } } k.push_back(std::move(val)); }); }
            if (!ok) return;
            if (front) m[i].insert(m[i].begin(), v); else m[i].push_back(v);
            have = false;
            if (q < n) VF_CHECK(cnt().alloc == a0, "available-allocates", "push number %zu allocates although %zu were available", q + 1, a);
            else if (n == a && CT::dyn && !CT::front && a < 400 && cap0) VF_CHECK(cnt().alloc > a0, "available-understated", "%zu available, yet %zu insertions succeeded without allocating", a, q + 1);
        }
        account(i, "probe"); this->verify(i); count("probes");
        Op o = this->op(K_CLEAR, "clear", i); if (this->call(o, [&] { k.clear(); })) m[i].clear();
        this->done(o);
    }
    // reserve, then fill: no allocation
    void reserve_fill(int i) {
        if constexpr (CT::reserve || CT::reserve_fb) {
            C& k = *c[i]; size_t n = rng.below(60); bool front = CT::front && rng.chance(1, 2); size_t sz = m[i].size();
            Op o = this->op(front ? K_RESERVE_F : CT::reserve_fb ? K_RESERVE_B : K_RESERVE, front ? "reserve_front" : CT::reserve_fb ? "reserve_back" : "reserve", i, -1, 0, n);
            if (!this->call(o, [&] { if constexpr (CT::reserve_fb) { if (front) k.reserve_front(n); else k.reserve_back(n); } else k.reserve(n); })) return;
            this->done(o);
            uint64_t a0 = cnt().alloc;
            for (size_t q = sz; q < n; ++q) {
                int v = this->fresh(i); Op p = this->op(front ? K_PUSH_FRONT : K_PUSH_BACK, front ? "push_front(&&)" : "push_back(&&)", i, -1, 0, 1); bool ok;
                { T val(E::make(v)); ok = this->call(p, [&] { if constexpr (CT::front) { if (front) { k.push_front(std::move(val)); return; } } k.push_back(std::move(val)); }); }
                if (!ok) return;
                if (front) m[i].insert(m[i].begin(), v); else m[i].push_back(v);
                have = false;
                VF_CHECK(cnt().alloc == a0, "reserved-allocates", "insertion %zu of %zu reserved allocates", q - sz + 1, n - sz);
            }
            this->verify(i); count("reserve_fills");
            if (m[i].size() > 30) this->do_clear(i);
        } else (void)i;
    }
    // ---- C11 ------------------------------------------------------------------------------------------
    void where_stored(int i, bool expect_inline, const char* what) {
        const C& k = *c[i];
        for (CIt it = k.begin(); it != k.end(); ++it) { bool in = inside(i, std::addressof(*it)); if (expect_inline) VF_CHECK(in, "not-inline", "%s: element outside the container object (size %zu)", what, size_t(k.size())); }
        if (expect_inline) count("inline_checked");
    }
    bool never_beyond; // this history never exceeds N
    void inline_storage(const Op& o) {
        if (CT::is_static || never_beyond) VF_CHECK(h1 == h0, "static-allocates", "%s called operator new", o.name);
        for (int i : {o.a, o.b}) {
            if (i < 0) continue;
            if (CT::is_static) { where_stored(i, true, o.name); continue; }
            if (!CT::small) continue;
            if (never_beyond) { VF_CHECK(allocs() == 0 && c[i]->capacity() == CT::N, "small-allocates", "%s allocates (or capacity %zu) in a history that never exceeds N=%zu", o.name, size_t(c[i]->capacity()), CT::N); where_stored(i, true, o.name); }
            else if (c[i]->capacity() == CT::N) where_stored(i, true, o.name);   // capacity N means inline storage
            if (i == o.a && A0.in && A0.cap == 0 && m[i].size() && m[i].size() <= CT::N && (o.kind == K_PUSH_BACK || o.kind == K_INSERT1 || o.kind == K_INSERTN || o.kind == K_ASSIGN || o.kind == K_RESIZE || o.kind == K_COPY_ASSIGN)) { VF_CHECK(c[i]->capacity() == CT::N && allocs() == 0, "small-allocates", "%s of %zu elements into a moved-from container: capacity %zu", o.name, m[i].size(), size_t(c[i]->capacity())); where_stored(i, true, o.name); count("moved_from_refilled_inline"); }
            if (i == o.a && o.kind == K_SHRINK && m[i].size() <= CT::N) { VF_CHECK(c[i]->capacity() == CT::N || (m[i].empty() && A0.cap == 0) /* emptied by a move: nothing stored anywhere */, "shrink-not-inline", "shrink_to_fit with %zu elements leaves capacity %zu", m[i].size(), size_t(c[i]->capacity())); where_stored(i, true, "shrink_to_fit"); count("returned_inline"); }
            if (i == o.a && o.kind == K_CTOR && m[i].size() <= CT::N && !named(o, "ctor(range)") && !named(o, "ctor(range,alloc)")) { VF_CHECK(allocs() == 0, "small-allocates", "%s of %zu elements allocates, N=%zu", o.name, m[i].size(), CT::N); where_stored(i, true, o.name); }
            if (i == o.a && o.kind == K_CTOR && m[i].size() <= CT::N) where_stored(i, true, o.name);
            if (i == o.a && o.kind == K_COPY_CTOR && m[i].size() <= CT::N) { VF_CHECK(allocs() == 0, "small-allocates", "copy of %zu elements allocates, N=%zu", m[i].size(), CT::N); where_stored(i, true, o.name); }
        }
    }
    // ---- C21 ------------------------------------------------------------------------------------------
    // an insertion given an rvalue, an erasure and a change of capacity only ever move elements; those whose move may throw
    // can be copied where the storage is replaced
    bool moves_only(const Op& o) const {
        if (!E::tracked) return false;
        if (!E::nothrow_move && !CT::segmented && !(A0.in && A0.cap == c[o.a]->capacity() && allocs() == 0)) return false;
        if (o.kind == K_ERASE1 || o.kind == K_ERASER || o.kind == K_POPB || o.kind == K_POPF || o.kind == K_CLEAR || o.kind == K_RESERVE || o.kind == K_RESERVE_F || o.kind == K_RESERVE_B || o.kind == K_SHRINK) return true;
        if (o.kind == K_RESIZE || o.kind == K_RESIZE_F) return !std::strstr(o.name, "value");
        if (o.kind == K_PUSH_BACK || o.kind == K_PUSH_FRONT || o.kind == K_INSERT1) return std::strstr(o.name, "(&&)") || std::strstr(o.name, "(T&&)") || std::strstr(o.name, "(args)");
        return false;
    }
    void transfers(const Op& o) {
        if (moves_only(o)) { VF_CHECK(copies() == 0, "rvalue-copies", "%s copied %zu elements", o.name, size_t(copies())); count("moving_operations"); }
        if (o.fwd) { uint64_t l = k1.fk_l - k0.fk_l, r = k1.fk_r - k0.fk_r; VF_CHECK((o.fwd == 2 ? l == 0 && r == 1 : l == 1 && r == 0), "wrong-category", "%s given %s converted it %zu times as an lvalue and %zu times as an rvalue", o.name, o.fwd == 2 ? "an rvalue" : "an lvalue", size_t(l), size_t(r)); count("forwarded_arguments"); }
        if (o.kind == K_SWAP || o.kind == K_MOVE_ASSIGN || o.kind == K_MOVE_CTOR) { VF_CHECK(copies() == 0, "move-copies", "%s copied %zu elements", o.name, size_t(copies())); count("moves_watched"); }
        if (o.kind == K_COPY_ASSIGN || o.kind == K_COPY_CTOR) { // shares nothing
            Shot A1, B1; take(A1, o.a); take(B1, o.b);
            for (auto p : A1.addr) for (auto q : B1.addr) if (p == q) fail("shared-element", "%s: source and copy share an element object", o.name);
            VF_CHECK(B1.addr == B0.addr && B1.cap == B0.cap, "source-changed", "%s changed its source", o.name);
            VF_CHECK(static_cast<const C&>(*c[o.a]) == static_cast<const C&>(*c[o.b]), "copy-differs", "%s: the copy does not compare equal", o.name);
            count("copies_watched");
        }
        for (int i = 0; i < NS; ++i) if (i != o.a && i != o.b) this->verify(i, "unrelated-container-changed");
    }
    // ---- C22 ------------------------------------------------------------------------------------------
    void noeffect(const Op& o) {
        if (!A0.in) return;
        Shot A1; take(A1, o.a);
        bool none = false; size_t n0 = A0.addr.size();
        if ((o.kind == K_INSERTN || o.kind == K_ERASER) && o.n == 0) none = true;
        if ((o.kind == K_RESIZE || o.kind == K_RESIZE_F) && o.n == n0) none = true;
        if (o.kind == K_RESERVE && o.n <= A0.cap) none = true;
        if (o.kind == K_RESERVE_F && o.n <= n0 + A0.af) none = true;
        if (o.kind == K_RESERVE_B && o.n <= n0 + A0.ab) none = true;
        if (o.kind == K_SHRINK && A0.cap == n0) none = true;
        if ((o.kind == K_CLEAR || o.kind == K_ERASE_VAL) && n0 == 0) none = true;
        if (o.kind == K_ERASE_VAL && A1.addr.size() == n0) { VF_CHECK(A1.addr == A0.addr && k1.copies() == k0.copies(), "no-effect-moved", "%s removing nothing moved elements", o.name); }
        if (!none) return;
        VF_CHECK(A1.addr == A0.addr, "no-effect-moved", "%s without effect changed element addresses", o.name);
        VF_CHECK(A1.cap == A0.cap && A1.af == A0.af && allocs() == 0, "no-effect-capacity", "%s without effect changed the capacity or allocated", o.name);
        VF_CHECK(k1.cassign == k0.cassign && k1.massign == k0.massign && k1.move == k0.move, "no-effect-moved", "%s without effect moved or assigned elements", o.name);
        VF_CHECK(k1.ctor_total() - k0.ctor_total() == k1.dtor - k0.dtor && k1.ctor_total() - k0.ctor_total() <= 1, "no-effect-construct", "%s without effect constructed %zu elements", o.name, size_t(k1.ctor_total() - k0.ctor_total()));
        count("no_effect_calls");
    }
};

template <class T, class A> void go(uint64_t cn, size_t steps) {
    MonWorld<T, A> w(mix(ctx().seed, cn + 1000 * P_)); w.never_beyond = false;
    if (w.rng.chance(1, 4) && !CT::is_static) { w.soft_max = 100; w.max_n = 30; }
    switch (P_) {
    case 9: w.w.reserve = 14; w.w.slack = CT::reserve_fb ? 6 : 0; break;
    case 10: w.w.reserve = 14; break;
    case 11: if (CT::small && cn % 2 == 0) { w.hard_max = CT::N; w.soft_max = CT::N; w.never_beyond = true; w.allow_ops_beyond_inline = false; w.w.reserve = 4; w.w.xfer = 16; w.w.ctor = 16; }
             else if (CT::small) { w.soft_max = CT::N + 3; w.max_n = CT::N + 2; w.w.reserve = 20; w.w.xfer = 14; w.w.ctor = 14; } break;
    case 13: w.w.alias_pct = 75; w.w.self = 12; w.w.xfer = 4; w.w.ctor = 3; w.w.reserve = 14; w.w.resize = 14; w.w.slack = CT::reserve_fb ? 8 : 0; break;
    case 15: w.w.insertn = 60; w.w.assign = 30; w.w.ctor = 20; w.w.xfer = 3; break;
    case 19: w.w.compare = 70; w.w.self = 2; break;
    case 21: w.w.xfer = 50; w.w.ctor = 40; w.w.self = 4; w.w.slack = CT::reserve_fb ? 6 : 0; w.w.reserve = 12; break;
    case 22: w.w.erase = 20; w.w.insertn = 24; w.w.resize = 14; w.w.reserve = 16; break;
    default: break;
    }
    if (P_ == 6) w.nids = 3, w.w.xfer = 30, w.w.ctor = 20, w.w.reserve = 10;
    if (P_ == 6 && w.rng.chance(1, 3)) w.nids = 2;
    for (size_t i = 0; i < steps; ++i) {
        if (P_ == 10 && w.rng.chance(1, 16)) { w.have = false; if (w.rng.chance(1, 2)) w.probe(int(w.rng.below(3))); else w.reserve_fill(int(w.rng.below(3))); }
        else if (P_ == 22 && w.rng.chance(1, 4)) { size_t mn = w.max_n; w.max_n = 0; w.do_insertn(int(w.rng.below(3))); w.max_n = mn; }
        else w.step();
    }
    add_sample();
    w.verify_all();
    w.finish_world();
}
template <unsigned F> using O = Obj<F>;
template <class T, unsigned P> void g(uint64_t n, size_t steps) { go<T, MonAlloc<T, P>>(n, steps); }
int main(int argc, char** argv) {
    parse_args(argc, argv, CT::name()); elems(); constructed(); blocks().v.reserve(256);
    run_cases([](uint64_t n) {
        size_t steps = n % 7 == 0 ? 200 : 50;
        using NT = Obj<EF_NTM>; using MO = ObjM<EF_NTM>;
        (void)steps;
#if VF_PROP == 6
        // every combination of the propagation traits, equality and copy-construction selection
        switch (n % 12) {
#if VF_HALF == 0
        case 0: g<NT, 0>(n, steps); break;
        case 1: g<Obj<0>, AP_POCCA>(n, steps); break;
        case 2: g<NT, AP_POCMA | AP_SOCCC>(n, steps); break;
        case 3: g<NT, AP_POCCA | AP_POCMA | AP_FANCY>(n, steps); break;
        case 4: g<Obj<0>, AP_POCS>(n, steps); break;
        case 5: g<MO, AP_FANCY>(n, steps); break;
#else
        case 6: g<NT, AP_POCCA | AP_POCS>(n, steps); break;
        case 7: g<NT, AP_POCMA | AP_POCS | AP_FANCY>(n, steps); break;
        case 8: g<NT, AP_POCCA | AP_POCMA | AP_POCS | AP_SOCCC>(n, steps); break;
        case 9: g<Obj<0>, AP_AEQ>(n, steps); break;
        case 10: g<NT, AP_AEQ | AP_POCCA | AP_POCMA | AP_POCS | AP_FANCY>(n, steps); break;
        case 11: g<Pod, AP_SOCCC | AP_POCS>(n, steps); break;
#endif
        default: break;
        }
#elif VF_PROP == 5
        switch (n % 6) {
        case 0: g<Obj<0>, AP_POCMA | AP_POCS>(n, steps); break;
        case 1: g<NT, 0>(n, steps); break;
        case 2: g<ObjM<0>, AP_POCCA>(n, steps); break;
        case 3: g<ObjC<0>, AP_POCMA>(n, steps); break;
        case 4: g<ObjH<EF_NTM | EF_BIG>, 0>(n, steps); break;
        case 5: g<Obj<EF_OVERALIGN>, AP_AEQ>(n, steps); break;
        }
#elif VF_PROP == 13 || VF_PROP == 19
        switch (n % 4) {
        case 0: g<Obj<0>, AP_POCMA | AP_POCS>(n, steps); break;
        case 1: g<NT, 0>(n, steps); break;
        case 2: go<int, std::allocator<int>>(n, steps); break;
        case 3: go<std::string, std::allocator<std::string>>(n, steps); break;
        }
#elif VF_PROP == 15
        switch (n % 4) {
        case 0: g<Obj<0>, AP_POCMA>(n, steps); break;
        case 1: g<NT, 0>(n, steps); break;
        case 2: g<MO, AP_POCS>(n, steps); break;
        case 3: g<Pod, AP_AEQ>(n, steps); break;
        }
#elif VF_PROP == 21
        switch (n % 5) {
        case 0: g<Obj<0>, AP_POCMA | AP_POCS>(n, steps); break;
        case 1: g<NT, 0>(n, steps); break;
        case 2: g<NT, AP_POCCA | AP_POCMA | AP_POCS>(n, steps); break;
        case 3: g<Obj<EF_NTALL>, AP_AEQ>(n, steps); break;
        case 4: go<std::string, std::allocator<std::string>>(n, steps); break;
        }
#else
        switch (n % 4) {
        case 0: g<Obj<0>, AP_POCMA | AP_POCS>(n, steps); break;
        case 1: g<NT, AP_POCMA>(n, steps); break;
        case 2: g<MO, AP_AEQ>(n, steps); break;
        case 3: g<NT, AP_POCCA | AP_POCS>(n, steps); break;
        }
#endif
    });
    return finish();
}
