// C07/C08: fault enumeration. Every case is (history, final operation); the final operation is repeated with the
// fault at its 1st, 2nd, ... throwing point until it completes without reaching the fault.
#include "nx.hpp"
#include "seq.hpp"
using namespace vf;
#ifdef VF_STRONG
static const bool STRONG = true;
#else
static const bool STRONG = false;
#endif
static const size_t W_NONE = size_t(-1);
template <class T, class A> struct FaultWorld : SeqWorld<T, A> {
    using W = SeqWorld<T, A>; using W::c; using W::rng;
    size_t cap0, avf0; bool fired; std::vector<const void*> addr0;
    explicit FaultWorld(uint64_t s) : W(s), cap0(0), avf0(0), fired(false) {}
    bool strong(const Op& o) override { return STRONG && W::strong(o); }
    void pre(const Op& o) override {
        fired = false;
        if (STRONG && c[o.a]) { cap0 = c[o.a]->capacity(); if constexpr (CT::front) avf0 = c[o.a]->available_front();
            addr0.clear(); for (auto it = c[o.a]->begin(); it != c[o.a]->end(); ++it) addr0.push_back(std::addressof(*it)); }
    }
    void on_fault(const Op& o) override {
        fired = true;
        distinct(mix(mix(uint64_t(o.kind), uint64_t(flt().seen)), mix(this->m[o.a].size(), o.pos * 64 + o.n)));
        count((std::string("op:") + o.name).c_str());
        if (this->strong(o) && CT::segmented) {
            size_t q = 0; for (auto it = c[o.a]->begin(); it != c[o.a]->end(); ++it, ++q) VF_CHECK(q < addr0.size() && std::addressof(*it) == addr0[q], "strong-moved", "element %zu moved by a failed %s", q, o.name);
        } else if (this->strong(o) && (W::E::nothrow_move || W::E::copyable)) {
            VF_CHECK(c[o.a]->capacity() == cap0, "strong-capacity", "capacity %zu before, %zu after a failed %s", cap0, size_t(c[o.a]->capacity()), o.name);
            if constexpr (CT::front) VF_CHECK(c[o.a]->available_front() == avf0, "strong-capacity", "front capacity %zu before, %zu after a failed %s", avf0, size_t(c[o.a]->available_front()), o.name);
        }
    }
};
template <class C, class A> void contract() {
    nx_all<C>(); nx_reverse<C>(); nx_seq<C>();
    if constexpr (CT::data) nx_data<C>();
    nx_capacity<C>();
    if constexpr (CT::front) nx_available2<C>(); else nx_available<C>();
    if constexpr (CT::is_static) nx_full<C>(); else nx_alloc<C>();
    if constexpr (CT::segmented) nx_swap<C>();
    if constexpr (!CT::segmented && !CT::compact && std::is_nothrow_default_constructible<A>::value) nx_default<C>();
}
template <class T, class A> void go(uint64_t cn) {
    if (!STRONG && cn < 5) contract<typename SeqWorld<T, A>::C, A>();
    Rng r(mix(ctx().seed * 7 + 3, cn));
    size_t prefix = r.below(4) == 0 ? r.below(60) : r.below(16);
    unsigned follow = 4 + r.below(10);
    uint64_t wseed = r.next();
    unsigned masks[] = {15, FK_ELEM, FK_ALLOC, 15, FK_ELEM};
    unsigned mask = masks[r.below(5)];
    for (long k = 1; k < 400; ++k) {
        FaultWorld<T, A> w(wseed);
        w.soft_max = CT::is_static ? CT::N : 24;
        w.w.write = 0; w.w.clear = 1; w.w.erase = 16; w.w.alias_pct = 20;
        if (STRONG) w.w.reserve = 8;
        for (size_t i = 0; i < prefix; ++i) w.step();
        int sl = int(cn % 3); bool slack = CT::reserve_fb && (LAYOUTS || (cn / 5) % 3 == 1);
        if (slack) { if (LAYOUTS || (cn & 1)) w.do_gaps(sl); else w.do_slack(sl); }
        const unsigned any = unsigned((cn / 5) % 3 == 2 ? 1 + (cn / 15) % 8 : 0);   // groups that are rare in the ordinary mix
        w.fault_mask = mask; w.fault_at = k;
        if (STRONG) w.do_reserve(sl);
        else if (slack) switch ((cn / 15) % 4) { case 0: w.do_push(sl); break; case 1: w.do_insert1(sl); break; default: w.do_insertn(sl); }
        else if (any) switch (any) { case 1: case 2: w.do_ctor(sl); break; case 3: case 4: w.do_xfer(sl); break; case 5: w.do_assign(sl); break; case 6: w.do_resize(sl); break; case 7: w.do_insertn(sl); break; default: w.do_reserve(sl); }
        else w.step();
        w.fault_at = 0; disarm(); w.force_n = w.force_pos = W_NONE;
        bool f = w.fired;
        if (f) {
            if (k == 1 || k == 5) add_sample();
            w.check_live("fault-");
            // the surviving containers must be fully usable
            for (unsigned i = 0; i < follow; ++i) w.step();
            for (int s = 0; s < 3; ++s) { w.do_clear(s); w.do_push(s); w.do_assign(s); }
            w.verify_all();
        }
        w.finish_world();
        if (!f) break;
    }
}
int main(int argc, char** argv) {
    parse_args(argc, argv, CT::name());
    run_cases([](uint64_t n) {
        switch (n % 5) {
        case 0: go<Obj<0>, MonAlloc<Obj<0>, AP_POCMA | AP_POCS>>(n); break;
        case 1: go<Obj<EF_NTM>, MonAlloc<Obj<EF_NTM>, AP_POCCA>>(n); break;
        case 2: go<ObjM<0>, MonAlloc<ObjM<0>, AP_AEQ>>(n); break;
        case 3: go<Obj<0>, MonAlloc<Obj<0>, AP_POCCA>>(n); break;
        case 4: go<ObjM<EF_NTM>, MonAlloc<ObjM<EF_NTM>, 0>>(n); break;
        }
    });
    return finish();
}
