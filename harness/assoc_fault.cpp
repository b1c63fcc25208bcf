// C07/C08 for the associative containers: fault enumeration. Every case is (history, final operation); the final
// operation is repeated with the fault at its 1st, 2nd, ... throwing point until it completes.
#include "nx.hpp"
#include "assoc.hpp"
using namespace vf;
#ifdef VF_STRONG
static const bool STRONG = true;
#else
static const bool STRONG = false;
#endif
template <class K, class V, size_t N, bool TR, class A> struct FaultWorld : AssocWorld<K, V, N, TR, A> {
    using W = AssocWorld<K, V, N, TR, A>; using W::c; using W::rng;
    bool fired; size_t cap0; const void* data0;
    explicit FaultWorld(uint64_t s) : W(s), fired(false), cap0(0), data0(nullptr) {}
    void pre(const AOp& o) override { fired = false; if (c[o.a]) { cap0 = W::cap_of(*c[o.a]); data0 = static_cast<const typename W::C&>(*c[o.a]).data(); } }
    void on_fault(const AOp& o) override {
        fired = true;
        distinct(mix(mix(uint64_t(o.kind), uint64_t(flt().seen)), mix(this->m[o.a].size(), o.pos * 64 + o.n)));
        count((std::string("op:") + o.name).c_str());
        if (STRONG && this->strong_applies(o)) VF_CHECK(W::cap_of(*c[o.a]) == cap0, "strong-capacity", "capacity %zu before, %zu after a failed %s", cap0, W::cap_of(*c[o.a]), o.name);
    }
};
template <class C> void contract() {
    nx_all<C>(); nx_data<C>(); nx_capacity<C>(); nx_available<C>();
    if constexpr (AT::ordered) nx_reverse<C>();
    if constexpr (AT::is_static) nx_full<C>(); else nx_alloc<C>();
    using Q = typename std::conditional<AT::ordered, std::less<int>, std::equal_to<int>>::type;
    nx_default<ACont<int, int, 3, Q, std::allocator<AVal<int, int>>>>();
}
template <class K, class V, size_t N, bool TR, unsigned P> void go(uint64_t cn) {
    using A = MonAlloc<AVal<K, V>, P>;
    if (!STRONG && cn < 5) contract<typename AssocWorld<K, V, N, TR, A>::C>();
    Rng r(mix(ctx().seed * 7 + 3, cn));
    size_t prefix = r.below(4) == 0 ? r.below(60) : r.below(16);
    unsigned follow = 4 + r.below(10);
    uint64_t wseed = r.next();
    unsigned masks[] = {15, FK_ELEM, FK_ALLOC, FK_CMP, FK_ELEM | FK_CMP, FK_ITER};
    unsigned mask = masks[r.below(6)]; bool few = r.chance(1, 2);
    for (long k = 1; k < 400; ++k) {
        FaultWorld<K, V, N, TR, A> w(wseed);
        w.soft_max = AT::is_static ? N : 16;
        w.w.write = 0; w.w.clear = 0; w.w.compare = 2; w.w.lookup = 4;
        if (few) w.ncls = 8;
        if (STRONG) w.w.reserve = 8;
        for (size_t i = 0; i < prefix; ++i) w.step();
        w.fault_mask = mask; w.fault_at = k;
        const int sl = int(cn % 3);
        if (STRONG) w.do_reserve(sl);
        else if ((cn / 5) % 3 == 2) switch ((cn / 15) % 4) { case 0: case 1: w.do_ctor(sl); break; case 2: w.do_xfer(sl); break; default: w.do_insertn(sl); }
        else w.step();
        w.fault_at = 0; disarm();
        bool f = w.fired;
        if (f) {
            if (k == 1 || k == 5) add_sample();
            w.check_live("fault-");
            for (unsigned i = 0; i < follow; ++i) w.step();
            for (int s = 0; s < 3; ++s) { w.do_clear(s); w.do_insert1(s); w.do_ctor(s); }
            w.verify_all();
        }
        w.finish_world();
        if (!f) break;
    }
}
int main(int argc, char** argv) {
    parse_args(argc, argv, AT::name());
    run_cases([](uint64_t n) {
        using O0 = Obj<0>; using NT = Obj<EF_NTM>; using MO = ObjM<EF_NTM>; using M0 = ObjM<0>;
        const bool S = AT::is_static;
        switch (n % 5) {
        case 0: go<O0, O0, S ? 6 : 3, true, AP_POCMA | AP_POCS>(n); break;
        case 1: go<NT, O0, S ? 9 : 0, false, AP_POCCA>(n); break;
        case 2: go<M0, NT, S ? 12 : 6, true, AP_AEQ>(n); break;
        case 3: go<MO, MO, S ? 1 : 1, false, 0>(n); break;
        case 4: go<O0, int, S ? 16 : 10, true, AP_POCCA | AP_POCMA>(n); break;
        }
    });
    return finish();
}
