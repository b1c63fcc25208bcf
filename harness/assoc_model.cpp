// C02/C03: random histories of every public operation of a flat associative container against an abstract (multi)map.
#include "assoc.hpp"
#ifndef VF_MON
#define VF_MON 0
#endif
using namespace vf;
template <class K, class V, size_t N, bool TR, class A> void go(uint64_t cn, size_t steps) {
    AssocWorld<K, V, N, TR, A> w(mix(ctx().seed, cn)); w.mon = VF_MON;
    if (w.rng.chance(1, 4) && !AT::is_static) { w.soft_max = 90; w.max_n = 30; }
    if (w.rng.chance(1, 4)) { w.w.xfer = 1; w.w.ctor = 1; w.w.erasebulk = 1; }
    if (w.rng.chance(1, 3)) w.ncls = 6;
    if (cn % 150 == 41) { w.ncls = 700; if (!AT::is_static) w.soft_max = 300 + w.rng.below(500); w.max_n = 60 + w.rng.below(300); w.w.clear = w.w.ctor = w.w.erase = 1; count("large_histories"); }
    for (size_t i = 0; i < steps; ++i) w.step();
    add_sample();
    w.verify_all();
    w.finish_world();
}
template <class K, class V> using VTy = AVal<K, V>;
int main(int argc, char** argv) {
    parse_args(argc, argv, AT::name());
    run_cases([](uint64_t n) {
        size_t steps = n % 7 == 0 ? 200 : 50;
        using O0 = Obj<0>; using NT = Obj<EF_NTM>; using MO = ObjM<EF_NTM>;
        switch (n % 5) {
        case 0: go<int, int, AT::is_static ? 24 : 3, true, std::allocator<AVal<int, int>>>(n, steps); break;
        case 1: go<O0, O0, AT::is_static ? 7 : 0, true, MonAlloc<AVal<O0, O0>, AP_POCMA | AP_POCS>>(n, steps); break;
        case 2: go<NT, MO, AT::is_static ? 12 : 6, false, MonAlloc<AVal<NT, MO>, 0>>(n, steps); break;
        case 3: go<MO, int, AT::is_static ? 1 : 1, true, MonAlloc<AVal<MO, int>, AP_POCMA>>(n, steps); break;
        case 4: go<Pod, NT, AT::is_static ? 16 : 16, true, MonAlloc<AVal<Pod, NT>, AP_POCCA>>(n, steps); break;
        }
    });
    return finish();
}
