// C01: random histories of every public operation of a sequence container against an abstract sequence.
#include "seq.hpp"
using namespace vf;
template <class T, class A> void go(uint64_t cn, size_t steps) {
    SeqWorld<T, A> w(mix(ctx().seed, cn)); const bool big = cn % 40 == 23 || (cn % 8 == 3 && CT::N >= 100); // hundreds to thousands of elements
    if (w.rng.chance(1, 4) && !CT::is_static) { w.soft_max = 120; w.max_n = 40; }
    if (big) { if (!CT::is_static) w.soft_max = CT::N >= 100 ? 2 * CT::N : 400 + w.rng.below(900); w.max_n = 60 + w.rng.below(700); w.w.clear = w.w.ctor = w.w.pop = 1; count("large_histories"); }
    if (w.rng.chance(1, 4)) { w.w.xfer = 1; w.w.ctor = 1; w.w.clear = 1; w.w.assign = 1; } // long-lived containers
    for (size_t i = 0; i < steps; ++i) w.step();
    add_sample();
    w.verify_all();
    w.finish_world();
}
int main(int argc, char** argv) {
    parse_args(argc, argv, CT::name());
    run_cases([](uint64_t n) {
        size_t steps = n % 7 == 0 ? 200 : 50;
        switch (n % 5) {
        case 0: go<int, std::allocator<int>>(n, steps); break;
        case 1: go<Obj<0>, MonAlloc<Obj<0>, AP_POCMA | AP_POCS>>(n, steps); break;
        case 2: go<Obj<EF_NTM>, MonAlloc<Obj<EF_NTM>, 0>>(n, steps); break;
        case 3: go<ObjM<EF_NTM>, MonAlloc<ObjM<EF_NTM>, AP_POCMA>>(n, steps); break;
        case 4: go<Pod, MonAlloc<Pod, AP_POCCA>>(n, steps); break;
        }
    });
    return finish();
}
