// C04: random histories of the associative containers with hostile key/mapped types under poisoned or undefined spare memory.
#include "assoc.hpp"
using namespace vf;
template <class K, class V, size_t N, bool TR, class A> void go(uint64_t cn, size_t steps) {
    AssocWorld<K, V, N, TR, A> w(mix(ctx().seed, cn));
    if (w.rng.chance(1, 4) && !AT::is_static) { w.soft_max = 90; w.max_n = 30; }
    if (w.rng.chance(1, 4)) { w.w.xfer = 1; w.w.ctor = 1; w.w.erasebulk = 1; }
    for (size_t i = 0; i < steps; ++i) w.step();
    add_sample(); w.verify_all(); w.finish_world();
}
template <class K, class V, size_t NSM, size_t NST, bool TR, unsigned P> void g(uint64_t n, size_t steps) { go<K, V, AT::is_static ? NST : NSM, TR, MonAlloc<AVal<K, V>, P>>(n, steps); }
int main(int argc, char** argv) {
    parse_args(argc, argv, AT::name()); elems(); constructed(); blocks().v.reserve(256);
    run_cases([](uint64_t n) {
        size_t steps = n % 7 == 0 ? 200 : 50;
#if defined(VF_MSAN)
        switch (n % 3) {
        case 0: g<int, int, 3, 12, true, AP_POCMA | AP_POCS>(n, steps); break;
        case 1: g<Pod, int, 0, 24, false, AP_FANCY>(n, steps); break;
        case 2: go<int, Pod, AT::is_static ? 16 : 5, true, std::allocator<AVal<int, Pod>>>(n, steps); break;
        }
#else
        switch (n % 4) {
        case 0: g<ObjH<EF_NTM | EF_BIG>, Obj<EF_OVERALIGN>, 3, 12, true, AP_POCMA | AP_POCS>(n, steps); break;
        case 1: g<ObjM<EF_NTM>, ObjH<0>, 0, 10, true, AP_FANCY>(n, steps); break;
        case 2: g<Obj<EF_OVERALIGN>, ObjM<0>, 5, 24, false, AP_AEQ>(n, steps); break;
        case 3: g<Pod, Pod, 2, 9, true, AP_FANCY | AP_POCCA>(n, steps); break;
        }
#endif
    });
    return finish();
}
