// C04: random histories with hostile element types; spare element slots and freed memory are poisoned (ASan build,
// -DVF_POISON) or undefined (MSan build). The sanitizers are the oracle; contents are compared as well.
#include "seq.hpp"
using namespace vf;
struct alignas(16) Wide { long long a; int b; char pad[3]; Wide() = default; explicit Wide(int) = delete; };  // trivial, padded, over-aligned for many allocators
inline bool operator==(const Wide& x, const Wide& y) { return x.a == y.a && x.b == y.b; }
inline bool operator!=(const Wide& x, const Wide& y) { return !(x == y); }
inline bool operator<(const Wide& x, const Wide& y) { return x.a < y.a; }
namespace vf { template <> struct EV<Wide> { static const bool copyable = true, tracked = false, nothrow_move = true;
    static Wide make(int x) { Wide w; w.a = x; w.b = -x; w.pad[0] = w.pad[1] = w.pad[2] = 0; return w; } static int get(const Wide& w) { if (w.b != -int(w.a)) fail("torn-element", "trivial element partially overwritten"); return int(w.a); } }; }
template <class T, class A> void go(uint64_t cn, size_t steps) {
    SeqWorld<T, A> w(mix(ctx().seed, cn));
    if (w.rng.chance(1, 4) && !CT::is_static) { w.soft_max = 120; w.max_n = 40; }
    if (w.rng.chance(1, 4)) { w.w.xfer = 1; w.w.ctor = 1; w.w.clear = 1; w.w.assign = 1; }
    if (sizeof(T) == 1) w.next_val = 1;
    for (size_t i = 0; i < steps; ++i) w.step();
    add_sample(); w.verify_all(); w.finish_world();
}
template <class T, unsigned P> void g(uint64_t n, size_t steps) { go<T, MonAlloc<T, P>>(n, steps); }
int main(int argc, char** argv) {
    parse_args(argc, argv, CT::name()); elems(); constructed(); blocks().v.reserve(256);
    run_cases([](uint64_t n) {
        size_t steps = n % 7 == 0 ? 200 : 50;
#if defined(VF_MSAN)
        switch (n % 5) {
        case 0: g<int, AP_POCMA | AP_POCS>(n, steps); break;
        case 1: g<Pod, 0>(n, steps); break;
        case 2: go<long long, std::allocator<long long>>(n, steps); break;
        case 3: g<Wide, AP_FANCY | AP_POCMA>(n, steps); break;
        case 4: g<Obj<EF_NTM>, AP_AEQ>(n, steps); break;
        }
#elif VF_HALF == 0
        switch (n % 4) {
        case 0: g<ObjH<EF_NTM>, AP_POCMA | AP_POCS>(n, steps); break;
        case 1: g<Obj<EF_OVERALIGN>, 0>(n, steps); break;
        case 2: g<ObjM<EF_BIG>, AP_POCMA>(n, steps); break;
        case 3: g<Obj<0>, AP_FANCY | AP_POCCA>(n, steps); break;
        }
#else
        switch (n % 4) {
        case 0: g<Pod, AP_POCMA | AP_POCS>(n, steps); break;
        case 1: g<Wide, AP_FANCY>(n, steps); break;
        case 2: g<short, AP_AEQ>(n, steps); break;
        case 3: go<std::string, std::allocator<std::string>>(n, steps); break;
        }
#endif
    });
    return finish();
}
