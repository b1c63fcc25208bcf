#include "headers.hpp"
// explicit instantiation: every member of every container is compiled
#define X(c, a) template class sfl::c<VF_STRIP a>;
VF_ALL(X) VF_ALLMAP(X)
#undef X
unsigned long long other_tu();
int main(int argc, char** argv) {
    vd::init(argc, argv);
    vd::cases([](vd::u64) { vd::u64 d = 0;
#define X(c, a) vd::op(#c, vd::u64(sizeof(#a))); vd::note(#c, Use<sfl::c<VF_STRIP a> >::f()); d = vd::mix(d, Use<sfl::c<VF_STRIP a> >::f());
        VF_ALL(X)
#undef X
#define X(c, a) vd::op(#c, vd::u64(sizeof(#a))); vd::note(#c, UseMap<sfl::c<VF_STRIP a> >::f()); d = vd::mix(d, UseMap<sfl::c<VF_STRIP a> >::f());
        VF_ALLMAP(X)
#undef X
        vd::op("other translation unit"); vd::note("same in the other translation unit", d == other_tu()); });
    return vd::finish();
}
