#define VF_REVERSE
#include "headers.hpp"
unsigned long long other_tu() { vd::u64 d = 0;
#define X(c, a) d = vd::mix(d, Use<sfl::c<VF_STRIP a> >::f());
    VF_ALL(X)
#undef X
#define X(c, a) d = vd::mix(d, UseMap<sfl::c<VF_STRIP a> >::f());
    VF_ALLMAP(X)
#undef X
    return d; }
