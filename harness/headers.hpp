// C23: all documented headers together, every non-template member of every container instantiated, used from two translation units.
#ifdef VF_REVERSE
#include <sfl/vector.hpp>
#include <sfl/static_vector.hpp>
#include <sfl/static_unordered_flat_set.hpp>
#include <sfl/static_unordered_flat_multiset.hpp>
#include <sfl/static_unordered_flat_multimap.hpp>
#include <sfl/static_unordered_flat_map.hpp>
#include <sfl/static_flat_set.hpp>
#include <sfl/static_flat_multiset.hpp>
#include <sfl/static_flat_multimap.hpp>
#include <sfl/static_flat_map.hpp>
#endif
#include <sfl/compact_vector.hpp>
#include <sfl/devector.hpp>
#include <sfl/segmented_devector.hpp>
#include <sfl/segmented_vector.hpp>
#include <sfl/small_flat_map.hpp>
#include <sfl/small_flat_multimap.hpp>
#include <sfl/small_flat_multiset.hpp>
#include <sfl/small_flat_set.hpp>
#include <sfl/small_unordered_flat_map.hpp>
#include <sfl/small_unordered_flat_multimap.hpp>
#include <sfl/small_unordered_flat_multiset.hpp>
#include <sfl/small_unordered_flat_set.hpp>
#include <sfl/small_vector.hpp>
#include <sfl/static_flat_map.hpp>
#include <sfl/static_flat_multimap.hpp>
#include <sfl/static_flat_multiset.hpp>
#include <sfl/static_flat_set.hpp>
#include <sfl/static_unordered_flat_map.hpp>
#include <sfl/static_unordered_flat_multimap.hpp>
#include <sfl/static_unordered_flat_multiset.hpp>
#include <sfl/static_unordered_flat_set.hpp>
#include <sfl/static_vector.hpp>
#include <sfl/vector.hpp>
#include "digest.hpp"
struct EqI { bool operator()(int a, int b) const { return a == b; } };
struct EqS { bool operator()(const vd::Str& a, const vd::Str& b) const { return *a.p == *b.p; } };
typedef std::less<int> LI; typedef std::less<vd::Str> LS; typedef std::allocator<std::pair<int, vd::Str> > AP; typedef std::allocator<int> AI;
#define VF_ALL(X) \
    X(vector, (int)) X(vector, (vd::Str)) X(devector, (int)) X(devector, (vd::Str)) X(compact_vector, (int)) X(compact_vector, (vd::Str)) \
    X(segmented_vector, (int, 3)) X(segmented_vector, (vd::Str, 3)) X(segmented_devector, (int, 3)) X(segmented_devector, (vd::Str, 3)) \
    X(small_vector, (int, 0)) X(small_vector, (vd::Str, 3)) X(static_vector, (int, 4)) X(static_vector, (vd::Str, 4)) \
    X(small_flat_set, (int, 3)) X(small_flat_set, (vd::Str, 0)) X(small_flat_multiset, (int, 0)) X(small_flat_multiset, (vd::Str, 3)) \
    X(small_unordered_flat_set, (int, 3, EqI)) X(small_unordered_flat_set, (vd::Str, 0, EqS)) X(small_unordered_flat_multiset, (int, 0, EqI)) X(small_unordered_flat_multiset, (vd::Str, 3, EqS)) \
    X(static_flat_set, (int, 3)) X(static_flat_set, (vd::Str, 4)) X(static_flat_multiset, (int, 4)) X(static_flat_multiset, (vd::Str, 3)) \
    X(static_unordered_flat_set, (int, 3, EqI)) X(static_unordered_flat_set, (vd::Str, 4, EqS)) X(static_unordered_flat_multiset, (int, 4, EqI)) X(static_unordered_flat_multiset, (vd::Str, 3, EqS))
#define VF_ALLMAP(X) \
    X(small_flat_map, (int, vd::Str, 3)) X(small_flat_map, (vd::Str, int, 0)) X(small_flat_multimap, (int, vd::Str, 0)) X(small_flat_multimap, (vd::Str, int, 3)) \
    X(small_unordered_flat_map, (int, vd::Str, 3, EqI)) X(small_unordered_flat_map, (vd::Str, int, 0, EqS)) X(small_unordered_flat_multimap, (int, vd::Str, 0, EqI)) X(small_unordered_flat_multimap, (vd::Str, int, 3, EqS)) \
    X(static_flat_map, (int, vd::Str, 3)) X(static_flat_map, (vd::Str, int, 4)) X(static_flat_multimap, (int, vd::Str, 4)) X(static_flat_multimap, (vd::Str, int, 3)) \
    X(static_unordered_flat_map, (int, vd::Str, 3, EqI)) X(static_unordered_flat_map, (vd::Str, int, 4, EqS)) X(static_unordered_flat_multimap, (int, vd::Str, 4, EqI)) X(static_unordered_flat_multimap, (vd::Str, int, 3, EqS))
#define VF_STRIP(...) __VA_ARGS__
template <class C> struct Use { static vd::u64 f() { C a, b; vd::u64 d = 7; a.insert(a.cend(), typename C::value_type(3)); a.insert(a.cend(), typename C::value_type(5)); b = a; swap(a, b); d = vd::mix(d, a.size()); d = vd::mix(d, (a == b) * 2 + (a != b)); a.erase(a.cbegin()); d = vd::mix(d, a.size()); a.clear(); d = vd::mix(d, a.empty()); return d; } };
template <class C> struct UseMap { static vd::u64 f() { C a, b; vd::u64 d = 9; a.emplace(3, 4); a.emplace(5, 6); b = a; swap(a, b); d = vd::mix(d, a.size()); d = vd::mix(d, (a == b) * 2 + (a != b)); d = vd::mix(d, a.count(3)); a.erase(a.cbegin()); d = vd::mix(d, a.size()); a.clear(); d = vd::mix(d, a.empty()); return d; } };
