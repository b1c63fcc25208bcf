// Which sequence container this translation unit monitors (-DVF_<name>, -DVF_N=<n>).
#ifndef VF_SEQTRAITS_HPP
#define VF_SEQTRAITS_HPP
#include <cstddef>
#ifndef VF_N
#define VF_N 4
#endif
struct CTBase {
    static const bool dyn = true, front = false, reserve = true, reserve_fb = false, shrink = true, data = true,
                      is_static = false, small = false, segmented = false, compact = false;
    static const std::size_t N = 0;
};
#if defined(VF_vector)
#include <sfl/vector.hpp>
template <class T, class A> using Cont = sfl::vector<T, A>;
struct CT : CTBase { static const char* name() { return "vector"; } };
#elif defined(VF_devector)
#include <sfl/devector.hpp>
template <class T, class A> using Cont = sfl::devector<T, A>;
struct CT : CTBase { static const char* name() { return "devector"; } static const bool front = true, reserve = false, reserve_fb = true; };
#elif defined(VF_compact_vector)
#include <sfl/compact_vector.hpp>
template <class T, class A> using Cont = sfl::compact_vector<T, A>;
struct CT : CTBase { static const char* name() { return "compact_vector"; } static const bool reserve = false, shrink = false, compact = true; };
#elif defined(VF_segmented_vector)
#include <sfl/segmented_vector.hpp>
template <class T, class A> using Cont = sfl::segmented_vector<T, VF_N, A>;
struct CT : CTBase { static const char* name() { return "segmented_vector"; } static const bool data = false, segmented = true; static const std::size_t N = VF_N; };
#elif defined(VF_segmented_devector)
#include <sfl/segmented_devector.hpp>
template <class T, class A> using Cont = sfl::segmented_devector<T, VF_N, A>;
struct CT : CTBase { static const char* name() { return "segmented_devector"; } static const bool front = true, reserve = false, reserve_fb = true, data = false, segmented = true; static const std::size_t N = VF_N; };
#elif defined(VF_small_vector)
#include <sfl/small_vector.hpp>
template <class T, class A> using Cont = sfl::small_vector<T, VF_N, A>;
struct CT : CTBase { static const char* name() { return "small_vector"; } static const bool small = true; static const std::size_t N = VF_N; };
#elif defined(VF_static_vector)
#include <sfl/static_vector.hpp>
template <class T, class A> using Cont = sfl::static_vector<T, VF_N>;
struct CT : CTBase { static const char* name() { return "static_vector"; } static const bool dyn = false, reserve = false, shrink = false, is_static = true; static const std::size_t N = VF_N; };
#elif defined(VF_stdvector)  /* the reference implementation under the same monitors: validates the harness itself */
#include <vector>
#else
#error "select a container"
#endif
#endif
