// Which associative container this translation unit monitors (-DVF_AC=<container> -DVF_HDR=<header> -DVF_KIND=bits).
#ifndef VF_ASSOCTRAITS_HPP
#define VF_ASSOCTRAITS_HPP
#include <cstddef>
#include <memory>
#include <utility>
#define VF_STR2(x) #x
#define VF_STR(x) VF_STR2(x)
// -DVF_KIND: bit 0 map, bit 1 multi, bit 2 unordered, bit 3 static
#define VF_MAP (VF_KIND & 1)
#define VF_MULTI (VF_KIND & 2)
#define VF_UNORD (VF_KIND & 4)
#define VF_STATIC (VF_KIND & 8)
#include VF_HDR
struct AT {
    static const bool is_map = VF_MAP != 0, multi = VF_MULTI != 0, ordered = VF_UNORD == 0, is_static = VF_STATIC != 0, dyn = VF_STATIC == 0;
    static const char* name() { return VF_STR(VF_AC); }
};
#if VF_MAP && VF_STATIC
template <class K, class V, std::size_t N, class C, class A> using ACont = sfl::VF_AC<K, V, N, C>;
#elif VF_MAP
template <class K, class V, std::size_t N, class C, class A> using ACont = sfl::VF_AC<K, V, N, C, A>;
#elif VF_STATIC
template <class K, class V, std::size_t N, class C, class A> using ACont = sfl::VF_AC<K, N, C>;
#else
template <class K, class V, std::size_t N, class C, class A> using ACont = sfl::VF_AC<K, N, C, A>;
#endif
#if VF_MAP
template <class K, class V> using AVal = std::pair<K, V>;
#else
template <class K, class V> using AVal = K;
#endif
#endif
