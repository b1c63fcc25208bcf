// C07: what is documented noexcept is declared noexcept, for these element, comparator and allocator types.
#ifndef VF_NX_HPP
#define VF_NX_HPP
#include "core.hpp"
#include <type_traits>
#include <utility>
namespace vf {
#define VF_MUT std::declval<C&>()
#define VF_CST std::declval<const C&>()
#define VF_NX(what, e) do { op_begin(what); count("noexcept_documented"); VF_CHECK(noexcept(e), "noexcept", "%s is documented noexcept and not declared so", what); } while (0)
#define VF_NX2(f) VF_NX(#f, VF_MUT.f()); VF_NX(#f " const", VF_CST.f())
// every container
template <class C, class S = typename C::size_type> void nx_all() {
    VF_NX2(begin); VF_NX2(end); VF_NX("cbegin", VF_CST.cbegin()); VF_NX("cend", VF_CST.cend());
    VF_NX("nth", VF_MUT.nth(S())); VF_NX("nth const", VF_CST.nth(S())); VF_NX("index_of", VF_CST.index_of(std::declval<typename C::const_iterator>()));
    VF_NX("size", VF_CST.size()); VF_NX("max_size", VF_CST.max_size()); VF_NX("empty", VF_CST.empty()); VF_NX("clear", VF_MUT.clear());
}
template <class C> void nx_data() { VF_NX2(data); }
template <class C> void nx_capacity() { VF_NX("capacity", VF_CST.capacity()); }
template <class C> void nx_available() { VF_NX("available", VF_CST.available()); }
template <class C> void nx_available2() { VF_NX("available_front", VF_CST.available_front()); VF_NX("available_back", VF_CST.available_back()); }
template <class C> void nx_full() { VF_NX("full", VF_CST.full()); }
template <class C> void nx_alloc() { VF_NX("get_allocator", VF_CST.get_allocator()); }
template <class C> void nx_reverse() { VF_NX2(rbegin); VF_NX2(rend); VF_NX("crbegin", VF_CST.crbegin()); VF_NX("crend", VF_CST.crend()); }
template <class C, class S = typename C::size_type> void nx_seq() {
    VF_NX2(front); VF_NX2(back); VF_NX("subscript", VF_MUT[S()]); VF_NX("subscript const", VF_CST[S()]);
}
template <class C> void nx_swap() { VF_NX("swap", VF_MUT.swap(VF_MUT)); }
template <class C> void nx_default() { VF_NX("default constructor", C()); }
}
#endif
