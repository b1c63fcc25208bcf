// Iterator laws against index arithmetic, and standard algorithms against the same algorithms on a plain array.
#ifndef VF_ITER_HPP
#define VF_ITER_HPP
#include "core.hpp"
#include <algorithm>
#include <iterator>
#include <numeric>
#if __cplusplus >= 202002L
#include <ranges>
#include <span>
#endif
namespace vf {
// It and CIt: (mutable, const) iterators; get(ref) gives the comparable value of an element
template <class It, class CIt, class G>
void laws(It b, It e, CIt cb, CIt ce, const std::vector<long long>& v, G get, Rng& r, bool all) {
    typedef typename std::iterator_traits<It>::difference_type D; typedef typename std::iterator_traits<It>::reference Ref; typedef typename std::iterator_traits<CIt>::reference CRef;
    static_assert(std::is_convertible<It, CIt>::value && (std::is_same<It, CIt>::value || !std::is_convertible<CIt, It>::value), "iterator conversions");
    static_assert(std::is_base_of<std::random_access_iterator_tag, typename std::iterator_traits<It>::iterator_category>::value, "random access");
    static_assert(std::is_const<typename std::remove_reference<CRef>::type>::value, "const reference"); (void)sizeof(Ref);
    const D n = D(v.size()); const char* K = "iterator-law";
    VF_CHECK(e - b == n && ce - cb == n && std::distance(b, e) == n && D(e - b) == D(ce - cb), K, "end - begin is %td, size %td", std::ptrdiff_t(e - b), std::ptrdiff_t(n));
    auto at = [&](const It& x, D i, const char* what) { VF_CHECK(get(*x) == v[size_t(i)], K, "%s does not denote element %td", what, std::ptrdiff_t(i)); };
    auto pair = [&](D i, D j) {
        count("iterator_pairs"); const D d = j - i;
        const It x = b + i, y = b + j; const CIt cx = cb + i, cy = cb + j; const CIt mx = x, my(y);
#define L(c) VF_CHECK(c, K, #c " for positions i=%td j=%td of %td", std::ptrdiff_t(i), std::ptrdiff_t(j), std::ptrdiff_t(n))
        L(y - x == d); L(cy - cx == d); L(cy - x == d); L(y - cx == d); L(mx == cx); L(my == cy); L(x == cx); L(cx == x); L(std::distance(x, y) == d);
        L((x == y) == (i == j)); L((x != y) == (i != j)); L((x < y) == (i < j)); L((x > y) == (i > j)); L((x <= y) == (i <= j)); L((x >= y) == (i >= j));
        L((cx == cy) == (i == j)); L((cx != cy) == (i != j)); L((cx < cy) == (i < j)); L((cx > cy) == (i > j)); L((cx <= cy) == (i <= j)); L((cx >= cy) == (i >= j));
        L((x == cy) == (i == j)); L((cx != y) == (i != j)); L((x < cy) == (i < j)); L((cx > y) == (i > j)); L((x <= cy) == (i <= j)); L((cx >= y) == (i >= j));
        L(x + d == y); L(d + x == y); L(y - d == x); L(x - (-d) == y); L(d + cx == cy); L(cy - d == cx);
        { It t = x; It& q = (t += d); L(t == y); L(std::addressof(q) == std::addressof(t)); It& w = (t -= d); L(t == x); L(std::addressof(w) == std::addressof(t)); }
        { It t = x; std::advance(t, d); L(t == y); L(std::next(x, d) == y); L(std::prev(y, d) == x); }
        { It t; t = x; It u = y; std::swap(t, u); L(t == y && u == x); t = u; L(t == x); CIt s; s = t; L(s == x); }
        if (j < n) { L(get(x[d]) == v[size_t(j)]); L(get(cx[d]) == v[size_t(j)]); L(std::addressof(x[d]) == std::addressof(*y)); L(std::addressof(*cy) == std::addressof(*y)); }
        { std::reverse_iterator<It> rx(y), ry(x); L(ry - rx == d); if (j > 0) L(get(*rx) == v[size_t(j - 1)]); L(rx + d == ry); L((rx < ry) == (i < j)); L(rx.base() == y); if (i > 0 && i <= n) L(get(rx[d]) == v[size_t(i - 1)]); }
    };
    for (D i = 0; i <= n; ++i) {
        if (i < n) {
            It x = b + i; at(x, i, "begin() + i"); const auto* ap = std::addressof(*x); VF_CHECK(std::addressof(*(x.operator->())) == ap, K, "operator-> differs from operator* at %td", std::ptrdiff_t(i));
            It t = x; It o = t++; VF_CHECK(o == x && t == b + (i + 1) && t != o && t - o == 1, K, "post-increment at %td", std::ptrdiff_t(i));
            It u = x; It& w = ++u; VF_CHECK(u == t && std::addressof(w) == std::addressof(u), K, "pre-increment at %td", std::ptrdiff_t(i));
            It s = u; It so = s--; VF_CHECK(so == u && s == x && !(s < x) && !(x < s), K, "post-decrement at %td", std::ptrdiff_t(i + 1)); at(s, i, "decremented iterator");
            It& z = --u; VF_CHECK(u == x && std::addressof(z) == std::addressof(u), K, "pre-decrement at %td", std::ptrdiff_t(i + 1)); at(u, i, "decremented iterator");
            CIt c = cb + i; CIt cc = c; ++cc; --cc; VF_CHECK(cc == c && get(*cc) == v[size_t(i)] && std::addressof(*cc) == ap, K, "const iterator at %td", std::ptrdiff_t(i));
        }
        if (all) for (D j = 0; j <= n; ++j) pair(i, j);
        else { pair(i, D(r.below(unsigned(n + 1)))); pair(i, n); pair(i, 0); pair(D(r.below(unsigned(n + 1))), i); }
    }
#undef L
    { D i = 0; for (It x = b; x != e; ++x, ++i) { VF_CHECK(i < n, K, "iteration passes the end"); at(x, i, "stepped iterator"); } VF_CHECK(i == n, K, "iteration ended after %td of %td", std::ptrdiff_t(i), std::ptrdiff_t(n)); }
    { D i = n; for (It x = e; x != b;) { VF_CHECK(i > 0, K, "backward iteration passes the beginning"); --x; --i; at(x, i, "back-stepped iterator"); } VF_CHECK(i == 0, K, "backward iteration ended at %td", std::ptrdiff_t(i)); }
#if __cplusplus >= 202002L
    static_assert(std::random_access_iterator<It> && std::random_access_iterator<CIt>, "C++20 random access iterators");
    VF_CHECK(std::ranges::distance(b, e) == n && std::ranges::next(b, n) == e && std::ranges::next(b, n, e) == e, K, "std::ranges positions");
    if constexpr (std::contiguous_iterator<It>) { if (n) { count("contiguous_checked"); auto s = std::span(b, e); for (D i = 0; i < n; ++i) VF_CHECK(std::to_address(b + i) == std::addressof(*(b + i)) && get(s[size_t(i)]) == v[size_t(i)], K, "contiguous access at %td", std::ptrdiff_t(i)); } }
    { auto q = std::ranges::find_if(b, e, [&](const auto& x) { return n && get(x) == v[size_t(n / 2)]; }); VF_CHECK(q - b == std::find(v.begin(), v.end(), n ? v[size_t(n / 2)] : 0) - v.begin(), K, "ranges::find_if"); }
#endif
}
// reverse iterators of the container
template <class RIt, class G> void reverse_laws(RIt rb, RIt re, const std::vector<long long>& v, G get) {
    const std::ptrdiff_t n = std::ptrdiff_t(v.size()); VF_CHECK(re - rb == n, "reverse-law", "rend - rbegin is %td of %td", std::ptrdiff_t(re - rb), n);
    std::ptrdiff_t i = n; for (RIt x = rb; x != re; ++x) { VF_CHECK(i > 0, "reverse-law", "reverse iteration too long"); --i; VF_CHECK(get(*x) == v[size_t(i)] && get(rb[n - 1 - i]) == v[size_t(i)], "reverse-law", "element %td", i); }
    VF_CHECK(i == 0, "reverse-law", "reverse iteration too short");
}
// read-only algorithms on [b + i, b + j)
template <class It, class G> void read_algorithms(It b, const std::vector<long long>& v, G get, Rng& r) {
    size_t n = v.size(), j = r.below(unsigned(n + 1)), i = r.below(unsigned(j + 1)); if (r.chance(1, 3)) { i = 0; j = n; }
    It f = b + std::ptrdiff_t(i), l = b + std::ptrdiff_t(j); auto vf_ = v.begin() + std::ptrdiff_t(i), vl = v.begin() + std::ptrdiff_t(j); typedef typename std::iterator_traits<It>::reference R; const char* K = "algorithm";
    long long key = n ? v[r.below(unsigned(n))] : 5; auto is = [&](const typename std::iterator_traits<It>::value_type& x) { return get(x) == key; }; auto vis = [&](long long x) { return x == key; };
    auto lt = [&](R a, R c) { return get(a) < get(c); }; (void)sizeof(R);
    VF_CHECK(std::find_if(f, l, is) - f == std::find_if(vf_, vl, vis) - vf_, K, "find_if on [%zu, %zu)", i, j);
    VF_CHECK(std::count_if(f, l, is) == std::count_if(vf_, vl, vis), K, "count_if on [%zu, %zu)", i, j);
    { long long a = 0, c = 1; for (It x = f; x != l; ++x) { a += get(*x) * c; c = c * 31 % 1000003; } long long a2 = 0, c2 = 1; for (auto x = vf_; x != vl; ++x) { a2 += *x * c2; c2 = c2 * 31 % 1000003; } VF_CHECK(a == a2, K, "accumulation on [%zu, %zu)", i, j); }
    VF_CHECK(std::min_element(f, l, lt) - f == std::min_element(vf_, vl) - vf_ && std::max_element(f, l, lt) - f == std::max_element(vf_, vl) - vf_, K, "min/max_element on [%zu, %zu)", i, j);
    VF_CHECK(std::is_sorted(f, l, lt) == std::is_sorted(vf_, vl), K, "is_sorted"); VF_CHECK(std::adjacent_find(f, l, [&](R a, R c) { return get(a) == get(c); }) - f == std::adjacent_find(vf_, vl) - vf_, K, "adjacent_find");
    std::vector<long long> o; std::for_each(f, l, [&](R x) { o.push_back(get(x)); }); VF_CHECK(o == std::vector<long long>(vf_, vl), K, "for_each on [%zu, %zu)", i, j);
    o.clear(); std::transform(std::reverse_iterator<It>(l), std::reverse_iterator<It>(f), std::back_inserter(o), [&](R x) { return (long long)get(x); }); VF_CHECK(std::equal(o.rbegin(), o.rend(), vf_, vl), K, "reverse transform on [%zu, %zu)", i, j);
    VF_CHECK(std::equal(f, l, vf_, vl, [&](R x, long long y) { return get(x) == y; }), K, "equal");
    { auto it = std::partition_point(f, l, [&](R x) { return get(x) < key; }); auto iv = std::partition_point(vf_, vl, [&](long long x) { return x < key; }); if (std::is_sorted(vf_, vl)) VF_CHECK(it - f == iv - vf_, K, "partition_point"); }
    if (j > i + 1) { size_t k = i + r.below(unsigned(j - i)), m = k + r.below(unsigned(j - k)); auto q = std::search(f, l, b + std::ptrdiff_t(k), b + std::ptrdiff_t(m), [&](R a, R c) { return get(a) == get(c); }); auto qv = std::search(vf_, vl, v.begin() + std::ptrdiff_t(k), v.begin() + std::ptrdiff_t(m)); VF_CHECK(q - f == qv - vf_, K, "search"); }
    count("read_algorithm_rounds");
}
// modifying algorithms; returns the expected contents
template <class It, class E> void write_algorithm(It b, std::vector<long long>& v, E, Rng& r) {
    typedef typename std::iterator_traits<It>::value_type T; auto get = [](const T& x) { return (long long)E::get(x); };
    size_t n = v.size(), j = r.below(unsigned(n + 1)), i = r.below(unsigned(j + 1)); if (r.chance(1, 3)) { i = 0; j = n; }
    It f = b + std::ptrdiff_t(i), l = b + std::ptrdiff_t(j); auto g = v.begin() + std::ptrdiff_t(i), h = v.begin() + std::ptrdiff_t(j); typedef std::reverse_iterator<It> RI; typedef std::reverse_iterator<std::vector<long long>::iterator> RV; const char* K = "algorithm";
    auto lt = [&](const T& a, const T& c) { return get(a) < get(c); }; auto odd = [&](const T& a) { return get(a) % 2 != 0; }; auto vodd = [](long long a) { return a % 2 != 0; };
    size_t k = i + r.below(unsigned(j - i + 1)); It m = b + std::ptrdiff_t(k); auto mv = v.begin() + std::ptrdiff_t(k); unsigned a = r.below(17); static const char* nm[] = {"sort", "stable_sort", "reverse", "rotate", "stable_partition", "partition", "nth_element", "heap_sort", "swap_ranges", "move", "move_backward", "reverse sort", "unique", "remove_if", "next_permutation", "inplace_merge", "iter_swap"};
    op_begin(nm[a], "[%zu, %zu) mid %zu of %zu", i, j, k, n); count(nm[a]); distinct(mix(mix(a * 31 + i, j), mix(k, n)));
    switch (a) {
    case 0: std::sort(f, l, lt); std::sort(g, h); break;
    case 1: std::stable_sort(f, l, lt); std::stable_sort(g, h); break;
    case 2: std::reverse(f, l); std::reverse(g, h); break;
    case 3: { It q = std::rotate(f, m, l); auto qv = std::rotate(g, mv, h); VF_CHECK(q - b == qv - v.begin(), K, "rotate returned position %td, array %td", std::ptrdiff_t(q - b), std::ptrdiff_t(qv - v.begin())); break; }
    case 4: { It q = std::stable_partition(f, l, odd); auto qv = std::stable_partition(g, h, vodd); VF_CHECK(q - b == qv - v.begin(), K, "stable_partition position"); break; }
    case 5: { It q = std::partition(f, l, odd); auto qv = std::partition(g, h, vodd); VF_CHECK(q - b == qv - v.begin(), K, "partition position"); std::sort(f, q, lt); std::sort(q, l, lt); std::sort(g, qv); std::sort(qv, h); break; }
    case 6: if (k < j) { std::nth_element(f, m, l, lt); std::nth_element(g, mv, h); VF_CHECK(get(*m) == *mv, K, "nth_element"); std::sort(f, l, lt); std::sort(g, h); } break;
    case 7: std::make_heap(f, l, lt); std::sort_heap(f, l, lt); std::sort(g, h); break;
    case 8: { size_t w = std::min(k - i, j - k); std::swap_ranges(f, f + std::ptrdiff_t(w), m); std::swap_ranges(g, g + std::ptrdiff_t(w), mv); break; }
    case 9: { It q = std::move(m, l, f); auto qv = std::move(mv, h, g); VF_CHECK(q - b == qv - v.begin(), K, "move position"); for (; q != l; ++q, ++qv) { *q = E::make(1); *qv = 1; } break; }
    case 10: { It q = std::move_backward(f, m, l); auto qv = std::move_backward(g, mv, h); VF_CHECK(q - b == qv - v.begin(), K, "move_backward position"); for (It z = f; z != q; ++z) *z = E::make(2); for (auto z = g; z != qv; ++z) *z = 2; break; }
    case 11: std::sort(RI(l), RI(f), lt); std::sort(RV(h), RV(g)); break;
    case 12: { It q = std::unique(f, l, [&](const T& x, const T& y) { return get(x) == get(y); }); auto qv = std::unique(g, h); VF_CHECK(q - b == qv - v.begin(), K, "unique position"); for (; q != l; ++q, ++qv) { *q = E::make(3); *qv = 3; } break; }
    case 13: { It q = std::remove_if(f, l, odd); auto qv = std::remove_if(g, h, vodd); VF_CHECK(q - b == qv - v.begin(), K, "remove_if position"); for (; q != l; ++q, ++qv) { *q = E::make(4); *qv = 4; } break; }
    case 14: VF_CHECK(std::next_permutation(f, l, lt) == std::next_permutation(g, h), K, "next_permutation result"); break;
    case 15: std::sort(f, m, lt); std::sort(m, l, lt); std::sort(g, mv); std::sort(mv, h); std::inplace_merge(f, m, l, lt); std::inplace_merge(g, mv, h); break;
    default: if (j > i) { size_t x = i + r.below(unsigned(j - i)), y = i + r.below(unsigned(j - i)); std::iter_swap(b + std::ptrdiff_t(x), b + std::ptrdiff_t(y)); std::iter_swap(v.begin() + std::ptrdiff_t(x), v.begin() + std::ptrdiff_t(y)); } break;
    }
    for (size_t q = 0; q < n; ++q) VF_CHECK(get(*(b + std::ptrdiff_t(q))) == v[q], K, "%s on [%zu, %zu) mid %zu: element %zu is %lld, array %lld", nm[a], i, j, k, q, get(*(b + std::ptrdiff_t(q))), v[q]);
}
} // namespace vf
#endif
