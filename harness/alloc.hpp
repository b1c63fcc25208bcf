// Instrumented allocator: block registry, identity, propagation traits, construct/destroy log, fancy pointers.
#ifndef VF_ALLOC_HPP
#define VF_ALLOC_HPP
#include <sfl/segmented_vector.hpp>
#include "elem.hpp"
#include <iterator>
#include <limits>

namespace vf {

enum AllocFlags { AP_POCCA = 1, AP_POCMA = 2, AP_POCS = 4, AP_AEQ = 8, AP_SOCCC = 16, AP_FANCY = 32, AP_LIMIT = 64, AP_NOCONSTRUCT = 128, AP_UNINITMARK = 256 };

struct Block { void* p; size_t n; size_t sz; int id; };
struct Blocks {
    std::vector<Block> v;               // small: linear search from the back is enough
    uint64_t live() const { return v.size(); }
    size_t bytes_live;
};
inline Blocks& blocks() { static Blocks* b = new Blocks(); return *b; }
inline Registry& constructed() { static Registry* r = new Registry(); return *r; } // objects built through allocator_traits::construct, value = allocator id
inline size_t& alloc_limit() { static size_t n = 1000; return n; }

template <class T> struct FancyPtr {
    using element_type = T; using value_type = typename std::remove_cv<T>::type; using difference_type = std::ptrdiff_t;
    using pointer = T*; using reference = T&; using iterator_category = std::random_access_iterator_tag;
    T* p;
    struct Raw {};
    FancyPtr(T* q, Raw) noexcept : p(q) {}
    static FancyPtr pointer_to(T& r) noexcept { return FancyPtr(std::addressof(r), Raw()); }
    FancyPtr() noexcept {}
    FancyPtr(std::nullptr_t) noexcept : p(nullptr) {}
    FancyPtr(const FancyPtr& o) noexcept : p(o.p) {}
    template <class U = T, typename std::enable_if<std::is_const<U>::value>::type* = nullptr>
    FancyPtr(const FancyPtr<typename std::remove_const<T>::type>& o) noexcept : p(o.p) {}
    FancyPtr& operator=(std::nullptr_t) noexcept { p = nullptr; return *this; }
    FancyPtr& operator=(const FancyPtr& o) noexcept { p = o.p; return *this; }
    explicit operator bool() const noexcept { return p != nullptr; }
    T& operator*() const noexcept { return *p; }
    T& operator[](difference_type n) const noexcept { return p[n]; }
    T* operator->() const noexcept { return p; }
    FancyPtr& operator++() noexcept { ++p; return *this; }
    FancyPtr operator++(int) noexcept { FancyPtr t = *this; ++p; return t; }
    FancyPtr& operator--() noexcept { --p; return *this; }
    FancyPtr operator--(int) noexcept { FancyPtr t = *this; --p; return t; }
    FancyPtr& operator+=(difference_type n) noexcept { p += n; return *this; }
    FancyPtr& operator-=(difference_type n) noexcept { p -= n; return *this; }
    friend FancyPtr operator+(const FancyPtr& a, difference_type n) noexcept { return FancyPtr(a.p + n, Raw()); }
    friend FancyPtr operator-(const FancyPtr& a, difference_type n) noexcept { return FancyPtr(a.p - n, Raw()); }
    friend difference_type operator-(const FancyPtr& a, const FancyPtr& b) noexcept { return a.p - b.p; }
    friend bool operator==(const FancyPtr& a, const FancyPtr& b) noexcept { return a.p == b.p; }
    friend bool operator!=(const FancyPtr& a, const FancyPtr& b) noexcept { return a.p != b.p; }
    friend bool operator<(const FancyPtr& a, const FancyPtr& b) noexcept { return a.p < b.p; }
    friend bool operator>(const FancyPtr& a, const FancyPtr& b) noexcept { return a.p > b.p; }
    friend bool operator<=(const FancyPtr& a, const FancyPtr& b) noexcept { return a.p <= b.p; }
    friend bool operator>=(const FancyPtr& a, const FancyPtr& b) noexcept { return a.p >= b.p; }
};

inline bool& absurd_allocations_fail() { static bool b = false; return b; } // huge but legal requests (below max_size) run out of memory
inline void* block_alloc(size_t n, size_t sz, size_t al, int id) {
    fault_point(FK_ALLOC, "allocate");
    ++cnt().alloc;
    if (n == 0) count("zero_size_allocations");
    if (n > (size_t(1) << 40) / (sz ? sz : 1)) { if (absurd_allocations_fail()) { count("absurd_allocations"); throw std::bad_alloc(); } fail("alloc-absurd", "allocate(%zu) of %zu-byte elements requested", n, sz); }
    size_t bytes = n * sz; if (bytes == 0) bytes = 1;
    void* p = nullptr;
    if (al > 16) { if (posix_memalign(&p, al, bytes)) p = nullptr; } else p = std::malloc(bytes);
    if (!p) { std::fprintf(stderr, "harness out of memory\n"); _exit(4); }
    scrub(p, bytes, 0xA5);
    blocks().v.push_back(Block{p, n, sz, id});
    return p;
}
inline void block_free(void* p, size_t n, size_t sz, int id, bool always_equal) {
    ++cnt().dealloc;
    auto& v = blocks().v;
    for (size_t i = v.size(); i-- > 0;) if (v[i].p == p) {
        if (v[i].n != n || v[i].sz != sz)
            fail("dealloc-size", "block allocated as %zu x %zu bytes returned as %zu x %zu", v[i].n, v[i].sz, n, sz);
        if (!always_equal && v[i].id != id)
            fail("dealloc-wrong-allocator", "block of allocator %d returned to unequal allocator %d", v[i].id, id);
        v[i] = v.back(); v.pop_back();
        scrub(p, n * sz, 0x5A);
        std::free(p);
        return;
    }
    fail("dealloc-unknown", "deallocate of a block that is not allocated (n=%zu)", n);
}

template <class T, unsigned P> struct MonAlloc;
template <class T> struct is_fancy : std::false_type {};
template <class T> struct is_fancy<FancyPtr<T>> : std::true_type {};
// container objects whose inline storage is watched
struct Arena { const char* p; size_t n; };
inline std::vector<Arena>& arenas() { static std::vector<Arena>* a = new std::vector<Arena>(); return *a; }
inline bool in_arenas(const void* q) { for (auto& a : arenas()) if ((const char*)q >= a.p && (const char*)q < a.p + a.n) return true; return false; }
inline bool in_block(const void* q) { auto& v = blocks().v; for (size_t i = v.size(); i-- > 0;) if ((const char*)q >= (const char*)v[i].p && (const char*)q < (const char*)v[i].p + v[i].n * v[i].sz) return true; return false; }
template <class T, bool Fancy> struct PtrSel { using type = T*; };
template <class T> struct PtrSel<T, true> { using type = FancyPtr<T>; };

inline int& default_alloc_id() { static int i = 1; return i; }

template <class T, unsigned P>
struct MonAlloc {
    using value_type = T;
    using pointer = typename PtrSel<T, (P & AP_FANCY) != 0>::type;
    using const_pointer = typename PtrSel<const T, (P & AP_FANCY) != 0>::type;
    using size_type = std::size_t; using difference_type = std::ptrdiff_t;
    using propagate_on_container_copy_assignment = std::integral_constant<bool, (P & AP_POCCA) != 0>;
    using propagate_on_container_move_assignment = std::integral_constant<bool, (P & AP_POCMA) != 0>;
    using propagate_on_container_swap = std::integral_constant<bool, (P & AP_POCS) != 0>;
    using is_always_equal = std::integral_constant<bool, (P & AP_AEQ) != 0>;
    template <class U> struct rebind { using other = MonAlloc<U, P>; };
    int id;
    MonAlloc() noexcept : id(default_alloc_id()) {}
    explicit MonAlloc(int i) noexcept : id(i) {}
    MonAlloc(const MonAlloc& o) noexcept : id(o.id) {}
    template <class U> MonAlloc(const MonAlloc<U, P>& o) noexcept : id(o.id) {}
    MonAlloc& operator=(const MonAlloc& o) noexcept { id = o.id; return *this; }
    MonAlloc select_on_container_copy_construction() const { return (P & AP_SOCCC) ? MonAlloc(id + 1000) : *this; }
    pointer wrap(T* q) const { return make_ptr(q, std::integral_constant<bool, (P & AP_FANCY) != 0>()); }
    static T* make_ptr(T* q, std::false_type) { return q; }
    static FancyPtr<T> make_ptr(T* q, std::true_type) { return FancyPtr<T>(q, typename FancyPtr<T>::Raw()); }
    static T* raw(T* q) { return q; }
    static T* raw(const FancyPtr<T>& q) { return q.p; }
    size_type max_size() const noexcept { return ((P & AP_LIMIT) && !std::is_pointer<T>::value) ? alloc_limit() : size_type(PTRDIFF_MAX) / sizeof(T); }
    pointer allocate(size_type n) {
        if (n > max_size()) fail("alloc-over-max", "allocate(%zu) beyond allocator max_size %zu", n, max_size());
        T* p = static_cast<T*>(block_alloc(n, sizeof(T), alignof(T), id));
        if (element_storage && n) mem_poison(p, n * sizeof(T));
        return wrap(p);
    }
    void deallocate(pointer p, size_type n) { block_free(raw(p), n, sizeof(T), id, (P & AP_AEQ) != 0); }
    template <class U, class... A> void construct(U* p, A&&... a) noexcept(std::is_nothrow_constructible<U, A...>::value) {
        if (in_arena(p)) mem_unpoison(p, sizeof(U));
        ::new ((void*)p) U(std::forward<A>(a)...);
        note_constructed(p);
    }
    template <class U> void destroy(U* p) noexcept(std::is_nothrow_destructible<U>::value) {
        note_destroyed(p);
        p->~U();
        if (in_arena(p)) mem_poison(p, sizeof(U)); // spare element slots are unreadable
    }
    static const bool element_storage = !std::is_pointer<T>::value && !is_fancy<T>::value;
    template <class U> static bool in_arena(U* p) {
#if defined(VF_POISON)
        return element_storage && std::is_same<U, T>::value && (in_arenas(p) || in_block(p));
#else
        (void)p; return false;
#endif
    }
    template <class U> void note_constructed(U* p) {
        if ((P & AP_NOCONSTRUCT)) return;
        if (!std::is_same<U, T>::value) return;
        if (!constructed().add((const char*)(const void*)p, uint32_t(id))) fail("construct-twice", "allocator_traits::construct at the address of a live element");
    }
    template <class U> void note_destroyed(U* p) {
        if ((P & AP_NOCONSTRUCT)) return;
        if (!std::is_same<U, T>::value) return;
        if (!constructed().del((const char*)(const void*)p)) fail("destroy-unconstructed", "allocator_traits::destroy of an element not constructed through allocator_traits::construct");
    }
    friend bool operator==(const MonAlloc& a, const MonAlloc& b) noexcept { return (P & AP_AEQ) || a.id == b.id; }
    friend bool operator!=(const MonAlloc& a, const MonAlloc& b) noexcept { return !(a == b); }
};

// ---- monitored source ranges -------------------------------------------------------------------
// A source of n elements; iterators over it record dereferences, passes and over-runs.
template <class T> struct Source {
    std::vector<T> v; std::vector<unsigned> derefs; size_t pos; bool single_pass;
    void reset() { derefs.assign(v.size(), 0); pos = 0; single_pass = false; }
};

enum IterCat { IC_INPUT = 0, IC_FWD, IC_BIDI, IC_RA, IC_PTR, IC_MOVE, IC_ILIST, IC_NCAT, IC_MOVE_INPUT = IC_NCAT, IC_MUT_INPUT, IC_MUT_RA, IC_MUT_PTR, IC_SEG, IC_MUT_SEG, IC_MOVE_SEG, IC_NCAT2 };

// Single-pass input iterator. Shares a cursor; using a stale copy or reading twice is a violation.
template <class T, bool ByMove, bool Mut = false> struct InIt {
    using iterator_category = std::input_iterator_tag; using value_type = T; using difference_type = std::ptrdiff_t;
    using pointer = const T*; using reference = typename std::conditional<ByMove, T&&, typename std::conditional<Mut, T&, const T&>::type>::type;
    Source<T>* s; size_t i;  // i == npos: end
    InIt() : s(nullptr), i(0) {}
    InIt(Source<T>* s_, size_t i_) : s(s_), i(i_) {}
    reference operator*() const {
        fault_point(FK_ITER, "iterator-deref"); ++cnt().iterop;
        if (i >= s->v.size()) fail("range-overrun", "input iterator dereferenced at or past the end");
        if (s->pos != i) fail("range-multipass", "single-pass input range read again (cursor %zu, iterator %zu)", s->pos, i);
        ++s->derefs[i];
        return static_cast<reference>(s->v[i]);
    }
    InIt& operator++() {
        fault_point(FK_ITER, "iterator-increment"); ++cnt().iterop;
        if (i >= s->v.size()) fail("range-overrun", "input iterator incremented past the end");
        if (s->pos != i) fail("range-multipass", "stale copy of a single-pass iterator incremented (cursor %zu, iterator %zu)", s->pos, i);
        ++s->pos; ++i; return *this;
    }
    struct Proxy { Source<T>* s; size_t i; reference operator*() const { return static_cast<reference>(s->v[i]); } };
    Proxy operator++(int) {
        Proxy p{s, i}; if (i < s->derefs.size()) ++s->derefs[i]; ++*this; return p;
    }
    friend bool operator==(const InIt& a, const InIt& b) { fault_point(FK_ITER, "iterator-compare"); return a.i == b.i; }
    friend bool operator!=(const InIt& a, const InIt& b) { return !(a == b); }
};
template <class T, class Cat, bool Mut = false> struct SrcIt {
    using iterator_category = Cat; using value_type = T; using difference_type = std::ptrdiff_t;
    using pointer = typename std::conditional<Mut, T*, const T*>::type; using reference = typename std::conditional<Mut, T&, const T&>::type;
    Source<T>* s; difference_type i;
    SrcIt() : s(nullptr), i(0) {}
    SrcIt(Source<T>* s_, difference_type i_) : s(s_), i(i_) {}
    reference operator*() const {
        fault_point(FK_ITER, "iterator-deref"); ++cnt().iterop;
        if (i < 0 || size_t(i) >= s->v.size()) fail("range-overrun", "iterator dereferenced outside the range (%td)", i);
        ++s->derefs[size_t(i)]; return s->v[size_t(i)];
    }
    pointer operator->() const { return std::addressof(**this); }
    void chk() const { if (i < 0 || size_t(i) > s->v.size()) fail("range-overrun", "iterator moved outside the range (%td)", i); }
    SrcIt& operator++() { fault_point(FK_ITER, "iterator-increment"); ++cnt().iterop; ++i; chk(); return *this; }
    SrcIt operator++(int) { SrcIt t = *this; ++*this; return t; }
    SrcIt& operator--() { --i; chk(); return *this; }
    SrcIt operator--(int) { SrcIt t = *this; --*this; return t; }
    SrcIt& operator+=(difference_type n) { ++cnt().iterop; i += n; chk(); return *this; }
    SrcIt& operator-=(difference_type n) { i -= n; chk(); return *this; }
    reference operator[](difference_type n) const { return *(*this + n); }
    friend SrcIt operator+(SrcIt a, difference_type n) { a += n; return a; }
    friend SrcIt operator+(difference_type n, SrcIt a) { a += n; return a; }
    friend SrcIt operator-(SrcIt a, difference_type n) { a -= n; return a; }
    friend difference_type operator-(const SrcIt& a, const SrcIt& b) { return a.i - b.i; }
    friend bool operator==(const SrcIt& a, const SrcIt& b) { fault_point(FK_ITER, "iterator-compare"); return a.i == b.i; }
    friend bool operator!=(const SrcIt& a, const SrcIt& b) { return !(a == b); }
    friend bool operator<(const SrcIt& a, const SrcIt& b) { return a.i < b.i; }
    friend bool operator>(const SrcIt& a, const SrcIt& b) { return a.i > b.i; }
    friend bool operator<=(const SrcIt& a, const SrcIt& b) { return a.i <= b.i; }
    friend bool operator>=(const SrcIt& a, const SrcIt& b) { return a.i >= b.i; }
};

// The same elements in one of the library's segmented containers: its iterators are dispatched on by the library. The
// range starts somewhere inside a segment.
template <class T, size_t N> struct SegSrc {
    sfl::segmented_vector<T, N> v; size_t off;
    explicit SegSrc(Source<T>& s, bool move) : off(s.v.empty() ? 0 : (s.v.size() + s.v.size() / N) % N) {
        v.reserve(off + s.v.size());
        if constexpr (std::is_copy_constructible<T>::value) { for (size_t i = 0; i < off; ++i) v.push_back(s.v[0]); } else off = 0;
        for (auto& x : s.v) if constexpr (std::is_copy_constructible<T>::value) { if (move) v.push_back(std::move(x)); else v.push_back(static_cast<const T&>(x)); } else v.push_back(std::move(x));
    }
    auto b() { return v.begin() + std::ptrdiff_t(off); }
    auto e() { return v.end(); }
    void back(Source<T>& s) { for (size_t i = 0; i < s.v.size(); ++i) s.v[i] = static_cast<const T&>(v[off + i]); }
};

// call f(first, last) with iterators of the requested category over src; returns false if the category does not suit T
template <class T, class F, bool Copyable> struct RangeCall;
template <class T, class F> struct RangeCall<T, F, true> {
    static void go(Source<T>& s, unsigned cat, F& f) {
        std::ptrdiff_t n = std::ptrdiff_t(s.v.size());
        switch (cat) {
        case IC_INPUT: s.single_pass = true; f(InIt<T, false>(&s, 0), InIt<T, false>(&s, size_t(n))); break;
        case IC_FWD: f(SrcIt<T, std::forward_iterator_tag>(&s, 0), SrcIt<T, std::forward_iterator_tag>(&s, n)); break;
        case IC_BIDI: f(SrcIt<T, std::bidirectional_iterator_tag>(&s, 0), SrcIt<T, std::bidirectional_iterator_tag>(&s, n)); break;
        case IC_RA: f(SrcIt<T, std::random_access_iterator_tag>(&s, 0), SrcIt<T, std::random_access_iterator_tag>(&s, n)); break;
        case IC_PTR: f(static_cast<const T*>(s.v.data()), static_cast<const T*>(s.v.data() + n)); break;
        case IC_MOVE: f(std::make_move_iterator(s.v.begin()), std::make_move_iterator(s.v.end())); break;
        case IC_MUT_INPUT: s.single_pass = true; f(InIt<T, false, true>(&s, 0), InIt<T, false, true>(&s, size_t(n))); break;
        case IC_MUT_RA: f(SrcIt<T, std::random_access_iterator_tag, true>(&s, 0), SrcIt<T, std::random_access_iterator_tag, true>(&s, n)); break;
        case IC_MUT_PTR: f(s.v.data(), s.v.data() + n); break;
        case IC_SEG: { SegSrc<T, 3> q(s, false); typename sfl::segmented_vector<T, 3>::const_iterator a = q.b(), b = q.e(); f(a, b); q.back(s); break; }
        case IC_MUT_SEG: { SegSrc<T, 4> q(s, false); f(q.b(), q.e()); q.back(s); break; }
        case IC_MOVE_SEG: { SegSrc<T, 3> q(s, true); f(std::make_move_iterator(q.b()), std::make_move_iterator(q.e())); break; }
        default: s.single_pass = true; f(InIt<T, true>(&s, 0), InIt<T, true>(&s, size_t(n))); break;
        }
    }
    static unsigned pick(Rng& r) { static const unsigned c[] = {IC_INPUT, IC_FWD, IC_BIDI, IC_RA, IC_PTR, IC_MOVE, IC_MOVE_INPUT, IC_MUT_INPUT, IC_MUT_RA, IC_MUT_PTR, IC_SEG, IC_MUT_SEG, IC_MOVE_SEG}; return c[r.below(13)]; }
};
template <class T, class F> struct RangeCall<T, F, false> {
    static void go(Source<T>& s, unsigned cat, F& f) {
        std::ptrdiff_t n = std::ptrdiff_t(s.v.size());
        if (cat == IC_MOVE) f(std::make_move_iterator(s.v.begin()), std::make_move_iterator(s.v.end()));
        else if (cat == IC_MOVE_SEG) { SegSrc<T, 3> q(s, true); f(std::make_move_iterator(q.b()), std::make_move_iterator(q.e())); }
        else { s.single_pass = true; f(InIt<T, true>(&s, 0), InIt<T, true>(&s, size_t(n))); }
    }
    static unsigned pick(Rng& r) { unsigned x = r.below(5); return x < 2 ? unsigned(IC_MOVE) : x < 4 ? unsigned(IC_MOVE_INPUT) : unsigned(IC_MOVE_SEG); }
};
inline bool cat_moves(unsigned cat) { return cat == IC_MOVE || cat == IC_MOVE_INPUT || cat == IC_MOVE_SEG; }
inline const char* cat_name(unsigned c) { static const char* n[] = {"input", "fwd", "bidi", "ra", "ptr", "move", "ilist", "moveinput", "mutinput", "mutra", "mutptr", "seg", "mutseg", "moveseg"}; return n[c < 14 ? c : 7]; }

} // namespace vf
#endif
