// Instrumented element types: every construction, access and destruction is recorded against a registry
// of live addresses.
#ifndef VF_ELEM_HPP
#define VF_ELEM_HPP
#include "core.hpp"
#include <memory>

namespace vf {

struct Fk { int k; explicit Fk(int x) : k(x) {} operator int() const& { ++cnt().fk_l; return k; } operator int() && { ++cnt().fk_r; return k; } };   // stands for exactly one key; knows the value category it was forwarded with

// ---- registry of live element objects: open addressing, address -> tag ----------------------
struct Registry {
    enum { CAP = 1 << 15 };
    const void* key[CAP];
    uint32_t val[CAP];
    size_t n;
    Registry() : n(0) { std::memset(key, 0, sizeof key); }
    static size_t h(const void* p) { return size_t((uint64_t(uintptr_t(p)) >> 2) * 0x9E3779B97F4A7C15ull >> 49) & (CAP - 1); }
    bool find(const void* p, uint32_t* v = nullptr) const {
        for (size_t i = h(p);; i = (i + 1) & (CAP - 1)) {
            if (!key[i]) return false;
            if (key[i] == p) { if (v) *v = val[i]; return true; }
        }
    }
    bool add(const void* p, uint32_t v = 0) {
        if (n > CAP / 2) { std::fprintf(stderr, "registry overflow\n"); _exit(4); }
        for (size_t i = h(p);; i = (i + 1) & (CAP - 1)) {
            if (!key[i]) { key[i] = p; val[i] = v; ++n; return true; }
            if (key[i] == p) return false;
        }
    }
    bool del(const void* p) {
        size_t i = h(p);
        for (;; i = (i + 1) & (CAP - 1)) { if (!key[i]) return false; if (key[i] == p) break; }
        size_t j = i;
        for (;;) {
            key[i] = nullptr;
            for (;;) {
                j = (j + 1) & (CAP - 1);
                if (!key[j]) { --n; return true; }
                size_t k = h(key[j]);
                if (i <= j ? (i < k && k <= j) : (i < k || k <= j)) continue;
                break;
            }
            key[i] = key[j]; val[i] = val[j]; i = j;
        }
    }
    void clear() { std::memset(key, 0, sizeof key); n = 0; }
};
inline Registry& elems() { static Registry* r = new Registry(); return *r; }

enum { EF_NTM = 1 /*nothrow move*/, EF_OVERALIGN = 2, EF_AMP = 4 /*hostile operator& and comma*/, EF_BIG = 8, EF_CHAR = 16, EF_NTALL = 32 /* nothing throws */ };

static const int MOVED = -77777;
static const int DEADV = -88888;
static const unsigned MAGIC = 0xA11FEu, DEADM = 0xDEADu;

template <bool B> struct AlignBase {};
template <> struct alignas(64) AlignBase<true> {};
template <bool B> struct PadBase {};
template <> struct PadBase<true> { char pad[40]; };

template <unsigned F>
struct ObjBase : AlignBase<(F & EF_OVERALIGN) != 0>, PadBase<(F & EF_BIG) != 0> {
    ObjBase* self; int v; unsigned magic;

    void born(int x) {
        if (!elems().add(this)) fail("construct-over-live", "element constructed at the address of a live element");
        if ((F & EF_OVERALIGN) && (reinterpret_cast<uintptr_t>(this) & 63)) fail("misaligned", "over-aligned element constructed at a misaligned address");
        self = this; v = x; magic = MAGIC;
    }
    void used(const char* how) const {
        if (!elems().find(this)) fail("use-of-dead", "%s of an object that is not alive", how);
        if (self != this || magic != MAGIC) fail("bitwise-relocated", "%s of an object whose bytes were overwritten or relocated", how);
    }
    void died() {
        if (!elems().del(this)) fail("destroy-dead", "destructor of an object that is not alive");
        if (self != this || magic != MAGIC) fail("bitwise-relocated", "destructor of an object whose bytes were overwritten or relocated");
        self = nullptr; v = DEADV; magic = DEADM;
    }
    int get() const { used("read"); return v; }
};

// an argument that refers to an element indirectly: the new element is built from what the referenced one holds
template <class B> struct Indirect { const B* p; };

#define VF_OBJ_COMMON(NAME) \
    using Base = ObjBase<F>; \
    static const bool nothrow_move = (F & (EF_NTM | EF_NTALL)) != 0; \
    void fp(const char* w) const { if (!(F & EF_NTALL)) fault_point(FK_ELEM, w); } \
    NAME() { fp("default-ctor"); ++cnt().dflt; this->born(0); } \
    explicit NAME(int x) { fp("value-ctor"); ++cnt().conv; this->born(x); } \
    NAME(int a, int b) { fp("value-ctor"); ++cnt().conv; this->born(a + b); } \
    explicit NAME(const Indirect<Base>& r) { fp("value-ctor"); ++cnt().conv; this->born(r.p->get()); } \
    NAME(NAME&& o) noexcept(nothrow_move) { o.used("move-from"); if (!nothrow_move) fp("move-ctor"); ++cnt().move; this->born(o.v); o.v = MOVED; } \
    NAME& operator=(NAME&& o) noexcept(nothrow_move) { o.used("move-from"); this->used("move-assignment"); if (!nothrow_move) fp("move-assign"); ++cnt().massign; \
        if (&static_cast<Base&>(o) != &static_cast<Base&>(*this)) { this->v = o.v; o.v = MOVED; } return *this; } \
    ~NAME() { ++cnt().dtor; this->died(); } \
    friend bool operator==(const NAME& a, const NAME& b) { a.fp("=="); ++cnt().cmp; return a.get() == b.get(); } \
    friend bool operator!=(const NAME& a, const NAME& b) { a.fp("!="); ++cnt().cmp; return a.get() != b.get(); } \
    friend bool operator<(const NAME& a, const NAME& b) { a.fp("<"); ++cnt().cmp; return a.get() < b.get(); }

template <unsigned F> struct Obj : ObjBase<F> {
    VF_OBJ_COMMON(Obj)
    Obj(const Obj& o) { o.used("copy-from"); fp("copy-ctor"); ++cnt().copy; this->born(o.v); }
    Obj& operator=(const Obj& o) { o.used("copy-from"); this->used("copy-assignment"); fp("copy-assign"); ++cnt().cassign; this->v = o.v; return *this; }
};
template <unsigned F> struct ObjM : ObjBase<F> { // move-only
    VF_OBJ_COMMON(ObjM)
    ObjM(const ObjM&) = delete;
    ObjM& operator=(const ObjM&) = delete;
};
template <unsigned F> struct ObjC : ObjBase<F> { // copy-only: no move operations at all, moves fall back to copies
    using Base = ObjBase<F>; static const bool nothrow_move = false;
    void fp(const char* w) const { fault_point(FK_ELEM, w); }
    ObjC() { fp("default-ctor"); ++cnt().dflt; this->born(0); }
    explicit ObjC(int x) { fp("value-ctor"); ++cnt().conv; this->born(x); }
    ObjC(int a, int b) { fp("value-ctor"); ++cnt().conv; this->born(a + b); }
    explicit ObjC(const Indirect<Base>& r) { fp("value-ctor"); ++cnt().conv; this->born(r.p->get()); }
    ObjC(const ObjC& o) { o.used("copy-from"); fp("copy-ctor"); ++cnt().copy; this->born(o.v); }
    ObjC& operator=(const ObjC& o) { o.used("copy-from"); this->used("copy-assignment"); fp("copy-assign"); ++cnt().cassign; this->v = o.v; return *this; }
    ~ObjC() { ++cnt().dtor; this->died(); }
    friend bool operator==(const ObjC& a, const ObjC& b) { a.fp("=="); ++cnt().cmp; return a.get() == b.get(); }
    friend bool operator!=(const ObjC& a, const ObjC& b) { a.fp("!="); ++cnt().cmp; return a.get() != b.get(); }
    friend bool operator<(const ObjC& a, const ObjC& b) { a.fp("<"); ++cnt().cmp; return a.get() < b.get(); }
};
// hostile: overloaded unary & and comma
template <unsigned F> struct ObjH : ObjBase<F> {
    VF_OBJ_COMMON(ObjH)
    ObjH(const ObjH& o) { o.used("copy-from"); fp("copy-ctor"); ++cnt().copy; this->born(o.v); }
    ObjH& operator=(const ObjH& o) { o.used("copy-from"); this->used("copy-assignment"); fp("copy-assign"); ++cnt().cassign; this->v = o.v; return *this; }
    ObjH* operator&() { fail("operator-ampersand", "library took an element's address with its overloaded operator&"); }
    const ObjH* operator&() const { fail("operator-ampersand", "library took an element's address with its overloaded operator&"); }
    template <class U> void operator,(U&&) const { fail("operator-comma", "library used an element's overloaded comma operator"); }
};

struct Pod { int v; short s; char c; Pod() = default; explicit Pod(int) = delete; }; // trivial; no parenthesized aggregate initialization in C++20
inline bool operator==(const Pod& a, const Pod& b) { return a.v == b.v && a.s == b.s && a.c == b.c; }
inline bool operator!=(const Pod& a, const Pod& b) { return !(a == b); }
inline bool operator<(const Pod& a, const Pod& b) { return a.v < b.v; }

// ---- uniform access -----------------------------------------------------------------
template <class T> struct EV { // arithmetic types
    static const bool copyable = true, tracked = false, nothrow_move = true;
    static T make(int x) { return T(x); }
    static int get(const T& t) { return int(t); }
};
template <> struct EV<Pod> {
    static const bool copyable = true, tracked = false, nothrow_move = true;
    static Pod make(int x) { Pod p; p.v = x; p.s = short(x * 3); p.c = char(x); return p; }
    static int get(const Pod& p) {
        if (p.v == 0 && p.s == 0 && p.c == 0) return 0;
        if (p.s != short(p.v * 3) || p.c != char(p.v)) fail("torn-element", "trivial element partially overwritten");
        return p.v;
    }
};
template <> struct EV<std::string> {
    static const bool copyable = true, tracked = false, nothrow_move = true;
    static std::string make(int x) { return x ? "a value long enough to live on the heap #" + std::to_string(x) : std::string(); }
    static int get(const std::string& s) { if (s.empty()) return 0; size_t i = s.find('#'); if (i == std::string::npos) fail("torn-element", "string content lost"); return atoi(s.c_str() + i + 1); }
};
template <> struct EV<std::unique_ptr<int>> {
    static const bool copyable = false, tracked = false, nothrow_move = true;
    static std::unique_ptr<int> make(int x) { return x ? std::unique_ptr<int>(new int(x)) : std::unique_ptr<int>(); }
    static int get(const std::unique_ptr<int>& p) { return p ? *p : 0; }
};
template <unsigned F> struct EV<Obj<F>> {
    static const bool copyable = true, tracked = true, nothrow_move = Obj<F>::nothrow_move;
    static Obj<F> make(int x) { return Obj<F>(x); }
    static int get(const Obj<F>& t) { return t.get(); }
};
template <unsigned F> struct EV<ObjM<F>> {
    static const bool copyable = false, tracked = true, nothrow_move = ObjM<F>::nothrow_move;
    static ObjM<F> make(int x) { return ObjM<F>(x); }
    static int get(const ObjM<F>& t) { return t.get(); }
};
template <unsigned F> struct EV<ObjH<F>> {
    static const bool copyable = true, tracked = true, nothrow_move = ObjH<F>::nothrow_move;
    static ObjH<F> make(int x) { return ObjH<F>(x); }
    static int get(const ObjH<F>& t) { return t.get(); }
};

template <unsigned F> struct EV<ObjC<F>> {
    static const bool copyable = true, tracked = true, nothrow_move = false;
    static ObjC<F> make(int x) { return ObjC<F>(x); }
    static int get(const ObjC<F>& t) { return t.get(); }
};

// construct with faults disarmed (harness-made arguments never throw)
struct Quiet {
    bool was; Quiet() : was(flt().armed) { flt().armed = false; }
    ~Quiet() { flt().armed = was; }
};

} // namespace vf
#endif
