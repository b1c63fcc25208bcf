// Random-history driver for the flat associative containers against an abstract (multi)map, with hooks for monitors.
// A key is an int k = cls*16 + tag; the comparator (a runtime-moded, stateful object) looks only at a rank derived
// from it, so equivalent keys are distinguishable and every "which one was kept" question has a visible answer.
#ifndef VF_ASSOC_HPP
#define VF_ASSOC_HPP
#include "alloc.hpp"
#include "assoctraits.hpp"
#include <algorithm>
#include <initializer_list>
#include <stdexcept>
#include <tuple>

namespace vf {

enum AKind { A_INSERT, A_EMPLACE, A_HINT, A_INSERT_RANGE, A_ASSIGN1, A_TRY, A_SUBSCRIPT, A_ERASE_POS, A_ERASE_RANGE, A_ERASE_KEY, A_ERASE_LOOP, A_ERASE_IF,
             A_LOOKUP, A_CLEAR, A_RESERVE, A_SHRINK, A_COPY_ASSIGN, A_MOVE_ASSIGN, A_SWAP, A_ILIST_ASSIGN, A_CTOR, A_COPY_CTOR, A_MOVE_CTOR, A_COMPARE, A_WRITE, A_SELF_SWAP, A_SELF_COPY };
enum AMon { M_NOEFFECT = 1, M_HETERO = 2, M_COST = 4, M_FAULT_INV = 8 };

inline int rank_of(int mode, int k) {
    int cls = k >> 4;
    if (AT::ordered) switch (mode & 3) { case 0: return cls; case 1: return -cls; case 2: return (cls * 7) & 31; default: return k; }
    switch (mode & 3) { case 0: return cls; case 1: return cls % 6; case 2: return cls / 2; default: return k; }
}
inline int floor4(int r) { return r >> 2; }
struct Fg { int g; explicit Fg(int x) : g(x) {} };                                        // matches a group of four adjacent ranks
inline int& default_mode() { static int m = 0; return m; }
inline bool& moved_keys_ok() { static bool b = false; return b; }

template <class K> struct CmpBase {
    int mode;
    CmpBase() : mode(default_mode()) {}
    explicit CmpBase(int m) : mode(m) {}
    int rk(const K& a) const { int k = EV<K>::get(a); if (k == MOVED && !moved_keys_ok()) fail("compare-moved-from", "comparator or key equality called with a moved-from key"); return rank_of(mode, k); }
    int rk(const Fk& a) const { return rank_of(mode, a.k); }
    template <class X, class Y> bool cmp(const X& a, const Y& b) const {
        fault_point(FK_CMP, AT::ordered ? "comparator" : "key-equality"); ++cnt().pred;
        int x = rk(a), y = rk(b);
        return AT::ordered ? x < y : x == y;
    }
};
template <class K, bool TR> struct Cmp : CmpBase<K> {
    using CmpBase<K>::CmpBase;
    bool operator()(const K& a, const K& b) const { return this->cmp(a, b); }
};
template <class K> struct Cmp<K, true> : CmpBase<K> {
    using CmpBase<K>::CmpBase;
    using is_transparent = void;
    bool operator()(const K& a, const K& b) const { return this->cmp(a, b); }
    bool operator()(const K& a, const Fk& b) const { return this->cmp(a, b); }
    bool operator()(const Fk& a, const K& b) const { return this->cmp(a, b); }
    bool operator()(const Fk& a, const Fk& b) const { return this->cmp(a, b); }
    bool operator()(const K& a, const Fg& b) const { fault_point(FK_CMP, "comparator"); ++cnt().pred; int x = floor4(this->rk(a)); return AT::ordered ? x < b.g : x == b.g; }
    bool operator()(const Fg& a, const K& b) const { fault_point(FK_CMP, "comparator"); ++cnt().pred; int x = floor4(this->rk(b)); return AT::ordered ? a.g < x : x == a.g; }
};

using KV = std::pair<int, int>;
struct AOp { AKind kind; const char* name; int a, b; size_t pos, n; unsigned cat; bool alias, hetero, existed; int fwd = 0; };

struct AWeights {
    unsigned insert1, mapassign, insertn, erase, erasekey, erasebulk, lookup, clear, reserve, xfer, ctor, compare, write, self, alias_pct, hetero_pct;
    AWeights() : insert1(30), mapassign(AT::is_map && !AT::multi ? 16 : 0), insertn(8), erase(10), erasekey(8), erasebulk(3), lookup(12), clear(1), reserve(AT::dyn ? 4 : 0), xfer(7), ctor(5), compare(3), write(AT::is_map ? 2 : 0), self(0), alias_pct(15), hetero_pct(0) {}
};

// Values of the container's value_type
template <class K, class V> struct VOps {
    using VT = AVal<K, V>;
    static const bool copyable = EV<K>::copyable && (!AT::is_map || EV<V>::copyable);
    static const bool nothrow_move = EV<K>::nothrow_move && (!AT::is_map || EV<V>::nothrow_move);
    static const bool tracked = EV<K>::tracked || (AT::is_map && EV<V>::tracked);
    static const size_t per_elem = (EV<K>::tracked ? 1 : 0) + (AT::is_map && EV<V>::tracked ? 1 : 0);
    static VT make(int k, int v) { if constexpr (AT::is_map) return VT(EV<K>::make(k), EV<V>::make(v)); else return EV<K>::make(k); }
    static KV get(const VT& x) { if constexpr (AT::is_map) { int k = EV<K>::get(x.first); return KV(k, EV<V>::get(x.second)); } else return KV(EV<K>::get(x), 0); }
    static const K& key(const VT& x) { if constexpr (AT::is_map) return x.first; else return x; }
};

template <class K, class V, size_t N_, bool TR, class A>
struct AssocWorld {
    using Cm = Cmp<K, TR>;
    using C = ACont<K, V, N_, Cm, A>;
    using VT = AVal<K, V>;
    using O = VOps<K, V>;
    using It = typename C::iterator; using CIt = typename C::const_iterator;
    static const size_t N = N_;
    static const bool conv_key = std::is_constructible<K, const Fk&>::value; // a key can be built from a foreign key
    static const int NS = 3;
    C* c[NS]; void* mem[NS];
    std::vector<KV> m[NS];
    int aid[NS], mode[NS];
    Rng rng; AWeights w;
    int next_v; size_t soft_max, max_n; int ncls;
    long fault_at; unsigned fault_mask; bool last_threw; int nids; unsigned mon;

    explicit AssocWorld(uint64_t seed) : rng(seed), next_v(1), soft_max(AT::is_static ? N : 24), max_n(8), ncls(24), fault_at(0), fault_mask(15), last_threw(false), nids(2), mon(0) {
        default_mode() = int(rng.below(4));
        moved_keys_ok() = false;
        for (int i = 0; i < NS; ++i) { void* p; size_t al = alignof(C) < sizeof(void*) ? sizeof(void*) : alignof(C); if (posix_memalign(&p, al, sizeof(C))) _exit(4); scrub(p, sizeof(C), 0xC3); arenas().push_back(Arena{(const char*)p, sizeof(C)}); mem[i] = p; aid[i] = 1; mode[i] = 0; c[i] = nullptr; }
        for (int i = 0; i < NS; ++i) { Quiet q; construct_default(i, 1 + int(rng.below(unsigned(nids))), int(rng.below(4))); }
    }
    virtual ~AssocWorld() {}
    // ---- allocator helpers -----------------------------------------------------------------
    template <class U, unsigned P> static MonAlloc<U, P> mk_alloc(int id, MonAlloc<U, P>*) { return MonAlloc<U, P>(id); }
    template <class X> static X mk_alloc(int, X*) { return X(); }
    static A mkalloc(int id) { return mk_alloc(id, (A*)nullptr); }
    template <class U, unsigned P> static int alloc_id(const MonAlloc<U, P>& a) { return a.id; }
    template <class X> static int alloc_id(const X&) { return 1; }
    template <class U, unsigned P> static unsigned aflags(MonAlloc<U, P>*) { return P; }
    template <class X> static unsigned aflags(X*) { return AP_POCMA | AP_AEQ; }
    static unsigned af() { return aflags((A*)nullptr); }
    static bool stateful() { return !(af() & AP_AEQ); }
    template <class U, unsigned P> static bool mon_c(MonAlloc<U, P>*) { return !(P & AP_NOCONSTRUCT); }
    template <class X> static bool mon_c(X*) { return false; }
    int alloc_id_of(int i) { if constexpr (AT::dyn) return alloc_id(c[i]->get_allocator()); else return aid[i]; }
    int comp_mode(int i) { if constexpr (AT::ordered) return static_cast<const C&>(*c[i]).key_comp().mode; else return static_cast<const C&>(*c[i]).key_eq().mode; }
    static size_t cap_of(const C& k) { if constexpr (AT::dyn) return k.capacity(); else return N; }

    void construct_default(int i, int id, int md) {
        if constexpr (AT::dyn) c[i] = ::new (mem[i]) C(Cm(md), mkalloc(id)); else { (void)id; c[i] = ::new (mem[i]) C(Cm(md)); }
        aid[i] = id; mode[i] = md; m[i].clear();
    }
    void finish_world() {
        op_begin("destroy");
        for (int i = 0; i < NS; ++i) if (c[i]) { c[i]->~C(); c[i] = nullptr; }
        for (int i = 0; i < NS; ++i) { mem_unpoison(mem[i], sizeof(C)); std::free(mem[i]); mem[i] = nullptr; }
        if (O::tracked) VF_CHECK(elems().n == 0, "element-leak", "%zu elements alive after all containers were destroyed", elems().n);
        arenas().clear(); VF_CHECK(blocks().live() == 0, "memory-leak", "%zu blocks allocated after all containers were destroyed", size_t(blocks().live()));
        VF_CHECK(constructed().n == 0, "destroy-missing", "%zu elements never destroyed through the allocator", constructed().n);
    }
    size_t room(int i) const { size_t lim = AT::is_static ? N : soft_max + max_n; return m[i].size() >= lim ? 0 : lim - m[i].size(); }

    // ---- model ------------------------------------------------------------------------------------
    int rk(int i, int k) const { return rank_of(mode[i], k); }
    size_t m_lower(int i, int r) const { size_t p = 0; while (p < m[i].size() && rk(i, m[i][p].first) < r) ++p; return p; }
    size_t m_upper(int i, int r) const { size_t p = 0; while (p < m[i].size() && rk(i, m[i][p].first) <= r) ++p; return p; }
    size_t m_find(int i, int k) const { int r = rk(i, k); for (size_t p = 0; p < m[i].size(); ++p) if (rk(i, m[i][p].first) == r) return p; return m[i].size(); }
    size_t m_count(int i, int k) const { int r = rk(i, k); size_t n = 0; for (auto& e : m[i]) n += rk(i, e.first) == r; return n; }
    int pick_k(int i) { // a key: often equivalent to or identical with a present one
        unsigned h = rng.below(10);
        if (!m[i].empty() && h < 3) { int k = m[i][rng.below(unsigned(m[i].size()))].first; if (k >= 0) return h == 0 ? k : (k & ~15) | int(rng.below(16)); }
        return int(rng.below(unsigned(ncls))) * 16 + int(rng.below(16));
    }
    int pick_v() { if (!AT::is_map) return 0; next_v = next_v % 9000 + 1; return next_v; }

    // ---- monitors ---------------------------------------------------------------------------------
    virtual void pre(const AOp&) {}
    virtual void mid(const AOp&) {}  // directly after the library call returned
    virtual void post(const AOp&) {}
    virtual void on_fault(const AOp&) {}
    bool strong(const AOp& o) const { return o.kind == A_RESERVE || o.kind == A_SHRINK; }
    bool strong_applies(const AOp& o) const { return strong(o) && (O::nothrow_move || O::copyable); }

    AOp op(AKind k, const char* name, int a, int b = -1, size_t pos = 0, size_t n = 0) { AOp o; o.kind = k; o.name = name; o.a = a; o.b = b; o.pos = pos; o.n = n; o.cat = IC_NCAT2; o.alias = o.hetero = o.existed = false; return o; }

    std::vector<KV> read_all(int i) { Quiet q; std::vector<KV> v; const C& k = *c[i]; for (CIt it = k.begin(); it != k.end(); ++it) { if (v.size() >= k.size()) fail("wrong-contents", "iteration runs past size %zu", size_t(k.size())); v.push_back(O::get(*it)); } return v; }

    template <class B> bool call(const AOp& o, B body) {
        op_begin(o.name, "s%d%s pos=%zu n=%zu sz=%zu cap=%zu mode=%d%s%s", o.a, o.b >= 0 ? (o.b == 0 ? ",s0" : o.b == 1 ? ",s1" : ",s2") : "", o.pos, o.n,
                 m[o.a].size(), c[o.a] ? cap_of(*c[o.a]) : 0, mode[o.a], o.alias ? " alias" : "", o.existed ? " existing" : "");
        if (c[o.a]) {
            uint64_t h = mix(mix(mix(uint64_t(o.kind) * 131 + o.name[0] * 7 + std::strlen(o.name), m[o.a].size()), cap_of(*c[o.a]) - m[o.a].size()), mix(o.pos, o.n));
            h = mix(h, o.cat * 8 + o.alias * 4 + o.existed * 2 + (mode[o.a] != 0));
            if (o.b >= 0 && c[o.b]) h = mix(h, mix(m[o.b].size(), cap_of(*c[o.b])));
            distinct(h);
        }
        pre(o);
        last_threw = false; flt().fired = false;
        if (fault_at > 0) arm(fault_at, fault_mask);
        in_lib() = true;
        try { body(); disarm(); in_lib() = false; mid(o); }
        catch (const Injected& e) { disarm(); in_lib() = false; if (e.token != 42) fail("exception-altered", "a different exception object arrived"); last_threw = true; }
        if (!last_threw && flt().fired) fail("exception-swallowed", "an exception thrown at '%s' did not reach the caller", flt().where);
        if (last_threw) { count("faults_fired"); count((std::string("fault@") + flt().where).c_str()); after_fault(o); on_fault(o); return false; }
        return true;
    }
    // after a fault: untouched containers unchanged; touched ones valid, then (if keys may be lost) cleared through the public interface
    void after_fault(const AOp& o) {
        std::string where = flt().where;
        for (int i = 0; i < NS; ++i) {
            if (!c[i]) { Quiet q; construct_default(i, aid[i], mode[i]); continue; }
            bool touched = (i == o.a) || (i == o.b);
            if (i == o.b && (o.kind == A_COPY_ASSIGN || o.kind == A_COPY_CTOR)) touched = false;
            if (o.kind == A_LOOKUP || o.kind == A_COMPARE) touched = false;
            if (!touched || strong_applies(o)) { verify(i, "fault-side-effect"); continue; }
            Quiet q;
            VF_CHECK(c[i]->size() <= cap_of(*c[i]), "fault-size", "size %zu > capacity %zu after an exception", size_t(c[i]->size()), cap_of(*c[i]));
            VF_CHECK(c[i]->empty() == (c[i]->size() == 0), "fault-size", "empty() disagrees with size() after an exception");
            std::vector<KV> v = read_all(i);
            VF_CHECK(v.size() == c[i]->size(), "fault-invalid", "iteration length %zu, size %zu after an exception", v.size(), size_t(c[i]->size()));
            if (AT::dyn) aid[i] = alloc_id_of(i);
            mode[i] = comp_mode(i);
            // comparator, key-equality, predicate and allocation failures lose no keys: the container still is a (multi)set/(multi)map
            bool cmpfault = where == "comparator" || where == "key-equality" || where == "predicate" || where == "allocate" || where.compare(0, 8, "iterator") == 0;
            bool bulk = o.kind == A_COPY_ASSIGN || o.kind == A_MOVE_ASSIGN || o.kind == A_SWAP || o.kind == A_MOVE_CTOR || o.kind == A_ILIST_ASSIGN;
            if (cmpfault && (!bulk || where == "allocate")) { m[i] = v; check_order(i, "fault-order"); }
            else { const VT* dp = nullptr; (void)dp; c[i]->clear(); m[i].clear(); VF_CHECK(c[i]->empty(), "fault-invalid", "clear() after an exception leaves elements"); count("cleared_after_fault"); }
        }
    }
    void check_order(int i, const char* kind) {
        const std::vector<KV>& v = m[i];
        if (AT::ordered) { for (size_t q = 1; q < v.size(); ++q) { int a = rk(i, v[q - 1].first), b = rk(i, v[q].first); VF_CHECK(AT::multi ? a <= b : a < b, kind, "keys %d, %d at %zu are out of order or duplicate (mode %d)", v[q - 1].first, v[q].first, q, mode[i]); } }
        else if (!AT::multi) for (size_t q = 0; q < v.size(); ++q) for (size_t p = 0; p < q; ++p) VF_CHECK(rk(i, v[p].first) != rk(i, v[q].first), kind, "duplicate keys %d, %d (mode %d)", v[p].first, v[q].first, mode[i]);
    }
    void check_live(const char* pfx) {
        if (!O::tracked) return;
        size_t n = 0; for (int i = 0; i < NS; ++i) if (c[i]) n += c[i]->size();
        VF_CHECK(elems().n == n * O::per_elem, n * O::per_elem < elems().n ? "element-leak" : "element-lost", "%zu live objects, containers report %zu elements (%safter %s)", elems().n, n, pfx, ctx().op);
        if (AT::dyn && mon_c((A*)nullptr)) VF_CHECK(constructed().n == n, "construct-mismatch", "%zu elements constructed through the allocator are live, containers report %zu", constructed().n, n);
    }
    // the container must now hold `want`; exact = in this very order (ordered containers)
    void settle(int i, const std::vector<KV>& want, bool exact, const char* what) {
        std::vector<KV> act = read_all(i);
        if (act.size() != want.size()) fail("wrong-contents", "%s: %zu elements, model %zu", what, act.size(), want.size());
        if (exact && AT::ordered) { for (size_t q = 0; q < act.size(); ++q) VF_CHECK(act[q] == want[q], "wrong-contents", "%s: element %zu is (%d,%d), model (%d,%d)", what, q, act[q].first, act[q].second, want[q].first, want[q].second); }
        else {
            std::vector<KV> a(act), b(want); std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end());
            for (size_t q = 0; q < a.size(); ++q) VF_CHECK(a[q] == b[q], "wrong-contents", "%s: contents differ from the model at (%d,%d) against (%d,%d)", what, a[q].first, a[q].second, b[q].first, b[q].second);
            if (AT::ordered && AT::multi) { // old equivalents keep their relative order
                size_t p = 0; for (auto& e : m[i]) { while (p < act.size() && act[p] != e) ++p; if (p == act.size()) fail("wrong-order", "%s: existing equivalent elements were reordered", what); ++p; }
            }
        }
        m[i] = act;
        check_order(i, "wrong-order");
    }
    size_t idx(int i, CIt it) { // position of a returned iterator
        std::ptrdiff_t d = it - c[i]->cbegin();
        if (d < 0 || size_t(d) > c[i]->size()) fail("wrong-return", "%s returned an iterator outside the container (%td of %zu)", ctx().op, d, size_t(c[i]->size()));
        VF_CHECK(size_t(c[i]->index_of(it)) == size_t(d), "wrong-return", "index_of is %zu, expected %td", size_t(c[i]->index_of(it)), d);
        return size_t(d);
    }
    void verify(int i, const char* kind = "wrong-contents") {
        Quiet q; const C& k = *c[i]; const std::vector<KV>& e = m[i];
        VF_CHECK(k.size() == e.size(), kind, "size %zu, model %zu", size_t(k.size()), e.size());
        VF_CHECK(k.empty() == e.empty(), "wrong-empty", "empty() is %d with size %zu", int(k.empty()), e.size());
        VF_CHECK(k.size() <= cap_of(k) && k.size() <= k.max_size(), "size-over-capacity", "size %zu capacity %zu", size_t(k.size()), cap_of(k));
        size_t j = 0;
        for (CIt it = k.begin(); it != k.end(); ++it, ++j) { if (j >= e.size()) fail(kind, "iteration runs past size %zu", e.size()); KV x = O::get(*it); VF_CHECK(x == e[j], kind, "element %zu is (%d,%d), model (%d,%d)", j, x.first, x.second, e[j].first, e[j].second); }
        VF_CHECK(j == e.size(), kind, "iteration yields %zu elements, size %zu", j, e.size());
        check_order(i, "wrong-order");
        VF_CHECK(comp_mode(i) == mode[i], "wrong-comparator", "comparator state is %d, model %d", comp_mode(i), mode[i]);
        if (!e.empty()) {
            size_t p = rng.below(unsigned(e.size()));
            VF_CHECK(O::get(*k.nth(p)) == e[p] && O::get(*c[i]->nth(p)) == e[p], "wrong-access", "nth(%zu)", p);
            VF_CHECK(O::get(*(k.data() + p)) == e[p], "wrong-access", "data()[%zu]", p);
            VF_CHECK(size_t(k.index_of(k.nth(p))) == p, "wrong-access", "index_of(nth(%zu))", p);
            if constexpr (AT::ordered) if (rng.chance(1, 4)) {
                size_t z = e.size();
                for (auto it = k.rbegin(); it != k.rend(); ++it) { if (z == 0) fail(kind, "reverse iteration too long"); --z; VF_CHECK(O::get(*it) == e[z], kind, "reverse iteration differs at %zu", z); }
                VF_CHECK(z == 0, kind, "reverse iteration too short");
            }
            if (rng.chance(1, 8) && e.size() > 1) { // value comparator object
                size_t p2 = rng.below(unsigned(e.size())); int a = rk(i, e[p].first), b = rk(i, e[p2].first);
                if constexpr (AT::ordered) VF_CHECK(k.value_comp()(*k.nth(p), *k.nth(p2)) == (a < b), "wrong-comparator", "value_comp() disagrees with the key order");
                else if constexpr (AT::is_map) VF_CHECK(k.value_eq()(*k.nth(p), *k.nth(p2)) == (a == b), "wrong-comparator", "value_eq() disagrees with the key equality");
            }
        }
        if (rng.chance(1, 2)) check_lookup(i, pick_k(i));
        if constexpr (AT::is_static) VF_CHECK(k.full() == (k.size() == N), "wrong-full", "full() is %d with size %zu", int(k.full()), size_t(k.size()));
        if constexpr (AT::dyn) { int id = alloc_id(k.get_allocator()); if (stateful()) VF_CHECK(id == aid[i], "wrong-allocator", "get_allocator() is allocator %d, the allocator model says %d", id, aid[i]); }
    }
    void verify_all() { for (int i = 0; i < NS; ++i) verify(i); check_live(""); }
    void done(const AOp& o) { post(o); verify(o.a); if (o.b >= 0) verify(o.b); check_live(""); }
    void recheck() { check_live("fault-"); }

    // every lookup member for one key of class K (or a foreign key), on const and non-const containers
    template <class CC, class X> void lookups(int i, CC& k, const X& x, int key, const char* how) {
        size_t cntm = m_count(i, key), f = m_find(i, key);
        size_t p = idx(i, k.find(x));
        if (cntm == 0) VF_CHECK(p == m[i].size(), "wrong-lookup", "%sfind of absent key %d returned position %zu", how, key, p);
        else VF_CHECK(p < m[i].size() && rk(i, m[i][p].first) == rk(i, key), "wrong-lookup", "%sfind(%d) returned position %zu of %zu, model %zu", how, key, p, m[i].size(), f);
        VF_CHECK(size_t(k.count(x)) == cntm, "wrong-lookup", "%scount(%d) is %zu, model %zu", how, key, size_t(k.count(x)), cntm);
        VF_CHECK(k.contains(x) == (cntm != 0), "wrong-lookup", "%scontains(%d) is %d", how, key, int(k.contains(x)));
        if constexpr (AT::ordered) {
            size_t lo = m_lower(i, rk(i, key)), hi = m_upper(i, rk(i, key));
            size_t a = idx(i, k.lower_bound(x)), b = idx(i, k.upper_bound(x));
            VF_CHECK(a == lo, "wrong-lookup", "%slower_bound(%d) at %zu, model %zu", how, key, a, lo);
            VF_CHECK(b == hi, "wrong-lookup", "%supper_bound(%d) at %zu, model %zu", how, key, b, hi);
            auto r = k.equal_range(x); a = idx(i, r.first); b = idx(i, r.second);
            VF_CHECK(a == lo && b == hi, "wrong-lookup", "%sequal_range(%d) is [%zu,%zu), model [%zu,%zu)", how, key, a, b, lo, hi);
        }
        if constexpr (!AT::ordered && AT::multi) { }
        if constexpr (AT::is_map && !AT::multi) {
            bool threw = false; int got = 0;
#ifdef SFL_NO_EXCEPTIONS
            if (!cntm) return; // at() would abort (C16 looks at that)
#endif
            try { auto& y = k.at(x); got = EV<V>::get(y); if (cntm) VF_CHECK(std::addressof(y) == std::addressof((k.begin() + std::ptrdiff_t(f))->second), "wrong-lookup", "at() refers to another element"); } catch (const std::out_of_range&) { threw = true; }
            VF_CHECK(threw == (cntm == 0), "wrong-lookup", "%sat(%d) %s with %zu matches", how, key, threw ? "threw" : "returned", cntm);
            if (!threw) VF_CHECK(got == m[i][f].second, "wrong-lookup", "%sat(%d) is %d, model %d", how, key, got, m[i][f].second);
        }
    }
    template <class CC> void group_lookups(int i, CC& k, int g) { // foreign key that may match several elements
        size_t n = 0, first = m[i].size(), lo = 0, hi = 0;
        for (size_t p = 0; p < m[i].size(); ++p) { int x = floor4(rk(i, m[i][p].first)); if (x == g) { ++n; if (first == m[i].size()) first = p; } if (x < g) lo = p + 1; if (x <= g) hi = p + 1; }
        Fg x(g);
        size_t p = idx(i, k.find(x));
        if (n == 0) VF_CHECK(p == m[i].size(), "wrong-lookup", "find(group %d) of nothing returned %zu", g, p);
        else VF_CHECK(p < m[i].size() && floor4(rk(i, m[i][p].first)) == g, "wrong-lookup", "find(group %d) returned %zu of %zu", g, p, m[i].size());
        VF_CHECK(k.contains(x) == (n != 0), "wrong-lookup", "contains(group %d)", g);
        if constexpr (AT::multi) VF_CHECK(size_t(k.count(x)) == n, "wrong-lookup", "count(group %d) is %zu, model %zu", g, size_t(k.count(x)), n);
        if constexpr (AT::ordered) {
            size_t a = idx(i, k.lower_bound(x)), b = idx(i, k.upper_bound(x));
            VF_CHECK(a == lo && b == hi, "wrong-lookup", "lower/upper_bound(group %d) [%zu,%zu), model [%zu,%zu)", g, a, b, lo, hi);
            auto r = k.equal_range(x); a = idx(i, r.first); b = idx(i, r.second);
            VF_CHECK(a == lo && b == hi, "wrong-lookup", "equal_range(group %d) [%zu,%zu), model [%zu,%zu)", g, a, b, lo, hi);
        }
    }
    void check_lookup(int i, int key) {
        C& k = *c[i]; const C& ck = k;
        { K x(EV<K>::make(key)); if (rng.chance(1, 2)) lookups(i, ck, x, key, "const "); else lookups(i, k, x, key, ""); }
        if constexpr (!TR && std::is_convertible<Fk, K>::value) { Fk x(key); if (rng.chance(1, 2)) lookups(i, ck, x, key, "const converting "); else lookups(i, k, x, key, "converting "); count("converting_lookups"); }
        if constexpr (TR) if (rng.chance(1, 2)) {
            count("hetero_lookups"); uint64_t before = cnt().ctor_total(); Fk x(key);
            if (rng.chance(1, 2)) lookups(i, ck, x, key, "const hetero "); else lookups(i, k, x, key, "hetero ");
            if (rng.chance(1, 2)) { int g = floor4(rk(i, key)); if (rng.chance(1, 2)) group_lookups(i, ck, g); else group_lookups(i, k, g); }
            VF_CHECK(cnt().ctor_total() == before, "hetero-constructs", "heterogeneous lookup constructed %zu objects", size_t(cnt().ctor_total() - before));
        }
    }

    // ---- steps --------------------------------------------------------------------------------------
    void step() {
        unsigned tot = w.insert1 + w.mapassign + w.insertn + w.erase + w.erasekey + w.erasebulk + w.lookup + w.clear + w.reserve + w.xfer + w.ctor + w.compare + w.write + w.self;
        unsigned r = rng.below(tot); int i = int(rng.below(NS));
        if (m[i].size() >= soft_max && rng.chance(3, 4)) { unsigned h = rng.below(8); if (h < 4) do_erase(i); else if (h < 6) do_erasekey(i); else if (h < 7) do_erasebulk(i); else do_ctor(i); return; }
#define VF_SEL(g) if (r < w.g) { do_##g(i); return; } r -= w.g;
        VF_SEL(insert1) VF_SEL(mapassign) VF_SEL(insertn) VF_SEL(erase) VF_SEL(erasekey) VF_SEL(erasebulk) VF_SEL(lookup) VF_SEL(clear) VF_SEL(reserve) VF_SEL(xfer) VF_SEL(ctor) VF_SEL(compare) VF_SEL(self) do_write(i);
#undef VF_SEL
    }
    CIt pick_hint(int i, int key, AOp& o) {
        size_t p; unsigned h = rng.below(6);
        if (AT::ordered && h < 2) p = m_lower(i, rk(i, key)); else if (AT::ordered && h == 2) p = m_upper(i, rk(i, key)); else if (h == 3) p = 0; else if (h == 4) p = m[i].size(); else p = rng.below(unsigned(m[i].size() + 1));
        o.pos = p; return c[i]->cbegin() + std::ptrdiff_t(p);
    }
    struct Snap { const void* data; size_t cap; Counters k; };
    Snap snap(int i) { Snap s; s.data = static_cast<const C&>(*c[i]).data(); s.cap = cap_of(*c[i]); s.k = cnt(); return s; }
    // an operation that found an equivalent key must not have touched the elements
    void check_noeffect(int i, const Snap& s, const char* name, bool temp_ok, unsigned assigns) {
        if (!(mon & M_NOEFFECT)) return;
        if (!temp_ok) {
            VF_CHECK(static_cast<const C&>(*c[i]).data() == s.data && cap_of(*c[i]) == s.cap, "no-effect-realloc", "%s of an existing key reallocated", name);
            VF_CHECK(cnt().ctor_total() == s.k.ctor_total(), "no-effect-construct", "%s of an existing key constructed %zu objects", name, size_t(cnt().ctor_total() - s.k.ctor_total()));
            VF_CHECK(cnt().cassign + cnt().massign == s.k.cassign + s.k.massign + assigns, "no-effect-assign", "%s of an existing key performed %zu assignments, expected %u", name, size_t(cnt().cassign + cnt().massign - s.k.cassign - s.k.massign), assigns);
        }
        count("no_effect_calls");
    }
    // the result of inserting (k,v): returned iterator, flag (-1: none)
    void inserted(const AOp& o, It ret, int flag, int k, int v, size_t f, bool existed) {
        int i = o.a;
        std::vector<KV> want = m[i]; size_t p = idx(i, ret);
        if (existed) {
            VF_CHECK(flag != 1, "wrong-return", "%s of an existing key reports an insertion", o.name);
            VF_CHECK(p < want.size() && p == f, "wrong-return", "%s of an existing key returned position %zu, the element is at %zu", o.name, p, f);
            settle(i, want, true, o.name);
            VF_CHECK(m[i] == want, "wrong-contents", "%s of an existing key changed the container", o.name);
        } else {
            VF_CHECK(flag != 0, "wrong-return", "%s of a new key reports no insertion", o.name);
            VF_CHECK(p <= want.size(), "wrong-return", "%s returned position %zu", o.name, p);
            want.insert(want.begin() + std::ptrdiff_t(p), KV(k, v));
            settle(i, want, true, o.name);
            VF_CHECK(p < m[i].size() && m[i][p] == KV(k, v), "wrong-return", "%s: the returned iterator does not refer to the new element", o.name);
        }
    }
    void do_insert1(int i) {
        if (!room(i)) { do_erase(i); return; }
        C& k = *c[i];
        unsigned how = rng.below(12); const bool wanthet = w.hetero_pct && rng.chance(w.hetero_pct, 100); if (wanthet) how = rng.chance(1, 2) ? 3 : 9;
        bool alias = !wanthet && !m[i].empty() && rng.chance(w.alias_pct, 100) && O::copyable;
        size_t ap = alias ? rng.below(unsigned(m[i].size())) : 0;
        int key = alias ? m[i][ap].first : pick_k(i), v = alias ? m[i][ap].second : pick_v();
        bool existed = !AT::multi && m_count(i, key) != 0; size_t f = m_find(i, key);
        AOp o = op(A_INSERT, "", i, -1, 0, 1); o.alias = alias; o.existed = existed;
        bool ok = false, argmoved_ok = true; int flag = -1; It ret = k.begin(); bool temp_ok = false;
        Snap s;
        {
            VT val(O::make(key, v)); const VT& cval = val;
            K kk(EV<K>::make(key)); V vv(EV<V>::make(v)); (void)vv;
            auto take = [&](auto r) { if constexpr (AT::multi) ret = r; else { ret = r.first; flag = r.second; } };
            auto own = [&]() -> const VT& { return *(static_cast<const C&>(k).begin() + std::ptrdiff_t(ap)); };
#define VF_RUN(NM, TMP, BODY) do { o.name = NM; temp_ok = TMP; s = snap(i); ok = call(o, [&] { BODY; }); } while (0)
            if (alias) {
                if constexpr (O::copyable) {
                    CIt h = pick_hint(i, key, o);
                    if (how < 4) VF_RUN("insert(own)", false, take(k.insert(own())));
                    else if (how < 6) VF_RUN("emplace(own)", true, take(k.emplace(own())));
                    else if (how < 10) VF_RUN("insert(hint,own)", false, ret = k.insert(h, own()));
                    else VF_RUN("emplace_hint(own)", true, ret = k.emplace_hint(h, own()));
                }
            }
            else if (how < 2 && O::copyable) { if constexpr (O::copyable) VF_RUN("insert(const&)", false, take(k.insert(cval))); }
            else if (how < 3) { argmoved_ok = !existed; VF_RUN("insert(&&)", false, take(k.insert(std::move(val)))); }
            else if (how < 4) {
                if constexpr (AT::is_map) {
                    if constexpr (std::is_constructible<VT, KV&&>::value) { std::pair<Fk, Fk> p{Fk(key), Fk(v)}; o.fwd = 1 + int(rng.below(2)); VF_RUN("insert(P&&)", true, if (o.fwd == 2) take(k.insert(std::move(p))); else take(k.insert(p))); }
                    else { argmoved_ok = !existed; VF_RUN("insert(&&)", false, take(k.insert(std::move(val)))); }
                } else if constexpr (TR && conv_key) { o.hetero = true; Fk x(key); o.fwd = 1 + int(rng.below(2)); if constexpr (!AT::multi) VF_RUN("insert(K&&)", false, if (o.fwd == 2) take(k.insert(std::move(x))); else take(k.insert(x))); else VF_RUN("emplace(K&&)", true, if (o.fwd == 2) take(k.emplace(std::move(x))); else take(k.emplace(x))); }
                else { argmoved_ok = !existed; VF_RUN("insert(&&)", false, take(k.insert(std::move(val)))); }
            }
            else if (how < 6) {
                if constexpr (AT::is_map) {
                    if (how == 4) VF_RUN("emplace(k,v)", true, take(k.emplace(std::move(kk), std::move(vv))));
                    else VF_RUN("emplace(piecewise)", true, take(k.emplace(std::piecewise_construct, std::forward_as_tuple(std::move(kk)), std::forward_as_tuple(std::move(vv)))));
                } else VF_RUN("emplace(k)", true, take(k.emplace(std::move(kk))));
            }
            else {
                CIt h = pick_hint(i, key, o); o.kind = A_HINT;
                if (how < 8 && O::copyable) { if constexpr (O::copyable) VF_RUN("insert(hint,const&)", false, ret = k.insert(h, cval)); }
                else if (how < 9) { argmoved_ok = !existed; VF_RUN("insert(hint,&&)", false, ret = k.insert(h, std::move(val))); }
                else if (how < 10) {
                    if constexpr (AT::is_map) {
                        if constexpr (std::is_constructible<VT, KV&&>::value) { std::pair<Fk, Fk> p{Fk(key), Fk(v)}; o.fwd = 1 + int(rng.below(2)); VF_RUN("insert(hint,P&&)", true, if (o.fwd == 2) ret = k.insert(h, std::move(p)); else ret = k.insert(h, p)); }
                        else { argmoved_ok = !existed; VF_RUN("insert(hint,&&)", false, ret = k.insert(h, std::move(val))); }
                    } else if constexpr (TR && conv_key && !AT::multi) { o.hetero = true; Fk x(key); o.fwd = 1 + int(rng.below(2)); VF_RUN("insert(hint,K&&)", false, if (o.fwd == 2) ret = k.insert(h, std::move(x)); else ret = k.insert(h, x)); }
                    else { argmoved_ok = !existed; VF_RUN("insert(hint,&&)", false, ret = k.insert(h, std::move(val))); }
                }
                else {
                    if constexpr (AT::is_map) {
                        if (how == 10) VF_RUN("emplace_hint(k,v)", true, ret = k.emplace_hint(h, std::move(kk), std::move(vv)));
                        else VF_RUN("emplace_hint(piecewise)", true, ret = k.emplace_hint(h, std::piecewise_construct, std::forward_as_tuple(std::move(kk)), std::forward_as_tuple(std::move(vv))));
                    } else VF_RUN("emplace_hint(k)", true, ret = k.emplace_hint(h, std::move(kk)));
                }
            }
            if (ok) {
                if (existed) check_noeffect(i, s, o.name, temp_ok, 0);
                inserted(o, ret, flag, key, v, f, existed);
                if ((mon & M_NOEFFECT) && !argmoved_ok) VF_CHECK(O::get(val) == KV(key, v), "argument-moved", "%s of an existing key moved from its argument", o.name);
                if (std::strstr(o.name, "const&")) VF_CHECK(O::get(val) == KV(key, v), "argument-changed", "%s changed its argument", o.name);
            }
        }
        if (last_threw) { recheck(); return; }
        done(o);
    }
    void do_mapassign(int i) {
        if constexpr (AT::is_map && !AT::multi) {
            if (!room(i)) { do_erase(i); return; }
            C& k = *c[i];
            bool alias = !m[i].empty() && rng.chance(w.alias_pct, 100) && O::copyable;
            size_t ap = alias ? rng.below(unsigned(m[i].size())) : 0, ap2 = alias ? rng.below(unsigned(m[i].size())) : 0;
            int key = alias && rng.chance(1, 2) ? m[i][ap].first : pick_k(i); bool akey = alias && key == m[i][ap].first;
            int v = alias ? m[i][ap2].second : pick_v();
            bool existed = m_count(i, key) != 0; size_t f = m_find(i, key);
            AOp o = op(A_ASSIGN1, "", i, -1, 0, 1); o.alias = alias; o.existed = existed;
            unsigned grp = rng.below(5), how = rng.below(3); // 0,1 insert_or_assign; 2,3 try_emplace; 4 operator[]
            if (how == 2 && !TR) how = rng.below(2);
            if (how == 2 && !conv_key) how = rng.below(2);
            if (how == 0 && !EV<K>::copyable) how = 1;
            bool hint = rng.chance(1, 2), ok = false; int flag = -1; It ret = k.begin(); V* ref = nullptr; Snap s; bool wasmoved_k = false, wasmoved_v = false;
            {
                K kk(EV<K>::make(key)); V vv(EV<V>::make(v)); const K& ck = kk; Fk fx(key);
                CIt h = pick_hint(i, key, o); if (!hint) o.pos = 0;
                auto take = [&](auto r) { ret = r.first; flag = r.second; };
                // arguments referring to the container's own elements
                auto okey = [&]() -> const K& { return akey ? static_cast<const C&>(k).nth(ap)->first : ck; };
                auto oval = [&]() -> const V& { return alias ? static_cast<const C&>(k).nth(ap2)->second : static_cast<const V&>(vv); };
#define VF_RUN2(NM, HNM, CALLK, ...) do { o.name = hint ? HNM : NM; s = snap(i); ok = call(o, [&] { if (hint) ret = k.CALLK(h, __VA_ARGS__); else take(k.CALLK(__VA_ARGS__)); }); } while (0)
                if (grp < 2) {
                    o.kind = A_ASSIGN1;
                    if (alias) { if constexpr (O::copyable) VF_RUN2("insert_or_assign(own)", "insert_or_assign(hint,own)", insert_or_assign, okey(), oval()); }
                    else if (how == 0) { if constexpr (EV<K>::copyable) { wasmoved_v = true; VF_RUN2("insert_or_assign(const&)", "insert_or_assign(hint,const&)", insert_or_assign, ck, std::move(vv)); } }
                    else if (how == 1) { wasmoved_k = wasmoved_v = true; VF_RUN2("insert_or_assign(&&)", "insert_or_assign(hint,&&)", insert_or_assign, std::move(kk), std::move(vv)); }
                    else { if constexpr (TR && conv_key) { o.hetero = true; wasmoved_v = true; o.fwd = 1 + int(rng.below(2)); if (o.fwd == 2) VF_RUN2("insert_or_assign(K&&)", "insert_or_assign(hint,K&&)", insert_or_assign, std::move(fx), std::move(vv)); else VF_RUN2("insert_or_assign(K&&)", "insert_or_assign(hint,K&&)", insert_or_assign, fx, std::move(vv)); } }
                } else if (grp < 4) {
                    o.kind = A_TRY;
                    if (alias) { if constexpr (O::copyable) VF_RUN2("try_emplace(own)", "try_emplace(hint,own)", try_emplace, okey(), oval()); }
                    else if (how == 0) { if constexpr (EV<K>::copyable) { wasmoved_v = true; VF_RUN2("try_emplace(const&)", "try_emplace(hint,const&)", try_emplace, ck, std::move(vv)); } }
                    else if (how == 1) { wasmoved_k = wasmoved_v = true; VF_RUN2("try_emplace(&&)", "try_emplace(hint,&&)", try_emplace, std::move(kk), std::move(vv)); }
                    else { if constexpr (TR && conv_key) { o.hetero = true; wasmoved_v = true; o.fwd = 1 + int(rng.below(2)); if (o.fwd == 2) VF_RUN2("try_emplace(K&&)", "try_emplace(hint,K&&)", try_emplace, std::move(fx), std::move(vv)); else VF_RUN2("try_emplace(K&&)", "try_emplace(hint,K&&)", try_emplace, fx, std::move(vv)); } }
                } else {
                    o.kind = A_SUBSCRIPT; v = existed ? m[i][f].second : 0;
                    s = snap(i);
                    if (alias) { if constexpr (EV<K>::copyable) { o.name = "operator[](own)"; s = snap(i); ok = call(o, [&] { ref = std::addressof(k[okey()]); }); } }
                    else if (how == 0) { if constexpr (EV<K>::copyable) { o.name = "operator[](const&)"; ok = call(o, [&] { ref = std::addressof(k[ck]); }); } }
                    else if (how == 1) { wasmoved_k = true; o.name = "operator[](&&)"; ok = call(o, [&] { ref = std::addressof(k[std::move(kk)]); }); }
                    else { if constexpr (TR && conv_key) { o.hetero = true; o.fwd = 1 + int(rng.below(2)); o.name = "operator[](K&&)"; ok = call(o, [&] { if (o.fwd == 2) ref = std::addressof(k[std::move(fx)]); else ref = std::addressof(k[fx]); }); } }
                }
                if (ok) {
                    if (existed) check_noeffect(i, s, o.name, false, o.kind == A_ASSIGN1 && EV<V>::tracked ? 1 : 0);
                    if (o.kind == A_SUBSCRIPT) { size_t p = 0; for (It it = k.begin(); it != k.end() && std::addressof(it->second) != ref; ++it) ++p; VF_CHECK(p < k.size(), "wrong-return", "%s returned a reference outside the container", o.name); ret = k.begin() + std::ptrdiff_t(p); }
                    if (existed && o.kind == A_ASSIGN1) m[i][f].second = v;
                    inserted(o, ret, flag, key, v, f, existed);
                    if (mon & M_NOEFFECT) {
                        if (wasmoved_k && existed) VF_CHECK(EV<K>::get(kk) == key, "argument-moved", "%s of an existing key moved from the key argument", o.name);
                        if (wasmoved_v && existed && o.kind == A_TRY) VF_CHECK(EV<V>::get(vv) == v, "argument-moved", "%s of an existing key moved from the mapped argument", o.name);
                    }
                }
            }
            if (last_threw) { recheck(); return; }
            done(o);
        } else do_insert1(i);
    }
    struct IlistN {
        template <class F> static void go(const std::vector<VT>& v, F f) {
            switch (v.size()) {
            case 0: f(std::initializer_list<VT>{}); break;
            case 1: f(std::initializer_list<VT>{v[0]}); break;
            case 2: f(std::initializer_list<VT>{v[0], v[1]}); break;
            case 3: f(std::initializer_list<VT>{v[0], v[1], v[2]}); break;
            case 4: f(std::initializer_list<VT>{v[0], v[1], v[2], v[3]}); break;
            default: f(std::initializer_list<VT>{v[0], v[1], v[2], v[3], v[4], v[5], v[6]}); break;
            }
        }
        static size_t fit(size_t n, size_t lim) { if (n >= 7) n = 7; else if (n > 4) n = 4; return (n > lim) ? (lim > 4 ? 4 : lim) : n; }
    };
    void mksrc(Source<VT>& s, int i, size_t n, std::vector<KV>& vals) {
        vals.clear(); s.v.reserve(n);
        bool sorted = rng.chance(1, 4), dense = rng.chance(1, 3);
        for (size_t j = 0; j < n; ++j) { int k = j && dense && rng.chance(1, 2) ? (vals.back().first & ~15) | int(rng.below(16)) : pick_k(i); vals.push_back(KV(k, pick_v())); }
        if (sorted) std::sort(vals.begin(), vals.end());
        for (size_t j = 0; j < n; ++j) s.v.push_back(O::make(vals[j].first, vals[j].second));
        s.reset();
    }
    // model of inserting vals one after another; returns the multiset wanted
    std::vector<KV> m_insert_seq(int i, const std::vector<KV>& old, const std::vector<KV>& vals) {
        std::vector<KV> r(old);
        for (auto& e : vals) {
            bool dup = false;
            if (!AT::multi) for (auto& x : r) if (rank_of(mode[i], x.first) == rank_of(mode[i], e.first)) dup = true;
            if (!dup) r.push_back(e);
        }
        if (AT::ordered) { int md = mode[i]; std::stable_sort(r.begin(), r.end(), [md](const KV& a, const KV& b) { return rank_of(md, a.first) < rank_of(md, b.first); }); }
        return r;
    }
    void check_src(Source<VT>& s, const std::vector<KV>& vals, unsigned cat, const AOp& o) {
        if (s.single_pass) {
            VF_CHECK(s.pos == s.v.size(), "range-not-consumed", "%s read %zu of %zu elements of a single-pass range", o.name, s.pos, s.v.size());
            for (size_t j = 0; j < s.v.size(); ++j) VF_CHECK(s.derefs[j] == 1, "range-deref-count", "%s dereferenced element %zu of a single-pass range %u times", o.name, j, s.derefs[j]);
        }
        for (size_t j = 0; j < s.v.size(); ++j) if (!cat_moves(cat)) VF_CHECK(O::get(s.v[j]) == vals[j], "range-source-changed", "%s changed element %zu of a range it had to copy", o.name, j);
    }
    void do_insertn(int i) {
        C& k = *c[i]; size_t lim = room(i), n = rng.below(unsigned(max_n + 1)); if (rng.chance(1, 10)) n = 0; if (n > lim) n = lim;
        std::vector<KV> vals; bool ok = false;
        if (rng.chance(1, 4) && O::copyable) {
            n = IlistN::fit(n, lim);
            AOp o = op(A_INSERT_RANGE, "insert(ilist)", i, -1, 0, n); o.cat = IC_ILIST;
            if constexpr (O::copyable) { Source<VT> s; mksrc(s, i, n, vals); IlistN::go(s.v, [&](std::initializer_list<VT> il) { ok = call(o, [&] { k.insert(il); }); }); if (ok) settle(i, m_insert_seq(i, m[i], vals), !AT::multi, o.name); }
            if (last_threw) { recheck(); return; }
            done(o); return;
        }
        AOp o = op(A_INSERT_RANGE, "insert(range)", i, -1, 0, n);
        {
            Source<VT> s; mksrc(s, i, n, vals);
            auto f = [&](auto a, auto b) { ok = call(o, [&] { k.insert(a, b); }); };
            o.cat = RangeCall<VT, decltype(f), O::copyable>::pick(rng);
            RangeCall<VT, decltype(f), O::copyable>::go(s, o.cat, f);
            if (ok) { settle(i, m_insert_seq(i, m[i], vals), !AT::multi, o.name); check_src(s, vals, o.cat, o); }
        }
        if (last_threw) { recheck(); return; }
        done(o);
    }
    void do_erase(int i) {
        if (m[i].empty()) { if (room(i)) do_insert1(i); return; }
        C& k = *c[i]; It ret = k.begin(); size_t sz = m[i].size();
        if (rng.chance(2, 3)) {
            size_t pos = rng.below(unsigned(sz)); if (rng.chance(1, 6)) pos = 0; else if (rng.chance(1, 6)) pos = sz - 1;
            AOp o = op(A_ERASE_POS, "erase(pos)", i, -1, pos, 1); bool nc = rng.chance(1, 2);
            if (!call(o, [&] { if (nc) ret = k.erase(k.begin() + std::ptrdiff_t(pos)); else ret = k.erase(k.cbegin() + std::ptrdiff_t(pos)); })) { recheck(); return; }
            std::vector<KV> want = m[i]; want.erase(want.begin() + std::ptrdiff_t(pos)); if (AT::multi && AT::ordered) m[i] = want;
            settle(i, want, true, o.name); VF_CHECK(idx(i, ret) == pos, "wrong-return", "erase(pos %zu) returned %zu", pos, idx(i, ret));
            done(o);
        } else {
            size_t pos = rng.below(unsigned(sz + 1)), n = rng.below(unsigned(sz - pos + 1)); if (rng.chance(1, 8)) n = 0; if (rng.chance(1, 8)) n = sz - pos;
            AOp o = op(A_ERASE_RANGE, "erase(range)", i, -1, pos, n);
            if (!call(o, [&] { ret = k.erase(k.cbegin() + std::ptrdiff_t(pos), k.cbegin() + std::ptrdiff_t(pos + n)); })) { recheck(); return; }
            std::vector<KV> want = m[i]; want.erase(want.begin() + std::ptrdiff_t(pos), want.begin() + std::ptrdiff_t(pos + n)); if (AT::multi && AT::ordered) m[i] = want;
            settle(i, want, true, o.name); VF_CHECK(idx(i, ret) == pos, "wrong-return", "erase(range at %zu) returned %zu", pos, idx(i, ret));
            done(o);
        }
    }
    void do_erasekey(int i) {
        C& k = *c[i]; unsigned how = rng.below(TR ? 5 : 3);
        bool alias = !m[i].empty() && how == 0 && rng.chance(1, 2);
        size_t ap = alias ? rng.below(unsigned(m[i].size())) : 0; int key = alias ? m[i][ap].first : pick_k(i);
        AOp o = op(A_ERASE_KEY, alias ? "erase(own key)" : how < 3 ? "erase(key)" : "erase(K&&)", i, -1, ap, 0); o.alias = alias; o.hetero = how >= 3;
        bool grp = how == 4 && AT::multi; size_t r = 0; bool ok = false; Snap s; int g = floor4(rk(i, key));
        std::vector<KV> want; for (auto& e : m[i]) if (grp ? floor4(rk(i, e.first)) != g : rk(i, e.first) != rk(i, key)) want.push_back(e);
        size_t n = m[i].size() - want.size(); o.n = n; o.existed = n == 0;
        {
            K kk(EV<K>::make(key)); s = snap(i);
            if (alias) ok = call(o, [&] { r = k.erase(O::key(*(static_cast<const C&>(k).begin() + std::ptrdiff_t(ap)))); });
            else if (how < 3) ok = call(o, [&] { r = k.erase(static_cast<const K&>(kk)); });
            else if constexpr (TR) { if (grp) ok = call(o, [&] { r = k.erase(Fg(g)); }); else ok = call(o, [&] { r = k.erase(Fk(key)); }); }
            if (ok) {
                if (n == 0) check_noeffect(i, s, o.name, false, 0);
                if (AT::multi && AT::ordered) m[i] = want;
                settle(i, want, true, o.name); VF_CHECK(r == n, "wrong-return", "%s(%d) returned %zu, erased %zu", o.name, key, r, n);
            }
        }
        if (last_threw) { recheck(); return; }
        done(o);
    }
    void do_erasebulk(int i) {
        C& k = *c[i]; int mod = 2 + int(rng.below(3)), rem = int(rng.below(unsigned(mod)));
        auto sel = [&](const KV& e) { return (e.first / 16 + e.first) % mod == rem; };
        std::vector<KV> want, gone; for (auto& e : m[i]) (sel(e) ? gone : want).push_back(e);
        if (rng.chance(1, 2)) {
            AOp o = op(A_ERASE_IF, "erase_if(c,pred)", i, -1, 0, gone.size()); size_t r = 0;
            if (!call(o, [&] { r = erase_if(k, [&](const VT& x) { fault_point(FK_CMP, "predicate"); ++cnt().pred; return sel(O::get(x)); }); })) { recheck(); return; }
            if (AT::multi && AT::ordered) m[i] = want;
            settle(i, want, true, o.name); VF_CHECK(r == gone.size(), "wrong-return", "erase_if returned %zu, removed %zu", r, gone.size());
            done(o);
        } else { // erase while iterating: every element visited exactly once
            AOp o = op(A_ERASE_LOOP, "erase-loop", i, -1, 0, gone.size()); std::vector<KV> seen;
            if (!call(o, [&] { for (It it = k.begin(); it != k.end();) { KV e = O::get(*it); seen.push_back(e); if (seen.size() > 4096) fail("erase-loop", "iteration while erasing does not end"); if (sel(e)) it = k.erase(it); else ++it; } })) { recheck(); return; }
            std::vector<KV> a(seen), b(m[i]); std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end());
            VF_CHECK(a == b, "erase-loop", "iterating while erasing visited %zu elements, %zu exist, or visited some twice", a.size(), b.size());
            if (AT::multi && AT::ordered) m[i] = want;
            settle(i, want, true, o.name); done(o);
        }
    }
    void do_lookup(int i) {
        int key = pick_k(i); C& k = *c[i];
        AOp o = op(A_LOOKUP, "lookup", i, -1, m_find(i, key), m_count(i, key));
        {
            K x(EV<K>::make(key)); unsigned how = rng.below(8); size_t r = 0; const C& ck = k;
            if (fault_at > 0 || how == 7) { // one member under possible faults
                call(o, [&] { switch (how) { case 0: r = size_t(k.find(x) - k.begin()); break; case 1: r = size_t(ck.find(x) - ck.begin()); break; case 2: r = ck.count(x); break; case 3: r = ck.contains(x); break;
                    default: if constexpr (AT::ordered) { if (how == 4) r = size_t(ck.lower_bound(x) - ck.begin()); else if (how == 5) r = size_t(k.upper_bound(x) - k.begin()); else r = size_t(ck.equal_range(x).first - ck.begin()); } else r = ck.count(x); } });
            } else { call(o, [&] { check_lookup(i, key); }); }
        }
        if (last_threw) { recheck(); return; }
        done(o);
    }
    void do_clear(int i) { AOp o = op(A_CLEAR, "clear", i, -1, 0, m[i].size()); C& k = *c[i]; if (call(o, [&] { k.clear(); })) m[i].clear(); done(o); }
    void do_reserve(int i) {
        if constexpr (AT::dyn) {
            C& k = *c[i]; unsigned kk = rng.below(6);
            if (rng.chance(1, 3)) { AOp o = op(A_SHRINK, "shrink_to_fit", i); if (!call(o, [&] { k.shrink_to_fit(); })) { recheck(); return; } done(o); return; }
            size_t n = kk == 0 ? k.capacity() + 1 : kk == 1 ? size_t(k.capacity()) : kk == 2 ? m[i].size() : rng.below(unsigned(soft_max + max_n * 2));
            if (n > soft_max + 2 * max_n) n = soft_max + 2 * max_n;
            AOp o = op(A_RESERVE, "reserve", i, -1, 0, n);
            if (!call(o, [&] { k.reserve(n); })) { recheck(); return; }
            VF_CHECK(k.capacity() >= n, "wrong-capacity", "capacity %zu after reserve(%zu)", size_t(k.capacity()), n);
            done(o);
        } else do_lookup(i);
    }
    int other(int i) { return (i + 1 + int(rng.below(NS - 1))) % NS; }
    void moved_from(int j) {
        VF_CHECK(c[j]->size() <= cap_of(*c[j]), "moved-from-invalid", "moved-from container: size %zu capacity %zu", size_t(c[j]->size()), cap_of(*c[j]));
        VF_CHECK(c[j]->empty() == (c[j]->size() == 0), "moved-from-invalid", "moved-from container: empty() disagrees with size()");
        m[j] = read_all(j); if (AT::dyn) aid[j] = alloc_id_of(j); mode[j] = comp_mode(j);
        // moved-from keys have no meaning: the container is cleared before it is used again
        for (auto& e : m[j]) if (e.first == MOVED) { Quiet q; c[j]->clear(); m[j].clear(); VF_CHECK(c[j]->empty(), "moved-from-invalid", "clear() of a moved-from container leaves elements"); break; }
    }
    void do_xfer(int i) {
        int j = other(i); C& k = *c[i]; C& s = *c[j]; unsigned how = rng.below(O::copyable ? 7 : 4);
        if (how < 2) {
            if (stateful() && AT::dyn && aid[i] != aid[j] && !(af() & AP_POCS)) { do_lookup(i); return; }
            AOp o = op(A_SWAP, how ? "swap(a,b)" : "a.swap(b)", i, j);
            if (!call(o, [&] { if (how) { using std::swap; swap(k, s); } else k.swap(s); })) { recheck(); return; }
            m[i].swap(m[j]); std::swap(mode[i], mode[j]); if (AT::dyn && (af() & AP_POCS)) std::swap(aid[i], aid[j]);
            std::vector<KV> a = m[i], b = m[j]; settle(i, a, true, o.name); settle(j, b, true, o.name);
            done(o);
        } else if (how < 4) {
            AOp o = op(A_MOVE_ASSIGN, "move-assign", i, j);
            if (!call(o, [&] { C& r = (k = std::move(s)); if (&r != &k) fail("wrong-return", "operator= does not return *this"); })) { recheck(); return; }
            mode[i] = mode[j]; if (af() & AP_POCMA) aid[i] = aid[j];
            std::vector<KV> want = m[j]; m[i] = want; settle(i, want, true, o.name); moved_from(j); done(o);
        } else if (how < 6) {
            AOp o = op(A_COPY_ASSIGN, "copy-assign", i, j);
            if constexpr (O::copyable) if (!call(o, [&] { C& r = (k = static_cast<const C&>(s)); if (&r != &k) fail("wrong-return", "operator= does not return *this"); })) { recheck(); return; }
            mode[i] = mode[j]; if (af() & AP_POCCA) aid[i] = aid[j];
            std::vector<KV> want = m[j]; m[i] = want; settle(i, want, true, o.name); done(o);
        } else {
            size_t lim = AT::is_static ? N : 100, n = IlistN::fit(rng.below(unsigned(max_n + 1)), lim); bool ok = false; std::vector<KV> vals;
            AOp o = op(A_ILIST_ASSIGN, "operator=(ilist)", i, -1, 0, n); o.cat = IC_ILIST;
            if constexpr (O::copyable) { Source<VT> src; mksrc(src, i, n, vals); IlistN::go(src.v, [&](std::initializer_list<VT> il) { ok = call(o, [&] { C& r = (k = il); if (&r != &k) fail("wrong-return", "operator= does not return *this"); }); }); }
            if (ok) { m[i].clear(); settle(i, m_insert_seq(i, m[i], vals), !AT::multi, o.name); }
            if (last_threw) { recheck(); return; }
            done(o);
        }
    }
    template <class B> bool construct(AOp& o, B body) { int i = o.a; c[i]->~C(); c[i] = nullptr; m[i].clear(); scrub(mem[i], sizeof(C), 0xC3); return call(o, body); }
    void do_ctor(int i) {
        int j = other(i), id = 1 + int(rng.below(unsigned(nids))), md = int(rng.below(4)); void* p = mem[i];
        bool wa = AT::dyn && rng.chance(1, 2), wc = rng.chance(1, 2); C*& k = c[i];
        size_t n = rng.below(unsigned(((AT::is_static && N < max_n) ? N : max_n) + 1));
        unsigned how = rng.below(10);
        int nid = wa ? id : default_alloc_id(), nmd = wc ? md : default_mode();
        if (how < 2) {
            AOp o = op(A_CTOR, wc ? (wa ? "ctor(comp,alloc)" : "ctor(comp)") : (wa ? "ctor(alloc)" : "ctor()"), i); aid[i] = nid; mode[i] = nmd;
            if (!construct(o, [&] { if constexpr (AT::dyn) { if (wa) { if (wc) k = ::new (p) C(Cm(md), mkalloc(id)); else k = ::new (p) C(mkalloc(id)); return; } } if (wc) k = ::new (p) C(Cm(md)); else k = ::new (p) C(); })) { recheck(); return; }
            done(o); return;
        }
        if (how < 6) {
            bool il = how == 5 && O::copyable; if (il) n = IlistN::fit(n, AT::is_static ? N : 100);
            AOp o = op(A_CTOR, il ? (wc ? (wa ? "ctor(ilist,comp,alloc)" : "ctor(ilist,comp)") : (wa ? "ctor(ilist,alloc)" : "ctor(ilist)"))
                                  : (wc ? (wa ? "ctor(range,comp,alloc)" : "ctor(range,comp)") : (wa ? "ctor(range,alloc)" : "ctor(range)")), i, -1, 0, n);
            bool ok = false;
            {
                std::vector<KV> vals; Source<VT> s; mksrc(s, i, n, vals); aid[i] = nid; mode[i] = nmd;
                if (il) { o.cat = IC_ILIST; if constexpr (O::copyable) IlistN::go(s.v, [&](std::initializer_list<VT> l) { ok = construct(o, [&] {
                    if constexpr (AT::dyn) { if (wa) { if (wc) k = ::new (p) C(l, Cm(md), mkalloc(id)); else k = ::new (p) C(l, mkalloc(id)); return; } }
                    if (wc) k = ::new (p) C(l, Cm(md)); else k = ::new (p) C(l); }); }); }
                else {
                    auto f = [&](auto a, auto b) { ok = construct(o, [&] {
                        if constexpr (AT::dyn) { if (wa) { if (wc) k = ::new (p) C(a, b, Cm(md), mkalloc(id)); else k = ::new (p) C(a, b, mkalloc(id)); return; } }
                        if (wc) k = ::new (p) C(a, b, Cm(md)); else k = ::new (p) C(a, b); }); };
                    o.cat = RangeCall<VT, decltype(f), O::copyable>::pick(rng);
                    RangeCall<VT, decltype(f), O::copyable>::go(s, o.cat, f);
                }
                if (ok) { m[i].clear(); settle(i, m_insert_seq(i, m[i], vals), !AT::multi, o.name); if (!il) check_src(s, vals, o.cat, o); }
            }
            if (last_threw) { recheck(); return; }
            done(o); return;
        }
        C& s = *c[j];
        if (how < 8 && O::copyable) {
            AOp o = op(A_COPY_CTOR, wa ? "copy-ctor(alloc)" : "copy-ctor", i, j); aid[i] = wa ? id : (af() & AP_SOCCC) ? aid[j] + 1000 : aid[j]; mode[i] = mode[j];
            if constexpr (O::copyable) if (!construct(o, [&] { if constexpr (AT::dyn) { if (wa) { k = ::new (p) C(static_cast<const C&>(s), mkalloc(id)); return; } } k = ::new (p) C(static_cast<const C&>(s)); })) { recheck(); return; }
            std::vector<KV> want = m[j]; m[i] = want; settle(i, want, true, o.name); done(o); return;
        }
        AOp o = op(A_MOVE_CTOR, wa ? "move-ctor(alloc)" : "move-ctor", i, j); aid[i] = wa ? id : aid[j]; mode[i] = mode[j];
        if (!construct(o, [&] { if constexpr (AT::dyn) { if (wa) { k = ::new (p) C(std::move(s), mkalloc(id)); return; } } k = ::new (p) C(std::move(s)); })) { recheck(); return; }
        std::vector<KV> want = m[j]; m[i] = want; settle(i, want, true, o.name); moved_from(j); done(o);
    }
    void do_self(int i) {
        C& k = *c[i]; unsigned how = rng.below(O::copyable ? 3 : 2);
        AOp o = op(how < 2 ? A_SELF_SWAP : A_SELF_COPY, how == 0 ? "a.swap(a)" : how == 1 ? "swap(a,a)" : "copy-assign(self)", i);
        if (how < 2) { if (!call(o, [&] { if (how) { using std::swap; swap(k, k); } else k.swap(k); })) { recheck(); return; } }
        else { if constexpr (O::copyable) if (!call(o, [&] { C& r = (k = static_cast<const C&>(k)); if (&r != &k) fail("wrong-return", "operator= does not return *this"); })) { recheck(); return; } }
        std::vector<KV> want = m[i]; settle(i, want, true, o.name);
        done(o);
    }
    // make slot j hold (nearly) the same elements as slot i under the same comparator, through another history
    void make_similar(int i, int j) {
        if constexpr (O::copyable) {
            std::vector<KV> want = m[i];
            for (size_t q = want.size(); q > 1; --q) std::swap(want[q - 1], want[rng.below(unsigned(q))]);
            unsigned kk = rng.below(4);
            if (kk == 0 && !want.empty()) want.pop_back();
            if (kk == 1 && !want.empty() && AT::is_map) want[0].second = pick_v();
            if (kk == 2 && want.size() < N && !want.empty()) want.push_back(KV(pick_k(i), pick_v()));
            AOp o = op(A_CTOR, AT::dyn ? "ctor(range,comp,alloc)" : "ctor(range,comp)", j, -1, 0, want.size()); int id = 1 + int(rng.below(unsigned(nids))), md = mode[i]; void* p = mem[j]; C*& k = c[j]; bool ok = false;
            aid[j] = id; mode[j] = md;
            { std::vector<VT> src; src.reserve(want.size()); for (auto& e : want) src.push_back(O::make(e.first, e.second));
              ok = construct(o, [&] { if constexpr (AT::dyn) k = ::new (p) C(src.begin(), src.end(), Cm(md), mkalloc(id)); else k = ::new (p) C(src.begin(), src.end(), Cm(md)); });
              if (ok) { m[j].clear(); settle(j, m_insert_seq(j, m[j], want), !AT::multi, o.name); } }
            if (last_threw) { recheck(); return; }
            done(o);
        } else { (void)i; (void)j; }
    }
    void do_compare(int i) {
        int j = other(i);
        if (w.compare > 10 && rng.chance(2, 3)) make_similar(i, j);
        const C& a = *c[i]; const C& b = *c[j];
        AOp o = op(A_COMPARE, "compare", i, j); bool eq = false, ne = false, lt = false, gt = false, le = false, ge = false;
        if (!call(o, [&] { eq = a == b; ne = a != b; if constexpr (AT::ordered) { lt = a < b; gt = a > b; le = a <= b; ge = a >= b; } })) { recheck(); return; }
        std::vector<KV> x = m[i], y = m[j]; if (!AT::ordered) { std::sort(x.begin(), x.end()); std::sort(y.begin(), y.end()); }
        VF_CHECK(eq == (x == y) && ne == !eq, "wrong-compare", "== is %d, != is %d, model %d", int(eq), int(ne), int(x == y));
        if (AT::ordered) VF_CHECK(lt == (x < y) && gt == (y < x) && le == !gt && ge == !lt, "wrong-compare", "< %d > %d <= %d >= %d, model < %d > %d", int(lt), int(gt), int(le), int(ge), int(x < y), int(y < x));
        count(eq ? "compared_equal" : !AT::ordered ? "compared_unequal" : lt ? "compared_less" : "compared_greater");
        done(o);
    }
    void do_write(int i) {
        if constexpr (AT::is_map) {
            if (m[i].empty()) { if (room(i)) do_insert1(i); return; }
            C& k = *c[i]; size_t p = rng.below(unsigned(m[i].size())); int v = pick_v(); unsigned how = rng.below(3);
            AOp o = op(A_WRITE, "write-mapped", i, -1, p, 1); bool ok;
            { V vv(EV<V>::make(v)); ok = call(o, [&] { Quiet q; if (how == 0) (k.begin() + std::ptrdiff_t(p))->second = std::move(vv); else if (how == 1) k.nth(p)->second = std::move(vv); else (k.data() + p)->second = std::move(vv); }); }
            if (ok) m[i][p].second = v;
            done(o);
        } else do_lookup(i);
    }
};

} // namespace vf
#endif
