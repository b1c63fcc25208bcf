// Random-history driver for sequence containers against an abstract sequence, with hooks for monitors.
#ifndef VF_SEQ_HPP
#define VF_SEQ_HPP
#include "alloc.hpp"
#include "seqtraits.hpp"
#include <algorithm>
#include <initializer_list>

namespace vf {

enum Kind { K_PUSH_BACK, K_PUSH_FRONT, K_INSERT1, K_INSERTN, K_ERASE1, K_ERASER, K_POPB, K_POPF, K_RESIZE, K_RESIZE_F,
            K_CLEAR, K_ASSIGN, K_RESERVE, K_RESERVE_F, K_RESERVE_B, K_SHRINK, K_COPY_ASSIGN, K_MOVE_ASSIGN, K_SWAP,
            K_CTOR, K_COPY_CTOR, K_MOVE_CTOR, K_WRITE, K_ERASE_VAL, K_SELF_COPY, K_SELF_SWAP, K_COMPARE, K_NKIND };

struct Op {
    Kind kind; const char* name; int a, b;   // slots (b = -1 if none)
    size_t pos, n;                            // position; elements added or removed
    unsigned cat; bool alias; bool movesrc; int fwd = 0;
};

#ifdef VF_LAYOUTS
static const bool LAYOUTS = true;   // histories made of exact layouts (elements, spare capacity at both ends) and one insertion each
#else
static const bool LAYOUTS = false;
#endif
struct Weights { // relative weights of the operation groups
    unsigned push, insert1, insertn, erase, pop, resize, clear, assign, reserve, xfer, ctor, write, erase_val, slack, self, compare, alias_pct, grow_bias;
    Weights() : push(20), insert1(18), insertn(14), erase(12), pop(8), resize(6), clear(2), assign(6), reserve(8), xfer(8), ctor(6), write(3), erase_val(3), slack(CT::reserve_fb ? 3 : 0), self(0), compare(0), alias_pct(15), grow_bias(0) {}
};

template <class C, class T> struct AllocOps { // containers with allocators
    template <class... X> static C* make(void* m, const typename C::allocator_type& a, X&&... x) { return ::new (m) C(std::forward<X>(x)..., a); }
};

template <class T, class A>
struct SeqWorld {
    using C = Cont<T, A>;
    using E = EV<T>;
    static const int NS = 3;
    C* c[NS]; void* mem[NS];
    std::vector<int> m[NS];
    int aid[NS];                 // model allocator ids
    Rng rng;
    Weights w;
    int next_val; size_t soft_max; size_t max_n;
    long fault_at;               // arm the next library call at this throw point (0: off)
    unsigned fault_mask;
    bool fault_enabled;          // faults may fire in this run (a fired fault ends the designated op)
    bool last_threw;
    int nids;                    // allocator ids in use: 1..nids
    bool allow_ops_beyond_inline;
    static const size_t NONE = size_t(-1);
    size_t force_n = NONE, force_pos = NONE;   // the next insertion's count and position, set together with a layout
    size_t hard_max;             // never exceed this size (0: none)

    explicit SeqWorld(uint64_t seed) : rng(seed), next_val(1), soft_max(CT::is_static ? CT::N : 40), max_n(9), fault_at(0), fault_mask(15), fault_enabled(false), last_threw(false), nids(2), allow_ops_beyond_inline(true), hard_max(CT::is_static ? CT::N : 0) {
        for (int i = 0; i < NS; ++i) {
            mem[i] = raw_alloc();
            aid[i] = 1;
            c[i] = nullptr;
        }
        for (int i = 0; i < NS; ++i) { Quiet q; construct_default(i, 1 + int(rng.below(unsigned(nids)))); }
    }
    static void* raw_alloc() { void* p; size_t al = alignof(C) < sizeof(void*) ? sizeof(void*) : alignof(C); if (posix_memalign(&p, al, sizeof(C))) _exit(4); scrub(p, sizeof(C), 0xC3); arenas().push_back(Arena{(const char*)p, sizeof(C)}); return p; }
    virtual ~SeqWorld() {}
    // destroy everything and check that nothing survives
    void finish_world() {
        op_begin("destroy");
        for (int i = 0; i < NS; ++i) if (c[i]) { c[i]->~C(); c[i] = nullptr; }
        for (int i = 0; i < NS; ++i) { mem_unpoison(mem[i], sizeof(C)); std::free(mem[i]); mem[i] = nullptr; }
        if (E::tracked) VF_CHECK(elems().n == 0, "element-leak", "%zu elements alive after all containers were destroyed", elems().n);
        arenas().clear(); VF_CHECK(blocks().live() == 0, "memory-leak", "%zu blocks allocated after all containers were destroyed", size_t(blocks().live()));
        VF_CHECK(constructed().n == 0, "destroy-missing", "%zu elements never destroyed through the allocator", constructed().n);
    }

    // ---- helpers -----------------------------------------------------------------------
    int fresh(int slot) { if (!m[slot].empty() && rng.chance(1, 4)) return m[slot][rng.below(unsigned(m[slot].size()))]; return next_val = next_val % 9000 + 1; }
    A mkalloc(int id) { return mk_alloc(id, (A*)nullptr); }
    template <class U, unsigned P> static MonAlloc<U, P> mk_alloc(int id, MonAlloc<U, P>*) { return MonAlloc<U, P>(id); }
    template <class X> static X mk_alloc(int, X*) { return X(); }
    template <class U, unsigned P> static int alloc_id(const MonAlloc<U, P>& a) { return a.id; }
    template <class X> static int alloc_id(const X&) { return 1; }
    template <class U, unsigned P> static unsigned aflags(MonAlloc<U, P>*) { return P; }
    template <class X> static unsigned aflags(X*) { return AP_POCMA | AP_AEQ; }
    static unsigned af() { return aflags((A*)nullptr); }
    static bool stateful(unsigned f) { return !(f & AP_AEQ); }

    void construct_default(int i, int id) {
        if constexpr (CT::dyn) c[i] = ::new (mem[i]) C(mkalloc(id)); else c[i] = ::new (mem[i]) C();
        aid[i] = id; m[i].clear();
    }
    size_t room(int i) const { // how many elements may still be added
        size_t lim = hard_max ? hard_max : soft_max + max_n;
        return m[i].size() >= lim ? 0 : lim - m[i].size();
    }

    // ---- monitors ------------------------------------------------------------------------
    virtual void pre(const Op&) {}
    virtual void mid(const Op&) {}   // directly after the library call returned
    virtual void post(const Op&) {}
    virtual void on_fault(const Op&) {}
    virtual bool strong(const Op& o) { return o.kind == K_RESERVE || o.kind == K_RESERVE_F || o.kind == K_RESERVE_B || o.kind == K_SHRINK; }

    std::vector<int> read_all(int i) {
        Quiet q; std::vector<int> v;
        for (auto it = c[i]->begin(); it != c[i]->end(); ++it) v.push_back(E::get(*it));
        return v;
    }

    // run one library call; true if it returned normally
    template <class B> bool call(const Op& o, B body) {
        op_begin(o.name, "s%d%s pos=%zu n=%zu sz=%zu cap=%zu%s %s", o.a, o.b >= 0 ? (o.b == 0 ? ",s0" : o.b == 1 ? ",s1" : ",s2") : "", o.pos, o.n,
                 m[o.a].size(), c[o.a] ? size_t(c[o.a]->capacity()) : 0, o.alias ? " alias" : "", o.cat < IC_NCAT2 && o.kind != K_PUSH_BACK ? cat_name(o.cat) : "");
        if (c[o.a]) {
            uint64_t h = mix(mix(mix(uint64_t(o.kind) * 131 + o.name[0] * 7 + std::strlen(o.name), m[o.a].size()), c[o.a]->capacity() - m[o.a].size()), mix(o.pos, o.n));
            h = mix(h, o.cat * 2 + o.alias); h = mix(h, front_gap(o.a));
            if (o.b >= 0 && c[o.b]) h = mix(h, mix(m[o.b].size(), c[o.b]->capacity()));
            distinct(h);
        }
        pre(o);
        last_threw = false; flt().fired = false;
        if (fault_at > 0) arm(fault_at, fault_mask);
        in_lib() = true;
        try { body(); disarm(); in_lib() = false; mid(o); }
        catch (const Injected& e) {
            disarm(); in_lib() = false;
            if (e.token != 42) fail("exception-altered", "a different exception object arrived");
            last_threw = true;
        }
        if (!last_threw && flt().fired) fail("exception-swallowed", "an exception thrown at '%s' did not reach the caller", flt().where);
        if (last_threw) { count("faults_fired"); count((std::string("fault@") + flt().where).c_str()); after_fault(o); on_fault(o); return false; }
        return true;
    }
    size_t front_gap(int i) {
        if constexpr (CT::front) return c[i]->available_front();
        else return 0;
    }
    // after a fault: untouched containers unchanged; touched ones valid; model re-synchronised
    void after_fault(const Op& o) {
        for (int i = 0; i < NS; ++i) {
            if (!c[i]) { Quiet q; construct_default(i, aid[i]); continue; }
            bool touched = (i == o.a) || (i == o.b);
            if (i == o.b && (o.kind == K_COPY_ASSIGN || o.kind == K_COPY_CTOR)) touched = false; // const source
            if (!touched || strong_applies(o)) { verify(i, "fault-side-effect"); continue; }
            VF_CHECK(c[i]->size() <= c[i]->capacity(), "fault-size", "size %zu > capacity %zu after an exception", size_t(c[i]->size()), size_t(c[i]->capacity()));
            std::vector<int> v; size_t k = 0, sz = c[i]->size();
            for (auto it = c[i]->begin(); it != c[i]->end(); ++it, ++k) {
                if (k >= sz) fail("fault-invalid", "iteration longer than size after an exception");
                v.push_back(E::get(*it));
            }
            if (k != sz) fail("fault-invalid", "iteration length %zu, size %zu after an exception", k, sz);
            m[i] = v;
            if (CT::dyn) aid[i] = alloc_id_of(i);
        }
    }
    bool strong_applies(const Op& o) { return strong(o) && (E::nothrow_move || E::copyable); }
    int alloc_id_of(int i) { if constexpr (CT::dyn) return alloc_id(c[i]->get_allocator()); else return aid[i]; }

    void check_live(const char* pfx) {
        (void)pfx;
        if (!E::tracked) return;
        size_t n = 0; for (int i = 0; i < NS; ++i) if (c[i]) n += c[i]->size();
        VF_CHECK(elems().n == n, n < elems().n ? "element-leak" : "element-lost", "%zu live element objects, containers report %zu (%safter %s)", elems().n, n, pfx, ctx().op);
        if (CT::dyn && monitored_construct()) VF_CHECK(constructed().n == n, "construct-mismatch", "%zu elements constructed through the allocator are live, containers report %zu", constructed().n, n);
    }
    template <class U, unsigned P> static bool mon(MonAlloc<U, P>*) { return !(P & AP_NOCONSTRUCT); }
    template <class X> static bool mon(X*) { return false; }
    static bool monitored_construct() { return mon((A*)nullptr); }

    // compare container i with its model through the public interface
    void verify(int i, const char* kind = "wrong-contents") {
        Quiet q;
        const std::vector<int>& e = m[i];
        const C& k = *c[i];
        VF_CHECK(k.size() == e.size(), kind, "size %zu, model %zu", size_t(k.size()), e.size());
        VF_CHECK(k.empty() == e.empty(), "wrong-empty", "empty() is %d with size %zu", int(k.empty()), e.size());
        VF_CHECK(k.size() <= k.capacity() && k.size() <= k.max_size(), "size-over-capacity", "size %zu capacity %zu", size_t(k.size()), size_t(k.capacity()));
        size_t j = 0;
        for (auto it = k.begin(); it != k.end(); ++it, ++j) {
            if (j >= e.size()) fail(kind, "iteration runs past size %zu", e.size());
            int x = E::get(*it);
            VF_CHECK(x == e[j], kind, "element %zu is %d, model %d (size %zu)", j, x, e[j], e.size());
        }
        VF_CHECK(j == e.size(), kind, "iteration yields %zu elements, size %zu", j, e.size());
        if (!e.empty()) {
            size_t p = rng.below(unsigned(e.size()));
            VF_CHECK(E::get(k[p]) == e[p], "wrong-access", "operator[](%zu)", p);
            VF_CHECK(E::get(k.at(p)) == e[p], "wrong-access", "at(%zu)", p);
            VF_CHECK(E::get(k.front()) == e.front() && E::get(k.back()) == e.back(), "wrong-access", "front/back");
            if constexpr (CT::data) VF_CHECK(E::get(*(k.data() + p)) == e[p], "wrong-access", "data()[%zu]", p);
            VF_CHECK(size_t(k.index_of(k.nth(p))) == p, "wrong-access", "index_of(nth(%zu))", p);
        }
        if (rng.chance(1, 4)) {
            j = e.size();
            for (auto it = c[i]->rbegin(); it != c[i]->rend(); ++it) {
                if (j == 0) fail(kind, "reverse iteration runs past size");
                --j; VF_CHECK(E::get(*it) == e[j], kind, "reverse iteration differs at %zu", j);
            }
            VF_CHECK(j == 0, kind, "reverse iteration too short");
        }
        if constexpr (CT::is_static) VF_CHECK(k.full() == (k.size() == CT::N), "wrong-full", "full() is %d with size %zu", int(k.full()), size_t(k.size()));
        if constexpr (CT::dyn) {
            int id = alloc_id(k.get_allocator());
            if (stateful(af())) VF_CHECK(id == aid[i], "wrong-allocator", "get_allocator() is allocator %d, the allocator model says %d", id, aid[i]);
        }
    }
    void verify_all() { for (int i = 0; i < NS; ++i) verify(i); check_live(""); }

    // ---- one step ---------------------------------------------------------------------------
    void step() {
        unsigned tot = w.push + w.insert1 + w.insertn + w.erase + w.pop + w.resize + w.clear + w.assign + w.reserve + w.xfer + w.ctor + w.write + w.erase_val + w.slack + w.self + w.compare;
        unsigned r = rng.below(tot);
        int i = int(rng.below(NS));
#ifdef VF_LAYOUTS
        if (rng.chance(1, 3)) { do_slack(i); return; }
#endif
        if (m[i].size() >= soft_max && rng.chance(3, 4)) { shrink_step(i); return; }
#define VF_SEL(g) if (r < w.g) { do_##g(i); return; } r -= w.g;
        VF_SEL(push) VF_SEL(insert1) VF_SEL(insertn) VF_SEL(erase) VF_SEL(pop) VF_SEL(resize) VF_SEL(clear)
        VF_SEL(assign) VF_SEL(reserve) VF_SEL(xfer) VF_SEL(ctor) VF_SEL(write) VF_SEL(slack) VF_SEL(self) VF_SEL(compare) do_erase_val(i);
#undef VF_SEL
    }
    void shrink_step(int i) { unsigned k = rng.below(10); if (k < 6) do_erase(i); else if (k < 8) do_resize(i); else if (k < 9) do_assign(i); else do_clear(i); }

    Op op(Kind k, const char* name, int a, int b = -1, size_t pos = 0, size_t n = 0) { Op o; o.kind = k; o.name = name; o.a = a; o.b = b; o.pos = pos; o.n = n; o.cat = IC_NCAT2; o.alias = false; o.movesrc = false; return o; }
    size_t pick_pos(int i) { // positions 0..size, ends more likely
        size_t n = m[i].size(); unsigned k = rng.below(8);
        if (force_pos <= n) return force_pos;
        if (k == 0) return 0;
        if (k == 1) return n;
        if (k == 2) return n / 2;
        return rng.below(unsigned(n + 1));
    }
    size_t pick_n(int i, size_t lim) {
        if (force_n != NONE) return force_n < lim ? force_n : lim;
        unsigned k = rng.below(8); size_t n;
        if (k == 0) n = 0; else if (k == 1) n = 1; else if (k == 2) n = c[i]->capacity() - c[i]->size(); // exactly fills
        else if (k == 3) n = c[i]->capacity() - c[i]->size() + 1; else n = 1 + rng.below(unsigned(max_n));
        return n < lim ? n : lim;
    }

    void done(const Op& o) { post(o); verify(o.a); if (o.b >= 0) verify(o.b); check_live(""); }

    void do_push(int i) {
        if (!room(i)) { do_pop(i); return; }
        bool front = CT::front && rng.chance(1, 2);
        unsigned how = rng.below(4);
        bool alias = !m[i].empty() && rng.chance(w.alias_pct, 100) && E::copyable;
        size_t ap = alias ? rng.below(unsigned(m[i].size())) : 0;
        int v = alias ? m[i][ap] : fresh(i);
        Op o = op(front ? K_PUSH_FRONT : K_PUSH_BACK, "", i, -1, front ? 0 : m[i].size(), 1); o.alias = alias;
        C& k = *c[i];
        {
            T val(E::make(v)); // harness argument
            T* ret = nullptr; bool ok = false;
            if constexpr (CT::front) {
                if (front) {
                    if (how == 0 && E::copyable) { o.name = "push_front(const&)"; if constexpr (E::copyable) ok = call(o, [&] { if (alias) k.push_front(static_cast<const T&>(k[ap])); else k.push_front(static_cast<const T&>(val)); }); }
                    else if (alias) { o.name = "emplace_front(self)"; if constexpr (E::copyable && E::tracked) if (how == 2) { o.name = "emplace_front(indirect)"; ok = call(o, [&] { ret = std::addressof(k.emplace_front(ind(k[ap]))); }); goto front_done; } if constexpr (E::copyable) ok = call(o, [&] { ret = std::addressof(k.emplace_front(static_cast<const T&>(k[ap]))); }); }
                    else if (how == 1) { o.name = "push_front(&&)"; ok = call(o, [&] { k.push_front(std::move(val)); }); }
                    else if (how == 2 || !E::tracked) { o.name = "emplace_front(T&&)"; ok = call(o, [&] { ret = std::addressof(k.emplace_front(std::move(val))); }); }
                    else { o.name = "emplace_front(args)"; if constexpr (E::tracked) { Fk fk(v); if (v & 1) o.fwd = 1 + int(rng.below(2)); ok = call(o, [&] { if (o.fwd == 1) ret = std::addressof(k.emplace_front(fk)); else if (o.fwd) ret = std::addressof(k.emplace_front(std::move(fk))); else ret = std::addressof(k.emplace_front(v - 7, 7)); }); } }
                    front_done:
                    if (ok) { m[i].insert(m[i].begin(), v); if (ret) VF_CHECK(ret == std::addressof(k.front()), "wrong-return", "emplace_front returned a reference that is not front()"); }
                }
            }
            if (!front) {
                if (how == 0 && E::copyable) { o.name = "push_back(const&)"; if constexpr (E::copyable) ok = call(o, [&] { if (alias) k.push_back(static_cast<const T&>(k[ap])); else k.push_back(static_cast<const T&>(val)); }); }
                else if (alias) { o.name = "emplace_back(self)"; if constexpr (E::copyable && E::tracked) if (how == 2) { o.name = "emplace_back(indirect)"; ok = call(o, [&] { ret = std::addressof(k.emplace_back(ind(k[ap]))); }); goto back_done; } if constexpr (E::copyable) ok = call(o, [&] { ret = std::addressof(k.emplace_back(static_cast<const T&>(k[ap]))); }); }
                else if (how == 1) { o.name = "push_back(&&)"; ok = call(o, [&] { k.push_back(std::move(val)); }); }
                else if (how == 2 || !E::tracked) { o.name = "emplace_back(T&&)"; ok = call(o, [&] { ret = std::addressof(k.emplace_back(std::move(val))); }); }
                else { o.name = "emplace_back(args)"; if constexpr (E::tracked) { Fk fk(v); if (v & 1) o.fwd = 1 + int(rng.below(2)); ok = call(o, [&] { if (o.fwd == 1) ret = std::addressof(k.emplace_back(fk)); else if (o.fwd) ret = std::addressof(k.emplace_back(std::move(fk))); else ret = std::addressof(k.emplace_back(v - 7, 7)); }); } }
                back_done:
                if (ok) { m[i].push_back(v); if (ret) VF_CHECK(ret == std::addressof(k.back()), "wrong-return", "emplace_back returned a reference that is not back()"); }
            }
            if (!ok) { }
        }
        if (last_threw) { recheck(); return; }
        done(o);
    }
    template <class X> static Indirect<typename X::Base> ind(const X& x) { Indirect<typename X::Base> r = { std::addressof(static_cast<const typename X::Base&>(x)) }; return r; }
    void recheck() { check_live("fault-"); } // after harness temporaries are gone

    void check_ret(int i, typename C::iterator it, size_t expect, const char* what) {
        size_t d = size_t(it - c[i]->begin());
        VF_CHECK(d == expect, "wrong-return", "%s returned position %zu, expected %zu", what, d, expect);
        VF_CHECK(size_t(c[i]->index_of(it)) == expect, "wrong-return", "index_of(%s) is not %zu", what, expect);
    }

    void do_insert1(int i) {
        if (!room(i)) { do_erase(i); return; }
        size_t pos = pick_pos(i);
        unsigned how = rng.below(4);
        bool alias = !m[i].empty() && rng.chance(w.alias_pct, 100) && E::copyable;
        size_t ap = alias ? rng.below(unsigned(m[i].size())) : 0;
        int v = alias ? m[i][ap] : fresh(i);
        Op o = op(K_INSERT1, "", i, -1, pos, 1); o.alias = alias;
        C& k = *c[i];
        typename C::iterator ret;
        {
            T val(E::make(v)); bool ok = false;
            if (how == 0 && E::copyable) { o.name = "insert(const&)"; if constexpr (E::copyable) ok = call(o, [&] { typename C::const_iterator p = k.nth(pos); if (alias) ret = k.insert(p, static_cast<const T&>(k[ap])); else ret = k.insert(p, static_cast<const T&>(val)); }); }
            else if (alias && how == 2 && E::tracked) { o.name = "emplace(indirect)"; if constexpr (E::copyable && E::tracked) ok = call(o, [&] { ret = k.emplace(k.cbegin() + std::ptrdiff_t(pos), ind(k[ap])); }); }
            else if (alias) { o.name = "emplace(self)"; if constexpr (E::copyable) ok = call(o, [&] { ret = k.emplace(k.cbegin() + std::ptrdiff_t(pos), static_cast<const T&>(k[ap])); }); }
            else if (how == 1) { o.name = "insert(&&)"; ok = call(o, [&] { ret = k.insert(k.cbegin() + std::ptrdiff_t(pos), std::move(val)); }); }
            else if (how == 2 || !E::tracked) { o.name = "emplace(T&&)"; ok = call(o, [&] { ret = k.emplace(k.cbegin() + std::ptrdiff_t(pos), std::move(val)); }); }
            else { o.name = "emplace(args)"; if constexpr (E::tracked) { Fk fk(v); if (v & 1) o.fwd = 1 + int(rng.below(2)); ok = call(o, [&] { if (o.fwd == 1) ret = k.emplace(k.cbegin() + std::ptrdiff_t(pos), fk); else if (o.fwd) ret = k.emplace(k.cbegin() + std::ptrdiff_t(pos), std::move(fk)); else ret = k.emplace(k.cbegin() + std::ptrdiff_t(pos), v - 7, 7); }); } }
            if (ok) { m[i].insert(m[i].begin() + std::ptrdiff_t(pos), v); check_ret(i, ret, pos, o.name); }
        }
        if (last_threw) { recheck(); return; }
        done(o);
    }

    // make a source of n fresh values
    void mksrc(Source<T>& s, int i, size_t n, std::vector<int>& vals) {
        vals.clear(); s.v.reserve(n);
        for (size_t j = 0; j < n; ++j) { vals.push_back(fresh(i)); s.v.push_back(E::make(vals.back())); }
        s.reset();
    }
    void check_src(Source<T>& s, const std::vector<int>& vals, unsigned cat, const Op& o) {
        if (s.single_pass) {
            VF_CHECK(s.pos == s.v.size(), "range-not-consumed", "%s read %zu of %zu elements of a single-pass range", o.name, s.pos, s.v.size());
            for (size_t j = 0; j < s.v.size(); ++j) VF_CHECK(s.derefs[j] == 1, "range-deref-count", "%s dereferenced element %zu of a single-pass range %u times", o.name, j, s.derefs[j]);
        }
        for (size_t j = 0; j < s.v.size(); ++j) {
            if (cat_moves(cat)) continue;
            VF_CHECK(E::get(s.v[j]) == vals[j], "range-source-changed", "%s changed element %zu of a range it had to copy", o.name, j);
        }
    }
    struct IlistN { // dispatch run-time lengths to initializer_list
        template <class F> static void go(const std::vector<T>& v, F f) {
            switch (v.size()) {
            case 0: f(std::initializer_list<T>{}); break;
            case 1: f(std::initializer_list<T>{v[0]}); break;
            case 2: f(std::initializer_list<T>{v[0], v[1]}); break;
            case 3: f(std::initializer_list<T>{v[0], v[1], v[2]}); break;
            case 4: f(std::initializer_list<T>{v[0], v[1], v[2], v[3]}); break;
            default: f(std::initializer_list<T>{v[0], v[1], v[2], v[3], v[4], v[5], v[6]}); break;
            }
        }
        static size_t fit(size_t n, size_t lim) { if (n >= 7) n = 7; else if (n > 4) n = 4; return (n > lim) ? (lim > 4 ? 4 : lim) : n; }
    };
    // f(first,last) for category cat, or an initializer list
    template <class F> struct Fwd2 { F& f; template <class It> void operator()(It a, It b) { f(a, b); } };

    void do_insertn(int i) {
        size_t lim = room(i);
        size_t n = pick_n(i, lim), pos = pick_pos(i);
        unsigned how = rng.below(10);
        C& k = *c[i];
        typename C::iterator ret;
        if (how < 4 && E::copyable) { // n copies
            bool alias = !m[i].empty() && rng.chance(w.alias_pct, 100);
            size_t ap = alias ? rng.below(unsigned(m[i].size())) : 0;
            int v = alias ? m[i][ap] : fresh(i);
            Op o = op(K_INSERTN, "insert(n,value)", i, -1, pos, n); o.alias = alias;
            if constexpr (E::copyable) {
                T val(E::make(v));
                if (call(o, [&] { if (alias) ret = k.insert(k.cbegin() + std::ptrdiff_t(pos), n, static_cast<const T&>(k[ap])); else ret = k.insert(k.cbegin() + std::ptrdiff_t(pos), n, static_cast<const T&>(val)); })) {
                    m[i].insert(m[i].begin() + std::ptrdiff_t(pos), n, v); check_ret(i, ret, pos, o.name);
                    VF_CHECK(E::get(val) == v, "argument-changed", "insert(n, value) changed its argument");
                }
            }
            if (last_threw) { recheck(); return; }
            done(o); return;
        }
        if (how < 6 && E::copyable) { // initializer list
            n = IlistN::fit(n, lim);
            Op o = op(K_INSERTN, "insert(ilist)", i, -1, pos, n); o.cat = IC_ILIST;
            if constexpr (E::copyable) {
                std::vector<int> vals; Source<T> s; mksrc(s, i, n, vals); bool ok = false;
                IlistN::go(s.v, [&](std::initializer_list<T> il) { ok = call(o, [&] { ret = k.insert(k.cbegin() + std::ptrdiff_t(pos), il); }); });
                if (ok) { m[i].insert(m[i].begin() + std::ptrdiff_t(pos), vals.begin(), vals.end()); check_ret(i, ret, pos, o.name); }
            }
            if (last_threw) { recheck(); return; }
            done(o); return;
        }
        Op o = op(K_INSERTN, "insert(range)", i, -1, pos, n);
        {
            std::vector<int> vals; Source<T> s; mksrc(s, i, n, vals);
            bool ok = false;
            auto f = [&](auto a, auto b) { ok = call(o, [&] { ret = k.insert(k.cbegin() + std::ptrdiff_t(pos), a, b); }); };
            o.cat = RangeCall<T, decltype(f), E::copyable>::pick(rng);
            RangeCall<T, decltype(f), E::copyable>::go(s, o.cat, f);
            if (ok) { m[i].insert(m[i].begin() + std::ptrdiff_t(pos), vals.begin(), vals.end()); check_ret(i, ret, pos, o.name); check_src(s, vals, o.cat, o); }
        }
        if (last_threw) { recheck(); return; }
        done(o);
    }
    void do_erase(int i) {
        C& k = *c[i]; typename C::iterator ret;
        if (rng.chance(1, 2)) {
            if (m[i].empty()) { do_push(i); return; }
            size_t pos = rng.below(unsigned(m[i].size())); if (rng.chance(1, 6)) pos = 0; else if (rng.chance(1, 6)) pos = m[i].size() - 1;
            Op o = op(K_ERASE1, "erase(pos)", i, -1, pos, 1);
            if (call(o, [&] { ret = k.erase(k.cbegin() + std::ptrdiff_t(pos)); })) { m[i].erase(m[i].begin() + std::ptrdiff_t(pos)); check_ret(i, ret, pos, o.name); }
            else { recheck(); return; }
            done(o);
        } else {
            size_t pos = pick_pos(i); size_t n = rng.below(unsigned(m[i].size() - pos + 1)); if (rng.chance(1, 6)) n = m[i].size() - pos; if (rng.chance(1, 10)) n = 0;
            Op o = op(K_ERASER, "erase(range)", i, -1, pos, n);
            if (call(o, [&] { ret = k.erase(k.cbegin() + std::ptrdiff_t(pos), k.cbegin() + std::ptrdiff_t(pos + n)); })) { m[i].erase(m[i].begin() + std::ptrdiff_t(pos), m[i].begin() + std::ptrdiff_t(pos + n)); check_ret(i, ret, pos, o.name); }
            else { recheck(); return; }
            done(o);
        }
    }
    void do_pop(int i) {
        if (m[i].empty()) { if (room(i)) do_push(i); return; }
        C& k = *c[i]; bool front = CT::front && rng.chance(1, 2);
        Op o = op(front ? K_POPF : K_POPB, front ? "pop_front" : "pop_back", i, -1, front ? 0 : m[i].size() - 1, 1);
        bool ok;
        if constexpr (CT::front) ok = call(o, [&] { if (front) k.pop_front(); else k.pop_back(); });
        else ok = call(o, [&] { k.pop_back(); });
        if (!ok) { recheck(); return; }
        if (front) m[i].erase(m[i].begin()); else m[i].pop_back();
        done(o);
    }
    size_t pick_size(int i) {
        size_t lim = hard_max ? hard_max : soft_max + max_n; unsigned k = rng.below(8); size_t n;
        if (k == 0) n = m[i].size(); else if (k == 1) n = 0; else if (k == 2) n = c[i]->capacity(); else if (k == 3) n = c[i]->capacity() + 1;
        else if (k < 6) n = m[i].size() + rng.below(unsigned(max_n) + 1); else n = rng.below(unsigned(m[i].size() + 1));
        return n > lim ? lim : n;
    }
    void do_resize(int i) {
        C& k = *c[i]; size_t n = pick_size(i); size_t old = m[i].size();
        unsigned end = CT::front ? rng.below(3) : 0; // 0 resize, 1 resize_front, 2 resize_back
        bool withv = rng.chance(1, 2) && E::copyable;
        bool alias = withv && !m[i].empty() && rng.chance(w.alias_pct, 100);
        size_t ap = alias ? rng.below(unsigned(old)) : 0;
        int v = withv ? (alias ? m[i][ap] : fresh(i)) : 0;
        static const char* names[2][3] = {{"resize(n)", "resize_front(n)", "resize_back(n)"}, {"resize(n,value)", "resize_front(n,value)", "resize_back(n,value)"}};
        const bool dinit = CT::is_static && !withv && rng.chance(1, 2);
        Op o = op(end == 1 ? K_RESIZE_F : K_RESIZE, dinit ? "resize(n,default_init)" : names[withv][end], i, -1, 0, n); o.alias = alias;
        {
            T val(E::make(v)); bool ok = false;
            if (dinit) { if constexpr (CT::is_static) { ok = call(o, [&] { k.resize(n, sfl::default_init_t()); }); if (ok) define(i, old, n); } }
            else if (!withv) ok = call(o, [&] {
                if constexpr (CT::front) { if (end == 1) k.resize_front(n); else if (end == 2) k.resize_back(n); else k.resize(n); } else k.resize(n); });
            else if constexpr (E::copyable) {
                ok = call(o, [&] {
                    const T& x = alias ? static_cast<const T&>(k[ap]) : static_cast<const T&>(val);
                    if constexpr (CT::front) { if (end == 1) k.resize_front(n, x); else if (end == 2) k.resize_back(n, x); else k.resize(n, x); } else k.resize(n, x); });
            }
            if (ok) {
                if (end == 1) { if (n < old) m[i].erase(m[i].begin(), m[i].begin() + std::ptrdiff_t(old - n)); else m[i].insert(m[i].begin(), n - old, v); }
                else if (CT::front && end == 0 && n > old) { // documented: new elements may go to both ends
                    std::vector<int> act = read_all(i), want; bool found = false;
                    for (size_t f = 0; f <= n - old && !found; ++f) {
                        want.assign(f, v); want.insert(want.end(), m[i].begin(), m[i].end()); want.resize(n, v);
                        found = want == act;
                    }
                    if (!found) fail("wrong-contents", "after %s to %zu the old elements are not surrounded by copies of the new value only", o.name, n);
                    m[i] = want;
                }
                else m[i].resize(n, v);
            }
        }
        if (last_threw) { recheck(); return; }
        done(o);
    }
    // default-initialized elements of trivial type have no value until one is assigned
    void define(int i, size_t from, size_t to) { (void)i; (void)from; (void)to;
        count("default_initialized");
        if constexpr (std::is_trivially_default_constructible<T>::value) for (size_t p = from; p < to && p < c[i]->size(); ++p) (*c[i])[p] = E::make(0); }
    void do_clear(int i) { Op o = op(K_CLEAR, "clear", i, -1, 0, m[i].size()); C& k = *c[i]; if (call(o, [&] { k.clear(); })) m[i].clear(); done(o); }
    void do_assign(int i) {
        C& k = *c[i]; size_t n = pick_size(i); unsigned how = rng.below(10);
        if (how < 3 && E::copyable) {
            Op o = op(K_ASSIGN, "assign(n,value)", i, -1, 0, n); int v = fresh(i);
            if constexpr (E::copyable) { T val(E::make(v)); if (call(o, [&] { k.assign(n, static_cast<const T&>(val)); })) m[i].assign(n, v); }
            if (last_threw) { recheck(); return; }
            done(o);
        } else if (how < 6 && E::copyable) {
            n = IlistN::fit(n, hard_max ? hard_max : 100);
            bool eq = rng.chance(1, 2);
            Op o = op(K_ASSIGN, eq ? "operator=(ilist)" : "assign(ilist)", i, -1, 0, n); o.cat = IC_ILIST;
            if constexpr (E::copyable) {
                std::vector<int> vals; Source<T> s; mksrc(s, i, n, vals); bool ok = false;
                IlistN::go(s.v, [&](std::initializer_list<T> il) { ok = call(o, [&] { if (eq) { C& r = (k = il); if (&r != &k) fail("wrong-return", "operator= does not return *this"); } else k.assign(il); }); });
                if (ok) m[i] = vals;
            }
            if (last_threw) { recheck(); return; }
            done(o);
        } else {
            Op o = op(K_ASSIGN, "assign(range)", i, -1, 0, n);
            {
                std::vector<int> vals; Source<T> s; mksrc(s, i, n, vals); bool ok = false;
                auto f = [&](auto a, auto b) { ok = call(o, [&] { k.assign(a, b); }); };
                o.cat = RangeCall<T, decltype(f), E::copyable>::pick(rng);
                RangeCall<T, decltype(f), E::copyable>::go(s, o.cat, f);
                if (ok) { m[i] = vals; check_src(s, vals, o.cat, o); }
            }
            if (last_threw) { recheck(); return; }
            done(o);
        }
    }
    void do_reserve(int i) {
        C& k = *c[i];
        size_t lim = hard_max && !allow_ops_beyond_inline ? hard_max : soft_max + 2 * max_n;
        unsigned kk = rng.below(6);
        size_t n = kk == 0 ? k.capacity() + 1 : kk == 1 ? size_t(k.capacity()) : kk == 2 ? size_t(k.size()) : rng.below(unsigned(lim) + 1);
        if (n > lim) n = lim;
        if constexpr (CT::reserve_fb) {
            unsigned which = rng.below(3);
            if (which == 2) { Op o = op(K_SHRINK, "shrink_to_fit", i); if (!call(o, [&] { k.shrink_to_fit(); })) { recheck(); return; } done(o); return; }
            size_t av = which ? k.available_back() : k.available_front();
            if (kk == 0) n = av + 1; else if (kk == 1) n = av; else if (kk == 2) n = 0; else n = rng.below(16);
            Op o = op(which ? K_RESERVE_B : K_RESERVE_F, which ? "reserve_back" : "reserve_front", i, -1, 0, n);
            if (!call(o, [&] { if (which) k.reserve_back(n); else k.reserve_front(n); })) { recheck(); return; }
            done(o); return;
        } else if constexpr (CT::reserve) {
            if (rng.chance(1, 3)) { Op o = op(K_SHRINK, "shrink_to_fit", i); if (!call(o, [&] { k.shrink_to_fit(); })) { recheck(); return; } done(o); return; }
            Op o = op(K_RESERVE, "reserve", i, -1, 0, n);
            if (!call(o, [&] { k.reserve(n); })) { recheck(); return; }
            done(o); return;
        } else do_push(i);
    }
    // leave one end with much spare room and the other with little, so that the next insertion shifts instead of growing
    void do_slack(int i) {
        if constexpr (CT::reserve_fb) {
            if (LAYOUTS || rng.chance(1, 2)) { if (!do_gaps(i)) return; if (rng.below(4)) do_insertn(i); else do_insert1(i); force_n = force_pos = NONE; return; }
            C& k = *c[i]; bool front = rng.chance(1, 2); size_t n = 4 + rng.below(60);
            { Op o = op(front ? K_RESERVE_F : K_RESERVE_B, front ? "reserve_front" : "reserve_back", i, -1, 0, n);
              if (!call(o, [&] { if (front) k.reserve_front(n); else k.reserve_back(n); })) { recheck(); return; }
              done(o); }
            size_t left = rng.below(4), lim = hard_max ? hard_max : soft_max * 2 + 40;
            while ((front ? k.available_back() : k.available_front()) > left && m[i].size() < lim) {
                bool ok; int v = fresh(i); Op o = op(front ? K_PUSH_BACK : K_PUSH_FRONT, front ? "push_back(&&)" : "push_front(&&)", i, -1, front ? m[i].size() : 0, 1);
                { T val(E::make(v)); ok = call(o, [&] { if (front) k.push_back(std::move(val)); else k.push_front(std::move(val)); }); }
                if (!ok) { recheck(); return; }
                if (front) m[i].push_back(v); else m[i].insert(m[i].begin(), v);
            }
            Op o = op(K_WRITE, "verify", i); if (!call(o, [] {})) { recheck(); return; }
            done(o);
        } else (void)i;
    }
    // an exact layout: few elements, chosen spare capacity at both ends, then an insertion
    bool do_gaps(int i) {
        if constexpr (CT::reserve_fb) {
            C& k = *c[i]; size_t L = rng.below(13), x = rng.below(8), y = rng.below(3) ? 1 + rng.below(34) : rng.below(8); if (rng.chance(1, 2)) std::swap(x, y);
            if (hard_max && L > hard_max) L = hard_max;
            force_n = force_pos = NONE;
            if (rng.chance(2, 3)) { // the nearer end has too little room, the farther end just enough to make moving everything worthwhile
                size_t d = rng.below(unsigned(L + 1)), n = 1 + rng.below(12), near = rng.below(unsigned(n)), far = std::max(n - near, (near + L) / 2) + rng.below(5);
                force_n = n; force_pos = d; if (d < L - d) { x = near; y = far; } else { y = near; x = far; }
            }
            while (m[i].size() > L) { Op o = op(K_POPB, "pop_back", i, -1, m[i].size() - 1, 1); if (!call(o, [&] { k.pop_back(); })) { recheck(); return false; } m[i].pop_back(); done(o); }
            while (m[i].size() < L) {
                bool ok; int v = fresh(i); Op o = op(K_PUSH_BACK, "push_back(&&)", i, -1, m[i].size(), 1);
                { T val(E::make(v)); ok = call(o, [&] { k.push_back(std::move(val)); }); }
                if (!ok) { recheck(); return false; }
                m[i].push_back(v); done(o);
            }
            { Op o = op(K_SHRINK, "shrink_to_fit", i); if (!call(o, [&] { k.shrink_to_fit(); })) { recheck(); return false; } done(o); }
            { Op o = op(K_RESERVE_F, "reserve_front", i, -1, 0, L + x); if (!call(o, [&] { k.reserve_front(L + x); })) { recheck(); return false; } done(o); }
            { Op o = op(K_RESERVE_B, "reserve_back", i, -1, 0, L + y); if (!call(o, [&] { k.reserve_back(L + y); })) { recheck(); return false; } done(o); }
            count("layouts_built");
        } else (void)i;
        return true;
    }
    int other(int i) { return (i + 1 + int(rng.below(NS - 1))) % NS; }
    void do_xfer(int i) {
        int j = other(i); C& k = *c[i]; C& s = *c[j];
        unsigned how = rng.below(E::copyable ? 6 : 4);
        if (how < 2) {
            bool unequal = stateful(af()) && aid[i] != aid[j];
            if (unequal && !(af() & AP_POCS)) { do_write(i); return; }
            Op o = op(K_SWAP, how ? "swap(a,b)" : "a.swap(b)", i, j);
            if (!call(o, [&] { if (how) { using std::swap; swap(k, s); } else k.swap(s); })) { recheck(); return; }
            m[i].swap(m[j]);
            if (af() & AP_POCS) std::swap(aid[i], aid[j]);
            done(o);
        } else if (how < 4) {
            Op o = op(K_MOVE_ASSIGN, "move-assign", i, j);
            if (!call(o, [&] { C& r = (k = std::move(s)); if (&r != &k) fail("wrong-return", "operator= does not return *this"); })) { recheck(); return; }
            m[i] = m[j];
            if (af() & AP_POCMA) aid[i] = aid[j];
            moved_from(j); done(o);
        } else {
            Op o = op(K_COPY_ASSIGN, "copy-assign", i, j);
            if constexpr (E::copyable) if (!call(o, [&] { C& r = (k = static_cast<const C&>(s)); if (&r != &k) fail("wrong-return", "operator= does not return *this"); })) { recheck(); return; }
            m[i] = m[j];
            if (af() & AP_POCCA) aid[i] = aid[j];
            done(o);
        }
    }
    void do_self(int i) {
        C& k = *c[i]; unsigned how = rng.below(E::copyable ? 3 : 2);
        if (how < 2) {
            Op o = op(K_SELF_SWAP, how ? "swap(a,a)" : "a.swap(a)", i);
            if (!call(o, [&] { if (how) { using std::swap; swap(k, k); } else k.swap(k); })) { recheck(); return; }
            done(o);
        } else {
            Op o = op(K_SELF_COPY, "copy-assign(self)", i);
            if constexpr (E::copyable) if (!call(o, [&] { C& r = (k = static_cast<const C&>(k)); if (&r != &k) fail("wrong-return", "operator= does not return *this"); })) { recheck(); return; }
            done(o);
        }
    }
    // all six operators on a pair of containers; sometimes the pair is first made to share a prefix
    void do_compare(int i) {
        int j = rng.chance(1, 12) ? i : other(i);
        if (i != j && E::copyable && rng.chance(2, 3)) { // equal or nearly equal contents with different histories
            size_t cut = rng.below(unsigned(m[i].size() + 1)); if (rng.chance(1, 2)) cut = m[i].size();
            std::vector<int> want(m[i].begin(), m[i].begin() + std::ptrdiff_t(cut));
            unsigned kk = rng.below(4); size_t lim = hard_max ? hard_max : 1000;
            if (kk == 0 && want.size() < lim) want.push_back(next_val = next_val % 9000 + 1);
            if (kk == 1 && !want.empty()) want[rng.below(unsigned(want.size()))] = next_val = next_val % 9000 + 1;
            Op o = op(K_ASSIGN, "assign(range)", j, -1, 0, want.size());
            { std::vector<T> src; src.reserve(want.size()); for (int v : want) src.push_back(E::make(v)); bool ok = false;
              if constexpr (E::copyable) ok = call(o, [&] { c[j]->assign(src.begin(), src.end()); });
              if (ok) m[j] = want; }
            if (last_threw) { recheck(); return; }
            done(o);
        }
        const C& a = *c[i]; const C& b = *c[j];
        Op o = op(K_COMPARE, "compare", i, j, 0, m[j].size()); bool eq = false, ne = false, lt = false, gt = false, le = false, ge = false;
        if (!call(o, [&] { eq = a == b; ne = a != b; lt = a < b; gt = a > b; le = a <= b; ge = a >= b; })) { recheck(); return; }
        const std::vector<int>& x = m[i]; const std::vector<int>& y = m[j];
        VF_CHECK(eq == (x == y) && ne == !eq, "wrong-compare", "== is %d, != is %d, model %d (sizes %zu, %zu)", int(eq), int(ne), int(x == y), x.size(), y.size());
        auto less = [](int p, int q) { if constexpr (E::tracked) return p < q; else return E::make(p) < E::make(q); };
        const bool xy = std::lexicographical_compare(x.begin(), x.end(), y.begin(), y.end(), less), yx = std::lexicographical_compare(y.begin(), y.end(), x.begin(), x.end(), less);
        VF_CHECK(lt == xy && gt == yx && le == !gt && ge == !lt, "wrong-compare", "< %d > %d <= %d >= %d, model < %d > %d (sizes %zu, %zu)", int(lt), int(gt), int(le), int(ge), int(xy), int(yx), x.size(), y.size());
        count(eq ? "compared_equal" : lt ? "compared_less" : "compared_greater");
        done(o);
    }
    // moved-from container: valid but unspecified; learn its contents from the interface
    void moved_from(int j) {
        std::vector<int> v; size_t k = 0;
        VF_CHECK(c[j]->size() <= c[j]->capacity(), "moved-from-invalid", "moved-from container: size %zu capacity %zu", size_t(c[j]->size()), size_t(c[j]->capacity()));
        VF_CHECK(c[j]->empty() == (c[j]->size() == 0), "moved-from-invalid", "moved-from container: empty() disagrees with size()");
        for (auto it = c[j]->begin(); it != c[j]->end(); ++it, ++k) { if (k >= c[j]->size()) fail("moved-from-invalid", "moved-from container iterates past its size"); v.push_back(E::get(*it)); }
        m[j] = v;
        if (CT::dyn) aid[j] = alloc_id_of(j);
    }
    // replace slot i by a newly constructed container
    template <class B> bool construct(Op& o, B body) {
        int i = o.a;
        c[i]->~C(); c[i] = nullptr; m[i].clear();
        scrub(mem[i], sizeof(C), 0xC3);
        return call(o, body);
    }
    void do_ctor(int i) {
        int j = other(i); int id = 1 + int(rng.below(unsigned(nids))); void* p = mem[i]; bool wa = CT::dyn && rng.chance(1, 2);
        int did = wa ? id : default_alloc_id(); aid[i] = did;
        size_t n = rng.below(unsigned((hard_max && hard_max < max_n ? hard_max : max_n) + 1));
        unsigned how = rng.below(9);
        C*& k = c[i];
        switch (how) {
        case 0: { Op o = op(K_CTOR, wa ? "ctor(alloc)" : "ctor()", i); if (construct(o, [&] { if constexpr (CT::dyn) { if (wa) { k = ::new (p) C(mkalloc(id)); return; } } k = ::new (p) C(); })) {} else { recheck(); return; } done(o); return; }
        case 1: if constexpr (CT::is_static) if (rng.chance(1, 2)) { Op o = op(K_CTOR, "ctor(n,default_init)", i, -1, 0, n);
            if (construct(o, [&] { k = ::new (p) C(n, sfl::default_init_t()); })) { m[i].assign(n, 0); define(i, 0, n); } else { recheck(); return; } done(o); return; }
          { Op o = op(K_CTOR, wa ? "ctor(n,alloc)" : "ctor(n)", i, -1, 0, n);
            if (construct(o, [&] { if constexpr (CT::dyn) { if (wa) { k = ::new (p) C(n, mkalloc(id)); return; } } k = ::new (p) C(n); })) m[i].assign(n, 0); else { recheck(); return; } done(o); return; }
        case 2: if constexpr (E::copyable) { Op o = op(K_CTOR, wa ? "ctor(n,v,alloc)" : "ctor(n,v)", i, -1, 0, n); int v = fresh(i);
            { T val(E::make(v)); if (construct(o, [&] { if constexpr (CT::dyn) { if (wa) { k = ::new (p) C(n, static_cast<const T&>(val), mkalloc(id)); return; } } k = ::new (p) C(n, static_cast<const T&>(val)); })) m[i].assign(n, v); }
            if (last_threw) { recheck(); return; } done(o); return; } // fallthrough
        case 3: if constexpr (E::copyable) { Op o = op(K_CTOR, wa ? "ctor(ilist,alloc)" : "ctor(ilist)", i, -1, 0, n); n = IlistN::fit(n, hard_max ? hard_max : 100); o.cat = IC_ILIST;
            { std::vector<int> vals; Source<T> s; mksrc(s, i, n, vals); bool ok = false;
              IlistN::go(s.v, [&](std::initializer_list<T> il) { ok = construct(o, [&] { if constexpr (CT::dyn) { if (wa) { k = ::new (p) C(il, mkalloc(id)); return; } } k = ::new (p) C(il); }); });
              if (ok) m[i] = vals; }
            if (last_threw) { recheck(); return; } done(o); return; } // fallthrough
        case 4: case 5: { Op o = op(K_CTOR, wa ? "ctor(range,alloc)" : "ctor(range)", i, -1, 0, n);
            { std::vector<int> vals; Source<T> s; mksrc(s, i, n, vals); bool ok = false;
              auto f = [&](auto a, auto b) { ok = construct(o, [&] { if constexpr (CT::dyn) { if (wa) { k = ::new (p) C(a, b, mkalloc(id)); return; } } k = ::new (p) C(a, b); }); };
              o.cat = RangeCall<T, decltype(f), E::copyable>::pick(rng);
              RangeCall<T, decltype(f), E::copyable>::go(s, o.cat, f);
              if (ok) { m[i] = vals; check_src(s, vals, o.cat, o); } }
            if (last_threw) { recheck(); return; } done(o); return; }
        case 6: if constexpr (E::copyable) {
            Op o = op(K_COPY_CTOR, wa ? "copy-ctor(alloc)" : "copy-ctor", i, j); C& s = *c[j];
            if (!wa) aid[i] = (af() & AP_SOCCC) ? aid[j] + 1000 : aid[j];
            if (construct(o, [&] { if constexpr (CT::dyn) { if (wa) { k = ::new (p) C(static_cast<const C&>(s), mkalloc(id)); return; } } k = ::new (p) C(static_cast<const C&>(s)); })) m[i] = m[j]; else { recheck(); return; }
            done(o); return; } // fallthrough
        default: {
            Op o = op(K_MOVE_CTOR, wa ? "move-ctor(alloc)" : "move-ctor", i, j); C& s = *c[j];
            if (!wa) aid[i] = aid[j];
            if (construct(o, [&] { if constexpr (CT::dyn) { if (wa) { k = ::new (p) C(std::move(s), mkalloc(id)); return; } } k = ::new (p) C(std::move(s)); })) m[i] = m[j]; else { recheck(); return; }
            moved_from(j); done(o); return; }
        }
    }
    void do_write(int i) {
        if (m[i].empty()) { if (room(i)) do_push(i); return; }
        C& k = *c[i]; size_t p = rng.below(unsigned(m[i].size())); int v = fresh(i); unsigned how = rng.below(7);
        Op o = op(K_WRITE, "write-element", i, -1, p, 1);
        if (how == 1) p = 0;
        if (how == 2) p = m[i].size() - 1;
        bool ok;
        {
            T val(E::make(v));
            ok = call(o, [&] {
                Quiet q;
                switch (how) {
                case 0: k[p] = std::move(val); break;
                case 1: k.front() = std::move(val); break;
                case 2: k.back() = std::move(val); break;
                case 3: k.at(p) = std::move(val); break;
                case 4: *k.nth(p) = std::move(val); break;
                case 5: *(k.rbegin() + std::ptrdiff_t(m[i].size() - 1 - p)) = std::move(val); break;
                default: *(k.end() - std::ptrdiff_t(m[i].size() - p)) = std::move(val); break;
                }
            });
        }
        if (ok) m[i][p] = v;
        done(o);
    }
    void do_erase_val(int i) {
        C& k = *c[i];
        int v = !m[i].empty() && rng.chance(3, 4) ? m[i][rng.below(unsigned(m[i].size()))] : 99999;
        if (rng.chance(1, 2)) {
            Op o = op(K_ERASE_VAL, "erase(c,value)", i, -1, 0, 0); size_t r = 0; bool ok;
            { T val(E::make(v)); ok = call(o, [&] { r = erase(k, val); }); }
            if (!ok) { recheck(); return; }
            size_t b = m[i].size(); m[i].erase(std::remove(m[i].begin(), m[i].end(), v), m[i].end());
            VF_CHECK(r == b - m[i].size(), "wrong-return", "erase(c, value) returned %zu, removed %zu", r, b - m[i].size());
            done(o);
        } else {
            int mod = 2 + int(rng.below(4)); Op o = op(K_ERASE_VAL, "erase_if(c,pred)", i, -1, 0, 0); size_t r = 0, calls = 0;
            if (!call(o, [&] { r = erase_if(k, [&](const T& x) { fault_point(FK_CMP, "predicate"); ++calls; return E::get(x) % mod == 0; }); })) { recheck(); return; }
            size_t b = m[i].size();
            VF_CHECK(calls >= b, "predicate-calls", "erase_if called the predicate %zu times for %zu elements", calls, b);
            m[i].erase(std::remove_if(m[i].begin(), m[i].end(), [&](int x) { return x % mod == 0; }), m[i].end());
            VF_CHECK(r == b - m[i].size(), "wrong-return", "erase_if returned %zu, removed %zu", r, b - m[i].size());
            done(o);
        }
    }
};

} // namespace vf
#endif
