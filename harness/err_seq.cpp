// C16, sequence containers: at() and length errors from many states, for requests around max_size and at the limits of
// size_type; the state before and after a refused request must be identical.
#include "seq.hpp"
#include "err.hpp"
#include <new>
#include <stdexcept>
using namespace vf;
// a range of any length that needs no memory; reading far into it means the request was not refused
template <class T> struct Big { using iterator_category = std::random_access_iterator_tag; using value_type = T; using difference_type = std::ptrdiff_t; using pointer = const T*; using reference = T;
    difference_type i; T operator*() const { if (i > 100000) fail("request-not-refused", "element %td of a range longer than max_size was read", i); return EV<T>::make(int(i % 9000) + 1); }
    T operator[](difference_type n) const { return *(*this + n); }
    Big& operator++() { ++i; return *this; } Big operator++(int) { Big t = *this; ++i; return t; } Big& operator--() { --i; return *this; } Big operator--(int) { Big t = *this; --i; return t; } Big& operator+=(difference_type n) { i += n; return *this; } Big& operator-=(difference_type n) { i -= n; return *this; }
    friend Big operator+(Big a, difference_type n) { a.i += n; return a; } friend Big operator+(difference_type n, Big a) { a.i += n; return a; } friend Big operator-(Big a, difference_type n) { a.i -= n; return a; } friend difference_type operator-(Big a, Big b) { return a.i - b.i; }
    friend bool operator==(Big a, Big b) { return a.i == b.i; } friend bool operator!=(Big a, Big b) { return a.i != b.i; } friend bool operator<(Big a, Big b) { return a.i < b.i; } friend bool operator>(Big a, Big b) { return a.i > b.i; } friend bool operator<=(Big a, Big b) { return a.i <= b.i; } friend bool operator>=(Big a, Big b) { return a.i >= b.i; } };

template <class T, unsigned P> struct ErrWorld : SeqWorld<T, MonAlloc<T, P>> {
    using A = MonAlloc<T, P>; using B = SeqWorld<T, A>; using C = typename B::C; using E = EV<T>;
    explicit ErrWorld(uint64_t s) : B(s) {}
    struct Snap { std::vector<int> v; std::vector<const T*> a; size_t cap, blocks, live, built; int id; };
    Snap snap(int i) { Quiet q; C& c = *this->c[i]; Snap s; for (auto it = c.begin(); it != c.end(); ++it) { s.v.push_back(E::get(*it)); s.a.push_back(std::addressof(*it)); } s.cap = c.capacity(); s.blocks = blocks().live(); s.live = elems().n; s.built = constructed().n; s.id = 0; if constexpr (CT::dyn) s.id = this->alloc_id(c.get_allocator()); return s; }
    void same(const Snap& a, const Snap& b, const char* what) {
        VF_CHECK(a.v == b.v, "error-changed-contents", "%s: contents changed by a refused request (size %zu -> %zu)", what, a.v.size(), b.v.size());
        VF_CHECK(a.cap == b.cap, "error-changed-capacity", "%s: capacity %zu -> %zu", what, a.cap, b.cap);
        VF_CHECK(a.a == b.a, "error-moved-elements", "%s: elements moved", what);
        VF_CHECK(a.blocks == b.blocks && a.live == b.live && a.built == b.built, "error-leak", "%s: blocks %zu -> %zu, elements %zu -> %zu", what, a.blocks, b.blocks, a.live, b.live);
    }
    // request that makes (or would make) the size or the reserved capacity `want`; must: it has to be refused
    template <class F, class G> void request(const char* name, int i, size_t n, bool must, bool may, F f, G granted) {
        const size_t sz = this->c[i]->size(); op_begin(name, "s%d n=%zu size=%zu cap=%zu max=%zu", i, n, sz, size_t(this->c[i]->capacity()), size_t(this->c[i]->max_size())); distinct(mix(mix(n, sz), std::strlen(name) * 977 + name[0]));
        Snap a = snap(i); Out o = run(f);
        count(out_name(o)); VF_CHECK(o != OTHER && o != RANGE, "wrong-exception", "%s: %s", name, out_name(o));
        if (must) VF_CHECK(o == LENGTH, "error-absorbed", "%s with n=%zu at size %zu (max_size %zu) ended in %s instead of length_error", name, n, sz, size_t(this->c[i]->max_size()), out_name(o));
        if (o == LENGTH) VF_CHECK(must || may, "false-error", "%s with n=%zu at size %zu capacity %zu (max_size %zu) was refused", name, n, sz, a.cap, size_t(this->c[i]->max_size()));
        if (o != OK) { Snap b = snap(i); same(a, b, name); }
        else {
#ifndef SFL_NO_EXCEPTIONS
            granted(this->m[i]); VF_CHECK(this->c[i]->size() <= this->c[i]->max_size(), "size-over-max", "%s: size %zu over max_size %zu", name, size_t(this->c[i]->size()), size_t(this->c[i]->max_size()));
            if (!CT::is_static) VF_CHECK(this->c[i]->capacity() <= this->c[i]->max_size() || CT::small, "capacity-over-max", "%s: capacity %zu over max_size %zu", name, size_t(this->c[i]->capacity()), size_t(this->c[i]->max_size()));
#endif
        }
#ifndef SFL_NO_EXCEPTIONS
        this->verify(i, "error-wrong-contents");
#endif
    }
    size_t big(size_t mx, size_t sz) {
        Rng& r = this->rng; const size_t S = ~size_t(0), H = size_t(PTRDIFF_MAX);
        switch (r.below(14)) { case 0: return mx + 1; case 1: return mx + 1 + r.below(8); case 2: return S; case 3: return S - r.below(70); case 4: return S - sz; case 5: return S - sz + 1; case 6: return H; case 7: return H + 1 + r.below(9); case 8: return S / sizeof(T) + 1; case 9: return H / sizeof(T) + 1; case 10: return mx * 2 > mx ? mx * 2 : S; case 11: return S / 2 + 1 - r.below(5); case 12: return (size_t(1) << 63) / (sizeof(T) > 1 ? sizeof(T) / 2 : 1); default: return mx + 1; }
    }
    void ats(int i) {
        C& c = *this->c[i]; const C& k = c; const size_t sz = c.size(); op_begin("at", "size %zu", sz); Snap a = snap(i);
        for (int z = 0; z < 8; ++z) {
            const size_t bad[] = {sz, sz + 1, ~size_t(0), size_t(c.capacity()) > sz ? size_t(c.capacity()) : sz, size_t(PTRDIFF_MAX), ~size_t(0) - sz, sz + 2 + this->rng.below(50), (~size_t(0) / sizeof(T)) + 1}; size_t p = bad[z];
            Out o1 = run([&] { (void)c.at(p); }), o2 = run([&] { (void)k.at(p); });
#ifdef SFL_NO_EXCEPTIONS
            VF_CHECK(o1 == LENGTH && o2 == LENGTH, "error-absorbed", "at(%zu) of size %zu did not abort", p, sz);
#else
            VF_CHECK(o1 == RANGE && o2 == RANGE, "error-absorbed", "at(%zu) of size %zu: %s / %s instead of out_of_range", p, sz, out_name(o1), out_name(o2));
#endif
            count("bad_at"); distinct(mix(p, sz));
        }
#ifndef SFL_NO_EXCEPTIONS
        for (size_t p = 0; p < sz; ++p) { int x = -1, y = -1; Out o1 = run([&] { x = E::get(c.at(p)); }), o2 = run([&] { y = E::get(k.at(p)); }); VF_CHECK(o1 == OK && o2 == OK && x == this->m[i][p] && y == x, "wrong-at", "at(%zu) of size %zu", p, sz); }
#endif
        Snap b = snap(i); same(a, b, "at");
    }
    // copies and unequal-allocator moves of a container that became too large for the allocator's maximum
    void copies(int i) {
        if constexpr (CT::dyn && (P & AP_LIMIT) != 0) {
            C& c = *this->c[i]; Rng& r = this->rng; const size_t sz = c.size(), old = alloc_limit(); if (sz < 2) return;
            const size_t lim = r.chance(1, 2) ? sz - 1 : 1 + r.below(unsigned(sz - 1)); A al(r.chance(1, 2) ? 1 : 77); const int kind = int(r.below(4)); int j = (i + 1) % 3; C& d = *this->c[j]; const bool copyable = E::copyable;
            if (kind != 2 && !copyable) return;
            if (kind == 2 && al == c.get_allocator()) return; // takes the storage
            if (kind == 3 && (d.capacity() + CT::N + 1 >= sz || lim < d.capacity() + CT::N + 1)) return; // the target itself stays within the maximum
            static const char* const names[] = {"ctor(const&)", "ctor(const&,alloc)", "ctor(&&,alloc)", "operator=(const&)"};
            op_begin(names[kind], "s%d size=%zu max=%zu", i, sz, lim); distinct(mix(mix(sz, lim), unsigned(kind) * 977)); Snap a = snap(i), b = snap(j); alloc_limit() = lim; bool made = false;
            Out o = run([&] {
                if (kind == 2) { C x(std::move(c), al); made = x.size() == sz; }
                else if constexpr (E::copyable) { if (kind == 0) { C x(static_cast<const C&>(c)); made = x.size() == sz; } else if (kind == 1) { C x(static_cast<const C&>(c), al); made = x.size() == sz; } else d = static_cast<const C&>(c); } });
            alloc_limit() = old; (void)made; count(out_name(o));
            if (!CT::small || sz > CT::N) VF_CHECK(o == LENGTH, "error-absorbed", "%s of %zu elements with max_size %zu ended in %s instead of length_error", names[kind], sz, lim, out_name(o));
            else VF_CHECK(o == LENGTH || o == OK, "wrong-exception", "%s: %s", names[kind], out_name(o));
            if (o == LENGTH) { same(a, snap(i), names[kind]); same(b, snap(j), names[kind]); count("copies_refused"); }
#ifndef SFL_NO_EXCEPTIONS
            else { if (kind == 2) { c.clear(); this->m[i].clear(); } else if (kind == 3) this->m[j] = this->m[i]; }
            this->verify(i, "error-wrong-contents"); this->verify(j, "error-wrong-contents");
#endif
        }
        (void)i;
    }
    void lengths(int i) {
        if constexpr (CT::dyn) {
            C& c = *this->c[i]; Rng& r = this->rng; const size_t sz = c.size(), mx = c.max_size(); const size_t cap = c.capacity();
            if (P & AP_LIMIT) VF_CHECK(mx <= alloc_limit(), "max-size", "max_size() %zu above the allocator's %zu", mx, alloc_limit());
            // n: total wanted; k: number to add
            const bool over = r.chance(3, 4); size_t n, k; const size_t pos = r.below(unsigned(sz + 1));
            if (over || mx > 100000) { n = big(mx, sz); k = r.chance(1, 3) ? (mx - sz) + 1 + r.below(3) : n; if (n <= mx) n = mx + 1; if (k <= mx - sz) k = mx - sz + 1; }
            else { n = r.below(unsigned(mx + 1)); k = r.below(unsigned(mx - sz + 1)); if (r.chance(1, 3)) { n = mx; k = mx - sz; } }
            const bool mn = n > mx, mk = k > mx - sz; // must be refused
            const bool roomy = CT::front || CT::segmented || CT::small; // capacity not usable at the wanted end (or granted inline) counts towards max_size
            const bool yn = roomy, yk = roomy; auto val = E::make(7); auto refill = [&](std::vector<int>& m, size_t q) { m.resize(q, 0); };
            auto both = [&](std::vector<int>& m, int v) { // double-ended containers may fill at both ends
                if (!CT::front || n <= m.size()) { m.resize(n, v); return; }
                std::vector<int> got; { Quiet qq; for (auto it = c.begin(); it != c.end(); ++it) got.push_back(E::get(*it)); }
                for (size_t f = 0; f <= n - m.size(); ++f) { std::vector<int> t(f, v); t.insert(t.end(), m.begin(), m.end()); t.resize(n, v); if (t == got) { m = t; return; } } m.resize(n, v); };
            switch (r.below(CT::front ? 14 : 10)) {
            case 0: request("resize(n)", i, n, mn, yn, [&] { c.resize(n); }, [&](std::vector<int>& m) { both(m, 0); }); break;
            case 1: if constexpr (E::copyable) request("resize(n,value)", i, n, mn, yn, [&] { c.resize(n, val); }, [&](std::vector<int>& m) { both(m, 7); }); break;
            case 2: if constexpr (E::copyable) request("insert(n,value)", i, k, mk, yk, [&] { c.insert(c.cbegin() + std::ptrdiff_t(pos), k, val); }, [&](std::vector<int>& m) { m.insert(m.begin() + std::ptrdiff_t(pos), k, 7); }); break;
            case 3: if constexpr (E::copyable) { if (k > size_t(PTRDIFF_MAX)) k = size_t(PTRDIFF_MAX); const bool mk2 = k > mx - sz; request("insert(range)", i, k, mk2, yk, [&] { c.insert(c.cbegin() + std::ptrdiff_t(pos), Big<T>{0}, Big<T>{std::ptrdiff_t(k)}); }, [&](std::vector<int>& m) { std::vector<int> s; for (size_t q = 0; q < k; ++q) s.push_back(int(q % 9000) + 1); m.insert(m.begin() + std::ptrdiff_t(pos), s.begin(), s.end()); }); } break;
            case 4: if constexpr (E::copyable) request("assign(n,value)", i, n, mn, yn, [&] { c.assign(n, val); }, [&](std::vector<int>& m) { m.assign(n, 7); }); break;
            case 5: if constexpr (E::copyable) { if (n > size_t(PTRDIFF_MAX)) n = size_t(PTRDIFF_MAX); const bool mn2 = n > mx; request("assign(range)", i, n, mn2, yn, [&] { c.assign(Big<T>{0}, Big<T>{std::ptrdiff_t(n)}); }, [&](std::vector<int>& m) { m.clear(); for (size_t q = 0; q < n; ++q) m.push_back(int(q % 9000) + 1); }); } break;
            case 6: if constexpr (CT::reserve) request("reserve", i, n, mn, CT::small || CT::segmented, [&] { c.reserve(n); }, [&](std::vector<int>&) { VF_CHECK(c.capacity() >= n, "reserve-short", "reserve(%zu) left capacity %zu", n, size_t(c.capacity())); });
                else if constexpr (CT::reserve_fb) request("reserve_back", i, n, mn, true, [&] { c.reserve_back(n); }, [&](std::vector<int>&) { VF_CHECK(sz + c.available_back() >= n, "reserve-short", "reserve_back(%zu)", n); }); break;
            case 7: { A al(1); bool made = false; request("ctor(n)", i, n, mn, yn, [&] { C x(n, al); made = x.size() == n; }, [&](std::vector<int>&) { VF_CHECK(made, "wrong-size", "constructed container has the wrong size"); }); break; }
            case 8: if constexpr (E::copyable) { A al(1); bool made = false; if (r.chance(1, 2)) request("ctor(n,value)", i, n, mn, yn, [&] { C x(n, val, al); made = x.size() == n; }, [&](std::vector<int>&) { VF_CHECK(made, "wrong-size", "constructed container has the wrong size"); });
                else { if (n > size_t(PTRDIFF_MAX)) n = size_t(PTRDIFF_MAX); const bool mn2 = n > mx; request("ctor(range)", i, n, mn2, yn, [&] { C x(Big<T>{0}, Big<T>{std::ptrdiff_t(n)}, al); made = x.size() == n; }, [&](std::vector<int>&) { VF_CHECK(made, "wrong-size", "constructed container has the wrong size"); }); } } break;
            case 9: if (mx < 1000) { // fill up to max_size one by one, then one more of every kind
                    op_begin("fill-to-max", "size %zu cap %zu max %zu", sz, cap, mx);
#ifndef SFL_NO_EXCEPTIONS
                    while (c.size() < mx) { unsigned f = r.below(3); Out o = f == 0 ? run([&] { c.emplace_back(E::make(9)); }) : f == 1 ? run([&] { c.push_back(E::make(9)); }) : run([&] { c.emplace(c.cend(), E::make(9)); });
                        if (o == LENGTH && roomy) break; VF_CHECK(o == OK, "false-error", "push at size %zu below max_size %zu: %s", size_t(c.size()), mx, out_name(o)); this->m[i].push_back(9); VF_CHECK(c.capacity() <= mx || CT::small, "capacity-over-max", "capacity %zu over max_size %zu", size_t(c.capacity()), mx); }
                    this->verify(i, "error-wrong-contents"); count("filled_to_max");
#endif
                    const size_t s2 = c.size(); const bool full = s2 == mx; if (!full && !roomy) break; const bool mustf = full; (void)s2;
                    auto g = [&](std::vector<int>& m) { m.push_back(9); };
                    request("push_back at max", i, 1, mustf, roomy, [&] { c.push_back(E::make(9)); }, g);
                    request("emplace_back at max", i, 1, c.size() == mx, roomy, [&] { c.emplace_back(E::make(9)); }, g);
                    request("insert(end) at max", i, 1, c.size() == mx, roomy, [&] { c.insert(c.cend(), E::make(9)); }, g);
                    const size_t p2 = r.below(unsigned(c.size() + 1)); auto g2 = [&](std::vector<int>& m) { m.insert(m.begin() + std::ptrdiff_t(p2), 9); };
                    request("emplace at max", i, 1, c.size() == mx, roomy, [&] { c.emplace(c.cbegin() + std::ptrdiff_t(p2), E::make(9)); }, g2);
                    if constexpr (E::copyable) { auto v9 = E::make(9); request("insert(const&) at max", i, 1, c.size() == mx, roomy, [&] { c.insert(c.cbegin() + std::ptrdiff_t(p2), v9); }, g2); request("push_back(const&) at max", i, 1, c.size() == mx, roomy, [&] { c.push_back(v9); }, g);
                        request("insert(ilist) at max", i, 2, c.size() + 2 > mx, roomy, [&] { c.insert(c.cbegin() + std::ptrdiff_t(p2), {E::make(3), E::make(4)}); }, [&](std::vector<int>& m) { int q[] = {3, 4}; m.insert(m.begin() + std::ptrdiff_t(p2), q, q + 2); }); }
                    if constexpr (CT::front) { auto gf = [&](std::vector<int>& m) { m.insert(m.begin(), 9); }; request("push_front at max", i, 1, c.size() == mx, true, [&] { c.push_front(E::make(9)); }, gf); request("emplace_front at max", i, 1, c.size() == mx, true, [&] { c.emplace_front(E::make(9)); }, gf); }
                } break;
            case 10: if constexpr (CT::reserve_fb) request("reserve_front", i, n, mn, true, [&] { c.reserve_front(n); }, [&](std::vector<int>&) { VF_CHECK(sz + c.available_front() >= n, "reserve-short", "reserve_front(%zu)", n); }); break;
            case 11: if constexpr (CT::front) request("resize_front(n)", i, n, mn, yn, [&] { c.resize_front(n); }, [&](std::vector<int>& m) { if (n >= m.size()) m.insert(m.begin(), n - m.size(), 0); else m.erase(m.begin(), m.begin() + std::ptrdiff_t(m.size() - n)); }); break;
            case 12: if constexpr (CT::front && E::copyable) request("resize_front(n,value)", i, n, mn, yn, [&] { c.resize_front(n, val); }, [&](std::vector<int>& m) { if (n >= m.size()) m.insert(m.begin(), n - m.size(), 7); else m.erase(m.begin(), m.begin() + std::ptrdiff_t(m.size() - n)); }); break;
            default: if constexpr (CT::front) request("resize_back(n)", i, n, mn, yn, [&] { c.resize_back(n); }, [&](std::vector<int>& m) { refill(m, n); }); break;
            }
        }
    }
};
template <class T, unsigned P> void go(uint64_t cn) {
    Rng r0(mix(ctx().seed, cn) ^ 77); alloc_limit() = 1u << 20; // histories run below the limit ...
    ErrWorld<T, P> w(mix(ctx().seed, cn)); w.soft_max = CT::is_static ? CT::N : 12 + r0.below(12); w.max_n = 6;
    for (int round = 0; round < 4; ++round) {
        size_t s = 2 + w.rng.below(10); if (P & AP_LIMIT) alloc_limit() = 1u << 20;
        for (size_t i = 0; i < s; ++i) w.step();
        for (int q = 0; q < 3; ++q) {
            int i = int(w.rng.below(3));
            if (P & AP_LIMIT) { // ... then the allocator's maximum is lowered to just above what is in use
                size_t used = CT::N + 4; for (int j = 0; j < 3; ++j) { size_t u = w.c[j]->capacity() + CT::N + 1; if (u > used) used = u; }
                alloc_limit() = used + w.rng.below(40);
            }
#ifdef SFL_NO_EXCEPTIONS
            if (q == 0) w.ats(i);
#else
            w.ats(i);
#endif
            w.lengths(i); if (q == 1) w.copies(i);
        }
    }
    alloc_limit() = 1u << 20; add_sample(); w.verify_all(); w.finish_world();
}
int main(int argc, char** argv) {
    parse_args(argc, argv, CT::name()); elems(); constructed(); blocks().v.reserve(256); absurd_allocations_fail() = true;
    run_cases([](uint64_t n) {
        switch (n % 4) {
        case 0: go<Obj<EF_NTM>, AP_LIMIT | AP_POCMA>(n); break;
        case 1: go<int, AP_LIMIT>(n); break;
        case 2: go<ObjM<EF_NTM>, AP_LIMIT>(n); break;
        case 3: go<Obj<0>, AP_AEQ>(n); break;
        }
    });
    return finish();
}
