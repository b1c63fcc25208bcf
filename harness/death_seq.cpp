// C17, sequence containers
#include "seq.hpp"
#include "death.hpp"
using namespace vf;
template <class T, class A> struct DeathWorld : SeqWorld<T, A> {
    using B = SeqWorld<T, A>; using C = typename B::C; using E = EV<T>; using CIt = typename C::const_iterator; using B::c; using B::rng;
    explicit DeathWorld(uint64_t s) : B(s) {}
    // iterators that do not belong into [cbegin, cend]
    bool foreign(int i, CIt& out, const char*& how) {
        C& k = *c[i]; const size_t sz = k.size();
        switch (rng.below(4)) {
        case 0: case 1: { int j = (i + 1 + int(rng.below(2))) % 3; C& o = *c[j]; if (o.size() == 0) return false; out = o.cbegin() + std::ptrdiff_t(rng.below(unsigned(o.size()))); how = "an iterator of another container"; return true; }
        case 2: { size_t room = 0; if constexpr (CT::front) room = k.available_back(); else room = size_t(k.capacity()) - sz; if (!room) return false; out = k.cend() + 1 + std::ptrdiff_t(rng.below(unsigned(room > 40 ? 40 : room))); how = "an iterator past the end"; return true; }
        default: { size_t room = 0; if constexpr (CT::front) room = k.available_front(); else if (!CT::segmented && sz) room = 1; if (!room) return false; out = k.cbegin() - 1 - std::ptrdiff_t(rng.below(unsigned(room > 40 ? 40 : room))); how = "an iterator before the beginning"; return true; }
        }
    }
    void misuse(int i) {
        C& k = *c[i]; const C& ck = k; const size_t sz = k.size(); volatile size_t sink = 0; (void)sink;
        if (sz == 0) {
            die("pop_back", "empty", [&] { k.pop_back(); }); die("back", "empty", [&] { sink = size_t(E::get(k.back())); }); die("back const", "empty", [&] { sink = size_t(E::get(ck.back())); });
            die("front", "empty", [&] { sink = size_t(E::get(k.front())); }); die("front const", "empty", [&] { sink = size_t(E::get(ck.front())); });
            if constexpr (CT::front) die("pop_front", "empty", [&] { k.pop_front(); });
            die("erase(pos)", "end of an empty container", [&] { k.erase(k.cbegin()); });
        }
        { const size_t bad[] = {sz, sz + 1, size_t(k.capacity()) > sz ? size_t(k.capacity()) : sz, ~size_t(0), sz + rng.below(100)}; size_t p = bad[rng.below(5)];
            die("operator[]", "an index out of range", [&] { sink = size_t(E::get(k[p])); }); die("operator[] const", "an index out of range", [&] { sink = size_t(E::get(ck[p])); });
            size_t q = p > sz ? p : sz + 1; die("nth", "an index out of range", [&] { auto it = k.nth(q); (void)it; }); die("nth const", "an index out of range", [&] { auto it = ck.nth(q); (void)it; }); }
        CIt f; const char* how = "";
        if (foreign(i, f, how)) {
            die("index_of", how, [&] { sink = k.index_of(f); });
            auto v = [&] { return E::make(3); };
            switch (rng.below(4)) { case 0: die("insert(&&)", how, [&] { k.insert(f, v()); }); break; case 1: die("emplace", how, [&] { k.emplace(f, v()); }); break;
            case 2: if constexpr (E::copyable) { auto x = v(); die("insert(const&)", how, [&] { k.insert(f, x); }); } break;
            default: if constexpr (E::copyable) { auto x = v(); size_t n = rng.below(3); if (CT::is_static && n > CT::N - sz) n = 0; die("insert(n,value)", how, [&] { k.insert(f, n, x); }); } break; }
            if constexpr (E::copyable) { T a[2] = {v(), v()}; size_t n = rng.below(3); if (CT::is_static && n > CT::N - sz) n = 0; if (rng.chance(1, 2)) die("insert(range)", how, [&] { k.insert(f, a, a + n); }); else if (!CT::is_static || CT::N - sz >= 2) die("insert(ilist)", how, [&] { k.insert(f, {E::make(1), E::make(2)}); }); }
            die("erase(pos)", how, [&] { k.erase(f); });
            if (sz) { auto g = k.cbegin() + std::ptrdiff_t(rng.below(unsigned(sz + 1))); if (rng.chance(1, 2)) die("erase(range)", "a foreign first", [&] { k.erase(f, g); }); else die("erase(range)", "a foreign last", [&] { k.erase(g, f); }); }
            die("erase(range)", "both foreign", [&] { k.erase(f, f); });
        }
        die("erase(pos)", "end()", [&] { k.erase(k.cend()); });
        if (sz) { size_t a = rng.below(unsigned(sz)), b = a + 1 + rng.below(unsigned(sz - a)); die("erase(range)", "a reversed range", [&] { k.erase(k.cbegin() + std::ptrdiff_t(b), k.cbegin() + std::ptrdiff_t(a)); }); }
        if constexpr (CT::dyn) { // swap of unequal allocators that do not propagate
            int j = (i + 1) % 3; if (!(k.get_allocator() == c[j]->get_allocator()) && !std::allocator_traits<A>::propagate_on_container_swap::value) die("swap", "unequal allocators that do not propagate", [&] { k.swap(*c[j]); });
        }
        if constexpr (CT::is_static) {
            auto v = [&] { return E::make(3); };
            if (sz == CT::N) { CIt p = k.cbegin() + std::ptrdiff_t(rng.below(unsigned(sz + 1)));
                die("push_back(&&)", "a full container", [&] { k.push_back(v()); }); die("emplace_back", "a full container", [&] { k.emplace_back(v()); }); die("insert(&&)", "a full container", [&] { k.insert(p, v()); }); die("emplace", "a full container", [&] { k.emplace(p, v()); });
                if constexpr (E::copyable) { auto x = v(); die("push_back(const&)", "a full container", [&] { k.push_back(x); }); die("insert(const&)", "a full container", [&] { k.insert(p, x); }); } }
            size_t over = CT::N + 1 + (rng.chance(1, 2) ? 0 : rng.below(20)), more = CT::N - sz + 1 + (rng.chance(1, 2) ? 0 : rng.below(20)); CIt p = k.cbegin() + std::ptrdiff_t(rng.below(unsigned(sz + 1)));
            die("resize(n)", "more than the capacity", [&] { k.resize(over); }); die("ctor(n)", "more than the capacity", [&] { C x(over); sink = x.size(); });
            die("resize(n,default_init)", "more than the capacity", [&] { k.resize(over, sfl::default_init_t()); }); die("ctor(n,default_init)", "more than the capacity", [&] { C x(over, sfl::default_init_t()); sink = x.size(); });
            if constexpr (E::copyable) { auto x = v(); std::vector<T> src; for (size_t q = 0; q < over; ++q) src.push_back(v()); const T* b = src.data(); 
                die("resize(n,value)", "more than the capacity", [&] { k.resize(over, x); }); die("assign(n,value)", "more than the capacity", [&] { k.assign(over, x); }); die("insert(n,value)", "more than fits", [&] { k.insert(p, more, x); });
                die("ctor(n,value)", "more than the capacity", [&] { C y(over, x); sink = y.size(); }); die("ctor(range)", "more than the capacity", [&] { C y(b, b + over); sink = y.size(); });
                die("assign(range)", "more than the capacity", [&] { k.assign(b, b + over); }); die("insert(range)", "more than fits", [&] { k.insert(p, b, b + (more < over ? more : over)); });
                die("assign(input range)", "more than the capacity", [&] { k.assign(SP<T>{b}, SP<T>{b + over}); }); die("insert(input range)", "more than fits", [&] { k.insert(p, SP<T>{b}, SP<T>{b + (more < over ? more : over)}); }); die("ctor(input range)", "more than the capacity", [&] { C y(SP<T>{b}, SP<T>{b + over}); sink = y.size(); });
            }
        }
        if constexpr (CT::is_static && CT::N == 10 && E::copyable) {
            auto v = [&](int q) { return E::make(q + 1); };
            die("assign(ilist)", "more than the capacity", [&] { k.assign({v(0), v(1), v(2), v(3), v(4), v(5), v(6), v(7), v(8), v(9), v(10)}); }); die("operator=(ilist)", "more than the capacity", [&] { k = {v(0), v(1), v(2), v(3), v(4), v(5), v(6), v(7), v(8), v(9), v(10)}; }); die("ctor(ilist)", "more than the capacity", [&] { C y({v(0), v(1), v(2), v(3), v(4), v(5), v(6), v(7), v(8), v(9), v(10)}); sink = y.size(); });
            if (sz > 8) die("insert(ilist)", "more than fits", [&] { k.insert(k.cbegin(), {v(0), v(1)}); });
        }
    }
};

template <class T, unsigned P> void go(uint64_t cn) {
    using A = MonAlloc<T, P>;
    DeathWorld<T, A> w(mix(ctx().seed, cn)); w.soft_max = CT::is_static ? CT::N : 20; w.max_n = 6;
    if (w.rng.chance(1, 3)) { w.w.clear = 8; w.w.pop = 20; w.w.erase = 25; } else if (CT::is_static) { w.w.push = 60; }
    for (int round = 0; round < 3; ++round) { size_t s = 1 + w.rng.below(14); for (size_t i = 0; i < s; ++i) w.step(); w.misuse(int(w.rng.below(3))); }
    add_sample(); w.verify_all(); w.finish_world();
}
int main(int argc, char** argv) {
    parse_args(argc, argv, CT::name()); elems(); constructed(); blocks().v.reserve(256); page(); devnull();
    run_cases([](uint64_t n) {
        switch (n % 3) {
        case 0: go<Obj<EF_NTM>, AP_POCMA>(n); break;
        case 1: go<int, 0>(n); break;
        case 2: go<ObjM<0>, AP_POCCA>(n); break;
        }
    });
    return finish();
}
