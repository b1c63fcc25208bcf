// C18: threads over containers. Nothing in here synchronizes the workers between the start barrier and the join
// (the bookkeeping of overlaps uses relaxed atomics, which create no happens-before), so ThreadSanitizer sees every
// pair of conflicting accesses, and results are compared with models owned by each thread.
#ifndef VF_PAR_HPP
#define VF_PAR_HPP
#include "core.hpp"
#include <atomic>
#include <set>
#include <string>
#include <thread>
#include <vector>
namespace vf {
static const int NT = 4;
struct Shared { std::atomic<int> ready{0}; std::atomic<int> go{0}; std::atomic<int> cur[NT]; std::atomic<int> failing{0}; };
inline Shared& sh() { static Shared s; return s; }
struct Th { int id; Rng rng; uint64_t ops, checks, overlapped; std::set<uint32_t> pairs; const char* name; std::set<std::string> names; Th(int i, uint64_t s) : id(i), rng(s), ops(0), checks(0), overlapped(0), name("") {}
    void op(int code, const char* n) { name = n; names.insert(n); ++ops; bool any = false; sh().cur[id].store(code, std::memory_order_relaxed); for (int j = 0; j < NT; ++j) if (j != id) { int o = sh().cur[j].load(std::memory_order_relaxed); if (o >= 0) { any = true; pairs.insert(uint32_t(code) * 256 + uint32_t(o)); } } overlapped += any; }
    template <class... A> void check(bool ok, const char* kind, const char* fmt, A... a) { ++checks; if (ok) return; while (sh().failing.exchange(1)) {} std::snprintf(ctx().op, sizeof ctx().op, "%s", name); fail(kind, fmt, a...); } };
template <class F> void parallel(const char* phase, uint64_t seed, F f) {
    op_begin(phase); std::vector<Th> th; for (int i = 0; i < NT; ++i) th.emplace_back(i, mix(seed, uint64_t(i) + 1));
    sh().ready = 0; sh().go = 0; for (int i = 0; i < NT; ++i) sh().cur[i] = -1;
    std::vector<std::thread> v; for (int i = 0; i < NT; ++i) v.emplace_back([&, i] { sh().ready.fetch_add(1, std::memory_order_relaxed); while (!sh().go.load(std::memory_order_acquire)) {} f(th[size_t(i)]); sh().cur[i].store(-1, std::memory_order_relaxed); });
    while (sh().ready.load(std::memory_order_relaxed) < NT) std::this_thread::yield();
    sh().go.store(1, std::memory_order_release); for (auto& t : v) t.join();
    for (auto& t : th) { ctx().n_ops += t.ops; ctx().n_checks += t.checks; count("overlapped_operations", t.overlapped); for (uint32_t p : t.pairs) distinct(mix(mix(p, std::strlen(phase)), std::strlen(ctx().cont) * 37 + uint64_t(phase[0]))); for (auto& n : t.names) count((std::string("threads:") + n).c_str()); }
    count(phase);
}
// an element that owns memory, so that sharing through elements is visible too
struct Box { int* p; Box() : p(new int(0)) {} explicit Box(int v) : p(new int(v)) {} Box(const Box& o) : p(new int(*o.p)) {} Box(Box&& o) noexcept : p(o.p) { o.p = nullptr; } Box& operator=(const Box& o) { if (this != &o) { int* q = new int(*o.p); delete p; p = q; } return *this; } Box& operator=(Box&& o) noexcept { if (this != &o) { delete p; p = o.p; o.p = nullptr; } return *this; } ~Box() { delete p; }
    int get() const { return p ? *p : -1; } friend bool operator==(const Box& a, const Box& b) { return a.get() == b.get(); } friend bool operator!=(const Box& a, const Box& b) { return !(a == b); } friend bool operator<(const Box& a, const Box& b) { return a.get() < b.get(); } friend bool operator>(const Box& a, const Box& b) { return b < a; } friend bool operator<=(const Box& a, const Box& b) { return !(b < a); } friend bool operator>=(const Box& a, const Box& b) { return !(a < b); } };
inline int val(int x) { return x; } inline int val(const Box& b) { return b.get(); } inline int val(long long x) { return int(x); }
}
#endif
