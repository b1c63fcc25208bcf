// C23: the same histories in every build configuration. C++11, no exceptions, no dependency on the other harness files.
// Every return value, content, size and capacity goes into a digest per case; the digests of all configurations are compared.
#ifndef VF_DIGEST_HPP
#define VF_DIGEST_HPP
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <functional>
#include <initializer_list>
#include <iterator>
#include <map>
#include <memory>
#include <string>
#include <sys/mman.h>
#include <tuple>
#include <unistd.h>
#include <utility>
#include <vector>
namespace vd {
typedef uint64_t u64; typedef std::size_t sz;
inline u64 mix(u64 a, u64 b) { u64 x = a ^ (b + 0x9e3779b97f4a7c15ull + (a << 6) + (a >> 2)); x ^= x >> 33; x *= 0xff51afd7ed558ccdull; x ^= x >> 33; x *= 0xc4ceb9fe1a85ec53ull; x ^= x >> 33; return x; }
struct Rng { u64 s; explicit Rng(u64 x) : s(x) {} u64 next() { s += 0x9e3779b97f4a7c15ull; u64 z = s; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); } unsigned below(unsigned n) { return n ? unsigned(next() % n) : 0; } };
struct Status { u64 case_no, step; char op[96]; };
struct St { Status local, *st; u64 seed, from, to; long long only; unsigned shard, nshard; bool trace; const char* out; u64 d, ops, cases, checks; std::vector<std::pair<u64, u64> > digs; uint32_t* bitmap; std::map<std::string, u64> opcount; };
inline St& S() { static St s; return s; }
inline void distinct(u64 h) { h = mix(h, 0x1234567); uint32_t b = uint32_t(h >> 20) & ((1u << 22) - 1); S().bitmap[b >> 5] |= 1u << (b & 31); }
inline void op(const char* n, u64 a = 0, u64 b = 0) { St& s = S(); ++s.ops; ++s.opcount[n]; std::strncpy(s.st->op, n, 95); s.st->step++; distinct(mix(mix(a, b), mix(std::strlen(n), u64(n[0]) * 131 + u64(n[std::strlen(n) / 2])))); if (s.trace) std::printf("op %llu %s %llu %llu\n", (unsigned long long)s.ops, n, (unsigned long long)a, (unsigned long long)b); }
inline void add(u64 v) { St& s = S(); s.d = mix(s.d, v); ++s.checks; }
inline void note(const char* what, u64 v) { add(v); if (S().trace) std::printf("  %s %llu\n", what, (unsigned long long)v); }
inline void init(int argc, char** argv) {
    St& s = S(); s.st = &s.local; s.seed = 1; s.from = 0; s.to = 100; s.only = -1; s.shard = 0; s.nshard = 1; s.trace = false; s.out = ""; s.d = s.ops = s.cases = s.checks = 0; s.bitmap = (uint32_t*)std::calloc(1u << 17, 4); std::memset(&s.local, 0, sizeof s.local);
    for (int i = 1; i < argc; ++i) { std::string a = argv[i]; if (a == "--seed") s.seed = std::strtoull(argv[++i], 0, 10); else if (a == "--cases") s.to = std::strtoull(argv[++i], 0, 10); else if (a == "--from") s.from = std::strtoull(argv[++i], 0, 10); else if (a == "--only") s.only = std::strtoll(argv[++i], 0, 10);
        else if (a == "--shard") { s.shard = unsigned(std::atoi(argv[++i])); s.nshard = unsigned(std::atoi(argv[++i])); } else if (a == "--trace") s.trace = true; else if (a == "--thorough") {} else if (a == "--out") s.out = argv[++i];
        else if (a == "--status") { int fd = open(argv[++i], O_RDWR | O_CREAT, 0644); if (fd >= 0 && ftruncate(fd, sizeof(Status)) == 0) { void* p = mmap(0, sizeof(Status), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0); if (p != MAP_FAILED) { s.st = (Status*)p; std::memset(p, 0, sizeof(Status)); } close(fd); } } else { std::fprintf(stderr, "bad arg\n"); std::exit(3); } }
}
template <class F> void cases(F f) { St& s = S(); for (u64 i = s.only >= 0 ? u64(s.only) : s.from; i < (s.only >= 0 ? u64(s.only) + 1 : s.to); ++i) { if (s.only < 0 && i % s.nshard != s.shard) continue; s.st->case_no = i; s.st->step = 0; ++s.cases; s.d = 0; f(i); s.digs.push_back(std::make_pair(i, s.d)); } }
inline int finish() {
    St& s = S(); std::printf("VF-STATS {\"ops\":%llu,\"cases\":%llu,\"checks\":%llu,\"counters\":{", (unsigned long long)s.ops, (unsigned long long)s.cases, (unsigned long long)s.checks); bool first = true;
    for (std::map<std::string, u64>::iterator i = s.opcount.begin(); i != s.opcount.end(); ++i) { std::printf("%s\"op:%s\":%llu", first ? "" : ",", i->first.c_str(), (unsigned long long)i->second); first = false; }
    std::printf("},\"samples\":[\"case 0: digest %016llx over %llu values\"]}\n", (unsigned long long)(s.digs.empty() ? 0 : s.digs[0].second), (unsigned long long)s.checks);
    if (s.out[0]) { if (FILE* f = std::fopen(s.out, "wb")) { std::fwrite(s.bitmap, 4, 1u << 17, f); std::fclose(f); } std::string n = std::string(s.out) + ".dig"; if (FILE* f = std::fopen(n.c_str(), "w")) { for (sz i = 0; i < s.digs.size(); ++i) std::fprintf(f, "%llu %016llx\n", (unsigned long long)s.digs[i].first, (unsigned long long)s.digs[i].second); std::fclose(f); } }
    return 0;
}
// element types: scalar, heap-owning copyable, move-only, throwing-move copyable
struct Str { int* p; Str() : p(new int(0)) {} Str(int v) : p(new int(v)) {} Str(const Str& o) : p(new int(*o.p)) {} Str(Str&& o) noexcept : p(o.p) { o.p = new int(-1); } Str& operator=(const Str& o) { *p = *o.p; return *this; } Str& operator=(Str&& o) noexcept { std::swap(p, o.p); return *this; } ~Str() { delete p; } };
struct Thr { int v; Thr() : v(0) {} Thr(int x) : v(x) {} Thr(const Thr& o) : v(o.v) {} Thr(Thr&& o) noexcept(false) : v(o.v) { o.v = -1; } Thr& operator=(const Thr& o) { v = o.v; return *this; } Thr& operator=(Thr&& o) noexcept(false) { v = o.v; if (&o != this) o.v = -1; return *this; } ~Thr() { v = -2; } };
struct Mov { std::unique_ptr<int> p; Mov() : p(new int(0)) {} Mov(int v) : p(new int(v)) {} Mov(Mov&& o) noexcept : p(std::move(o.p)) {} Mov& operator=(Mov&& o) noexcept { p = std::move(o.p); return *this; } Mov(const Mov&) = delete; Mov& operator=(const Mov&) = delete; };
inline int val(int x) { return x; } inline int val(const Str& x) { return *x.p; } inline int val(const Thr& x) { return x.v; } inline int val(const Mov& x) { return x.p ? *x.p : -1; }
#define VD_CMP(T) inline bool operator==(const T& a, const T& b) { return val(a) == val(b); } inline bool operator!=(const T& a, const T& b) { return val(a) != val(b); } inline bool operator<(const T& a, const T& b) { return val(a) < val(b); } inline bool operator>(const T& a, const T& b) { return val(a) > val(b); } inline bool operator<=(const T& a, const T& b) { return val(a) <= val(b); } inline bool operator>=(const T& a, const T& b) { return val(a) >= val(b); }
VD_CMP(Str) VD_CMP(Thr) VD_CMP(Mov)
template <class T> struct InIt { typedef std::input_iterator_tag iterator_category; typedef T value_type; typedef std::ptrdiff_t difference_type; typedef const T* pointer; typedef const T& reference; const T* p; const T& operator*() const { return *p; } InIt& operator++() { ++p; return *this; } InIt operator++(int) { InIt t = *this; ++p; return t; } };
template <class T> bool operator==(InIt<T> a, InIt<T> b) { return a.p == b.p; } template <class T> bool operator!=(InIt<T> a, InIt<T> b) { return a.p != b.p; }
template <class T> struct FwIt { typedef std::forward_iterator_tag iterator_category; typedef T value_type; typedef std::ptrdiff_t difference_type; typedef const T* pointer; typedef const T& reference; const T* p; const T& operator*() const { return *p; } FwIt& operator++() { ++p; return *this; } FwIt operator++(int) { FwIt t = *this; ++p; return t; } };
template <class T> bool operator==(FwIt<T> a, FwIt<T> b) { return a.p == b.p; } template <class T> bool operator!=(FwIt<T> a, FwIt<T> b) { return a.p != b.p; }
struct True {}; struct False {};
template <bool B> struct Bool { typedef True type; }; template <> struct Bool<false> { typedef False type; };
}
#endif
