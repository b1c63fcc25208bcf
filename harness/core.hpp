// Core of the monitoring harness: RNG, verdict reporting, counters, fault controller.
// Written in C++11 + "if constexpr" (accepted as extension by GCC and Clang in every mode).
#ifndef VF_CORE_HPP
#define VF_CORE_HPP
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <string>
#include <vector>
#include <type_traits>
#include <utility>
#include <new>
#include <unistd.h>
#include <fcntl.h>
#include <sys/mman.h>

namespace vf {

// ---- deterministic RNG ------------------------------------------------------
struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed = 1) : s(seed * 0x9E3779B97F4A7C15ull + 0xD1B54A32D192ED03ull) { next(); next(); }
    uint64_t next() {
        s += 0x9E3779B97F4A7C15ull;
        uint64_t z = s;
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    unsigned below(unsigned n) { return n ? unsigned(next() % n) : 0u; }
    int range(int a, int b) { return a + int(below(unsigned(b - a + 1))); }
    bool chance(unsigned num, unsigned den) { return below(den) < num; }
};

inline uint64_t mix(uint64_t h, uint64_t x) {
    h ^= x + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2);
    h *= 0xff51afd7ed558ccdull; h ^= h >> 32;
    return h;
}

// ---- status page shared with the orchestrator ---------------------------------
struct Status { uint64_t case_no; uint64_t step; char op[96]; };

// named counters (a plain vector: no uninstrumented library code, so usable under MemorySanitizer)
struct CounterMap {
    struct E { const char* ptr; const char* first; uint64_t second; };
    std::vector<E> v;
    uint64_t& operator[](const char* n) {
        for (auto& e : v) if (e.ptr == n && !std::strcmp(e.first, n)) return e.second;
        for (auto& e : v) if (!std::strcmp(e.first, n)) { e.ptr = n; return e.second; }
        v.push_back(E{n, strdup(n), 0}); return v.back().second;
    }
    std::vector<E>::iterator begin() { return v.begin(); }
    std::vector<E>::iterator end() { return v.end(); }
};

// ---- sanitizer interface: memory the harness hands out starts unreadable -------------
#if defined(__SANITIZE_ADDRESS__)
#define VF_ASAN 1
#elif defined(__has_feature)
#if __has_feature(address_sanitizer)
#define VF_ASAN 1
#endif
#if __has_feature(memory_sanitizer)
#define VF_MSAN 1
#endif
#endif
#if defined(VF_ASAN) && defined(VF_POISON)
extern "C" void __asan_poison_memory_region(void const volatile*, size_t);
extern "C" void __asan_unpoison_memory_region(void const volatile*, size_t);
inline void mem_poison(const void* p, size_t n) { __asan_poison_memory_region(p, n); }
inline void mem_unpoison(const void* p, size_t n) { __asan_unpoison_memory_region(p, n); }
#else
inline void mem_poison(const void*, size_t) {}
inline void mem_unpoison(const void*, size_t) {}
#endif
#if defined(VF_MSAN)
#define VF_NOMSAN __attribute__((no_sanitize("memory")))
extern "C" void __msan_allocated_memory(const volatile void*, size_t);
extern "C" void __msan_unpoison(const volatile void*, size_t);
#else
#define VF_NOMSAN
#endif
inline void scrub(void* p, size_t n, int fill) { // give fresh (raw) memory a known hostile content, or an undefined one
    mem_unpoison(p, n);
    std::memset(p, fill, n);
#if defined(VF_MSAN)
    __msan_allocated_memory(p, n);
#endif
}

struct Ctx {
    const char* cont;            // container / configuration label
    uint64_t seed;
    bool thorough;
    bool trace;
    uint64_t case_no;
    Status* status;
    Status local_status;
    char op[96];                 // current operation (for keys)
    char oplog[64][160];         // ring of the operations of the current case
    unsigned oplog_n;
    // observations
    uint64_t n_ops, n_cases, n_checks;
    CounterMap* counters;
    std::vector<std::string>* samples;
    uint32_t* bitmap;            // distinct shapes, linear counting over 2^22 bits
    const char* phase;
    Ctx() : cont("?"), seed(1), thorough(false), trace(false), case_no(0), status(nullptr),
            oplog_n(0), n_ops(0), n_cases(0), n_checks(0),
            counters(new CounterMap()), samples(new std::vector<std::string>()),
            bitmap((uint32_t*)calloc(1u << 17, 4)), phase("") {
        std::memset(op, 0, sizeof op); status = &local_status; std::memset(status, 0, sizeof *status);
    }
};
inline Ctx& ctx() { static Ctx* c = new Ctx(); return *c; }

inline void count(const char* name, uint64_t n = 1) { (*ctx().counters)[name] += n; }
inline void distinct(uint64_t h) { h = mix(h, 0x1234567); uint32_t b = uint32_t(h >> 20) & ((1u << 22) - 1); ctx().bitmap[b >> 5] |= 1u << (b & 31); }

// begin an operation: name is used in violation keys, text in the replay log
inline void op_begin(const char* name, const char* fmt = nullptr, ...) {
    Ctx& c = ctx();
    std::snprintf(c.op, sizeof c.op, "%s", name);
    std::memcpy(c.status->op, c.op, sizeof c.op);
    c.status->step++;
    c.n_ops++;
    char* dst = c.oplog[c.oplog_n % 64];
    int k = std::snprintf(dst, 160, "%s ", name);
    if (fmt && k < 150) { va_list ap; va_start(ap, fmt); std::vsnprintf(dst + k, 160 - k, fmt, ap); va_end(ap); }
    c.oplog_n++;
    if (c.trace) { std::fprintf(stderr, "  op: %s\n", dst); std::fflush(stderr); }
}

inline void case_begin(uint64_t n) {
    Ctx& c = ctx();
    c.case_no = n; c.status->case_no = n; c.status->step = 0; c.oplog_n = 0; c.n_cases++;
    std::snprintf(c.op, sizeof c.op, "start"); std::memcpy(c.status->op, c.op, sizeof c.op);
    if (c.trace) std::fprintf(stderr, "case %llu\n", (unsigned long long)n);
}

VF_NOMSAN inline std::string oplog_text(unsigned maxn = 64) {
    Ctx& c = ctx();
    std::string s;
    unsigned n = c.oplog_n < maxn ? c.oplog_n : maxn;
    if (n > 64) n = 64;
    for (unsigned i = c.oplog_n - n; i < c.oplog_n; ++i) { s += c.oplog[i % 64]; s += " | "; }
    return s;
}

VF_NOMSAN inline std::string jesc(const std::string& s) {
    std::string o;
    for (char ch : s) {
        if (ch == '"' || ch == '\\') { o += '\\'; o += ch; }
        else if ((unsigned char)ch < 32) o += ' ';
        else o += ch;
    }
    return o;
}

// report a violation and stop: what follows a violated invariant means nothing
[[noreturn]] inline void fail(const char* kind, const char* fmt, ...) {
    char msg[1024];
    va_list ap; va_start(ap, fmt); std::vsnprintf(msg, sizeof msg, fmt, ap); va_end(ap);
    Ctx& c = ctx();
    std::string log = oplog_text();
    std::printf("VF-FAIL {\"cont\":\"%s\",\"op\":\"%s\",\"kind\":\"%s\",\"case\":%llu,\"phase\":\"%s\",\"msg\":\"%s\",\"log\":\"%s\"}\n",
                c.cont, c.op, kind, (unsigned long long)c.case_no, c.phase, jesc(msg).c_str(), jesc(log).c_str());
    std::fflush(stdout);
    _exit(101);
}
#define VF_CHECK(cond, kind, ...) do { ++::vf::ctx().n_checks; if (!(cond)) ::vf::fail(kind, __VA_ARGS__); } while (0)

// ---- operation counters ---------------------------------------------------------
struct Counters {
    uint64_t dflt, conv, copy, move, cassign, massign, dtor, cmp, alloc, dealloc, pred, iterop, fk_l, fk_r;
    uint64_t ctor_total() const { return dflt + conv + copy + move; }
    uint64_t elem_total() const { return ctor_total() + cassign + massign; }
    uint64_t copies() const { return copy + cassign; }
};
inline Counters& cnt() { static Counters c = Counters(); return c; }

// ---- fault controller --------------------------------------------------------------
struct Injected { int token; };
struct Fault {
    bool armed; bool fired; long seen; long at; const char* where;
    unsigned mask;                         // kinds that may throw
};
enum FaultKind { FK_ELEM = 1, FK_ALLOC = 2, FK_CMP = 4, FK_ITER = 8 };
inline Fault& flt() { static Fault f = Fault{false, false, 0, 0, "", 15}; return f; }
inline void fault_point(FaultKind k, const char* where) {
    Fault& f = flt();
    if (!f.armed || !(f.mask & k)) return;
    if (++f.seen == f.at) {
        f.fired = true; f.armed = false; f.where = where;
        throw Injected{42};
    }
}
inline bool& in_lib() { static bool b = false; return b; } // a library call of the history is on the stack
inline void arm(long at, unsigned mask = 15) { Fault& f = flt(); f.armed = true; f.fired = false; f.seen = 0; f.at = at; f.where = ""; f.mask = mask; }
inline void disarm() { flt().armed = false; }

// ---- main helper --------------------------------------------------------------------------
struct Options { uint64_t from, to; int64_t only; unsigned shard, nshard; const char* out; };
inline Options& options() { static Options o{0, 0, -1, 0, 1, ""}; return o; }

inline void parse_args(int argc, char** argv, const char* cont) {
    Ctx& c = ctx(); Options& o = options();
    c.cont = cont;
    o.from = 0; o.to = 1000; o.only = -1; o.shard = 0; o.nshard = 1;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        if (a == "--seed") c.seed = strtoull(argv[++i], 0, 10);
        else if (a == "--cases") o.to = strtoull(argv[++i], 0, 10);
        else if (a == "--from") o.from = strtoull(argv[++i], 0, 10);
        else if (a == "--only") o.only = strtoll(argv[++i], 0, 10);
        else if (a == "--shard") { o.shard = atoi(argv[++i]); o.nshard = atoi(argv[++i]); }
        else if (a == "--thorough") c.thorough = true;
        else if (a == "--trace") c.trace = true;
        else if (a == "--out") o.out = argv[++i];
        else if (a == "--status") {
            int fd = open(argv[++i], O_RDWR | O_CREAT, 0644);
            if (fd >= 0 && ftruncate(fd, sizeof(Status)) == 0) {
                void* p = mmap(nullptr, sizeof(Status), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
                if (p != MAP_FAILED) { c.status = (Status*)p; std::memset(p, 0, sizeof(Status)); }
                close(fd);
            }
        }
        else { std::fprintf(stderr, "bad arg %s\n", argv[i]); std::exit(3); }
    }
}

template <class F>
int run_cases(F f) {
    Options& o = options();
    if (o.only >= 0) { case_begin(uint64_t(o.only)); f(uint64_t(o.only)); }
    else for (uint64_t i = o.from; i < o.to; ++i) {
        if (i % o.nshard != o.shard) continue;
        case_begin(i);
        f(i);
    }
    return 0;
}

VF_NOMSAN inline void add_sample() { if (ctx().samples->size() < 3) { char b[64]; std::snprintf(b, sizeof b, "case %llu: ", (unsigned long long)ctx().case_no); ctx().samples->push_back(b + oplog_text(12)); } }

VF_NOMSAN inline int finish() {
    Ctx& c = ctx();
    std::string s = "VF-STATS {";
    char b[256];
    std::snprintf(b, sizeof b, "\"ops\":%llu,\"cases\":%llu,\"checks\":%llu,\"counters\":{",
                  (unsigned long long)c.n_ops, (unsigned long long)c.n_cases, (unsigned long long)c.n_checks);
    s += b; bool first = true;
    for (auto& kv : *c.counters) { if (!first) s += ","; first = false; s += "\"" + jesc(kv.first) + "\":" + std::to_string((unsigned long long)kv.second); }
    s += "},\"samples\":["; first = true;
    for (auto& x : *c.samples) { if (!first) s += ","; first = false; s += "\"" + jesc(x) + "\""; }
    s += "]}";
#if defined(VF_MSAN)
    __msan_unpoison(&s, sizeof s); __msan_unpoison(s.data(), s.size() + 1); __msan_unpoison(c.bitmap, 1u << 19);
#endif
    std::printf("%s\n", s.c_str());
    if (options().out[0]) {
        FILE* f = std::fopen(options().out, "wb");
        if (f) { std::fwrite(c.bitmap, 4, 1u << 17, f); std::fclose(f); }
    }
    std::fflush(stdout);
    return 0;
}

} // namespace vf
#endif
