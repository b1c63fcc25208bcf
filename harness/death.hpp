// C17: a call outside its precondition runs in a forked child; it must end in an assertion failure (and abort) before
// any sanitizer report, signal, exception or normal return.
#ifndef VF_DEATH_HPP
#define VF_DEATH_HPP
#include "core.hpp"
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <iterator>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
namespace vf {
struct DeathPage { volatile int asserted, in_child; char expr[160]; };
inline DeathPage& page() { static DeathPage* p = static_cast<DeathPage*>(mmap(nullptr, sizeof(DeathPage), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0)); return *p; }
inline int& devnull() { static int fd = open("/dev/null", O_WRONLY); return fd; }
}
extern "C" void __assert_fail(const char* e, const char* f, unsigned line, const char* fn) noexcept {
    if (vf::page().in_child) { vf::page().asserted = 1; std::snprintf(vf::page().expr, sizeof vf::page().expr, "%s", e); std::signal(SIGABRT, SIG_DFL); std::abort(); }
    std::fprintf(stderr, "%s:%u: %s: Assertion `%s' failed.\n", f, line, fn, e); std::abort();
}
namespace vf {
template <class F> void die(const char* op, const char* how, F f) {
    op_begin(op, "%s", how); page().asserted = 0; page().in_child = 0; page().expr[0] = 0;
    std::fflush(stdout); std::fflush(stderr);
    pid_t p = fork(); if (p < 0) { std::fprintf(stderr, "fork failed\n"); _exit(4); }
    if (p == 0) { page().in_child = 1; alarm(30); if (devnull() >= 0) { dup2(devnull(), 1); dup2(devnull(), 2); } try { f(); } catch (...) { _exit(51); } _exit(50); }
    int st = 0; while (waitpid(p, &st, 0) < 0) {}
    page().in_child = 0; count("misuses");
    if (WIFSIGNALED(st) && WTERMSIG(st) == SIGABRT && page().asserted) { count("assertions_seen"); count((std::string("misuse:") + op + ":" + how).c_str()); distinct(mix(std::strlen(op) * 131 + uint64_t(op[0]) * 7 + uint64_t(how[0]), mix(std::strlen(how), std::strlen(page().expr)))); return; }
    if (WIFEXITED(st) && WEXITSTATUS(st) == 50) fail("misuse-absorbed", "%s with %s returned normally", op, how);
    if (WIFEXITED(st) && WEXITSTATUS(st) == 51) fail("misuse-threw", "%s with %s threw an exception instead of asserting", op, how);
    if (WIFEXITED(st) && WEXITSTATUS(st) == 99) fail("corrupted-before-assert", "%s with %s: AddressSanitizer reported an error before any assertion", op, how);
    fail("misuse-crashed", "%s with %s ended with wait status 0x%x and no assertion", op, how, st);
}
// a single-pass view of an array
template <class T> struct SP { using iterator_category = std::input_iterator_tag; using value_type = T; using difference_type = std::ptrdiff_t; using pointer = const T*; using reference = const T&;
    const T* p; reference operator*() const { return *p; } SP& operator++() { ++p; return *this; } SP operator++(int) { SP t = *this; ++p; return t; } friend bool operator==(SP a, SP b) { return a.p == b.p; } friend bool operator!=(SP a, SP b) { return a.p != b.p; } };
}
#endif
