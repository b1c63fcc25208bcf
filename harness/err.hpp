// C16: how a request ended. With SFL_NO_EXCEPTIONS the request runs in a child process and LENGTH stands for "aborted".
#ifndef VF_ERR_HPP
#define VF_ERR_HPP
#include "core.hpp"
#include <csignal>
#include <cstdio>
#include <fcntl.h>
#include <new>
#include <stdexcept>
#include <sys/wait.h>
#include <unistd.h>
namespace vf {
enum Out { OK, LENGTH, RANGE, NOMEM, OTHER };
inline const char* out_name(Out o) { static const char* n[] = {"success", "length_error", "out_of_range", "bad_alloc", "another exception"}; return n[o]; }
template <class F> Out run(F f) {
#ifdef SFL_NO_EXCEPTIONS
        // the same request in a child process: a refused one must abort, a granted one returns
        std::fflush(stdout); std::fflush(stderr); pid_t p = fork(); if (p < 0) { std::fprintf(stderr, "fork failed\n"); _exit(4); }
        if (p == 0) { alarm(60); int n = open("/dev/null", O_WRONLY); if (n >= 0) dup2(n, 2); Out o = OK; try { f(); } catch (const std::bad_alloc&) { o = NOMEM; } catch (...) { o = OTHER; } _exit(int(o) + 10); }
        int st = 0; while (waitpid(p, &st, 0) < 0) {} count("child_processes");
        if (WIFSIGNALED(st) && WTERMSIG(st) == SIGABRT) { count("aborts_seen"); return LENGTH; }
        if (WIFEXITED(st) && WEXITSTATUS(st) >= 10 && WEXITSTATUS(st) < 15) return Out(WEXITSTATUS(st) - 10);
        fail("child-crashed", "request ended with wait status 0x%x instead of abort", st);
#else
        try { f(); return OK; } catch (const std::length_error&) { return LENGTH; } catch (const std::out_of_range&) { return RANGE; } catch (const std::bad_alloc&) { return NOMEM; } catch (...) { return OTHER; }
#endif
}
}
#endif
