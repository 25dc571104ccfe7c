// Runs something in a forked copy of the worker and hands back the text it leaves.
#pragma once
#include "mc.hpp"
#include <functional>
#include <unistd.h>
#include <sys/wait.h>
#include <sys/mman.h>
static char * SH = nullptr; static const size_t SHN = 1 << 26;
static void initChildren() { SH = (char *) mmap(0, SHN, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (SH == MAP_FAILED) abort(); }
static bool fresh(std::function<void(std::string &)> f, std::string & r, std::string & trouble)
{
    *(uint64_t *) SH = ~0ull; fflush(stdout); fflush(stderr);
    pid_t c = fork();
    if (c == 0)
    {
        alarm(100); freopen("/dev/null", "w", stdout); freopen("/dev/null", "w", stderr);
        std::string s; try { f(s); } catch (std::exception & e) { s = std::string("threw ") + e.what(); } size_t n = std::min(s.size(), SHN - 8); memcpy(SH + 8, s.data(), n); *(uint64_t *) SH = n; _exit(0);
    }
    int st = 0; while (waitpid(c, &st, 0) < 0 && errno == EINTR) { }
    if (*(uint64_t *) SH == ~0ull) { trouble = "the process ended with status " + mc::str(st); return false; }
    r.assign(SH + 8, *(uint64_t *) SH); return true;
}
