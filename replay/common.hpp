// shared by the replay programs: counting and reporting
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstdint>
#include <string>
#include <vector>
#include <functional>
#include <unistd.h>
#include <sys/wait.h>
#include <signal.h>
static unsigned long g_cases = 0, g_fails = 0;
static void FAILMSG(const std::string& m) { if (g_fails++ < 20) { std::printf("FAIL %s\n", m.c_str()); std::fflush(stdout); } }
static int FINISH() { std::printf("CASES %lu\n", g_cases); return g_fails ? 1 : 0; }
static std::string HEX(unsigned long v) { char b[32]; std::snprintf(b, sizeof b, "%lX", v); return b; }
template <class S> static std::string SHOW(const S& s)
{
    std::string r = "\"";
    for (auto c : s) {
        unsigned long u = sizeof(c) == 1 ? (unsigned char)c : (unsigned long)(uint32_t)c;
        if (u >= 0x20 && u < 0x7f) r += (char)u; else r += "<" + HEX(u) + ">";
        if (r.size() > 300) { r += "..."; break; }
    }
    return r + "\"";
}
// runs f in a child process: a crash, abort or hang of the code under test is reported instead of ending the replay
static bool GUARD(const std::string& what, const std::function<void()>& f, unsigned secs = 60)
{
    std::fflush(stdout);
    int fd[2]; if (pipe(fd)) return false;
    pid_t p = fork();
    if (p == 0) {
        close(fd[0]); alarm(secs);
        freopen("/dev/null", "w", stderr);
        unsigned long c0 = g_cases, f0 = g_fails;
        f();
        std::fflush(stdout);
        unsigned long r[2] = { g_cases - c0, g_fails - f0 };
        if (write(fd[1], r, sizeof r) < 0) {}
        _exit(0);
    }
    close(fd[1]);
    unsigned long r[2] = { 0, 0 };
    ssize_t n = read(fd[0], r, sizeof r);
    close(fd[0]);
    int st = 0; waitpid(p, &st, 0);
    if (n == (ssize_t)sizeof r) { g_cases += r[0]; g_fails += r[1]; }
    if (WIFSIGNALED(st) || n != (ssize_t)sizeof r) { FAILMSG(what + ": the code under test died (signal " + std::to_string(WIFSIGNALED(st) ? WTERMSIG(st) : 0) + ")"); return false; }
    return true;
}
