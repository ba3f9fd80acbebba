// Shared by every harness: deterministic inputs, trace writing, crash containment.
// A harness drives the real gbs code (headers of /repo) and records what it did, one JSON
// object ("trace") per line; it never decides whether the behaviour is right - TLC does.
#pragma once
#include <algorithm>
#include <array>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <iostream>
#include <sstream>
#include <string>
#include <vector>
#include <stdexcept>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <signal.h>
#include <fcntl.h>

namespace vh
{
struct Rng
{
    uint64_t s;
    explicit Rng(uint64_t seed) : s(seed) { s = next() ^ 0x1234567ull; s = next(); } // mixed: streams of successive seeds must not overlap
    uint64_t next()
    {
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    int in(int a, int b) { return a + int(next() % uint64_t(b - a + 1)); }
    bool coin(int num = 1, int den = 2) { return int(next() % den) < num; }
    // multiple of 1/den in [a,b]
    double dy(int a, int b, int den) { return double(in(a * den, b * den)) / den; }
    template <class V> auto pick(const V &v) { return v[next() % v.size()]; }
};

inline std::string num(double x)
{
    if (std::isnan(x)) return "\"nan\"";
    if (std::isinf(x)) return x > 0 ? "\"inf\"" : "\"-inf\"";
    char b[40];
    std::snprintf(b, sizeof b, "\"%.17g\"", x);
    return b;
}
inline std::string num(float x) { return num(double(x)); }
inline std::string num(bool x) { return x ? "true" : "false"; }
inline std::string num(int x) { return std::to_string(x); }
inline std::string num(long x) { return std::to_string(x); }
inline std::string num(size_t x) { return std::to_string(x); }
inline std::string num(const char *s) { return std::string("\"") + s + "\""; }
inline std::string num(const std::string &s) { return "\"" + s + "\""; }
template <class T, size_t n> std::string num(const std::array<T, n> &a)
{
    std::string r = "[";
    for (size_t i = 0; i < n; ++i) { if (i) r += ","; r += num(a[i]); }
    return r + "]";
}
template <class T> std::string num(const std::vector<T> &a)
{
    std::string r = "[";
    for (size_t i = 0; i < a.size(); ++i) { if (i) r += ","; r += num(T(a[i])); }
    return r + "]";
}
// {"a":..,"b":..}
struct Obj
{
    std::string s = "{";
    template <class V> Obj &operator()(const char *k, const V &v)
    {
        if (s.size() > 1) s += ",";
        s += "\""; s += k; s += "\":"; s += num(v);
        return *this;
    }
    Obj &raw(const char *k, const std::string &v)
    {
        if (s.size() > 1) s += ",";
        s += "\""; s += k; s += "\":"; s += v;
        return *this;
    }
    std::string str() const { return s + "}"; }
};
struct Arr
{
    std::string s = "[";
    size_t n = 0;
    void add(const std::string &v) { if (n++) s += ","; s += v; }
    void add(const Obj &o) { add(o.str()); }
    std::string str() const { return s + "]"; }
};

inline std::string exc_kind()
{
    try { throw; }
    catch (const std::invalid_argument &) { return "invalid_argument"; }
    catch (const std::length_error &) { return "length_error"; }
    catch (const std::out_of_range &) { return "out_of_range"; }
    catch (const std::domain_error &) { return "domain_error"; }
    catch (const std::logic_error &) { return "logic_error"; }
    catch (const std::runtime_error &) { return "runtime_error"; }
    catch (const std::exception &) { return "exception"; }
    catch (...) { return "unknown"; }
}
// runs f, returns "" or the kind of the exception it left by
template <class F> std::string guard(F &&f)
{
    try { f(); return ""; }
    catch (...) { return exc_kind(); }
}

// Runs job(i) for i in [0,n); each call returns one trace line (without newline).  The jobs run in a
// forked child; when it dies (signal, or more than `secs` s on one job) the parent records a trace
// {"id":..,"kind":"crash",..} for that job and carries on with the next in a new child.
inline void run_jobs(const char *out, size_t n, const std::function<std::string(size_t)> &job, unsigned secs = 20)
{
    struct Shared { volatile size_t i; };
    auto *sh = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    { std::ofstream o(out, std::ios::trunc); }
    size_t start = 0;
    int crashes = 0;
    while (start < n)
    {
        sh->i = start;
        std::fflush(nullptr);
        pid_t pid = fork();
        if (pid == 0)
        {
            int dn = open("/dev/null", O_WRONLY);
            dup2(dn, 2);
            dup2(dn, 1);
            std::ofstream o(out, std::ios::app);
            for (size_t i = start; i < n; ++i)
            {
                sh->i = i;
                alarm(secs);
                std::string l;
                try { l = job(i); }
                catch (...) { l = Obj()("id", i)("kind", "crash")("sig", "exc_" + exc_kind()).raw("ev", "[{\"op\":\"crash\"}]").str(); }
                if (!l.empty()) { o << l << "\n"; o.flush(); }
            }
            alarm(0);
            o.close();
            _exit(0);
        }
        int st = 0;
        waitpid(pid, &st, 0);
        if (WIFEXITED(st) && WEXITSTATUS(st) == 0) break;
        std::string sig = WIFSIGNALED(st) ? std::to_string(WTERMSIG(st)) : "exit";
        std::ofstream o(out, std::ios::app);
        o << Obj()("id", size_t(sh->i))("kind", "crash")("sig", sig).raw("ev", "[{\"op\":\"crash\"}]").str() << "\n";
        start = sh->i + 1;
        if (++crashes > 8) break;
    }
}
// argv helpers:  harness OUT SEED N [SCENARIOS]
struct Args
{
    std::string out, scn;
    uint64_t seed = 1;
    size_t n = 100;
    Args(int argc, char **argv)
    {
        out = argc > 1 ? argv[1] : "out.ndjson";
        if (argc > 2) seed = std::strtoull(argv[2], nullptr, 10);
        if (argc > 3) n = std::strtoull(argv[3], nullptr, 10);
        if (argc > 4) scn = argv[4];
    }
};
// scenario files are lines of space separated tokens (written by bin/vlib.py from TLC's output)
inline std::vector<std::vector<std::string>> read_scn(const std::string &f)
{
    std::vector<std::vector<std::string>> r;
    if (f.empty()) return r;
    std::ifstream in(f);
    std::string l;
    while (std::getline(in, l))
    {
        std::istringstream is(l);
        std::vector<std::string> t;
        std::string w;
        while (is >> w) t.push_back(w);
        if (!t.empty()) r.push_back(t);
    }
    return r;
}
} // namespace vh
