// Common part of the replay harnesses: deterministic cases from a seed, an oracle per property,
// the current case is recorded before it runs so that a crash or hang still names its input.
#pragma once
#include <algorithm>
#include <chrono>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <fstream>
#include <iostream>
#include <list>
#include <map>
#include <memory>
#include <numeric>
#include <random>
#include <regex>
#include <set>
#include <sstream>
#include <string>
#include <thread>
#include <tuple>
#include <unordered_map>
#include <unordered_set>
#include <queue>
#include <stack>
#include <utility>
#include <vector>
#include <iomanip>
#include <signal.h>
#include <sys/stat.h>
#include <unistd.h>
#include <fcntl.h>

namespace H {
typedef std::vector<double> Pt;
typedef std::vector<Pt> Pts;
static FILE* rep = nullptr;
static long casePos = 0;
struct Rng {
    std::mt19937_64 g;
    explicit Rng(uint64_t s) : g(s * 0x9E3779B97F4A7C15ULL + 12345) { g.discard(8); }
    uint64_t u() { return g(); }
    int in(int lo, int hi) { return lo + (int)(g() % (uint64_t)(hi - lo + 1)); }
    bool chance(int pct) { return (int)(g() % 100) < pct; }
    double unit() { return (g() >> 11) * (1.0 / 9007199254740992.0); }
};
static std::string desc;   // description of the current case
static uint64_t curSeed = 0;
inline void note(const std::string& s) { desc += s; desc += "\n"; }
struct Failure { std::string what; };
inline void fail(const std::string& w) { throw Failure{w}; }
inline void check(bool c, const std::string& w) { if (!c) fail(w); }
template <class T> std::string str(const T& x) { std::ostringstream o; o << std::setprecision(17) << x; return o.str(); }
template <class T> std::string vstr(const T& v) { std::ostringstream o; o << std::setprecision(17) << "["; bool f = true; for (auto& x : v) { if (!f) o << ","; o << x; f = false; } o << "]"; return o.str(); }
template <class T> std::string vvstr(const T& v) { std::ostringstream o; o << "["; bool f = true; for (auto& x : v) { if (!f) o << ";"; o << vstr(x); f = false; } o << "]"; return o.str(); }
inline void record() {  // written before the case runs
    if (!rep) return;
    fflush(rep);
    fseek(rep, 0, SEEK_SET);
    if (ftruncate(fileno(rep), 0)) {}
    fprintf(rep, "case seed %llu\n%s\n", (unsigned long long)curSeed, desc.c_str());
    fflush(rep);
}
static void onAlarm(int) {
    const char m[] = "\nFAIL the call did not return within 60 s on this input\n";
    if (rep) { if (write(fileno(rep), m, sizeof m - 1)) {} }
    _exit(3);
}
// generate points: mixture of random, integer grid (ties), duplicates, collinear
inline Pts points(Rng& r, int n, int d) {
    Pts p(n, Pt(d));
    int kind = r.in(0, 3);
    for (int i = 0; i < n; i++) {
        for (int k = 0; k < d; k++) p[i][k] = kind == 0 ? r.unit() * 10 - 5 : kind == 1 ? r.in(-2, 2) : kind == 2 ? r.in(-8, 8) * 0.25 : (k == 0 ? r.in(0, 6) : 0);
        if (i && r.chance(kind == 1 ? 20 : 5)) p[i] = p[r.in(0, i - 1)];
    }
    return p;
}
inline double dist(const Pt& a, const Pt& b) { double s = 0; for (size_t i = 0; i < a.size(); i++) s += (a[i] - b[i]) * (a[i] - b[i]); return std::sqrt(s); }
inline bool near(double a, double b) { return a == b || std::fabs(a - b) <= 1e-9 * (1 + std::fabs(a) + std::fabs(b)); }
}  // namespace H
void run_case(H::Rng& r, uint64_t k);  // one case; calls H::note, H::record, H::check
int main(int argc, char** argv) {
    uint64_t seed = argc > 1 ? strtoull(argv[1], 0, 10) : 1;
    double secs = argc > 2 ? atof(argv[2]) : 5;
    uint64_t maxc = argc > 3 ? strtoull(argv[3], 0, 10) : 0;
    H::rep = fopen(argc > 4 ? argv[4] : "report", "w+");
    uint64_t start = argc > 5 ? strtoull(argv[5], 0, 10) : 0;
    int dn = open("/dev/null", O_WRONLY);
    dup2(dn, 1);
    signal(SIGALRM, H::onAlarm);
    auto t0 = std::chrono::steady_clock::now();
    uint64_t k = 0;
    std::unordered_set<size_t> seen;
    std::vector<std::string> samples;
    for (;; k++) {
        if (maxc && k >= maxc) break;
        if (std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > secs) break;
        H::curSeed = start ? seed * 1000003ULL + k + 1000000 : seed * 1000003ULL + k;
        H::desc.clear();
        H::Rng r(H::curSeed);
        alarm(60);
        try {
            run_case(r, start ? k + 1000000 : k);
        } catch (H::Failure& f) {
            H::record();
            fprintf(H::rep, "FAIL %s\n", f.what.c_str());
            fflush(H::rep);
            return 1;
        } catch (std::exception& e) {
            H::record();
            fprintf(H::rep, "FAIL unexpected exception: %s\n", e.what());
            fflush(H::rep);
            return 1;
        }
        alarm(0);
        if (k == 3 || k == 17 || k == 40) { std::string q = H::desc; for (auto& c : q) if (c == '\n') c = ' '; samples.push_back(q); }
        if (seen.size() < 2000000) seen.insert(std::hash<std::string>()(H::desc));
    }
    fseek(H::rep, 0, SEEK_SET);
    if (ftruncate(fileno(H::rep), 0)) {}
    fprintf(H::rep, "DONE cases=%llu distinct=%zu\n", (unsigned long long)k, seen.size());
    for (auto& q : samples) fprintf(H::rep, "SAMPLE %s\n", q.substr(0, 600).c_str());
    fclose(H::rep);
    _exit(0);
}
