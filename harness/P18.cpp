#include "common.hpp"
#include "writeOutput.hpp"
#include <dirent.h>
using namespace H;
// everything is written in a directory of its own below the current (scratch) directory
static std::string slurp(const std::string& n) { std::ifstream f(n, std::ios::binary); std::ostringstream o; o << f.rdbuf(); return o.str(); }
static std::string num(double x) { char b[512]; snprintf(b, sizeof b, "%f", x); return b; }
static std::set<std::string> listing() {
    std::set<std::string> s; DIR* d = opendir("out");
    while (dirent* e = readdir(d)) if (e->d_name[0] != '.') s.insert(e->d_name);
    closedir(d); return s;
}
static std::string text(Rng& r) {
    static const char* bits[] = {"a", ",", "\n", "1.5", "dimension,birth,death\n", " ", "\r\n", "\t", "\"", "0"};
    std::string s; int n = r.chance(25) ? 0 : r.in(0, 8); for (int i = 0; i < n; i++) s += bits[r.in(0, 9)]; 
    if (r.chance(5)) s += std::string(r.in(1, 9000), 'x');
    return s;
}
void run_case(Rng& r, uint64_t k) {
    mkdir("out", 0700);
    for (auto& n : listing()) unlink(("out/" + n).c_str());
    Pts d; int rows = r.chance(15) ? 0 : r.in(1, 5), cols = r.in(0, 4); bool ragged = r.chance(30);
    for (int i = 0; i < rows; i++) {
        Pt p; int c = ragged ? r.in(0, 4) : cols;
        for (int j = 0; j < c; j++) p.push_back(r.chance(30) ? r.in(-3, 3) : r.chance(10) ? (r.unit() - 0.5) * 1e12 : r.chance(10) ? r.unit() * 1e-6 : r.unit() * 10 - 5);
        d.push_back(p);
    }
    static const char* names[] = {"f", "a.csv", "b.mat", "x_stats", "with space", "n.1"};
    std::string base = names[r.in(0, 5)], t = text(r), h = text(r), want, suffix;
    int which = r.in(0, 7);
    bool old = r.chance(30);
    note("writer " + str(which) + " file " + base + " rows " + vvstr(d) + " text '" + t.substr(0, 60) + "' header '" + h.substr(0, 60) + "'" + (old ? " over an existing file" : ""));
    record();
    suffix = which == 0 ? "_stats.csv" : which == 7 ? ".mat" : ".csv";
    std::string csv; for (auto& p : d) { for (double x : p) csv += num(x) + ","; csv += "\n"; }
    if (old) { std::ofstream o("out/" + base + suffix); o << std::string(5000, 'z'); }
    { std::ofstream o("out/other"); o << "kept"; }
    writeOutput w; bool ok = false; std::string f = "out/" + base;
    switch (which) {
        case 0: ok = w.writeStats(t, f); want = "PipeName,PhysExecutionTime,MemorySize,MemoryUnits,VertexCount,SimplexCount\n" + t; break;
        case 1: ok = w.writeBarcodes(d, f); want = "dimension,birth,death\n" + csv; break;
        case 2: ok = w.writeBarcodes(t, f); want = "dimension,birth,death\n" + t; break;
        case 3: ok = w.writeCSV(d, f); want = csv; break;
        case 4: ok = w.writeCSV(t, f); want = t; break;
        case 5: ok = w.writeCSV(d, f, h); want = h + csv; break;
        case 6: ok = w.writeCSV(t, f, h); want = h + t; break;
        default: ok = w.writeMAT(d, f); want = str(d.size()) + "\n" + str(d.empty() ? 0 : d[0].size()) + "\n";
            for (auto& p : d) for (double x : p) want += num(x) + "\n";
    }
    check(ok, "the writer reports failure");
    std::set<std::string> l = listing(), e{"other", base + suffix};
    check(l == e, "files written: " + vstr(l) + " expected " + vstr(e));
    std::string got = slurp("out/" + base + suffix);
    check(got == want, "content of length " + str(got.size()) + ": '" + got.substr(0, 300) + "' expected length " + str(want.size()) + ": '" + want.substr(0, 300) + "'");
    check(slurp("out/other") == "kept", "another file was changed");
}
