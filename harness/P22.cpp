// The real program, started with a command line: its result files (not its log) are compared with those of the stages run one after the other.
#include <bits/stdc++.h>
#include "mpi.h"
#define private public
#define main lhf_main
#include "LHFmain/main.cpp"
#undef main
#define dist h_dist
#include "common.hpp"
#undef dist
#include <dirent.h>
#include "simplexTree.hpp"
#include "simplexArrayList.hpp"
typedef std::map<std::string, std::string> Cfg;
static std::string show(const Cfg& m) { std::string s = "{"; for (auto& p : m) s += p.first + "=" + p.second + " "; return s + "}"; }
static std::string slurp(const std::string& n) { std::ifstream f(n, std::ios::binary); std::ostringstream o; o << f.rdbuf(); return o.str(); }
static std::set<std::string> listing() {
    std::set<std::string> s; DIR* d = opendir(".");
    while (dirent* e = readdir(d)) if (e->d_name[0] != '.') s.insert(e->d_name);
    closedir(d); return s;
}
static const char* longs[] = {"mpi", "mode", "dimensions", "iterations", "pipeline", "inputFile", "outputFile", "epsilon", "lambda", "debug", "complexType", "clusters", "preprocessor", "upscale", "twist", "collapse"};
static const char* shorts[] = {"a", "m", "d", "r", "p", "i", "o", "e", "l", "x", "c", "k", "pre", "u", "t", "z"};
static const char* dflt[] = {"0", "standard", "1", "250", "", "None", "output.csv", "5", ".25", "0", "simplexTree", "20", "", "false", "false", "false"};
static void mode(Cfg& m) {
    const std::string fast = "distMatrix.neighGraph.rips.fastPersistence", o = m["mode"];
    bool tree = false; std::string p;
    if (m["mpi"] == "1") { m["pipeline"] = fast; m["upscale"] = "true"; if (m["preprocessor"] == "") m["preprocessor"] = "kmeans++"; return; }
    if (m["pipeline"] != "") return;
    if (o == "standard" || o == "reduced" || o == "fast") p = fast;
    else if (o == "upscaleBound") p = "distMatrix.neighGraph.rips.persistence.boundary.upscale";
    else if (o == "naive" || o == "naivewindow") p = "naivewindow";
    else return;
    m["pipeline"] = p;
    if ((o == "reduced" || o == "upscaleBound") && m["preprocessor"] == "") m["preprocessor"] = "kmeans++";
    if (o == "naive" || o == "naivewindow") m["preprocessor"] = "";
    if (o == "upscaleBound") m["upscale"] = "true"; else if (o != "standard") { m["upscale"] = "false"; m["complexType"] = "simplexTree"; }
}
static std::string types;   // names of the stages run
static void stages(const Cfg& m, pipePacket& b) {
    std::string p = m.at("pipeline") + ".", n;
    for (char ch : p) if (ch != '.') n += ch; else {
        basePipe x; basePipe* q = x.newPipe(n, m.at("complexType")); n = "";
        if (q && q->configPipe(m)) { b = q->runPipe(b); types += q->pipeType + " "; }
    }
}
void run_case(H::Rng& r, uint64_t k) {
    static bool first = true;
    if (first) { first = false; mkdir("w", 0700); if (chdir("w")) _exit(3); }
    for (auto& n : listing()) unlink(n.c_str());
    static const char* modes[] = {"standard", "reduced", "fast", "naive", "upscaleBound", "nosuchmode", "naivewindow", "reducedx"};
    static const char* cps[] = {"simplexTree", "simplexArrayList", "simplexTree", "simplexArrayList", "simplextree", "", "nothing"};
    H::Pts pts = H::points(r, r.in(1, 6), 2);
    Cfg g; bool missing = r.chance(8), empty = !missing && r.chance(8), kmeans = false;
    g["inputFile"] = "in.csv";
    if (r.chance(70)) g["mode"] = modes[r.in(0, 7)];
    if (r.chance(80)) g["outputFile"] = r.chance(15) ? "console" : r.chance(20) ? (r.chance(50) ? "consol" : r.chance(50) ? "console2" : "Console") : r.chance(30) ? "res.csv" : r.chance(20) ? "" : "res";
    if (r.chance(80)) g["epsilon"] = H::str(r.in(0, 12) * 0.5);
    if (r.chance(80)) g["dimensions"] = H::str(r.in(0, 2));
    if (r.chance(70)) g["complexType"] = cps[r.in(0, r.chance(80) ? 3 : 6)];
    if (r.chance(40)) { static const char* ps[] = {"distMatrix", "distMatrix.neighGraph.rips", "distMatrix.neighGraph.rips.fast", "nothing.distMatrix", "distMatrix.neighGraph.rips.fastPersistence", "distMatrix.neighGraph"}; g["pipeline"] = ps[r.in(0, 5)]; }
    if (r.chance(15)) g["upscale"] = r.chance(50) ? "true" : "false";
    if (r.chance(30)) g["preprocessor"] = r.chance(40) ? "none" : r.chance(50) ? "nothing" : "kmeans++";
    if (r.chance(6)) g["mpi"] = r.chance(50) ? "1" : "2";
    g["clusters"] = "1"; g["iterations"] = H::str(r.in(1, 3));
    Cfg m; for (int i = 0; i < 16; i++) m[longs[i]] = g.count(longs[i]) ? g[longs[i]] : dflt[i];
    mode(m);
    // the input file
    if (!missing) { std::ofstream f("in.csv"); if (!empty) for (auto& p : pts) { f << std::setprecision(17) << p[0] << "," << p[1] << "\n"; if (r.chance(5)) f << "\n"; } }
    std::vector<std::string> words{"lhf"}; std::vector<int> ord; for (int i = 0; i < 16; i++) ord.push_back(i);
    for (int i = 15; i > 0; i--) std::swap(ord[i], ord[r.in(0, i)]);
    for (int i : ord) if (g.count(longs[i])) { if (r.chance(50)) words.push_back(std::string("--") + longs[i]); else words.push_back(std::string("-") + shorts[i]); words.push_back(g[longs[i]]); }
    bool old = r.chance(20);
    if (old) for (auto s : {".csv", "_stats.csv"}) { std::ofstream o(m["outputFile"] + s); o << std::string(3000, 'z'); }
    std::string cl; for (auto& w : words) cl += " '" + w + "'";
    H::note("command line" + cl + " points=" + (missing ? "(no file)" : empty ? "(empty file)" : H::vvstr(pts)) + (old ? " over old files" : "")); H::record();
    // what has to come out
    bool known = m["complexType"] == "simplexTree" || m["complexType"] == "simplexArrayList", run = known && !missing && !empty && m["upscale"] != "true";
    std::string stats, betti; types = "";
    if (run) {
        pipePacket b(m, m["complexType"]); b.originalData = b.fullData = pts;
        preprocessor pp; preprocessor* q = m["preprocessor"] == "" ? nullptr : pp.newPreprocessor(m["preprocessor"]);
        if (q && q->configPreprocessor(m)) { b = q->runPreprocessorWrapper(b); std::istringstream is(b.stats); std::string l; while (std::getline(is, l)) types += l.substr(0, l.find(',')) + " "; }
        if (m["mode"] == "reduced") {
            H::Pts cents = b.originalData;
            if (!b.originalLabels.empty()) {
                auto d = [](const H::Pt& x, const H::Pt& y) { double s = 0; for (size_t i = 0; i < x.size(); i++) s += (x[i] - y[i]) * (x[i] - y[i]); return std::sqrt(s); };
                double rad = 0; for (auto& p : pts) rad = std::max(rad, d(p, cents[0]));
                H::Pts in; for (auto& p : pts) if (d(p, cents[0]) < 2 * rad) in.push_back(p);
                if (!in.empty()) { b.originalData = in; stages(m, b); b.complex->clear(); b.bettiTable.clear(); }
            }
            b.originalData = cents;
        }
        stages(m, b);
        betti = "dimension,birth,death\n" + b.bettiOutput; stats = types;
        if (m["complexType"] == "simplexTree") delete static_cast<simplexTree*>(b.complex); else delete static_cast<simplexArrayList*>(b.complex);
    }
    auto before = listing(); std::map<std::string, std::string> text; for (auto& n : before) text[n] = slurp(n);
    std::vector<char*> av; for (auto& w : words) av.push_back(const_cast<char*>(w.c_str())); av.push_back(nullptr);
    lhf_main((int)words.size(), av.data());
    auto after = listing(); auto want = before; std::string sf = m["outputFile"] + "_stats.csv", bf = m["outputFile"] + ".csv";
    after.erase(m["outputFile"]); want.erase(m["outputFile"]);   // the log
    // names that begin with a dot are not listed
    if (run && m["outputFile"] != "console") { want.insert(sf); if (m["outputFile"] != "") want.insert(bf); }
    auto names = [](const std::set<std::string>& s) { std::string t; for (auto& x : s) t += x + " "; return t; };
    H::check(after == want, "settings " + show(m) + ": files " + names(after) + "instead of " + names(want));
    for (auto& n : after) {
        std::string t = slurp(n);
        if (run && m["outputFile"] != "console" && n == sf) {
            const std::string h = "PipeName,PhysExecutionTime,MemorySize,MemoryUnits,VertexCount,SimplexCount\n";
            H::check(t.substr(0, h.size()) == h, "statistics begin with '" + t.substr(0, 80) + "'");
            std::string got, l; std::istringstream is(t.substr(h.size())); while (std::getline(is, l)) got += l.substr(0, l.find(',')) + " ";
            H::check(got == stats, "settings " + show(m) + ": statistics of the stages " + got + "instead of " + stats);
        } else if (run && m["outputFile"] != "console" && n == bf) {
            H::check(t == betti, "settings " + show(m) + ": intervals '" + t.substr(0, 300) + "' instead of '" + betti.substr(0, 300) + "'");
        } else H::check(t == text[n], "file " + n + " was changed");
    }
    if (m["outputFile"] == "") unlink(".csv");
}
