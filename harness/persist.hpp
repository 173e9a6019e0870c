// Shared by P08 and P09: random filtered complexes, an oracle for the barcodes, and the driver of the real stage.
#pragma once
#include "common.hpp"
#define private public
#define protected public
#include "utils.hpp"
#include "simplexBase.hpp"
#include "simplexArrayList.hpp"
#include "simplexTree.hpp"
#include "fastPersistence.hpp"
using namespace H;
typedef std::vector<std::vector<std::pair<std::set<unsigned>, double>>> List;
// a complex whose listing is any filtered simplicial complex
struct GivenComplex : simplexBase {
    List l; int expanded = -1;
    List getAllEdges(double) override { return l; }
    void expandDimensions(int d) override { expanded = d; }
};
inline std::string lstr(const List& l) { std::string s; for (auto& v : l) { s += "{"; for (auto& e : v) s += vstr(e.first) + ":" + str(e.second) + " "; s += "}"; } return s; }
inline List randomFiltered(Rng& r, int n, int levels) {
    List l(std::max(levels, 1));
    std::map<std::set<unsigned>, double> w;
    int off = r.chance(15) ? r.in(1, 3) : 0, step = r.chance(15) ? 2 : 1;
    for (int i = 0; i < n; i++) { std::set<unsigned> s{(unsigned)(off + i * step)}; w[s] = 0; l[0].push_back({s, 0}); }
    int dens = r.in(30, 100), span = r.in(1, 9);
    for (int k = 1; k < levels; k++) {
        for (auto& f : l[k - 1]) for (int i = 0; i < n; i++) {
            unsigned v = off + i * step;
            if (v <= *f.first.rbegin()) continue;
            std::set<unsigned> s = f.first; s.insert(v);
            double m = 0; bool ok = true;
            for (auto x : s) { auto g = s; g.erase(x); auto q = w.find(g); if (q == w.end()) { ok = false; break; } m = std::max(m, q->second); }
            if (!ok || !r.chance(dens)) continue;
            double ww = r.chance(50) ? m : m + r.in(0, span) * (r.chance(20) ? 0.125 : 1.0);
            w[s] = ww; l[k].push_back({s, ww});
        }
        for (size_t i = l[k].size(); i > 1; i--) std::swap(l[k][i - 1], l[k][r.in(0, i - 1)]);
        std::stable_sort(l[k].begin(), l[k].end(), [](const std::pair<std::set<unsigned>, double>& a, const std::pair<std::set<unsigned>, double>& b) { return a.second < b.second; });
    }
    if (r.chance(50)) for (int i = 0; i + 1 < (int)l[0].size(); i++) if (r.chance(50)) std::swap(l[0][i], l[0][i + 1]);
    if (r.chance(70)) while (!l.empty() && l.back().empty()) l.pop_back();
    return l;
}
struct Case { simplexBase* cx = nullptr; List list; int dim; double eps; bool hadEntry; };
inline Case makeCase(Rng& r, uint64_t k) {
    Case c; int kind = r.in(0, 2);
    c.dim = k < 2 ? (int)k : r.in(0, 4); c.eps = r.chance(60) ? r.in(0, 8) : r.unit() * 9; c.hadEntry = r.chance(20);
    if (kind == 0) {
        auto* g = new GivenComplex; int n = r.in(0, 7);
        g->l = r.chance(3) ? List() : randomFiltered(r, n, r.in(1, 5));
        c.list = g->l; c.cx = g;
        note("given filtration " + lstr(c.list));
    } else {
        int n = r.in(0, kind == 2 ? 6 : 7);
        Pts m(n, Pt(n, 0)); int mk = r.in(0, 2);
        for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) m[i][j] = mk == 0 ? r.in(1, 8) : mk == 1 ? r.unit() * 8 : r.in(1, 3);
        if (r.chance(40)) { Pts p = points(r, n, 2); for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) m[i][j] = H::dist(p[i], p[j]); }
        bool tree = kind == 2;
        note(std::string(tree ? "simplexTree" : "simplexArrayList") + " matrix=" + vvstr(m));
        simplexBase* x = tree ? (simplexBase*)new simplexTree(c.eps, m, c.dim + 1) : (simplexBase*)new simplexArrayList(c.eps, c.dim, m);
        Pt one{1.0}; for (int i = 0; i < n; i++) x->insert(one);
        c.cx = x;
    }
    note("dimensions=" + str(c.dim) + " eps=" + str(c.eps)); record();
    return c;
}
// runs the stage; returns the listing the stage worked on
inline pipePacket runStage(Case& c) {
    fastPersistence f; std::map<std::string, std::string> cfg;
    cfg["dimensions"] = str(c.dim); cfg["epsilon"] = str(c.eps); cfg["twist"] = "false";
    check(f.configPipe(cfg), "configPipe");
    c.eps = std::atof(cfg["epsilon"].c_str());
    pipePacket in("none", c.eps, c.dim); in.complex = c.cx; in.stats = "st"; in.bettiOutput = "before"; in.weights = {1, 2};
    if (c.hadEntry) { bettiBoundaryTableEntry e = {7, 1, 2, {3}}; in.bettiTable.push_back(e); }
    pipePacket out = f.runPipe(in);
    if (GivenComplex* g = dynamic_cast<GivenComplex*>(c.cx)) check(g->expanded == (c.dim > 0 ? c.dim + 1 : -1), "complex expanded to " + str(g->expanded));
    else c.list = c.cx->getAllEdges(c.eps);
    check(out.complex == c.cx && out.stats == "st" && out.weights == in.weights && out.originalData == in.originalData, "another part of the packet changed");
    if (c.list.empty()) check(out.bettiOutput == "before" && out.bettiTable.size() == (size_t)c.hadEntry, "empty filtration: the packet changed");
    if (c.hadEntry) check(!out.bettiTable.empty() && out.bettiTable[0].bettiDim == 7, "earlier table entry lost");
    return out;
}
inline std::vector<std::string> lines(const std::string& s, bool zero) { std::vector<std::string> v; std::stringstream ss(s); std::string l; while (std::getline(ss, l)) if ((l.compare(0, 2, "0,") == 0) == zero) v.push_back(l); return v; }
