#include "common.hpp"
#define private public
#define protected public
#include "utils.hpp"
#include "simplexArrayList.hpp"
#include "neighGraphPipe.hpp"
#include "ripsPipe.hpp"
using namespace H;
typedef std::vector<std::vector<std::pair<std::vector<unsigned>, double>>> Graph;
static std::string gstr(const Graph& g) { std::string s; for (auto& l : g) { s += "{"; for (auto& e : l) s += vstr(e.first) + ":" + str(e.second) + " "; s += "}"; } return s; }
// all cliques with k vertices, by brute force
static void cliques(const Pts& m, int n, double eps, int k, std::vector<unsigned>& cur, double w, std::map<std::vector<unsigned>, double>& out) {
    if ((int)cur.size() == k) { out[cur] = w; return; }
    for (int v = cur.empty() ? 0 : cur.back() + 1; v < n; v++) {
        double ww = w; bool ok = true;
        for (auto u : cur) { if (m[u][v] > eps) ok = false; ww = std::max(ww, m[u][v]); }
        if (!ok) continue;
        cur.push_back(v); cliques(m, n, eps, k, cur, ww, out); cur.pop_back();
    }
}
static void compare(const Graph& g, const Pts& m, int n, double eps, int levels, const std::string& what) {
    for (int k = 1; k <= levels; k++) {
        std::map<std::vector<unsigned>, double> e; std::vector<unsigned> c; cliques(m, n, eps, k, c, 0, e);
        std::map<std::vector<unsigned>, double> got;
        if (k <= (int)g.size()) for (auto& s : g[k - 1]) { check(!got.count(s.first), what + ": simplex " + vstr(s.first) + " stored twice"); got[s.first] = s.second; }
        for (auto& s : e) { check(got.count(s.first), what + ": missing simplex " + vstr(s.first)); check(got[s.first] == s.second, what + ": weight of " + vstr(s.first) + " is " + str(got[s.first]) + " expected " + str(s.second)); }
        for (auto& s : got) check(e.count(s.first), what + ": extra simplex " + vstr(s.first));
    }
    check((int)g.size() <= levels, what + ": too many levels");
    for (auto& l : g) check(!l.empty(), what + ": empty level");
}
void run_case(Rng& r, uint64_t k) {
    int big = r.chance(8);
    int n = k < 3 ? (int)k : r.in(0, big ? 12 : 8), md = r.in(1, 4);
    double eps = r.chance(50) ? r.in(0, 6) : r.unit() * 8;
    Pts m(n, Pt(n, 0));
    int kind = r.in(0, 3);
    for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) m[i][j] = kind == 0 ? r.in(0, 8) : kind == 1 ? r.unit() * 8 : kind == 2 ? (r.chance(70) ? eps : eps + 1) : (r.chance(80) ? r.unit() * eps : eps + 0.5);
    if (kind == 3 && n >= 2) { for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) if ((i % 3) == (j % 3)) m[i][j] = eps + r.unit(); }
    if (r.chance(30)) { Pts p = points(r, n, 2); for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) m[i][j] = H::dist(p[i], p[j]); }
    int d1 = r.in(0, 4), d2 = r.in(0, 4);
    bool pipe = r.chance(40), gaps = pipe && r.chance(20);
    note("matrix=" + vvstr(m) + " eps=" + str(eps) + " maxDimension=" + str(md) + " expand " + str(d1) + " then " + str(d2) + (pipe ? " through the stages" : ""));
    record();
    Pt one{1.0};
    if (!pipe) {
        simplexArrayList c(eps, md, m);
        for (int i = 0; i < n; i++) { c.insert(one); compare(c.weightedGraph, m, i + 1, eps, 2, "after inserting point " + str(i)); }
        int lv = 2;
        for (int d : {d1, d2, std::max(d1, d2)}) {
            Graph g0 = c.weightedGraph;
            c.expandDimensions(d);
            bool again = d + 1 <= lv; lv = std::max(lv, d + 1);
            compare(c.weightedGraph, m, n, eps, lv, "after expanding to " + str(d));
            if (again) check(c.weightedGraph == g0, "expanding again to " + str(d) + " changed " + gstr(g0) + " to " + gstr(c.weightedGraph));
        }
        check(c.distMatrix == m && c.maxEpsilon == eps && c.maxDimension == md, "another part of the complex changed");
    } else {
        pipePacket in("simplexArrayList", eps, md);
        int q = 0;
        for (int i = 0; i < n; i++) { if (gaps && r.chance(30)) in.originalData.push_back(Pt()); in.originalData.push_back(one); }
        if (gaps) in.originalData.push_back(Pt());
        q = n; (void)q;
        Pts md_ = m; md_.resize(in.originalData.size()); for (auto& x : md_) x.resize(in.originalData.size(), 0);
        for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) md_[i][j] = m[i][j];
        in.complex->setDistanceMatrix(md_); in.stats = "s"; in.weights.insert(3);
        auto od = in.originalData;
        neighGraphPipe ng; std::map<std::string, std::string> cfg; cfg["epsilon"] = str(eps); cfg["dimensions"] = str(d1);
        check(ng.configPipe(cfg), "neighGraph configPipe");
        pipePacket o1 = ng.runPipe(in);
        compare(o1.complex->weightedGraph, m, n, eps, 2, "after the neighbourhood graph stage");
        ripsPipe rp; check(rp.configPipe(cfg), "rips configPipe");
        if (d1 >= 1) {
            pipePacket o2 = rp.runPipe(o1); compare(o2.complex->weightedGraph, m, n, eps, std::max(2, d1 + 1), "after the rips stage");
            Graph g0 = o2.complex->weightedGraph; pipePacket o3 = rp.runPipe(o2); check(o3.complex->weightedGraph == g0, "running the rips stage again changed the complex");
            check(o3.originalData == od && o3.stats == "s" && o3.weights.size() == in.weights.size() && o3.complex == in.complex, "packet changed");
        }
        delete (simplexArrayList*)in.complex;
    }
}
