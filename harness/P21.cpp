// Reduced mode of the real program: every partition is run on its own by a fresh packet and compared.
#include <bits/stdc++.h>
#include "mpi.h"
#define private public
#define main lhf_main
#include "LHFmain/main.cpp"
#undef main
#define dist h_dist
#include "common.hpp"
#undef dist
#include "simplexTree.hpp"
#include "simplexArrayList.hpp"
typedef std::map<std::string, std::string> Cfg;
static std::string show(const Cfg& m) { std::string s = "{"; for (auto& p : m) s += p.first + "=" + p.second + " "; return s + "}"; }
typedef std::tuple<unsigned, double, double, std::set<unsigned>> Row;
static std::string rstr(const Row& r) { return "(" + H::str(std::get<0>(r)) + "," + H::str(std::get<1>(r)) + "," + H::str(std::get<2>(r)) + "," + H::vstr(std::get<3>(r)) + ")"; }
static void drop(pipePacket& p, const std::string& c) { if (c == "simplexTree") delete static_cast<simplexTree*>(p.complex); else delete static_cast<simplexArrayList*>(p.complex); }
static std::vector<Row> alone(const Cfg& m, const std::string& c, const H::Pts& pts, const std::vector<unsigned>* idx) {
    pipePacket p(m, c); p.originalData = pts; runPipeline(m, &p);
    std::vector<Row> r;
    for (auto& e : p.bettiTable) {
        std::set<unsigned> s;
        for (unsigned x : e.boundaryPoints) { H::check(x < pts.size(), "an interval of a run on " + H::str(pts.size()) + " points names point " + H::str(x)); s.insert(idx ? (*idx)[x] : x); }
        r.push_back(Row(e.bettiDim, e.birth, e.death, s));
    }
    drop(p, c);
    return r;
}
static void mapping(H::Rng& r) {
    std::vector<unsigned> lab(r.in(1, 9)); for (auto& l : lab) l = r.in(0, 20);
    std::vector<bettiBoundaryTableEntry> t(r.in(0, 4));
    for (auto& e : t) { e.bettiDim = r.in(0, 2); e.birth = r.in(0, 3); e.death = r.in(3, 6); int k = r.in(0, 4); while (k--) e.boundaryPoints.insert(r.in(0, lab.size() - 1)); }
    auto b = t; std::string s; for (auto& e : t) s += H::vstr(e.boundaryPoints) + " ";
    H::note("mapPartitionIndexing labels=" + H::vstr(lab) + " points of the rows: " + s); H::record();
    utils u; u.mapPartitionIndexing(lab, b);
    H::check(b.size() == t.size(), "the number of rows changed");
    for (size_t i = 0; i < t.size(); i++) {
        std::set<unsigned> e; for (auto x : t[i].boundaryPoints) e.insert(lab[x]);
        H::check(b[i].boundaryPoints == e, "row " + H::str(i) + " has points " + H::vstr(b[i].boundaryPoints) + " instead of " + H::vstr(e));
        H::check(b[i].bettiDim == t[i].bettiDim && b[i].birth == t[i].birth && b[i].death == t[i].death, "row " + H::str(i) + " has another interval");
    }
}
void run_case(H::Rng& r, uint64_t k) {
    if (k % 4 == 3) { mapping(r); return; }
    Cfg m; bool pre = r.chance(25);
    std::string c = r.chance(60) ? "simplexTree" : "simplexArrayList";
    H::Pts pts = H::points(r, r.in(1, 8), 2), cents;
    int kc = r.in(1, std::min<int>(3, pts.size()));
    std::vector<unsigned> lab;
    m["mode"] = "reduced"; m["complexType"] = c; m["pipeline"] = "distMatrix.neighGraph.rips.fastPersistence"; m["twist"] = "false";
    m["epsilon"] = H::str(r.in(1, 16) * 0.5); m["dimensions"] = H::str(r.in(0, 2)); m["iterations"] = H::str(r.in(1, 3));
    if (pre || r.chance(80)) m["clusters"] = H::str(kc);
    if (pre) m["preprocessor"] = "kmeans++"; else if (r.chance(50)) m["preprocessor"] = r.chance(50) ? "" : "nothing";
    if (!pre) {
        cents = H::points(r, r.in(1, 4), 2); if (r.chance(40)) for (auto& q : cents) q = pts[r.in(0, pts.size() - 1)];
        for (size_t i = 0; i < pts.size(); i++) lab.push_back(r.in(0, cents.size() - 1));
        if (r.chance(50)) for (size_t i = 0; i < pts.size(); i++) for (unsigned j = 0; j < cents.size(); j++) if (hypot(pts[i][0] - cents[j][0], pts[i][1] - cents[j][1]) < hypot(pts[i][0] - cents[lab[i]][0], pts[i][1] - cents[lab[i]][1])) lab[i] = j;
    }
    H::note("reduced mode settings=" + show(m) + " points=" + H::vvstr(pts) + (pre ? "" : " centroids=" + H::vvstr(cents) + " labels=" + H::vstr(lab))); H::record();
    pipePacket a(m, c); a.fullData = pts; a.originalData = pre ? pts : cents; a.originalLabels = lab;
    processReducedWrapper(m, &a);
    if (pre) { cents = a.originalData; lab = a.originalLabels; H::check(lab.size() == pts.size() && (int)cents.size() == kc, "clustering"); for (auto& z : cents) for (double x : z) if (std::isnan(x)) return; } // an empty cluster has no centroid (0/0)
    H::check(a.originalData == cents && a.fullData == pts && a.originalLabels == lab, "the data are not the centroids, the full data and the labels");
    auto d = [](const H::Pt& x, const H::Pt& y) { double s = 0; for (size_t i = 0; i < x.size(); i++) s += (x[i] - y[i]) * (x[i] - y[i]); return std::sqrt(s); };
    double rad = 0; for (size_t i = 0; i < pts.size(); i++) rad = std::max(rad, d(pts[i], cents[lab[i]]));
    std::vector<Row> exp; std::string parts;
    for (auto& z : cents) {
        std::vector<unsigned> idx; H::Pts p;
        for (size_t i = 0; i < pts.size(); i++) { double q = d(pts[i], z); if (std::fabs(q - 2 * rad) < 1e-9 * (1 + rad) && q != 2 * rad) return; if (q < 2 * rad) { idx.push_back(i); p.push_back(pts[i]); } }
        parts += H::vstr(idx);
        if (!p.empty()) { auto t = alone(m, c, p, &idx); exp.insert(exp.end(), t.begin(), t.end()); }
    }
    if (!cents.empty()) { auto t = alone(m, c, cents, nullptr); exp.insert(exp.end(), t.begin(), t.end()); }
    std::vector<Row> got; for (auto& e : a.bettiTable) got.push_back(Row(e.bettiDim, e.birth, e.death, e.boundaryPoints));
    std::string gs, es; for (auto& x : got) gs += rstr(x); for (auto& x : exp) es += rstr(x);
    std::sort(got.begin(), got.end()); std::sort(exp.begin(), exp.end());
    H::check(got == exp, "partitions " + parts + ": the table is " + gs + " instead of " + es);
    H::check(a.complex->simplexCount() == 0, "the complex is not empty at the end");
    drop(a, c);
}
