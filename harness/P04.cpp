#include "common.hpp"
#define private public
#define protected public
#include "utils.hpp"
#include "basePipe.hpp"
#include "distMatrixPipe.hpp"
#include "simplexArrayList.hpp"
#include "simplexTree.hpp"
using namespace H;
void run_case(Rng& r, uint64_t k) {
    int d = r.in(1, 4), n = k < 3 ? (int)k : r.in(0, 14);
    Pts p = points(r, n, d);
    double eps = r.chance(40) ? r.in(0, 4) : r.unit() * 6;
    if (n >= 2 && r.chance(30)) eps = H::dist(p[0], p[n - 1]);
    bool pre = r.chance(40);
    const char* ty[] = {"simplexArrayList", "simplexTree", "indSimplexTree"};
    std::string t = ty[r.in(0, 1)];
    note("complex=" + t + " points=" + vvstr(p) + " eps=" + str(eps) + (pre ? " packet prefilled" : ""));
    record();
    pipePacket in(t, eps, 2);
    in.originalData = p; in.stats = "stats"; in.bettiOutput = "b";
    if (pre) { in.weights.insert(r.in(5, 9)); in.originalLabels = {3, 1, 2}; in.fullData = {{1, 2}}; in.boundaries = {{1, 2}, {3}}; bettiBoundaryTableEntry e = {1, 0.5, 0.75, {1, 2}}; in.bettiTable.push_back(e); }
    auto w0 = in.weights;
    distMatrixPipe dp;
    std::map<std::string, std::string> cfg; std::ostringstream o; o << std::setprecision(17) << eps; cfg["epsilon"] = o.str();
    check(dp.configPipe(cfg), "configPipe refused a map that contains epsilon");
    pipePacket out = dp.runPipe(in);
    auto& m = out.complex->distMatrix;
    check((int)m.size() == n, "matrix rows");
    std::set<double> exp(w0.begin(), w0.end()); exp.insert(0.0); exp.insert(dp.maxEpsilon);
    for (int i = 0; i < n; i++) {
        check((int)m[i].size() == n, "matrix row length");
        for (int j = 0; j < n; j++) {
            double e = i < j ? H::dist(p[i], p[j]) : 0;
            check(near(m[i][j], e), "entry (" + str(i) + "," + str(j) + ") = " + str(m[i][j]) + " expected " + str(e));
            if (i < j && m[i][j] < dp.maxEpsilon) exp.insert(m[i][j]);
        }
    }
    std::set<double> got(out.weights.begin(), out.weights.end());
    check(got == exp, "weights " + vstr(got) + " expected " + vstr(exp));
    check(out.originalData == p && out.originalLabels == in.originalLabels && out.fullData == in.fullData && out.boundaries == in.boundaries && out.stats == "stats" && out.bettiOutput == "b" && out.bettiTable.size() == in.bettiTable.size() && out.complex == in.complex, "another part of the packet changed");
    for (auto& l : out.complex->weightedGraph) check(l.empty(), "complex changed");
    check(out.complex->maxDimension == 2, "complex dimension changed");
    if (t == "simplexTree") delete (simplexTree*)out.complex; else delete (simplexArrayList*)out.complex;
}
