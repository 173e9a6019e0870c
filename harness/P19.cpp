#include "common.hpp"
#define private public
#define protected public
#include "utils.hpp"
#include "naiveWindow.hpp"
#include "simplexTree.hpp"
#include "readInput.hpp"
using namespace H;
// a simplex tree that records what the stream offers it
struct Rec : simplexTree {
    std::vector<std::pair<Pt, Pts>> calls; bool evalTrue = true;
    Rec(double e, int d) : simplexTree(e, {}, d) {}
    bool insertIterative(Pt& p, Pts& w) {
        calls.push_back({p, w});
        Pt q = p; Pts v = w; if (!streamEval || !streamEval(q, v)) evalTrue = false;
        return simplexTree::insertIterative(p, w);
    }
};
struct Fds {   // the reader does not close its stream
    std::set<int> before; Fds() { for (int f = 3; f < 64; f++) if (fcntl(f, F_GETFD) >= 0) before.insert(f); }
    ~Fds() { for (int f = 3; f < 64; f++) if (!before.count(f) && fcntl(f, F_GETFD) >= 0) close(f); }
};
void run_case(Rng& r, uint64_t k) {
    Fds fds;
    int n = r.chance(10) ? r.in(0, 5) : r.chance(35) ? r.in(48, 53) : r.chance(40) ? r.in(98, 104) : r.chance(50) ? r.in(198, 204) : r.in(0, 320), d = r.in(1, 3);
    Pts pts; std::string text;
    bool ties = r.chance(40);
    for (int i = 0; i < n; i++) {
        Pt p; for (int j = 0; j < d; j++) p.push_back(ties ? r.in(-3, 3) : r.in(-4000, 4000) * 0.001);
        for (int j = 0; j < d; j++) { char b[40]; snprintf(b, sizeof b, "%.3f", p[j]); p[j] = strtod(b, 0); text += (j ? "," : "") + std::string(b); }
        pts.push_back(p); if (i + 1 < n || r.chance(50)) text += "\n";
    }
    double eps = ties ? 1 : 0.6; int dim = r.in(1, 2);
    { std::ofstream o("stream.csv"); o << text; }
    note("stream of " + str(n) + " points, dimension " + str(d) + ": " + vvstr(Pts(pts.begin(), pts.begin() + std::min(n, 3))) + "... eps " + str(eps) + " maxdim " + str(dim));
    record();
    std::map<std::string, std::string> cfg{{"epsilon", str(eps)}, {"dimensions", str(dim)}, {"inputFile", r.chance(5) ? "missing.csv" : "stream.csv"}, {"outputFile", "o"}, {"debug", "0"}, {"complexType", "simplexTree"}};
    bool missing = cfg["inputFile"] == "missing.csv"; int m = missing ? 0 : n;
    naiveWindow nw; check(nw.configPipe(cfg), "the stage refuses its configuration");
    pipePacket in(cfg, "simplexTree"); Rec* rec = new Rec(eps, dim); delete (simplexTree*)in.complex; in.complex = rec;
    pipePacket out = nw.runPipe(in);
    Pts want; if (m >= 50) { int a = m < 100 ? 0 : m - m % 100 - 50; want.assign(pts.begin() + a, pts.begin() + a + 50); }
    check(out.originalData == want, "data after the stream: " + str(out.originalData.size()) + " points " + vvstr(out.originalData).substr(0, 200) + " expected " + vvstr(want).substr(0, 200));
    check(out.complex == rec, "the complex was replaced");
    check((int)rec->calls.size() == std::max(0, m - 50), str(rec->calls.size()) + " points offered to the complex, expected " + str(std::max(0, m - 50)));
    for (int i = 0; i < (int)rec->calls.size(); i++) {
        check(rec->calls[i].first == pts[50 + i], "point " + str(50 + i) + " offered as " + vstr(rec->calls[i].first));
        check(rec->calls[i].second == Pts(pts.begin() + i, pts.begin() + i + 50), "window before point " + str(50 + i) + " is " + vvstr(rec->calls[i].second).substr(0, 200));
    }
    check(rec->evalTrue, "the stream evaluator rejects a point");
    if (m >= 50) {
        check(rec->vertexCount() == 50, "the complex has " + str(rec->vertexCount()) + " vertices");
        check(rec->distMatrix.size() == 50, "distance matrix of size " + str(rec->distMatrix.size()));
        for (int i = 0; i < 50; i++) for (int j = i + 1; j < 50; j++) check(near(rec->distMatrix[i][j], dist(pts[i], pts[j])), "distance of points " + str(i) + "," + str(j));
        std::map<std::set<unsigned>, double> edges; auto all = rec->getAllEdges(eps);
        if (all.size() > 1) for (auto& e : all[1]) edges[e.first] = e.second;
        for (unsigned i = 0; i < 50; i++) for (unsigned j = i + 1; j < 50; j++) {
            double x = rec->distMatrix[i][j];
            check(edges.count({i, j}) == (x < eps), "edge " + str(i) + "," + str(j));
        }
    } else check(rec->distMatrix.empty() && rec->vertexCount() == 0, "the complex was filled before the window");
    rec->clear(); delete rec;
}
