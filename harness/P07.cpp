#include "common.hpp"
#define private public
#define protected public
#include "utils.hpp"
#include "simplexArrayList.hpp"
using namespace H;
typedef std::vector<std::vector<std::pair<std::vector<unsigned>, double>>> Graph;
static std::string gstr(const Graph& g) { std::string s; for (auto& l : g) { s += "{"; for (auto& e : l) s += vstr(e.first) + ":" + str(e.second) + " "; s += "}"; } return s; }
void run_case(Rng& r, uint64_t k) {
    int n = r.in(0, 7), md = r.in(0, 3);
    double eps = r.in(1, 6);
    Pts m(n, Pt(n, 0));
    for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) m[i][j] = r.chance(60) ? r.in(1, 8) : r.unit() * 8;
    simplexArrayList c(eps, md, m);
    bool rips = r.chance(60);
    if (rips) { Pt one{1.0}; for (int i = 0; i < n; i++) c.insert(one); if (n && md > 0) c.expandDimensions(md); }
    else if (n >= 4) {  // an arbitrary stored family
        int L = r.in(0, 4);
        for (int s = 1; s <= L; s++) {
            std::vector<std::pair<std::vector<unsigned>, double>> lev;
            int cnt = r.in(r.chance(20) ? 0 : 1, 4);
            for (int q = 0; q < cnt; q++) { std::set<unsigned> v; while ((int)v.size() < s) v.insert(r.in(0, n - 1)); lev.push_back({std::vector<unsigned>(v.begin(), v.end()), (double)r.in(0, 5)}); }
            c.weightedGraph.push_back(lev);
        }
    }
    const Graph g = c.weightedGraph;
    double qe = r.chance(50) ? r.in(0, 8) : r.unit() * 8;
    std::vector<unsigned> q;
    if (r.chance(70) && !g.empty()) { auto& l = g[r.in(0, g.size() - 1)]; if (!l.empty()) q = l[r.in(0, l.size() - 1)].first; }
    if (q.empty()) { std::set<unsigned> v; int s = r.in(1, 4); while ((int)v.size() < s) v.insert(r.in(0, 8)); q.assign(v.begin(), v.end()); }
    if (r.chance(15)) q.back() += 1;
    note("graph=" + gstr(g) + " matrix=" + vvstr(m) + " query=" + vstr(q) + " eps=" + str(qe));
    record();
    auto same = [&](const char* w) { check(c.weightedGraph == g, std::string(w) + " changed the complex"); };
    // listing
    auto ae = c.getAllEdges(qe); same("getAllEdges");
    size_t ri = 0;
    for (auto& l : g) {
        if (l.empty()) continue;
        check(ri < ae.size(), "getAllEdges: missing level");
        std::vector<std::pair<std::set<unsigned>, double>> a = ae[ri], b;
        for (auto& e : l) b.push_back({std::set<unsigned>(e.first.begin(), e.first.end()), e.second});
        for (size_t i = 1; i < a.size(); i++) check(a[i - 1].second <= a[i].second, "getAllEdges: weights not nondecreasing");
        std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end()); check(a == b, "getAllEdges: level " + str(ri) + " is not a permutation of the stored simplices");
        ri++;
    }
    check(ri == ae.size(), "getAllEdges: extra level");
    // membership and weight
    const std::pair<std::vector<unsigned>, double>* hit = nullptr;
    if (q.size() <= g.size()) for (auto& e : g[q.size() - 1]) if (e.first == q) { hit = &e; break; }
    check(c.find(q) == (hit != nullptr), "find"); same("find");
    if (q.size() <= g.size()) { double w = c.findWeight(q); check(w == (hit ? hit->second : -1), "findWeight " + str(w)); same("findWeight"); }
    int cnt = 0; for (auto& l : g) cnt += l.size();
    check(c.simplexCount() == cnt, "simplexCount"); check(c.vertexCount() == (g.empty() ? 0 : (int)g[0].size()), "vertexCount"); same("counts");
    for (int d = -1; d <= (int)g.size() + 1; d++) {
        auto e = c.getDimEdges(d, qe); same("getDimEdges");
        std::vector<std::vector<unsigned>> x;
        if (d >= 1 && d <= (int)g.size()) for (auto& s : g[d - 1]) { bool ok = true; for (size_t i = 0; i < s.first.size(); i++) for (size_t j = i + 1; j < s.first.size(); j++) if (m[s.first[i]][s.first[j]] > qe) ok = false; if (ok) x.push_back(s.first); }
        check(e == x, "getDimEdges(" + str(d) + ")");
    }
    if (q.size() <= g.size()) {
        bool b = c.deletion(q); Graph e = g;
        check(b == (hit != nullptr), "deletion result");
        if (hit) e[q.size() - 1].erase(e[q.size() - 1].begin() + (hit - &g[q.size() - 1][0]));
        check(c.weightedGraph == e, "deletion: complex afterwards " + gstr(c.weightedGraph));
    }
    auto dmx = c.distMatrix;
    c.clear();
    check(c.weightedGraph.empty() && c.simplexCount() == 0 && c.vertexCount() == 0 && c.distMatrix == dmx && c.maxDimension == md && c.maxEpsilon == eps, "clear");
    if (n) { Pt one{1.0}; for (int i = 0; i < n; i++) c.insert(one); check(c.vertexCount() == n, "filling again after clear"); }
}
