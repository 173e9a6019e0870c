#include "common.hpp"
#define private public
#define protected public
#include "utils.hpp"
#include "simplexTree.hpp"
using namespace H;
typedef std::map<std::set<unsigned>, double> Cx;
static void cliques(const Pts& m, int n, double eps, int k, std::vector<unsigned>& cur, double w, std::map<std::set<unsigned>, double>& out) {
    if (!cur.empty()) out[std::set<unsigned>(cur.begin(), cur.end())] = w;
    if ((int)cur.size() == k) return;
    for (int v = cur.empty() ? 0 : cur.back() + 1; v < n; v++) {
        double ww = w; bool ok = true;
        for (auto u : cur) { if (!(m[u][v] < eps)) ok = false; ww = std::max(ww, m[u][v]); }
        if (!ok) continue;
        cur.push_back(v); cliques(m, n, eps, k, cur, ww, out); cur.pop_back();
    }
}
static void compare(simplexTree& t, const Pts& m, int n, double eps, int md, const std::string& when) {
    Cx want; std::vector<unsigned> c; cliques(m, n, eps, md + 1, c, 0, want);
    auto g = t.getAllEdges(eps);
    unsigned base = 0; if (!g.empty() && !g[0].empty()) { base = ~0u; for (auto& s : g[0]) base = std::min(base, *s.first.begin()); }
    if (n > 0 && base != 0) check(false, when + ": the points are numbered from " + str(base));
    size_t total = 0; Cx got;
    for (size_t k = 0; k < g.size(); k++) {
        check(!g[k].empty(), when + ": empty level " + str(k));
        double last = -1;
        for (auto& s : g[k]) {
            check(s.first.size() == k + 1, when + ": simplex " + vstr(s.first) + " listed with size " + str(k + 1));
            check(last <= s.second, when + ": listing of size " + str(k + 1) + " is not ordered by weight"); last = s.second;
            std::set<unsigned> q; for (unsigned x : s.first) q.insert(x - base);
            check(!got.count(q), when + ": simplex " + vstr(q) + " listed twice"); got[q] = s.second; total++;
        }
        auto d = t.getDimEdges(k, eps); check(d.size() == g[k].size(), when + ": dimension filter");
        for (size_t i = 0; i < d.size(); i++) check(std::set<unsigned>(d[i].begin(), d[i].end()) == g[k][i].first && d[i].size() == k + 1, when + ": dimension filter entry");
    }
    for (auto& s : want) { check(got.count(s.first), when + ": missing simplex " + vstr(s.first)); check(got[s.first] == s.second, when + ": weight of " + vstr(s.first) + " is " + str(got[s.first]) + " expected " + str(s.second)); }
    for (auto& s : got) check(want.count(s.first), when + ": extra simplex " + vstr(s.first));
    check(t.simplexCount() == (int)total, when + ": simplex count " + str(t.simplexCount()) + " but " + str(total) + " simplices");
    check(t.vertexCount() == n, when + ": vertex count " + str(t.vertexCount()) + " after " + str(n) + " points");
}
void run_case(Rng& r, uint64_t k) {
    int rounds = r.chance(60) ? 1 : r.in(2, 3), md = r.in(1, 4);
    double eps = r.chance(50) ? r.in(1, 6) : 0.1 + r.unit() * 8;
    note("eps " + str(eps) + " max dimension " + str(md));
    std::vector<Pts> ms; std::vector<int> ns; std::vector<std::vector<int>> queries;
    for (int q = 0; q < rounds; q++) {
        int n = k < 3 ? (int)k : r.in(0, r.chance(10) ? 13 : 8);
        Pts m(n, Pt(n, 0)); int kind = r.in(0, 3);
        for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) m[i][j] = kind == 0 ? r.in(0, 8) : kind == 1 ? r.unit() * 8 : kind == 2 ? (r.chance(70) ? eps * 0.5 : eps) : (r.chance(80) ? r.unit() * eps : eps + 0.5);
        if (r.chance(30)) { Pts p = points(r, n, 2); for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) m[i][j] = H::dist(p[i], p[j]); }
        ms.push_back(m); ns.push_back(n); queries.push_back({});
        for (int i = 0; i < n; i++) queries.back().push_back(r.chance(35));
        note("round " + str(q) + " distances " + vvstr(m) + " queried after " + vstr(queries.back()));
    }
    record();
    simplexTree t(eps, ms[0], md);
    for (int q = 0; q < rounds; q++) {
        if (q) { t.clear(); Pts none; compare(t, none, 0, eps, md, "after clear " + str(q)); t.setDistanceMatrix(ms[q]); }
        for (int i = 0; i < ns[q]; i++) { Pt dummy; t.insert(dummy); if (queries[q][i]) compare(t, ms[q], i + 1, eps, md, "round " + str(q) + " after " + str(i + 1) + " points"); }
        compare(t, ms[q], ns[q], eps, md, "round " + str(q) + " at the end");
    }
}
