#include "common.hpp"
#define private public
#define protected public
#include "utils.hpp"
using namespace H;
void run_case(Rng& r, uint64_t k) {
    int d = r.in(1, 4), n = r.in(0, 14), c = r.in(0, 6);
    Pts p = points(r, n, d), ce = points(r, c, d);
    int nl = r.chance(75) ? n : r.in(0, n);
    std::vector<unsigned> lab;
    for (int i = 0; i < nl; i++) lab.push_back(c ? r.in(0, c - 1) : 0);
    double rad = r.chance(30) ? r.in(0, 4) : r.unit() * 6;
    if (c && n && r.chance(30)) rad = H::dist(p[r.in(0, n - 1)], ce[r.in(0, c - 1)]);
    std::vector<std::set<unsigned>> b(r.in(0, 4));
    for (auto& s : b) { int q = r.in(0, 3); for (int i = 0; i < q; i++) s.insert(r.in(0, 7)); }
    std::vector<unsigned> lab2; for (int i = 0; i < n + (r.chance(20) ? 2 : 0); i++) lab2.push_back(r.in(0, 7));
    std::string bs; for (auto& s : b) bs += vstr(s);
    note("points=" + vvstr(p) + " centroids=" + vvstr(ce) + " labels=" + vstr(lab) + " rad=" + str(rad) + " boundaries=" + bs + " labels2=" + vstr(lab2));
    record();
    utils u;
    if (c > 0 || nl == 0) {
        auto g = u.separatePartitions(c, p, lab);
        std::vector<Pts> e(c); std::vector<std::vector<unsigned>> el(c);
        for (int i = 0; i < nl; i++) { e[lab[i]].push_back(p[i]); el[lab[i]].push_back(i); }
        check(g.second == e, "separatePartitions by label: wrong points"); check(g.first == el, "separatePartitions by label: wrong indices");
    }
    {
        std::vector<unsigned> l2(nl, 0);
        auto g = u.separatePartitions(rad, ce, p, l2);
        check(g.first.size() == ce.size() && g.second.size() == ce.size(), "separatePartitions by radius: partition count");
        for (int j = 0; j < c; j++) {
            Pts e; std::vector<unsigned> el;
            for (int i = 0; i < nl; i++) if (u.vectors_distance(p[i], ce[j]) < rad) { e.push_back(p[i]); el.push_back(i); }
            check(g.second[j] == e, "separatePartitions by radius: wrong points in " + str(j)); check(g.first[j] == el, "separatePartitions by radius: wrong indices in " + str(j));
        }
    }
    auto g = u.separateBoundaryPartitions(b, p, lab2);
    check(g.size() == b.size(), "separateBoundaryPartitions: partition count");
    for (size_t j = 0; j < b.size(); j++) {
        Pts e; for (int i = 0; i < n; i++) if (b[j].count(lab2[i])) e.push_back(p[i]);
        check(g[j] == e, "separateBoundaryPartitions: wrong points in " + str(j));
    }
}
