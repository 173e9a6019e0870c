#include "common.hpp"
#define private public
#define protected public
#include "utils.hpp"
using namespace H;
void run_case(Rng& r, uint64_t k) {
    int d = r.in(1, 5), n = r.in(0, 12), c = r.in(1, 5);
    Pts p = points(r, n, d), ce = points(r, c, d);
    Pt q = points(r, 1, d)[0];
    if (r.chance(10)) { for (auto& x : q) x *= 1e6; }
    std::vector<unsigned> lab;
    int nl = r.chance(80) ? n : r.in(0, n);
    for (int i = 0; i < nl; i++) lab.push_back(r.in(0, c - 1));
    note("points=" + vvstr(p) + " centroids=" + vvstr(ce) + " query=" + vstr(q) + " labels=" + vstr(lab));
    record();
    utils u;
    for (auto& x : p) { double g = u.vectors_distance(q, x); check(near(g, H::dist(q, x)), "vectors_distance " + str(g)); check(u.vectors_distance(x, q) == g || near(u.vectors_distance(x, q), g), "distance not symmetric"); check(u.vectors_distance(x, x) == 0, "distance to itself"); }
    Pt q2 = q; Pts p2 = p;
    auto nn = u.nearestNeighbors(q2, p2);
    check(q2 == q && p2 == p, "nearestNeighbors modified its input");
    check(nn.size() == p.size(), "nearestNeighbors size");
    for (size_t i = 0; i < p.size(); i++) check(near(nn[i], H::dist(q, p[i])), "nearestNeighbors[" + str(i) + "]");
    double m = 0; for (size_t i = 0; i < lab.size(); i++) m = std::max(m, H::dist(p[i], ce[lab[i]]));
    int kk = r.chance(70) ? c : r.in(0, c + 1); // the count argument does not limit the labels
    double g = u.computeMaxRadius(kk, ce, p, lab);
    check(near(g, m), "computeMaxRadius " + str(g) + " expected " + str(m));
    double s1 = q[0], s2 = ce[0][0]; check(near(u.vectors_distance(s1, s2), (s1 - s2) * (s1 - s2)), "scalar distance");
}
