#include "common.hpp"
#define private public
#include "kdTree.hpp"
using namespace H;
void run_case(Rng& r, uint64_t k) {
    int d = r.in(1, 4), n = k < 4 ? (int)k : r.in(1, r.chance(20) ? 60 : 16);
    Pts p = points(r, n, d);
    int size = r.chance(30) && n ? r.in(0, n) : 0;
    int m = size ? size : n;
    note("points=" + vvstr(p) + " size=" + str(size));
    record();
    kdTree t(p, size);
    for (int q = 0; q < 4; q++) {
        Pt x(d);
        int kind = r.in(0, 2);
        for (int i = 0; i < d; i++) x[i] = kind == 0 ? r.in(-3, 3) : r.unit() * 12 - 6;
        if (kind == 2 && n) x = p[r.in(0, n - 1)];
        double rad = r.chance(40) ? r.in(0, 4) : r.unit() * 6;
        if (n && r.chance(40)) rad = H::dist(p[r.in(0, n - 1)], x);
        if (r.chance(5)) rad = -1;
        std::string c = " query=" + vstr(x) + " radius=" + str(rad);
        note(c); record();
        auto idx = t.neighborhoodIndices(x, rad);
        auto pts = t.neighborhoodPoints(x, rad);
        auto both = t.neighborhood(x, rad);
        check(idx.size() == pts.size() && idx.size() == both.size(), "the three radius queries have different sizes");
        std::multiset<size_t> got(idx.begin(), idx.end()), ib;
        std::multiset<Pt> gp(pts.begin(), pts.end()), ep;
        for (auto& e : both) { check(e.second < (size_t)m && e.first == p[e.second], "neighbor point does not belong to its index"); ib.insert(e.second); }
        check(got == ib, "indices differ between queries");
        for (int i = 0; i < m; i++) {
            double e = H::dist(p[i], x);
            size_t c1 = got.count(i);
            if (c1) ep.insert(p[i]);
            if (e != rad && std::fabs(e - rad) < 1e-9) { check(c1 <= 1, "index reported twice"); continue; }
            check(c1 == (e <= rad ? 1u : 0u), "index " + str(i) + " at distance " + str(e) + " reported " + str(c1) + " times" + c);
        }
        for (auto i : got) check(i < (size_t)m, "index out of range");
        check(gp == ep, "neighborhoodPoints differs from the points of the indices");
        if (m > 0) {
            double best = 1e300;
            for (int i = 0; i < m; i++) best = std::min(best, H::dist(p[i], x));
            size_t ni = t.nearestIndex(x);
            check(ni < (size_t)m, "nearest index out of range");
            check(near(H::dist(p[ni], x), best), "nearest index " + str(ni) + " is at " + str(H::dist(p[ni], x)) + ", best is " + str(best) + c);
            Pt np = t.nearestPoint(x);
            check(std::find(p.begin(), p.begin() + m, np) != p.begin() + m && near(H::dist(np, x), best), "nearest point wrong" + c);
            auto pi = t.nearestPointIndex(x);
            check(pi.second < (size_t)m && pi.first == p[pi.second] && near(H::dist(pi.first, x), best), "nearest point/index wrong" + c);
        }
    }
}
