#include "common.hpp"
#define private public
#include "dbscan.hpp"
using namespace H;
// the definition of a density clustering, checked by brute force
static void definition(const Pts& p, const std::vector<int>& l, int n, int mp, double eps) {
    std::vector<std::vector<char>> nr(n, std::vector<char>(n));
    std::vector<char> core(n);
    for (int i = 0; i < n; i++) { int c = 0; for (int j = 0; j < n; j++) { nr[i][j] = H::dist(p[i], p[j]) <= eps; c += nr[i][j]; } core[i] = c >= mp; }
    std::set<int> used;
    int top = 0;
    check((int)l.size() == n, "number of labels is " + str(l.size()) + ", expected " + str(n));
    for (int i = 0; i < n; i++) {
        check(l[i] == -1 || l[i] >= 1, "label of point " + str(i) + " is " + str(l[i]));
        if (l[i] > 0) { used.insert(l[i]); top = std::max(top, l[i]); }
        bool reach = false, own = false;
        for (int j = 0; j < n; j++) if (core[j] && nr[i][j]) { reach = true; if (l[j] == l[i]) own = true; }
        check((l[i] == -1) == !reach, "point " + str(i) + " labelled " + str(l[i]) + (reach ? " has a core point in range" : " has no core point in range") + " labels=" + vstr(l));
        check(l[i] == -1 || own, "point " + str(i) + " has no core point of its own cluster in range, labels=" + vstr(l));
        for (int j = 0; j < n; j++) if (core[i] && core[j] && nr[i][j]) check(l[i] == l[j], "core points " + str(i) + "," + str(j) + " in range but in different clusters, labels=" + vstr(l));
    }
    check((int)used.size() == top, "cluster numbers are not contiguous, labels=" + vstr(l));
}
void run_case(Rng& r, uint64_t k) {
    int d = r.in(1, 3), n = k < 3 ? (int)k : r.in(1, r.chance(20) ? 60 : 18);
    Pts p;
    int kind = r.in(0, 3);
    int spread = r.in(2, 12);
    for (int i = 0; i < n; i++) {
        Pt x(d);
        for (int j = 0; j < d; j++) x[j] = kind == 0 ? r.in(0, spread) : kind == 1 ? (j == 0 ? i + (r.chance(20) ? 1 : 0) : 0) : kind == 2 ? r.in(0, 2) * 10 + r.in(0, 2) : r.unit() * spread;
        if (i && r.chance(8)) x = p[r.in(0, i - 1)];
        p.push_back(x);
    }
    if (r.chance(50)) std::shuffle(p.begin(), p.end(), r.g);
    int size = r.chance(30) && n ? r.in(0, n) : 0;
    int m = size ? size : n;
    int mp = r.in(1, r.chance(20) ? 8 : 4);
    double eps = kind == 3 ? r.unit() * 4 : r.chance(60) ? r.in(0, 3) : r.unit() * 3;
    if (n && r.chance(30)) eps = H::dist(p[r.in(0, n - 1)], p[r.in(0, n - 1)]);
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { double e = H::dist(p[i], p[j]); if (e != eps && std::fabs(e - eps) < 1e-9) return; }
    note("points=" + vvstr(p) + " minPoints=" + str(mp) + " epsilon=" + str(eps) + " size=" + str(size));
    record();
    dbscan db;
    std::vector<int> l = db.cluster(p, mp, eps, size);
    definition(p, l, m, mp, eps);
}
