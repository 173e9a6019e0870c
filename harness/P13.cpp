#include "common.hpp"
#define private public
#include "kMeansPlusPlus.hpp"
using namespace H;
void run_case(Rng& r, uint64_t k) {
    int d = r.in(1, 3), n = k < 2 ? 1 : r.in(1, r.chance(20) ? 40 : 12);
    Pts p;
    int kind = r.in(0, 2), spread = r.in(1, 10);
    for (int i = 0; i < n; i++) {
        Pt x(d);
        for (int j = 0; j < d; j++) x[j] = kind == 0 ? r.in(-spread, spread) : kind == 1 ? r.in(0, 2) * 100 + r.in(0, 3) : r.unit() * spread;
        if (i && r.chance(10)) x = p[r.in(0, i - 1)];
        p.push_back(x);
    }
    int nc = r.in(1, r.chance(20) ? n + 3 : std::min(n, 5)), iters = r.chance(40) ? r.in(1, 4) : 400;
    note("points=" + vvstr(p) + " clusters=" + str(nc) + " iterations=" + str(iters) + " (random seeds vary)");
    record();
    kMeansPlusPlus km;
    std::map<std::string, std::string> cfg{{"clusters", str(nc)}, {"iterations", str(iters)}, {"debug", "0"}, {"outputFile", "/dev/null"}};
    check(km.configPreprocessor(cfg), "configuration with clusters and iterations was refused");
    pipePacket pk("simplexArrayList", 1.0, 1);
    pk.originalData = p;
    pipePacket out = km.runPreprocessor(pk);
    auto& c = out.originalData; auto& l = out.originalLabels;
    std::string res = " centroids=" + vvstr(c) + " labels=" + vstr(l);
    check((int)c.size() == nc, "number of centroids is " + str(c.size()) + res);
    check(l.size() == p.size(), "number of labels is " + str(l.size()) + res);
    std::vector<int> cnt(nc, 0);
    Pts mean(nc, Pt(d, 0));
    for (int i = 0; i < n; i++) { check((int)l[i] < nc, "label of point " + str(i) + " out of range" + res); cnt[l[i]]++; for (int j = 0; j < d; j++) mean[l[i]][j] += p[i][j]; }
    for (int a = 0; a < nc; a++) {
        check((int)c[a].size() == d, "centroid " + str(a) + " has a wrong dimension" + res);
        if (cnt[a]) for (int j = 0; j < d; j++) check(near(c[a][j], mean[a][j] / cnt[a]), "centroid " + str(a) + " is not the mean of its points" + res);
    }
    if (iters == 400)   // far more rounds than such small data can take
        for (int i = 0; i < n; i++) for (int a = 0; a < nc; a++) if (cnt[a]) check(H::dist(p[i], c[l[i]]) <= H::dist(p[i], c[a]) + 1e-9, "point " + str(i) + " is nearer to centroid " + str(a) + " than to its own" + res);
}
