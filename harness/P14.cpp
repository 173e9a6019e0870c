#include "common.hpp"
#define private public
#include "denStream.hpp"
using namespace H;
struct M { Pt c, s; double w, l; int ct, et; };
static double dec(const M& m, int t) { return m.w * std::pow(2.0, -m.l * (t - m.et)); }
static M ins(const M& m, const Pt& x, int t) {
    M r = m; double w = dec(m, t);
    for (size_t i = 0; i < x.size(); i++) { r.c[i] = (w * m.c[i] + x[i]) / (w + 1); r.s[i] = (w * m.s[i] + x[i] * x[i]) / (w + 1); }
    r.w = w + 1; r.et = t; return r;
}
static double rad2(const M& m) { double r = 0; for (size_t i = 0; i < m.c.size(); i++) r += m.s[i] - m.c[i] * m.c[i]; return r; }
static bool eq(const Pt& a, const Pt& b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); i++) if (!near(a[i], b[i])) return false; return true; }
static bool same(const microCluster& a, const M& m) { return eq(a.center, m.c) && eq(a.avgSquares, m.s) && near(a.weight, m.w) && near(a.lambda, m.l) && a.creationTime == m.ct && a.editTime == m.et; }
static bool same(const std::vector<microCluster>& a, const std::vector<M>& b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); i++) if (!same(a[i], b[i])) return false; return true; }
static M snap(const microCluster& a) { return M{a.center, a.avgSquares, a.weight, a.lambda, a.creationTime, a.editTime}; }
static std::vector<M> snap(const std::vector<microCluster>& v) { std::vector<M> r; for (auto& a : v) r.push_back(snap(a)); return r; }
static std::string show(const M& m) { return "{c=" + vstr(m.c) + " s=" + vstr(m.s) + " w=" + str(m.w) + " l=" + str(m.l) + " created=" + str(m.ct) + " edited=" + str(m.et) + "}"; }
static std::string show(const std::vector<M>& v) { std::string s = "["; for (auto& m : v) s += show(m); return s + "]"; }
// nearest index, or -2 when two candidates are too close to call, -1 when there is none
static int nearest(const std::vector<M>& v, const Pt& x) {
    int b = -1; for (int i = 0; i < (int)v.size(); i++) if (b < 0 || H::dist(v[i].c, x) < H::dist(v[b].c, x)) b = i;
    for (int i = 0; i < (int)v.size(); i++) if (i != b && std::fabs(H::dist(v[i].c, x) - H::dist(v[b].c, x)) < 1e-9) return -2;
    return b;
}
void run_case(Rng& r, uint64_t k) {
    int d = r.in(1, 3);
    Pts pts; int np = r.in(1, 14), spread = r.in(1, 8);
    for (int i = 0; i < np; i++) { Pt x(d); for (auto& v : x) v = r.chance(40) ? r.in(-spread, spread) : r.unit() * spread; if (i && r.chance(30)) x = pts[r.in(0, i - 1)]; pts.push_back(x); }
    double lam = r.chance(40) ? r.in(0, 3) * 0.5 : r.unit(), eps = r.chance(20) ? 0.25 * r.in(0, 8) : r.unit() * 4;
    int mu = r.in(1, 6); double beta = r.chance(40) ? 0.2 : r.chance(50) ? 0.5 * r.in(1, 2) : r.unit();
    note("points=" + vvstr(pts) + " lambda=" + str(lam) + " epsilon=" + str(eps) + " mu=" + str(mu) + " beta=" + str(beta));
    // one cluster alone
    microCluster mc(r.in(0, 3), d, lam);
    M m{Pt(d, 0), Pt(d, 0), 0, lam, mc.creationTime, 0};
    check(same(mc, m), "a new micro-cluster is not empty");
    int t = r.in(0, 3);
    std::string h;
    for (int i = 0; i < np; i++) {
        if (r.chance(50)) t += r.in(0, 3);
        h += " insert point " + str(i) + " at " + str(t) + ";";
        note(h); record();
        check(near(mc.getWeight(t), dec(m, t)), "weight at " + str(t) + " is " + str(mc.getWeight(t)) + ", expected " + str(dec(m, t)));
        double pr = mc.mergeRadius(pts[i], t);
        m = ins(m, pts[i], t); mc.insertPoint(pts[i], t);
        check(same(mc, m), "cluster " + show(snap(mc)) + " expected " + show(m) + " after" + h);
        double e = rad2(m), sc = 1; for (double v : m.s) sc += v;
        if (e > 1e-9 * sc) { check(near(mc.getRadius(), std::sqrt(e)), "radius " + str(mc.getRadius()) + " expected " + str(std::sqrt(e)) + " after" + h);
            check(near(pr, std::sqrt(e)), "predicted radius " + str(pr) + " is not the radius " + str(std::sqrt(e)) + " after" + h); }
        check(eq(mc.getCenter(), m.c) && mc.getCreationTime() == m.ct, "accessors differ from the state after" + h);
        if (r.chance(10)) { m = M{Pt(d, 0), Pt(d, 0), 0, lam, t, 0}; mc = microCluster(t, d, lam); h += " new cluster at " + str(t) + ";"; }
    }
    // a stream merged into the two lists
    denStream ds; ds.lambda = lam; ds.epsilon = eps; ds.mu = mu; ds.beta = beta;
    int p0 = r.in(0, 3); t = r.in(0, 5);
    for (int i = 0; i < p0; i++) { microCluster c(r.in(0, t), d, lam); int q = r.in(r.chance(10) ? 0 : 1, 3); for (int j = 0; j < q; j++) c.insertPoint(pts[r.in(0, np - 1)], t); ds.pMicroClusters.push_back(c); }
    int o0 = r.in(0, 4);
    for (int i = 0; i < o0; i++) { microCluster c(r.in(0, t), d, lam); int q = r.in(1, 2); for (int j = 0; j < q; j++) c.insertPoint(pts[r.in(0, np - 1)], t); ds.oMicroClusters.push_back(c); }
    for (int s = 0; s < 12; s++) {
        if (r.chance(40)) t += r.in(0, 3);
        int pi = r.in(0, np - 1); const Pt x = pts[pi];
        auto P = snap(ds.pMicroClusters), O = snap(ds.oMicroClusters);
        desc.clear();
        std::string c = "P=" + show(P) + " O=" + show(O) + " lambda=" + str(lam) + " epsilon=" + str(eps) + " mu=" + str(mu) + " beta=" + str(beta) + " point=" + vstr(x) + " time=" + str(t);
        note(c); record();
        auto Q = P, U = O;
        bool unsure = false;
        auto takes = [&](std::vector<M>& v, int j) { double e = rad2(ins(v[j], x, t)), sc = 1; for (double q : v[j].s) sc += q; for (double q : x) sc += q * q; if (e < 1e-9 * sc && v[j].w != 0) unsure = true; if (std::fabs(std::sqrt(std::fabs(e)) - eps) < 1e-6) unsure = true; return std::sqrt(std::fabs(e)) <= eps; };
        int j = nearest(P, x), o = nearest(O, x);
        if (j == -2) unsure = true;
        else if (j >= 0 && takes(P, j)) Q[j] = ins(P[j], x, t);
        else if (o == -2) unsure = true;
        else if (o >= 0 && takes(O, o)) {
            M n = ins(O[o], x, t);
            bool exact = O[o].et == t || lam == 0; // no decay: the comparison is exact
            if (!exact && std::fabs(dec(n, t) - beta * mu) < 1e-9) unsure = true;
            if (dec(n, t) > beta * mu) { Q.push_back(n); U.erase(U.begin() + o); } else U[o] = n;
        } else { M n{Pt(d, 0), Pt(d, 0), 0, lam, t, 0}; U.push_back(ins(n, x, t)); }
        Pts keep = pts;
        ds.merging(pts, pi, t);
        check(pts == keep, "merging changed the data");
        if (unsure) return;
        check(same(ds.pMicroClusters, Q) && same(ds.oMicroClusters, U), "after merging P=" + show(snap(ds.pMicroClusters)) + " O=" + show(snap(ds.oMicroClusters)) + "\nexpected P=" + show(Q) + " O=" + show(U));
    }
}
