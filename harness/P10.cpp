#include "common.hpp"
#define private public
#define protected public
#include "utils.hpp"
#include "boundaryPipe.hpp"
#include "persistencePairs.hpp"
using namespace H;
typedef std::vector<unsigned> V;
typedef std::vector<V> M;
typedef std::set<unsigned> S;
// pivot rows by the definition: row k is not in the span of rows 0..k-1 (basis kept by leading column)
static std::vector<bool> pivots(const M& m) {
    std::vector<bool> p; std::map<size_t, V> basis;
    for (auto r : m) {
        for (auto& b : basis) if (r[b.first]) for (size_t c = 0; c < r.size(); c++) r[c] ^= b.second[c];
        size_t l = 0; while (l < r.size() && !r[l]) l++;
        bool piv = l < r.size(); p.push_back(piv);
        if (piv) { for (auto& b : basis) if (b.second[l]) for (size_t c = 0; c < r.size(); c++) b.second[c] ^= r[c]; basis[l] = r; }
    }
    return p;
}
static int face(const S& f, const S& s) {
    if (s.empty()) return 1;
    int d = 0; for (unsigned x : f) d += !s.count(x); for (unsigned x : s) d += !f.count(x);
    return d == 1;
}
static S rs(Rng& r, int hi, int mx) { S s; int k = r.in(0, mx); for (int i = 0; i < k; i++) s.insert(r.in(0, hi)); return s; }
static V shuffled(Rng& r, const S& s) { V v(s.begin(), s.end()); for (size_t i = v.size(); i > 1; i--) std::swap(v[i - 1], v[r.in(0, i - 1)]); return v; }
void run_case(Rng& r, uint64_t k) {
    boundaryPipe bp; persistencePairs pp;
    int kind = r.in(0, 4);
    if (kind == 0) {  // face relation
        S a = rs(r, 6, 5), b = r.chance(50) ? rs(r, 6, 5) : a; if (r.chance(40) && !b.empty()) b.erase(b.begin()); if (r.chance(20)) b.insert(r.in(0, 8));
        V va = shuffled(r, a), vb = shuffled(r, b);
        note("face=" + vstr(va) + " simplex=" + vstr(vb)); record();
        int e = face(a, b);
        check(bp.checkFace(va, vb) == e, "boundaryPipe::checkFace"); check(pp.checkFace(va, vb) == e, "persistencePairs::checkFace(vectors)");
        check(pp.checkFace(a, b) == e, "persistencePairs::checkFace(sets)");
    } else if (kind == 1) {  // filtering
        std::vector<std::pair<double, V>> c; int n = r.in(0, 12);
        for (int i = 0; i < n; i++) c.push_back({(double)r.in(0, 6) * 0.5, shuffled(r, rs(r, 9, 4))});
        double eps = r.in(0, 6) * 0.5; unsigned sz = r.in(0, 4);
        std::string d = "complex="; for (auto& x : c) d += str(x.first) + ":" + vstr(x.second) + " "; note(d + " eps=" + str(eps) + " n=" + str(sz)); record();
        M e; for (auto& x : c) if (x.second.size() == sz && x.first <= eps) e.push_back(x.second);
        check(bp.nSimplices(eps, sz, c) == e, "boundaryPipe::nSimplices"); check(pp.nSimplices(eps, sz, c) == e, "persistencePairs::nSimplices");
    } else if (kind == 2) {  // rank of an arbitrary matrix
        int n = r.in(0, r.chance(20) ? 12 : 6), c = r.in(0, r.chance(20) ? 12 : 6), den = r.in(15, 70);
        M m(n, V(c)); for (auto& row : m) for (auto& x : row) x = r.chance(den);
        for (int i = 1; i < n; i++) if (r.chance(20)) { m[i] = m[r.in(0, i - 1)]; int q = r.in(0, i - 1); if (r.chance(50)) for (int j = 0; j < c; j++) m[i][j] ^= m[q][j]; }
        note("matrix=" + vvstr(m)); record();
        auto pv = pivots(m); int rk = std::count(pv.begin(), pv.end(), true);
        auto res = bp.reduceBoundaryMatrix(m);
        check(res.second.first == rk, "reduceBoundaryMatrix rank " + str(res.second.first) + " expected " + str(rk));
        check(res.second.second == (n ? c - rk : 0), "reduceBoundaryMatrix nullity " + str(res.second.second));
        check(res.first.size() == m.size(), "reduceBoundaryMatrix rows");
        if (n) {
            S e; for (int i = 0; i < n; i++) if (pv[i]) e.insert(i);
            check(pp.getRankNull(m, r.in(0, 9)) == e, "getRankNull pivots");
        }
    } else if (kind == 3) {  // incidence matrix of two chains
        M nc, pc; int a = r.in(0, 6), b = r.in(0, 6), s = r.in(1, 3);
        auto simp = [&](int sz) { S x; while ((int)x.size() < sz) x.insert(r.in(0, 5)); return V(x.begin(), x.end()); };
        for (int i = 0; i < a; i++) nc.push_back(simp(s)); for (int i = 0; i < b; i++) pc.push_back(simp(r.chance(85) ? s + 1 : r.in(0, 3)));
        note("nChain=" + vvstr(nc) + " pChain=" + vvstr(pc)); record();
        M m(a, V(b)); for (int i = 0; i < a; i++) for (int j = 0; j < b; j++) m[i][j] = face(S(nc[i].begin(), nc[i].end()), S(pc[j].begin(), pc[j].end()));
        auto pv = pivots(m); int rk = std::count(pv.begin(), pv.end(), true);
        auto res = bp.boundaryMatrix(nc, pc);
        check(res.second.first == rk && res.second.second == b - rk, "boundaryMatrix rank " + str(res.second.first) + " nullity " + str(res.second.second) + " expected " + str(rk) + "," + str(b - rk));
        check(res.first.size() == nc.size(), "boundaryMatrix rows");
    } else {  // pivots of all levels
        std::vector<std::vector<std::pair<S, double>>> e; int L = r.in(0, 4), n = r.in(3, 6);
        std::vector<std::vector<double>> D(n, std::vector<double>(n)); for (auto& x : D) for (auto& y : x) y = r.unit();
        double eps = 0.3 + 0.7 * r.unit();
        for (int l = 1; l <= L; l++) {
            std::vector<std::pair<S, double>> lev;
            for (int b = 0; b < (1 << n); b++) if (__builtin_popcount(b) == l) { S s; bool ok = true; for (int i = 0; i < n; i++) if (b >> i & 1) { for (unsigned x : s) if (D[x][i] > eps) ok = false; s.insert(i); } if (ok) lev.push_back({s, 0.0}); }
            for (size_t i = lev.size(); i > 1; i--) std::swap(lev[i - 1], lev[r.in(0, i - 1)]);
            if (lev.empty()) break;
            e.push_back(lev);
        }
        std::string d = "levels="; for (auto& l : e) { d += "{"; for (auto& x : l) d += vstr(x.first) + " "; d += "}"; } note(d); record();
        S x; unsigned off = e.empty() ? 0 : e[0].size();
        for (size_t l = 1; l < e.size(); l++) {
            M m(e[l].size(), V(e[l - 1].size()));
            for (size_t i = 0; i < e[l].size(); i++) for (size_t j = 0; j < e[l - 1].size(); j++) m[i][j] = face(e[l - 1][j].first, e[l][i].first);
            auto pv = pivots(m); for (size_t i = 0; i < pv.size(); i++) if (pv[i]) x.insert(off + i);
            off += e[l].size();
        }
        check(pp.createBoundaryMatrix(e) == x, "createBoundaryMatrix pivots");
    }
}
