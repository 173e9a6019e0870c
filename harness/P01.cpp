#include "common.hpp"
#define private public
#define protected public
#include "utils.hpp"
using namespace H;
typedef std::vector<unsigned> V;
typedef std::set<unsigned> S;
static S toS(const V& v) { return S(v.begin(), v.end()); }
template <class F> static V comb(const S& a, const S& b, F f) { S u = a; u.insert(b.begin(), b.end()); V r; for (unsigned x : u) if (f(a.count(x) > 0, b.count(x) > 0)) r.push_back(x); return r; }
void run_case(Rng& r, uint64_t k) {
    int m = r.chance(10) ? 3000000 : r.in(2, 14);
    S a, b;
    int na = r.in(0, 8), nb = r.in(0, 8);
    for (int i = 0; i < na; i++) a.insert(r.chance(3) ? 4294967295u - r.in(0, 2) : r.in(0, m));
    if (r.chance(15)) b = a; else for (int i = 0; i < nb; i++) b.insert(r.chance(3) ? 4294967295u - r.in(0, 2) : r.in(0, m));
    if (r.chance(20)) { b = a; if (b.size()) b.erase(b.begin()); b.insert(r.in(0, m)); }
    bool sorted = r.chance(50);
    V va(a.begin(), a.end()), vb(b.begin(), b.end());
    if (!sorted) { std::shuffle(va.begin(), va.end(), r.g); std::shuffle(vb.begin(), vb.end(), r.g); if (r.chance(10)) vb = va, b = a; }
    note("a=" + vstr(va) + " b=" + vstr(vb) + " sorted=" + str(sorted));
    record();
    utils u;
    V I = comb(a, b, [](bool p, bool q) { return p && q; }), U = comb(a, b, [](bool p, bool q) { return p || q; }), X = comb(a, b, [](bool p, bool q) { return p != q; });
    check(u.setIntersect(va, vb, sorted) == I, "setIntersect(vector)");
    { S r2 = u.setIntersect(a, b, sorted); check(r2 == toS(I), "setIntersect(set)"); }
    check(u.setUnion(va, vb, sorted) == U, "setUnion");
    check(u.symmetricDiff(va, vb, sorted) == X, "symmetricDiff(vector)");
    check(u.symmetricDiff(a, b, sorted) == X, "symmetricDiff(set)");
    { S a2 = a, b2 = b; check(u.setXOR(a2, b2) == toS(X), "setXOR"); check(a2 == a && b2 == b, "setXOR modified its arguments"); }
    { auto p = u.intersect(va, vb, sorted); if (X.size() == 2) check(p.first == X && p.second == U, "intersect"); else check(p.first.empty() && p.second.empty(), "intersect of non-adjacent sets"); }
    // faces
    V el(a.begin(), a.end());
    int n = el.size();
    int dim = r.in(-1, n + 1);
    std::set<S> want, want1;
    for (int mask = 0; mask < (1 << n); mask++) { S t; for (int i = 0; i < n; i++) if (mask >> i & 1) t.insert(el[i]); if ((int)t.size() == dim) want.insert(t); if ((int)t.size() == n - 1) want1.insert(t); }
    auto f1 = u.getSubsets(a, dim);
    check(f1.size() == want.size() && std::set<S>(f1.begin(), f1.end()) == want, "getSubsets(set,dim=" + str(dim) + ")");
    auto f2 = u.getSubsets(a);
    check(f2.size() == want1.size() && std::set<S>(f2.begin(), f2.end()) == want1, "getSubsets(set)");
    auto f3 = u.getSubsets(va);
    std::set<V> want3; for (int i = 0; i < n; i++) { V t = va; t.erase(t.begin() + i); want3.insert(t); }
    check(va.size() == a.size() ? (f3.size() == want3.size() && std::set<V>(f3.begin(), f3.end()) == want3) : true, "getSubsets(vector)");
}
