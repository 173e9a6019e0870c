#include "persist.hpp"
typedef std::vector<char> Col;
void run_case(Rng& r, uint64_t k) {
    Case c = makeCase(r, k);
    pipePacket out = runStage(c);
    if (c.list.empty()) return;
    const List& l = c.list;
    // homology ranks are compared through plain column reduction of every boundary matrix, no clearing, no twist
    std::vector<std::string> exp; std::multiset<std::tuple<unsigned, double, double>> te;
    for (int d = 1; d < c.dim && d + 1 < (int)l.size(); d++) {
        std::vector<Col> red; std::vector<int> low;
        for (auto& s : l[d + 1]) {
            Col x(l[d].size(), 0);
            for (auto v : s.first) { auto f = s.first; f.erase(v); for (size_t i = 0; i < l[d].size(); i++) if (l[d][i].first == f) x[i] ^= 1; }
            for (;;) {
                int p = -1; for (int i = (int)x.size() - 1; i >= 0; i--) if (x[i]) { p = i; break; }
                if (p < 0) break;
                int q = -1; for (size_t i = 0; i < red.size(); i++) if (low[i] == p) q = i;
                if (q < 0) {
                    red.push_back(x); low.push_back(p);
                    if (l[d][p].second != s.second) { exp.push_back(std::to_string(d) + "," + std::to_string(l[d][p].second) + "," + std::to_string(s.second)); te.insert(std::make_tuple((unsigned)d, l[d][p].second, s.second)); }
                    break;
                }
                for (size_t i = 0; i < x.size(); i++) x[i] ^= red[q][i];
            }
        }
    }
    auto got = lines(out.bettiOutput, false);
    std::sort(got.begin(), got.end()); std::sort(exp.begin(), exp.end());
    check(got == exp, "intervals " + vstr(got) + " expected " + vstr(exp) + " for " + lstr(l));
    std::multiset<std::tuple<unsigned, double, double>> tg; size_t i0 = c.hadEntry;
    for (size_t i = i0; i < out.bettiTable.size(); i++) if (out.bettiTable[i].bettiDim > 0) tg.insert(std::make_tuple((unsigned)out.bettiTable[i].bettiDim, out.bettiTable[i].birth, out.bettiTable[i].death));
    std::set<unsigned> vs; for (auto& s : l[0]) vs.insert(*s.first.begin());
    for (size_t i = i0; i < out.bettiTable.size(); i++) for (unsigned x : out.bettiTable[i].boundaryPoints) check(vs.count(x), "a row of dimension " + str(out.bettiTable[i].bettiDim) + " names the point " + str(x) + ", which is no point of " + lstr(l));
    check(tg == te, "the interval table differs from the intervals for " + lstr(l));
    if (GivenComplex* g = dynamic_cast<GivenComplex*>(c.cx)) delete g; else if (simplexTree* t = dynamic_cast<simplexTree*>(c.cx)) { (void)t; } else delete (simplexArrayList*)c.cx;
}
