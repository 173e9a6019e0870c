#include "persist.hpp"
void run_case(Rng& r, uint64_t k) {
    Case c = makeCase(r, k);
    pipePacket out = runStage(c);
    if (c.list.empty()) return;
    // merge tree by label propagation
    std::map<unsigned, unsigned> lab; for (auto& v : c.list[0]) lab[*v.first.begin()] = *v.first.begin();
    std::vector<std::string> exp; size_t comps = c.list[0].size();
    if (c.list.size() > 1) for (auto& e : c.list[1]) {
        unsigned a = lab[*e.first.begin()], b = lab[*e.first.rbegin()];
        if (a == b) continue;
        for (auto& x : lab) if (x.second == b) x.second = a;
        exp.push_back("0,0," + std::to_string(e.second)); comps--;
    }
    for (size_t i = 0; i < comps; i++) exp.push_back("0,0," + std::to_string(c.eps));
    auto got = lines(out.bettiOutput, true);
    check(got == exp, "zero-dimensional intervals " + vstr(got) + " expected " + vstr(exp));
    std::vector<std::string> tab;
    for (size_t i = c.hadEntry; i < out.bettiTable.size(); i++) if (out.bettiTable[i].bettiDim == 0) { check(out.bettiTable[i].birth == 0, "a zero-dimensional row of the table is born at " + str(out.bettiTable[i].birth)); tab.push_back("0,0," + std::to_string(out.bettiTable[i].death)); }
    check(tab == exp, "zero-dimensional rows of the table " + vstr(tab) + " expected " + vstr(exp));
    check(out.bettiOutput.empty() || exp.empty() || out.bettiOutput.compare(0, 2, "0,") == 0, "zero-dimensional intervals do not come first");
    if (GivenComplex* g = dynamic_cast<GivenComplex*>(c.cx)) delete g; else if (simplexTree* t = dynamic_cast<simplexTree*>(c.cx)) { (void)t; } else delete (simplexArrayList*)c.cx;
}
