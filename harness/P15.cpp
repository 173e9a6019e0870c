#include "common.hpp"
#include "argParser.hpp"
using namespace H;
typedef std::map<std::string, std::string> M;
extern M argMap, defaultMap;
// the documented options: long name, short name, default
static const char* T[][3] = {{"mpi","a","0"},{"mode","m","standard"},{"dimensions","d","1"},{"iterations","r","250"},{"pipeline","p",""},{"inputFile","i","None"},{"outputFile","o","output.csv"},{"epsilon","e","5"},
    {"lambda","l",".25"},{"debug","x","0"},{"complexType","c","simplexTree"},{"clusters","k","20"},{"preprocessor","pre",""},{"upscale","u","false"},{"twist","t","false"},{"collapse","z","false"}};
static const int NT = sizeof(T) / sizeof(T[0]);
static std::string show(const M& m) { std::string s = "{"; for (auto& p : m) s += p.first + "=" + p.second + "; "; return s + "}"; }
static M resolve(const M& g) {
    M r = g;
    for (auto& t : T) {
        if (g.count(t[1])) { r[t[0]] = g.at(t[1]); r.erase(t[1]); }
        else if (!g.count(t[0])) r[t[0]] = t[2];
    }
    return r;
}
static std::string get(const M& m, const std::string& k) { auto i = m.find(k); return i == m.end() ? "" : i->second; }
static M expectMode(const M& m) {
    M r = m; std::string mode = get(m, "mode"), pre = get(m, "preprocessor");
    const std::string fast = "distMatrix.neighGraph.rips.fastPersistence";
    if (get(m, "mpi") == "1") { r["pipeline"] = fast; if (pre == "") r["preprocessor"] = "kmeans++"; r["upscale"] = "true"; return r; }
    if (get(m, "pipeline") != "") return r;
    auto tree = [&] { r["upscale"] = "false"; r["complexType"] = "simplexTree"; };
    if (mode == "standard") r["pipeline"] = fast;
    if (mode == "reduced") { r["pipeline"] = fast; if (pre == "") r["preprocessor"] = "kmeans++"; tree(); }
    if (mode == "upscaleBound") { r["pipeline"] = "distMatrix.neighGraph.rips.persistence.boundary.upscale"; if (pre == "") r["preprocessor"] = "kmeans++"; r["upscale"] = "true"; }
    if (mode == "stream") { r["pipeline"] = fast; if (pre == "") r["preprocessor"] = "streamingkmeans"; }
    if (mode == "sw" || mode == "slidingwindow") { r["pipeline"] = "slidingwindow"; r["preprocessor"] = ""; tree(); }
    if (mode == "naive" || mode == "naivewindow") { r["pipeline"] = "naivewindow"; r["preprocessor"] = ""; tree(); }
    if (mode == "fast") { r["pipeline"] = fast; tree(); }
    return r;
}
static void quiet(const std::function<void()>& f) { std::ostringstream o; auto* b = std::cout.rdbuf(o.rdbuf()); try { f(); } catch (...) { std::cout.rdbuf(b); throw; } std::cout.rdbuf(b); }
void run_case(Rng& r, uint64_t k) {
    static const char* vals[] = {"", "0", "1", "2", "standard", "reduced", "upscaleBound", "stream", "sw", "slidingwindow", "fast", "naive", "naivewindow", "nomode", "distMatrix.neighGraph", "kmeans++", "true", "false", "simplexTree", "-x", "--mode", "5", "m"};
    const int NV = sizeof(vals) / sizeof(vals[0]);
    std::vector<std::string> w{"LHF"};
    int n = r.in(0, 9);
    for (int i = 0; i < n; i++) {
        int t = r.in(0, NT - 1); bool modeish = r.chance(40); if (modeish) t = r.in(0, 4) == 0 ? 0 : r.chance(50) ? 1 : r.chance(50) ? 4 : 12;
        std::string o = r.chance(45) ? std::string("-") + T[t][1] : std::string("--") + T[t][0];
        if (r.chance(8)) o = std::string("--") + T[t][1]; if (r.chance(6)) o = std::string("-") + T[t][0];
        if (r.chance(5)) o = vals[r.in(0, NV - 1)]; if (r.chance(4)) o = "--unknown"; if (r.chance(2)) o = "-"; if (r.chance(2)) o = "--"; if (r.chance(2)) o = "---m";
        w.push_back(o);
        if (i + 1 < n || !r.chance(15)) w.push_back(modeish && t == 1 ? vals[r.in(4, 13)] : modeish && t == 0 ? vals[r.in(0, 2)] : modeish && t == 4 ? vals[r.chance(60) ? 0 : 14] : vals[r.in(0, NV - 1)]);
    }
    note("words=" + vstr(w)); record();
    std::vector<char*> a; for (auto& s : w) a.push_back(const_cast<char*>(s.c_str())); a.push_back(nullptr);
    M given;
    for (size_t i = 1; i + 1 < w.size(); i += 2) { if (w[i].substr(0, 2) == "--") given[w[i].substr(2)] = w[i + 1]; else if (w[i].substr(0, 1) == "-") given[w[i].substr(1)] = w[i + 1]; }
    argParser p; M got, want = resolve(given), am = argMap, dm = defaultMap;
    quiet([&] { got = p.parse((int)w.size(), a.data()); });
    check(got == want, "parse gives " + show(got) + " expected " + show(want));
    quiet([&] { p.printArguments(got); });
    M m = got, e = expectMode(got);
    p.setPipeline(m);
    for (auto& x : e) check(get(m, x.first) == x.second, "setPipeline of " + show(got) + " gives " + show(m) + " expected " + show(e));
    for (auto& x : m) check(get(e, x.first) == x.second, "setPipeline of " + show(got) + " gives " + show(m) + " expected " + show(e));
    M g2 = given; for (auto& t : T) if (r.chance(10)) g2.erase(t[1]);
    note("map=" + show(g2)); record();
    M w2 = resolve(g2), r2; quiet([&] { r2 = p.defaultArguments(g2); });
    check(g2 == w2 && r2 == w2, "defaultArguments gives " + show(g2) + " expected " + show(w2));
    check(argMap == am && defaultMap == dm, "the option tables changed");
}
