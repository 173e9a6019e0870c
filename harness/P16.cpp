#include <bits/stdc++.h>
#include "mpi.h"
#define private public
#define main lhf_main
#include "LHFmain/main.cpp"
#undef main
#define dist h_dist
#include "common.hpp"
#undef dist
#include "distMatrixPipe.hpp"
#include "neighGraphPipe.hpp"
#include "ripsPipe.hpp"
#include "upscalePipe.hpp"
#include "boundaryPipe.hpp"
#include "persistencePairs.hpp"
#include "optPersistencePairs.hpp"
#include "slidingWindow.hpp"
#include "fastPersistence.hpp"
#include "naiveWindow.hpp"
#include "kMeansPlusPlus.hpp"
#include "streamingKmeans.hpp"
#include "denStream.hpp"
#include "simplexTree.hpp"
#include "simplexArrayList.hpp"
#include "indSimplexTree.hpp"
typedef std::map<std::string, std::string> Cfg;
static std::string stageClass(const std::string& n, const std::string& c) {
    if (n == "distMatrix") return "distMatrixPipe";
    if (n == "neighGraph") return "neighGraphPipe";
    if (n == "rips") return "ripsPipe";
    if (n == "upscale") return "upscalePipe";
    if (n == "boundary") return "boundaryPipe";
    if (n == "persistence") return c == "simplexArrayList" || c == "simplexTree" ? "persistencePairs" : c == "indSimplexTree" ? "optPersistencePairs" : "";
    if (n == "slidingwindow" || n == "sliding") return "slidingWindow";
    if (n == "fastPersistence" || n == "fast") return "fastPersistence";
    if (n == "naivewindow" || n == "naive") return "naiveWindow";
    return "";
}
static std::string className(basePipe* p) {
    if (!p) return "";
    const std::type_info& t = typeid(*p);
    #define K(x) if (t == typeid(x)) return #x;
    K(distMatrixPipe) K(neighGraphPipe) K(ripsPipe) K(upscalePipe) K(boundaryPipe) K(persistencePairs) K(optPersistencePairs) K(slidingWindow) K(fastPersistence) K(naiveWindow)
    return "another class";
}
static std::string className(preprocessor* p) {
    if (!p) return "";
    const std::type_info& t = typeid(*p);
    K(preprocessor) K(kMeansPlusPlus) K(streamingKmeans) K(denStream)
    return "another class";
}
static std::string className(simplexBase* p) {
    if (!p) return "";
    const std::type_info& t = typeid(*p);
    K(simplexTree) K(simplexArrayList) K(indSimplexTree)
    return "another class";
}
static std::string preClass(const std::string& n) {
    if (n == "none") return "preprocessor";
    if (n == "kmeansplusplus" || n == "kmeans++" || n == "kmeans") return "kMeansPlusPlus";
    if (n == "streamingKmeans" || n == "streamingkmeans" || n == "streamKM") return "streamingKmeans";
    if (n == "denStream" || n == "denstream" || n == "DenStream") return "denStream";
    return "";
}
static bool stageOk(const std::string& c, const Cfg& m) {
    if (c == "distMatrixPipe") return m.count("epsilon");
    if (c == "ripsPipe" || c == "upscalePipe") return true;
    bool b = m.count("epsilon") && m.count("dimensions");
    if (c == "persistencePairs" || c == "optPersistencePairs" || c == "fastPersistence") return b && m.count("twist");
    return b;
}
static bool preOk(const std::string& c, const Cfg& m) {
    if (c == "preprocessor") return true;
    if (c == "denStream") return m.count("epsilon") && m.count("lambda");
    return m.count("clusters") && m.count("iterations");
}
static bool same(const pipePacket& a, const pipePacket& b, bool stats = true) {
    if (a.bettiTable.size() != b.bettiTable.size()) return false;
    return a.originalData == b.originalData && a.originalLabels == b.originalLabels && a.fullData == b.fullData && a.boundaries == b.boundaries && a.weights == b.weights && a.bettiOutput == b.bettiOutput && (!stats || a.stats == b.stats) && (a.complex == b.complex || a.complex && b.complex && a.complex->distMatrix == b.complex->distMatrix && a.complex->weightedGraph == b.complex->weightedGraph);
}
static std::string show(const Cfg& m) { std::string s = "{"; for (auto& p : m) s += p.first + "=" + p.second + " "; return s + "}"; }
static std::string mutateName(H::Rng& r, std::string s) {
    int k = r.in(0, 5);
    if (k == 0) s += "x"; else if (k == 1 && s.size()) s.pop_back(); else if (k == 2) s = ""; else if (k == 3 && s.size()) s[0] ^= 0x20;
    return s;
}
static const std::vector<std::string> names{"distMatrix", "neighGraph", "rips", "upscale", "boundary", "persistence", "slidingwindow", "sliding", "fastPersistence", "fast", "naivewindow", "naive"};
static const std::vector<std::string> pres{"none", "kmeansplusplus", "kmeans++", "kmeans", "streamingKmeans", "streamingkmeans", "streamKM", "denStream", "denstream", "DenStream"};
static const std::vector<std::string> cplx{"simplexTree", "simplexArrayList", "indSimplexTree"};
static Cfg config(H::Rng& r, bool full) {
    Cfg m;
    auto add = [&](const char* k, const std::string& v, int miss) { if (full || !r.chance(miss)) m[k] = v; };
    add("epsilon", H::str(r.in(0, 12) * 0.25), 20); add("dimensions", H::str(r.in(0, 2)), 20); add("twist", r.chance(50) ? "true" : "false", 20);
    add("clusters", H::str(r.in(1, 3)), 20); add("iterations", H::str(r.in(1, 3)), 20); add("lambda", "0.25", 20); add("fn", "x", 60); add("collapse", "false", 60); add("inputFile", "none.csv", 60);
    if (r.chance(70)) m["complexType"] = cplx[r.in(0, 2)];
    m["outputFile"] = "/dev/null"; m["debug"] = "0";
    return m;
}
static void factories(H::Rng& r) {
    std::string n = names[r.in(0, names.size() - 1)], c = cplx[r.in(0, 2)];
    if (r.chance(40)) n = mutateName(r, n);
    if (r.chance(25)) c = mutateName(r, c);
    Cfg m = config(r, r.chance(30));
    H::note("stage name=" + n + " complex=" + c + " settings=" + show(m)); H::record();
    basePipe b;
    basePipe* p = b.newPipe(n, c);
    std::string e = stageClass(n, c);
    H::check(className(p) == e, "stage '" + n + "' produced '" + className(p) + "' instead of '" + e + "'");
    if (p) {
        H::check(!p->configured, "a new " + e + " already counts as configured");
        pipePacket pk("simplexArrayList", 1.0, 1);
        pk.originalData = H::points(r, r.in(1, 4), 2); pk.originalLabels = {1, 2}; pk.bettiOutput = "x"; pk.weights = {1.0}; pk.stats = "s\n";
        bool ok = p->configPipe(m);
        H::check(ok == stageOk(e, m), e + " configured with " + show(m) + ": " + H::str(ok));
        H::check(p->configured == ok, e + " configured flag is " + H::str(p->configured) + " after configuration returned " + H::str(ok));
        if (!ok) { pipePacket o = p->runPipeWrapper(pk); H::check(same(o, pk), "unconfigured " + e + " changed the data"); }
        if (ok) {
            int d = 0; double ep = 0; bool hd = false, he = false;
            #define D(x) if (auto* q = dynamic_cast<x*>(p)) { d = q->dim; hd = true; }
            #define E(x, f) if (auto* q = dynamic_cast<x*>(p)) { ep = q->f; he = true; }
            D(neighGraphPipe) D(boundaryPipe) D(persistencePairs) D(optPersistencePairs) D(fastPersistence) D(naiveWindow) D(slidingWindow) if (m.count("dimensions")) D(ripsPipe)
            E(distMatrixPipe, maxEpsilon) E(neighGraphPipe, epsilon)
            if (hd) H::check(H::str(d) == m["dimensions"], e + " uses dimension " + H::str(d));
            if (he) H::check(H::near(ep, atof(m["epsilon"].c_str())), e + " uses threshold " + H::str(ep));
        }
    }
    n = pres[r.in(0, pres.size() - 1)];
    if (r.chance(40)) n = mutateName(r, n);
    H::note("preprocessor name=" + n); H::record();
    preprocessor pb;
    preprocessor* q = pb.newPreprocessor(n);
    e = preClass(n);
    H::check(className(q) == e, "preprocessor '" + n + "' produced '" + className(q) + "' instead of '" + e + "'");
    if (q) {
        H::check(!q->configured, "a new " + e + " already counts as configured");
        pipePacket pk("simplexArrayList", 1.0, 1);
        pk.originalData = H::points(r, 3, 2); pk.originalLabels = {1, 2}; pk.bettiOutput = "x"; pk.weights = {1.0};
        bool ok = q->configPreprocessor(m);
        H::check(ok == preOk(e, m), e + " configured with " + show(m) + ": " + H::str(ok));
        if (!ok || e == "preprocessor") { pipePacket o = q->runPreprocessorWrapper(pk); H::check(same(o, pk), "unconfigured " + e + " changed the data"); }
    }
    c = cplx[r.in(0, 2)];
    if (r.chance(40)) c = mutateName(r, c);
    H::note("complex name=" + c); H::record();
    simplexBase sb; sb.maxEpsilon = 7; sb.maxDimension = 5;
    simplexBase* s = sb.newSimplex(c, m);
    e = std::find(cplx.begin(), cplx.end(), c) != cplx.end() ? c : "";
    H::check(className(s) == e, "complex '" + c + "' produced '" + className(s) + "' instead of '" + e + "'");
    if (s && m.count("dimensions")) {
        H::check(H::str(s->maxDimension) == m["dimensions"], e + " has maximum dimension " + H::str(s->maxDimension));
        if (m.count("epsilon")) H::check(H::near(s->maxEpsilon, atof(m["epsilon"].c_str())), e + " has threshold " + H::str(s->maxEpsilon));
    }
}
static void pipelines(H::Rng& r) {
    Cfg m = config(r, r.chance(60));
    m["complexType"] = "simplexArrayList"; m.erase("outputFile");
    std::vector<std::string> seq;
    int k = r.in(0, 4);
    for (int i = 0; i < k; i++) { int z = r.in(0, 4); seq.push_back(z < 2 ? "distMatrix" : z == 2 ? "" : z == 3 ? "upscale" : "nosuchstage"); }
    if (r.chance(70)) {
        seq.push_back("distMatrix"); if (r.chance(30)) seq.push_back("nosuchstage");
        seq.push_back("neighGraph"); if (r.chance(30)) seq.push_back("distMatrix");
        if (m.count("epsilon") && m.count("dimensions")) {
            if (r.chance(80)) seq.push_back("rips");
            if (r.chance(30)) seq.push_back("rips");
            if (r.chance(60)) seq.push_back(r.chance(50) ? "fast" : "fastPersistence");
        }
    }
    if (seq.empty()) seq.push_back("distMatrix");
    std::string ps; for (size_t i = 0; i < seq.size(); i++) ps += (i ? "." : "") + seq[i];
    bool has = !r.chance(8);
    if (has) m["pipeline"] = ps;
    H::Pts pts = H::points(r, r.in(1, 5), 2);
    bool pre = r.chance(20);
    if (pre) m["preprocessor"] = r.chance(50) ? "none" : mutateName(r, "nothing");
    H::note("pipeline=" + ps + (has ? "" : " (not given)") + " settings=" + show(m) + " points=" + H::vvstr(pts)); H::record();
    pipePacket a(m, "simplexArrayList"), b(m, "simplexArrayList");
    a.originalData = a.fullData = b.originalData = b.fullData = pts;
    if (pre) processDataWrapper(m, &a); else runPipeline(m, &a);
    std::string types;
    if (has) for (auto& n : seq) {   // one stage after the other
        basePipe x; basePipe* p = x.newPipe(n, "simplexArrayList");
        if (p && p->configPipe(m)) { b = p->runPipe(b); types += p->pipeType + " "; }
    }
    std::string got; std::istringstream is(a.stats); std::string l;
    while (std::getline(is, l)) got += l.substr(0, l.find(',')) + " ";
    H::check(got == types, "stages run: " + got + "expected: " + types);
    H::check(same(a, b, false), "result differs from running the stages one after the other");
    for (size_t i = 0; i < a.bettiTable.size(); i++) { auto &x = a.bettiTable[i], &y = b.bettiTable[i]; H::check(x.bettiDim == y.bettiDim && x.birth == y.birth && x.death == y.death, "interval " + H::str(i) + " differs"); }
    delete static_cast<simplexArrayList*>(a.complex); delete static_cast<simplexArrayList*>(b.complex);
}
void run_case(H::Rng& r, uint64_t k) { if (k % 2) factories(r); else pipelines(r); }
