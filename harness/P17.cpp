#include "common.hpp"
#include "readInput.hpp"
using namespace H;
static std::string num(Rng& r, double& v) {
    static const char* fmts[] = {"%.3f", "%g", "%e", "%.0f", "%f", "%E"};
    double x = r.chance(20) ? r.in(-9, 9) : (r.unit() - 0.5) * (r.chance(20) ? 1e6 : 20);
    char b[400]; snprintf(b, sizeof b, fmts[r.in(0, 5)], x); std::string s = b;
    if (r.chance(10) && x >= 0) s = "+" + s;
    v = strtod(s.c_str(), 0); return s;
}
static std::string sp(Rng& r, const char* cs) { std::string s; int n = r.chance(70) ? 0 : r.in(1, 3), m = (int)strlen(cs); for (int i = 0; i < n; i++) s += cs[r.in(0, m - 1)]; return s; }
static std::string show(const std::string& s) { std::string o; for (char c : s) { if (c == '\n') o += "\\n"; else if (c == '\r') o += "\\r"; else if (c == '\t') o += "\\t"; else o += c; } return o; }
static void put(const std::string& t) { std::ofstream o("in.txt", std::ios::binary); o << t; }
// one line of a comma separated file and its row
static std::string line(Rng& r, Pt& row, const char* ws, int maxn) {
    std::string s; row.clear();
    int n = r.chance(20) ? 0 : r.chance(25) ? 1 : r.in(1, maxn);
    if (n == 1 && r.chance(40)) { row.push_back(r.in(0, 9)); return str(row[0]); }   // a single character
    for (int i = 0; i < n; i++) { double v; if (i) s += ","; s += sp(r, ws); s += num(r, v); s += sp(r, ws); row.push_back(v); }
    if (n && r.chance(20)) s += "," + sp(r, ws);
    if (!n) s = sp(r, ws);
    return s;
}
static void csv(Rng& r) {
    std::string t; Pts want; int n = r.in(0, 7); bool crlf = r.chance(15);
    for (int i = 0; i < n; i++) { Pt row; t += line(r, row, " \t\v\f\r", 6); if (!row.empty()) want.push_back(row); if (i + 1 < n || r.chance(60)) t += crlf ? "\r\n" : "\n"; }
    note("readCSV '" + show(t) + "'"); record(); put(t);
    readInput in; Pts got = in.readCSV("in.txt");
    check(got == want, "rows " + vvstr(got) + " expected " + vvstr(want));
    if (r.chance(30)) { got = in.readCSV("in.txt"); check(got == want, "reading the file a second time gives other rows"); }
}
static void mat(Rng& r) {
    int rows = r.in(0, 4), dims = r.in(0, 4); std::string t = sp(r, " ") + str(rows) + sp(r, " ") + "\n" + str(dims) + sp(r, " ");
    int lines = rows * dims, have = r.chance(70) ? lines : r.in(0, lines + 2);
    Pts want(rows);
    for (int i = 0; i < have; i++) {
        t += "\n"; double v;
        if (r.chance(15)) { t += sp(r, " "); continue; }
        t += sp(r, " ") + num(r, v) + sp(r, " ");
        if (i < lines) want[i / dims].push_back(v);
    }
    if (r.chance(60)) t += "\n";
    note("readMAT '" + show(t) + "'"); record(); put(t);
    readInput in; Pts got = in.readMAT("in.txt");
    check(got == want, "rows " + vvstr(got) + " expected " + vvstr(want));
}
static void stream(Rng& r) {
    std::string t; Pts want; int n = r.in(0, 7); bool open = true;
    for (int i = 0; i < n; i++) {
        Pt row; t += line(r, row, " \t", r.chance(10) ? 60 : 6);
        if (row.empty()) open = false;
        if (open) want.push_back(row);
        if (i + 1 < n || r.chance(60)) t += "\n";
    }
    note("streamRead '" + show(t) + "'"); record(); put(t);
    readInput in; check(in.streamInit("in.txt"), "the file cannot be opened");
    size_t k = 0; Pt row;
    while (in.streamRead(row)) { check(k < want.size() && row == want[k], "row " + str(k) + " read as " + vstr(row)); k++; row.clear(); check(k < 1000, "the stream does not end"); }
    check(k == want.size(), str(k) + " rows read, expected " + str(want.size()));
}
// the reader does not close its stream; close what a case left open
struct Fds {
    std::set<int> before; Fds() { for (int f = 3; f < 64; f++) if (fcntl(f, F_GETFD) >= 0) before.insert(f); }
    ~Fds() { for (int f = 3; f < 64; f++) if (!before.count(f) && fcntl(f, F_GETFD) >= 0) close(f); }
};
void run_case(Rng& r, uint64_t k) {
    Fds fds;
    switch (r.in(0, 9)) {
        case 0: {
            int w = r.in(0, 3);
            note("unreadable or empty file " + str(w)); record();
            readInput in; unlink("nothing"); put("");
            if (w == 0) check(in.readCSV("nothing").empty() && in.readMAT("nothing").empty(), "an unreadable file gave rows");
            if (w == 1) check(in.readCSV("in.txt").empty() && in.readMAT("in.txt").empty(), "an empty file gave rows");
            Pt row;
            if (w == 2) { check(!in.streamInit("nothing"), "streamInit accepts a missing file"); check(!in.streamRead(row) && row.empty(), "streamRead without a file gave a row"); }
            if (w == 3) { check(!in.streamRead(row) && row.empty(), "streamRead before streamInit gave a row"); check(in.streamInit("in.txt"), "streamInit fails"); check(!in.streamRead(row) && row.empty(), "an empty file gave a row"); }
            break; }
        case 1: case 2: case 3: mat(r); break;
        case 4: case 5: stream(r); break;
        default: csv(r);
    }
}
