// C13: pruning and merging
#include "track.hpp"
using namespace hx;
static Params P0;
// a component with a unique tag (its mean and covariance)
static G4 tagged(int tag, double w) { G4 g; g.x << tag, -tag, tag * .5, 7; g.P = Mat4::Identity() * (tag + 1); g.P(0, 1) = g.P(1, 0) = .125 * tag; g.w = w; return g; }
template<typename G> static int tag_of(const G& g, const std::vector<G4>& in, const char* what) {
    int t = static_cast<int>(std::lround(g.x[0]));
    require(t >= 0 && t < static_cast<int>(in.size()) && g.x == in[t].x && g.P == in[t].P, what, ": a component is none of the inputs: ", show(g));
    return t;
}
static double some_weight(int mode) {
    switch (mode) { case 0: return uni(); case 1: return pick(std::vector<double>{0, .01, .02, .5, 1, .25}); case 2: return logu(1e-12, 1); case 3: return 1e-10 * uni(); default: return ri(1, 4) * .25; }
}
// kept components against inputs with weight in[t].w, expected raw weights (descending, after cut) in want
template<typename M> static void compare(const M& m, const std::vector<G4>& in, const std::vector<double>& want, const char* what, bool empty_if_small = true) {
    double s = 0; for (double w : want) { s += w; }
    if (std::abs(s - 1e-8) < 1e-14) { return; }
    if (s <= 1e-8) { require(m.c.empty(), what, ": total weight ", s, " but ", m.c.size(), " components"); return; }
    require(m.c.size() == want.size(), what, ": ", m.c.size(), " components instead of ", want.size());
    std::set<int> seen; double t = 0;
    for (size_t i = 0; i < want.size(); ++i) {
        int k = tag_of(m.c[i], in, what);
        require(seen.insert(k).second, what, ": component ", k, " twice");
        near(m.c[i].w, in[k].w / s, 1e-12, what, ": weight of component ", i, " is not proportional to its input weight");
        near(m.c[i].w, want[i] / s, 1e-12, what, ": a heavier component was dropped or the order is wrong at ", i);
        if (i) { require(m.c[i].w <= m.c[i - 1].w, what, ": order"); }
        t += m.c[i].w;
    }
    near(t, 1, 1e-9, what, ": sum of weights");
    near(m.eta, s, 1e-12 + 1e-9 * s, what, ": normaliser");
    if (want.size() > 1) { interesting = true; }
}
template<int MAX> static void prune_with() {
    int n = pick(std::vector<int>{0, 1, 2, 3, 8, 11, 12, 30, 60}), mode = ri(0, 4);
    if (MAX > 100 && chance(.3)) { n = ri(195, 260); }
    static Params p; p.cw_lim = pick(std::vector<double>{.01, .25, 0, .5, 1e-6});
    std::vector<G4> in; for (int i = 0; i < n; ++i) { in.push_back(tagged(i, some_weight(mode))); }
    input << "cw_lim " << p.cw_lim << " weights"; for (auto& g : in) { input << " " << g.w; } input << "\n";
    std::vector<double> want; for (auto& g : in) { if (g.w >= p.cw_lim) { want.push_back(g.w); } }
    std::sort(want.rbegin(), want.rend()); if (want.size() > MAX) { want.resize(MAX); }
    GM<4, MAX> a(&p), b(&p); int k = ri(0, n);
    GM<4, MAX> all(&p); for (auto& g : in) { all.c.push_back(g); }
    for (int i = 0; i < n; ++i) { (i < k ? a : b).c.push_back(in[i]); }
    all.eta = a.eta = 5; all.prune();
    if (want.empty()) { require(all.c.empty(), "prune: everything is below the limit but ", all.c.size(), " components stay"); }
    else { compare(all, in, want, "prune"); }
    GM<4, MAX> c = a + b;
    require(a.c.size() == static_cast<size_t>(k), "operator+ changed its argument");
    for (int i = 0; i < k; ++i) { require(a.c[i].w == in[i].w && a.c[i].x == in[i].x, "operator+ changed its argument"); }
    if (!want.empty()) { compare(c, in, want, "operator+"); } else { require(c.c.empty(), "operator+"); }
    a += b;
    if (!want.empty()) { compare(a, in, want, "operator+="); } else { require(a.c.empty(), "operator+="); }
}
static void prune10(long) { prune_with<10>(); }
static void prune200(long) { prune_with<200>(); }
template<int MAX> static void join_with() {
    static Params p; p.cw_lim = pick(std::vector<double>{.01, .25, 0, .3, 1e-6});
    int M = ri(1, 5), mode = ri(0, 4); std::vector<GM<4, MAX>> pdfs; std::vector<G4> in; Eigen::Matrix<double, 1, Eigen::Dynamic> w(1, M);
    std::vector<std::pair<double, int>> raw;
    for (int j = 0; j < M; ++j) {
        w(0, j) = chance(.2) ? 0 : chance(.2) ? .5 : uni(); if (mode == 3) { w(0, j) *= 1e-3; }
        GM<4, MAX> m(&p); int n = pick(std::vector<int>{0, 1, 1, 2, 4, 9, 15}); if (MAX > 100 && chance(.2)) { n = ri(60, 110); }
        for (int i = 0; i < n; ++i) { int t = in.size(); double v = some_weight(mode); m.c.push_back(tagged(t, v)); in.push_back(tagged(t, w(0, j) * v)); raw.push_back({w(0, j) * v, t}); }
        pdfs.push_back(m);
    }
    input << "cw_lim " << p.cw_lim << " w " << str(w); for (auto& m : pdfs) { input << " |"; for (auto& g : m.c) { input << " " << g.w; } } input << "\n";
    std::sort(raw.begin(), raw.end(), [](auto& a, auto& b) { return a.first > b.first; });
    std::vector<double> want; double run = 0;
    for (auto& r : raw) {
        if (want.size() >= MAX) { break; }
        run += r.first; double share = r.first / run;
        if (std::abs(share - p.cw_lim) < 1e-13 && share != p.cw_lim) { return; }
        if (share < p.cw_lim) { break; }
        want.push_back(r.first);
    }
    GM<4, MAX> out(&p); out.c.push_back(tagged(0, 1)); out.c.push_back(tagged(1, 1)); out.origin << 1, 2;
    GM<4, MAX>::join(out, w, pdfs);
    compare(out, in, want, "join");
    require(out.origin == cf::LL(1, 2) && out.params == &p, "join changed the frame");
}
static void join10(long) { join_with<10>(); }
static void join200(long) { join_with<200>(); }
int main(int argc, char** argv) { return hx::main(argc, argv, {{"prune10", 3000, prune10, 20}, {"prune200", 500, prune200, 20}, {"join10", 4000, join10, 20}, {"join200", 500, join200, 20}}); }
