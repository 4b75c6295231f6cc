// C06: hypothesis enumeration against complete enumeration
#include "murty.hpp"
#include "hx.hpp"
using namespace hx;
static const double INF = std::numeric_limits<double>::infinity();
using CM = lap::CostMatrix;

static void all(const CM& C, std::map<std::vector<int>, double>& out) {
    int r = C.rows(), c = C.cols(); std::vector<bool> used(c); std::vector<int> a(r);
    std::function<void(int, double)> rec = [&](int i, double s) {
        if (i == r) { out[a] = s; return; }
        for (int j = 0; j < c; ++j) { if (!used[j] && C(i, j) < INF) { used[j] = true; a[i] = j; rec(i + 1, s + C(i, j)); used[j] = false; } }
    };
    rec(0, 0);
}
static CM gen(int r, int c, int kind) {
    CM C(r, c);
    double pinf = pick(std::vector<double>{0, 0, .2, .5, .7});
    for (int i = 0; i < r; ++i) { for (int j = 0; j < c; ++j) {
        double x = kind == 0 ? uni(0, 10) : kind == 1 ? ri(0, 3) : kind == 2 ? uni(-10, 10) : kind == 3 ? ri(-2, 2) : kind == 4 ? (i + 1.) * (j + 1.)
            : kind == 5 ? (chance(.3) ? 30000 : uni(-3, 12)) : kind == 6 ? (i + j) % 3 + (chance(.3) ? 0 : uni(0, 1e-8)) : 0;
        C(i, j) = chance(pinf) ? INF : x;
    } }
    if (kind == 7 && c >= 2 * r) {   // the tracker's matrix: reports, own missed, own false
        C.rightCols(2 * r).setConstant(INF);
        for (int i = 0; i < r; ++i) { C(i, c - 2 * r + i) = uni(0, 4); C(i, c - r + i) = uni(0, 4); }
    }
    return C;
}
static void run(int r, int c, int kind, bool tuple) {
    CM C = gen(r, c, kind); note(str(C));
    std::map<std::vector<int>, double> want; all(C, want);
    double mag = 1; for (int i = 0; i < C.size(); ++i) { if (C.data()[i] < INF) { mag = std::max(mag, std::abs(C.data()[i])); } }
    double tol = 1e-9 * mag * r;
    lap::Murty m(C);
    std::set<std::vector<int>> seen; double last = -INF;
    lap::Assignment a; double cost = 0;
    for (size_t k = 0; k <= want.size(); ++k) {
        bool ok;
        if (tuple) { auto t = m.draw_tuple(); ok = std::get<0>(t); if (ok) { cost = std::get<1>(t); a = std::get<2>(t); } } else { ok = m.draw(a, cost); }
        if (k == want.size()) { require(!ok, "hypothesis ", k, " drawn, only ", want.size(), " exist"); break; }
        require(ok, "exhausted after ", k, " of ", want.size(), " hypotheses");
        require(a.rows() == r, "length of the assignment");
        std::vector<int> v(a.data(), a.data() + a.rows());
        auto it = want.find(v);
        require(it != want.end(), "draw ", k, " is no complete finite assignment: ", str(a.cast<double>().transpose()));
        require(seen.insert(v).second, "assignment drawn twice: ", str(a.cast<double>().transpose()));
        near(cost, it->second, tol, "cost of draw ", k);
        require(cost >= last - tol, "draw ", k, " costs ", cost, " after ", last);
        last = cost;
    }
    for (int k = 0; k < 2; ++k) { require(!m.draw(a, cost), "a hypothesis after exhaustion"); }
    interesting = want.size() > 2;
}
static void tiny(long c) { int r = ri(1, 3); run(r, r + ri(0, 3), c % 7, c % 3 == 0); }
static void mid(long c) { int r = ri(2, 4); run(r, r + ri(0, 6 - r), c % 7, false); }
static void square(long c) { run(ri(4, 5), 5, c % 7, false); }
static void tracker(long) { int r = ri(1, 4), n = ri(0, 3); run(r, n + 2 * r, 7, false); }
static void deep(long c) { int r = pick(std::vector<int>{5, 6}); run(r, 6, pick(std::vector<int>{0, 2, 4}), false); (void)c; }
// large instance: order and validity of the first draws, first one against the solver's optimum
static void large(long c) {
    int r = ri(6, 15), n = r + ri(0, 15); CM C = gen(r, n, c % 6); note(str(C));
    lap::Murty m(C); lap::Assignment a; double cost, last = -INF; std::set<std::vector<int>> seen;
    for (int k = 0; k < 120 && m.draw(a, cost); ++k) {
        std::vector<int> v(a.data(), a.data() + a.rows()); require(seen.insert(v).second, "drawn twice");
        std::set<int> cols(v.begin(), v.end()); require(cols.size() == static_cast<size_t>(r), "column used twice");
        double s = 0, mag = 1; for (int i = 0; i < r; ++i) { s += C(i, v[i]); mag = std::max(mag, std::abs(C(i, v[i]))); }
        require(s < INF, "infinite entry"); near(cost, s, 1e-8 * mag * r, "cost of draw ", k);
        require(cost >= last - 1e-8 * mag * r, "draw ", k, " costs ", cost, " after ", last); last = cost;
        interesting = k > 3;
    }
}
int main(int argc, char** argv) {
    return hx::main(argc, argv, {{"tiny", 8000, tiny, 10}, {"mid", 1500, mid, 20}, {"square", 300, square, 20}, {"tracker", 1500, tracker, 20}, {"deep", 20, deep, 60}, {"large", 200, large, 30}});
}
