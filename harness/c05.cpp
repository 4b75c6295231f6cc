// C05: the assignment solver against enumeration and against its own dual certificate
#include "rlapjv.h"
#include "hx.hpp"
using namespace hx;
using RowM = Eigen::Matrix<double, Eigen::Dynamic, Eigen::Dynamic, Eigen::RowMajor>;
using ColM = Eigen::MatrixXd;
static const double INF = std::numeric_limits<double>::infinity();

static RowM gen(int r, int c, int kind) {
    RowM C(r, c);
    double pinf = pick(std::vector<double>{0, 0, .1, .3, .5, .7});
    for (int i = 0; i < r; ++i) { for (int j = 0; j < c; ++j) {
        double x;
        switch (kind) {
            case 0: x = uni(0, 10); break;
            case 1: x = ri(0, 3); break;                    // many ties
            case 2: x = uni(-10, 10); break;
            case 3: x = ri(-2, 2); break;
            case 4: x = (i + 1.0) * (j + 1.0); break;       // hard for greedy solvers
            case 5: x = chance(.5) ? logu(1e-6, 1e6) : -logu(1e-6, 1e6); break;
            case 6: x = -(i + 1.0) * (j + 1.0) + .1 * ri(0, 5); break;
            case 8: x = (i + j) % 3 + uni(0, 1e-8); break;    // nearly tied
            case 9: x = ri(0, 2) + logu(1e-12, 1e-6); break;
            default: x = std::abs(i - j) * 3 + ri(0, 2);
        }
        C(i, j) = chance(pinf) ? INF : x;
    } }
    // structures of the tracker: own miss column per row
    if (c > r && chance(.2)) { for (int i = 0; i < r; ++i) { for (int j = 0; j < r; ++j) { C(i, c - r + j) = i == j ? uni(0, 5) : INF; } } }
    if (chance(.05)) { C.row(ri(0, r - 1)).setConstant(INF); }
    if (chance(.1) && r > 1) {   // rows competing for too few columns
        int k = ri(1, r); int cols = std::max(1, k - 1);
        for (int i = 0; i < k; ++i) { for (int j = cols; j < c; ++j) { C(i, j) = INF; } }
    }
    return C;
}
// exact optimum: successive shortest paths (Bellman-Ford) over the finite entries
static bool optimum(const RowM& C, double& best) {
    int r = C.rows(), c = C.cols();
    std::vector<int> rs(r, -1), cs(c, -1);
    for (int s = 0; s < r; ++s) {
        std::vector<double> d(c, INF); std::vector<int> pr(c, -1);
        std::vector<double> dr(r, INF); dr[s] = 0;
        for (int it = 0; it <= r + 1; ++it) {
            bool ch = false;
            for (int i = 0; i < r; ++i) { if (dr[i] < INF) { for (int j = 0; j < c; ++j) { if (C(i, j) < INF && rs[i] != j && dr[i] + C(i, j) < d[j] - 1e-12 * (1 + std::abs(d[j] < INF ? d[j] : 0))) { d[j] = dr[i] + C(i, j); pr[j] = i; ch = true; } } } }
            for (int j = 0; j < c; ++j) { if (cs[j] >= 0 && d[j] < INF) { int i = cs[j]; double v = d[j] - C(i, j); if (v < dr[i] - 1e-12 * (1 + std::abs(dr[i] < INF ? dr[i] : 0))) { dr[i] = v; ch = true; } } }
            if (!ch) { break; }
        }
        int end = -1;
        for (int j = 0; j < c; ++j) { if (cs[j] < 0 && d[j] < INF && (end < 0 || d[j] < d[end])) { end = j; } }
        if (end < 0) { return false; }
        for (int j = end, guard = 0; j >= 0 && guard < 1000; ++guard) { int i = pr[j], nj = rs[i]; rs[i] = j; cs[j] = i; if (i == s) { break; } j = nj; }
    }
    best = 0; for (int i = 0; i < r; ++i) { best += C(i, rs[i]); }
    return true;
}
static bool brute(const RowM& C, double& best) {
    int r = C.rows(), c = C.cols(); best = INF;
    std::vector<bool> used(c);
    std::function<void(int, double)> rec = [&](int i, double s) {
        if (i == r) { best = std::min(best, s); return; }
        for (int j = 0; j < c; ++j) { if (!used[j] && C(i, j) < INF) { used[j] = true; rec(i + 1, s + C(i, j)); used[j] = false; } }
    };
    rec(0, 0);
    return best < INF;
}
template<typename M>
static void solve(const M& C, bool feasible, double best, const char* what) {
    int r = C.rows(), c = C.cols();
    lap::Dual u(r), v(c); lap::Assignment x(r);
    bool ok = lap::lap(C, x, u, v);
    require(ok == feasible, what, ": says ", ok ? "solved" : "infeasible", " but a finite assignment ", feasible ? "exists" : "does not exist");
    if (!ok) { return; }
    std::set<int> cols; double s = 0, mag = 1;
    for (int i = 0; i < r; ++i) {
        require(x[i] >= 0 && x[i] < c, what, ": row ", i, " gets column ", x[i]);
        require(cols.insert(x[i]).second, what, ": column ", x[i], " used twice");
        s += C(i, x[i]); mag = std::max(mag, std::abs(C(i, x[i])));
        require(C(i, x[i]) < INF, what, ": infinite entry chosen in row ", i);
    }
    for (int i = 0; i < r; ++i) { for (int j = 0; j < c; ++j) { if (C(i, j) < INF) { mag = std::max(mag, std::abs(C(i, j))); } } }
    double tol = 1e-9 * mag * (r + 1);
    require(s <= best + tol && s >= best - tol, what, ": total ", s, " instead of ", best, " assignment ", str(x.cast<double>().transpose()));
    near(lap::cost(C, x), s, tol, what, ": cost()");
    if (u.array().isFinite().all() && v.array().isFinite().all()) {
        for (int i = 0; i < r; ++i) {
            near(u[i] + v[x[i]], C(i, x[i]), tol, what, ": dual of the chosen entry of row ", i);
            for (int j = 0; j < c; ++j) { require(C(i, j) >= u[i] + v[j] - tol, what, ": entry (", i, ",", j, ")=", C(i, j), " below its duals ", u[i], " + ", v[j]); }
        }
        interesting = interesting || r > 1;
    }
    if (c > 1) { auto y = lap::lap(C); double t = 0; for (int i = 0; i < r; ++i) { t += C(i, y[i]); } near(t, best, tol, what, ": short form"); }
}
static void run(int r, int c, bool bf) {
    RowM C = gen(r, c, ri(0, 9));
    note(str(C));
    double best; bool f = bf ? brute(C, best) : optimum(C, best);
    if (bf) { double b2; bool f2 = optimum(C, b2); if (f != f2 || (f && !close(best, b2, 1e-9, 1e-9))) { fail("harness oracles disagree"); } }
    solve(C, f, best, "row major");
    ColM D = C; solve(D, f, best, "column major");
}
static void small(long) { int r = ri(1, 5); run(r, r + ri(0, 6 - r), true); }
static void square(long) { int r = ri(2, 6); run(r, r, true); }
static void medium(long) { int r = ri(2, 14); run(r, r + ri(0, 10), false); }
static void large(long) { int r = ri(15, 40); run(r, r + pick(std::vector<int>{0, 0, 1, 10, 40}), false); }
int main(int argc, char** argv) {
    return hx::main(argc, argv, {{"small", 20000, small, 10}, {"square", 8000, square, 10}, {"medium", 3000, medium, 10}, {"large", 100, large, 30}});
}
