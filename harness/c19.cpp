// C19: OSPA and GOSPA against their definitions over all assignments
#include "track.hpp"
using namespace hx;
static void metrics(long) {
    cf::LL o = random_origin(); Params p; Tracker t(p); int M = pick(std::vector<int>{0, 1, 1, 2, 3, 4, 5}), N = pick(std::vector<int>{0, 1, 1, 2, 3, 4, 5, 6}); double spread = pick(std::vector<double>{3, 30, 300});
    for (int i = 0; i < M; ++i) { t.targettree.new_target(uni(), mixture(&t.params, o, shifted(random_comps(ri(1, 3), 3, .5, 20), uni(-spread, spread), uni(-spread, spread)))); note(show(*t.targettree.targets.back())); }
    Tracker::TargetStates truth; bool near_targets = chance(.5);
    for (int j = 0; j < N; ++j) { Vec4 x; if (near_targets && j < M) { x = t.targettree.targets[j]->pdf.mean(); cf::LL l = at(x.head<2>(), normal(), normal()); x.head<2>() = l; x[2] += normal(); } else { cf::LL l = at(o, uni(-spread, spread), uni(-spread, spread)); x << l, normal() * 3, normal() * 3; } truth.push_back(x); note("truth ", str(x.transpose())); }
    if (N > 1 && chance(.1)) { truth[1] = truth[0]; }
    double c = pick(std::vector<double>{1, 10, 50, 1000, .01}), pw = pick(std::vector<double>{1, 2, 3, 1.5, 1.0625}); note("c ", c, " p ", pw);
    for (int mode = 0; mode < 2; ++mode) {
        cf::LL org = at(o, uni(-200, 200), uni(-200, 200));
        if (mode) { if (M + N == 0) { continue; } org.setZero(); for (auto& x : truth) { org += x.head<2>(); } for (auto x : t.targettree.targets) { org += x->pdf.mean().head<2>(); } org /= M + N; }
        note("origin ", str(org));
        std::vector<Vec4> ys, xs;
        for (auto& z : truth) { Vec4 y = z; y.head<2>() = cf::ll2ne(z.head<2>().eval(), org); ys.push_back(y); }
        for (auto x : t.targettree.targets) { Vec4 m; m.setZero(); for (auto& g : x->pdf.c) { Vec4 y = g.x; y.head<2>() = cf::ll2ne(g.x.head<2>().eval(), org); m += g.w * y; } xs.push_back(m); }
        int n = std::max(M, N); std::vector<int> perm(n); std::iota(perm.begin(), perm.end(), 0); double bo = n ? 1e300 : 0, bg = bo;
        if (n) { do {
            double so = 0, sg = 0;
            for (int i = 0; i < n; ++i) { bool m = i < M && perm[i] < N; double d = m ? std::min(c, (xs[i] - ys[perm[i]]).norm()) : c; so += std::pow(d, pw); sg += m ? std::pow(d, pw) : std::pow(c, pw) / 2; }
            bo = std::min(bo, so); bg = std::min(bg, sg);
        } while (std::next_permutation(perm.begin(), perm.end())); }
        double eo = n ? std::pow(bo / n, 1 / pw) : 0, eg = std::pow(bg, 1 / pw);
        double a = mode ? t.ospa(truth, c, pw) : t.ospa(truth, org, c, pw), g = mode ? t.gospa(truth, c, pw) : t.gospa(truth, org, c, pw);
        double tol = mode ? 1e-5 * (1 + c) : 1e-9 * (1 + c) + 1e-7;
        near(a, eo, tol, mode ? "OSPA with the default origin" : "OSPA"); near(g, eg, tol * (1 + eg / c), mode ? "GOSPA with the default origin" : "GOSPA");
        require(a >= 0 && a <= c * (1 + 1e-12), "OSPA ", a, " outside [0, c]"); require(g >= 0, "GOSPA ", g);
        Tracker::TargetStates sh = truth; for (int k = static_cast<int>(sh.size()) - 1; k > 0; --k) { std::swap(sh[k], sh[ri(0, k)]); }
        near(t.ospa(sh, org, c, pw), t.ospa(truth, org, c, pw), 1e-9 * (1 + c), "OSPA depends on the order of the truths"); near(t.gospa(sh, org, c, pw), t.gospa(truth, org, c, pw), 1e-9 * (1 + c) * (1 + n), "GOSPA depends on the order of the truths");
    }
    interesting = M > 0 && N > 0;
}
static void coincide(long) {
    cf::LL o = random_origin(); Params p; Tracker t(p); Tracker::TargetStates truth;
    for (int i = ri(0, 7); i > 0; --i) { auto x = t.targettree.new_target(uni(), mixture(&t.params, o, shifted(random_comps(1, 3, .5, 20), uni(-300, 300), uni(-300, 300)))); truth.insert(truth.begin() + ri(0, truth.size()), x->pdf.mean()); }
    for (auto& z : truth) { note(str(z.transpose())); }
    double c = pick(std::vector<double>{1, 100}), pw = pick(std::vector<double>{1, 2, 1.5});
    near(t.ospa(truth, o, c, pw), 0, 1e-6, "OSPA of coinciding sets"); near(t.gospa(truth, o, c, pw), 0, 1e-6, "GOSPA of coinciding sets");
    if (!truth.empty()) { near(t.ospa(truth, c, pw), 0, 1e-6, "OSPA of coinciding sets"); near(t.gospa(truth, c, pw), 0, 1e-6, "GOSPA of coinciding sets"); }
    interesting = truth.size() > 1;
}
int main(int argc, char** argv) { return hx::main(argc, argv, {{"metrics", 3000, metrics, 20}, {"coincide", 500, coincide, 20}}); }
