// C10: covariances stay symmetric positive semidefinite
#include "track.hpp"
using namespace hx;
template<typename M> static double mineig(const M& P) {
    return Eigen::SelfAdjointEigenSolver<Eigen::MatrixXd>(Eigen::MatrixXd(.5 * (P + P.transpose()))).eigenvalues().minCoeff();
}
template<typename M, typename... A> static void psd(const M& P, double tol, const A&... a) {
    double s = P.cwiseAbs().maxCoeff();
    for (int i = 0; i < P.rows(); ++i) { for (int j = 0; j < P.cols(); ++j) { require(std::isfinite(P(i, j)), a..., " not finite: ", str(P)); } }
    require((P - P.transpose()).cwiseAbs().maxCoeff() <= tol * s, a..., " not symmetric: ", str(P));
    require(mineig(P) >= -tol * s, a..., " not positive semidefinite: ", str(P), " smallest eigenvalue ", mineig(P));
}
static void single(long) {
    cf::LL o = random_origin();
    Sensor sn; sn.fov = region(o, 1); sn.pD_ = .9;
    G4 g; g.x << normal() * 5, normal() * 5, normal(), normal(); g.w = 1;
    g.P = spd<4>(pick(std::vector<double>{1e-4, .01, 1}), pick(std::vector<double>{2, 100, 1e4}));
    if (chance(.15)) { g.P.row(2).setZero(); g.P.col(2).setZero(); }
    Report z(Vec2(normal() * 5, normal() * 5), spd<2>(.01, 50), .1);
    note(show(g)); note(showz(z));
    Mat4 P0 = g.P; double s0 = P0.cwiseAbs().maxCoeff();
    G4 h = g; h.correct(z, sn, o);
    psd(h.P, 1e-10 * (1 + s0 / h.P.cwiseAbs().maxCoeff()), "corrected covariance");
    require(mineig((P0 - h.P).eval()) >= -1e-9 * s0, "correction increased the covariance: ", str(P0), " -> ", str(h.P));
    // prediction: what is added to F P F' is positive semidefinite
    Params p; p.tscale = pick(std::vector<double>{1, 2, .5});
    PDF m(&p); m.c.push_back(g); m.origin = o;
    Target t(.5, PDF(m), &p, 0);
    double dt = pick(std::vector<double>{0, 1e-3, .5, 1, 10, 100}), q = pick(std::vector<double>{0, 1e-3, 1, 30});
    CV<Target> cv(.99, q); note("dt ", dt, " q ", q);
    cv(&t, dt, 0);
    double d = dt / p.tscale; Mat4 F; F << 1, 0, d, 0, 0, 1, 0, d, 0, 0, 1, 0, 0, 0, 0, 1;
    Mat4 A = t.pdf.c[0].P - F * P0 * F.transpose(); double sa = t.pdf.c[0].P.cwiseAbs().maxCoeff();
    psd(t.pdf.c[0].P, 1e-10, "predicted covariance");
    require((A - A.transpose()).cwiseAbs().maxCoeff() <= 1e-11 * sa && mineig(A) >= -1e-11 * sa, "process noise is not positive semidefinite: ", str(A));
    // newborn
    sn.pv = spd<2>(.01, 40);
    PDF b = sn.pdf_init1(&p, report(o, 3, 4, z.P, .1), 0);
    psd(b.c[0].P, 0, "newborn covariance");
    interesting = true;
}
static void history(long) {
    cf::LL o = random_origin();
    Params p; p.r_lim = 1e-3; p.cov_lim = 1e9; p.w_lim = .01; p.nhyp_max = 20; p.tscale = pick(std::vector<double>{1, 10});
    Tracker t(p); lmb::gen.seed(rng());
    double time = 0, spread = pick(std::vector<double>{3, 20});
    for (int i = ri(0, 2); i >= 0; --i) { t.targettree.new_target(uni(.3, 1), mixture(&t.params, o, random_comps(ri(1, 4), spread, .01, 60))); note(show(*t.targettree.targets.back())); }
    for (int s = 0; s < 14; ++s) {
        if (chance(.5)) {
            double dt = pick(std::vector<double>{0, .1, 1, 30}), q = logu(1e-3, 5); note("predict ", dt, " q ", q);
            if (chance(.8)) { CV<Target> m(.99, q); t.predict(m, time + dt, time); } else { NM<Target> m(.99, spd<4>(1e-3, 1)); t.predict(m, time + dt, time); }
            time += dt;
        } else {
            Sensor sn; sn.fov = region(o, .2); sn.lambdaB = uni(0, 1); sn.pD_ = uni(.3, 1); sn.kappa_ = logu(1e-4, 1); sn.pv = spd<2>(.01, 5);
            Sensor::Scan scan; for (int k = ri(0, 3); k > 0; --k) { scan.push_back(report(o, uni(-spread, spread), uni(-spread, spread), spd<2>(.05, 10), sn.kappa_)); note(showz(scan.back())); }
            t.correct(sn, scan, time); note("correct");
        }
        for (auto x : t.targettree.targets) {
            for (auto& g : x->pdf.c) { psd(g.P, 1e-9, "step ", s, ": component covariance of target ", x->id); }
            psd(x->pdf.cov(), 1e-9, "step ", s, ": mixture covariance of target ", x->id);
            psd(x->pdf.poscov(), 1e-9, "step ", s, ": position covariance of target ", x->id);
            interesting = true;
        }
        if (t.targettree.targets.size() > 12) { break; }
    }
}
int main(int argc, char** argv) { return hx::main(argc, argv, {{"single", 3000, single, 20}, {"history", 80, history, 60}}); }
