// C12: moments of mixtures in long double
#include "track.hpp"
using namespace hx;
using LD = long double;
template<int S, int MAX> static void moments(GM<S, MAX>& m) {
    Eigen::Matrix<LD, S, 1> mu; mu.setZero(); Eigen::Matrix<LD, S, S> C, D; C.setZero(); D.setZero();
    Eigen::Matrix<double, S, 1> y; for (int i = 0; i < S; ++i) { y[i] = normal() * 20; }
    for (auto& g : m.c) { mu += static_cast<LD>(g.w) * g.x.template cast<LD>(); }
    for (auto& g : m.c) {
        auto d = (g.x.template cast<LD>() - mu).eval(); C += static_cast<LD>(g.w) * (g.P.template cast<LD>() + d * d.transpose());
        auto f = (g.x - y).template cast<LD>().eval(); D += static_cast<LD>(g.w) * (g.P.template cast<LD>() + f * f.transpose());
    }
    double sx = 1, sp = 1; for (auto& g : m.c) { sx = std::max(sx, g.x.cwiseAbs().maxCoeff()); sp = std::max(sp, g.P.cwiseAbs().maxCoeff()); }
    double W = 1; for (auto& g : m.c) { W += std::abs(g.w); }
    sx = std::max(sx, static_cast<double>(mu.cwiseAbs().maxCoeff()));
    double tx = 1e-12 * sx * W, tp = 1e-12 * W * (sp + sx * sx);
    auto M = mu.template cast<double>().eval(); auto CC = C.template cast<double>().eval();
    mnear(m.mean(), M, tx, "mean"); mnear(m.cov(), CC, tp, "covariance"); mnear(m.cov(y), D.template cast<double>().eval(), tp * 4, "covariance about a point");
    auto c = m.cov(); mnear(c, c.transpose().eval(), tp, "covariance symmetric");
    mnear(m.pos(), M.template head<2>().eval(), tx, "position"); mnear(m.vel(), M.template tail<2>().eval(), tx, "velocity");
    mnear(m.poscov(), CC.template topLeftCorner<2, 2>().eval(), tp, "position covariance"); mnear(m.velcov(), CC.template bottomRightCorner<2, 2>().eval(), tp, "velocity covariance");
}
template<int S> static void run() {
    static Params p; GM<S> m(&p); int n = pick(std::vector<int>{0, 1, 2, 3, 7, 30, 200, 350});
    double off = pick(std::vector<double>{0, 0, 100});
    double s = 0; bool norm = chance(.7);
    for (int i = 0; i < n; ++i) {
        Gaussian_<S> g; for (int k = 0; k < S; ++k) { g.x[k] = off + normal() * 10; } g.P = spd<S>(.01, 50); g.w = chance(.1) ? 0 : uni(); s += g.w; m.c.push_back(g);
    }
    if (norm && s > 0) { for (auto& g : m.c) { g.w /= s; } }
    note(show(m));
    moments(m);
    interesting = n > 1;
}
static void four(long) { run<4>(); }
static void six(long) { run<6>(); }
// the list of targets reports these moments
static void listed(long) {
    cf::LL o = random_origin(); Params p; Tracker t(p);
    for (int i = ri(1, 4); i > 0; --i) { t.targettree.new_target(uni(.1, 1), mixture(&t.params, o, random_comps(ri(1, 6), 30, .1, 40))); }
    auto l = t.get_targets(); require(l.size() == t.targettree.targets.size(), "size of the list");
    for (size_t i = 0; i < l.size(); ++i) {
        auto x = t.targettree.targets[i]; note(show(*x)); moments(x->pdf);
        mnear(l[i].x, x->pdf.mean(), 0, "listed mean"); mnear(l[i].P, x->pdf.cov(), 0, "listed covariance");
    }
    interesting = true;
}
int main(int argc, char** argv) { return hx::main(argc, argv, {{"four", 500, four, 20}, {"six", 300, six, 20}, {"listed", 200, listed, 20}}); }
