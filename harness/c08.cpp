// C08: births
#include "track.hpp"
using namespace hx;
static void births(long) {
    cf::LL o = random_origin();
    Params p; p.cov_lim = 1e300; p.r_lim = pick(std::vector<double>{.05, .2, .5, .001, .25}); p.rB_max = pick(std::vector<double>{.8, .3, 1, .1}); p.nstd = 2;
    Tracker t(p);
    int M = ri(0, 4), N = pick(std::vector<int>{0, 1, 1, 2, 4, 4, 8, 9});
    double spread = pick(std::vector<double>{3, 30, 500});
    for (int i = 0; i < M; ++i) { t.targettree.new_target(uni(.3, 1), mixture(&t.params, o, shifted(random_comps(1, 2, 1, 30), uni(-spread, spread), uni(-spread, spread)))); }
    Sensor sn; sn.fov = region(o, .3);
    sn.lambdaB = chance(.4) ? pick(std::vector<double>{.05, .2, .5, .25, 1, 2, 4}) : uni(0, 5);
    sn.pD_ = pick(std::vector<double>{.9, .5, .99, 1}); sn.kappa_ = logu(1e-6, 1); sn.pv = spd<2>(.1, 20);
    Sensor::Scan scan;
    for (int j = 0; j < N; ++j) {
        Vec2 c(uni(-spread, spread), uni(-spread, spread));
        if (M && chance(.5)) { c = cf::ll2ne(pick(t.targettree.targets)->pdf.pos(), o) + Vec2(normal(), normal()) * .3; }
        scan.push_back(report(o, c[0], c[1], spd<2>(.5, 20), sn.kappa_));
    }
    auto before = scan;
    note(show(p)); note(shows(sn)); for (auto x : t.targettree.targets) { note(show(*x)); } for (auto& z : scan) { note(showz(z)); }
    std::set<unsigned> old; for (auto x : t.targettree.targets) { old.insert(x->id); }
    lmb::gen.seed(3);
    double when = uni(0, 100);
    t.correct(sn, scan, when);
    double sum = 0; for (auto& z : scan) { sum += z.rB; }
    std::vector<Target*> born; for (auto x : t.targettree.targets) { if (!old.count(x->id)) { born.push_back(x); } }
    std::set<Target*> used; double total = 0; int due = 0;
    for (size_t j = 0; j < scan.size(); ++j) {
        auto& z = scan[j]; double share = sum > 0 ? z.rB * sn.lambdaB / sum : 0;
        bool edge = std::abs(share - p.r_lim) < 1e-12 && share != p.r_lim;
        edge = edge || (std::abs(sum - p.r_lim) < 1e-12 && sum != p.r_lim);
        bool want = sum >= p.r_lim && share >= p.r_lim;
        mnear(z.P, before[j].P, 0, "covariance of report ", j, " changed");
        mnear(z.x, before[j].x, 1e-9, "position of report ", j);
        std::vector<Target*> mine;
        for (auto x : born) { if (!used.count(x) && x->pdf.c.size() == 1 && (x->pdf.c[0].x.head<2>() - before[j].x).norm() < 1e-9) { mine.push_back(x); } }
        if (edge) { for (auto x : mine) { used.insert(x); total += x->r; } continue; }
        require(mine.size() == (want ? 1u : 0u), "report ", j, " with share ", share, " (rB ", static_cast<double>(z.rB), " of ", sum, ", limit ", p.r_lim, ") spawned ", mine.size(), " targets");
        if (!want) { continue; }
        ++due; auto x = mine[0]; used.insert(x);
        near(x->r, std::min(share, p.rB_max), 1e-12, "existence of the newborn of report ", j); total += x->r;
        require(x->cid == z.cid, "newborn has cluster ", x->cid, ", its report ", z.cid);
        auto& g = x->pdf.c[0];
        near(g.w, 1, 1e-12, "weight of the newborn");
        near(g.x[2], 0, 0, "velocity of the newborn"); near(g.x[3], 0, 0, "velocity of the newborn");
        mnear(g.P.topLeftCorner<2, 2>(), before[j].P, 1e-12, "position covariance of the newborn");
        mnear(g.P.bottomRightCorner<2, 2>(), sn.pv, 1e-12, "velocity covariance of the newborn");
        mnear(g.P.topRightCorner<2, 2>(), Mat2::Zero(), 0, "cross covariance of the newborn");
        mnear(g.P.bottomLeftCorner<2, 2>(), Mat2::Zero(), 0, "cross covariance of the newborn");
        auto q = t.targettree.query(cf::LL(g.x.head<2>())); require(std::count(q.begin(), q.end(), x) == 1, "newborn is not indexed at its position");
        require(x->pdf.params == &t.params && x->params == &t.params, "parameters of the newborn");
    }
    require(used.size() == born.size(), born.size(), " newborns, ", used.size(), " explained by reports");
    require(total <= sn.lambdaB + 1e-9, "expected births ", total, " exceed lambdaB ", sn.lambdaB);
    interesting = due > 0;
}
int main(int argc, char** argv) { return hx::main(argc, argv, {{"births", 1500, births, 60}}); }
