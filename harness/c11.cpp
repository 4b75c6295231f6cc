// C11: prediction
#include "track.hpp"
using namespace hx;
static void cvspec(double d, double q, Mat4& F, Mat4& Q) {
    F << 1, 0, d, 0, 0, 1, 0, d, 0, 0, 1, 0, 0, 0, 0, 1;
    double a = q * d * d / 2, b = q * d * d * d / 3, c = q * d;
    Q << b, 0, a, 0, 0, b, 0, a, a, 0, c, 0, 0, a, 0, c;
}
static PDF local(Params* p, const cf::LL& o, int n) {
    PDF m(p); m.origin = o; m.eta = 3;
    double s = 0;
    for (int i = 0; i < n; ++i) {
        G4 g; g.x << normal() * 40, normal() * 40, normal() * 8, normal() * 8; g.P = spd<4>(.01, 60); g.w = uni(.05, 1); s += g.w;
        if (chance(.3)) { g.P(0, 2) += .001; }     // transformation law holds for every matrix
        m.c.push_back(g);
    }
    for (auto& g : m.c) { g.w /= s; }
    return m;
}
static void check(const PDF& a, const PDF& b, const Mat4& F, const Mat4& Q, const char* what) {
    require(a.c.size() == b.c.size(), what, ": number of components");
    for (size_t i = 0; i < a.c.size(); ++i) {
        Vec4 x = F * b.c[i].x; Mat4 P = F * b.c[i].P * F.transpose() + Q;
        mnear(a.c[i].x, x, 1e-11 * (1 + x.cwiseAbs().maxCoeff()), what, ": mean of component ", i);
        mnear(a.c[i].P, P, 1e-11 * (1 + P.cwiseAbs().maxCoeff()), what, ": covariance of component ", i);
        near(a.c[i].w, b.c[i].w, 1e-12, what, ": weight of component ", i);
    }
}
static void direct(long) {
    cf::LL o = random_origin(); Params p; p.tscale = pick(std::vector<double>{1, 1, 2, .25, 60});
    PDF m = local(&p, o, ri(1, 6)); double r0 = uni(0, 1);
    double t0 = uni(-100, 100), d1 = pick(std::vector<double>{0, 1e-4, .5, 1, 13, 400}), d2 = pick(std::vector<double>{0, .3, 2, 50});
    double pS = pick(std::vector<double>{1, .99, .5, .9}), q = pick(std::vector<double>{0, 1, .01, 20});
    note(show(m), " r ", r0, " dt ", d1, " then ", d2, " pS ", pS, " q ", q, " tscale ", p.tscale);
    CV<Target> cv(pS, q);
    Target a(r0, PDF(m), &p, 0), b(r0, PDF(m), &p, 0), z(r0, PDF(m), &p, 0), n(r0, PDF(m), &p, 0);
    Mat4 F, Q; cvspec(d1 / p.tscale, q, F, Q);
    a.predict(cv, t0 + d1, t0);
    double s1 = (t0 + d1) - t0;
    cvspec(s1 / p.tscale, q, F, Q);
    check(a.pdf, m, F, Q, "CV"); near(a.r, r0 * std::pow(pS, s1 / p.tscale), 1e-12, "CV: existence");
    a.predict(cv, t0 + d1 + d2, t0 + d1); b.predict(cv, t0 + d1 + d2, t0);
    for (size_t i = 0; i < m.c.size(); ++i) {
        double sp = 1 + b.pdf.c[i].P.cwiseAbs().maxCoeff();
        mnear(a.pdf.c[i].x, b.pdf.c[i].x, 1e-10 * (1 + b.pdf.c[i].x.cwiseAbs().maxCoeff()), "two steps: mean");
        mnear(a.pdf.c[i].P, b.pdf.c[i].P, 1e-9 * sp, "two steps: covariance"); near(a.pdf.c[i].w, b.pdf.c[i].w, 1e-12, "two steps: weight");
    }
    near(a.r, b.r, 1e-12, "two steps: existence");
    z.predict(cv, t0, t0);
    cvspec(0, q, F, Q); check(z.pdf, m, F, Q, "dt = 0"); near(z.r, r0, 1e-15, "dt = 0: existence");
    NM<Target> nm(pS, spd<4>(.1, 5)); n.predict(nm, t0 + d1, t0);
    check(n.pdf, m, Mat4::Identity(), nm.Q, "NM"); near(n.r, r0 * pS, 1e-12, "NM: existence");
    Vec4 ahead = cv.predict(m, d1); cvspec(d1, q, F, Q); Vec4 e = F * m.mean();
    mnear(ahead, e, 1e-10 * (1 + e.cwiseAbs().maxCoeff()), "state ahead");
    interesting = d1 > 0 && q > 0;
}
// through the tracker: in the local frame of each target
static void tracker(long) {
    cf::LL o = random_origin(); Params p; p.r_lim = -1; p.cov_lim = 1e300; p.tscale = pick(std::vector<double>{1, 3});
    Tracker t(p); int n = ri(1, 4);
    std::vector<PDF> before; std::vector<double> rs;
    for (int i = 0; i < n; ++i) { t.targettree.new_target(uni(.01, 1), mixture(&t.params, o, random_comps(ri(1, 4), 50, .1, 40))); }
    auto ts = t.targettree.targets;
    for (auto x : ts) { before.push_back(x->pdf); rs.push_back(x->r); note(show(*x)); }
    double dt = pick(std::vector<double>{0, 1, 10}), q = pick(std::vector<double>{0, 1, 5}), pS = pick(std::vector<double>{1, .9});
    note("dt ", dt, " q ", q, " pS ", pS, " tscale ", p.tscale);
    CV<Target> cv(pS, q); t.predict(cv, 100 + dt, 100);
    Mat4 F, Q; cvspec(dt / p.tscale, q, F, Q);
    require(t.targettree.targets.size() == ts.size(), "number of targets");
    for (int i = 0; i < n; ++i) {
        near(ts[i]->r, rs[i] * std::pow(pS, dt / p.tscale), 1e-12, "existence of target ", i);
        PDF e = before[i]; cf::LL org = e.pos(); e.transform_to_local(org);
        PDF g = ts[i]->pdf; g.transform_to_local(org);
        require(g.c.size() == e.c.size(), "components of target ", i);
        for (size_t k = 0; k < e.c.size(); ++k) {
            Vec4 x = F * e.c[k].x; Mat4 P = F * e.c[k].P * F.transpose() + Q;
            mnear(g.c[k].x, x, 1e-5 * (1 + x.head<2>().norm()), "target ", i, " mean of component ", k);
            mnear(g.c[k].P, P, 1e-10 * (1 + P.cwiseAbs().maxCoeff()), "target ", i, " covariance of component ", k);
            near(g.c[k].w, e.c[k].w, 1e-12, "target ", i, " weight of component ", k);
        }
        require(ts[i]->pdf.origin == org, "origin of the local frame");
    }
    interesting = dt > 0;
}
int main(int argc, char** argv) { return hx::main(argc, argv, {{"direct", 3000, direct, 20}, {"tracker", 400, tracker, 30}}); }
