// C16: boxes of Gaussians
#include "track.hpp"
using namespace hx;
static Mat2 cov2() {
    Mat2 P;
    switch (ri(0, 6)) {
        case 0: P = spd<2>(1, 1.0000001); break;
        case 1: P << uni(0, 9), 0, 0, uni(0, 9); break;
        case 2: { double a = normal() * 3, b = normal() * 3; P << a * a, a * b, a * b, b * b; break; }   // singular
        case 3: { double a = ri(-3, 3), b = ri(-3, 3); P << a * a, a * b, a * b, b * b; break; }
        case 4: { double c = logu(1e-3, 100); P << c, 0, 0, c; break; }
        default: P = spd<2>(1e-3, 100);
    }
    return P;
}
static void boxes(long) {
    Mat2 P = cov2(); Vec2 x(chance(.2) ? 0 : uni(-1e3, 1e3), uni(-1e3, 1e3)); double nstd = pick(std::vector<double>{1, 2, 1.9, .1, 30});
    note("P ", str(P), " x ", str(x.transpose()), " nstd ", nstd);
    double s = nstd * std::sqrt(P.cwiseAbs().maxCoeff() + 1e-300), tol = 1e-7 * s + 1e-12 * (1 + x.cwiseAbs().maxCoeff());
    auto aa = [&](const AABBox& b, const Vec2& c, double n, const char* what) {
        for (int k = 0; k < 2; ++k) { double h = n * std::sqrt(P(k, k)); double t = tol * std::max(1.0, n / nstd); near(b.max[k], c[k] + h, t, what, " upper side ", k); near(b.min[k], c[k] - h, t, what, " lower side ", k); }
    };
    aa(AABBox(x, P, nstd), x, nstd, "axis-aligned box"); aa(AABBox(P, nstd), Vec2(0, 0), nstd, "axis-aligned box at zero"); aa(AABBox(P), Vec2(0, 0), 2, "axis-aligned box of two deviations");
    AABBox f; f.from_gaussian(x, P, nstd); aa(f, x, nstd, "from_gaussian");
    auto ob = [&](const BBox& b, const Vec2& c, double n, const char* what) {
        double t = tol * std::max(1.0, n / nstd) * 4, sc = n * n * P.cwiseAbs().maxCoeff();
        Vec2 c0 = b.corners.col(0), c1 = b.corners.col(1), c2 = b.corners.col(2), c3 = b.corners.col(3);
        Vec2 u = (c0 - c1) / 2, v = (c0 - c3) / 2;
        mnear((c0 + c2).eval(), (2 * c).eval(), t, what, " centre"); mnear((c1 + c3).eval(), (2 * c).eval(), t, what, " centre (other diagonal)"); mnear((c0 - c1 - c3 + c2).eval(), Vec2(0, 0), t, what, " is not a parallelogram");
        near(u.dot(v), 0, 1e-7 * sc + t * s, what, " half-axes are not orthogonal");
        // half-axes are nstd deviations along the principal axes: u u' + v v' = nstd^2 P
        mnear((u * u.transpose() + v * v.transpose()).eval(), (n * n * P).eval(), 1e-7 * sc + 4 * t * s, what, " half-axes squared");
    };
    ob(BBox(x, P, nstd), x, nstd, "oriented box"); ob(BBox(P, nstd), Vec2(0, 0), nstd, "oriented box at zero"); BBox g; g.from_gaussian(x, P, nstd); ob(g, x, nstd, "from_gaussian");
    G4 q; q.x << x, 1, 2; q.P.setIdentity(); q.P.topLeftCorner<2, 2>() = P; q.P(0, 3) = q.P(3, 0) = .01;
    aa(q.aabbox(nstd), x, nstd, "box of a component"); aa(q.aabbox(), x, 2, "box of a component, two deviations"); ob(q.bbox(nstd), x, nstd, "oriented box of a component");
    cf::LL o = random_origin(); cf::LL l = at(o, 300, -200); G4 q2 = q; q2.x.head<2>() = l; Vec2 c = cf::ll2ne(l, o);
    if (P.maxCoeff() > 0) { ob(q2.nebbox(o, nstd), c, nstd, "local oriented box"); }
    interesting = true;
}
static void mixtures(long) {
    static Params p; p.nstd = pick(std::vector<double>{1, 1.9, 3}); PDF m(&p); cf::LL o = random_origin(); int n = pick(std::vector<int>{1, 1, 2, 3, 7, 40});
    double s = 0; for (int i = 0; i < n; ++i) { G4 g; g.x << normal() * 30, normal() * 30, 1, 2; g.P = spd<4>(.01, 50); g.w = uni(.1, 1); s += g.w; m.c.push_back(g); } for (auto& g : m.c) { g.w /= s; }
    if (n > 2 && chance(.3)) { m.c[1].P = spd<4>(500, 900); }
    m.origin = o; note(show(m), " nstd ", p.nstd);
    double lo[2] = {1e300, 1e300}, hi[2] = {-1e300, -1e300};
    for (auto& g : m.c) { for (int k = 0; k < 2; ++k) { double h = p.nstd * std::sqrt(g.P(k, k)); lo[k] = std::min(lo[k], g.x[k] - h); hi[k] = std::max(hi[k], g.x[k] + h); } }
    PDF c = m; c.update_local_bbox();
    for (int k = 0; k < 2; ++k) { near(c.aabbox.min[k], lo[k], 1e-6, "lower side ", k, " of the mixture's box"); near(c.aabbox.max[k], hi[k], 1e-6, "upper side ", k, " of the mixture's box"); }
    Vec2 mu = m.pos(); Mat2 P = m.poscov(); Vec2 u = (c.bbox.corners.col(0) - c.bbox.corners.col(1)) / 2, v = (c.bbox.corners.col(0) - c.bbox.corners.col(3)) / 2;
    mnear(((c.bbox.corners.col(0) + c.bbox.corners.col(2)) / 2).eval(), mu, 1e-6, "centre of the oriented box"); mnear((u * u.transpose() + v * v.transpose()).eval(), (p.nstd * p.nstd * P).eval(), 1e-6 * (1 + P.maxCoeff()) * 10, "oriented box of the mixture");
    // in geodetic coordinates: the corners of the local boxes moved to the globe
    m.transform_to_global();
    cf::LL a = at(o, c.aabbox.min[0], c.aabbox.min[1]), b = at(o, c.aabbox.max[0], c.aabbox.max[1]);
    for (int k = 0; k < 2; ++k) { near(m.aabbox.min[k], std::min(a[k], b[k]), 1e-10, "geodetic box"); near(m.aabbox.max[k], std::max(a[k], b[k]), 1e-10, "geodetic box"); }
    for (int k = 0; k < 4; ++k) { cf::LL q = at(o, c.bbox.corners(0, k), c.bbox.corners(1, k)); mnear(m.bbox.corners.col(k).eval(), q, 1e-10, "geodetic oriented box"); }
    // a report's box: two deviations around its position
    Mat2 R = spd<2>(.1, 50); Report z = report(o, 10, -20, R, 1); AABBox zb = z.llaabbox();
    cf::LL za = at(z.pos(), -2 * std::sqrt(R(0, 0)), -2 * std::sqrt(R(1, 1))), zc = at(z.pos(), 2 * std::sqrt(R(0, 0)), 2 * std::sqrt(R(1, 1)));
    for (int k = 0; k < 2; ++k) { near(zb.min[k], za[k], 1e-11, "box of a report"); near(zb.max[k], zc[k], 1e-11, "box of a report"); }
    interesting = n > 1;
}
int main(int argc, char** argv) { return hx::main(argc, argv, {{"boxes", 60000, boxes, 20}, {"mixtures", 3000, mixtures, 20}}); }
