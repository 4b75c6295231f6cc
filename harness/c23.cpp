// C23: detection probability
#include "track.hpp"
using namespace hx;
static double fraction(const Vec2& m, const Mat2& P, const std::vector<Vec2>& poly, int K, unsigned sd) {
    std::mt19937 g(sd); std::normal_distribution<> nd; Eigen::LLT<Mat2> L(P); double ar = 0; int in = 0;
    for (int i = 0; i < 4; ++i) { ar += poly[i].x() * poly[(i + 1) % 4].y() - poly[i].y() * poly[(i + 1) % 4].x(); }
    for (int k = 0; k < K; ++k) { Vec2 s = m + L.matrixL() * Vec2(nd(g), nd(g)); bool ok = true; for (int i = 0; i < 4; ++i) { Vec2 e = poly[(i + 1) % 4] - poly[i], d = s - poly[i]; ok = ok && (e.x() * d.y() - e.y() * d.x()) * ar > 0; } in += ok; }
    return static_cast<double>(in) / K;
}
static BBox view(const cf::LL& o, double size) {
    BBox b; double t = uni(0, 7); Vec2 c(normal() * size * .5, normal() * size * .5); Vec2 u(std::cos(t), std::sin(t)), v(-u[1], u[0]); double h1 = size * uni(.3, 1), h2 = size * uni(.3, 1);
    int k = 0; for (auto q : {std::make_pair(1, 1), std::make_pair(-1, 1), std::make_pair(-1, -1), std::make_pair(1, -1)}) { Vec2 p = c + q.first * h1 * u + q.second * h2 * v; b.corners.col(k++) = at(o, p[0], p[1]); }
    return b;
}
static std::vector<Vec2> local(const BBox& b, const cf::LL& o) { std::vector<Vec2> p; for (int k = 0; k < 4; ++k) { p.push_back(cf::ll2ne(Vec2(b.corners.col(k)), o)); } return p; }
static void single(long) {
    cf::LL o = random_origin(); Sensor sn; double size = pick(std::vector<double>{20, 100}); sn.fov = view(o, size); sn.pD_ = pick(std::vector<double>{0, .3, .9, 1});
    G4 g; g.x << uni(-size, size), uni(-size, size), normal(), normal(); g.P = spd<4>(.1, pick(std::vector<double>{1, 100, 900})); g.w = uni();
    note(shows(sn)); note(show(g), " origin ", str(o));
    auto poly = local(sn.fov, o); double d = sn.pD(g, o);
    require(d >= 0 && d <= sn.pD_ + 1e-15, "detection probability ", d, " outside [0, ", sn.pD_, "]");
    const int K = 20000; double f = fraction(g.x.head<2>(), g.P.topLeftCorner<2, 2>(), poly, K, rng());
    near(d, sn.pD_ * f, sn.pD_ * (6.5 * std::sqrt((f * (1 - f) + 1e-4) / 1000.0 + f * (1 - f) / K) + 5e-3), "detection probability");
    BBox nb = sn.fov.nebbox(o); near(g.overlap(nb), f, 6.5 * std::sqrt((f * (1 - f) + 1e-4) / 1000.0 + f * (1 - f) / K) + 5e-3, "overlap with the oriented box");
    AABBox h = nb.aabbox(); std::vector<Vec2> hp{Vec2(h.min[0], h.min[1]), Vec2(h.max[0], h.min[1]), Vec2(h.max[0], h.max[1]), Vec2(h.min[0], h.max[1])}; double fh = fraction(g.x.head<2>(), g.P.topLeftCorner<2, 2>(), hp, K, rng());
    near(g.overlap(h), fh, 6.5 * std::sqrt((fh * (1 - fh) + 1e-4) / 1000.0 + fh * (1 - fh) / K) + 5e-3, "overlap with the axis-aligned box");
    interesting = f > .02 && f < .98;
}
// entirely inside and entirely outside
static void exact(long) {
    cf::LL o = random_origin(); Sensor sn; sn.fov = view(o, 500); sn.pD_ = pick(std::vector<double>{.25, .9, 1, .001}); auto poly = local(sn.fov, o); Vec2 c(0, 0); for (auto& p : poly) { c += p / 4; }
    Mat4 P = spd<4>(.1, 25); Vec2 far = c + (poly[0] - c) * uni(1.5, 4) + (poly[0] - c).normalized() * 100; bool out = chance(.5);
    G4 g; g.x << (out ? far : Vec2(c + (poly[0] - c) * uni(0, .3))), 1, 2; g.P = P; g.w = uni(); note(shows(sn)); note(show(g), " origin ", str(o));
    double d = sn.pD(g, o); if (out) { require(d == 0, "outside the view but pD = ", d); } else { near(d, sn.pD_, 1e-15, "inside the view"); }
    // mixtures
    static Params p; PDF m(&p); m.origin = o; m.eta = 9; double s = 0, e = 0; int n = ri(0, 6);
    for (int i = 0; i < n; ++i) { bool q = chance(.5); G4 k = g; k.x.head<2>() = q ? far : c; k.w = uni(); s += k.w; m.c.push_back(k); } if (chance(.7)) { for (auto& k : m.c) { k.w /= s; } }
    for (auto& k : m.c) { e += k.w * (k.x.head<2>() == c ? sn.pD_ : 0); }
    auto before = m.c; double miss = m.missed(sn); near(miss, 1 - e, 1e-12, "missed-detection factor"); for (int i = 0; i < n; ++i) { require(before[i].w == m.c[i].w && before[i].x == m.c[i].x && before[i].P == m.c[i].P, "missed() changed a component"); }
    BBox nb = sn.fov.nebbox(o); double ov = 0; for (auto& k : m.c) { ov += k.w * (k.x.head<2>() == c ? 1 : 0); } near(m.overlap(nb), ov, 1e-12, "overlap of the mixture");
    AABBox big(c[0] - 60, c[1] - 60, c[0] + 60, c[1] + 60); near(m.overlap(big), ov, 1e-12, "overlap of the mixture with an axis-aligned box");
    sn.kappa_ = logu(1e-9, 10); Report z(sn, Vec2(1, 2), spd<2>(1, 4)); require(z.kappa == sn.kappa_ && sn.kappa(z) == sn.kappa_, "kappa of a report");
    Report z2(Vec2(1, 2), spd<2>(1, 4), .125), z3(Vec2(1, 2), spd<2>(1, 4)); require(z2.kappa == .125 && z3.kappa == 1, "given kappa");
    interesting = true;
}
// the missed-detection factor with partly covered components
static void missed(long) {
    cf::LL o = random_origin(); Sensor sn; double size = 60; sn.fov = view(o, size); sn.pD_ = pick(std::vector<double>{.3, .9, 1}); static Params p; PDF m(&p); m.origin = o; double s = 0; int n = ri(1, 5);
    for (int i = 0; i < n; ++i) { G4 g; g.x << uni(-size, size), uni(-size, size), 1, 2; g.P = spd<4>(.1, 400); g.w = uni(); s += g.w; m.c.push_back(g); } for (auto& g : m.c) { g.w /= s; }
    note(shows(sn)); note(show(m), " origin ", str(o)); auto poly = local(sn.fov, o); double e = 0, var = 0; const int K = 10000;
    for (auto& g : m.c) { double f = fraction(g.x.head<2>(), g.P.topLeftCorner<2, 2>(), poly, K, rng()); e += g.w * f; var += g.w * g.w * (f * (1 - f) + 1e-4) * (1.0 / 1000 + 1.0 / K); }
    double miss = m.missed(sn); near(miss, 1 - sn.pD_ * e, sn.pD_ * (6.5 * std::sqrt(var) + 5e-3), "missed-detection factor"); require(miss >= 1 - sn.pD_ - 1e-12 && miss <= 1 + 1e-12, "missed-detection factor ", miss);
    interesting = e > .02 && e < .98;
}
int main(int argc, char** argv) { return hx::main(argc, argv, {{"single", 500, single, 20}, {"exact", 500, exact, 20}, {"missed", 250, missed, 20}}); }
