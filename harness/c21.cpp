// C21: intensity map
#include "track.hpp"
using namespace hx;
static PDF odd_mixture(Params* p, const cf::LL& o, double n, double e, double sp) {
    auto cs = shifted(random_comps(pick(std::vector<int>{1, 2, 3, 7, 33, 150}), sp, 1, 20, chance(.4)), n, e);
    if (chance(.3)) { cs[0].w = 5; double s = 0; for (auto& c : cs) { s += c.w; } for (auto& c : cs) { c.w /= s; } }
    return mixture(p, o, cs);
}
static void map_case(long) {
    cf::LL o = random_origin(); Params p; Tracker t(p); double half = pick(std::vector<double>{60, 400, 2000}), spread = half * pick(std::vector<double>{.3, 1, 2});
    cf::LL u = at(o, -half, -half * uni(.4, 1)), v = at(o, half * uni(.4, 1), half); AABBox fov(u[0], u[1], v[0], v[1]);
    for (int i = pick(std::vector<int>{0, 1, 1, 2, 5}); i > 0; --i) { t.targettree.new_target(uni(), odd_mixture(&t.params, o, uni(-spread, spread), uni(-spread, spread), half * .1)); }
    Eigen::Array2i size(ri(1, 30), ri(1, 30)); note("region ", fov.min[0], " ", fov.min[1], " ", fov.max[0], " ", fov.max[1], " grid ", size[0], "x", size[1]); for (auto x : t.targettree.targets) { note(show(*x).substr(0, 1500)); }
    unsigned sd = rng() & 0xffff; lmb::gen.seed(sd); lmb::ndist.reset();
    auto res = t.pos_phd(fov, size);
    require(res.rows() == size[0] && res.cols() == size[1], "size of the map");
    cf::LL org((fov.min[0] + fov.max[0]) / 2, (fov.min[1] + fov.max[1]) / 2); Vec2 a = cf::ll2ne(Vec2(fov.min[0], fov.min[1]), org), b = cf::ll2ne(Vec2(fov.max[0], fov.max[1]), org);
    Vec2 lo = a.cwiseMin(b), hi = a.cwiseMax(b);
    auto ts = t.targettree.query(fov); double up = 0; for (auto x : ts) { up += x->r; }
    for (int i = 0; i < size[0]; ++i) { for (int j = 0; j < size[1]; ++j) { require(res(i, j) >= 0, "negative cell"); } }
    double total = res.sum(); require(total <= up + 1e-9, "the map sums to ", total, ", above the total existence ", up, " of the targets in the region");
    if (ts.empty()) { require(total == 0, "targets outside the region contribute"); return; }
    // each target: probability of each cell by an independent sample of its mixture
    double worst = 0; Eigen::MatrixXd pr = Eigen::MatrixXd::Zero(size[0], size[1]); const int K = 4000; std::mt19937 g(sd + 1); std::normal_distribution<> nd; double inside = 0, var = 0;
    for (auto x : ts) {
        double in = 0;
        for (auto& c : x->pdf.c) {
            Vec2 m = cf::ll2ne(c.x.head<2>().eval(), org); Eigen::LLT<Mat2> L(c.P.topLeftCorner<2, 2>()); int k = std::max(20, static_cast<int>(K * c.w));
            for (int q = 0; q < k; ++q) { Vec2 s = m + L.matrixL() * Vec2(nd(g), nd(g)); Vec2 f = (s - lo).cwiseQuotient(hi - lo); if (f.minCoeff() >= 0 && f.maxCoeff() < 1) { pr(static_cast<int>(f[0] * size[0]), static_cast<int>(f[1] * size[1])) += x->r * c.w / k; in += c.w / k; } }
        }
        inside += x->r * in; var += x->r * x->r * (in * (1 - in) * (1.0 / 1000 + 1.0 / K) + 1e-5);
        if (in > 1 - 1e-9) { interesting = true; }
    }
    // components get whole columns: allow one column for each
    double slack = 0; for (auto x : ts) { slack += x->r * std::min<double>(x->pdf.c.size(), 60) * 1e-3; }
    near(total, inside, 6 * std::sqrt(var) + slack + 1e-9, "mass of the map");
    for (int i = 0; i < size[0]; ++i) { for (int j = 0; j < size[1]; ++j) {
        double q = std::min(up, pr(i, j)); double v = up * (q + .01) * (1.0 / 1000 + 1.0 / K); near(res(i, j), pr(i, j), 7 * std::sqrt(v) + slack, "cell ", i, ",", j); } }
    (void)worst;
}
// a concentrated target puts all its existence into its own cell
static void cell(long) {
    cf::LL o = random_origin(); Params p; Tracker t(p); double half = 500; cf::LL u = at(o, -half, -half), v = at(o, half, half); AABBox fov(u[0], u[1], v[0], v[1]); Eigen::Array2i size(ri(1, 12), ri(1, 12));
    cf::LL org((fov.min[0] + fov.max[0]) / 2, (fov.min[1] + fov.max[1]) / 2); Vec2 lo = cf::ll2ne(u, org), hi = cf::ll2ne(v, org);
    Eigen::MatrixXd want = Eigen::MatrixXd::Zero(size[0], size[1]);
    for (int k = ri(1, 4); k > 0; --k) {
        int i = ri(0, size[0] - 1), j = ri(0, size[1] - 1); Vec2 c = lo + Vec2((i + .5) * (hi[0] - lo[0]) / size[0], (j + .5) * (hi[1] - lo[1]) / size[1]); cf::LL l = cf::ne2ll(c, org);
        int n = pick(std::vector<int>{1, 2, 3, 7, 40}); PDF m(&t.params); m.eta = 1; m.origin = l; double s = 0; for (int q = 0; q < n; ++q) { G4 g; g.x << uni(-2, 2), uni(-2, 2), 1, 1; g.P = spd<4>(.01, 4); g.w = chance(.3) ? .001 : uni(); s += g.w; m.c.push_back(g); } for (auto& g : m.c) { g.w /= s; } m.transform_to_global();
        double r = uni(); want(i, j) += r; t.targettree.new_target(r, std::move(m)); note("cell ", i, ",", j, " r ", r, " components ", n);
    }
    // one outside the region
    PDF far = mixture(&t.params, o, shifted(random_comps(3, 2, 1, 4), 5000, 5000)); t.targettree.new_target(1, std::move(far));
    auto res = t.pos_phd(fov, size); mnear(res, want, 1e-9, "map of concentrated targets"); interesting = true;
}
int main(int argc, char** argv) { return hx::main(argc, argv, {{"map", 250, map_case, 30}, {"cell", 400, cell, 20}}); }
