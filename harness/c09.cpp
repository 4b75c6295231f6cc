// C09: component and mixture update against the information-form posterior in long double
#include "track.hpp"
using namespace hx;
using LD = long double;
template<int N> using LM = Eigen::Matrix<LD, N, N>;
template<int N> using LV = Eigen::Matrix<LD, N, 1>;
struct Post { LV<4> x; LM<4> P; LD w; LD scale; };
static Post posterior(const G4& g, const Report& z, LD pD) {
    LM<4> P = g.P.cast<LD>(); LM<2> R = z.P.cast<LD>(); LV<4> x = g.x.cast<LD>();
    Eigen::Matrix<LD, 2, 4> H; H << 1, 0, 0, 0, 0, 1, 0, 0;
    LM<2> S = H * P * H.transpose() + R;
    LD det = S(0, 0) * S(1, 1) - S(0, 1) * S(1, 0);
    LM<2> Si; Si << S(1, 1) / det, -S(0, 1) / det, -S(1, 0) / det, S(0, 0) / det;
    LV<2> d = z.x.cast<LD>() - H * x;
    Post o;
    o.x = x + P * H.transpose() * Si * d;
    o.P = P - P * H.transpose() * Si * H * P;
    o.w = g.w * pD * std::exp(-.5L * d.dot(Si * d)) / (2 * 3.14159265358979323846264338327950288L * std::sqrt(det)) / z.kappa;
    o.scale = P.cwiseAbs().maxCoeff() * (1 + P.cwiseAbs().maxCoeff() / std::min(S(0, 0), S(1, 1)));
    return o;
}
static void cmp(const G4& g, const Post& e, double tol, const char* what) {
    double sx = 1 + static_cast<double>(e.x.cwiseAbs().maxCoeff()) + static_cast<double>(e.scale);
    mnear(g.x, e.x.cast<double>().eval(), tol * sx * 10, what, " mean");
    mnear(g.P, e.P.cast<double>().eval(), tol * (1e-3 + static_cast<double>(e.scale)), what, " covariance");
}
static void setup(cf::LL& o, Sensor& sn, Report& z, double spread) {
    o = random_origin();
    sn.fov = chance(.7) ? region(o, pick(std::vector<double>{.1, 5})) : BBox(AABBox(o[0] - 1e-4, o[1] - 1e-4, o[0] + uni(0, 2e-4), o[1] + 2e-4));
    sn.pD_ = pick(std::vector<double>{.9, 1, .5, .01, 0});
    z = Report(Vec2(uni(-spread, spread), uni(-spread, spread)), spd<2>(pick(std::vector<double>{.01, 1}), 40), logu(1e-8, 10));
}
static G4 gauss(double spread) {
    G4 g; g.x << uni(-spread, spread), uni(-spread, spread), normal() * 5, normal() * 5;
    g.P = spd<4>(pick(std::vector<double>{.01, 1}), 60); g.w = chance(.1) ? 0 : logu(1e-6, 2);
    return g;
}
static void component(long) {
    cf::LL o; Sensor sn; Report z; double spread = pick(std::vector<double>{3, 10, 40}); setup(o, sn, z, spread);
    G4 g = gauss(spread), h = g;
    note(shows(sn)); note(showz(z)); note(show(g), " origin ", str(o));
    lmb::gen.seed(11); lmb::ndist.reset();
    double pD = sn.pD(g, o);
    Post e = posterior(g, z, pD);
    lmb::gen.seed(11); lmb::ndist.reset();
    double r = h.correct(z, sn, o);
    cmp(h, e, 1e-11, "posterior");
    double w = static_cast<double>(e.w);
    near(h.w, w, 1e-8 * std::abs(w) + 1e-290, "posterior weight");
    near(r, h.w, 0, "returned weight");
    interesting = w > 0;
}
static void mixture_case(long) {
    cf::LL o; Sensor sn; Report z; double spread = pick(std::vector<double>{3, 10, 40, 3000}); setup(o, sn, z, spread);
    static Params p;
    PDF m(&p); m.origin = o; m.eta = 77;
    int n = pick(std::vector<int>{0, 1, 2, 3, 5, 12, 40, 200});
    for (int i = 0; i < n; ++i) { m.c.push_back(gauss(spread)); }
    note(shows(sn)); note(showz(z)); note(show(m), " origin ", str(o));
    std::vector<Post> e; LD s = 0;
    lmb::gen.seed(5); lmb::ndist.reset();
    // the draws of the components follow each other
    for (auto& g : m.c) { e.push_back(posterior(g, z, sn.pD(g, o))); s += e.back().w; }
    lmb::gen.seed(5); lmb::ndist.reset();
    double eta = m.correct(z, sn);
    double S = static_cast<double>(s);
    if (std::abs(S - 1e-8) < 1e-12) { return; }
    if (S > 1e-8) {
        near(eta, S, 1e-8 * S, "normaliser"); near(m.eta, eta, 0, "stored normaliser");
        require(m.c.size() == static_cast<size_t>(n), "components: ", m.c.size(), " of ", n);
        double t = 0;
        for (int i = 0; i < n; ++i) {
            cmp(m.c[i], e[i], 1e-11, "component posterior");
            near(m.c[i].w, static_cast<double>(e[i].w / s), 1e-7, "component weight"); t += m.c[i].w;
        }
        near(t, 1, 1e-9, "sum of weights");
        interesting = n > 1;
    } else {
        require(m.c.empty() && m.eta == 0, "vanishing mixture keeps ", m.c.size(), " components, eta ", m.eta);
    }
}
int main(int argc, char** argv) { return hx::main(argc, argv, {{"component", 4000, component, 20}, {"mixture", 250, mixture_case, 60}}); }
