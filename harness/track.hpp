// Tracker fixture shared by the harnesses
#pragma once
#include "gm.hpp"
#include "lmb.hpp"
#include "cf.hpp"
#include "models.hpp"
#include "sensors.hpp"
#include "hx.hpp"
namespace hx {
using namespace lmb;
using PDF = GM<4>;
using Tracker = SILMB<PDF>;
using Target = Tracker::Target;
using Sensor = PositionSensor<Target>;
using Report = GaussianReport_<2>;
using G4 = Gaussian_<4>;
using Vec2 = Eigen::Vector2d;
using Vec4 = Eigen::Vector4d;
using Mat2 = Eigen::Matrix2d;
using Mat4 = Eigen::Matrix4d;

inline cf::LL random_origin() {
    cf::LL o;
    switch (ri(0, 4)) {
        case 0: o << 58.3887657, 15.6965082; break;
        case 1: o << uni(-1, 1), uni(-1, 1); break;
        case 2: o << uni(-75, 75), uni(-160, 160); break;
        case 3: o << uni(-75, -10), uni(-160, -10); break;
        default: o << uni(-60, 60), uni(-90, 90);
    }
    return o;
}
inline cf::LL at(const cf::LL& origin, double n, double e) { return cf::ne2ll(Vec2(n, e), origin); }

// a region of the globe around the origin, half-width in degrees
inline BBox region(const cf::LL& o, double h) { return BBox(AABBox(o[0] - h, o[1] - h, o[0] + h, o[1] + h)); }

// mixture with components at local positions
struct Comp { Vec4 x; Mat4 P; double w; };
inline PDF mixture(Params* params, const cf::LL& origin, const std::vector<Comp>& cs) {
    PDF p(params);
    p.eta = 1;
    for (auto& c : cs) { p.c.emplace_back(c.x, c.P, c.w); }
    p.origin = origin;
    p.transform_to_global();
    return p;
}
inline std::vector<Comp> random_comps(int n, double spread, double plo, double phi, bool equalw = false) {
    std::vector<Comp> cs; double s = 0;
    for (int i = 0; i < n; ++i) {
        Comp c;
        c.x << uni(-spread, spread), uni(-spread, spread), normal() * 3, normal() * 3;
        c.P = spd<4>(plo, phi);
        c.w = equalw ? 1 : uni(.05, 1);
        s += c.w;
        cs.push_back(c);
    }
    for (auto& c : cs) { c.w /= s; }
    return cs;
}
inline std::vector<Comp> shifted(std::vector<Comp> cs, double n, double e) { for (auto& c : cs) { c.x[0] += n; c.x[1] += e; } return cs; }

inline Report report(const cf::LL& origin, double n, double e, const Mat2& P, double kappa) {
    cf::LL p = at(origin, n, e);
    Report z(p, P, kappa);
    z.rB = -7;
    return z;
}
inline std::string show(const Params& p) {
    std::ostringstream s; s.precision(17);
    s << "params w_lim=" << p.w_lim << " r_lim=" << p.r_lim << " nhyp_max=" << p.nhyp_max << " rB_max=" << p.rB_max << " nstd=" << p.nstd
      << " cw_lim=" << p.cw_lim << " cov_lim=" << p.cov_lim << " tscale=" << p.tscale;
    return s.str();
}
template<typename T> std::string show(const T& t) { std::ostringstream s; t.repr(s); return s.str(); }
inline std::string showz(const Report& z) { std::ostringstream s; s.precision(17); s << "report x=" << str(z.x.transpose()) << " P=" << str(z.P) << " kappa=" << z.kappa; return s.str(); }
inline std::string shows(const Sensor& z) { std::ostringstream s; s.precision(17); s << "sensor fov=" << str(z.fov.corners) << " pv=" << str(z.pv) << " lambdaB=" << z.lambdaB << " pD=" << z.pD_ << " kappa=" << z.kappa_; return s.str(); }
}  // namespace hx
