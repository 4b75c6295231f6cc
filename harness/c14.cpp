// C14: local frames and forward conversion against long double formulas
#include "cf.hpp"
#include "hx.hpp"
using namespace hx;
using LD = long double;
using V3 = Eigen::Matrix<LD, 3, 1>;
static const LD PI = 3.14159265358979323846264338327950288L, A = 6378137.0L, E2 = 6.6943799901377997e-3L;
static double angle(double lim) {
    switch (ri(0, 5)) { case 0: return pick(std::vector<double>{0, lim, -lim, lim / 2, -lim / 2}); case 1: return uni(-1e-6, 1e-6); case 2: return chance(.5) ? lim - logu(1e-9, 1e-3) : -lim + logu(1e-9, 1e-3); default: return uni(-lim, lim); }
}
static V3 ref(const Eigen::Vector3d& l) {
    LD la = l[0] * PI / 180, lo = l[1] * PI / 180, n = A / std::sqrt(1 - E2 * std::sin(la) * std::sin(la));
    return V3((n + l[2]) * std::cos(la) * std::cos(lo), (n + l[2]) * std::cos(la) * std::sin(lo), (n * (1 - E2) + l[2]) * std::sin(la));
}
static void frames(long) {
    Eigen::Vector3d o(angle(90), angle(180), chance(.5) ? 0 : uni(-1e4, 2e4)), p(angle(90), angle(180), chance(.3) ? 0 : uni(-1e4, 2e4));
    if (chance(.5)) { p = o + Eigen::Vector3d(normal() * .01, normal() * .01, normal() * 100); p[0] = std::max(-90.0, std::min(90.0, p[0])); }
    note("origin ", str(o.transpose()), " point ", str(p.transpose()));
    Eigen::Vector3d e = cf::lla2ecef(p), e0 = cf::lla2ecef(o); V3 r = ref(p), r0 = ref(o);
    mnear(e, r.cast<double>().eval(), 2e-8, "earth-centred coordinates");
    // axes: derivative of the position along latitude, longitude and altitude
    LD la = o[0] * PI / 180, lo = o[1] * PI / 180;
    V3 N(-std::sin(la) * std::cos(lo), -std::sin(la) * std::sin(lo), std::cos(la)), Ea(-std::sin(lo), std::cos(lo), 0), D(-std::cos(la) * std::cos(lo), -std::cos(la) * std::sin(lo), -std::sin(la));
    V3 d = r - r0; Eigen::Vector3d ned(N.dot(d), Ea.dot(d), D.dot(d));
    Eigen::Vector3d n1 = cf::ecef2ned(e, o), n2 = cf::lla2ned(p, o);
    mnear(n1, ned, 1e-7, "local coordinates"); mnear(n2, ned, 1e-7, "local coordinates of a geodetic point");
    near(n1.norm(), (e - e0).norm(), 1e-7, "distance to the origin");
    Eigen::Vector3d z = cf::lla2ned(o, o); mnear(z, Eigen::Vector3d::Zero().eval(), 1e-8, "origin");
    mnear(cf::ned2ecef(n1, o), e, 1e-7, "back to earth-centred coordinates");
    Eigen::Vector3d any(uni(-1e5, 1e5), uni(-1e5, 1e5), uni(-1e4, 1e4)), any2(uni(-1e5, 1e5), uni(-1e5, 1e5), uni(-1e4, 1e4));
    mnear(cf::ecef2ned(cf::ned2ecef(any, o), o), any, 1e-7, "local coordinates round trip");
    near((cf::ned2ecef(any, o) - cf::ned2ecef(any2, o)).norm(), (any - any2).norm(), 1e-6, "distance between two local points");
    Eigen::Matrix3d R = cf::nedrot(o); mnear((R * R.transpose()).eval(), Eigen::Matrix3d::Identity().eval(), 1e-14, "rotation"); near(R.determinant(), 1, 1e-13, "orientation");
    // zero altitude
    Eigen::Vector2d o2 = o.head<2>(), p2 = p.head<2>(); Eigen::Vector3d oz(o[0], o[1], 0), pz(p[0], p[1], 0);
    mnear(cf::ll2ecef(p2), cf::lla2ecef(pz), 1e-8, "two-dimensional earth-centred coordinates");
    mnear(cf::ecef2ne(e, o2), cf::ecef2ned(e, oz).head<2>().eval(), 1e-8, "two-dimensional local coordinates");
    mnear(cf::ll2ne(p2, o2), cf::lla2ned(pz, oz).head<2>().eval(), 1e-8, "two-dimensional local coordinates of a geodetic point");
    Eigen::Matrix<double, 2, 3> R2 = cf::nerot(o2); mnear(R2, R.topRows<2>().eval(), 1e-15, "two-dimensional rotation");
    Eigen::Vector3d s = cf::lla2ecef(pz); LD q = (static_cast<LD>(s[0]) * s[0] + static_cast<LD>(s[1]) * s[1]) / (A * A) + static_cast<LD>(s[2]) * s[2] / (A * A * (1 - E2));
    near(static_cast<double>(q), 1, 1e-14, "ellipsoid equation");
    Eigen::Vector3d up = e - s; LD lp = p[0] * PI / 180, mp = p[1] * PI / 180;
    mnear(up, Eigen::Vector3d(p[2] * std::cos(lp) * std::cos(mp), p[2] * std::cos(lp) * std::sin(mp), p[2] * std::sin(lp)), 1e-8, "altitude along the normal");
    // any rotation applies to any vector type, in place versions
    Eigen::Vector4d st(p[0], p[1], 3, 4); cf::ll2ne_i(st, o2); Eigen::Vector2d x = cf::ll2ne(p2, o2);
    require(st[0] == x[0] && st[1] == x[1] && st[2] == 3 && st[3] == 4, "in-place conversion: ", str(st.transpose()));
    interesting = true;
}
int main(int argc, char** argv) { return hx::main(argc, argv, {{"frames", 200000, frames, 20}}); }
