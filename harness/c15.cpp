// C15: inverse conversion and local round trips
#include "cf.hpp"
#include "hx.hpp"
using namespace hx;
static const double R0 = 6378137.0;
static double lat() {
    switch (ri(0, 6)) { case 0: return pick(std::vector<double>{0, 90, -90, 45, -45}); case 1: return uni(-1e-7, 1e-7); case 2: return (chance(.5) ? 1 : -1) * (90 - logu(1e-9, 1)); case 3: return (chance(.5) ? 1 : -1) * uni(56, 58); default: return uni(-90, 90); }
}
static double lon() { switch (ri(0, 4)) { case 0: return pick(std::vector<double>{0, 180, -180, 90, -90}); case 1: return (chance(.5) ? 1 : -1) * (180 - logu(1e-9, 1)); default: return uni(-180, 180); } }
static void geodetic(long) {
    Eigen::Vector3d p(lat(), lon(), chance(.2) ? 0 : chance(.2) ? pick(std::vector<double>{-1e4, 2e4}) : uni(-1e4, 2e4));
    note("point ", str(p.transpose()));
    Eigen::Vector3d e = cf::lla2ecef(p), q = cf::ecef2lla(e);
    double la = p[0] * M_PI / 180, dl = std::remainder(q[1] - p[1], 360.0) * M_PI / 180;
    near(q[0] * M_PI / 180 * R0, la * R0, 1e-4, "latitude (metres)"); near(dl * std::cos(la) * R0, 0, 1e-4, "longitude (metres)"); near(q[2], p[2], 1e-4, "altitude");
    require(q[0] >= -90 - 1e-9 && q[0] <= 90 + 1e-9 && q[1] >= -180 && q[1] <= 180, "range: ", str(q.transpose()));
    Eigen::Vector3d back = cf::lla2ecef(q); mnear(back, e, 1e-4, "earth-centred point");
    Eigen::Vector2d ll = cf::ecef2ll(e); near(ll[0], q[0], 1e-13, "two-dimensional latitude"); near(ll[1], q[1], 1e-13, "two-dimensional longitude");
    interesting = true;
}
static void local(long) {
    Eigen::Vector2d o(chance(.8) ? uni(-85, 85) : uni(-1e-3, 1e-3), lon()); double r = logu(1e-3, 1e4), t = uni(0, 2 * M_PI);
    Eigen::Vector2d ne(r * std::cos(t), r * std::sin(t)); if (chance(.05)) { ne.setZero(); r = 0; }
    note("origin ", str(o.transpose()), " local ", str(ne.transpose()));
    Eigen::Vector2d ll = cf::ne2ll(ne, o), b = cf::ll2ne(ll, o);
    require((b - ne).norm() <= 1e-5 * r + 1e-6, "local round trip: ", str(b.transpose()));
    // the position really is where the local coordinates say
    Eigen::Vector3d z(o[0], o[1], 0), n3(ne[0], ne[1], 0), on = cf::ll2ecef(ll);
    require((cf::ned2ecef(n3, z) - on).norm() <= r * r / R0 + 1e-5 * r + 1e-6, "distance of the position from the tangent plane");
    // geodetic position there and back, starting from geodetic coordinates
    Eigen::Vector2d p = cf::ne2ll(Eigen::Vector2d(uni(-1e4, 1e4), uni(-1e4, 1e4)), o), x = cf::ll2ne(p, o), y = cf::ne2ll(x, o);
    Eigen::Vector2d dd = cf::ll2ne(y, o) - x; require(dd.norm() <= 1e-5 * x.norm() + 1e-6, "geodetic round trip: ", dd.norm(), " m at ", x.norm());
    double m = std::hypot((y[0] - p[0]) * M_PI / 180 * R0, std::remainder(y[1] - p[1], 360.0) * M_PI / 180 * R0 * std::cos(p[0] * M_PI / 180));
    require(m <= 1e-5 * x.norm() + 1e-6, "geodetic round trip (degrees): ", m, " m at ", x.norm());
    Eigen::Vector2d w0(10.5, 20.25); cf::NE w = ne; cf::ne2ll_i(w, o); require(w == ll, "in-place conversion");
    Eigen::Vector4d s(ne[0], ne[1], 1, 2); cf::ne2ll_i(s, o); require(s[0] == ll[0] && s[1] == ll[1] && s[2] == 1 && s[3] == 2, "in-place conversion of a state");
    cf::ECEF g = cf::ne2ecef(ne, o); mnear(g, on, 1e-4, "earth-centred position of local coordinates");
    Eigen::Vector3d n4(ne[0], ne[1], uni(-1e3, 1e3)), l3 = cf::ned2lla(n4, z), e3 = cf::lla2ecef(l3); mnear(e3, cf::ned2ecef(n4, z), 1e-4, "geodetic coordinates of a local point");
    interesting = true;
}
// earth-centred points with coordinates that are exactly zero: poles, equator, date line, prime meridian
static void exact(long) {
    double h = chance(.3) ? 0 : uni(-1e4, 2e4), b = chance(.2) ? 0 : chance(.2) ? M_PI / 2 : uni(0, M_PI / 2), f = 1 / 298.257223563, e2 = f * (2 - f), N = R0 / std::sqrt(1 - e2 * std::sin(b) * std::sin(b));
    double w = (N + h) * std::cos(b), z = (N * (1 - e2) + h) * std::sin(b) * (chance(.5) ? 1 : -1); if (b == 0) { z = chance(.5) ? 0. : -0.; } if (b == M_PI / 2) { w = 0; }
    int k = ri(0, 3); Eigen::Vector3d e(k == 0 ? w : k == 1 ? -w : chance(.5) ? 0. : -0., k == 2 ? w : k == 3 ? -w : chance(.5) ? 0. : -0., z); double lo = k == 0 ? 0 : k == 1 ? 180 : k == 2 ? 90 : -90;
    note("earth-centred ", str(e.transpose()));
    Eigen::Vector3d q = cf::ecef2lla(e); Eigen::Vector2d l = cf::ecef2ll(e); double la = z < 0 ? -b : b;
    for (double d : {q[0], l[0]}) { near(d * M_PI / 180 * R0, la * R0, 1e-4, "latitude (metres)"); }
    for (double d : {q[1], l[1]}) { require(d >= -180 && d <= 180, "longitude ", d); near(std::remainder(d - lo, 360.0) * M_PI / 180 * w, 0, 1e-4, "longitude (metres)"); }
    near(q[2], h, 1e-4, "altitude"); mnear(cf::lla2ecef(q), e, 1e-4, "earth-centred point"); interesting = true;
}
int main(int argc, char** argv) { return hx::main(argc, argv, {{"geodetic", 400000, geodetic, 20}, {"exact", 20000, exact, 20}, {"local", 100000, local, 20}}); }
