#include "common.hpp"
#include <Eigen/Dense>
#include "cf.hpp"
using V2 = Eigen::Vector2d;
using V3 = Eigen::Vector3d;
using V4 = Eigen::Vector4d;
VC void d_nedrot(const V3* o, Eigen::Matrix3d* r) { *r = cf::nedrot(*o); }
VC void d_nerot(const V2* o, Eigen::Matrix<double, 2, 3>* r) { *r = cf::nerot(*o); }
VC void d_lla2ecef(const V3* l, V3* r) { *r = cf::lla2ecef(*l); }
VC void d_ll2ecef(const V2* l, V3* r) { *r = cf::ll2ecef(*l); }
VC void d_ecef2ned(const V3* e, const V3* o, V3* r) { *r = cf::ecef2ned(*e, *o); }
VC void d_ecef2ne(const V3* e, const V2* o, V2* r) { *r = cf::ecef2ne(*e, *o); }
VC void d_lla2ned(const V3* l, const V3* o, V3* r) { *r = cf::lla2ned(*l, *o); }
VC void d_ll2ne(const V2* l, const V2* o, V2* r) { *r = cf::ll2ne(*l, *o); }
VC void d_ned2ecef(const V3* e, const V3* o, V3* r) { *r = cf::ned2ecef(*e, *o); }
VC void d_ne2ecef(const V2* e, const V2* o, V3* r) { *r = cf::ne2ecef(*e, *o); }
VC void d_ned2lla(const V3* e, const V3* o, V3* r) { *r = cf::ned2lla(*e, *o); }
VC void d_ne2ll(const V2* e, const V2* o, V2* r) { *r = cf::ne2ll(*e, *o); }
VC void d_ne2ll_i(V4* e, const V2* o) { cf::ne2ll_i(e->head<2>(), *o); }
VC void d_ll2ne_i(V4* e, const V2* o) { cf::ll2ne_i(e->head<2>(), *o); }
VC void d_ecef2lla(const V3* e, V3* r) { *r = cf::ecef2lla(*e); }
VC void d_ecef2ll(const V3* e, V2* r) { *r = cf::ecef2ll(*e); }
