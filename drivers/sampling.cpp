#include "common.hpp"
#include <Eigen/Dense>
#include "gm.hpp"
#include "lmb.hpp"
using namespace lmb;
using PDF = GM<4, 10>;
using G = Gaussian_<4>;
using M4X = Eigen::Matrix<double, 4, Eigen::Dynamic>;
using M2X = Eigen::Matrix<double, 2, Eigen::Dynamic>;
OFF(g_x, G, x) OFF(g_P, G, P) OFF(g_w, G, w) SIZ(g, G)
OFF(pdf_params, PDF, params) OFF(pdf_c, PDF, c) OFF(pdf_bbox, PDF, bbox) OFF(pdf_aabbox, PDF, aabbox) OFF(pdf_eta, PDF, eta) OFF(pdf_origin, PDF, origin) SIZ(pdf, PDF)

VC void d_nrand4(M4X* res, const Eigen::Vector4d* x, const Eigen::Matrix4d* P) { nrand(*res, *x, *P); }
VC void d_nrand2(M2X* res, const Eigen::Vector2d* x, const Eigen::Matrix2d* P) { nrand(*res, *x, *P); }
VC void d_g_sample(const G* g, M4X* res) { g->sample(*res); }
VC void d_g_sample_pos(const G* g, M2X* res) { g->sample_pos(*res); }
VC void d_gm_sample(const PDF* p, M4X* res) { p->sample(*res); }
VC void d_gm_sample_pos(const PDF* p, M2X* res) { p->sample_pos(*res); }
VC void d_g_sample_blk(const G* g, M4X* res, long c, long n) { auto b = res->block(0, c, 4, n); g->sample(b); }
VC void d_g_sample_pos_blk(const G* g, M2X* res, long c, long n) { auto b = res->block(0, c, 2, n); g->sample_pos(b); }
