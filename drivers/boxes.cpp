#include "common.hpp"
#include <Eigen/Dense>
#include <array>
#include "gm.hpp"
#include "lmb.hpp"
using namespace lmb;
using V2 = Eigen::Vector2d;
using V4 = Eigen::Vector4d;
using M2 = Eigen::Matrix2d;
using PDF = GM<4, 10>;
using G = Gaussian_<4>;
using Report = GaussianReport_<2>;
using ES = Eigen::SelfAdjointEigenSolver<Eigen::Matrix2d>;
OFF(a_min, AABBox, min) OFF(a_max, AABBox, max) SIZ(a, AABBox) OFF(b_corners, BBox, corners) SIZ(b, BBox)
OFF(g_x, G, x) OFF(g_P, G, P) OFF(g_w, G, w) SIZ(g, G)
OFF(r_x, Report, x) OFF(r_P, Report, P) OFF(r_kappa, Report, kappa) OFF(r_rB, Report, rB) OFF(r_cid, Report, cid) SIZ(r, Report)
OFF(pdf_params, PDF, params) OFF(pdf_c, PDF, c) OFF(pdf_bbox, PDF, bbox) OFF(pdf_aabbox, PDF, aabbox) OFF(pdf_eta, PDF, eta) OFF(pdf_origin, PDF, origin) SIZ(pdf, PDF)
OFF(p_w_lim, Params, w_lim) OFF(p_r_lim, Params, r_lim) OFF(p_nhyp_max, Params, nhyp_max) OFF(p_rB_max, Params, rB_max) OFF(p_nstd, Params, nstd) OFF(p_cw_lim, Params, cw_lim) OFF(p_cov_lim, Params, cov_lim) OFF(p_tscale, Params, tscale) SIZ(p, Params)

VC bool d_a_intersects(const AABBox* a, const AABBox* b) { return a->intersects(*b); }
VC bool d_a_within2(const AABBox* a, const V2* x) { return a->within(*x); }
VC bool d_a_within4(const AABBox* a, const V4* x) { return a->within(*x); }
VC void d_a_ctor(AABBox* o, double x1, double y1, double x2, double y2) { new (o) AABBox(x1, y1, x2, y2); }
VC void d_a_copy(AABBox* o, const AABBox* a) { new (o) AABBox(*a); }
VC void d_a_assign(AABBox* o, const AABBox* a) { *o = *a; }
VC void d_b_from_a(BBox* o, const AABBox* a) { new (o) BBox(*a); }
VC void d_b_aabbox(const BBox* b, AABBox* o) { new (o) AABBox(b->aabbox()); }
VC bool d_b_within2(const BBox* b, const V2* x) { return b->within(*x); }
VC bool d_b_within4(const BBox* b, const V4* x) { return b->within(*x); }
VC bool d_b_intersects(const BBox* a, const BBox* b) { return a->intersects(*b); }
VC bool d_b_intersects_a(const BBox* a, const AABBox* b) { return a->intersects(*b); }
VC void d_a_gauss(AABBox* o, const V2* x, const M2* P, double nstd) { new (o) AABBox(*x, *P, nstd); }
VC void d_a_cov(AABBox* o, const M2* P, double nstd) { new (o) AABBox(*P, nstd); }
VC void d_b_gauss(BBox* o, const V2* x, const M2* P, double nstd) { new (o) BBox(*x, *P, nstd); }
VC void d_b_cov(BBox* o, const M2* P, double nstd) { new (o) BBox(*P, nstd); }
VC void d_g_aabbox(const G* g, double nstd, AABBox* o) { new (o) AABBox(g->aabbox(nstd)); }
VC void d_g_bbox(const G* g, double nstd, BBox* o) { new (o) BBox(g->bbox(nstd)); }
VC void d_g_aabbox2(const G* g, AABBox* o) { new (o) AABBox(g->aabbox()); }
VC void d_g_bbox2(const G* g, BBox* o) { new (o) BBox(g->bbox()); }
VC void d_gm_boxes(PDF* p) { p->update_local_bbox(); }
VC bool d_gm_int_a(PDF* p, const AABBox* b) { return p->intersects(*b); }
VC bool d_gm_int_b(PDF* p, const BBox* b) { return p->intersects(*b); }
VC void d_a_ll(const AABBox* a, const V2* org, AABBox* o) { new (o) AABBox(a->llaabbox(*org)); }
VC void d_a_ne(const AABBox* a, const V2* org, AABBox* o) { new (o) AABBox(a->neaabbox(*org)); }
VC void d_b_ll(const BBox* a, const V2* org, BBox* o) { new (o) BBox(a->llbbox(*org)); }
VC void d_b_ne(const BBox* a, const V2* org, BBox* o) { new (o) BBox(a->nebbox(*org)); }
VC void d_r_ll(Report* r, AABBox* o) { new (o) AABBox(r->llaabbox()); }
