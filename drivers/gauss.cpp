#include "common.hpp"
#include "gm.hpp"
#include "lmb.hpp"
#include "models.hpp"
using namespace lmb;
using PDF = GM<4, 10>;
using G = Gaussian_<4>;
using Target = Target_<PDF>;
using Sensor = PositionSensor<Target>;
using Report = GaussianReport_<2>;
OFF(g_x, G, x) OFF(g_P, G, P) OFF(g_w, G, w) SIZ(g, G)
OFF(r_x, Report, x) OFF(r_P, Report, P) OFF(r_kappa, Report, kappa) OFF(r_rB, Report, rB) OFF(r_cid, Report, cid) SIZ(r, Report)
OFF(s_fov, Sensor, fov) OFF(s_pv, Sensor, pv) OFF(s_lambdaB, Sensor, lambdaB) OFF(s_pD, Sensor, pD_) OFF(s_kappa, Sensor, kappa_) SIZ(s, Sensor)
OFF(pdf_params, PDF, params) OFF(pdf_c, PDF, c) OFF(pdf_bbox, PDF, bbox) OFF(pdf_aabbox, PDF, aabbox) OFF(pdf_eta, PDF, eta) OFF(pdf_origin, PDF, origin) SIZ(pdf, PDF)
OFF(p_w_lim, Params, w_lim) OFF(p_r_lim, Params, r_lim) OFF(p_nhyp_max, Params, nhyp_max) OFF(p_rB_max, Params, rB_max) OFF(p_nstd, Params, nstd) OFF(p_cw_lim, Params, cw_lim) OFF(p_cov_lim, Params, cov_lim) OFF(p_tscale, Params, tscale) SIZ(p, Params)
OFF(t_pdf, Target, pdf) OFF(t_r, Target, r) OFF(t_params, Target, params) OFF(t_id, Target, id) OFF(t_cid, Target, cid) SIZ(t, Target)

VC double d_gauss_correct(G* g, const Report* z, const Sensor* s, const cf::LL* o) { return g->correct(*z, *s, *o); }
VC void d_gauss_update(G* g, const Eigen::Matrix4d* F, const Eigen::Matrix4d* Q) { g->linear_update(*F, *Q); }
VC double d_likelihood(const Report* z, const Eigen::Vector2d* dz, const Eigen::Matrix2d* D) { return z->likelihood(*dz, *D); }
VC double d_gm_correct(PDF* p, const Report* z, const Sensor* s) { return p->correct(*z, *s); }
VC void d_gm_update(PDF* p, const Eigen::Matrix4d* F, const Eigen::Matrix4d* Q) { p->linear_update(*F, *Q); }
VC void d_gm_normalize(PDF* p) { p->normalize(); }
VC double d_gm_missed(PDF* p, const Sensor* s) { return p->missed(*s); }
VC void d_gm_mean(const PDF* p, Eigen::Vector4d* r) { *r = p->mean(); }
VC void d_gm_cov(const PDF* p, Eigen::Matrix4d* r) { *r = p->cov(); }
VC void d_gm_covx(const PDF* p, const Eigen::Vector4d* x, Eigen::Matrix4d* r) { *r = p->cov(*x); }
VC void d_gm_views(PDF* p, Eigen::Vector2d* pos, Eigen::Vector2d* vel, Eigen::Matrix2d* pc, Eigen::Matrix2d* vc) {
    *pos = p->pos(); *vel = p->vel(); *pc = p->poscov(); *vc = p->velcov(); }
VC void d_cv(CV<Target>* m, Target* t, double time, double last) { (*m)(t, time, last); }
VC void d_cv_ctor(CV<Target>* m, double pS, double q) { new (m) CV<Target>(pS, q); }
VC void d_nm(NM<Target>* m, Target* t, double time, double last) { (*m)(t, time, last); }
VC void d_cv_predict(CV<Target>* m, const PDF* p, double dT, Eigen::Vector4d* r) { *r = m->predict(*p, dT); }
OFF(cv_pS, CV<Target>, pS) OFF(cv_q, CV<Target>, q) OFF(cv_tscale, CV<Target>, tscale) SIZ(cv, CV<Target>)
OFF(nm_pS, NM<Target>, pS) OFF(nm_Q, NM<Target>, Q) SIZ(nm, NM<Target>)
VC double d_sensor_pD(const Sensor* s, const G* g, const cf::LL* o) { return s->pD(*g, *o); }
VC double d_sensor_kappa(const Sensor* s, const Report* r) { return s->kappa(*r); }
VC void d_report_sensor(Report* out, const Sensor* s, const Eigen::Vector2d* x, const Eigen::Matrix2d* P) { new (out) Report(*s, *x, *P); }
VC void d_report(Report* out, const Eigen::Vector2d* x, const Eigen::Matrix2d* P, double kappa) { new (out) Report(*x, *P, kappa); }
VC double d_overlap_b(const G* g, const BBox* b) { return g->overlap(*b); }
VC double d_overlap_a(const G* g, const AABBox* b) { return g->overlap(*b); }
VC double d_gm_overlap_b(const PDF* g, const BBox* b) { return g->overlap(*b); }
VC double d_gm_overlap_a(const PDF* g, const AABBox* b) { return g->overlap(*b); }
VC void d_pdf_init1(const Sensor* s, Params* params, const Report* r, PDF* out) { new (out) PDF(s->pdf_init1(params, *r, 0.0)); }
