#include "common.hpp"
#include "gm.hpp"
#include "lmb.hpp"
#include "models.hpp"
using namespace lmb;
using PDF = GM<4, 10>;
using G = Gaussian_<4>;
using Target = Target_<PDF>;
using Sensor = PositionSensor<Target>;
using Report = GaussianReport_<2>;
using Tree = TargetTree_<PDF>;
using Cluster = Cluster_<Report, Target>;
using Row = Eigen::Matrix<double, 1, Eigen::Dynamic>;
OFF(g_x, G, x) OFF(g_P, G, P) OFF(g_w, G, w) SIZ(g, G)
OFF(r_x, Report, x) OFF(r_P, Report, P) OFF(r_kappa, Report, kappa) OFF(r_rB, Report, rB) OFF(r_cid, Report, cid) SIZ(r, Report)
OFF(s_fov, Sensor, fov) OFF(s_pv, Sensor, pv) OFF(s_lambdaB, Sensor, lambdaB) OFF(s_pD, Sensor, pD_) OFF(s_kappa, Sensor, kappa_) SIZ(s, Sensor)
OFF(pdf_params, PDF, params) OFF(pdf_c, PDF, c) OFF(pdf_bbox, PDF, bbox) OFF(pdf_aabbox, PDF, aabbox) OFF(pdf_eta, PDF, eta) OFF(pdf_origin, PDF, origin) SIZ(pdf, PDF)
OFF(p_w_lim, Params, w_lim) OFF(p_r_lim, Params, r_lim) OFF(p_nhyp_max, Params, nhyp_max) OFF(p_rB_max, Params, rB_max) OFF(p_nstd, Params, nstd) OFF(p_cw_lim, Params, cw_lim) OFF(p_cov_lim, Params, cov_lim) OFF(p_tscale, Params, tscale) SIZ(p, Params)
OFF(t_pdf, Target, pdf) OFF(t_r, Target, r) OFF(t_params, Target, params) OFF(t_id, Target, id) OFF(t_cid, Target, cid) OFF(t_pdfs, Target, pdfs) OFF(t_is_new, Target, is_new) OFF(t_t0, Target, t0) OFF(t_action, Target, last_action) SIZ(t, Target)
OFF(k_reports, Cluster, reports) OFF(k_targets, Cluster, targets) OFF(k_id, Cluster, id) OFF(k_n, Cluster, n) OFF(k_params, Cluster, params) OFF(k_origin, Cluster, origin) SIZ(k, Cluster)
VC void d_cluster_correct(Cluster* c, Tree* t, const Sensor* s, double time) { c->correct(*t, *s, time); }
VC void d_cluster_local(Cluster* c) { c->transform_to_local(); }
VC void d_cluster_global(Cluster* c) { c->transform_to_global(); }
VC void d_center(Cluster* c, cf::LL* o) { *o = c->center_of_mass(); }
VC double d_false_target(Target* t) { return t->false_target(); }
VC bool d_viable(Target* t) { return t->viable(); }
VC void d_target_correct(Target* t, const Row* w) { t->correct(*w); }
VC void d_target_match(Target* t, const std::vector<Report*>* r, const Sensor* s, Row* c, double* m, double time) { t->match(*r, *s, *c, *m, time); }
VC void d_predict_cv(Target* t, CV<Target>* m, double a, double b) { t->predict(*m, a, b); }
VC void d_predict_nm(Target* t, NM<Target>* m, double a, double b) { t->predict(*m, a, b); }
