#include "common.hpp"
#include "gm.hpp"
#include "lmb.hpp"
#include "models.hpp"
using namespace lmb;
using PDF = GM<4, 10>;
using G = Gaussian_<4>;
using Target = Target_<PDF>;
using Sensor = PositionSensor<Target>;
using Report = GaussianReport_<2>;
using Tree = TargetTree_<PDF>;
using Cluster = Cluster_<Report, Target>;
using Tracker = SILMB<PDF>;
using Summary = TargetSummary_<4>;
using States = std::vector<Eigen::Vector4d>;
OFF(g_x, G, x) OFF(g_P, G, P) OFF(g_w, G, w) SIZ(g, G)
OFF(r_x, Report, x) OFF(r_P, Report, P) OFF(r_kappa, Report, kappa) OFF(r_rB, Report, rB) OFF(r_cid, Report, cid) SIZ(r, Report)
OFF(s_fov, Sensor, fov) OFF(s_pv, Sensor, pv) OFF(s_lambdaB, Sensor, lambdaB) OFF(s_pD, Sensor, pD_) OFF(s_kappa, Sensor, kappa_) SIZ(s, Sensor)
OFF(pdf_params, PDF, params) OFF(pdf_c, PDF, c) OFF(pdf_bbox, PDF, bbox) OFF(pdf_aabbox, PDF, aabbox) OFF(pdf_eta, PDF, eta) OFF(pdf_origin, PDF, origin) SIZ(pdf, PDF)
OFF(p_w_lim, Params, w_lim) OFF(p_r_lim, Params, r_lim) OFF(p_nhyp_max, Params, nhyp_max) OFF(p_rB_max, Params, rB_max) OFF(p_nstd, Params, nstd) OFF(p_cw_lim, Params, cw_lim) OFF(p_cov_lim, Params, cov_lim) OFF(p_tscale, Params, tscale) SIZ(p, Params)
OFF(t_pdf, Target, pdf) OFF(t_r, Target, r) OFF(t_params, Target, params) OFF(t_id, Target, id) OFF(t_cid, Target, cid) OFF(t_pdfs, Target, pdfs) OFF(t_is_new, Target, is_new) OFF(t_t0, Target, t0) OFF(t_action, Target, last_action) SIZ(t, Target)
OFF(k_reports, Cluster, reports) OFF(k_targets, Cluster, targets) OFF(k_id, Cluster, id) OFF(k_n, Cluster, n) OFF(k_params, Cluster, params) OFF(k_origin, Cluster, origin) SIZ(k, Cluster)
OFF(tree_targets, Tree, targets) OFF(tree_tree, Tree, tree) OFF(tree_idc, Tree, id_counter) OFF(tree_params, Tree, params) SIZ(tree, Tree)
OFF(tr_params, Tracker, params) OFF(tr_tree, Tracker, targettree) OFF(tr_nc, Tracker, nof_clusters) OFF(tr_ct, Tracker, cluster_ntargets) OFF(tr_cr, Tracker, cluster_nreports) OFF(tr_ch, Tracker, cluster_nhyps) SIZ(tr, Tracker)
OFF(u_x, Summary, x) OFF(u_P, Summary, P) OFF(u_w, Summary, w) OFF(u_r, Summary, r) OFF(u_id, Summary, id) OFF(u_cid, Summary, cid) SIZ(u, Summary)
VC double d_enof(Tracker* t) { return t->enof_targets(); }
VC double d_enof_box(Tracker* t, const AABBox* b) { return t->enof_targets(*b); }
VC unsigned d_nof(Tracker* t, double lim) { return t->nof_targets(lim); }
VC unsigned d_nof_box(Tracker* t, const AABBox* b, double lim) { return t->nof_targets(*b, lim); }
VC void d_get(Tracker* t, Tracker::TargetSummaries* out) { new (out) Tracker::TargetSummaries(t->get_targets()); }
VC void d_get_box(Tracker* t, const AABBox* b, Tracker::TargetSummaries* out) { new (out) Tracker::TargetSummaries(t->get_targets(*b)); }
VC void d_summary(Summary* out, const Eigen::Vector4d* x, const Eigen::Matrix4d* P, double w, unsigned id, unsigned cid) { new (out) Summary(*x, *P, w, id, cid); }
VC void d_summary_copy(Summary* out, const Summary* in) { new (out) Summary(*in); }
VC void d_summary_move(Summary* out, Summary* in) { new (out) Summary(std::move(*in)); }
VC void d_phd(Tracker* t, const AABBox* b, const Eigen::Array2i* n, Eigen::MatrixXd* out) { new (out) Eigen::MatrixXd(t->pos_phd(*b, *n)); }
VC double d_ospa(Tracker* t, const States* x, const cf::LL* o, double c, double p) { return t->ospa(*x, *o, c, p); }
VC double d_gospa(Tracker* t, const States* x, const cf::LL* o, double c, double p) { return t->gospa(*x, *o, c, p); }
VC double d_ospa2(Tracker* t, const States* x, double c, double p) { return t->ospa(*x, c, p); }
VC double d_gospa2(Tracker* t, const States* x, double c, double p) { return t->gospa(*x, c, p); }
VC void d_predict_cv(Tracker* t, CV<Target>* m, double a, double b) { t->predict(*m, a, b); }
VC void d_predict_nm(Tracker* t, NM<Target>* m, double a, double b) { t->predict(*m, a, b); }
VC void d_correct(Tracker* t, const Sensor* s, Sensor::Scan* z, double a) { t->correct(*s, *z, a); }
VC void d_birth(Tracker* t, const std::vector<Cluster>* c, const Sensor::Scan* z, Sensor* s, double a) { t->birth<Sensor>(*c, *z, *s, a); }
VC void d_cluster(Tracker* t, Sensor::Scan* z, Tracker::Targets* a, std::vector<Cluster>* c) { t->cluster<Sensor>(*z, *a, *c); }
VC Target* d_new_target(Tree* t, double r, PDF* p, double t0) { return t->new_target(r, std::move(*p), t0); }
VC void d_remove(Tree* t, Target* x) { t->remove(x); }
VC void d_remove_all(Tree* t) { t->remove_all(); }
VC void d_erase(Tree* t, Target* x) { t->erase(x); }
VC void d_replace(Tree* t, Target* x) { t->replace(x); }
VC void d_query(Tree* t, const AABBox* b, Tree::Targets* out) { new (out) Tree::Targets(t->query(*b)); }
VC void d_query_point(Tree* t, const cf::LL* b, Tree::Targets* out) { new (out) Tree::Targets(t->query(*b)); }
VC void d_llaabbox(Target* t, AABBox* out) { new (out) AABBox(t->llaabbox()); }
VC void d_sensor_targets(const Sensor* s, const Tree* t, Tree::Targets* out) { new (out) Tree::Targets(s->get_targets(*t)); }
VC void d_target_distance(const Target* t, const States* x, Eigen::Matrix<double, 1, Eigen::Dynamic>* o) { t->distance(*x, *o); }
VC bool d_callback(Target* t, void* r) { return rtree_callback<Target, Tree::Targets>(t, r); }
VC void d_distance_row(const Target* t, const States* x, Eigen::MatrixXd* C, int i, int n) { t->distance(*x, C->block(i, 0, 1, n)); }
VC double d_cost(Eigen::MatrixXd* C, const lap::Assignment* a) { return lap::cost(*C, *a); }
