#include "common.hpp"
#include "gm.hpp"
#include "lmb.hpp"
using namespace lmb;
using PDF = GM<4, 10>;
using G = Gaussian_<4>;
using Row = Eigen::Matrix<double, 1, Eigen::Dynamic>;
OFF(g_x, G, x) OFF(g_P, G, P) OFF(g_w, G, w) SIZ(g, G)
OFF(pdf_params, PDF, params) OFF(pdf_c, PDF, c) OFF(pdf_bbox, PDF, bbox) OFF(pdf_aabbox, PDF, aabbox) OFF(pdf_eta, PDF, eta) OFF(pdf_origin, PDF, origin) SIZ(pdf, PDF)
OFF(p_w_lim, Params, w_lim) OFF(p_r_lim, Params, r_lim) OFF(p_nhyp_max, Params, nhyp_max) OFF(p_rB_max, Params, rB_max) OFF(p_nstd, Params, nstd) OFF(p_cw_lim, Params, cw_lim) OFF(p_cov_lim, Params, cov_lim) OFF(p_tscale, Params, tscale) SIZ(p, Params)
VC void d_prune(PDF* a) { a->prune(); }
VC void d_addto(PDF* a, PDF* b) { *a += *b; }
VC void d_add(const PDF* a, PDF* b, PDF* r) { new (r) PDF(*a + *b); }
VC void d_join(PDF* a, const Row* w, std::vector<PDF>* p) { PDF::join(*a, *w, *p); }
VC void d_normalize(PDF* a) { a->normalize(); }
VC bool d_less(const G* a, const G* b) { return *a < *b; }
