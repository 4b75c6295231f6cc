#include "common.hpp"
#include "murty.hpp"
using lap::MurtyState;
VC void d_allbut(const lap::CostMatrix& from, lap::CostMatrix& to, unsigned row, unsigned col) { lap::allbut(from, to, row, col); }
VC void d_allbut_row(const lap::Dual& from, lap::Dual& to, unsigned row) { lap::allbut(from, to, row); }
VC void d_with(MurtyState& s, unsigned i, unsigned j, std::shared_ptr<MurtyState>& r) { r = s.partition_with(i, j); }
VC void d_without(MurtyState& s, unsigned i, unsigned j, double dual, std::shared_ptr<MurtyState>& r) { r = s.partition_without(i, j, dual); }
VC bool d_solve(MurtyState& s) { return s.solve(); }
VC void d_sort(const MurtyState& s, MurtyState::Duallist& r) { r = s.sort_by_dual(); }
VC void d_state(MurtyState& s, const lap::CostMatrix& C) { new (&s) MurtyState(C); }
VC bool d_less(const lap::MurtyStatePtr& a, const lap::MurtyStatePtr& b) { return lap::MurtyStatePtrCompare()(a, b); }
VC void d_murty(lap::Murty& m, const lap::CostMatrix& C) { new (&m) lap::Murty(C); }
VC void d_index(lap::Murty& m, const MurtyState::Duallist& l, MurtyState::Duallist::iterator p, unsigned& i, unsigned& j) { m.get_partition_index(l, p, i, j); }
VC bool d_draw(lap::Murty& m, lap::Assignment& x, double& c) { return m.draw(x, c); }
using RowDual = Eigen::Matrix<double, 1, Eigen::Dynamic>;
VC void d_allbut_col(const RowDual& from, RowDual& to, unsigned col) { lap::allbut(from, to, col); }
VC void d_child(MurtyState& s, const MurtyState* p) { new (&s) MurtyState(p); }
VC void d_remove(MurtyState& s, unsigned i, unsigned j, double dual) { s.remove(i, j, dual); }
OFF(m_C, MurtyState, C)
OFF(m_u, MurtyState, u)
OFF(m_v, MurtyState, v)
OFF(m_cost, MurtyState, cost)
OFF(m_boundcost, MurtyState, boundcost)
OFF(m_solved, MurtyState, solved)
OFF(m_solution, MurtyState, solution)
OFF(m_res, MurtyState, res)
OFF(m_rmap, MurtyState, rmap)
OFF(m_cmap, MurtyState, cmap)
SIZ(m, MurtyState)
