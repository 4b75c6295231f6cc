#include "common.hpp"
#include "rlapjv.h"
using NotInf = Eigen::Array<bool, Eigen::Dynamic, Eigen::Dynamic>;
VC double d_rlap(int rows, int cols, const double* c, int* rowsol, int* colsol, double* u, double* v) {
    return lap::rlap<int, double>(rows, cols, c, false, rowsol, colsol, u, v);
}
VC bool d_match(const NotInf& notinf, int row, std::vector<int>& matched, std::vector<char>& seen) {
    return lap::match_row(notinf, row, matched, seen);
}
VC bool d_lap(const lap::CostMatrix& C, lap::Assignment& x, lap::Dual& u, lap::Dual& v) { return lap::lap(C, x, u, v); }
VC double d_cost(lap::CostMatrix& C, const lap::Assignment& x) { return lap::cost(C, x); }
