// C22: samples
#include "track.hpp"
using namespace hx;
static void reseed(unsigned s) { lmb::gen.seed(s); lmb::ndist.reset(); }
template<int N> static void gaussian_case() {
    using V = Eigen::Matrix<double, N, 1>; using M = Eigen::Matrix<double, N, N>;
    V mu; for (int i = 0; i < N; ++i) { mu[i] = uni(-100, 100); } M P = spd<N>(1e-3, 50);
    if (chance(.25)) { V a; for (int i = 0; i < N; ++i) { a[i] = normal() * 3; } P = a * a.transpose(); } else if (chance(.1)) { P.setZero(); } else if (chance(.2)) { P = V::Constant(2.5).asDiagonal(); }
    note("mean ", str(mu.transpose()), " P ", str(P));
    const int K = 3000; double sc = std::sqrt(P.cwiseAbs().maxCoeff());
    Eigen::Matrix<double, N, Eigen::Dynamic> X(N, K); X.setConstant(1e77); unsigned sd = rng() & 0xffffff;
    reseed(sd); nrand(X, mu, P);
    for (int k = 0; k < K; ++k) { for (int i = 0; i < N; ++i) { require(std::isfinite(X(i, k)) && X(i, k) != 1e77, "column ", k, " is not filled"); } }
    V m = X.rowwise().mean(); M C = (X.colwise() - mu) * (X.colwise() - mu).transpose() / K;
    for (int i = 0; i < N; ++i) { near(m[i], mu[i], 6.5 * std::sqrt(P(i, i) / K) + 1e-6 * sc + 1e-10, "sample mean ", i); for (int j = 0; j < N; ++j) { near(C(i, j), P(i, j), 7 * std::sqrt((P(i, i) * P(j, j) + P(i, j) * P(i, j)) / K) + 1e-6 * sc * sc + 1e-12, "sample covariance ", i, ",", j); } }
    // successive samples are independent
    M L; L.setZero(); for (int k = 0; k + 1 < K; ++k) { L += (X.col(k) - mu) * (X.col(k + 1) - mu).transpose() / K; } for (int i = 0; i < N; ++i) { for (int j = 0; j < N; ++j) { near(L(i, j), 0, 7 * std::sqrt(P(i, i) * P(j, j) / K) + 1e-6 * sc * sc + 1e-12, "correlation of successive samples"); } }
    if (sc > 0) { for (int k = 1; k < 50; ++k) { require(X.col(k) != X.col(k - 1), "the same draw in two samples"); } }
    // exact linear image: fit the map to the draws in generation order, when they are consumed in that order
    reseed(sd); Eigen::Matrix<double, N, Eigen::Dynamic> Z(N, K); for (int k = 0; k < K; ++k) { for (int i = 0; i < N; ++i) { Z(i, k) = lmb::nrand(); } }
    M T = ((X.colwise() - mu) * Z.transpose()) * (Z * Z.transpose()).inverse(); double rs = ((X.colwise() - mu) - T * Z).cwiseAbs().maxCoeff();
    if (rs <= 1e-8 * (sc + 1e-3) + 1e-9) { mnear((T * T.transpose()).eval(), P, 1e-7 * sc * sc + 1e-12, "square of the linear map"); interesting = true; }
}
static void two(long) { gaussian_case<2>(); }
static void four(long) { gaussian_case<4>(); }
static void mixture_case(long) {
    static Params p; PDF m(&p); int n = pick(std::vector<int>{1, 1, 2, 3, 5, 17, 60}), cols = pick(std::vector<int>{0, 1, 2, 3, 10, 37, 100, 1000}); double s = 0;
    for (int i = 0; i < n; ++i) { G4 g; g.x << 1000 * i, -1000 * i, 5 * i, -i; g.P = spd<4>(.01, 20); g.w = chance(.2) ? 1e-5 : uni(); s += g.w; m.c.push_back(g); } for (auto& g : m.c) { g.w /= s; }
    bool pos = chance(.5); int D = pos ? 2 : 4; note("columns ", cols, pos ? " positions" : " states", " of ", show(m).substr(0, 3000));
    std::vector<double> buf(D * (cols + 20), 1e55); std::vector<int> got(n, 0);
    auto see = [&](double x, double y, int k) { require(std::isfinite(x) && x < 1e50, "column ", k, " is not filled"); int i = static_cast<int>(std::lround(x / 1000)); require(i >= 0 && i < n && std::abs(x - 1000 * i) < 60 && std::abs(y + 1000 * i) < 60, "column ", k, " is not a sample of any component: ", x, " ", y); ++got[i]; };
    if (pos) { Eigen::Map<Eigen::Array<double, 2, Eigen::Dynamic>> q(buf.data() + 20, 2, cols); Eigen::Matrix<double, 2, Eigen::Dynamic> X(2, cols); X.setConstant(1e55); m.sample_pos(X); q = X.array();
        Eigen::Array<double, 2, Eigen::Dynamic> Y(2, cols); Y.setConstant(1e55); m.sample_pos(Y); for (int k = 0; k < cols; ++k) { require(Y(0, k) < 1e50 && Y(1, k) < 1e50, "array column ", k, " is not filled"); }
        for (int k = 0; k < cols; ++k) { see(X(0, k), X(1, k), k); } }
    else { Eigen::Matrix<double, 4, Eigen::Dynamic> X(4, cols); X.setConstant(1e55); m.sample(X); for (int k = 0; k < cols; ++k) { see(X(0, k), X(1, k), k); require(X(2, k) < 1e50 && X(3, k) < 1e50, "velocity of column ", k, " is not filled"); } }
    int tot = 0; for (int i = 0; i < n; ++i) { require(std::abs(got[i] - m.c[i].w * cols) <= 2.0, "component ", i, " of weight ", m.c[i].w, " gets ", got[i], " of ", cols, " columns"); tot += got[i]; }
    require(tot == cols, "columns"); interesting = n > 1 && cols > 1;
}
// positions and states of one Gaussian, drawn through the component and through a mixture
static void views(long) {
    static Params p; G4 g; for (int i = 0; i < 4; ++i) { g.x[i] = uni(-50, 50); } g.P = spd<4>(.01, 50); g.w = 1; PDF m(&p); m.c.push_back(g); int how = ri(0, 3); const int K = 3000; int D = how < 2 ? 4 : 2;
    note(how == 0 ? "component states" : how == 1 ? "mixture states" : how == 2 ? "component positions" : "mixture positions", " of ", str(g.x.transpose()), " ", str(g.P));
    Eigen::MatrixXd Z(D, K); reseed(rng() & 0xffffff);
    if (D == 4) { Eigen::Matrix<double, 4, Eigen::Dynamic> X(4, K); X.setConstant(1e77); if (how == 0) { g.sample(X); } else { m.sample(X); } Z = X; }
    else { Eigen::Matrix<double, 2, Eigen::Dynamic> X(2, K); X.setConstant(1e77); if (how == 2) { g.sample_pos(X); } else { m.sample_pos(X); } Z = X; }
    for (int i = 0; i < D; ++i) { near(Z.row(i).mean(), g.x[i], 6.5 * std::sqrt(g.P(i, i) / K) + 1e-6, "sample mean ", i);
        for (int j = 0; j < D; ++j) { double c = ((Z.row(i).array() - g.x[i]) * (Z.row(j).array() - g.x[j])).mean(); near(c, g.P(i, j), 7 * std::sqrt((g.P(i, i) * g.P(j, j) + g.P(i, j) * g.P(i, j)) / K) + 1e-5, "sample covariance ", i, ",", j); } }
    interesting = true;
}
// a block of a larger matrix: nothing else is written
static void block(long) {
    G4 g; g.x << 1, 2, 3, 4; g.P = spd<4>(.1, 5); Eigen::Matrix<double, 4, Eigen::Dynamic> X(4, 30); X.setConstant(-3e30); int a = ri(0, 10), k = ri(0, 15); auto b = X.block(0, a, 4, k); g.sample(b);
    for (int c = 0; c < 30; ++c) { for (int i = 0; i < 4; ++i) { require((X(i, c) != -3e30) == (c >= a && c < a + k), "column ", c, " when sampling columns ", a, " to ", a + k); } }
    Eigen::Matrix<double, 2, Eigen::Dynamic> Y(2, 30); Y.setConstant(-3e30); auto q = Y.block(0, a, 2, k); g.sample_pos(q);
    for (int c = 0; c < 30; ++c) { for (int i = 0; i < 2; ++i) { require((Y(i, c) != -3e30) == (c >= a && c < a + k), "position column ", c); } } interesting = k > 0;
    double s = 0, s2 = 0, u = 0; const int K = 4000; for (int i = 0; i < K; ++i) { double x = lmb::nrand(); s += x; s2 += x * x; double y = lmb::urand(); require(y >= 0 && y < 1, "uniform draw ", y); u += y; }
    near(s / K, 0, 7 / std::sqrt(K), "mean of the normal draws"); near(s2 / K, 1, 7 * std::sqrt(2.0 / K), "variance of the normal draws"); near(u / K, .5, 7 / std::sqrt(12.0 * K), "mean of the uniform draws");
}
int main(int argc, char** argv) { return hx::main(argc, argv, {{"two", 300, two, 20}, {"four", 300, four, 20}, {"mixture", 1500, mixture_case, 20}, {"views", 400, views, 20}, {"block", 300, block, 20}}); }
