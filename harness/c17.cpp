// C17: box predicates against exact rational-style geometry (integer corners) and clipping
#include "bbox.hpp"
#include "hx.hpp"
using namespace hx;
using namespace lmb;
using V = Eigen::Vector2d;
using Poly = std::vector<V>;
static double area(const Poly& p) { double s = 0; for (size_t i = 0; i < p.size(); ++i) { auto& a = p[i]; auto& b = p[(i + 1) % p.size()]; s += a.x() * b.y() - a.y() * b.x(); } return s / 2; }
static double side(const V& p, const V& q, const V& c) { return (q - p).x() * (c - p).y() - (q - p).y() * (c - p).x(); }
static double overlap(Poly A, Poly B) {
    if (area(B) < 0) { std::reverse(B.begin(), B.end()); }
    for (size_t i = 0; i < B.size(); ++i) {
        V p = B[i], q = B[(i + 1) % B.size()]; Poly o;
        for (size_t k = 0; k < A.size(); ++k) { V a = A[k], b = A[(k + 1) % A.size()]; double da = side(p, q, a), db = side(p, q, b); if (da >= 0) { o.push_back(a); } if ((da > 0 && db < 0) || (da < 0 && db > 0)) { o.push_back(a + (b - a) * (da / (da - db))); } }
        A = o; if (A.empty()) { return 0; }
    }
    return std::abs(area(A));
}
// largest gap over the separating directions of the edges of both (positive: separated by that much)
static double gap(const Poly& A, const Poly& B) {
    double best = -1e300;
    for (int w = 0; w < 2; ++w) { auto& P = w ? B : A; for (size_t i = 0; i < 4; ++i) {
        V e = P[(i + 1) % 4] - P[i]; V n(-e.y(), e.x()); if (n.norm() == 0) { continue; } n /= n.norm();
        double a0 = 1e300, a1 = -1e300, b0 = 1e300, b1 = -1e300; for (auto& v : A) { a0 = std::min(a0, n.dot(v)); a1 = std::max(a1, n.dot(v)); } for (auto& v : B) { b0 = std::min(b0, n.dot(v)); b1 = std::max(b1, n.dot(v)); }
        best = std::max(best, std::max(b0 - a1, a0 - b1)); } }
    return best;
}
static Poly corners(const BBox& b) { Poly p; for (int i = 0; i < 4; ++i) { p.push_back(b.corners.col(i)); } return p; }
static BBox rect(bool grid) {
    BBox b;
    if (grid) { int a = ri(-3, 3), c = ri(-3, 3), w = ri(1, 4), h = ri(1, 4); double s = pick(std::vector<double>{1, 1, .5});
        V u(s * pick(std::vector<int>{1, 0, 1, 2}), s), v(-u.y(), u.x()); V o(a, c); if (chance(.5)) { u = V(1, 0); v = V(0, 1); }
        b.corners << o, o + w * u, o + w * u + h * v, o + h * v; }
    else { double t = uni(0, 7); V u(std::cos(t), std::sin(t)), v(-u.y(), u.x()); double r1 = logu(.05, 20), r2 = logu(.05, 20); V c(normal() * 4, normal() * 4); b.corners << c + r1 * u + r2 * v, c - r1 * u + r2 * v, c - r1 * u - r2 * v, c + r1 * u - r2 * v; }
    if (chance(.3)) { b.corners = b.corners.rowwise().reverse().eval(); }
    if (chance(.3)) { typename BBox::Corners t = b.corners; int k = ri(1, 3); for (int i = 0; i < 4; ++i) { b.corners.col(i) = t.col((i + k) % 4); } }
    return b;
}
// random convex quadrilateral: four points on an ellipse
static BBox quad() {
    BBox b; std::vector<double> t; for (int i = 0; i < 4; ++i) { t.push_back(uni(0, 2 * M_PI)); } std::sort(t.begin(), t.end());
    V c(normal() * 3, normal() * 3); double r1 = logu(.2, 8), r2 = logu(.2, 8);
    for (int i = 0; i < 4; ++i) { b.corners.col(i) = c + V(r1 * std::cos(t[i]), r2 * std::sin(t[i])); }
    if (chance(.3)) { b.corners = b.corners.rowwise().reverse().eval(); }
    return b;
}
static void oriented(long) {
    bool grid = chance(.4);
    BBox a = grid ? rect(true) : chance(.5) ? rect(false) : quad(), b = grid ? rect(true) : chance(.5) ? rect(false) : quad();
    if (chance(.1)) { b = a; }
    note("a ", str(a.corners), " b ", str(b.corners));
    Poly A = corners(a), B = corners(b); double sc = std::max(a.corners.cwiseAbs().maxCoeff(), b.corners.cwiseAbs().maxCoeff());
    bool x = a.intersects(b), y = b.intersects(a); require(x == y, "the answer depends on the argument order: ", x, " ", y);
    double g = gap(A, B), o = overlap(A, B);
    if (o > 1e-9 * sc * sc) { require(x, "boxes overlap in an area of ", o, " but are reported disjoint"); }
    if (g > 1e-9 * sc) { require(!x, "boxes are separated by ", g, " but are reported as intersecting"); }
    interesting = o > 0 || g > 0;
    AABBox h = a.aabbox();
    for (int k = 0; k < 2; ++k) { require(h.min[k] == a.corners.row(k).minCoeff() && h.max[k] == a.corners.row(k).maxCoeff(), "hull of the corners"); }
    AABBox bb = b.aabbox(); bool hi = !(bb.min[0] > h.max[0] || bb.max[0] < h.min[0] || bb.min[1] > h.max[1] || bb.max[1] < h.min[1]);
    require(a.intersects(bb) == hi, "intersection with an axis-aligned box");
}
static void containment(long) {
    bool grid = chance(.4); BBox a = grid ? rect(true) : chance(.5) ? rect(false) : quad(); Poly A = corners(a); if (area(A) < 0) { std::reverse(A.begin(), A.end()); }
    double sc = a.corners.cwiseAbs().maxCoeff() + 1;
    if (area(A) < 1e-6) { return; }
    note("box ", str(a.corners));
    for (int k = 0; k < 20; ++k) {
        V p; if (grid) { p = V(ri(-20, 20) * .25, ri(-20, 20) * .25); } else if (chance(.5)) { double s = 0; p.setZero(); for (auto& v : A) { double w = uni(); s += w; p += w * v; } p /= s; } else { AABBox h = a.aabbox(); p = V(uni(h.min[0] - 1, h.max[0] + 1), uni(h.min[1] - 1, h.max[1] + 1)); }
        double in = 1e300; for (int i = 0; i < 4; ++i) { V q = A[(i + 1) % 4] - A[i]; in = std::min(in, side(A[i], A[(i + 1) % 4], p) / std::max(q.norm(), 1e-12)); }
        bool w = a.within(p);
        if (in > 1e-9 * sc) { require(w, "interior point ", str(p.transpose()), " at depth ", in, " is not contained"); interesting = true; }
        if (in < -1e-9 * sc) { require(!w, "exterior point ", str(p.transpose()), " at distance ", -in, " is contained"); interesting = true; }
        Eigen::Vector4d p4(p[0], p[1], 5, 6); require(a.within(p4) == w, "state instead of point");
    }
}
static void aligned(long) {
    auto c = [] { return chance(.5) ? static_cast<double>(ri(-4, 4)) : uni(-4, 4); };
    double x1 = c(), y1 = c(), x2 = c(), y2 = c(), u1 = c(), v1 = c(), u2 = c(), v2 = c(); if (chance(.1)) { u2 = u1; v2 = v1; }
    note(x1, " ", y1, " ", x2, " ", y2, " / ", u1, " ", v1, " ", u2, " ", v2);
    AABBox a(x1, y1, x2, y2), b(u1, v1, u2, v2);
    require(a.min[0] == std::min(x1, x2) && a.max[0] == std::max(x1, x2) && a.min[1] == std::min(y1, y2) && a.max[1] == std::max(y1, y2), "corner order");
    // they share a point exactly when the intervals overlap on both axes
    bool e = std::max(a.min[0], b.min[0]) <= std::min(a.max[0], b.max[0]) && std::max(a.min[1], b.min[1]) <= std::min(a.max[1], b.max[1]);
    require(a.intersects(b) == e && b.intersects(a) == e, "intersection of axis-aligned boxes should be ", e);
    for (int k = 0; k < 6; ++k) { V p(c(), c()); if (chance(.3)) { p[0] = a.min[0]; } if (chance(.3)) { p[1] = a.max[1]; } bool w = p[0] >= a.min[0] && p[0] <= a.max[0] && p[1] >= a.min[1] && p[1] <= a.max[1]; require(a.within(p) == w, "containment of ", str(p.transpose())); }
    AABBox copy(a), assigned; assigned = a; require(copy.min == a.min && copy.max == a.max && assigned.min == a.min && assigned.max == a.max, "copies");
    BBox q(a); AABBox h = q.aabbox(); require(h.min == a.min && h.max == a.max, "box from an axis-aligned box");
    if (x1 != x2 && y1 != y2) { for (int k = 0; k < 4; ++k) { V p(uni(a.min[0], a.max[0]), uni(a.min[1], a.max[1])); require(q.within(p), "interior point of the converted box"); V o(a.max[0] + uni(.01, 2), p[1]); require(!q.within(o), "exterior point of the converted box"); } }
    Eigen::Matrix<double, 2, Eigen::Dynamic> pts(2, ri(1, 6)); for (int k = 0; k < pts.cols(); ++k) { pts.col(k) = V(c(), c()); }
    AABBox f; f.from_points(pts); for (int k = 0; k < 2; ++k) { require(f.min[k] == pts.row(k).minCoeff() && f.max[k] == pts.row(k).maxCoeff(), "hull of points"); }
    interesting = e;
}
int main(int argc, char** argv) { return hx::main(argc, argv, {{"oriented", 150000, oriented, 20}, {"containment", 30000, containment, 20}, {"aligned", 60000, aligned, 20}}); }
