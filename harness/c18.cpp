// C18: queries change nothing; summaries own their data
#include "track.hpp"
using namespace hx;
struct Snap { std::string s; std::vector<std::vector<Target*>> q; };
template<typename T> static void put(std::string& s, const T& v) { s.append(reinterpret_cast<const char*>(&v), sizeof v); }
static void putpdf(std::string& s, const PDF& p) {
    for (auto& g : p.c) { for (int i = 0; i < 4; ++i) { put(s, g.x[i]); for (int j = 0; j < 4; ++j) { put(s, g.P(i, j)); } } put(s, g.w); }
    for (int i = 0; i < 8; ++i) { put(s, p.bbox.corners.data()[i]); }
    put(s, p.aabbox.min); put(s, p.aabbox.max); put(s, p.params);
}
static Snap snapshot(Tracker& t, const std::vector<AABBox>& regions) {
    Snap o; std::string& s = o.s;
    put(s, t.targettree.targets.size()); put(s, t.targettree.id_counter); put(s, t.nof_clusters);
    for (auto& v : {t.cluster_ntargets, t.cluster_nreports, t.cluster_nhyps}) { put(s, v.size()); for (int x : v) { put(s, x); } }
    for (auto x : t.targettree.targets) {
        put(s, x); put(s, x->id); put(s, x->cid); put(s, x->r); put(s, x->is_new); put(s, x->t0); put(s, x->last_action); put(s, x->params);
        put(s, x->pdf.c.size()); putpdf(s, x->pdf);
    }
    for (auto& r : regions) { o.q.push_back(t.targettree.query(r)); }
    return o;
}
static Sensor::Scan scan_at(const cf::LL& o, double spread, double kappa) {
    Sensor::Scan s; for (int k = ri(0, 4); k > 0; --k) { s.push_back(report(o, uni(-spread, spread), uni(-spread, spread), spd<2>(.5, 10), kappa)); } return s;
}
static std::string query(Tracker& t, const cf::LL& o, int kind, const AABBox& box, bool keep = true) {
    std::ostringstream r; r.precision(17);
    Tracker::TargetStates truth; for (int k = 0; k < 3; ++k) { Vec4 x; cf::LL l = at(o, 10 * k, -5 * k); x << l, 1, 2; truth.push_back(x); }
    switch (kind) {
        case 0: r << t.enof_targets(); break;
        case 1: r << t.enof_targets(box); break;
        case 2: r << t.nof_targets(.4); break;
        case 3: r << t.nof_targets(box, .4); break;
        case 4: for (auto& x : t.get_targets()) { r << x.id << " " << x.cid << " " << x.r << " " << str(x.x) << str(x.P); } break;
        case 5: for (auto& x : t.get_targets(box)) { r << x.id << " " << x.cid << " " << x.r << " " << str(x.x) << str(x.P); } break;
        case 6: { lmb::gen.seed(9); lmb::ndist.reset(); Eigen::Array2i n(4, 6); r << str(t.pos_phd(box, n)); break; }
        case 7: r << t.ospa(truth, 50, 2); break;
        case 8: r << t.ospa(truth, at(o, 500, -700), 50, 1); break;
        case 9: r << t.gospa(truth, 50, 2); break;
        case 10: r << t.gospa(truth, at(o, -1500, 900), 50, 1); break;
        case 11: r << show(t); break;
        case 12: { lmb::gen.seed(9); lmb::ndist.reset(); AABBox far(o[0] - .4, o[1] - .4, o[0] + .5, o[1] + .2); Eigen::Array2i n(3, 3); r << str(t.pos_phd(far, n)); break; }
        case 13: { Tracker::TargetStates none; r << t.ospa(none, o, 10, 2) << " " << t.gospa(none, o, 10, 2); break; }
    }
    return r.str();
}
static const char* names[] = {"enof_targets()", "enof_targets(region)", "nof_targets()", "nof_targets(region)", "get_targets()", "get_targets(region)", "pos_phd", "ospa", "ospa(origin)", "gospa", "gospa(origin)", "repr", "pos_phd(large)", "metrics without truth"};
static void frame(long) {
    cf::LL o = random_origin(); Params p; p.r_lim = 1e-3; p.cov_lim = 1e6; p.w_lim = .05; Tracker t(p); double spread = pick(std::vector<double>{20, 200}), time = 0; lmb::gen.seed(rng());
    t.nof_clusters = 0;
    for (int i = ri(0, 3); i > 0; --i) { t.targettree.new_target(uni(.1, 1), mixture(&t.params, o, shifted(random_comps(ri(1, 4), 10, .5, 20), uni(-spread, spread), uni(-spread, spread)))); }
    std::vector<AABBox> regions{AABBox(o[0] - 1, o[1] - 1, o[0] + 1, o[1] + 1)};
    for (int k = 0; k < 4; ++k) { cf::LL a = at(o, uni(-spread, spread), uni(-spread, spread)), b = at(o, uni(-spread, spread), uni(-spread, spread)); regions.emplace_back(a[0], a[1], b[0], b[1]); }
    note("origin ", str(o)); for (auto x : t.targettree.targets) { note(show(*x)); }
    for (int s = 0; s < 12; ++s) {
        int k = ri(0, 13); AABBox box = pick(regions);
        Snap a = snapshot(t, regions); std::string r1 = query(t, o, k, box); Snap b = snapshot(t, regions);
        require(a.s == b.s, names[k], " changed a target or the tracker"); require(a.q == b.q, names[k], " changed the spatial index");
        int k2 = ri(0, 13); query(t, o, k2, pick(regions));
        std::string r2 = query(t, o, k, box); require(r1 == r2, names[k], " gives a different answer when repeated: ", r1, " / ", r2);
        if (!t.targettree.targets.empty()) { interesting = true; }
        if (chance(.3)) { CV<Target> m(.99, .1); t.predict(m, time + 1, time); time += 1; note("predict"); }
        else if (chance(.3)) { Sensor sn; sn.fov = region(o, .2); sn.lambdaB = 1; sn.pD_ = .9; sn.kappa_ = .01; auto z = scan_at(o, spread, .01); for (auto& x : z) { note(showz(x)); } t.correct(sn, z, time); }
        if (t.targettree.targets.size() > 10) { break; }
    }
}
// the same history with and without queries in between
static void twins(long) {
    cf::LL o = random_origin(); Params p; p.r_lim = 1e-3; p.cov_lim = 1e6; Tracker a(p), b(p); std::vector<AABBox> regions{AABBox(o[0] - .3, o[1] - .3, o[0] + .3, o[1] + .3)};
    // well separated targets, one report each: clusters of one, so that no order of targets matters
    int n = ri(1, 3); std::vector<Vec2> pos;
    for (int i = 0; i < n; ++i) { Vec2 c(2000 * i + uni(0, 100), uni(-100, 100)); pos.push_back(c); auto cs = shifted(random_comps(ri(1, 3), 5, .5, 20), c[0], c[1]); double r = uni(.3, 1); a.targettree.new_target(r, mixture(&a.params, o, cs)); b.targettree.new_target(r, mixture(&b.params, o, cs)); }
    for (int s = 0; s < 8; ++s) {
        for (int q = ri(0, 3); q > 0; --q) { query(b, o, ri(0, 13), regions[0]); }
        if (chance(.5)) { CV<Target> m(.99, .1); a.predict(m, s + 1, s); b.predict(m, s + 1, s); }
        else { Sensor sn; sn.fov = region(o, .5); sn.lambdaB = 0; sn.pD_ = .9; sn.kappa_ = .01; Sensor::Scan z; for (auto& c : pos) { if (chance(.8)) { z.push_back(report(o, c[0] + normal(), c[1] + normal(), spd<2>(.5, 5), .01)); } } auto z2 = z;
            lmb::gen.seed(s); lmb::ndist.reset(); a.correct(sn, z, s); lmb::gen.seed(s); lmb::ndist.reset(); b.correct(sn, z2, s); }
        auto x = a.get_targets(), y = b.get_targets(); require(x.size() == y.size(), "number of targets differs after queries");
        for (size_t i = 0; i < x.size(); ++i) { require(x[i].id == y[i].id, "ids differ after queries"); near(x[i].r, y[i].r, 1e-9, "existence differs after queries"); mnear(x[i].x, y[i].x, 1e-9, "state differs after queries"); mnear(x[i].P, y[i].P, 1e-9, "covariance differs after queries"); interesting = true; }
    }
}
static void summaries(long) {
    cf::LL o = random_origin(); Params p; Tracker* t = new Tracker(p); int n = ri(1, 5);
    for (int i = 0; i < n; ++i) { t->targettree.new_target(uni(.1, 1), mixture(&t->params, o, random_comps(ri(1, 3), 10, .5, 20)))->cid = ri(0, 9); }
    auto l = t->get_targets(); std::vector<double> r; std::vector<unsigned> id, cid; std::vector<Vec4> xs; std::vector<Mat4> Ps;
    for (auto x : t->targettree.targets) { r.push_back(x->r); id.push_back(x->id); cid.push_back(x->cid); xs.push_back(x->pdf.mean()); Ps.push_back(x->pdf.cov()); }
    auto same = [&](const Tracker::TargetSummaries& m, const char* what) {
        require(m.size() == r.size(), what, ": size");
        for (size_t i = 0; i < m.size(); ++i) { require(&m[i].r == &m[i].w, what, ": r refers to another object"); require(m[i].r == r[i] && m[i].id == id[i] && m[i].cid == cid[i] && m[i].x == xs[i] && m[i].P == Ps[i], what, ": values of entry ", i); }
    };
    same(l, "list");
    Tracker::TargetSummaries copy(l), grown; for (auto& x : l) { grown.push_back(x); } for (int k = 0; k < 3; ++k) { grown.reserve(grown.capacity() * 2 + 1); }
    Tracker::TargetSummaries moved(std::move(l));
    for (auto x : t->targettree.targets) { x->r = -5; x->pdf.c[0].x.setZero(); }
    delete t; std::vector<std::vector<char>> junk; for (int k = 0; k < 50; ++k) { junk.emplace_back(ri(10, 2000), 'x'); }
    same(copy, "copied list"); same(grown, "stored list"); same(moved, "moved list");
    if (copy.size() > 0) { auto one = copy[0]; copy[0].w = -1; require(one.r == r[0] && &one.r == &one.w, "single copy"); one.r = .125; require(one.w == .125, "assigning r"); }
    copy.clear(); same(grown, "stored list after the original is gone"); interesting = true;
}
int main(int argc, char** argv) { return hx::main(argc, argv, {{"frame", 250, frame, 60}, {"twins", 150, twins, 60}, {"summaries", 500, summaries, 20}}); }
