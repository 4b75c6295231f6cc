// C20: counts and lists
#include "track.hpp"
using namespace hx;
static void counts(long) {
    cf::LL o = random_origin(); Params p; Tracker t(p); double spread = pick(std::vector<double>{30, 500, 20000}), lim = pick(std::vector<double>{.7, .5, .25, 0, 1, .7});
    int n = pick(std::vector<int>{0, 1, 2, 5, 12, 40, 120});
    for (int i = 0; i < n; ++i) { auto x = t.targettree.new_target(chance(.3) ? lim : chance(.2) ? std::nextafter(lim, chance(.5) ? 2 : -1) : uni(), mixture(&t.params, o, shifted(random_comps(ri(1, 3), 5, .5, 20), uni(-spread, spread), uni(-spread, spread)))); x->cid = ri(0, 1000); }
    // some histories of removals and moves, as the tracker does them
    for (int k = ri(0, n / 3); k > 0; --k) { Target* x = pick(t.targettree.targets); if (chance(.5)) { t.targettree.remove(x); t.targettree.erase(x); } else { t.targettree.remove(x); x->pdf = mixture(&t.params, o, shifted(random_comps(2, 5, .5, 20), uni(-spread, spread), uni(-spread, spread))); t.targettree.replace(x); } }
    auto& ts = t.targettree.targets; note("limit ", lim); for (auto x : ts) { if (input.tellp() < 4000) { note(x->id, " r ", x->r, " box ", x->llaabbox().min[0], " ", x->llaabbox().min[1], " ", x->llaabbox().max[0], " ", x->llaabbox().max[1]); } }
    double s = 0; unsigned c = 0; for (auto x : ts) { s += x->r; c += x->r >= lim; }
    near(t.enof_targets(), s, 1e-12 * (1 + s), "expected number"); require(t.nof_targets(lim) == c, "number at the limit: ", t.nof_targets(lim), " instead of ", c);
    c = 0; for (auto x : ts) { c += x->r >= .7; } require(t.nof_targets() == c, "number at the default limit");
    auto check = [&](const Tracker::TargetSummaries& l, const std::vector<Target*>& want, const char* what) {
        require(l.size() == want.size(), what, ": ", l.size(), " entries instead of ", want.size());
        std::map<unsigned, Target*> by; for (auto x : want) { by[x->id] = x; } std::set<unsigned> seen;
        for (auto& e : l) { require(by.count(e.id) && seen.insert(e.id).second, what, ": unexpected or repeated id ", e.id); Target* x = by[e.id]; require(e.r == x->r && e.w == x->r && e.cid == x->cid, what, ": existence or cluster of ", e.id); mnear(e.x, x->pdf.mean(), 0, what, ": mean"); mnear(e.P, x->pdf.cov(), 0, what, ": covariance"); }
    };
    check(t.get_targets(), ts, "list");
    for (int k = 0; k < 8; ++k) {
        AABBox b(0, 0, 0, 0); cf::LL u = at(o, uni(-spread, spread), uni(-spread, spread)), v = at(o, uni(-spread, spread), uni(-spread, spread)); b = AABBox(u[0], u[1], v[0], v[1]);
        if (k == 0) { b = AABBox(o[0] - 2, o[1] - 2, o[0] + 2, o[1] + 2); }
        if (k == 1) { b = AABBox(-89, -179, -88.5, -178.5); }
        if (k > 5 && n) { auto q = pick(ts)->llaabbox(); b = AABBox(q.max[0], q.max[1], q.max[0] + .001, q.max[1] + .001); if (chance(.5)) { b = AABBox(q.min[0], q.min[1], q.min[0], q.min[1]); } }   // touching corner
        std::vector<Target*> want; double e = 0; unsigned m = 0, m7 = 0;
        for (auto x : ts) { auto q = x->llaabbox(); if (q.min[0] <= b.max[0] && b.min[0] <= q.max[0] && q.min[1] <= b.max[1] && b.min[1] <= q.max[1]) { want.push_back(x); e += x->r; m += x->r >= lim; m7 += x->r >= .7; } }
        note("region ", b.min[0], " ", b.min[1], " ", b.max[0], " ", b.max[1]);
        check(t.get_targets(b), want, "list of a region"); near(t.enof_targets(b), e, 1e-12 * (1 + e), "expected number in a region"); require(t.nof_targets(b, lim) == m, "number in a region: ", t.nof_targets(b, lim), " instead of ", m); require(t.nof_targets(b) == m7, "number in a region, default limit");
        if (!want.empty() && want.size() < ts.size()) { interesting = true; }
    }
}
int main(int argc, char** argv) { return hx::main(argc, argv, {{"counts", 1500, counts, 30}}); }
