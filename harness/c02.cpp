// C02: registry and index hold the same targets, ids are unique for life
#include "track.hpp"
using namespace hx;

static bool touches(const AABBox& a, const AABBox& b) {
    return a.min[0] <= b.max[0] && b.min[0] <= a.max[0] && a.min[1] <= b.max[1] && b.min[1] <= a.max[1];
}
struct Life { std::set<unsigned> seen; std::map<Target*, unsigned> live; };

static void check(Tracker& t, Life& l, const cf::LL& o, const std::string& when) {
    auto& ts = t.targettree.targets;
    std::set<Target*> regs(ts.begin(), ts.end());
    require(regs.size() == ts.size(), when, ": a target is registered twice");
    auto all = t.targettree.query(AABBox(-1e6, -1e6, 1e6, 1e6));
    std::multiset<Target*> idx(all.begin(), all.end());
    require(idx == std::multiset<Target*>(ts.begin(), ts.end()), when, ": index holds ", all.size(), " entries, registry ", ts.size(), " targets (or different ones)");
    require(t.get_targets().size() == ts.size(), when, ": target list");
    std::set<unsigned> ids; std::map<Target*, unsigned> now;
    for (auto x : ts) {
        auto b = x->llaabbox();
        std::vector<AABBox> qs{b, AABBox(b.min[0], b.min[1], b.min[0], b.min[1]), AABBox(b.max[0], b.max[1], b.max[0], b.max[1]),
                               AABBox((b.min[0] + b.max[0]) / 2, (b.min[1] + b.max[1]) / 2, (b.min[0] + b.max[0]) / 2, (b.min[1] + b.max[1]) / 2)};
        for (auto& q : qs) {
            auto r = t.targettree.query(q);
            require(std::count(r.begin(), r.end(), x) == 1, when, ": target ", x->id, " found ", std::count(r.begin(), r.end(), x), " times by a query of its own box");
        }
        require(ids.insert(x->id).second, when, ": id ", x->id, " used by two live targets");
        now[x] = x->id;
        auto it = l.live.find(x);
        if (it == l.live.end() || it->second != x->id) {
            require(l.seen.insert(x->id).second, when, ": id ", x->id, " was used before");
        }
    }
    l.live = now;
    for (int q = 0; q < 4; ++q) {
        double h = logu(1e-6, 1);
        cf::LL c = o + Vec2(uni(-.02, .02), uni(-.02, .02));
        if (!ts.empty() && chance(.5)) { auto b = pick(ts)->llaabbox(); c << b.min[0], b.max[1]; }
        AABBox box(c[0] - h, c[1] - h, c[0] + h, c[1] + h);
        auto r = t.targettree.query(box);
        std::multiset<Target*> got(r.begin(), r.end()), want;
        for (auto x : ts) { if (touches(x->llaabbox(), box)) { want.insert(x); } }
        require(got == want, when, ": box query found ", got.size(), " targets instead of ", want.size());
        auto r2 = t.targettree.query(c);
        std::multiset<Target*> got2(r2.begin(), r2.end()), want2;
        for (auto x : ts) { if (touches(x->llaabbox(), AABBox(c[0], c[1], c[0], c[1]))) { want2.insert(x); } }
        require(got2 == want2, when, ": point query found ", got2.size(), " targets instead of ", want2.size());
    }
}

static void history(int steps, int maxreports, double spread) {
    Params params;
    params.r_lim = pick(std::vector<double>{.001, .01, .05, .2, .4});
    params.cov_lim = pick(std::vector<double>{3, 20, 150, 1e9});
    params.nhyp_max = pick(std::vector<double>{1, 5, 100});
    params.nstd = uni(.5, 3);
    Tracker t(params);
    cf::LL o = random_origin();
    lmb::gen.seed(rng());
    CV<Target> cv(uni(.8, 1), logu(.01, 10));
    NM<Target> nm(uni(.8, 1), spd<4>(.01, 2));
    Life l;
    double time = 0;
    std::vector<Vec2> pts;
    for (int i = 0; i < maxreports; ++i) { pts.push_back(Vec2(uni(-spread, spread), uni(-spread, spread))); }
    note(show(params)); note("origin ", str(o));
    size_t most = 0; bool died = false;
    for (int s = 0; s < steps; ++s) {
        double dt = pick(std::vector<double>{0, .1, 1, 5});
        int op = ri(0, 9);
        size_t before = t.targettree.targets.size();
        std::ostringstream when; when << "step " << s;
        if (op < 3) {
            if (chance(.7)) { t.predict(cv, time + dt, time); } else { t.predict(nm, time + dt, time); }
            time += dt; when << " (predict " << dt << ")";
            note("predict ", dt);
        } else if (op < 9) {
            Sensor sn;
            double h = pick(std::vector<double>{.01, .05, .001, .0003});
            cf::LL fc = chance(.7) ? o : at(o, uni(-spread, spread), uni(-spread, spread));
            sn.fov = region(fc, h);
            if (chance(.3)) { sn.fov.from_gaussian(fc, spd<2>(1e-8, 1e-4), 2.0); }
            sn.lambdaB = uni(0, 4); sn.pD_ = pick(std::vector<double>{1, .9, .5, .1, 0}); sn.kappa_ = logu(1e-6, 2);
            sn.pv = spd<2>(.1, 10);
            Sensor::Scan scan;
            int n = ri(0, maxreports);
            for (int k = 0; k < n; ++k) {
                Vec2 p = chance(.8) ? pick(pts) + Vec2(normal(), normal()) : Vec2(uni(-spread, spread), uni(-spread, spread));
                scan.push_back(report(o, p[0], p[1], spd<2>(.1, 20), sn.kappa_));
                note("  ", showz(scan.back()));
            }
            note("correct ", shows(sn), " reports ", n);
            t.correct(sn, scan, time); when << " (correct with " << n << " reports)";
        } else {
            auto p = pick(pts);
            auto cs = shifted(random_comps(ri(1, 3), 20, .1, 30), p[0], p[1]);
            t.targettree.new_target(uni(0, 1), mixture(&t.params, o, cs), time); when << " (new target)"; note("new target at ", str(p));
        }
        if (t.targettree.targets.size() < before) { died = true; }
        check(t, l, o, when.str());
        most = std::max(most, t.targettree.targets.size());
        if (most > 60) { break; }
    }
    interesting = most > 2 && died;
}
static void sparse(long) { history(25, 6, 400); }
static void dense(long) { history(12, 8, 15); }
static void many(long) { history(10, 30, 2000); }
int main(int argc, char** argv) { return hx::main(argc, argv, {{"sparse", 100, sparse, 60}, {"dense", 30, dense, 100}, {"many", 20, many, 100}}); }
