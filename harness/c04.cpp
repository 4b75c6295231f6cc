// C04: clusters are the connected groups of the match graph
#include "connectedcomponents.hpp"
#include "track.hpp"
using namespace hx;

static bool touches(const AABBox& a, const AABBox& b) {
    return a.min[0] <= b.max[0] && b.min[0] <= a.max[0] && a.min[1] <= b.max[1] && b.min[1] <= a.max[1];
}
struct UF { std::vector<int> p; explicit UF(int n) : p(n) { std::iota(p.begin(), p.end(), 0); } int f(int i) { return p[i] == i ? i : p[i] = f(p[i]); } void u(int a, int b) { p[f(a)] = f(b); } };

static std::vector<Vec2> layout(int n, int kind) {
    std::vector<Vec2> r;
    for (int i = 0; i < n; ++i) {
        switch (kind) {
            case 0: r.push_back(Vec2(uni(-60, 60), uni(-60, 60))); break;
            case 1: r.push_back(Vec2(i * 7.0, 0)); break;                               // chain
            case 2: { double a = 6.283 * i / n; r.push_back(Vec2(n * 1.2 * cos(a), n * 1.2 * sin(a))); break; }  // ring
            case 3: r.push_back(Vec2(uni(-3, 3), uni(-3, 3))); break;                   // everything together
            case 4: r.push_back(Vec2(uni(-3000, 3000), uni(-3000, 3000))); break;       // isolated
            default: r.push_back(Vec2(ri(0, 3) * 40 + uni(-6, 6), ri(0, 3) * 40 + uni(-6, 6)));
        }
    }
    return r;
}

static void scan_case(long) {
    cf::LL o = random_origin();
    Params p; p.r_lim = -1; p.cov_lim = 1e300; p.nhyp_max = ri(1, 4); p.nstd = uni(.8, 2.5);
    Tracker t(p);
    int kind = ri(0, 5), nt = ri(0, 14), nz = ri(0, 12);
    auto tp = layout(nt, kind), zp = layout(nz, chance(.8) ? kind : ri(0, 5));
    std::shuffle(tp.begin(), tp.end(), rng); std::shuffle(zp.begin(), zp.end(), rng);
    double ts = pick(std::vector<double>{.3, 2, 8}), zs = pick(std::vector<double>{.3, 2, 8});
    cf::LL away = o + Vec2(5, 5);
    std::vector<bool> far;
    bool outside = chance(.4);
    for (auto& c : tp) {
        auto cs = shifted(random_comps(ri(1, 2), 2, .5 * ts, 2 * ts), c[0], c[1]);
        far.push_back(outside && chance(.3));
        t.targettree.new_target(uni(.1, .9), mixture(&t.params, far.back() ? away : o, cs));
        t.targettree.targets.back()->cid = 90000;
    }
    Sensor sn; sn.fov = region(o, .2); sn.lambdaB = chance(.5) ? 0 : 1; sn.pD_ = .9; sn.kappa_ = logu(1e-4, 1);
    Sensor::Scan scan;
    for (auto& c : zp) {
        bool z_far = outside && chance(.25);    // report outside the field of view: it may still match a target there
        scan.push_back(report(z_far ? away : o, c[0], c[1], spd<2>(.5 * zs, 2 * zs), sn.kappa_));
        scan.back().cid = 80000;
    }
    // expected grouping
    auto ts_ = t.targettree.targets;
    std::vector<AABBox> tb, zb;
    for (auto x : ts_) { tb.push_back(x->llaabbox()); }
    for (auto& z : scan) { zb.push_back(z.llaabbox()); }
    int n = ts_.size(), m = scan.size();
    UF uf(n + m);
    std::vector<bool> affected(n);
    for (int i = 0; i < n; ++i) { affected[i] = !far[i]; }
    int edges = 0;
    for (int i = 0; i < n; ++i) { for (int j = 0; j < m; ++j) { if (touches(tb[i], zb[j])) { uf.u(i, n + j); affected[i] = true; ++edges; } } }
    note(show(p)); note(shows(sn)); note("origin ", str(o));
    for (int i = 0; i < n; ++i) { note("target ", i, " far ", far[i], " ", show(*ts_[i])); }
    for (auto& z : scan) { note(showz(z)); }
    lmb::gen.seed(rng());
    t.correct(sn, scan, 1);
    // groups by recorded number
    std::map<unsigned, std::set<int>> groups; std::map<int, std::set<int>> want;
    for (int i = 0; i < n; ++i) {
        if (affected[i]) { groups[ts_[i]->cid].insert(i); want[uf.f(i)].insert(i); }
        else { require(ts_[i]->cid == 90000, "target ", i, " is not affected but got cluster ", ts_[i]->cid); }
    }
    for (int j = 0; j < m; ++j) { groups[scan[j].cid].insert(n + j); want[uf.f(n + j)].insert(n + j); }
    std::set<std::set<int>> a, b;
    for (auto& g : groups) { a.insert(g.second); }
    for (auto& g : want) { b.insert(g.second); }
    if (a != b) {
        std::ostringstream s;
        for (auto& g : groups) { s << " " << g.first << ":{"; for (int i : g.second) { s << (i < n ? " t" : " z") << (i < n ? i : i - n); } s << " }"; }
        s << " want";
        for (auto& g : want) { s << " {"; for (int i : g.second) { s << (i < n ? " t" : " z") << (i < n ? i : i - n); } s << " }"; }
        fail("clusters", s.str());
    }
    require(t.nof_clusters == want.size(), "nof_clusters ", t.nof_clusters, " instead of ", want.size());
    require(t.cluster_ntargets.size() == want.size() && t.cluster_nreports.size() == want.size() && t.cluster_nhyps.size() == want.size(), "length of the cluster lists");
    for (auto& g : groups) {
        require(g.first < want.size(), "cluster number ", g.first, " with ", want.size(), " clusters");
        int nt_ = 0; for (int i : g.second) { nt_ += i < n; }
        require(t.cluster_ntargets[g.first] == nt_, "cluster_ntargets[", g.first, "] = ", t.cluster_ntargets[g.first], " instead of ", nt_);
        require(t.cluster_nreports[g.first] == static_cast<int>(g.second.size()) - nt_, "cluster_nreports[", g.first, "] = ", t.cluster_nreports[g.first], " instead of ", g.second.size() - nt_);
        require(t.cluster_nhyps[g.first] >= (nt_ > 0 ? 1 : 0) && (nt_ > 0 || t.cluster_nhyps[g.first] == 0), "cluster_nhyps[", g.first, "] = ", t.cluster_nhyps[g.first], " with ", nt_, " targets");
    }
    interesting = edges > 1 && want.size() > 1;
}

// the component finder on its own, any undirected graph
static void graph(long) {
    ConnectedComponents<int> cc;
    int n = ri(0, 30);
    std::vector<int> v(n);
    UF uf(std::max(1, n));
    std::vector<std::vector<int*>> adj(n);
    int e = n ? ri(0, pick(std::vector<int>{0, n / 2, n, 3 * n})) : 0;
    std::vector<std::pair<int, int>> es;
    for (int k = 0; k < e; ++k) { es.push_back({ri(0, n - 1), ri(0, n - 1)}); }
    if (n > 2 && chance(.3)) { es.clear(); for (int i = 0; i + 1 < n; ++i) { es.push_back({i, i + 1}); } if (chance(.5)) { es.push_back({n - 1, 0}); } }
    std::vector<int> perm(n); std::iota(perm.begin(), perm.end(), 0); std::shuffle(perm.begin(), perm.end(), rng);
    for (auto& x : es) { int a = perm[x.first], b = perm[x.second]; adj[a].push_back(&v[b]); adj[b].push_back(&v[a]); uf.u(a, b); note(a, "-", b); }
    for (int i = 0; i < n; ++i) { cc.init(&v[i]); if (!adj[i].empty() || chance(.5)) { cc.connect(&v[i], adj[i]); } }
    std::set<std::set<int>> got, want; std::map<int, std::set<int>> w;
    for (int i = 0; i < n; ++i) { w[uf.f(i)].insert(i); }
    for (auto& x : w) { want.insert(x.second); }
    std::vector<int*> comp; int total = 0;
    while (cc.get_component(comp)) {
        require(!comp.empty(), "empty component");
        std::set<int> s; for (int* q : comp) { s.insert(q - v.data()); ++total; }
        require(s.size() == comp.size(), "a node is listed ", comp.size(), " times over ", s.size(), " nodes");
        got.insert(s);
        require(total <= n, "more nodes than there are");
    }
    require(comp.empty(), "result not empty when exhausted");
    require(!cc.get_component(comp), "component after exhaustion");
    require(got == want && total == n, "components of a graph with ", n, " nodes: ", got.size(), " instead of ", want.size());
    interesting = es.size() > 1;
}
int main(int argc, char** argv) { return hx::main(argc, argv, {{"graph", 3000, graph, 10}, {"scan", 400, scan_case, 60}}); }
