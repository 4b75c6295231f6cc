// C07: association weights, posterior existence, leftovers
#include "track.hpp"
using namespace hx;

struct Ref { std::vector<double> r, rB; double n; bool ambiguous; };

// all hypotheses of one cluster by complete enumeration
static Ref reference(const std::vector<double>& prior, const std::vector<std::vector<double>>& eta, const std::vector<double>& miss, const Params& p) {
    int M = prior.size(), N = eta.empty() ? 0 : eta[0].size();
    std::vector<std::vector<double>> c(M);      // costs: reports, missed, false
    for (int i = 0; i < M; ++i) {
        for (int j = 0; j < N; ++j) { c[i].push_back(-std::log(prior[i] * eta[i][j])); }
        c[i].push_back(-std::log(prior[i] * miss[i]));
        c[i].push_back(prior[i] < 1 ? -std::log(1 - prior[i]) : 30000);
    }
    struct H { double cost; std::vector<int> a; };
    std::vector<H> hs; std::vector<int> a(M); std::vector<bool> used(N);
    std::function<void(int, double)> rec = [&](int i, double s) {
        if (i == M) { hs.push_back({s, a}); return; }
        for (int j = 0; j < N + 2; ++j) {
            if (!(c[i][j] < 1e300) || (j < N && used[j])) { continue; }
            a[i] = j; if (j < N) { used[j] = true; }
            rec(i + 1, s + c[i][j]);
            if (j < N) { used[j] = false; }
        }
    };
    rec(0, 0);
    std::sort(hs.begin(), hs.end(), [](auto& x, auto& y) { return x.cost < y.cost; });
    Ref res; res.r.assign(M, 0); res.rB.assign(N, 1); res.n = 0; res.ambiguous = false;
    std::vector<std::vector<double>> R(M, std::vector<double>(N + 1, 0)); double ws = 0;
    for (size_t k = 0; k < hs.size(); ++k) {
        double w = std::exp(hs[0].cost - hs[k].cost); ws += w; ++res.n;
        for (int i = 0; i < M; ++i) { if (hs[k].a[i] <= N) { R[i][hs[k].a[i]] += w; } }
        double share = w / ws;
        if (close(share, p.w_lim, 1e-6)) { res.ambiguous = true; }
        if (share < p.w_lim || res.n >= p.nhyp_max) {
            if (k + 1 < hs.size() && close(hs[k].cost, hs[k + 1].cost, 1e-9, 1e-9)) { res.ambiguous = true; }   // which of the ties is cut off is free
            break;
        }
        if (k + 1 < hs.size() && hs[k + 1].cost > 25000) { break; }   // weight zero from here on
    }
    for (int i = 0; i < M; ++i) { for (int j = 0; j <= N; ++j) { res.r[i] += R[i][j] / ws; } }
    for (int j = 0; j < N; ++j) { for (int i = 0; i < M; ++i) { res.rB[j] -= R[i][j] / ws; } }
    return res;
}

static void cluster_case(long) {
    cf::LL o = random_origin();
    Params p; p.r_lim = -1; p.cov_lim = 1e300; p.nstd = 2;
    p.w_lim = pick(std::vector<double>{.01, .1, 0, .3, 1e-6}); p.nhyp_max = pick(std::vector<double>{100, 1, 2, 5, 1000, 7.5});
    Tracker t(p);
    int M = ri(1, 4), N = ri(0, 4);
    double spread = pick(std::vector<double>{1, 4, 12});
    std::vector<double> prior;
    for (int i = 0; i < M; ++i) {
        auto cs = shifted(random_comps(ri(1, 3), 2, 4, 30), uni(-spread, spread), uni(-spread, spread));
        prior.push_back(chance(.15) ? 1 : chance(.1) ? 1e-7 : uni(.01, .99));
        t.targettree.new_target(prior.back(), mixture(&t.params, o, cs));
    }
    Sensor sn; sn.fov = region(o, .3); sn.lambdaB = 0; sn.pD_ = pick(std::vector<double>{.9, .5, .99, 1, 0, .2}); sn.kappa_ = logu(1e-6, 10);
    Sensor::Scan scan;
    for (int j = 0; j < N; ++j) { scan.push_back(report(o, uni(-spread, spread), uni(-spread, spread), spd<2>(2, 30), logu(1e-6, 10))); }
    note(show(p)); note(shows(sn)); note("origin ", str(o));
    for (auto x : t.targettree.targets) { note(show(*x)); }
    for (auto& z : scan) { note(showz(z)); }
    // group by the boxes that match
    int n = M + N; std::vector<int> g(n); std::iota(g.begin(), g.end(), 0);
    auto ts = t.targettree.targets;
    for (int it = 0; it < n; ++it) { for (int i = 0; i < M; ++i) { for (int j = 0; j < N; ++j) { if (ts[i]->llaabbox().intersects(scan[j].llaabbox())) { int m = std::min(g[i], g[M + j]); g[i] = g[M + j] = m; } } } }
    std::vector<double> er(M), erB(N, 1); std::map<int, Ref> refs; bool amb = false;
    for (int q = 0; q < n; ++q) {
        std::vector<int> mt, mz; for (int i = 0; i < M; ++i) { if (g[i] == q) { mt.push_back(i); } } for (int j = 0; j < N; ++j) { if (g[M + j] == q) { mz.push_back(j); } }
        if (mt.empty()) { continue; }
        cf::LL c; c.setZero(); for (int j : mz) { c += scan[j].pos(); } for (int i : mt) { c += ts[i]->pdf.pos(); } c /= mt.size() + mz.size();
        std::vector<double> pr, miss; std::vector<std::vector<double>> eta;
        for (int i : mt) {
            pr.push_back(prior[i]); miss.push_back(1 - sn.pD_); eta.emplace_back();
            for (int j : mz) {
                double e = 0;    // sum over components of w pD N(z; x, P + R) / kappa
                Report z = scan[j]; z.transform_to_local(c);
                for (auto& cc : ts[i]->pdf.c) {
                    G4 k = cc; k.transform_to_local(c);
                    Mat2 S = k.P.topLeftCorner<2, 2>() + z.P; Vec2 d = z.x - k.x.head<2>();
                    e += k.w * sn.pD_ * std::exp(-.5 * d.dot(S.inverse() * d)) / (2 * M_PI * std::sqrt(S.determinant())) / z.kappa;
                }
                eta.back().push_back(e);
            }
        }
        Ref r = reference(pr, eta, miss, p); amb = amb || r.ambiguous;
        for (size_t i = 0; i < mt.size(); ++i) { er[mt[i]] = r.r[i] < 1e-6 ? 0 : r.r[i]; if (std::abs(r.r[i] - 1e-6) < 1e-8) { amb = true; } }
        for (size_t j = 0; j < mz.size(); ++j) { erB[mz[j]] = r.rB[j]; }
    }
    // with pD = 1 the miss probability is zero or a rounding error; next to a target that surely exists that decides the order
    for (double r : prior) { if (sn.pD_ == 1 && r == 1) { amb = true; } }
    lmb::gen.seed(1);
    t.correct(sn, scan, 1);
    for (int i = 0; i < M; ++i) {
        require(ts[i]->r >= 0 && ts[i]->r <= 1 + 1e-9, "existence ", ts[i]->r, " of target ", i);
        if (!amb) { near(ts[i]->r, er[i], 1e-6, "posterior existence of target ", i); }
        if (ts[i]->r > 0 && !ts[i]->pdf.c.empty()) { double s = 0; for (auto& c : ts[i]->pdf.c) { s += c.w; } near(s, 1, 1e-9, "weights of target ", i); }
    }
    for (int j = 0; j < N; ++j) {
        double b = scan[j].rB;
        require(b >= -1e-9 && b <= 1 + 1e-9, "leftover ", b, " of report ", j);
        if (!amb) { near(b, erB[j], 1e-6, "leftover of report ", j); }
    }
    interesting = !amb && M > 1 && N > 0;
}

// existence stays a probability over any history, also with extreme values
static void history(long) {
    cf::LL o = random_origin();
    Params p; p.r_lim = pick(std::vector<double>{0, 1e-4, .05}); p.cov_lim = pick(std::vector<double>{150, 1e9}); p.rB_max = pick(std::vector<double>{.8, 1}); p.w_lim = pick(std::vector<double>{.01, 1e-9, 0});
    p.nhyp_max = pick(std::vector<double>{100, 3, 20});
    Tracker t(p);
    lmb::gen.seed(rng());
    double time = 0; double spread = pick(std::vector<double>{5, 40});
    note(show(p));
    for (int s = 0; s < 12; ++s) {
        if (chance(.4)) { CV<Target> m(pick(std::vector<double>{1, .9, .01}), logu(1e-3, 10)); double dt = pick(std::vector<double>{0, 1, 10}); t.predict(m, time + dt, time); time += dt; note("predict ", dt); }
        else {
            Sensor sn; sn.fov = region(o, .1); sn.lambdaB = uni(0, 3); sn.pD_ = pick(std::vector<double>{0, .5, .999, 1}); sn.kappa_ = pick(std::vector<double>{1e-300, 1e-9, .01, 1, 1e12});
            Sensor::Scan scan; int n = ri(0, 4);
            for (int k = 0; k < n; ++k) { scan.push_back(report(o, normal() * spread, normal() * spread, spd<2>(1e-3, 30), sn.kappa_)); note(showz(scan.back())); }
            note("correct ", shows(sn));
            t.correct(sn, scan, time);
            for (auto& z : scan) { double b = z.rB; require(b >= -1e-9 && b <= 1 + 1e-9, "step ", s, ": leftover ", b); }
        }
        for (auto x : t.targettree.targets) { require(x->r >= 0 && x->r <= 1 + 1e-9, "step ", s, ": existence ", x->r, " of target ", x->id); interesting = true; }
        double e = t.enof_targets(); require(e >= 0 && e <= t.targettree.targets.size() + 1e-6, "step ", s, ": expected number ", e);
        if (t.targettree.targets.size() > 15) { break; }
    }
}
int main(int argc, char** argv) { return hx::main(argc, argv, {{"cluster", 600, cluster_case, 60}, {"history", 120, history, 60}}); }
