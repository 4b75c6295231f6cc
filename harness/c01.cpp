// C01: the R-tree against a plain list
#include "RTree.h"
#include "hx.hpp"
using namespace hx;

struct Entry { double lo[2], hi[2]; int id; };
using Tree = RTree<int, double, 2>;
static std::vector<int> got;
static bool cb(int id, void* ctx) { static_cast<std::vector<int>*>(ctx)->push_back(id); return true; }

static bool touch(const Entry& e, const double* lo, const double* hi) {
    for (int k = 0; k < 2; ++k) { if (e.lo[k] > hi[k] || e.hi[k] < lo[k]) { return false; } }
    return true;
}

static void rect(int mode, double* lo, double* hi) {
    for (int k = 0; k < 2; ++k) {
        double a, b;
        switch (mode) {
            case 0: a = uni(-100, 100); b = a + uni(0, 20); break;             // generic
            case 1: a = ri(-4, 4); b = a + ri(0, 2); break;                    // integer grid: shared edges, corners, duplicates
            case 2: a = ri(-3, 3); b = a; break;                               // points
            case 3: a = logu(1e-9, 1e9) * (chance(.5) ? 1 : -1); b = a + logu(1e-9, 1e9); break;
            case 4: a = uni(58.0, 58.01); b = a + uni(0, 1e-4); break;         // lat/lon like
            case 5: a = k ? 0 : ri(-40, 40); b = a + (k ? 1 : 0); break;       // a line of degenerate boxes
            default: a = chance(.1) ? -1e6 : uni(-1, 1); b = a + (chance(.1) ? 2e6 : uni(0, .1));
        }
        lo[k] = a; hi[k] = b;
    }
}

static void query(Tree& t, const std::vector<Entry>& ref, const double* lo, const double* hi, const std::string& where) {
    got.clear();
    int n = t.Search(lo, hi, cb, &got);
    std::vector<int> want;
    for (auto& e : ref) { if (touch(e, lo, hi)) { want.push_back(e.id); } }
    std::sort(got.begin(), got.end()); std::sort(want.begin(), want.end());
    if (got != want) {
        std::ostringstream s; s << "got"; for (int i : got) { s << " " << i; } s << " want"; for (int i : want) { s << " " << i; }
        fail(where, ": query [", lo[0], ",", hi[0], "]x[", lo[1], ",", hi[1], "] ", s.str());
    }
    require(n == static_cast<int>(want.size()), where, ": reported count ", n, " instead of ", want.size());
}

static void verify(Tree& t, const std::vector<Entry>& ref, int mode, int queries, const std::string& where) {
    double all_lo[2] = {-1e12, -1e12}, all_hi[2] = {1e12, 1e12};
    query(t, ref, all_lo, all_hi, where);
    for (int q = 0; q < queries; ++q) {
        double lo[2], hi[2]; rect(mode, lo, hi);
        if (!ref.empty() && chance(.5)) {
            auto& e = ref[rng() % ref.size()];      // touch an edge or a corner of a stored box exactly
            for (int k = 0; k < 2; ++k) {
                double w = hi[k] - lo[k];
                switch (ri(0, 3)) {
                    case 0: lo[k] = e.hi[k]; hi[k] = e.hi[k] + w; break;
                    case 1: hi[k] = e.lo[k]; lo[k] = e.lo[k] - w; break;
                    case 2: lo[k] = e.lo[k]; hi[k] = e.hi[k]; break;
                    default: lo[k] = hi[k] = chance(.5) ? e.lo[k] : e.hi[k];
                }
            }
        }
        query(t, ref, lo, hi, where);
    }
}

static void history(long c, int maxops, int maxlive, int verify_every) {
    int mode = c % 7;
    Tree t; std::vector<Entry> ref; int next = 0;
    double pi = uni(.4, .9);
    int ops = ri(1, maxops);
    int phase = 0;
    for (int o = 0; o < ops; ++o) {
        if (o % 50 == 0) { phase = ri(0, 3); }
        double p = phase == 0 ? .95 : phase == 1 ? .15 : pi;
        std::ostringstream where;
        if (chance(p) && static_cast<int>(ref.size()) < maxlive) {
            Entry e; e.id = next++; rect(mode, e.lo, e.hi);
            if (!ref.empty() && chance(.1)) { auto& f = ref[rng() % ref.size()]; for (int k = 0; k < 2; ++k) { e.lo[k] = f.lo[k]; e.hi[k] = f.hi[k]; } }
            t.Insert(e.lo, e.hi, e.id); ref.push_back(e);
            note("insert ", e.id, " [", e.lo[0], ",", e.hi[0], "]x[", e.lo[1], ",", e.hi[1], "]");
            where << "after insert " << e.id;
        } else if (chance(.02)) {
            t.RemoveAll(); ref.clear(); where << "after clear"; note("clear");
        } else if (!ref.empty() && chance(.93)) {
            size_t i = chance(.3) ? ref.size() - 1 : chance(.3) ? 0 : rng() % ref.size();
            Entry e = ref[i];
            t.Remove(e.lo, e.hi, e.id); ref.erase(ref.begin() + i);
            note("remove ", e.id);
            where << "after remove " << e.id;
        } else {
            // an item that is not stored
            double lo[2], hi[2]; rect(mode, lo, hi);
            if (!ref.empty() && chance(.7)) { auto& e = ref[rng() % ref.size()]; for (int k = 0; k < 2; ++k) { lo[k] = e.lo[k]; hi[k] = e.hi[k]; } }
            int id = next + 1000000;
            t.Remove(lo, hi, id); where << "after remove of absent " << id; note("remove absent");
        }
        if (o % verify_every == 0 || o == ops - 1) { verify(t, ref, mode, 3, where.str()); }
        if (o % 20 == 0) { require(t.Count() == static_cast<int>(ref.size()), where.str(), ": Count ", t.Count(), " instead of ", ref.size()); }
        if (ref.size() > 8) { interesting = true; }
    }
    verify(t, ref, mode, 30, "end");
    // empty it in a random order
    std::shuffle(ref.begin(), ref.end(), rng);
    while (!ref.empty() && chance(.995)) {
        Entry e = ref.back(); ref.pop_back();
        t.Remove(e.lo, e.hi, e.id);
        if (ref.size() % 7 == 0 || ref.size() < 10) { verify(t, ref, mode, 1, "emptying"); }
    }
    verify(t, ref, mode, 5, "end of emptying");
    if (chance(.5)) {   // use after clear
        t.RemoveAll(); ref.clear(); verify(t, ref, mode, 2, "cleared");
        Entry e; e.id = 7; rect(mode, e.lo, e.hi); t.Insert(e.lo, e.hi, e.id); ref.push_back(e); verify(t, ref, mode, 3, "reused");
    }
}
static void small(long c) { history(c, 60, 40, 1); }
static void medium(long c) { history(c, 500, 300, 5); }
static void large(long c) { history(c, 6000, 4000, 200); }
// grow far, shrink to nothing, grow again: height changes in both directions
static void pulses(long c) {
    int mode = c % 7; Tree t; std::vector<Entry> ref; int next = 0;
    for (int r = 0; r < 6; ++r) {
        int n = pick(std::vector<int>{1, 7, 8, 9, 16, 33, 64, 65, 72, 200, 600});
        while (static_cast<int>(ref.size()) < n) { Entry e; e.id = next++; rect(mode, e.lo, e.hi); t.Insert(e.lo, e.hi, e.id); ref.push_back(e); }
        verify(t, ref, mode, 10, "grown");
        int m = pick(std::vector<int>{0, 0, 1, 2, 8, 9, 30});
        std::shuffle(ref.begin(), ref.end(), rng);
        while (static_cast<int>(ref.size()) > m) {
            Entry e = ref.back(); ref.pop_back(); t.Remove(e.lo, e.hi, e.id);
            if (ref.size() % 13 == 0 || ref.size() < 12) { verify(t, ref, mode, 1, "shrinking"); }
        }
        verify(t, ref, mode, 10, "shrunk");
        interesting = true;
    }
}
int main(int argc, char** argv) {
    return hx::main(argc, argv, {{"small", 8000, small, 20}, {"medium", 800, medium, 20}, {"pulses", 500, pulses, 20}, {"large", 30, large, 60}});
}
