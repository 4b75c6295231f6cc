// Concrete replay/search harness: seeded directed cases of the real code against independent oracles.
#pragma once
#include <Eigen/Core>
#include <Eigen/Dense>
#include <algorithm>
#include <cmath>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <iostream>
#include <limits>
#include <map>
#include <numeric>
#include <random>
#include <set>
#include <sstream>
#include <string>
#include <vector>
#include <unistd.h>
#include <sys/time.h>

namespace hx {
struct Fail { std::string msg; };

inline std::mt19937_64 rng;
inline long nontrivial = 0;
inline bool interesting = false;       // set by a case that exercised the property
inline std::ostringstream input;       // description of the inputs of the current case

inline double uni(double a = 0, double b = 1) { return a + (b - a) * (rng() >> 11) * (1.0 / 9007199254740992.0); }
inline int ri(int a, int b) { return a + static_cast<int>(rng() % static_cast<uint64_t>(b - a + 1)); }
inline bool chance(double p) { return uni() < p; }
inline double normal() { double s = 0; for (int i = 0; i < 12; ++i) { s += uni(); } return s - 6; }
inline double logu(double a, double b) { return std::exp(uni(std::log(a), std::log(b))); }
template<typename T> const T& pick(const std::vector<T>& v) { return v[rng() % v.size()]; }

template<typename... A>
[[noreturn]] inline void fail(const A&... a) {
    std::ostringstream s; s.precision(17); (s << ... << a); throw Fail{s.str()};
}
template<typename... A>
inline void require(bool ok, const A&... a) { if (!ok) { fail(a...); } }
inline bool close(double a, double b, double rel = 1e-9, double abs = 1e-12) {
    return std::abs(a - b) <= abs + rel * std::max(std::abs(a), std::abs(b));
}
template<typename... A>
inline void near(double a, double b, double tol, const A&... m) {
    if (!(std::abs(a - b) <= tol)) { fail(m..., ": ", a, " instead of ", b); }
}
template<typename M1, typename M2, typename... A>
inline void mnear(const M1& a, const M2& b, double tol, const A&... m) {
    for (int i = 0; i < b.rows(); ++i) { for (int j = 0; j < b.cols(); ++j) {
        if (!(std::abs(a(i, j) - b(i, j)) <= tol)) { fail(m..., " (", i, ",", j, "): ", a(i, j), " instead of ", b(i, j)); } } }
}
inline Eigen::IOFormat fmt(Eigen::FullPrecision, Eigen::DontAlignCols, ",", ";", "", "", "[", "]");
template<typename M> std::string str(const M& m) { std::ostringstream s; s << Eigen::MatrixXd(m).format(fmt); return s.str(); }
template<typename... A> inline void note(const A&... a) { input.precision(17); (input << ... << a); input << "\n"; }

// symmetric positive definite with log-uniform spectrum and random axes
template<int N>
Eigen::Matrix<double, N, N> spd(double lo, double hi) {
    Eigen::Matrix<double, N, N> A, D; A.setZero(); D.setZero();
    for (int i = 0; i < N; ++i) { for (int j = 0; j < N; ++j) { A(i, j) = normal(); } }
    Eigen::HouseholderQR<Eigen::Matrix<double, N, N>> qr(A);
    Eigen::Matrix<double, N, N> Q = qr.householderQ();
    for (int i = 0; i < N; ++i) { D(i, i) = logu(lo, hi); }
    Eigen::Matrix<double, N, N> P = Q * D * Q.transpose();
    P = (0.5 * (P + P.transpose())).eval();
    return P;
}

struct Part { const char* name; long cases; void (*f)(long); int secs; };
inline const Part* cur = nullptr;
inline volatile long curcase = 0;
inline unsigned long seed = 1;

inline void onsig(int s) {
    char b[400];
    int n = snprintf(b, sizeof b, "\nFAIL part=%s case=%ld seed=%lu : %s\n", cur ? cur->name : "?", static_cast<long>(curcase), seed,
                     s == SIGALRM ? "the code under test did not finish" : s == SIGABRT ? "abort (assertion or exception)" :
                     s == SIGSEGV ? "segmentation fault" : s == SIGFPE ? "arithmetic exception" : "signal");
    if (n > 0) { ssize_t r = write(1, b, n); (void)r; }
    _exit(1);
}

inline int main(int argc, char** argv, std::vector<Part> parts) {
    double scale = 1; std::string part; long only = -1;
    for (int i = 1; i + 1 < argc; i += 2) {
        std::string a = argv[i];
        if (a == "--seed") { seed = std::stoul(argv[i + 1]); }
        if (a == "--scale") { scale = std::stod(argv[i + 1]); }
        if (a == "--part") { part = argv[i + 1]; }
        if (a == "--case") { only = std::stol(argv[i + 1]); }
    }
    for (int s : {SIGABRT, SIGSEGV, SIGFPE, SIGILL, SIGBUS, SIGALRM}) { signal(s, onsig); }
    setvbuf(stdout, nullptr, _IOLBF, 0);
    long total = 0;
    for (auto& p : parts) {
        if (!part.empty() && part != p.name) { continue; }
        cur = &p;
        long n = std::max<long>(1, static_cast<long>(p.cases * scale));
        long nt = 0;
        for (long c = only >= 0 ? only : 0; c < (only >= 0 ? only + 1 : n); ++c) {
            curcase = c; interesting = false; input.str("");
            uint64_t h = 1469598103934665603ULL;
            for (const char* q = p.name; *q; ++q) { h = (h ^ static_cast<unsigned char>(*q)) * 1099511628211ULL; }
            rng.seed(h ^ (seed * 0x9E3779B97F4A7C15ULL) ^ (static_cast<uint64_t>(c) * 0xD1B54A32D192ED03ULL));
            alarm(p.secs);
            try {
                p.f(c);
            } catch (const Fail& f) {
                printf("FAIL part=%s case=%ld seed=%lu : %s\n", p.name, c, seed, f.msg.c_str());
                if (!input.str().empty()) { printf("INPUT\n%s", input.str().c_str()); }
                return 1;
            } catch (const std::exception& e) {
                printf("FAIL part=%s case=%ld seed=%lu : exception %s\n", p.name, c, seed, e.what());
                if (!input.str().empty()) { printf("INPUT\n%s", input.str().c_str()); }
                return 1;
            }
            alarm(0);
            ++total;
            if (interesting) { ++nt; ++nontrivial; }
        }
        printf("PART %s cases=%ld nontrivial=%ld\n", p.name, only >= 0 ? 1 : n, nt);
        if (only < 0 && nt == 0) { printf("FAIL part=%s case=-1 seed=%lu : the harness exercised nothing\n", p.name, seed); return 1; }
    }
    if (!input.str().empty()) { std::string s = input.str(); printf("SAMPLE %s\n", s.substr(0, 1500).c_str()); }
    printf("OK evaluations=%ld nontrivial=%ld\n", total, nontrivial);
    return 0;
}
}  // namespace hx
