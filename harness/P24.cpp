// P24: tool tip calibration.
#include "pbt.h"
#include "ut.h"
#include <utAlgorithm/ToolTip/TipCalibration.h>
#include <utAlgorithm/ToolTip/LeastSquare.h>
#include <utAlgorithm/ToolTip/ErrorEstimation.h>
#include <utAlgorithm/ToolTip/Optimization.h>
#include <utAlgorithm/ToolTip/Ransac.h>
#include <utMath/Optimization/LevenbergMarquardt.h>
using namespace Ubitrack;
namespace T = Ubitrack::Algorithm::ToolTip;
typedef long double ld;
typedef ref::V3 V3;
typedef ref::P P;
typedef ref::Q Q;
namespace {
struct Mute { std::streambuf* b; std::ostringstream s; Mute() { b = std::cout.rdbuf(s.rdbuf()); } ~Mute() { std::cout.rdbuf(b); } };
struct Scene {
    V3 pw, pm;
    std::vector<P> poses;
    ld scale, noise;
};
/// poses around a fixed tip
Scene gen(pbt::Ctx& g, int n, ld noise) {
    Scene s;
    s.scale = g.oneIn(3) ? ld(g.logreal(1e-2, 1e3)) : 1;
    s.noise = noise;
    s.pw = s.scale * V3(ref::genVr(g, 3));
    s.pm = g.oneIn(6) ? V3(0, 0, 0) : s.scale * V3(ref::genVr(g, 2));
    int mode = g.range(0, 2);
    Q base = ref::unit(ref::genQuniform(g));
    for (int i = 0; i < n; ++i) {
        P p;
        p.q = mode == 0 ? ref::unit(base * ref::expv(V3(ref::genVr(g, 0.8)))) : mode == 1 ? ref::unit(ref::genQuniform(g)) : ref::unit(ref::genQ(g));
        if (g.coin()) p.q = Q(-p.q.x, -p.q.y, -p.q.z, -p.q.w);
        p.t = s.pw - ref::rot(p.q, s.pm);
        if (noise > 0) p.t = p.t + noise * s.scale * V3(g.gauss(), g.gauss(), g.gauss());
        s.poses.push_back(p);
    }
    return s;
}
std::vector<Math::Pose> lib(const Scene& s) {
    std::vector<Math::Pose> r;
    for (auto& p : s.poses) r.push_back(ut::p(p));
    return r;
}
/// the poses as the library stores them
std::vector<P> rounded(const std::vector<Math::Pose>& v) {
    std::vector<P> r;
    for (auto& p : v) r.push_back(ut::r(p));
    return r;
}
/// least squares solution (pm, pw) of R pm - pw = -t; returns the singular values
std::vector<ld> leastSquares(const std::vector<P>& v, V3& pm, V3& pw) {
    ref::M A(3 * int(v.size()), 6), b(3 * int(v.size()), 1);
    for (std::size_t i = 0; i < v.size(); ++i) {
        ref::M R = ref::rotM(v[i].q);
        for (int p = 0; p < 3; ++p) {
            for (int q = 0; q < 3; ++q) A(3 * int(i) + p, q) = R(p, q);
            A(3 * int(i) + p, 3 + p) = -1;
            b(3 * int(i) + p, 0) = -v[i].t[p];
        }
    }
    auto s = ref::singularValues(A);
    if (s.back() > 1e-9L) {
        ref::M x = ref::solve(ref::tr(A) * A, ref::tr(A) * b);
        pm = V3(x(0, 0), x(1, 0), x(2, 0));
        pw = V3(x(3, 0), x(4, 0), x(5, 0));
    }
    return s;
}
ld cost(const std::vector<P>& v, const V3& pw, const V3& pm) {
    ld c = 0;
    for (auto& p : v) { V3 d = pw - (p * pm); c += ref::dot(d, d); }
    return c;
}
template <class V> V3 v3(const V& v) { return V3(v(0), v(1), v(2)); }
ld spread(const std::vector<P>& v) { ld s = 0; for (auto& p : v) s = std::max(s, ref::norm(p.t)); return s; }
}
PROP(least_squares, 2000, 100000, "more than three poses") {
    int n = g.many(3, 15, 120);
    ld noise = g.coin() ? 0 : ld(g.logreal(1e-6, 0.3));
    Scene s = gen(g, n, noise);
    auto lp = lib(s);
    auto v = rounded(lp);
    V3 pm, pw;
    auto sv = leastSquares(v, pm, pw);
    ld k = sv.front() / sv.back();
    g.assume(sv.back() > 1e-3L && k < 1e4L);
    g.nontrivial(n > 3);
    g.cls(noise > 0 ? "noisy" : "exact");
    g.note() << n << " poses, tip " << s.pw << " offset " << s.pm << " noise " << double(noise);
    ld sz = spread(v) + ref::norm(pm) + ref::norm(pw) + s.scale * 1e-3L;
    Math::Vector<double, 3> lw, lm;
    REQ(T::estimatePosition3D_6D(lw, lp, lm), "no solution");
    ld tol = 1e-14L * k * (1 + noise * k) * sz * 10;
    REQ(ref::norm(v3(lw) - pw) < tol, "tip in world coordinates is " << double(ref::norm(v3(lw) - pw)) << " away from the least-squares solution, tolerance " << double(tol));
    REQ(ref::norm(v3(lm) - pm) < tol, "tip in body coordinates is " << double(ref::norm(v3(lm) - pm)) << " away from the least-squares solution, tolerance " << double(tol));
    if (noise == 0) {
        REQ(ref::norm(v3(lw) - s.pw) < tol + 1e-14L * k * sz * 10, "tip in world coordinates is not the true one");
        REQ(ref::norm(v3(lm) - s.pm) < tol + 1e-14L * k * sz * 10, "tip in body coordinates is not the true one");
    }
    Math::Vector<double, 3> ow, om;
    T::tipCalibration(lp, om, ow);
    for (int i = 0; i < 3; ++i) REQ(std::fabs(ow(i) - lw(i)) <= tol && std::fabs(om(i) - lm(i)) <= tol, "old interface gives another result");
    ld tf = 1e-6L * k * (1 + noise * k) * sz * 10;
    if (tf < 0.05L * sz) {
        Math::Vector<float, 3> fw, fm;
        REQ(T::estimatePosition3D_6D(fw, lp, fm), "no solution in float");
        REQ(ref::norm(v3(fw) - pw) < tf && ref::norm(v3(fm) - pm) < tf, "float solution is " << double(ref::norm(v3(fw) - pw)) << " and " << double(ref::norm(v3(fm) - pm)) << " away, tolerance " << double(tf));
        g.cls("float");
    }
}
PROP(error, 1500, 60000, "more than two poses and an inexact tip") {
    int n = g.many(2, 15, 120);
    ld noise = g.coin() ? 0 : ld(g.logreal(1e-6, 0.3));
    Scene s = gen(g, n, noise);
    auto lp = lib(s);
    auto v = rounded(lp);
    V3 w = s.pw, m = s.pm;
    if (g.coin()) w = w + s.scale * V3(ref::genVr(g, 1));
    if (g.coin()) m = m + s.scale * V3(ref::genVr(g, 1));
    Math::Vector<double, 3> lw, lm;
    Math::Vector<float, 3> fw, fm;
    for (int i = 0; i < 3; ++i) { lw(i) = double(w[i]); lm(i) = double(m[i]); fw(i) = float(w[i]); fm(i) = float(m[i]); }
    auto want = [&](const V3& ww, const V3& mm, ld& mean, ld& dev) {
        std::vector<ld> d;
        mean = dev = 0;
        for (auto& p : v) { d.push_back(ref::norm(ww - (p * mm))); mean += d.back(); }
        mean /= n;
        for (auto x : d) dev += (x - mean) * (x - mean);
        dev = std::sqrt(dev / (n - 1));
    };
    ld mean, dev, sz = spread(v) + ref::norm(w) + ref::norm(m) + 1e-30L;
    want(v3(lw), v3(lm), mean, dev);
    g.nontrivial(n > 2 && mean > 1e-9L * sz);
    g.cls(mean > 1e-9L * sz ? "inexact" : "exact");
    g.note() << n << " poses, mean error " << double(mean);
    auto got = T::estimatePosition3DError_6D(lw, lp, lm);
    REQ(std::fabs(got.first - mean) < 1e-14L * sz * 10, "mean error " << got.first << " instead of " << double(mean));
    REQ(std::fabs(got.second - dev) < 1e-14L * sz * 30, "standard deviation " << got.second << " instead of " << double(dev));
    want(v3(fw), v3(fm), mean, dev);
    auto gf = T::estimatePosition3DError_6D(fw, lp, fm);
    REQ(std::fabs(gf.first - mean) < 1e-6L * sz * 10, "mean error " << gf.first << " instead of " << double(mean) << " in float");
    REQ(std::fabs(gf.second - dev) < 1e-6L * sz * 30, "standard deviation " << gf.second << " instead of " << double(dev) << " in float");
}
PROP(refinement, 800, 30000, "noisy poses") {
    Mute mute;
    int n = g.many(3, 12, 60);
    ld noise = g.oneIn(4) ? 0 : ld(g.logreal(1e-5, 0.2));
    Scene s = gen(g, n, noise);
    auto lp = lib(s);
    auto v = rounded(lp);
    V3 pm, pw;
    auto sv = leastSquares(v, pm, pw);
    g.assume(sv.back() > 0.05L);
    g.nontrivial(noise > 0);
    g.note() << n << " poses, tip " << s.pw << " offset " << s.pm << " noise " << double(noise);
    ld sz = spread(v) + ref::norm(pm) + ref::norm(pw) + s.scale * 1e-3L;
    ld best = cost(v, pw, pm);
    std::size_t it = g.range(1, 20);
    Math::Vector<double, 3> lw, lm;
    REQ(T::estimatePosition3D_6D(lw, lp, lm, Math::Optimization::OptTerminate(it, 1e-6)), "no solution");
    ld got = cost(v, v3(lw), v3(lm));
    // the least-squares start is optimal already
    REQ(got <= best * (1 + 1e-9L) + 1e-20L * sz * sz, "error " << double(got) << " after the refinement, the optimum is " << double(best));
    if (noise == 0) REQ(ref::norm(v3(lw) - s.pw) < 1e-10L * sz && ref::norm(v3(lm) - s.pm) < 1e-10L * sz, "refinement leaves the exact solution");
    // function and Jacobian at any point
    typedef std::vector<Math::Pose>::const_iterator It;
    T::MultiplePoseSinglePointTransformation<It> f(lp.begin(), lp.end());
    REQ(f.size() == std::size_t(n), "size " << f.size());
    Math::Vector<double, 6> x;
    for (int i = 0; i < 6; ++i) x(i) = double((i < 3 ? pw[i] : pm[i - 3]) + s.scale * g.sym(1));
    Math::Vector<double> r(n);
    Math::Matrix<double> J(n, 6);
    f.evaluateWithJacobian(r, x, J);
    auto value = [&](int i, const ld* y) { return ref::norm(V3(y[0], y[1], y[2]) - (v[i] * V3(y[3], y[4], y[5]))); };
    for (int i = 0; i < n; ++i) {
        ld y[6];
        for (int j = 0; j < 6; ++j) y[j] = x(j);
        ld d = value(i, y);
        REQ(std::fabs(r(i) - d) < 1e-13L * sz * 10, "distance " << r(i) << " instead of " << double(d));
        if (d < 1e-3L * s.scale) continue;
        for (int j = 0; j < 6; ++j) {
            ld h = 1e-6L * d, a[6], b[6];
            std::copy(y, y + 6, a);
            std::copy(y, y + 6, b);
            a[j] += h;
            b[j] -= h;
            ld num = (value(i, a) - value(i, b)) / (2 * h);
            ld tol = 1e-9L + 1e-13L * sz / d * 10;
            REQ(std::fabs(J(i, j) - num) < tol, "derivative " << i << "," << j << " is " << J(i, j) << " instead of " << double(num));
        }
    }
}
PROP(ransac_without_consensus, 300, 12000, "too few poses agree") {
    Mute mute;
    srand(unsigned(g.draw(1000000)));
    int n = g.range(6, 15), agree = g.range(0, n / 2 - 1), need = g.range(n / 2 + 1, n);
    Scene s = gen(g, n, 0);
    for (int i = agree; i < n; ++i) s.poses[i].t = s.poses[i].t + s.scale * V3(g.sym(50), g.sym(50), g.sym(50));
    auto lp = lib(s);
    auto v = rounded(lp);
    g.nontrivial();
    g.note() << n << " poses, " << agree << " agree, " << need << " required";
    bool fl = g.oneIn(3);
    ld thr = 1e-2L * s.scale;
    int near = 0;
    bool ok;
    V3 pw, pm;
    if (fl) {
        Math::Optimization::RansacParameter<float> par(float(thr), std::size_t(4), std::size_t(need), std::size_t(60));
        Math::Vector<float, 3> lw, lm;
        ok = T::estimatePosition3D_6D(lw, lp, lm, par);
        pw = V3(lw(0), lw(1), lw(2)); pm = V3(lm(0), lm(1), lm(2));
    } else {
        Math::Optimization::RansacParameter<double> par(double(thr), std::size_t(4), std::size_t(need), std::size_t(60));
        Math::Vector<double, 3> lw, lm;
        ok = T::estimatePosition3D_6D(lw, lp, lm, par);
        pw = v3(lw); pm = v3(lm);
    }
    g.cls(ok ? "found" : "not found");
    if (!ok) return;
    // the final estimate uses all inliers and may move by a few thresholds
    for (auto& p : v) if (ref::norm(pw - (p * pm)) < 10 * thr) ++near;
    REQ(near >= need, "success is reported although the result explains " << near << " of " << n << " poses, " << need << " are required");
}
PROP(ransac_with_few_poses, 300, 10000, "always") {
    Mute mute;
    srand(unsigned(g.draw(1000000)));
    int n = g.range(3, 5);
    Scene s = gen(g, n, 0);
    auto lp = lib(s);
    auto v = rounded(lp);
    for (int skip = 0; skip <= n; ++skip) { // all poses, and every sample of three out of four
        if (n == 3 && skip < n) continue;
        std::vector<P> c;
        for (int i = 0; i < n; ++i) if (i != skip) c.push_back(v[i]);
        V3 pm, pw;
        g.assume(leastSquares(c, pm, pw).back() > 0.2L);
    }
    g.nontrivial();
    std::size_t set = n == 3 ? 3 : n - 1, need = g.range(1, n);
    g.note() << n << " poses, " << need << " required";
    g.cls(n == 3 ? "three poses" : "more poses");
    Math::Optimization::RansacParameter<double> par(double(1e-3L * s.scale), set, need, std::size_t(g.range(1, 10)));
    Math::Vector<double, 3> lw, lm;
    REQ(T::estimatePosition3D_6D(lw, lp, lm, par), "no tip was found although " << n << " poses are exact");
    ld sz = spread(v) + ref::norm(s.pm) + ref::norm(s.pw) + s.scale * 1e-3L;
    REQ(ref::norm(v3(lw) - s.pw) < 1e-10L * sz, "tip in world coordinates is " << double(ref::norm(v3(lw) - s.pw)) << " away");
    REQ(ref::norm(v3(lm) - s.pm) < 1e-10L * sz, "tip in body coordinates is " << double(ref::norm(v3(lm) - s.pm)) << " away");
}
PROP(ransac, 400, 15000, "outliers are present") {
    Mute mute;
    srand(unsigned(g.draw(1000000)));
    int n = g.range(8, 25), out = g.range(0, n / 5);
    ld noise = g.coin() ? 0 : ld(g.logreal(1e-6, 3e-3));
    Scene s = gen(g, n, noise);
    std::vector<int> id(n);
    for (int i = 0; i < n; ++i) id[i] = i;
    g.shuffle(id);
    ld thr = (noise > 0 ? 20 * noise : 1e-3L) * s.scale;
    for (int i = 0; i < out; ++i) {
        V3 d;
        do d = V3(ref::genVr(g, 1)); while (ref::norm(d) < 0.2L && g.coin());
        if (ref::norm(d) < 0.2L) d = V3(0.5L, -0.3L, 0.4L);
        s.poses[id[i]].t = s.poses[id[i]].t + s.scale * ld(g.real(3, 10)) * d;
    }
    auto lp = lib(s);
    auto v = rounded(lp);
    std::vector<P> in;
    for (int i = out; i < n; ++i) in.push_back(v[id[i]]);
    V3 pm, pw;
    auto sv = leastSquares(in, pm, pw);
    g.assume(sv.back() > 1);
    g.nontrivial(out > 0);
    g.cls(out > 0 ? "outliers" : "clean");
    g.note() << n << " poses, " << out << " outliers, noise " << double(noise);
    ld sz = spread(v) + ref::norm(pm) + ref::norm(pw) + s.scale * 1e-3L;
    Math::Optimization::RansacParameter<double> par(double(thr), std::size_t(4), std::size_t(n * 3 / 5), std::size_t(200));
    Math::Vector<double, 3> lw, lm;
    bool ok = T::estimatePosition3D_6D(lw, lp, lm, par);
    if (!ok) {
        // fine samples have exact poses with different axes; a set of poses with degenerate samples may end with degenerate inliers
        int good = 0; unsigned lcg = 12345; for (int k = 0; k < 200 && noise == 0; ++k) { std::vector<P> c(in), four; for (int i = 0; i < 4; ++i) { lcg = lcg * 1664525u + 1013904223u; std::size_t q = (lcg >> 8) % c.size(); four.push_back(c[q]); c.erase(c.begin() + q); } V3 fm, fw; if (leastSquares(four, fm, fw).back() > 0.3L) ++good; }
        REQ(good < 200, "no tip was found although " << n - out << " of " << n << " poses are exact"); g.cls("not found"); return; }
    g.cls("found");
    int near = 0;
    for (auto& p : v) if (ref::norm(v3(lw) - (p * v3(lm))) < 3 * thr) ++near;
    REQ(near >= n * 3 / 5, "the result explains " << near << " of " << n << " poses, " << n * 3 / 5 << " are required");
    std::vector<P> both;
    for (auto& p : in) if (ref::norm(v3(lw) - (p * v3(lm))) < 3 * thr) both.push_back(p);
    auto sb = leastSquares(both, pm, pw);
    ld tol = 5 * thr * std::sqrt(ld(n)) / sb.back();
    REQ(ref::norm(v3(lw) - s.pw) < tol + 1e-10L * sz, "tip in world coordinates is " << double(ref::norm(v3(lw) - s.pw)) << " away, tolerance " << double(tol));
    REQ(ref::norm(v3(lm) - s.pm) < tol + 1e-10L * sz, "tip in body coordinates is " << double(ref::norm(v3(lm) - s.pm)) << " away, tolerance " << double(tol));
    if (out == 0 && noise == 0) g.cls("all exact");
}
