// P25: pose of an object seen by several cameras, and bundle adjustment.
#include "pbt.h"
#include "ut.h"
#include <boost/numeric/ublas/vector_proxy.hpp>
#include <boost/numeric/ublas/matrix_proxy.hpp>
#include <utMath/ErrorPose.h>
#include <utMath/Scalar.h>
#include <utAlgorithm/MultipleCameraPoseOptimization.h>
#include <utAlgorithm/BundleAdjustment.h>
#include <utUtil/Exception.h>
using namespace Ubitrack; typedef long double ld; typedef ref::V3 V3; typedef Math::Scalar<double> S;
namespace {
struct P2 { ld x, y; };
ref::M genK(pbt::Ctx& g, bool pix) { ref::M K(3, 3); ld f = pix ? ld(g.logreal(50, 3000)) : ld(g.real(0.5, 3)); K(0, 0) = f; K(1, 1) = f * g.real(0.8, 1.25); K(0, 1) = g.oneIn(3) ? f * g.sym(0.1) : 0; K(0, 2) = f * g.sym(0.5); K(1, 2) = f * g.sym(0.5); K(2, 2) = -1; for (auto& v : K.d) v = double(v); return K; }
P2 proj(const ref::M& K, const ref::P& e, const V3& x) { V3 c = e * x; ld w = K(2, 2) * c[2]; return P2{(K(0, 0) * c[0] + K(0, 1) * c[1] + K(0, 2) * c[2]) / w, (K(1, 1) * c[1] + K(1, 2) * c[2]) / w}; }
/// the object in front of several cameras
struct Scene {
    bool allPix = false; int n, m; ld sc; std::vector<V3> X; ref::P obj; std::vector<ref::P> cam; std::vector<ref::M> K; std::vector<std::vector<P2>> x; std::vector<std::vector<int>> see; ld cond, dist; int full;
    std::vector<Math::Vector<double, 3>> p3; std::vector<std::vector<Math::Vector<double, 2>>> p2; std::vector<std::vector<S>> w; std::vector<Math::Pose> cp; std::vector<Math::Matrix<double, 3, 3>> km;
    int count(int c) const { int k = 0; for (int s : see[c]) k += s; return k; }
    ld sse(const ref::P& o) const { ld s = 0; for (int c = 0; c < m; ++c) for (int i = 0; i < n; ++i) if (see[c][i]) { P2 p = proj(K[c], cam[c] * o, X[i]); s += (p.x - x[c][i].x) * (p.x - x[c][i].x) + (p.y - x[c][i].y) * (p.y - x[c][i].y); } return s; }
    std::vector<ld> res(const ref::P& o) const { std::vector<ld> r; for (int c = 0; c < m; ++c) for (int i = 0; i < n; ++i) if (see[c][i]) { P2 p = proj(K[c], cam[c] * o, X[i]); r.push_back((p.x - x[c][i].x) / K[c](0, 0)); r.push_back((p.y - x[c][i].y) / K[c](0, 0)); } return r; }
    ld off(const ref::P& o) const { ld d = 0; for (auto& p : X) d = std::max(d, ref::norm(o * p - obj * p)); return d / dist; }
    int obs() const { int k = 0; for (int c = 0; c < m; ++c) k += count(c); return k; }
};
ref::P moved(const ref::P& e, const std::vector<ld>& d) { ref::P r; r.q = ref::unit(e.q * ref::expv(V3(d[3], d[4], d[5]))); r.t = e.t + V3(d[0], d[1], d[2]); return r; }
ref::P dbl(ref::P p) { p.q = ref::unit(p.q); ref::P r = p; r.q = ref::Q(double(p.q.x), double(p.q.y), double(p.q.z), double(p.q.w)); r.t = V3(double(p.t[0]), double(p.t[1]), double(p.t[2])); return r; }
/// planar: the points lie in one plane and one camera sees all of them; minSee: points every camera sees at least
bool gen(pbt::Ctx& g, Scene& s, bool planar, ld noise, int minN, int minSee, int maxCam = 4) {
    s.m = g.range(1, maxCam); s.n = g.many(minN, 10, 40); s.sc = !s.allPix && g.oneIn(4) ? ld(g.logreal(0.05, 20)) : 1; s.dist = 5 * s.sc; s.full = g.range(0, s.m - 1);
    ref::Q tilt = ref::unit(ref::genQuniform(g)); V3 o = g.coin() ? V3(0, 0, 0) : V3(ref::genVr(g, 2)); if (g.oneIn(4)) o = o + V3(g.sym(6), g.sym(6), 0); bool anyPlane = planar && g.coin(); s.X.clear();
    for (int i = 0; i < s.n; ++i) { V3 p = i < 4 ? V3((i == 1 || i == 2) ? 1 : -1, i >= 2 ? 1 : -1, 0) + V3(g.sym(0.2), g.sym(0.2), 0) : V3(g.sym(1), g.sym(1), 0); if (!planar) p[2] = g.sym(1); if (anyPlane) p = ref::rot(tilt, p); else if (planar) o = V3(o[0], o[1], o[2]); p = s.sc * (p + o); for (int k = 0; k < 3; ++k) p[k] = double(p[k]); s.X.push_back(p); }
    if (planar && !anyPlane) for (auto& p : s.X) p[2] = s.X[0][2];
    V3 c(0, 0, 0); for (auto& p : s.X) c = c + (1.0L / s.n) * p; s.obj = dbl(ref::P{ref::genQuniform(g), s.sc * V3(ref::genVr(g, 4))});
    for (int k = 0; k < s.m; ++k) {
        ref::P e; e.q = ref::unit(ref::genQuniform(g)); e.t = V3(s.sc * g.sym(1), s.sc * g.sym(1), -s.sc * g.real(2.5, 8)) - ref::rot(e.q, c); ref::P cam = dbl(e * ref::inv(s.obj)); s.cam.push_back(cam); s.K.push_back(genK(g, s.allPix || g.coin()));
        for (auto& p : s.X) if (!((cam * (s.obj * p))[2] < -0.4L * s.sc)) return false;
        std::vector<P2> xs; for (auto& p : s.X) { P2 u = proj(s.K[k], cam * s.obj, p); u.x += noise * s.K[k](0, 0) * g.sym(1); u.y += noise * s.K[k](0, 0) * g.sym(1); xs.push_back(P2{ld(double(u.x)), ld(double(u.y))}); } s.x.push_back(xs);
        std::vector<int> see(s.n, 1); if (k != s.full) { int drop = g.range(planar ? 1 : 0, std::max(planar ? 1 : 0, s.n - minSee)); auto ord = std::vector<int>(); for (int i = 0; i < s.n; ++i) ord.push_back(i); g.shuffle(ord); for (int i = 0; i < drop && i < s.n; ++i) see[ord[i]] = 0; } s.see.push_back(see);
    }
    { // conditioning of the homography of the camera that sees everything (planar), and of the pose problem
        const ref::P e = s.cam[s.full] * s.obj; ref::M J = ref::jac([&](const std::vector<ld>& d) { std::vector<ld> dd(d); for (int i = 0; i < 3; ++i) dd[i] *= s.sc; return s.res(moved(s.obj, dd)); }, std::vector<ld>(6, 0)); auto sv = ref::singularValues(J); s.cond = sv[0] / sv[5]; if (!(s.cond < 1e4L)) return false;
        if (planar) { V3 u = s.X[1] - s.X[0], w = s.X[2] - s.X[0]; V3 ex = (1 / ref::norm(u)) * u, ez = ref::cross(ex, w); if (!(std::fabs(ref::dot(u, w)) < 0.78L * ref::norm(u) * ref::norm(w))) return false; ez = (1 / ref::norm(ez)) * ez; V3 ey = ref::cross(ez, ex); int m4 = anyPlane ? 4 : s.n; ref::M A(2 * m4 + (m4 == 4 ? 1 : 0), 9); auto& xs = s.x[s.full]; auto& K = s.K[s.full]; V3 oo = 0.25L * (s.X[0] + s.X[1] + s.X[2] + s.X[3]); for (int i = 0; i < m4; ++i) { V3 d = (1 / s.sc) * (s.X[i] - oo); ld a = ref::dot(d, ex), b = ref::dot(d, ey); P2 q{(xs[i].x - xs[0].x) / K(0, 0), (xs[i].y - xs[0].y) / K(1, 1)}; ld r0[9] = {a, b, 1, 0, 0, 0, -q.x * a, -q.x * b, -q.x}, r1[9] = {0, 0, 0, a, b, 1, -q.y * a, -q.y * b, -q.y}; for (int j = 0; j < 9; ++j) { A(2 * i, j) = r0[j]; A(2 * i + 1, j) = r1[j]; } } auto hv = ref::singularValues(A); s.cond = std::max(s.cond, hv[0] / hv[7]); if (!(s.cond < 1e4L)) return false; (void)e; }
    }
    for (auto& p : s.X) s.p3.push_back(ut::v(p)); bool unitW = g.coin();
    for (int k = 0; k < s.m; ++k) { std::vector<Math::Vector<double, 2>> q; std::vector<S> w; for (int i = 0; i < s.n; ++i) { Math::Vector<double, 2> v; v(0) = double(s.x[k][i].x); v(1) = double(s.x[k][i].y); if (!s.see[k][i]) { v(0) = double(g.sym(1000)); v(1) = g.oneIn(3) ? std::nan("") : double(g.sym(1000)); } q.push_back(v); w.push_back(S(s.see[k][i] ? (unitW ? 1.0 : double(g.real(0.1, 3))) : 0.0)); } s.p2.push_back(q); s.w.push_back(w); s.cp.push_back(ut::p(s.cam[k])); Math::Matrix<double, 3, 3> km; ut::set(km, s.K[k]); s.km.push_back(km); }
    return true;
}
ref::P refine(const Scene& s, ref::P e) {
    auto fres = [&](const ref::P& o) { std::vector<ld> r; for (int c = 0; c < s.m; ++c) for (int i = 0; i < s.n; ++i) if (s.see[c][i]) { P2 p = proj(s.K[c], s.cam[c] * o, s.X[i]); r.push_back(p.x - s.x[c][i].x); r.push_back(p.y - s.x[c][i].y); } return r; };
    for (int it = 0; it < 40; ++it) { auto f = [&](const std::vector<ld>& v) { return fres(moved(e, v)); }; std::vector<ld> z(6, 0), r = f(z); ref::M J = ref::jac(f, z), b(int(r.size()), 1); for (std::size_t i = 0; i < r.size(); ++i) b(int(i), 0) = -r[i]; ref::M d = ref::solve(J, b); std::vector<ld> dv; for (int i = 0; i < 6; ++i) dv.push_back(d(i, 0)); ref::P n = moved(e, dv); if (!(s.sse(n) <= s.sse(e))) break; e = n; }
    return e;
}
ld focal2(const Scene& s) { ld f = 0; for (auto& K : s.K) f = std::max(f, K(0, 0) * K(0, 0)); return f; }
void covIs(const Math::ErrorPose& p, double res) { const auto& C = p.covariance(); for (int i = 0; i < 6; ++i) for (int j = 0; j < 6; ++j) REQ(std::fabs(C(i, j) - (i == j ? res : 0)) <= 1e-12 * std::fabs(res), "covariance element " << i << "," << j << " is " << C(i, j) << " with residual " << res); }
bool same(const Math::Pose& a, const Math::Pose& b) { return a.rotation().x() == b.rotation().x() && a.rotation().y() == b.rotation().y() && a.rotation().z() == b.rotation().z() && a.rotation().w() == b.rotation().w() && a.translation()(0) == b.translation()(0) && a.translation()(1) == b.translation()(1) && a.translation()(2) == b.translation()(2); }
}

PROP(exact_images_no_initial_pose, 1500, 40000, "at least two cameras, and an object that is not in the origin of the world")
{
    Scene s; g.assume(gen(g, s, true, 0, 4, 3)); int minObs = s.n; for (int c = 0; c < s.m; ++c) minObs = std::min(minObs, s.count(c)); int minCorr = g.range(0, minObs); g.nontrivial(s.m > 1); g.cls(s.m == 1 ? "one camera" : s.m == 2 ? "two cameras" : "more cameras"); g.note() << s.m << " cameras, " << s.n << " points, " << s.obs() << " observations, condition " << double(s.cond);
    Math::ErrorPose pose; S weight(-5); Algorithm::multipleCameraPoseEstimation(s.p3, s.p2, s.w, s.cp, s.km, minCorr, pose, weight);
    ld d = s.off(ut::r(Math::Pose(pose))), tol = 2e-13L * s.cond * s.cond + 1e-8L; REQ(d < tol, "object is " << double(d) << " (relative) away, tolerance " << double(tol)); REQ(double(weight) >= 0 && double(weight) <= double(focal2(s) * tol * tol * 100 * s.obs()), "residual " << double(weight)); covIs(pose, double(weight));
}

PROP(initial_pose_given, 1500, 40000, "the initial pose differs from the pose by more than 1e-3")
{
    bool planar = g.coin(); Scene s; s.allPix = g.coin(); g.assume(gen(g, s, planar, 0, planar ? 4 : 3, 0)); g.assume(s.cond < 100); if (s.n == 3) g.cls("three points"); int minObs = s.n; for (int c = 0; c < s.m; ++c) minObs = std::min(minObs, s.count(c)); int minCorr = g.range(0, minObs);
    ld a = g.oneIn(4) ? 0.0L : ld(g.logreal(1e-4, 0.1)); std::vector<ld> d; for (int i = 0; i < 6; ++i) d.push_back(a * g.sym(1) * (i < 3 ? s.sc : 1)); ref::P init = dbl(moved(s.obj, d)); g.nontrivial(a > 1e-3L); g.note() << s.m << " cameras, " << s.n << " points, condition " << double(s.cond) << ", initial pose off by " << double(a);
    bool behind = false; for (int c = 0; c < s.m; ++c) for (auto& p : s.X) behind = behind || !((s.cam[c] * (init * p))[2] < -0.3L * s.sc); g.assume(!behind);
    Math::ErrorPose pose; S weight(-5); Algorithm::multipleCameraPoseEstimation(s.p3, s.p2, s.w, s.cp, s.km, minCorr, pose, weight, true, ut::p(init));
    ref::P got = ut::r(Math::Pose(pose)); ld before = s.sse(init), after = s.sse(got), rnd = 1e-20L * focal2(s) * s.obs();
    REQ(std::fabs(ld(double(weight)) - after) <= 1e-6L * after + rnd, "the weight is " << double(weight) << ", the summed squared reprojection error of the result " << double(after)); covIs(pose, double(weight));
    REQ(after <= before * (1 + 1e-9L) + rnd, "reprojection error grew from " << double(before) << " to " << double(after)); REQ(std::fabs(ref::norm(ut::r(pose.rotation())) - 1) < 1e-9L, "rotation is not normalized");
    bool pix = true; for (auto& K : s.K) pix = pix && K(0, 0) >= 50 * s.sc; if (pix && (a * s.cond < 0.5L || (s.n > 3 && s.cond < 20))) { g.cls("pixel units"); ld dd = s.off(got); REQ(dd < (s.cond < 20 ? 1e-3L : 2e-2L) * a + 1e-8L, "object is " << double(dd) << " (relative) away after starting " << double(s.off(init)) << " away"); }
}

PROP(noisy_images, 800, 20000, "more than one camera, noise above 1e-5")
{
    ld noise = g.logreal(1e-6, 2e-3); Scene s; s.allPix = true; g.assume(gen(g, s, true, noise, 5, 4)); g.assume(s.cond < 100 && s.cond * noise < 0.02L); g.nontrivial(s.m > 1 && noise > 1e-5L); g.note() << s.m << " cameras, " << s.n << " points, condition " << double(s.cond) << ", noise " << double(noise);
    for (auto& K : s.K) g.assume(K(0, 0) >= 50 * s.sc);
    Math::ErrorPose pose; S weight(-5); Algorithm::multipleCameraPoseEstimation(s.p3, s.p2, s.w, s.cp, s.km, 4, pose, weight); ref::P got = ut::r(Math::Pose(pose)), best = refine(s, s.obj); ld b = s.sse(best), r = s.sse(got);
    REQ(std::fabs(ld(double(weight)) - r) <= 1e-6L * r + 1e-20L * focal2(s), "the weight is " << double(weight) << ", the summed squared reprojection error of the result " << double(r));
    REQ(r <= b * 1.00002L + 1e-12L * focal2(s), "reprojection error " << double(r) << ", the best pose has " << double(b)); ld d = s.off(best), dg = s.off(got); REQ(dg < d * 2 + noise * s.cond + 1e-9L, "object is " << double(dg) << " away, at the minimum " << double(d));
}

PROP(too_few_observations, 600, 20000, "the observations are just too few, or just enough")
{
    Scene s; g.assume(gen(g, s, true, 0, 4, 3)); bool init = g.coin(); int m = s.m; int keep = g.range(0, 5); for (int c = 0; c < m; ++c) { int k = 0; for (int i = 0; i < s.n; ++i) if (s.see[c][i]) { if (k >= keep + (c == s.full ? g.range(0, 1) : 0)) { s.see[c][i] = 0; s.w[c][i] = S(0.0); } else ++k; } }
    int mn = 100, mx = 0, minCorr = g.range(0, 6); for (int c = 0; c < m; ++c) { mn = std::min(mn, s.count(c)); mx = std::max(mx, s.count(c)); } bool enough = mn >= minCorr && (init || mx >= 4); g.nontrivial(std::abs(mn - minCorr) <= 1 || std::abs(mx - 4) <= 1); g.note() << "fewest " << mn << ", most " << mx << ", required " << minCorr << (init ? ", initial pose" : ""); g.cls(enough ? "enough" : "too few"); g.assume(!(enough && mx == 0));
    Math::ErrorPose pose(Math::Quaternion(0, 1, 0, 0), Math::Vector<double, 3>(1, 2, 3), Math::Matrix<double, 6, 6>::identity()); S weight(-5); auto call = [&] { Algorithm::multipleCameraPoseEstimation(s.p3, s.p2, s.w, s.cp, s.km, minCorr, pose, weight, init, ut::p(s.obj)); };
    if (enough) { bool thrown = false; try { call(); } catch (const Util::Exception&) { thrown = true; } if (init) { REQ(!thrown, "exception although an initial pose was given"); REQ(s.off(ut::r(Math::Pose(pose))) < 1e-6L, "exact initial pose was lost"); } if (!thrown) REQ(double(weight) >= 0, "weight " << double(weight) << " with enough observations"); }
    else { call(); REQ(double(weight) == -1, "weight is " << double(weight) << " with too few observations"); Math::ErrorPose none; REQ(same(pose, none), "pose is not the neutral pose with too few observations"); }
}

PROP(inconsistent_input, 400, 10000, "always")
{
    Scene s; g.assume(gen(g, s, true, 0, 4, 3, 3)); g.nontrivial(); int what = g.range(0, 8); int c = g.range(0, s.m - 1);
    switch (what) { case 0: s.p3.pop_back(); break; case 1: s.p3.push_back(s.p3[0]); break; case 2: s.p2.pop_back(); break; case 3: s.w.pop_back(); break; case 4: s.cp.pop_back(); break; case 5: s.km.pop_back(); break; case 6: s.p2[c].pop_back(); break; case 7: s.w[c].pop_back(); break;
    default: s.p3.resize(2); for (auto& v : s.p2) v.resize(2); for (auto& v : s.w) v.resize(2); } g.cls("kind " + std::to_string(what));
    bool a = false, b = false; Math::ErrorPose pose; S weight(-5); std::vector<Math::ErrorPose> poses; std::vector<S> ws; std::vector<Math::Scalar<int>> sizes(1, Math::Scalar<int>(int(s.p3.size())));
    try { Algorithm::multipleCameraPoseEstimation(s.p3, s.p2, s.w, s.cp, s.km, 0, pose, weight, true, ut::p(s.obj)); } catch (const Util::Exception&) { a = true; }
    try { Algorithm::multipleCameraPoseEstimationWithLocalBundles(s.p3, s.p2, s.w, s.cp, s.km, 0, poses, ws, sizes); } catch (const Util::Exception&) { b = true; }
    REQ(a, "no exception from multipleCameraPoseEstimation"); REQ(b, "no exception from multipleCameraPoseEstimationWithLocalBundles"); REQ(poses.empty() && ws.empty(), "poses were added although the input is inconsistent");
}

PROP(no_cameras, 20, 200, "always")
{
    Scene s; g.assume(gen(g, s, true, 0, 4, 3, 1)); g.nontrivial(); s.p2.clear(); s.w.clear(); s.cp.clear(); s.km.clear(); Math::ErrorPose pose; S weight(-5); bool thrown = false;
    try { Algorithm::multipleCameraPoseEstimation(s.p3, s.p2, s.w, s.cp, s.km, g.range(0, 3), pose, weight, g.coin(), ut::p(s.obj)); } catch (const Util::Exception&) { thrown = true; }
    REQ(thrown || double(weight) == -1, "weight " << double(weight) << " without any camera");
}

PROP(local_bundles, 600, 15000, "at least two bundles with enough observations")
{
    // several objects, all seen by the same cameras: every bundle is estimated as if it were alone
    int nb = g.range(1, 4); std::vector<Math::Vector<double, 3>> p3; std::vector<std::vector<Math::Vector<double, 2>>> p2; std::vector<std::vector<S>> w; std::vector<Math::Pose> cp; std::vector<Math::Matrix<double, 3, 3>> km; std::vector<Math::Scalar<int>> sizes; std::vector<Scene> scenes; std::vector<ref::P> objs; std::vector<ref::P> cams; std::vector<ref::M> Ks;
    Scene s0; g.assume(gen(g, s0, true, 0, 4, 3, 3)); cams = s0.cam; Ks = s0.K; int m = s0.m; cp = s0.cp; km = s0.km; p2.resize(m); w.resize(m); int minCorr = g.range(0, 4);
    std::vector<std::pair<int, int>> range; int total = 0;
    for (int b = 0; b < nb; ++b) {
        if (g.oneIn(6)) { sizes.push_back(Math::Scalar<int>(0)); range.push_back(std::make_pair(total, total)); continue; }
        std::vector<ld> d; for (int i = 0; i < 6; ++i) d.push_back(g.sym(0.2) * (i < 3 ? s0.sc : 1)); ref::P o = b == 0 ? s0.obj : moved(s0.obj, d);
        for (int i = 0; i < s0.n; ++i) p3.push_back(ut::v(s0.X[i]));
        for (int c = 0; c < m; ++c) for (int i = 0; i < s0.n; ++i) { P2 u = proj(s0.K[c], s0.cam[c] * o, s0.X[i]); Math::Vector<double, 2> v; v(0) = double(u.x); v(1) = double(u.y); p2[c].push_back(v); w[c].push_back(S(g.oneIn(12) ? 0.0 : 1.0)); }
        sizes.push_back(Math::Scalar<int>(s0.n)); range.push_back(std::make_pair(total, total + s0.n)); total += s0.n;
    }
    int extra = total < 3 ? 3 : g.range(0, 2); for (int i = 0; i < extra; ++i) { p3.push_back(ut::v(s0.X[i % s0.n])); for (int c = 0; c < m; ++c) { Math::Vector<double, 2> v; v(0) = 1; v(1) = 2; p2[c].push_back(v); w[c].push_back(S(1.0)); } }   // points that belong to no bundle
    std::vector<Math::ErrorPose> poses; std::vector<S> ws; int pre = g.range(0, 2); for (int i = 0; i < pre; ++i) { poses.push_back(Math::ErrorPose(Math::Quaternion(1, 0, 0, 0), Math::Vector<double, 3>(i, 7, 7), Math::Matrix<double, 6, 6>::identity())); ws.push_back(S(100.0 + i)); }
    bool thrown = false; try { Algorithm::multipleCameraPoseEstimationWithLocalBundles(p3, p2, w, cp, km, minCorr, poses, ws, sizes); } catch (const Util::Exception&) { thrown = true; } g.assume(!thrown);   // dropped points can leave three points on a line
    REQ(poses.size() == std::size_t(pre + nb) && ws.size() == std::size_t(pre + nb), poses.size() << " poses, " << ws.size() << " weights for " << nb << " bundles"); int good = 0;
    for (int i = 0; i < pre; ++i) REQ(poses[i].translation()(0) == i && double(ws[i]) == 100 + i, "an earlier entry was changed");
    for (int b = 0; b < nb; ++b) {
        int lo = range[b].first, hi = range[b].second; const Math::ErrorPose& got = poses[pre + b]; double gw = ws[pre + b];
        if (hi == lo) { g.cls("empty bundle"); REQ(gw == -1 && same(got, Math::ErrorPose()), "an empty bundle has weight " << gw); continue; }
        std::vector<Math::Vector<double, 3>> q3(p3.begin() + lo, p3.begin() + hi); std::vector<std::vector<Math::Vector<double, 2>>> q2(m); std::vector<std::vector<S>> qw(m); for (int c = 0; c < m; ++c) { q2[c].assign(p2[c].begin() + lo, p2[c].begin() + hi); qw[c].assign(w[c].begin() + lo, w[c].begin() + hi); }
        Math::ErrorPose one; S ow(-5); Algorithm::multipleCameraPoseEstimation(q3, q2, qw, cp, km, minCorr, one, ow); REQ(double(ow) == gw && same(one, got), "bundle " << b << " has weight " << gw << ", estimated alone it has " << double(ow)); good += gw >= 0;
    }
    g.nontrivial(good >= 2);
}

// ---- bundle adjustment ----
namespace {
struct BA { int m, n; std::vector<ref::P> cam; std::vector<V3> X; std::vector<std::vector<P2>> x; };
ld sse(const std::vector<ref::P>& cam, const std::vector<V3>& X, const std::vector<std::vector<P2>>& x) { ld s = 0; for (std::size_t c = 0; c < cam.size(); ++c) for (std::size_t i = 0; i < X.size(); ++i) { V3 p = cam[c] * X[i]; ld u = p[0] / p[2] - x[c][i].x, v = p[1] / p[2] - x[c][i].y; s += u * u + v * v; } return s; }
template <class T> void ba(pbt::Ctx& g) {
    BA s; s.m = g.range(2, 6); s.n = g.many(6, 20, 40); bool front = g.coin(); ld noise = g.coin() ? 0.0L : ld(g.logreal(1e-6, 3e-3)), pert = g.oneIn(4) ? 0.0L : ld(g.logreal(1e-4, 0.05)); if (sizeof(T) == 4) { if (pert > 0) pert = std::max<ld>(pert, 1e-3L); }
    for (int i = 0; i < s.n; ++i) s.X.push_back(V3(T(g.sym(1)), T(g.sym(1)), T(g.sym(1))));
    for (int c = 0; c < s.m; ++c) { ref::P e; e.q = ref::unit(ref::genQuniform(g)); e.t = V3(g.sym(0.5), g.sym(0.5), (front ? 1 : -1) * g.real(3, 6)); s.cam.push_back(dbl(e)); std::vector<P2> xs; for (auto& p : s.X) { V3 q = s.cam[c] * p; xs.push_back(P2{ld(T(q[0] / q[2] + noise * g.sym(1))), ld(T(q[1] / q[2] + noise * g.sym(1)))}); } s.x.push_back(xs); }
    g.nontrivial(pert > 1e-3L); g.note() << s.m << " cameras, " << s.n << " points, noise " << double(noise) << ", start off by " << double(pert);
    std::vector<ref::P> c0; std::vector<V3> X0; for (auto& e : s.cam) { std::vector<ld> d; for (int i = 0; i < 6; ++i) d.push_back(pert * g.sym(1)); c0.push_back(dbl(moved(e, d))); } for (auto& p : s.X) X0.push_back(V3(T(p[0] + pert * g.sym(1)), T(p[1] + pert * g.sym(1)), T(p[2] + pert * g.sym(1))));
    std::vector<std::vector<Math::Vector<T, 2>>> p2; std::vector<Math::Pose> poses; std::vector<Math::Vector<T, 3>> p3; for (auto& xs : s.x) { std::vector<Math::Vector<T, 2>> q; for (auto& u : xs) { Math::Vector<T, 2> v; v(0) = T(u.x); v(1) = T(u.y); q.push_back(v); } p2.push_back(q); } for (auto& e : c0) poses.push_back(ut::p(e)); for (auto& p : X0) { Math::Vector<T, 3> v; for (int i = 0; i < 3; ++i) v(i) = T(p[i]); p3.push_back(v); }
    Algorithm::simpleBundleAdjustment(p2, poses, p3); REQ(poses.size() == c0.size() && p3.size() == X0.size(), "number of cameras or points changed");
    std::vector<ref::P> c1; std::vector<V3> X1; for (auto& p : poses) { c1.push_back(ut::r(p)); REQ(std::fabs(ref::norm(ut::r(p.rotation())) - 1) < 1e-6L, "rotation is not normalized"); } for (auto& p : p3) X1.push_back(V3(p(0), p(1), p(2)));
    ld before = sse(c0, X0, s.x), after = sse(c1, X1, s.x), truth = sse(s.cam, s.X, s.x), unit = ld(s.m) * s.n * (sizeof(T) == 4 ? 1e-10L : 1e-24L);
    REQ(after <= before * (1 + 1e-6L) + unit, "reprojection error grew from " << double(before) << " to " << double(after) << " (error of the true scene " << double(truth) << ")");
    // ten iterations from a start this close reach the error of the true scene, up to a small part of where they started
    REQ(after <= truth * 1.001L + before * 1e-6L + unit, "reprojection error " << double(after) << " from " << double(before) << ", the true scene has " << double(truth));
    // the scene is still the scene: no point or camera ran away (gauge directions are not penalized, but not followed either)
    for (int i = 0; i < s.n; ++i) {
        ld moved1 = ref::norm(X1[i] - s.X[i]), allowed = 20 * pert + 200 * noise + 1e-2L;
        if (moved1 >= allowed && noise > 0) { // weakly determined scenes: the noise is amplified by the smallest singular value besides the seven of the coordinate system
            g.cls("weakly determined"); std::vector<ld> z(6 * s.m + 3 * s.n, 0); ref::M J = ref::jac([&](const std::vector<ld>& d) { std::vector<ld> r; for (int c = 0; c < s.m; ++c) { ref::P e = moved(s.cam[c], std::vector<ld>(d.begin() + 6 * c, d.begin() + 6 * c + 6)); for (int k = 0; k < s.n; ++k) { const ld* q = &d[6 * s.m + 3 * k]; V3 y = e * (s.X[k] + V3(q[0], q[1], q[2])); r.push_back(y[0] / y[2]); r.push_back(y[1] / y[2]); } } return r; }, z);
            allowed += 10 * noise * std::sqrt(2.0L * s.m * s.n) / std::max<ld>(ref::singularValues(J)[z.size() - 8], 1e-12L);
        }
        REQ(moved1 < allowed, "point " << i << " moved by " << double(moved1) << ", " << double(allowed) << " allowed");
    }
}
}
PROP(bundle_adjustment, 400, 8000, "the start is off by more than 1e-3") { if (g.draw(3)) { g.cls("double"); ba<double>(g); } else { g.cls("float"); ba<float>(g); } }
