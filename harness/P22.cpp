// P22: pose of a camera from known points and their images.
#include "pbt.h"
#include "ut.h"
#include <utAlgorithm/PoseEstimation2D3D/PlanarPoseEstimation.h>
#include <utAlgorithm/PoseEstimation2D3D/NonPlanarPoseEstimation.h>
#include <utUtil/Exception.h>
using namespace Ubitrack; namespace E = Ubitrack::Algorithm::PoseEstimation2D3D; typedef long double ld; typedef ref::V3 V3;
namespace {
struct P2 { ld x, y; };
ref::M genK(pbt::Ctx& g, bool pix) { ref::M K(3, 3); ld f = pix ? ld(g.logreal(50, 3000)) : ld(g.real(0.5, 3)); K(0, 0) = f; K(1, 1) = f * g.real(0.8, 1.25); K(0, 1) = g.oneIn(3) ? f * g.sym(0.1) : 0; K(0, 2) = f * g.sym(0.5); K(1, 2) = f * g.sym(0.5); K(2, 2) = -1; return K; }
P2 proj(const ref::M& K, const ref::P& e, const V3& x) { V3 c = ref::rot(e.q, x) + e.t; ld u = K(0, 0) * c[0] + K(0, 1) * c[1] + K(0, 2) * c[2], v = K(1, 1) * c[1] + K(1, 2) * c[2], w = K(2, 2) * c[2]; return P2{u / w, v / w}; }
ld sse(const ref::M& K, const ref::P& e, const std::vector<V3>& X, const std::vector<P2>& x) { ld s = 0; for (std::size_t i = 0; i < X.size(); ++i) { P2 p = proj(K, e, X[i]); s += (p.x - x[i].x) * (p.x - x[i].x) + (p.y - x[i].y) * (p.y - x[i].y); } return s; }
ref::P rp(const Math::Pose& p) { return ut::r(p); }
ref::P moved(const ref::P& e, const std::vector<ld>& d) { ref::P r; r.q = ref::unit(e.q * ref::expv(V3(d[3], d[4], d[5]))); r.t = e.t + V3(d[0], d[1], d[2]); return r; }
/// Gauss-Newton in long double
ref::P refine(const ref::M& K, ref::P e, const std::vector<V3>& X, const std::vector<P2>& x) { for (int it = 0; it < 60; ++it) { auto f = [&](const std::vector<ld>& v) { std::vector<ld> r; ref::P m = moved(e, v); for (std::size_t i = 0; i < X.size(); ++i) { P2 p = proj(K, m, X[i]); r.push_back(p.x - x[i].x); r.push_back(p.y - x[i].y); } return r; }; std::vector<ld> z(6, 0), r = f(z); ref::M J = ref::jac(f, z), b(int(r.size()), 1); for (std::size_t i = 0; i < r.size(); ++i) b(int(i), 0) = -r[i]; ref::M d = ref::solve(J, b); std::vector<ld> dv; ld st = 0; for (int i = 0; i < 6; ++i) { dv.push_back(d(i, 0)); st += d(i, 0) * d(i, 0); } ref::P n = moved(e, dv); if (!(sse(K, n, X, x) <= sse(K, e, X, x))) break; e = n; if (st < 1e-32L) break; } return e; }
template <class T, int N> std::vector<Math::Vector<T, N>> conv(const std::vector<V3>& X) { std::vector<Math::Vector<T, N>> r; for (auto& p : X) { Math::Vector<T, N> v; for (int i = 0; i < N; ++i) v(i) = T(p[i]); r.push_back(v); } return r; }
template <class T> std::vector<Math::Vector<T, 2>> conv2(const std::vector<P2>& X) { std::vector<Math::Vector<T, 2>> r; for (auto& p : X) { Math::Vector<T, 2> v; v(0) = T(p.x); v(1) = T(p.y); r.push_back(v); } return r; }
/// a scene: camera, points, images; kind 0: plane of constant z, 1: first four points in any plane, 2: points in space
struct Scene { ref::M K; ref::P e; std::vector<V3> X; std::vector<P2> x; ld cond; int kind; };
bool gen(pbt::Ctx& g, Scene& s, int kind, ld noise, int minN = 4) {
    s.kind = kind; s.K = genK(g, g.coin()); for (auto& v : s.K.d) v = double(v); int n = kind == 2 ? g.many(std::max(6, minN), 14, 60) : g.many(minN, 12, 60); ld sc = g.oneIn(3) ? ld(g.logreal(0.01, 100)) : 1; std::vector<V3> loc; bool corners = g.coin(); for (int i = 0; i < n; ++i) { V3 p; if (kind < 2 && corners && i < 4) p = V3((i == 1 || i == 2) ? 1 : -1, i >= 2 ? 1 : -1, 0) + V3(g.sym(0.2), g.sym(0.2), 0); else p = V3(g.sym(1), g.sym(1), kind == 2 ? ld(g.sym(1)) : 0); loc.push_back(p); }
    if (kind == 0) { ld z = g.coin() ? 0 : ld(g.sym(2)); V3 o = g.oneIn(3) ? V3(g.sym(6), g.sym(6), 0) : V3(0, 0, 0); for (auto& p : loc) p = p + V3(0, 0, z) + o; } else if (kind == 1) { ref::Q q = ref::unit(ref::genQuniform(g)); V3 o = g.coin() ? V3(0, 0, 0) : V3(ref::genVr(g, 2)); if (g.coin()) for (int i = 4; i < n; ++i) loc[i][2] = g.sym(0.5); for (auto& p : loc) p = ref::rot(q, p) + o; } else if (g.coin()) { V3 o = ref::genVr(g, 2); for (auto& p : loc) p = p + o; }
    for (auto& p : loc) { p = sc * p; for (int i = 0; i < 3; ++i) p[i] = double(p[i]); } V3 c(0, 0, 0); for (auto& p : loc) c = c + (1.0L / n) * p; s.e.q = ref::unit(ref::genQuniform(g)); V3 where(sc * g.sym(1), sc * g.sym(1), -sc * g.real(2.5, 8)); s.e.t = where - ref::rot(s.e.q, c); s.X = loc; for (auto& p : loc) { V3 cc = ref::rot(s.e.q, p) + s.e.t; if (!(cc[2] < -0.4L * sc)) return false; P2 u = proj(s.K, s.e, p); u.x += noise * s.K(0, 0) * g.sym(1); u.y += noise * s.K(0, 0) * g.sym(1); s.x.push_back(P2{ld(double(u.x)), ld(double(u.y))}); }
    // conditioning of the linear initialization, in normalized units
    if (kind < 2) { V3 u = loc[1] - loc[0], w = loc[2] - loc[0]; ld cs = ref::dot(u, w) / (ref::norm(u) * ref::norm(w)); if (kind == 1 && !(std::fabs(cs) < 0.78L)) return false; V3 ex = (1 / ref::norm(u)) * u, ez = ref::cross(ex, w); if (!(ref::norm(ez) > 1e-9L * ref::norm(w))) return false; ez = (1 / ref::norm(ez)) * ez; V3 ey = ref::cross(ez, ex); int m = kind == 1 ? 4 : n; ref::M A(2 * m + (m == 4 ? 1 : 0), 9); V3 o = (0.25L) * (loc[0] + loc[1] + loc[2] + loc[3]); for (int i = 0; i < m; ++i) { V3 d = (1 / sc) * (loc[i] - o); ld a = ref::dot(d, ex), b = ref::dot(d, ey); P2 q{(s.x[i].x - s.x[0].x) / s.K(0, 0), (s.x[i].y - s.x[0].y) / s.K(1, 1)}; ld r0[9] = {a, b, 1, 0, 0, 0, -q.x * a, -q.x * b, -q.x}, r1[9] = {0, 0, 0, a, b, 1, -q.y * a, -q.y * b, -q.y}; for (int j = 0; j < 9; ++j) { A(2 * i, j) = r0[j]; A(2 * i + 1, j) = r1[j]; } } auto sv = ref::singularValues(A); s.cond = sv[0] / sv[7]; }
    else { ref::M A(2 * n, 12); for (int i = 0; i < n; ++i) { V3 d = (1 / sc) * (loc[i] - c); P2 q{(s.x[i].x - s.x[0].x) / s.K(0, 0), (s.x[i].y - s.x[0].y) / s.K(1, 1)}; ld h[4] = {d[0], d[1], d[2], 1}; for (int j = 0; j < 4; ++j) { A(2 * i, j) = h[j]; A(2 * i + 1, 4 + j) = h[j]; A(2 * i, 8 + j) = -q.x * h[j]; A(2 * i + 1, 8 + j) = -q.y * h[j]; } } auto sv = ref::singularValues(A); s.cond = sv[0] / sv[10]; }
    return s.cond < 1e12L; }
ld sizeOf(const Scene& s) { V3 c(0, 0, 0); for (auto& p : s.X) c = c + (1.0L / s.X.size()) * p; return ref::norm(ref::rot(s.e.q, c) + s.e.t); }
/// distance of two poses relative to the viewing distance: positions of the points in the camera frame
ld off(const Scene& s, const ref::P& a) { ld m = 0; for (auto& p : s.X) m = std::max(m, ref::norm(ref::rot(a.q, p) + a.t - ref::rot(s.e.q, p) - s.e.t)); return m / sizeOf(s); }
const char* kinds[] = {"plane of constant z", "any plane", "points in space"};
/// covariance of the pose by the normal equations in long double
ref::M info(const ref::P& e, const std::function<std::vector<ld>(const ref::P&)>& h) { auto f = [&](const std::vector<ld>& d) { ref::P r; ref::Q dq = ref::unit(ref::Q(d[3], d[4], d[5], std::sqrt(1 - d[3] * d[3] - d[4] * d[4] - d[5] * d[5]))); r.q = e.q * dq; r.t = e.t + V3(d[0], d[1], d[2]); return h(r); }; ref::M J = ref::jac(f, std::vector<ld>(6, 0)); return ref::tr(J) * J; }
template <class T> void covCheck(const Math::Matrix<T, 6, 6>& C, const ref::M& N, ld var, const char* what) { ref::M inv(6, 6); ref::inverse(N, inv); ref::M want = var * inv; std::vector<ld> w; ref::M V; ref::eigSym(N, w, V); ld cond = w[5] / w[0]; ld tol = ((sizeof(T) == 4 ? 1e-4L : 1e-11L) * cond + 1e-7L); for (int i = 0; i < 6; ++i) for (int j = 0; j < 6; ++j) REQ(std::fabs(C(i, j) - want(i, j)) <= tol * std::sqrt(want(i, i) * want(j, j)) * 3 + 1e-300L, what << " element " << i << "," << j << " is " << C(i, j) << ", expected " << double(want(i, j)) << " condition " << double(cond)); }
}
PROP(exact_images, 3000, 100000, "well-conditioned points") {
    Scene s; int kind = g.range(0, 2); g.assume(gen(g, s, kind, 0)); g.assume(s.cond < 1e5L); g.cls(kinds[kind]); int n = int(s.X.size()); g.nontrivial(s.cond < 1e4L); g.note() << n << " points, " << kinds[kind] << " condition " << double(s.cond) << " pose " << s.e; auto X = conv<double, 3>(s.X); auto x = conv2<double>(s.x); Math::Matrix<double, 3, 3> K; ut::set(K, s.K); bool opt = g.coin(); g.cls(opt ? "refined" : "not refined"); double res = -1; auto m = kind == 2 ? E::NONPLANAR_PROJECTION : E::PLANAR_HOMOGRAPHY; if (kind == 0 && n < 6 && g.oneIn(4)) m = E::NONPLANAR_PROJECTION;
    Math::ErrorPose p = E::computePose(x, X, K, res, opt, m); ld tol = 2e-13L * s.cond * s.cond + 1e-9L; ld d = off(s, rp(p)); REQ(d < tol, "points are " << double(d) << " (relative) away in the frame of the camera, tolerance " << double(tol)); REQ(res < tol * s.K(0, 0) + 1e-9L * s.K(0, 0), "residual " << res); Math::ErrorPose p2 = E::computePose(x, X, K, opt, m); REQ(off(s, rp(p2)) < tol, "overload without residual"); REQ(std::fabs(ref::norm(ut::r(p.rotation())) - 1) < 1e-9L, "rotation is not normalized"); }
PROP(noisy_images, 800, 30000, "noise above 1e-5 of the focal length") {
    Scene s; int kind = g.range(0, 2); ld noise = g.logreal(1e-6, 3e-3); g.assume(gen(g, s, kind, noise, 5)); g.assume(s.cond < 300 && s.cond * noise < 0.02L); g.cls(kinds[kind]); int n = int(s.X.size()); auto X = conv<double, 3>(s.X); auto x = conv2<double>(s.x); Math::Matrix<double, 3, 3> K; ut::set(K, s.K); g.nontrivial(noise > 1e-5L); g.note() << n << " points, " << kinds[kind] << " condition " << double(s.cond) << " noise " << double(noise); auto m = kind == 2 ? E::NONPLANAR_PROJECTION : E::PLANAR_HOMOGRAPHY; ref::P best = refine(s.K, s.e, s.X, s.x); ld b = sse(s.K, best, s.X, s.x); double r1, r0; Math::ErrorPose p1 = E::computePose(x, X, K, r1, true, m), p0 = E::computePose(x, X, K, r0, false, m); ld s1 = sse(s.K, rp(p1), s.X, s.x), s0 = sse(s.K, rp(p0), s.X, s.x);
    ref::M N = info(rp(p1), [&](const ref::P& q) { std::vector<ld> r; for (auto& P : s.X) { P2 u = proj(s.K, q, P); r.push_back(u.x); r.push_back(u.y); } return r; }); std::vector<ld> ew; ref::M EV; ref::eigSym(N, ew, EV); bool damp = ew[0] > 0.1L; if (damp) g.cls("six steps suffice"); // else the damping of the few refinement steps dominates
    REQ(std::fabs(r1 - std::sqrt(s1 / (2 * n))) < 1e-6L * r1 + 1e-9L * s.K(0, 0), "residual " << r1 << " of the refined pose, expected " << double(std::sqrt(s1 / (2 * n)))); REQ(std::fabs(r0 - std::sqrt(s0 / (2 * n))) < 1e-6L * r0 + 1e-9L * s.K(0, 0), "residual " << r0 << " of the initial pose, expected " << double(std::sqrt(s0 / (2 * n)))); REQ(s1 <= s0 * (1 + 1e-9L) + 1e-18L, "refinement makes the error " << double(s1) << " out of " << double(s0)); if (damp) REQ(s1 <= b * 1.05L + 1e-12L * s.K(0, 0) * s.K(0, 0), "squared error " << double(s1) << ", the optimum is " << double(b) << " start " << double(s0)); REQ(off(s, rp(p1)) < 40 * s.cond * noise + 1e-6L, "the pose is " << double(off(s, rp(p1))) << " away");
    // the covariance has the shape of the normal equations
    ref::M inv(6, 6); ref::inverse(N, inv); auto C = p1.covariance(); ld k = C(0, 0) / inv(0, 0); REQ(k > 0, "variance " << C(0, 0)); Math::Matrix<double, 6, 6> Cm(C); covCheck<double>(Cm, N, k, "covariance of the pose"); }
namespace {
template <class T> void homography(pbt::Ctx& g) { ref::M K = genK(g, g.coin()); ref::P e; e.q = ref::unit(ref::genQ(g)); e.t = V3(g.sym(3), g.sym(3), -g.logreal(0.2, 20)); ref::M R = ref::rotM(e.q), H(3, 3); ld sc = (g.coin() ? -1 : 1) * ld(g.logreal(1e-3, 1e3)); for (int i = 0; i < 3; ++i) { H(i, 0) = R(i, 0); H(i, 1) = R(i, 1); H(i, 2) = e.t[i]; } H = sc * (K * H); ref::M Ki(3, 3); ref::inverse(K, Ki); Math::Matrix<T, 3, 3> h, ki; ut::set(h, H); ut::set(ki, Ki); g.nontrivial(); g.note() << e << " scale " << double(sc); ref::P p = rp(E::poseFromHomography(h, ki)); ld tol = 300 * ld(std::numeric_limits<T>::epsilon()) * (1 + 0.5L * ref::norm(e.t)) + 1e-12L; REQ(ref::norm(p.t - e.t) < tol * (1 + ref::norm(e.t)), "translation " << p.t << ", expected " << e.t); REQ(ref::rotDist(p.q, e.q) < tol + (sizeof(T) == 4 ? 1e-3L : 0), "rotation is " << double(ref::rotDist(p.q, e.q)) << " away"); }
template <class T> void refineT(pbt::Ctx& g) { const bool fl = sizeof(T) == 4; Scene s; ld noise = g.oneIn(3) ? 0 : ld(g.logreal(1e-5, 1e-2)); g.assume(gen(g, s, g.range(0, 2), noise, 4)); g.assume(s.cond < (fl ? 60 : 300)); int n = int(s.X.size()); for (auto& p : s.X) for (int i = 0; i < 3; ++i) p[i] = T(p[i]); for (auto& p : s.x) { p.x = T(p.x); p.y = T(p.y); } for (auto& v : s.K.d) v = T(v); auto X = conv<T, 3>(s.X); auto x = conv2<T>(s.x); Math::Matrix<T, 3, 3> K; ut::set(K, s.K); ld dist = sizeOf(s); bool far = g.oneIn(4); ld am = far ? ld(0.8) : ld(g.logreal(1e-4, 0.05)); ref::P st; st.q = ref::unit(s.e.q * ref::expv(am * ref::genVr(g, 1))); V3 c(0, 0, 0); for (auto& p : s.X) c = c + (1.0L / n) * p; st.t = ref::rot(s.e.q, c) + s.e.t - ref::rot(st.q, c) + am * 0.3L * dist * ref::genVr(g, 1); ld s0 = sse(s.K, st, s.X, s.x); g.assume(s0 < 1e3L * s.K(0, 0) * s.K(0, 0)); for (auto& p : s.X) g.assume((ref::rot(st.q, p) + st.t)[2] < -0.05L * dist); Math::Pose p = ut::p(st); std::size_t it = g.coin() ? 30 : g.range(1, 10); T r = it == 6 ? E::optimizePose(p, x, X, K) : E::optimizePose(p, x, X, K, it); ref::P e = rp(p); ld s1 = sse(s.K, e, s.X, s.x); ld f2 = s.K(0, 0) * s.K(0, 0); g.nontrivial(noise > 0); g.cls(far ? "far start" : "near start"); g.note() << n << " points, start off by " << double(am) << ", " << it << " iterations";
    // translation and points may cancel: rounding of the image position
    ld big = 0; for (auto& q : s.X) big = std::max(big, ref::norm(q)); big = (big + ref::norm(s.e.t)) / dist; ld ulp = 100 * ld(std::numeric_limits<T>::epsilon()) * big * big; ld fl2 = f2 * n * ulp * ulp; REQ(s1 <= s0 * (1 + 1e-3L) + 100 * fl2, "refinement makes the error " << double(s1) << " out of " << double(s0)); REQ(std::fabs(ld(r) - s1) <= 1e-3L * s1 + 100 * fl2 + 2 * std::sqrt(s1 * fl2 * 100), "returned residual " << r << ", the pose has " << double(s1)); REQ(std::fabs(ref::norm(e.q) - 1) < 1e-5L, "rotation is not normalized"); if (!far && it == 30) { ref::P b = refine(s.K, s.e, s.X, s.x); ld bs = sse(s.K, b, s.X, s.x); REQ(s1 <= bs * 1.05L + f2 * n * 1e-10L + 1000 * fl2, "squared error " << double(s1) << ", the optimum is " << double(bs)); } }
template <class T> void poseError(pbt::Ctx& g) { Scene s; g.assume(gen(g, s, g.range(0, 2), 0, 4)); g.assume(s.cond < 100); for (auto& p : s.X) for (int i = 0; i < 3; ++i) p[i] = T(p[i]); for (auto& v : s.K.d) v = T(v); auto X = conv<T, 3>(s.X); Math::Matrix<T, 3, 3> K; ut::set(K, s.K); ld var = T(g.logreal(1e-3, 10)); ref::P e = s.e; ref::M N = info(e, [&](const ref::P& q) { std::vector<ld> r; for (auto& P : s.X) { P2 u = proj(s.K, q, P); r.push_back(u.x); r.push_back(u.y); } return r; }); std::vector<ld> w; ref::M V; ref::eigSym(N, w, V); g.assume(w[5] / w[0] < (sizeof(T) == 4 ? 1e3L : 1e8L)); g.nontrivial(); g.note() << s.X.size() << " points, condition " << double(w[5] / w[0]); auto C = E::singleCameraPoseError(ut::p(e), X, K, T(var)); covCheck<T>(C, N, var, "covariance from one camera");
    int nc = g.range(1, 3); std::vector<ref::M> P; std::vector<Math::Matrix<T, 3, 4>> Pl; for (int i = 0; i < nc; ++i) { ref::P c; c.q = i == 0 ? ref::Q(0, 0, 0, 1) : ref::unit(ref::expv(0.5L * ref::genVr(g, 1))); c.t = i == 0 ? V3(0, 0, 0) : sizeOf(s) * 0.2L * V3(ref::genVr(g, 1)); ref::M Ki = i == 0 ? s.K : genK(g, g.coin()), Em(3, 4), R = ref::rotM(c.q); for (int a = 0; a < 3; ++a) { for (int b = 0; b < 3; ++b) Em(a, b) = R(a, b); Em(a, 3) = c.t[a]; } ref::M m = Ki * Em; for (auto& v : m.d) v = T(v); P.push_back(m); Math::Matrix<T, 3, 4> ml; ut::set(ml, m); Pl.push_back(ml); }
    std::vector<std::pair<std::size_t, std::size_t>> obs; for (std::size_t i = 0; i < X.size(); ++i) for (int c = 0; c < nc; ++c) if (g.range(0, 3)) obs.push_back(std::make_pair(i, std::size_t(c))); g.shuffle(obs); g.assume(obs.size() >= 4); auto pr = [&](const ref::M& m, const V3& x) { ld h[3]; for (int i = 0; i < 3; ++i) h[i] = m(i, 0) * x[0] + m(i, 1) * x[1] + m(i, 2) * x[2] + m(i, 3); return P2{h[0] / h[2], h[1] / h[2]}; }; ref::M N2 = info(e, [&](const ref::P& q) { std::vector<ld> r; for (auto& o : obs) { P2 u = pr(P[o.second], ref::rot(q.q, s.X[o.first]) + q.t); r.push_back(u.x); r.push_back(u.y); } return r; }); ref::eigSym(N2, w, V); g.assume(w[0] > 0 && w[5] / w[0] < (sizeof(T) == 4 ? 1e3L : 1e8L)); for (auto& o : obs) { V3 x = ref::rot(e.q, s.X[o.first]) + e.t; ld z = P[o.second](2, 0) * x[0] + P[o.second](2, 1) * x[1] + P[o.second](2, 2) * x[2] + P[o.second](2, 3); g.assume(std::fabs(z) > 0.3L * sizeOf(s)); } auto C2 = E::multipleCameraPoseError(ut::p(e), X, Pl, obs, T(var)); covCheck<T>(C2, N2, var, "covariance from several cameras"); }
/// object-space error of a pose, camera looking along +z
ld ose(const ref::P& e, const std::vector<V3>& X, const std::vector<P2>& x) { ld s = 0; for (std::size_t i = 0; i < X.size(); ++i) { V3 v(x[i].x, x[i].y, 1), p = ref::rot(e.q, X[i]) + e.t; V3 d = p - (ref::dot(v, p) / ref::dot(v, v)) * v; s += ref::dot(d, d); } return s; }
template <class T> void iterative(pbt::Ctx& g) { const bool fl = sizeof(T) == 4; int n = g.many(6, 20, 100); std::vector<V3> X; std::vector<P2> x; ref::P e; e.q = ref::unit(ref::genQuniform(g)); e.t = V3(g.sym(1), g.sym(1), g.real(4, 10)); V3 o = g.coin() ? V3(0, 0, 0) : V3(ref::genVr(g, 2)); ld noise = g.coin() ? 0 : ld(g.logreal(1e-6, 1e-3)); for (int i = 0; i < n; ++i) { V3 l(g.sym(1), g.sym(1), g.sym(1)), p = l + o; for (int k = 0; k < 3; ++k) p[k] = T(p[k]); X.push_back(p); V3 c = ref::rot(e.q, p - o) + e.t; g.assume(c[2] > 1); x.push_back(P2{ld(T(c[0] / c[2] + noise * g.sym(1))), ld(T(c[1] / c[2] + noise * g.sym(1)))}); } e.t = e.t - ref::rot(e.q, o); auto Xl = conv<T, 3>(X); auto xl = conv2<T>(x);
    // shape of the point cloud
    V3 c(0, 0, 0); for (auto& p : X) c = c + (1.0L / n) * p; ref::M S(3, 3); for (auto& p : X) for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) S(i, j) += (p - c)[i] * (p - c)[j] / n; std::vector<ld> w; ref::M V; ref::eigSym(S, w, V); g.assume(w[0] > 0.05L); Math::Pose p; std::size_t it = g.oneIn(5) ? g.range(1, 10) : 3000; T err = fl ? T(1e-9) : T(1e-16); std::size_t it0 = it; bool ok = E::estimatePose6D_2D3D(xl, p, Xl, it, err); g.note() << n << " points, noise " << double(noise) << " -> " << ok << " after " << it << ", error " << double(err); REQ(it <= it0, it << " iterations of " << it0); if (!ok) { g.cls("not converged"); return; } g.nontrivial(); ref::P got = rp(p); ld os = ose(got, X, x), eps = fl ? 1e-5L : 1e-13L; REQ(std::fabs(ld(err) - os) <= 1e-3L * os + (fl ? 1e-9L : 1e-22L) * n * 100, "reported error " << double(err) << ", the pose has " << double(os)); (void)eps;
    // the translation is optimal for the rotation: no small move makes it better
    for (int k = 0; k < 6; ++k) { ref::P m = got; m.t[k / 2] += (k % 2 ? -1 : 1) * 1e-2L; REQ(ose(m, X, x) >= os - (fl ? 1e-7L : 1e-15L), "moving the pose along axis " << k / 2 << " improves the error " << double(os)); }
    if (got.t[2] + ref::rot(got.q, c)[2] < 0) { g.cls("behind the camera"); } ld dd = 0; for (auto& q : X) dd = std::max(dd, ref::norm(ref::rot(got.q, q) + got.t - ref::rot(e.q, q) - e.t)); if (os > n * noise * noise * 400 + (fl ? 1e-5L : 1e-10L)) g.cls("other minimum"); else { g.cls("right minimum"); REQ(dd < 300 * noise + (fl ? 0.3L : 2e-3L), "points are " << double(dd) << " away, error " << double(os)); } }
}
PROP(pose_of_a_homography, 2000, 100000, "always") { if (g.coin()) homography<double>(g); else homography<float>(g); }
PROP(refinement, 800, 30000, "noisy images") { if (g.coin()) refineT<double>(g); else refineT<float>(g); }
PROP(pose_covariance, 500, 20000, "always") { if (g.coin()) poseError<double>(g); else poseError<float>(g); }
PROP(object_space_iteration, 300, 10000, "converged") { if (g.coin()) iterative<double>(g); else iterative<float>(g); }
PROP(refuses_bad_input, 300, 10000, "always") { Scene s; g.assume(gen(g, s, 1, 0, 5)); auto X = conv<double, 3>(s.X); auto x = conv2<double>(s.x); Math::Matrix<double, 3, 3> K; ut::set(K, s.K); g.nontrivial(); int what = g.range(0, 1); if (what == 0) { int n = g.range(0, 3); X.resize(n); x.resize(n); g.cls("too few points"); } else { ld f = g.coin() ? ld(g.real(0.1, 3)) : -ld(g.real(0.1, 3)); for (int i = 0; i < 3; ++i) X[2](i) = X[0](i) + double(f) * (X[1](i) - X[0](i)); bool eq = true; for (int i = 0; i < 4; ++i) eq = eq && X[i](2) == X[0](2); g.assume(!eq); g.cls("three points on a line"); } bool th = false; try { E::computePose(x, X, K, g.coin()); } catch (const Util::Exception&) { th = true; } REQ(th, "no exception"); }
