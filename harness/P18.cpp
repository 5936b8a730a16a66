// P18: absolute orientation recovers and optimally fits rigid transformations.
#include "pbt.h"
#include "ut.h"
#include <list>
#include <cstdlib>
#include <utAlgorithm/PoseEstimation3D3D/AbsoluteOrientation.h>
#include <utAlgorithm/PoseEstimation3D3D/Pose6D.h>
#include <utAlgorithm/PoseEstimation3D3D/Rotation3D.h>
#include <utAlgorithm/PoseEstimation3D3D/Scale.h>
#include <utAlgorithm/PoseEstimation3D3D/Ransac.h>
#include <utAlgorithm/PoseEstimation3D3D/Optimization.h>
#include <utAlgorithm/PoseEstimation3D3D/ErrorEstimation.h>
#include <utAlgorithm/PoseEstimation3D3D/CovarianceEstimation.h>
using namespace Ubitrack; namespace PE = Ubitrack::Algorithm::PoseEstimation3D3D; namespace MO = Ubitrack::Math::Optimization; typedef long double ld; typedef std::vector<ref::V3> PV;
namespace {
template <class T> struct Pts { typedef std::vector<Math::Vector<T, 3>> type; };
template <class T> typename Pts<T>::type conv(PV& p) { typename Pts<T>::type r; for (auto& a : p) { Math::Vector<T, 3> v; for (int i = 0; i < 3; ++i) v(i) = T(a[i]); a = ref::V3(v(0), v(1), v(2)); r.push_back(v); } return r; }
ref::V3 mean(const PV& p) { ref::V3 c; for (auto& a : p) c = c + a; return (ld(1) / p.size()) * c; }
ld cost(const ref::Q& q, const ref::V3& t, const PV& a, const PV& b) { ld s = 0; for (std::size_t i = 0; i < a.size(); ++i) { ref::V3 d = a[i] - (ref::rot(q, b[i]) + t); s += ref::dot(d, d); } return s; }
/// closed-form optimum (long double): rotation maximizing sum a_i . R b_i
struct Opt { ref::P p; ld gap, top, sa, sb, oa, ob; };
Opt optimum(const PV& a, const PV& b) { Opt o; ref::V3 ca = mean(a), cb = mean(b); ref::M S(3, 3); o.sa = o.sb = o.oa = o.ob = 0; for (std::size_t i = 0; i < a.size(); ++i) { ref::V3 x = a[i] - ca, y = b[i] - cb; o.sa = std::max(o.sa, ref::norm(x)); o.sb = std::max(o.sb, ref::norm(y)); for (int r = 0; r < 3; ++r) for (int c = 0; c < 3; ++c) S(r, c) += y[r] * x[c]; } o.oa = ref::norm(ca); o.ob = ref::norm(cb);
    // basis of quaternion space: the quadratic form sum a . (q b q*) evaluated on basis pairs, no hand-written matrix
    ref::M N(4, 4); auto form = [&](ref::Q u, ref::Q v) { ld s = 0; for (std::size_t i = 0; i < a.size(); ++i) { ref::V3 x = a[i] - ca, y = b[i] - cb; ref::Q r = u * ref::Q(y[0], y[1], y[2], 0) * ref::conj(v); s += r.x * x[0] + r.y * x[1] + r.z * x[2]; } return s; };
    ref::Q e[4] = {ref::Q(1, 0, 0, 0), ref::Q(0, 1, 0, 0), ref::Q(0, 0, 1, 0), ref::Q(0, 0, 0, 1)}; for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) N(i, j) = (form(e[i], e[j]) + form(e[j], e[i])) / 2; std::vector<ld> w; ref::M V; ref::eigSym(N, w, V); o.p.q = ref::unit(ref::Q(V(0, 3), V(1, 3), V(2, 3), V(3, 3))); o.p.t = ca - ref::rot(o.p.q, cb); o.gap = w[3] - w[2]; o.top = w[3]; return o; }
struct Case { PV a, b; ref::P p; ld noise; std::string shape; };
Case gen(pbt::Ctx& g, bool fl) { Case c; int n = g.many(3, 20, 300); double sc = fl ? g.logreal(0.05, 20) : g.logreal(1e-3, 1e3); ref::V3 off = g.coin() ? ref::V3() : ref::genV(g, fl ? 3 : 100); off = ld(sc) * off; int sh = int(g.draw(5)); ref::V3 u = ref::genVr(g, 1), v = ref::genVr(g, 1); for (int i = 0; i < n; ++i) { ref::V3 x; switch (sh) { case 0: x = ref::genVr(g, 1); c.shape = "general"; break; case 1: x = ref::V3(g.sym(1), g.sym(1), 0); c.shape = "planar"; break; case 2: x = ld(g.sym(1)) * u + ld(g.sym(1)) * v; c.shape = "tilted plane"; break; case 3: x = ref::V3(g.range(-2, 2), g.range(-2, 2), g.range(-2, 2)); c.shape = "grid"; break; case 4: x = ld(g.sym(1)) * u + ld(0.05) * ref::genVr(g, 1); c.shape = "elongated"; break; default: x = ref::genV(g, 1); c.shape = "mixed"; } c.b.push_back(ld(sc) * x + off); }
    c.p.q = ref::genQ(g); c.p.q = ref::unit(c.p.q); c.p.t = ld(sc) * ref::genV(g, fl ? 3 : 100); c.noise = g.coin() ? 0 : ld(g.logreal(1e-6, 0.5)); for (auto& x : c.b) c.a.push_back(c.p * x + (ld(sc) * c.noise) * ref::genVr(g, 1)); if (c.noise > 0.01L && g.oneIn(5)) { for (auto& x : c.a) x = ref::V3(x[0], x[1], -x[2]); c.shape += " mirrored"; } return c; }
template <class T> void checkPose(const Math::Pose& got, const Case& c, const Opt& o, const char* what, ld extra = 1) { ld eps = std::numeric_limits<T>::epsilon(); int n = int(c.a.size()); ref::P G = ut::r(got); REQ(std::fabs(ref::norm(G.q) - 1) < 50 * eps, what << " is not a unit quaternion, length - 1 = " << double(ref::norm(G.q) - 1));
    ld eM = 20 * eps * n * ((o.sa + o.oa) * o.sb + (o.sb + o.ob) * o.sa), tolR = extra * eM / o.gap; ld d = ref::rotDist(G.q, o.p.q); REQ(d < tolR + 20 * eps, what << " rotation differs from the optimum by " << double(d) << " rad, tolerance " << double(tolR)); ref::V3 e = G.t - (mean(c.a) - ref::rot(G.q, mean(c.b))); REQ(ref::norm(e) < 50 * eps * (1 + n) * (o.oa + o.ob + o.sa + o.sb), what << " does not map the centroids on each other, off by " << double(ref::norm(e))); }
template <class T> void closedForm(pbt::Ctx& g) {
    const bool fl = sizeof(T) == 4; Case c = gen(g, fl); auto A = conv<T>(c.a), B = conv<T>(c.b); Opt o = optimum(c.a, c.b); ld eps = std::numeric_limits<T>::epsilon(); int n = int(c.a.size()); ld eM = 20 * eps * n * ((o.sa + o.oa) * o.sb + (o.sb + o.ob) * o.sa); bool unique = o.gap > eM * (fl ? 30 : 1e4L); g.nontrivial(unique); g.cls(c.shape); g.cls(c.noise == 0 ? "exact" : "noisy"); if (!unique) g.cls("ambiguous"); g.note() << n << " points, " << c.shape << ", noise " << double(c.noise) << ", " << c.p;
    Math::Pose P(Math::Quaternion(0.5, 0.5, 0.5, 0.5), ut::V3d(7, 8, 9)); bool ok = PE::estimatePose6D_3D3D(A, P, B); if (o.top > 2 * eM) REQ(ok, "no pose although the points are distinct"); if (!ok) return; REQ(ref::norm(ut::r(P).q) > 0.99L, "not a rotation"); ref::P GP = ut::r(P); // the cost of an ambiguous problem must still be optimal up to rounding
    { ld best = 0; ref::V3 ca = mean(c.a), cb = mean(c.b); for (int i = 0; i < n; ++i) { ref::V3 x = c.a[i] - ca, y = c.b[i] - cb; best += ref::dot(x, x) + ref::dot(y, y); } best -= 2 * o.top; ld mine = cost(GP.q, ca - ref::rot(GP.q, cb), c.a, c.b); REQ(mine <= best + 4 * eM, "squared error " << double(mine) << " but the optimum is " << double(best)); }
    Math::Quaternion q2; Math::Matrix<T, 3, 3> m2; REQ(PE::estimateRotation_3D3D(A, q2, B) && PE::estimateRotation_3D3D(A, m2, B), "rotation estimation failed but pose estimation did not"); ref::M R = ut::rm(m2); REQ(ref::maxAbs(R * ref::tr(R) - ref::eye(3)) < 50 * eps && ref::det(R) > 0, "rotation matrix is not a proper rotation"); if (!unique) return; checkPose<T>(P, c, o, "pose"); ld tolR = eM / o.gap + 20 * eps; REQ(ref::rotDist(ut::r(q2), o.p.q) < tolR, "rotation quaternion is not the optimum"); REQ(ref::maxAbs(R - ref::rotM(o.p.q)) < 2 * tolR + 100 * eps, "rotation matrix is not the optimum"); if (c.noise == 0 && !fl) REQ(ref::rotDist(GP.q, c.p.q) < tolR * 3, "exact data: rotation off by " << double(ref::rotDist(GP.q, c.p.q)));
    // other entry points: iterators of any kind, given centroids
    Math::Vector<T, 3> ca, cb; { ref::V3 x = mean(c.a), y = mean(c.b); for (int i = 0; i < 3; ++i) { ca(i) = T(x[i]); cb(i) = T(y[i]); } } std::list<Math::Vector<T, 3>> la(A.begin(), A.end()), lb(B.begin(), B.end()); Math::Pose P2; REQ(PE::estimatePose6D_3D3D(la.begin(), la.end(), P2, lb.begin(), lb.end(), ca, cb), "estimation with given centroids failed"); checkPose<T>(P2, c, o, "pose from given centroids"); Math::Quaternion q3; REQ(PE::estimateRotation_3D3D(la.begin(), la.end(), q3, lb.begin(), lb.end(), ca, cb) && ref::rotDist(ut::r(q3), o.p.q) < tolR, "rotation from given centroids");
    // inverse direction
    Math::Pose PI; REQ(PE::estimatePose6D_3D3D(B, PI, A), "inverse estimation failed"); REQ(ref::rotDist(ut::r(PI).q, ref::conj(GP.q)) < 2 * tolR, "estimating in the other direction is not the inverse rotation"); }
}
PROP(closed_form, 3000, 200000, "the optimum is unique") { if (g.coin()) closedForm<double>(g); else closedForm<float>(g); }
PROP(absolute_orientation_left_right, 1000, 50000, "the optimum is unique") { Case c = gen(g, false); auto A = conv<double>(c.a), B = conv<double>(c.b); Opt o = optimum(c.a, c.b); ld eM = 20 * 2.3e-16L * c.a.size() * ((o.sa + o.oa) * o.sb + (o.sb + o.ob) * o.sa); g.assume(o.gap > eM * 1e4L); g.nontrivial(); g.note() << c.a.size() << " points"; Math::Pose P = PE::calculateAbsoluteOrientation(B, A); checkPose<double>(P, c, o, "calculateAbsoluteOrientation"); PE::EstimateAbsoluteOrientation<double> est; Math::Pose P2; est(P2, B, A); checkPose<double>(P2, c, o, "EstimateAbsoluteOrientation"); PE::EvaluateAbsoluteOrientation<double> ev; int k = g.range(0, int(c.a.size()) - 1); ref::P G = ut::r(P); ld want = ref::norm(c.a[k] - G * c.b[k]); REQ(std::fabs(ev(P, B[k], A[k]) - want) < 1e-13L * (1 + want + o.sa + o.oa + o.sb + o.ob), "evaluation is not the distance"); }
PROP(too_few_different_points, 500, 20000, "always") { int n = 1 << g.range(2, 4); ref::V3 x(g.range(-9, 9), g.range(-9, 9), g.range(-9, 9)), y(g.range(-9, 9), g.range(-9, 9), g.range(-9, 9)); PV a(n, x), b(n, y); bool other = g.coin(); if (other) for (auto& v : b) v = ref::V3(g.range(-9, 9), g.range(-9, 9), g.range(-9, 9)); g.nontrivial(); g.note() << n << " identical points"; auto A = conv<double>(a), B = conv<double>(b); Math::Pose P(Math::Quaternion(0.5, 0.5, 0.5, 0.5), ut::V3d(7, 8, 9)); bool ok = PE::estimatePose6D_3D3D(A, P, B); REQ(!ok, "a rotation was estimated from identical points"); REQ(P.translation()(0) == 7 && P.rotation().x() == 0.5, "the pose was changed although no pose was found"); auto Af = conv<float>(a), Bf = conv<float>(b); REQ(!PE::estimatePose6D_3D3D(Af, P, Bf), "a rotation was estimated from identical points"); }
PROP(scale, 1000, 50000, "the points are not all equal") { bool fl = g.coin(); Case c = gen(g, fl); ld s = g.logreal(0.01, 100); for (auto& v : c.a) v = s * v; ld k = 0; auto Af = conv<float>(c.a), Bf = conv<float>(c.b); /* rounded to float: usable for both */ auto A = conv<double>(c.a), B = conv<double>(c.b); ref::V3 ca = mean(c.a), cb = mean(c.b); ld na = 0, nb = 0; for (std::size_t i = 0; i < c.a.size(); ++i) { na += ref::dot(c.a[i] - ca, c.a[i] - ca); nb += ref::dot(c.b[i] - cb, c.b[i] - cb); } ld ob = ref::norm(cb), oa = ref::norm(ca); ld eps = fl ? 1.2e-7L : 2.3e-16L; g.assume(nb > 0 && na > 0 && std::sqrt(nb) > 1e-3L * ob && std::sqrt(na) > 1e-3L * oa); k = std::sqrt(na / nb); g.nontrivial(); g.note() << c.a.size() << " points, scale " << double(k); ld got = fl ? ld(PE::estimateScale_3D3D(Af, Bf)) : ld(PE::estimateScale_3D3D(A, B)); ld tol = 20 * eps * (c.a.size() + ob / std::sqrt(nb) * c.a.size() + oa / std::sqrt(na) * c.a.size()); REQ(std::fabs(got - k) < tol * k, "scale " << double(got) << ", expected " << double(k)); if (!fl) { ut::V3d da = ut::v(ca), db = ut::v(cb); ld g2 = PE::estimateScale_3D3D(A.begin(), A.end(), B.begin(), B.end(), da, db); REQ(std::fabs(g2 - k) < tol * k, "scale from given centroids"); } }
namespace {
template <class T> void refine(pbt::Ctx& g) {
    const bool fl = sizeof(T) == 4; int n = g.many(3, 15, 80); PV a, b; ref::P p; p.q = ref::unit(ref::genQ(g)); p.t = ref::genV(g, 5); ld noise = g.coin() ? 0 : ld(g.logreal(1e-4, 0.2)); for (int i = 0; i < n; ++i) { b.push_back(ref::genVr(g, 2)); a.push_back(p * b.back() + noise * ref::genVr(g, 1)); } auto A = conv<T>(a), B = conv<T>(b); Opt o = optimum(a, b); g.assume(o.gap > 0.2L); bool near = g.coin(); ref::P s; s.q = near ? ref::axisAngle(ref::genVr(g, 1) + ref::V3(0, 0, 2), g.real(0, 0.5)) * o.p.q : ref::unit(ref::genQ(g)); s.t = near ? o.p.t + ref::genVr(g, 1) : ref::genV(g, 10); Math::Pose P = ut::p(s); ref::P S = ut::r(P); ld c0 = cost(S.q, S.t, a, b); int it = near ? 100 : g.range(1, 60); g.nontrivial(); g.cls(near ? "near start" : "any start"); g.note() << n << " points, noise " << double(noise) << ", " << it << " iterations"; REQ(PE::estimatePose6D_3D3D(A, P, B, MO::OptTerminate(it, fl ? 1e-7 : 1e-12)), "optimization failed"); ref::P G = ut::r(P); REQ(std::fabs(ref::norm(G.q) - 1) < 1e-6L, "optimized rotation is not a unit quaternion"); ld c1 = cost(G.q, G.t, a, b), c2 = cost(o.p.q, o.p.t, a, b); REQ(c1 <= c0 * (1 + (fl ? 1e-4L : 1e-9L)) + (fl ? 1e-8L : 1e-20L), "optimization made the squared error " << double(c1) << ", it was " << double(c0)); if (near) REQ(c1 <= c2 * (1 + (fl ? 1e-2L : 1e-6L)) + (fl ? 1e-6L : 1e-8L), "optimized squared error " << double(c1) << ", the optimum is " << double(c2)); }
template <class T> void robust(pbt::Ctx& g) {
    std::srand(unsigned(g.draw(0xffffffffULL))); int nIn = g.range(5, 10), nOut = g.range(1, 5), n = nIn + nOut; ref::P p; p.q = ref::unit(ref::genQ(g)); p.t = ref::genV(g, 5); PV a, b; std::vector<int> in; for (int i = 0; i < n; ++i) in.push_back(i < nIn); g.shuffle(in); for (int i = 0; i < n; ++i) { b.push_back(ref::genVr(g, 2)); a.push_back(p * b.back()); if (!in[i]) a.back() = a.back() + ref::V3(g.real(3, 9), g.real(3, 9), g.real(3, 9)); } auto A = conv<T>(a), B = conv<T>(b);
    // any three inliers must define the rotation well
    for (int i = 0; i < n; ++i) for (int j = 0; j < i; ++j) for (int k = 0; k < j; ++k) if (in[i] && in[j] && in[k]) g.assume(ref::norm(ref::cross(b[i] - b[j], b[i] - b[k])) > 0.05L); double pr = double(nIn) / n * (nIn - 1) / (n - 1) * (nIn - 2) / (n - 2); std::size_t its = std::size_t(std::ceil(std::log(1e-13) / std::log(1 - pr))) + 1; MO::RansacParameter<T> par(T(0.05), 3, nIn, its); Math::Pose P; g.nontrivial(); g.note() << nIn << " inliers, " << nOut << " outliers"; REQ(PE::estimatePose6D_3D3D(A, P, B, par), "RANSAC found no pose"); ref::P G = ut::r(P); ld tol = sizeof(T) == 4 ? 1e-4L : 1e-11L; REQ(ref::rotDist(G.q, p.q) < tol && ref::norm(G.t - p.t) < 20 * tol, "pose is not that of the inliers: rotation off by " << double(ref::rotDist(G.q, p.q)) << ", translation by " << double(ref::norm(G.t - p.t))); }
template <class T> void quality(pbt::Ctx& g) {
    const bool fl = sizeof(T) == 4; int n = g.many(3, 12, 80); PV a, b; ref::P p; p.q = ref::unit(ref::genQ(g)); p.t = ref::genV(g, 3); for (int i = 0; i < n; ++i) { b.push_back(ref::genVr(g, 2)); a.push_back(p * b.back() + ld(0.1) * ref::genVr(g, 1)); } auto A = conv<T>(a), B = conv<T>(b); Math::Pose P = ut::p(p); ref::P G = ut::r(P); ld s = 0; for (int i = 0; i < n; ++i) s += ref::norm(a[i] - G * b[i]); s /= 3 * n; ld eps = fl ? 1e-5L : 1e-13L; ld got = PE::estimatePose6DResidual<T>(A.begin(), A.end(), P, B.begin(), B.end()); g.nontrivial(); g.note() << n << " points"; REQ(std::fabs(got - s) < eps * 10, "residual " << double(got) << ", expected " << double(s));
    ref::M J(3 * n, 6); ref::M R = ref::rotM(G.q); for (int i = 0; i < n; ++i) for (int c = 0; c < 3; ++c) { J(3 * i + c, c) = 1; ref::V3 e; e[c] = 2; ref::V3 d = ref::mul(R, ref::cross(e, b[i])); for (int r = 0; r < 3; ++r) J(3 * i + r, 3 + c) = d[r]; } auto sv = ref::singularValues(J); ld hi = 0, lo = 1e30L; for (ld v : sv) { hi = std::max(hi, v); lo = std::min(lo, v); } g.assume(lo > 0.2L); ref::M C; ref::inverse(ref::tr(J) * J, C); Math::Matrix<T, 6, 6> cov; for (int i = 0; i < 6; ++i) for (int j = 0; j < 6; ++j) cov(i, j) = T(99); REQ(PE::estimatePose6DCovariance(A.begin(), A.end(), P, B.begin(), B.end(), cov), "no covariance"); for (int i = 0; i < 6; ++i) for (int j = 0; j < 6; ++j) REQ(std::fabs(ld(cov(i, j)) - s * C(i, j)) < eps * 100 * (hi / lo) * (hi / lo) * std::max<ld>(1, s) * ref::maxAbs(C), "covariance (" << i << "," << j << ") is " << double(cov(i, j)) << ", expected " << double(s * C(i, j))); }
}
PROP(refinement, 600, 40000, "always") { if (g.coin()) refine<double>(g); else refine<float>(g); }
PROP(no_consensus, 300, 10000, "always") {
    std::srand(unsigned(g.draw(0xffffffffULL))); int n = g.range(6, 14), agree = g.range(0, n / 2 - 1), need = g.range(n / 2 + 1, n); ref::P p; p.q = ref::unit(ref::genQ(g)); p.t = ref::genV(g, 5); PV a, b;
    for (int i = 0; i < n; ++i) { b.push_back(ref::genVr(g, 2)); a.push_back(p * b.back()); if (i >= agree) a.back() = a.back() + ref::V3(g.sym(40), g.sym(40), g.sym(40)); }
    g.nontrivial(); g.note() << n << " points, " << agree << " agree, " << need << " required"; const ld thr = 0.02L; bool ok; ref::P G;
    if (g.oneIn(3)) { auto A = conv<float>(a), B = conv<float>(b); MO::RansacParameter<float> par(float(thr), std::size_t(3), std::size_t(need), std::size_t(40)); Math::Pose P; ok = PE::estimatePose6D_3D3D(A, P, B, par); G = ut::r(P); }
    else { auto A = conv<double>(a), B = conv<double>(b); MO::RansacParameter<double> par(double(thr), std::size_t(3), std::size_t(need), std::size_t(40)); Math::Pose P; ok = PE::estimatePose6D_3D3D(A, P, B, par); G = ut::r(P); }
    g.cls(ok ? "found" : "not found"); if (!ok) return; int near = 0; for (int i = 0; i < n; ++i) if (ref::norm(a[i] - G * b[i]) < 10 * thr) ++near;
    REQ(near >= need, "success is reported although the pose explains " << near << " of " << n << " points, " << need << " are required");
}
namespace {
/// few points, all of which agree: as many inliers as there are points
template <class T> void fewPoints(pbt::Ctx& g) {
    std::srand(unsigned(g.draw(0xffffffffULL))); int n = g.range(3, 5); ref::P p; p.q = ref::unit(ref::genQ(g)); p.t = ref::genV(g, 5); PV a, b;
    for (int i = 0; i < n; ++i) { b.push_back(ref::genVr(g, 2)); a.push_back(p * b.back()); }
    for (int i = 0; i < n; ++i) for (int j = 0; j < i; ++j) for (int k = 0; k < j; ++k) g.assume(ref::norm(ref::cross(b[i] - b[j], b[i] - b[k])) > 0.5L);
    auto A = conv<T>(a), B = conv<T>(b); std::size_t need = g.range(1, n); g.nontrivial(); g.note() << n << " points, " << need << " required"; g.cls(n == 3 ? "three points" : "more points");
    MO::RansacParameter<T> par(T(0.05), std::size_t(3), need, std::size_t(g.range(1, 10))); Math::Pose P; REQ(PE::estimatePose6D_3D3D(A, P, B, par), "RANSAC found no pose for " << n << " exact points");
    ref::P G = ut::r(P); ld tol = sizeof(T) == 4 ? 1e-3L : 1e-11L; REQ(ref::rotDist(G.q, p.q) < tol && ref::norm(G.t - p.t) < 20 * tol, "pose is not that of the points: rotation off by " << double(ref::rotDist(G.q, p.q)) << ", translation by " << double(ref::norm(G.t - p.t)));
}
}
PROP(few_points_that_agree, 300, 10000, "always") { if (g.coin()) fewPoints<double>(g); else fewPoints<float>(g); }
PROP(outliers_are_rejected, 200, 10000, "always") { if (g.coin()) robust<double>(g); else robust<float>(g); }
PROP(residual_and_covariance, 800, 50000, "the covariance is well conditioned") { if (g.coin()) quality<double>(g); else quality<float>(g); }
