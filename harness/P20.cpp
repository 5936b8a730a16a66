// P20: triangulation and reconstruction of points seen by several cameras.
#include "pbt.h"
#include "ut.h"
#include <utAlgorithm/3DPointReconstruction.h>
#include <utAlgorithm/FundamentalMatrix.h>
#include <utUtil/Exception.h>
using namespace Ubitrack; namespace A = Ubitrack::Algorithm; typedef long double ld; typedef ref::V3 V3;
namespace {
struct Cam { ref::M P; ref::P e; ref::M K; };
template <class T> Cam genCam(pbt::Ctx& g, bool pix) { Cam c; c.K = ref::M(3, 3); ld f = pix ? ld(g.logreal(0.5, 1000)) : ld(g.real(0.5, 3)); c.K(0, 0) = f; c.K(1, 1) = f * g.real(0.8, 1.25); c.K(0, 1) = g.oneIn(3) ? f * g.sym(0.1) : 0; c.K(0, 2) = f * g.sym(0.5); c.K(1, 2) = f * g.sym(0.5); c.K(2, 2) = -1; c.e.q = ref::genQuniform(g); c.e.q = ref::unit(c.e.q); c.e.t = V3(g.sym(1), g.sym(1), -g.real(3, 8)); ref::M E(3, 4), R = ref::rotM(c.e.q); for (int i = 0; i < 3; ++i) { for (int j = 0; j < 3; ++j) E(i, j) = R(i, j); E(i, 3) = c.e.t[i]; } ld s = g.coin() ? 1 : g.coin() ? ld(g.real(0.5, 2)) : -ld(g.real(0.5, 2)); c.P = s * (c.K * E); for (auto& x : c.P.d) x = ld(T(x)); return c; }
struct P2 { ld x, y; };
P2 proj(const ref::M& P, const V3& x) { ld r[3]; for (int i = 0; i < 3; ++i) r[i] = P(i, 0) * x[0] + P(i, 1) * x[1] + P(i, 2) * x[2] + P(i, 3); return P2{r[0] / r[2], r[1] / r[2]}; }
ref::V3 center(const Cam& c) { return ref::inv(c.e).t; }
template <class T> Math::Vector<T, 2> lv(const P2& p) { Math::Vector<T, 2> v; v(0) = T(p.x); v(1) = T(p.y); return v; }
template <class T> V3 r3(const Math::Vector<T, 3>& v) { return V3(v(0), v(1), v(2)); }
/// condition of the linear system, largest over third singular value
ld condOf(const std::vector<Cam>& c, const std::vector<P2>& x) { ref::M M(2 * int(c.size()), 4); for (std::size_t i = 0; i < c.size(); ++i) for (int k = 0; k < 4; ++k) { M(2 * i, k) = x[i].x * c[i].P(2, k) - c[i].P(0, k); M(2 * i + 1, k) = x[i].y * c[i].P(2, k) - c[i].P(1, k); } auto s = ref::singularValues(M); return s[0] / s[2]; }
ld cost(const std::vector<Cam>& c, const std::vector<P2>& x, const V3& X) { ld s = 0; for (std::size_t i = 0; i < c.size(); ++i) { P2 p = proj(c[i].P, X); s += (p.x - x[i].x) * (p.x - x[i].x) + (p.y - x[i].y) * (p.y - x[i].y); } return s; }
/// Gauss-Newton on the reprojection error in long double
V3 refine(const std::vector<Cam>& c, const std::vector<P2>& x, V3 X) { for (int it = 0; it < 50; ++it) { auto f = [&](const std::vector<ld>& v) { std::vector<ld> r; for (std::size_t i = 0; i < c.size(); ++i) { P2 p = proj(c[i].P, V3(v[0], v[1], v[2])); r.push_back(p.x - x[i].x); r.push_back(p.y - x[i].y); } return r; }; std::vector<ld> v{X[0], X[1], X[2]}, r = f(v); ref::M J = ref::jac(f, v), b(int(r.size()), 1); for (std::size_t i = 0; i < r.size(); ++i) b(int(i), 0) = -r[i]; ref::M d = ref::solve(J, b); V3 N(X[0] + d(0, 0), X[1] + d(1, 0), X[2] + d(2, 0)); if (!(cost(c, x, N) <= cost(c, x, X))) break; ld st = ref::norm(N - X); X = N; if (st < 1e-15L) break; } return X; }
template <class T> void exact(pbt::Ctx& g) {
    const bool fl = sizeof(T) == 4; int n = g.many(2, 6, 40); V3 X = ref::genV(g, 1); std::vector<Cam> c; std::vector<P2> x; for (int i = 0; i < n; ++i) { c.push_back(genCam<T>(g, !fl)); P2 p = proj(c.back().P, X); x.push_back(P2{ld(T(p.x)), ld(T(p.y))}); } ld cond = condOf(c, x); g.assume(cond < (fl ? 3e2L : 1e7L)); ld eps = std::numeric_limits<T>::epsilon(), tol = 200 * eps * cond; g.nontrivial(n > 2 || cond < 1e4L); g.cls(n == 2 ? "two cameras" : "many cameras"); g.note() << n << " cameras, point " << X << " condition " << double(cond); std::vector<Math::Matrix<T, 3, 4>> P; std::vector<Math::Vector<T, 2>> px; for (int i = 0; i < n; ++i) { Math::Matrix<T, 3, 4> m; ut::set(m, c[i].P); P.push_back(m); px.push_back(lv<T>(x[i])); }
    auto chk = [&](const V3& got, const char* what, ld f) { REQ(ref::norm(got - X) < f * tol, what << " is " << double(ref::norm(got - X)) << " away, tolerance " << double(f * tol)); }; chk(r3<T>(A::get3DPosition(P[0], P[1], px[0], px[1])), "two-camera point", condOf({c[0], c[1]}, {x[0], x[1]}) / cond + 1); chk(r3<T>(A::get3DPosition(P, px, 0)), "point from all cameras", 30); V3 opt = r3<T>(A::get3DPosition(P, px, 1)); ld s = 1; for (auto& p : x) s = std::max(s, std::max(std::fabs(p.x), std::fabs(p.y))); chk(opt, "optimized point", 30); std::size_t m = g.range(0, n - 1); auto pm = px; pm.resize(m); bool th = false; try { A::get3DPosition(P, pm, g.range(0, 1)); } catch (const Util::Exception&) { th = true; } REQ(th, "no exception for different numbers of cameras and points"); th = false; auto P1 = P; P1.resize(1); pm.resize(1); try { A::get3DPosition(P1, pm, g.range(0, 1)); } catch (const Util::Exception&) { th = true; } REQ(th, "no exception for a single camera"); }
}
PROP(exact_points, 2500, 150000, "a well-conditioned point or more than two cameras") { if (g.coin()) exact<double>(g); else exact<float>(g); }
PROP(noisy_points, 800, 50000, "the optimum is well defined") {
    int n = g.many(2, 6, 40); V3 X = ref::genV(g, 1); std::vector<Cam> c; std::vector<P2> x; ld noise = g.logreal(1e-5, 2e-2); for (int i = 0; i < n; ++i) { c.push_back(genCam<double>(g, false)); P2 p = proj(c.back().P, X); x.push_back(P2{ld(double(p.x + noise * g.sym(1))), ld(double(p.y + noise * g.sym(1)))}); } g.assume(condOf(c, x) < 100);
    { ref::M J = ref::jac([&](const std::vector<ld>& v) { std::vector<ld> r; for (auto& k : c) { P2 p = proj(k.P, V3(v[0], v[1], v[2])); r.push_back(p.x); r.push_back(p.y); } return r; }, std::vector<ld>{X[0], X[1], X[2]}); g.assume(noise * std::sqrt(2.0L * n) < 0.15L * ref::singularValues(J)[2]); }
    V3 R = refine(c, x, X); ld best = cost(c, x, R); g.nontrivial(); g.note() << n << " cameras, noise " << double(noise); std::vector<Math::Matrix<double, 3, 4>> P; std::vector<Math::Vector<double, 2>> px; for (int i = 0; i < n; ++i) { Math::Matrix<double, 3, 4> m; ut::set(m, c[i].P); P.push_back(m); px.push_back(lv<double>(x[i])); }
    V3 L = r3<double>(A::get3DPosition(P, px, 0)), O = r3<double>(A::get3DPosition(P, px, 1)); ld cl = cost(c, x, L), co = cost(c, x, O); REQ(co <= cl * (1 + 1e-9L) + 1e-24L, "the accurate method has the error " << double(co) << ", the fast one " << double(cl)); REQ(co <= best * 1.02L + 1e-14L, "reprojection error " << double(co) << ", the optimum is " << double(best)); REQ(ref::norm(L - X) < 3000 * noise, "linear estimate is " << double(ref::norm(L - X)) << " away");
    if (ref::norm(R - X) < 1 && ref::norm(L - X) < 1) { // the same in single precision: close to the optimum, not only to the linear solution
        std::vector<Math::Matrix<float, 3, 4>> Pf; std::vector<Math::Vector<float, 2>> pf; for (int i = 0; i < n; ++i) { Math::Matrix<float, 3, 4> m; ut::set(m, c[i].P); Pf.push_back(m); pf.push_back(lv<float>(x[i])); } V3 Lf = r3<float>(A::get3DPosition(Pf, pf, 0)), Of = r3<float>(A::get3DPosition(Pf, pf, 1)); ld room = 5e-3L + 0.2L * ref::norm(L - R), d0 = ref::norm(Lf - L), d1 = ref::norm(Of - R); if (ref::norm(L - R) > 2 * room) g.cls("linear and accurate differ"); REQ(d0 < room, "single precision: fast estimate is " << double(d0) << " away from that in double precision, " << double(room) << " allowed"); REQ(d1 < room, "single precision: accurate estimate is " << double(d1) << " away from the optimum, " << double(room) << " allowed"); }
    for (int f = 0; f < 2; ++f) { double res = -7; V3 W = r3<double>(A::get3DPositionWithResidual(P, px, f, &res)); V3 W2 = r3<double>(A::get3DPositionWithResidual(P, px, f)); REQ(ref::norm(W - (f ? O : L)) < 1e-9L && ref::norm(W2 - W) < 1e-9L, "point with residual differs from the point"); ld want = cost(c, x, W); REQ(std::fabs(res - want) < 1e-9L * want + 1e-20L, "residual " << res << " (method " << f << "), expected " << double(want)); }
    // the point moves with the world: all cameras moved by a rigid motion
    ref::P mv; mv.q = ref::unit(ref::genQ(g)); mv.t = ref::genV(g, 3); ref::P iv = ref::inv(mv); ref::M E = ref::eye(4), Rm = ref::rotM(iv.q); for (int i = 0; i < 3; ++i) { for (int j = 0; j < 3; ++j) E(i, j) = Rm(i, j); E(i, 3) = iv.t[i]; } std::vector<Math::Matrix<double, 3, 4>> P2v; for (int i = 0; i < n; ++i) { Math::Matrix<double, 3, 4> m; ut::set(m, c[i].P * E); P2v.push_back(m); } V3 O2 = r3<double>(A::get3DPosition(P2v, px, 1)); std::vector<Cam> cm = c; for (auto& q : cm) q.P = q.P * E; ld c2 = cost(cm, x, O2); REQ(c2 <= best * 1.02L + 1e-14L, "reprojection error after moving the world " << double(c2) << ", the optimum is " << double(best)); }
namespace {
template <class T> void epipolarDistance(pbt::Ctx& g) { ref::M F(3, 3); for (auto& x : F.d) x = ld(T(g.nice(2))); P2 a{ld(T(g.nice(3))), ld(T(g.nice(3)))}, b{ld(T(g.nice(3))), ld(T(g.nice(3)))}; ld l[3]; ld mag = 0; for (int i = 0; i < 3; ++i) { l[i] = F(i, 0) * a.x + F(i, 1) * a.y + F(i, 2); mag = std::max(mag, std::fabs(F(i, 0) * a.x) + std::fabs(F(i, 1) * a.y) + std::fabs(F(i, 2))); } ld h = std::hypot(l[0], l[1]); g.assume(h > 1e-2L * mag && mag > 0); ld d = (l[0] * b.x + l[1] * b.y + l[2]) / h, want = d * d, big = mag * (std::fabs(b.x) + std::fabs(b.y) + 1) / h; ld tol = 50 * ld(std::numeric_limits<T>::epsilon()) * big * big; Math::Matrix<T, 3, 3> f; ut::set(f, F); g.nontrivial(); ld got = A::pointToPointDist(lv<T>(a), lv<T>(b), f); REQ(std::fabs(got - want) < tol, "squared distance " << double(got) << ", expected " << double(want)); ld wa = g.coin() ? 1 : ld(T(g.real(0.25, 4))), wb = g.coin() ? 1 : ld(T(g.real(0.25, 4))); if (g.oneIn(4)) wb = -wb; if (wa != 1 || wb != 1) g.cls("homogeneous"); g.note() << "scales " << double(wa) << " " << double(wb); Math::Vector<T, 3> ha, hb; ha(0) = T(a.x * wa); ha(1) = T(a.y * wa); ha(2) = T(wa); hb(0) = T(b.x * wb); hb(1) = T(b.y * wb); hb(2) = T(wb); got = A::pointToPointDist(ha, hb, f); REQ(std::fabs(got - want) < 10 * tol, "squared distance of homogeneous points " << double(got) << ", expected " << double(want)); }
}
PROP(epipolar_distance, 1500, 100000, "always") { if (g.coin()) epipolarDistance<double>(g); else epipolarDistance<float>(g); }
PROP(point_sets_are_matched, 500, 30000, "more than one point") {
    int n = g.size(1, 7), e1 = g.coin() ? 0 : g.range(0, 2), e2 = e1 ? 0 : g.coin() ? 0 : g.range(0, 2); Cam a = genCam<double>(g, false), b = genCam<double>(g, false); std::vector<V3> X; std::vector<P2> x, y; for (int i = 0; i < n; ++i) { X.push_back(ref::genVr(g, 1.5)); x.push_back(proj(a.P, X.back())); y.push_back(proj(b.P, X.back())); } Math::Matrix<double, 3, 3> K1, K2; ut::set(K1, a.K); ut::set(K2, b.K); ref::M Fm = ut::rm(A::fundamentalMatrixFromPoses(ut::p(a.e), ut::p(b.e), K1, K2)); for (int i = 0; i < e1; ++i) x.push_back(proj(a.P, ref::genVr(g, 1.5))); for (int i = 0; i < e2; ++i) y.push_back(proj(b.P, ref::genVr(g, 1.5))); std::vector<int> o1(x.size()), o2(y.size()); for (std::size_t i = 0; i < x.size(); ++i) o1[i] = int(i); for (std::size_t i = 0; i < y.size(); ++i) o2[i] = int(i); g.shuffle(o1); g.shuffle(o2); auto d2 = [&](const P2& p, const P2& q) { ld l[3]; for (int i = 0; i < 3; ++i) l[i] = Fm(i, 0) * p.x + Fm(i, 1) * p.y + Fm(i, 2); ld v = (l[0] * q.x + l[1] * q.y + l[2]) / std::hypot(l[0], l[1]); return v * v; };
    for (std::size_t i = 0; i < x.size(); ++i) for (std::size_t j = 0; j < y.size(); ++j) { if (i == j && int(i) < n) g.assume(d2(x[i], y[j]) < 1e-18L); else g.assume(d2(x[i], y[j]) > 1e-6L); } for (int i = 0; i < n; ++i) g.assume(condOf({a, b}, {x[i], y[i]}) < 1e4L); std::vector<Math::Vector<double, 2>> lx, ly; for (int i : o1) lx.push_back(lv<double>(x[i])); for (int i : o2) ly.push_back(lv<double>(y[i])); Math::Matrix<double, 3, 4> PA, PB; ut::set(PA, a.P); ut::set(PB, b.P); Math::Matrix<double, 3, 3> F; ut::set(F, Fm); g.nontrivial(n > 1); g.cls(e1 ? "extra points in the first image" : e2 ? "extra points in the second image" : "same points"); g.note() << n << " points, " << e1 << " and " << e2 << " more"; auto R = A::reconstruct3DPoints(lx, ly, PA, PB, F); REQ(int(R.size()) == n, R.size() << " points, expected " << n); int k = 0; for (int i : o1) if (i < n) { V3 got = r3<double>(R[k]); REQ(ref::norm(got - X[i]) < 1e-7L, "point " << k << " is " << got << ", expected " << X[i]); ++k; } }
