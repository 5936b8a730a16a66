// P21: lens distortion, its inverse, and the container of the intrinsic camera parameters.
#include "pbt.h"
#include "ut.h"
#include <utAlgorithm/CameraLens/Correction.h>
#include <utAlgorithm/CameraLens/Distortion.h>
#include <utAlgorithm/CameraLens/Undistortion.h>
#include <utAlgorithm/LensDistortion.h>
#include <utMath/Geometry/PointUndistortion.h>
#include <utUtil/Exception.h>
#include <list>
using namespace Ubitrack; namespace A = Ubitrack::Algorithm; namespace L = Ubitrack::Algorithm::CameraLens; typedef long double ld;
namespace {
struct P2 { ld x, y; };
ld dist(const P2& a, const P2& b) { return std::hypot(a.x - b.x, a.y - b.y); }
/// reference camera: values already rounded to T
struct Cam { ld K[3][3]; ld k[6], p[2]; int n; };
template <class T> Cam genCam(pbt::Ctx& g, ld amount) {
    Cam c; for (auto& r : c.K) for (auto& x : r) x = 0; ld f = g.coin() ? ld(g.real(0.5, 3)) : ld(g.logreal(100, 3000)); c.K[0][0] = T(f); c.K[1][1] = T(f * g.real(0.8, 1.25)); c.K[0][1] = g.oneIn(3) ? ld(T(f * g.sym(0.2))) : 0; c.K[2][2] = g.oneIn(3) ? 1 : -1; c.K[0][2] = T(f * g.sym(1)); c.K[1][2] = T(f * g.sym(1)); if (g.oneIn(8)) { c.K[0][2] = c.K[1][2] = 0; }
    static const int sizes[] = {2, 3, 6, 0, 4}; c.n = sizes[g.draw(3)]; for (int i = 0; i < 6; ++i) c.k[i] = i < c.n ? ld(T(amount * g.nice(1))) : 0; for (auto& x : c.p) x = g.oneIn(4) ? 0 : ld(T(amount * 0.5L * g.nice(1))); return c; }
template <class T> Math::CameraIntrinsics<T> lib(const Cam& c) { Math::Matrix<T, 3, 3> K; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) K(i, j) = T(c.K[i][j]); Math::Vector<T, 6> r; for (int i = 0; i < 6; ++i) r(i) = T(c.k[i]); Math::Vector<T, 2> t; t(0) = T(c.p[0]); t(1) = T(c.p[1]); Math::Vector<std::size_t, 2> sz; sz(0) = 640; sz(1) = 480; return Math::CameraIntrinsics<T>(sz, K, std::size_t(c.n), r, t); }
/// the documented model, on the sensor
P2 distortN(const Cam& c, const P2& q) { ld r2 = q.x * q.x + q.y * q.y, r4 = r2 * r2, r6 = r4 * r2, ratio = (1 + c.k[0] * r2 + c.k[1] * r4 + c.k[2] * r6) / (1 + c.k[3] * r2 + c.k[4] * r4 + c.k[5] * r6); return P2{q.x * ratio + 2 * c.p[0] * q.x * q.y + c.p[1] * (r2 + 2 * q.x * q.x), q.y * ratio + 2 * c.p[1] * q.x * q.y + c.p[0] * (r2 + 2 * q.y * q.y)}; }
ld denom(const Cam& c, const P2& q) { ld r2 = q.x * q.x + q.y * q.y; return 1 + c.k[3] * r2 + c.k[4] * r2 * r2 + c.k[5] * r2 * r2 * r2; }
ld sumAbs(const Cam& c, const P2& q) { ld r2 = q.x * q.x + q.y * q.y, r4 = r2 * r2, r6 = r4 * r2; ld r = std::sqrt(r2), d = std::fabs(denom(c, q)); ld dm = 1 + std::fabs(c.k[3]) * r2 + std::fabs(c.k[4]) * r4 + std::fabs(c.k[5]) * r6; return r * (1 + std::fabs(c.k[0]) * r2 + std::fabs(c.k[1]) * r4 + std::fabs(c.k[2]) * r6) / d * (dm / d) + 5 * (std::fabs(c.p[0]) + std::fabs(c.p[1])) * r2; }
P2 toPix(const Cam& c, const P2& q) { return P2{q.x * c.K[0][0] + q.y * c.K[0][1] + c.K[0][2] * c.K[2][2], q.y * c.K[1][1] + c.K[1][2] * c.K[2][2]}; }
P2 toNorm(const Cam& c, const P2& u) { ld y = (u.y - c.K[1][2] * c.K[2][2]) / c.K[1][1]; return P2{(u.x - c.K[0][1] * y - c.K[0][2] * c.K[2][2]) / c.K[0][0], y}; }
/// bound on how far the Jacobian of the distortion is from the identity within the radius
ld strength(const Cam& c, ld r) { ld r2 = r * r, u = 0, v = 0, du = 0, dv = 0, f = 1; for (int i = 0; i < 3; ++i) { f *= r2; u += std::fabs(c.k[i]) * f; v += std::fabs(c.k[3 + i]) * f; du += 2 * (i + 1) * std::fabs(c.k[i]) * f; dv += 2 * (i + 1) * std::fabs(c.k[3 + i]) * f; } if (v >= 1) return 1e9L; return (u + v) / (1 - v) + du / (1 - v) + (1 + u) * dv / ((1 - v) * (1 - v)) + 12 * (std::fabs(c.p[0]) + std::fabs(c.p[1])) * r; }
template <class T> Math::Vector<T, 2> lv(const P2& p) { Math::Vector<T, 2> v; v(0) = T(p.x); v(1) = T(p.y); return v; }
template <class T> P2 rv(const Math::Vector<T, 2>& v) { return P2{ld(v(0)), ld(v(1))}; }
template <class T> P2 rnd(const P2& p) { return P2{ld(T(p.x)), ld(T(p.y))}; }
P2 genDisc(pbt::Ctx& g, ld r) { ld a = g.real(-3.2, 3.2), s = r * std::sqrt(ld(g.unit())); if (g.oneIn(8)) return P2{g.nice(1) * r, 0}; if (g.oneIn(20)) return P2{0, 0}; return P2{s * std::cos(a), s * std::sin(a)}; }
/// rounding error of a pixel computation, in pixels
template <class T> ld pixTol(const Cam& c, const P2& n, const P2& u) { ld e = std::numeric_limits<T>::epsilon(); ld cond = (std::fabs(c.K[0][2]) + std::fabs(c.K[1][2]) + std::fabs(u.x) + std::fabs(u.y)) * 3; ld r = std::hypot(n.x, n.y); return 1e-30L + 40 * e * (cond * (1 + 8 * strength(c, r)) + (c.K[0][0] + c.K[1][1] + std::fabs(c.K[0][1])) * sumAbs(c, n)); }
template <class T> void formula(pbt::Ctx& g) {
    Cam c = genCam<T>(g, g.logreal(1e-4, 0.5)); int n = g.size(0, 6); std::vector<P2> u, want; std::vector<ld> tol; for (int i = 0; i < n; ++i) { P2 q = genDisc(g, 1.5L); P2 px = rnd<T>(toPix(c, q)); q = toNorm(c, px); if (strength(c, std::hypot(q.x, q.y)) > 20) continue; u.push_back(px); want.push_back(toPix(c, distortN(c, q))); tol.push_back(pixTol<T>(c, q, px)); } n = int(u.size()); Math::CameraIntrinsics<T> ci = lib<T>(c); g.nontrivial(n > 0 && c.n > 0); g.cls(c.n == 0 ? "tangential only" : c.n == 2 ? "2 radial" : c.n == 3 ? "3 radial" : "6 radial"); g.note() << n << " points, " << c.n << " radial parameters, f " << double(c.K[0][0]) << " K22 " << double(c.K[2][2]);
    std::vector<Math::Vector<T, 2>> in, out; for (auto& p : u) in.push_back(lv<T>(p)); int len = g.draw(3); if (len == 0) out = in; else if (len == 1) out.resize(n); else if (len == 2) out.resize(g.range(0, n)); else out.resize(n + g.range(0, 3)); if (len == 2) g.cls("output vector of another length"); std::vector<P2> one;
    for (int i = 0; i < n; ++i) { Math::Vector<T, 2> d; if (g.coin()) L::distort(ci, in[i], d); else { d = in[i]; L::distort(ci, d, d); } REQ(dist(rv(d), want[i]) < tol[i], "distorted point " << d(0) << "," << d(1) << ", expected " << double(want[i].x) << "," << double(want[i].y) << " tolerance " << double(tol[i])); one.push_back(rv(d));
        // normalized coordinates
        P2 q = rnd<T>(toNorm(c, u[i])); ld e = 40 * ld(std::numeric_limits<T>::epsilon()) * (sumAbs(c, q) + 1e-30L); Math::Vector<T, 2> dn; L::distort(ci.radial_params, ci.tangential_params, lv<T>(q), dn); REQ(dist(rv(dn), distortN(c, q)) <= e, "distorted sensor point " << dn(0) << "," << dn(1)); if (c.n <= 2) { Math::Vector<T, 4> d4; d4(0) = T(c.k[0]); d4(1) = T(c.k[1]); d4(2) = T(c.p[0]); d4(3) = T(c.p[1]); Math::Vector<T, 2> l = A::lensDistort(in[i], d4, ci.matrix); REQ(dist(rv(l), want[i]) < tol[i], "lensDistort gives " << l(0) << "," << l(1) << ", expected " << double(want[i].x) << "," << double(want[i].y)); // projection of a point in space
            ld z = T((g.coin() ? -1 : 1) * ld(g.logreal(0.1, 10))); Math::Vector<T, 3> X; X(0) = T(q.x * z); X(1) = T(q.y * z); X(2) = T(z); P2 qq{ld(X(0)) / X(2), ld(X(1)) / X(2)}; P2 dq = distortN(c, qq); P2 w{(dq.x * c.K[0][0] + dq.y * c.K[0][1] + c.K[0][2]) / c.K[2][2], (dq.y * c.K[1][1] + c.K[1][2]) / c.K[2][2]}; Math::Vector<T, 2> gp = A::projectWithDistortion(X, d4, ci.matrix); REQ(dist(rv(gp), w) < pixTol<T>(c, qq, w), "projection with distortion " << gp(0) << "," << gp(1) << ", expected " << double(w.x) << "," << double(w.y)); }
        // functors working on pixels, for Ubitrack cameras without skew
        if (c.K[2][2] < 0 && c.K[0][1] == 0) { Math::Vector<T, 2> m; Math::Geometry::undistort_point(ci, in[i], m); REQ(dist(rv(m), want[i]) < tol[i], "mapped point " << m(0) << "," << m(1) << ", expected " << double(want[i].x) << "," << double(want[i].y)); } }
    if (c.K[2][2] < 0 && c.K[0][1] == 0) { std::list<Math::Vector<T, 2>> li(in.begin(), in.end()); std::vector<Math::Vector<T, 2>> o; Math::Geometry::undistort_points(ci, li.begin(), li.end(), std::back_inserter(o)); REQ(int(o.size()) == n, "mapped points missing"); for (int i = 0; i < n; ++i) REQ(dist(rv(o[i]), want[i]) < tol[i], "mapped point " << i); }
    if (len == 0) L::distort(ci, out, out); else L::distort(ci, in, out); REQ(int(out.size()) == n, "output holds " << out.size() << " of " << n << " points"); for (int i = 0; i < n; ++i) REQ(dist(rv(out[i]), one[i]) <= tol[i], "point " << i << " of the vector differs from the single point");
    std::vector<Math::Vector<T, 2>> ni, no(g.range(0, n)); for (auto& p : u) ni.push_back(lv<T>(toNorm(c, p))); L::distort(ci.radial_params, ci.tangential_params, ni, no); REQ(int(no.size()) == n, "output holds " << no.size() << " of " << n << " sensor points"); for (int i = 0; i < n; ++i) { Math::Vector<T, 2> d; L::distort(ci.radial_params, ci.tangential_params, ni[i], d); REQ(dist(rv(no[i]), rv(d)) <= 40 * ld(std::numeric_limits<T>::epsilon()) * (sumAbs(c, rv(ni[i])) + 1e-30L), "sensor point " << i << " of the vector"); }
}
template <class T> void inverse(pbt::Ctx& g) {
    Cam c = genCam<T>(g, g.logreal(1e-4, 0.3)); ld R = g.real(0.1, 1.2); g.assume(strength(c, R * 1.3L) < 0.35L); int n = g.size(1, 6); Math::CameraIntrinsics<T> ci = lib<T>(c); ld str = strength(c, R); g.nontrivial(str > 0.02L); g.cls(str > 0.15L ? "strong" : str > 0.02L ? "moderate" : "weak"); g.note() << n << " points within " << double(R) << ", strength " << double(str); std::vector<Math::Vector<T, 2>> dist_in, res; std::vector<P2> orig; std::vector<ld> tol;
    for (int i = 0; i < n; ++i) { P2 q = genDisc(g, R), u = toPix(c, q), d = toPix(c, distortN(c, q)); dist_in.push_back(lv<T>(d)); orig.push_back(u); tol.push_back((sizeof(T) == 4 ? 1e-4L : 2e-6L) * (c.K[0][0] + c.K[1][1]) * std::max(str, 0.003L) + 5 * pixTol<T>(c, q, u) * 2); }
    for (int i = 0; i < n; ++i) { Math::Vector<T, 2> u; if (g.coin()) L::undistort(ci, dist_in[i], u); else { u = dist_in[i]; L::undistort(ci, u, u); } REQ(dist(rv(u), orig[i]) < tol[i], "undistorted point is " << double(dist(rv(u), orig[i])) << " pixels away, tolerance " << double(tol[i])); res.push_back(u); if (c.n <= 2) { Math::Vector<T, 4> d4; d4(0) = T(c.k[0]); d4(1) = T(c.k[1]); d4(2) = T(c.p[0]); d4(3) = T(c.p[1]); Math::Vector<T, 2> l = A::lensUnDistort(dist_in[i], d4, ci.matrix); REQ(dist(rv(l), orig[i]) < tol[i], "lensUnDistort is " << double(dist(rv(l), orig[i])) << " pixels away, tolerance " << double(tol[i])); } Math::Vector<T, 2> back; L::distort(ci, u, back); REQ(dist(rv(back), rv(dist_in[i])) < 2 * tol[i], "distorting the undistorted point misses by " << double(dist(rv(back), rv(dist_in[i]))));
        }
    std::vector<Math::Vector<T, 2>> out; int len = g.draw(2); if (len == 0) out = dist_in; else if (len == 1) out.resize(g.range(0, n)); else out.resize(n + 2); if (len == 0) L::undistort(ci, out, out); else L::undistort(ci, dist_in, out); REQ(int(out.size()) == n, "output holds " << out.size() << " of " << n << " points"); for (int i = 0; i < n; ++i) REQ(dist(rv(out[i]), rv(res[i])) <= tol[i] * 1e-3L, "point " << i << " of the vector differs from the single point");
}
/// any distortion: the iteration never ends farther from the solution than it starts
void never_worse_impl(pbt::Ctx& g) { Cam c = genCam<double>(g, g.logreal(0.05, 2)); P2 q = genDisc(g, 1.5L); auto ci = lib<double>(c); P2 d = rnd<double>(toPix(c, q)); P2 s = toNorm(c, d); ld r = std::hypot(s.x, s.y); for (int i = 0; i <= 40; ++i) g.assume(denom(c, P2{r * i / 20, 0}) > 0.2L); g.nontrivial(strength(c, r) > 0.5L); g.note() << "strength " << double(strength(c, r)); Math::Vector<double, 2> u; L::undistort(ci, lv<double>(d), u); P2 us = toNorm(c, rv(u)); ld e0 = dist(distortN(c, s), s), e1 = dist(distortN(c, us), s); REQ(e1 <= e0 * (1 + 1e-6L) + 1e-9L, "residual " << double(e1) << " after undistortion, " << double(e0) << " before"); }
template <class T> void jacobian(pbt::Ctx& g) { Cam c = genCam<T>(g, g.logreal(1e-3, 0.5)); auto ci = lib<T>(c); P2 q = rnd<T>(genDisc(g, 1.3L)); ld st = strength(c, std::hypot(q.x, q.y)); g.assume(st < 20); g.nontrivial(c.n > 0); g.note() << "strength " << double(st); auto f = [&](const std::vector<ld>& v) { P2 d = distortN(c, P2{v[0], v[1]}); return std::vector<ld>{d.x, d.y}; }; ref::M J = ref::jac(f, {q.x, q.y}); L::internal::PointUndistortion<T> F(ci.radial_params, ci.tangential_params); REQ(F.size() == 2, "size " << F.size()); Math::Vector<T, 2> res; Math::Matrix<T, 2, 2> M; F.evaluateWithJacobian(res, lv<T>(q), M); P2 w = distortN(c, q); ld e = std::numeric_limits<T>::epsilon(); REQ(dist(rv(res), w) <= 40 * e * (sumAbs(c, q) + 1e-30L), "value " << res(0) << "," << res(1)); for (int i = 0; i < 2; ++i) for (int j = 0; j < 2; ++j) REQ(std::fabs(ld(M(i, j)) - J(i, j)) < (100 * e + 1e-9L) * (1 + st) * (1 + st), "derivative " << i << "," << j << " is " << M(i, j) << ", expected " << double(J(i, j))); }
template <class T> void container(pbt::Ctx& g) {
    typedef Math::CameraIntrinsics<T> CI; Cam c = genCam<T>(g, 0.3L); Math::Matrix<T, 3, 3> K; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) K(i, j) = T(c.K[i][j]); std::size_t w = g.coin() ? 0 : g.range(1, 5000), h = g.coin() ? 0 : g.range(1, 5000); Math::Vector<T, 2> tan; tan(0) = T(c.p[0]); tan(1) = T(c.p[1]); Math::Vector<T, 6> r6; for (int i = 0; i < 6; ++i) r6(i) = T(g.nice(1)); CI ci; int kind = g.range(0, 5); std::size_t n = 0; typename CI::CalibType ct = CI::UNKNOWN; static const char* names[] = {"default", "2 radial", "3 radial", "6 radial", "fish-eye", "general"}; g.cls(names[kind]); g.nontrivial(kind > 0);
    if (kind == 1) { Math::Vector<T, 2> r; for (int i = 0; i < 2; ++i) r(i) = r6(i); ci = CI(K, r, tan, w, h); n = 2; ct = CI::OPENCV_2_2; } else if (kind == 2) { Math::Vector<T, 3> r; for (int i = 0; i < 3; ++i) r(i) = r6(i); ci = CI(K, r, tan, w, h); n = 3; ct = CI::OPENCV_3_2; } else if (kind == 3) { ci = CI(K, r6, tan, w, h); n = 6; ct = CI::OPENCV_6_2; } else if (kind == 4) { Math::Vector<T, 4> r; for (int i = 0; i < 4; ++i) r(i) = r6(i); ci = CI(K, r, w, h); n = 4; ct = CI::OPENCV_4_0_FISHEYE; tan(0) = tan(1) = 0; } else if (kind == 5) { static const std::size_t s[] = {2, 3, 4, 6, 0, 1, 5}; n = s[g.draw(6)]; ct = n == 2 ? CI::OPENCV_2_2 : n == 3 ? CI::OPENCV_3_2 : n == 4 ? CI::OPENCV_4_0_FISHEYE : n == 6 ? CI::OPENCV_6_2 : CI::UNKNOWN; Math::Vector<int, 2> sz; sz(0) = g.range(1, 5000); sz(1) = g.range(1, 5000); if (g.coin()) { ci = CI(sz, K, n, r6, tan); w = sz(0); h = sz(1); } else { ci = CI(sz, K, n, r6, tan, w, h); if (!w) w = sz(0); if (!h) h = sz(1); } } else { K = Math::Matrix<T, 3, 3>::identity(); w = h = 0; tan(0) = tan(1) = 0; }
    g.note() << names[kind] << " " << n << " radial parameters"; CI copy(ci), asg; asg = ci; for (const CI* x : {(const CI*)&ci, (const CI*)&copy, (const CI*)&asg}) { REQ(x->calib_type == ct, "calibration type " << int(x->calib_type) << ", expected " << int(ct)); REQ(x->radial_size == n, "radial size " << x->radial_size); REQ(x->dimension(0) == w && x->dimension(1) == h, "dimension " << x->dimension(0) << "x" << x->dimension(1) << ", expected " << w << "x" << h); for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) REQ(x->matrix(i, j) == K(i, j), "matrix element " << i << "," << j); for (int i = 0; i < 2; ++i) REQ(x->tangential_params(i) == tan(i), "tangential parameter " << i); for (std::size_t i = 0; i < 6; ++i) REQ(x->radial_params(i) == (i < n || (kind == 5) ? r6(i) : T(0)), "radial parameter " << i); }
    if (ct != CI::UNKNOWN) { REQ(CI::radial(ct) == n, "type " << int(ct) << " has " << CI::radial(ct) << " radial parameters"); REQ(CI::tangential(ct) == (n == 4 ? 0u : 2u), "type " << int(ct) << " has " << CI::tangential(ct) << " tangential parameters"); } else REQ(CI::radial(ct) == 0 && CI::tangential(ct) == 0, "parameters of an unknown type");
    if (kind) { ld wh = 2 * std::atan(ld(w) / (2 * ld(K(0, 0)))) * 180 / std::acos(-1.0L), wv = 2 * std::atan(ld(h) / (2 * ld(K(1, 1)))) * 180 / std::acos(-1.0L), e = 200 * 20 * ld(std::numeric_limits<T>::epsilon()); REQ(std::fabs(ci.angleHorizontal() - wh) < e, "horizontal angle " << ci.angleHorizontal() << ", expected " << double(wh)); REQ(std::fabs(ci.angleVertical() - wv) < e, "vertical angle " << ci.angleVertical() << ", expected " << double(wv)); }
    CI fl = ci; ci.flipHandiness(fl); for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) REQ(fl.matrix(i, j) == (j == 2 ? -K(i, j) : K(i, j)), "flipped matrix element " << i << "," << j); // the image position of a point does not change when its third coordinate is negated as well
    }
}
PROP(distortion_model, 2500, 150000, "radial distortion and at least one point") { if (g.coin()) formula<double>(g); else formula<float>(g); }
PROP(undistortion_inverts, 2500, 150000, "distortion above 2 percent") { if (g.coin()) inverse<double>(g); else inverse<float>(g); }
PROP(undistortion_never_worse, 1500, 100000, "distortion above 50 percent") { never_worse_impl(g); }
PROP(distortion_derivative, 1500, 100000, "radial distortion present") { if (g.coin()) jacobian<double>(g); else jacobian<float>(g); }
PROP(intrinsics_container, 1500, 60000, "not the default object") { if (g.coin()) container<double>(g); else container<float>(g); }
