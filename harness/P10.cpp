// P10: conics and projected quadrics denote the curves they should.
#include "pbt.h"
#include "ut.h"
#include <iterator>
#include <iostream>
#include <utMath/Geometry/Conic.h>
#include <utMath/Geometry/ConicCovariance.h>
#include <utMath/Geometry/QuadricFunctors.h>
#include <utMath/Geometry/PointProjection.h>
using namespace Ubitrack;
namespace G = Ubitrack::Math::Geometry;
typedef long double ld;
namespace {
#define NEAR(got, want, tol, what) REQ(std::fabs(ld(got) - ld(want)) <= ld(tol), what << ": got " << double(got) << ", expected " << double(want))
typedef ref::M M;
/// 3x3 matrix of the conic a x^2 + b xy + c y^2 + d x + e y + f
M mat(const std::vector<ld>& k) { M m(3, 3); m(0, 0) = k[0]; m(0, 1) = m(1, 0) = k[1] / 2; m(1, 1) = k[2]; m(0, 2) = m(2, 0) = k[3] / 2; m(1, 2) = m(2, 1) = k[4] / 2; m(2, 2) = k[5]; return m; }
std::vector<ld> vec(const M& m) { return {m(0, 0), m(0, 1) + m(1, 0), m(1, 1), m(0, 2) + m(2, 0), m(1, 2) + m(2, 1), m(2, 2)}; }
template <class T> Math::Vector<T, 6> lib(const std::vector<ld>& k) { Math::Vector<T, 6> v; for (int i = 0; i < 6; ++i) v(i) = T(k[i]); return v; }
template <class T> std::vector<ld> refv(const Math::Vector<T, 6>& v) { std::vector<ld> k(6); for (int i = 0; i < 6; ++i) k[i] = v(i); return k; }
ld eval(const std::vector<ld>& k, ld x, ld y) { return k[0] * x * x + k[1] * x * y + k[2] * y * y + k[3] * x + k[4] * y + k[5]; }
ld mag(const std::vector<ld>& k, ld x, ld y) { return std::fabs(k[0] * x * x) + std::fabs(k[1] * x * y) + std::fabs(k[2] * y * y) + std::fabs(k[3] * x) + std::fabs(k[4] * y) + std::fabs(k[5]); }
struct Ell { ld cx, cy, A, B, th, s; bool circle; std::vector<ld> k; };
/// A >= B semi axes, th angle of the A axis; s overall factor
Ell genEllipse(pbt::Ctx& g, bool hyper = false) {
    Ell e; e.cx = g.nice(5); e.cy = g.nice(5); e.B = g.logreal(0.4, 8); e.circle = !hyper && g.oneIn(6); e.A = e.circle ? e.B : e.B * (1 + g.logreal(0.03, 5)); if (hyper && g.coin()) std::swap(e.A, e.B);
    if (e.circle && g.coin()) { e.A = e.B = g.range(1, 6); }
    switch (g.draw(5)) { case 0: e.th = 0; break; case 1: e.th = ref::PI / 2; break; case 2: e.th = (g.coin() ? 1 : -1) * ref::PI / 4; break; default: e.th = g.sym(1.5707); }
    if (e.circle) e.th = 0;
    // any unit of length and any common factor describe the same curve
    if (g.oneIn(4)) { ld u = g.logreal(1e-3, 1e3); e.cx *= u; e.cy *= u; e.A *= u; e.B *= u; g.cls("other unit of length"); }
    e.s = g.oneIn(3) ? 1 : g.oneIn(4) ? g.logreal(1e-9, 1e9) : g.logreal(0.05, 20); if (g.oneIn(3)) e.s = -e.s;
    ld c = std::cos(e.th), s = std::sin(e.th), a2 = 1 / (e.A * e.A), b2 = (hyper ? -1 : 1) / (e.B * e.B);
    if (e.th == ref::PI / 2) { c = 0; s = 1; }
    ld a = a2 * c * c + b2 * s * s, b = 2 * (a2 - b2) * c * s, cc = a2 * s * s + b2 * c * c;
    if (std::fabs(std::fabs(e.th) - ref::PI / 4) < 1e-15L) a = cc = (a2 + b2) / 2;
    ld d = -2 * a * e.cx - b * e.cy, ee = -2 * cc * e.cy - b * e.cx, f = a * e.cx * e.cx + b * e.cx * e.cy + cc * e.cy * e.cy - 1;
    e.k = {a * e.s, b * e.s, cc * e.s, d * e.s, ee * e.s, f * e.s};
    g.note() << (hyper ? "hyperbola" : "ellipse") << " c(" << double(e.cx) << "," << double(e.cy) << ") axes " << double(e.A) << "," << double(e.B) << " angle " << double(e.th) << " factor " << double(e.s) << "; ";
    g.cls(e.circle ? "circle" : "ellipse"); if (e.s < 0) g.cls("negated");
    return e;
}
std::vector<ld> genConic(pbt::Ctx& g) { std::vector<ld> k(6); for (auto& x : k) x = g.nice(3); g.note() << "conic"; for (auto x : k) g.note() << ' ' << double(x); return k; }
// the coefficients are rounded to T before they reach the library: take the rounded ones as the truth
template <class T> std::vector<ld> rounded(std::vector<ld> k) { for (auto& x : k) x = T(x); return k; }

template <class T> void algebra(pbt::Ctx& g) {
    std::vector<ld> k = rounded<T>(genConic(g)); Math::Vector<T, 6> c = lib<T>(k); const ld e = std::numeric_limits<T>::epsilon();
    ld mx = 0; for (auto x : k) mx = std::max(mx, std::fabs(x)); g.nontrivial(k[1] != 0 && k[3] != 0); g.assume(mx > 0);
    Math::Matrix<T, 3, 3> m = G::MatrixFromConic<T>()(c); M R = mat(k);
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) REQ(ld(m(i, j)) == R(i, j), "matrix of a conic, element " << i << "," << j);
    Math::Vector<T, 6> back = G::ConicFromMatrix<T>()(m); for (int i = 0; i < 6; ++i) REQ(back(i) == c(i), "conic from its matrix, element " << i);
    ld det = ref::det(R); NEAR(G::ConicDeterminant<T>()(c), det, 16 * e * mx * mx * mx, "determinant");
    if (std::fabs(det) > 1e-2L * mx * mx * mx) { M I; ref::inverse(R, I); std::vector<ld> w = vec(I); Math::Vector<T, 6> inv = G::ConicInverse<T>()(c); ld s = mx * mx / std::fabs(det), amp = mx * mx * mx / std::fabs(det);
        for (int i = 0; i < 6; ++i) NEAR(inv(i), w[i], 64 * e * s * (1 + amp) * 2, "inverse conic, element " << i); }
    for (int i = 0; i < 3; ++i) {
        T x = T(g.nice(6)), y = T(g.nice(6)); Math::Vector<T, 2> p(x, y); ld tol = 16 * e * mag(k, x, y);
        NEAR(G::ConicPixel<T>()(c, p), eval(k, x, y), tol, "value of the conic at a point");
        T tx = T(g.nice(5)), ty = T(g.nice(5)); std::vector<ld> t = refv(G::TranslateConic<T>()(Math::Vector<T, 2>(tx, ty), c));
        ld big = mag(k, std::fabs(ld(x)) + 2 * std::fabs(ld(tx)), std::fabs(ld(y)) + 2 * std::fabs(ld(ty))) + mag(k, tx, ty) * 4;
        NEAR(eval(t, ld(x) + tx, ld(y) + ty), eval(k, x, y), 64 * e * big, "translated conic at the translated point");
        T s1 = T(g.logreal(0.2, 5)), s2 = T(g.logreal(0.2, 5)); std::vector<ld> sc = refv(G::ScaleConicUnsafe<T>(s1, s2)(c)), su = refv(G::ScaleConicUnsafe<T>(s1)(c));
        NEAR(eval(sc, ld(x) * s1, ld(y) * s2), eval(k, x, y), 2 * tol, "scaled conic at the scaled point"); NEAR(eval(su, ld(x) * s1, ld(y) * s1), eval(k, x, y), 2 * tol, "uniformly scaled conic at the scaled point");
        int h = g.range(1, 60); std::vector<ld> fl = refv(G::FlipConicHorizontal<T>(T(h))(c));
        NEAR(eval(fl, x, ld(h - 1) - y), eval(k, x, y), 64 * e * (mag(k, x, h + std::fabs(ld(y))) * 2), "flipped conic at the flipped point");
    }
    // classification away from the decision boundary
    ld disc = k[1] * k[1] - 4 * k[0] * k[2]; ld ds = k[1] * k[1] + 4 * std::fabs(k[0] * k[2]);
    if (std::fabs(disc) > 16 * e * ds) { REQ(G::IsConicEllipse<T>()(c) == (disc < 0), "ellipse predicate"); REQ(G::IsConicHyperbola<T>()(c) == (disc > 0), "hyperbola predicate"); }
    if (std::fabs(std::fabs(disc) - 1e-2L) > 1e-5L * (1 + ds)) REQ(G::IsConicParabola<T>()(c) == (std::fabs(disc) < 1e-2L), "parabola predicate");
    if (std::fabs(std::fabs(det) - 1e-3L) > 1e-5L * (1 + mx * mx * mx)) REQ(G::IsConicDegenerate<T>()(c) == (std::fabs(det) < 1e-3L), "degenerate predicate");
}
template <class T> void ellipse(pbt::Ctx& g) {
    Ell E = genEllipse(g); std::vector<ld> k = rounded<T>(E.k); Math::Vector<T, 6> c = lib<T>(k); g.nontrivial(!E.circle && k[1] != 0);
    // conditioning: relative rounding of f against the scale of the ellipse
    ld dist = std::fabs(E.cx) + std::fabs(E.cy), amp = (1 + dist / E.B) * (1 + dist / E.B) * (E.A / E.B) * (E.A / E.B); const ld e = std::numeric_limits<T>::epsilon() * 64;
    Math::Vector<T, 2> ctr = G::ConicCenter<T>()(c); NEAR(ctr(0), E.cx, e * amp * (E.A + dist), "centre x"); NEAR(ctr(1), E.cy, e * amp * (E.A + dist), "centre y");
    ld gap = (E.A * E.A - E.B * E.B) / (E.A * E.A); // separation of the axes
    T ang = G::ConicAngle<T>()(c); REQ(std::isfinite(ang), "angle is not a number");
    Math::Vector<T, 2> ax = G::ConicSemiAxes<T>()(c); ld r1 = ax(0), r2 = ax(1);
    ld ta = e * amp * E.A;
    NEAR(std::max(r1, r2), E.A, ta, "longer semi-axis"); NEAR(std::min(r1, r2), E.B, ta, "shorter semi-axis");
    if (gap > 0.05L) { ld d = std::fmod(std::fabs(ld(ang) - E.th), ref::PI); d = std::min(d, ref::PI - d); REQ(d <= e * 4 * amp / gap, "angle of the major axis: got " << ang << ", expected " << double(E.th) << " (modulo pi)");
        NEAR(r1, E.A, ta, "first semi-axis belongs to the angle"); }
    NEAR(G::ConicArea<T>()(c), ref::PI * E.A * E.B, 4 * e * amp * E.A * E.B, "area");
    ld ecc = std::sqrt(1 - E.B * E.B / (E.A * E.A)); ld et = ecc > 0.2 ? e * amp / ecc : std::sqrt(e * amp); NEAR(G::ConicEccentricity<T>()(c), ecc, et, "eccentricity");
    ld cs = std::cos(E.th), sn = std::sin(E.th), hx = std::sqrt(E.A * E.A * cs * cs + E.B * E.B * sn * sn), hy = std::sqrt(E.A * E.A * sn * sn + E.B * E.B * cs * cs);
    Math::Vector<T, 2> ul = G::ConicUpperLowerLimit<T>()(c), lr = G::ConicLeftRightLimit<T>()(c); ld tl = 4 * e * amp * (E.A + dist);
    NEAR(lr(0), E.cx - hx, tl, "left limit"); NEAR(lr(1), E.cx + hx, tl, "right limit"); NEAR(ul(0), E.cy - hy, tl, "lower limit"); NEAR(ul(1), E.cy + hy, tl, "upper limit");
    ld f = g.sym(0.9); T y = T(E.cy + f * hy); Math::Vector<T, 2> hi = G::ConicHorizontalIntersection<T>()(c, y);
    // exact intersection with the horizontal line
    ld qa = k[0], qb = k[1] * y + k[3], qc = k[2] * ld(y) * y + k[4] * ld(y) + k[5], ds = std::sqrt(qb * qb - 4 * qa * qc); ld x1 = (-qb - ds) / (2 * qa), x2 = (-qb + ds) / (2 * qa); if (x1 > x2) std::swap(x1, x2);
    NEAR(hi(0), x1, 16 * tl, "left intersection with a horizontal line"); NEAR(hi(1), x2, 16 * tl, "right intersection with a horizontal line");
    REQ(G::IsConicEllipse<T>()(c) && !G::IsConicHyperbola<T>()(c), "an ellipse is not recognized");
    if (E.circle) REQ(G::IsConicCircle<T>()(c), "a circle is not recognized");
    else if (gap > 0.01L && std::fabs(E.s) * (1 / (E.B * E.B) - 1 / (E.A * E.A)) > 4e-3L) REQ(!G::IsConicCircle<T>()(c), "an ellipse is taken for a circle");
}
}  // namespace
PROP(conic_algebra, 40000, 2000000, "conic with mixed and linear terms") { if (g.coin()) algebra<double>(g); else algebra<float>(g); }
PROP(ellipse_shape, 60000, 3000000, "rotated ellipse that is not a circle") { ellipse<double>(g); }
PROP(hyperbola, 20000, 800000, "hyperbola") {
    Ell E = genEllipse(g, true); std::vector<ld> k = rounded<double>(E.k); Math::Vector<double, 6> c = lib<double>(k); g.nontrivial(); 
    ld dist = std::fabs(E.cx) + std::fabs(E.cy), mn = std::min(E.A, E.B), mx = std::max(E.A, E.B), amp = (1 + dist / mn) * (1 + dist / mn) * (mx / mn) * (mx / mn); g.cls(E.A < E.B ? "steep" : "flat");
    REQ(G::IsConicHyperbola<double>()(c) && !G::IsConicEllipse<double>()(c) && !G::IsConicCircle<double>()(c), "a hyperbola is not recognized");
    Math::Vector<double, 2> ctr = G::ConicCenter<double>()(c); NEAR(ctr(0), E.cx, 1e-13L * amp * (mx + dist), "centre x"); NEAR(ctr(1), E.cy, 1e-13L * amp * (mx + dist), "centre y");
    ld ecc = std::sqrt(1 + E.B * E.B / (E.A * E.A)); NEAR(G::ConicEccentricity<double>()(c), ecc, 1e-12L * amp * ecc, "eccentricity of a hyperbola");
}
PROP(parabola_has_no_center, 5000, 100000, "parabola with exactly representable coefficients") {
    // (p x + q y)^2 + d x + e y + f with small integers: the discriminant is exactly zero
    int p = g.range(-4, 4), q = g.range(-4, 4); if (p == 0 && q == 0) p = 1; Math::Vector<double, 6> c; c(0) = p * p; c(1) = 2 * p * q; c(2) = q * q; c(3) = g.range(-5, 5); c(4) = g.range(-5, 5); c(5) = g.range(-5, 5);
    g.note() << p << ' ' << q; g.nontrivial(p != 0 && q != 0); REQ(G::IsConicParabola<double>()(c) && !G::IsConicEllipse<double>()(c) && !G::IsConicHyperbola<double>()(c), "a parabola is not recognized");
    bool threw = false; try { G::ConicCenter<double>()(c); } catch (const Util::Exception&) { threw = true; }
    REQ(threw, "the centre of a parabola is not reported as undefined");
}
PROP(quadric_projection, 30000, 1500000, "ellipsoid in front of the camera, all semi-axes different") {
    // ellipsoid seen by a camera that does not lie in or touch it: every silhouette ray is tangent, so projected points of the
    // contour satisfy the conic; checked through the dual relation C^-1 ~ P Q* P^T
    ref::P cam; cam.q = ref::genQ(g); ref::V3 pos = ref::genVr(g, 3); ld f = g.logreal(0.5, 5);
    Math::Vector<double, 6> el; for (int i = 0; i < 3; ++i) el(i) = g.logreal(0.3, 3); for (int i = 0; i < 3; ++i) el(3 + i) = double(pos[i]);
    bool sph = g.oneIn(4); if (sph) { el(1) = el(0); el(5) = el(2); }
    ref::V3 ctr(el(3), el(4), el(5)); // camera at distance along -z
    ld depth = 2.0L * std::max(el(0), std::max(el(1), el(2))) + g.logreal(0.5, 20); ref::V3 rc = ref::rot(cam.q, ctr); ref::V3 off(g.sym(0.3) * double(depth), g.sym(0.3) * double(depth), double(g.coin() ? depth : -depth)); cam.t = off - rc;
    Math::Matrix<double, 3, 4> P; M R = ref::rotM(ref::unit(cam.q)); for (int i = 0; i < 3; ++i) { for (int j = 0; j < 3; ++j) P(i, j) = double((i < 2 ? f : 1) * R(i, j)); P(i, 3) = double((i < 2 ? f : 1) * cam.t[i]); }
    g.note() << "axes " << el(0) << ' ' << el(1) << ' ' << el(2) << " at " << ctr << " depth " << double(depth); g.nontrivial(!sph && std::fabs(el(0) - el(1)) > 0.05 && std::fabs(el(1) - el(2)) > 0.05);
    std::vector<std::vector<ld>> res; res.push_back(refv(G::ProjectEllipsoid<double>()(P, el))); res.push_back(refv(G::ProjectQuadric<double>()(P, G::Ellipsoid2Quadric<double>()(el))));
    if (sph) { Math::Vector<double, 4> s; s(0) = el(0); s(1) = el(2); s(2) = el(3); s(3) = el(4); res.push_back(refv(G::ProjectSpheroid<double>()(P, s))); }
    // silhouette: points X = ctr + D u, |u|=1 with tangent plane through the camera centre: u.D^-1(cc-ctr) = 1
    ref::V3 cc = ref::V3() - ref::rot(ref::conj(ref::unit(cam.q)), cam.t); ref::V3 w((cc[0] - ctr[0]) / el(0), (cc[1] - ctr[1]) / el(1), (cc[2] - ctr[2]) / el(2)); ld wn = ref::norm(w); g.assume(wn > 1.2L);
    ref::V3 n = (1 / wn) * w, a1 = ref::cross(n, std::fabs(n[0]) < 0.6L ? ref::V3(1, 0, 0) : ref::V3(0, 1, 0)); a1 = (1 / ref::norm(a1)) * a1; ref::V3 a2 = ref::cross(n, a1); ld h = 1 / wn, rad = std::sqrt(1 - h * h);
    for (std::size_t m = 0; m < res.size(); ++m) { std::vector<ld> k = res[m]; ld mx = 0; for (auto x : k) { REQ(std::isfinite(x), "projected quadric is not finite"); mx = std::max(mx, std::fabs(x)); }
        ld imgScale = 0; for (int s = 0; s < 5; ++s) { ld t = 2 * ref::PI * s / 5 + 0.3L; ref::V3 u = h * n + (rad * std::cos(t)) * a1 + (rad * std::sin(t)) * a2; ref::V3 X(ctr[0] + el(0) * u[0], ctr[1] + el(1) * u[1], ctr[2] + el(2) * u[2]);
            ld ph[3]; for (int i = 0; i < 3; ++i) ph[i] = ld(P(i, 0)) * X[0] + ld(P(i, 1)) * X[1] + ld(P(i, 2)) * X[2] + P(i, 3); ld x = ph[0] / ph[2], y = ph[1] / ph[2]; imgScale = mag(k, x, y);
            REQ(std::fabs(eval(k, x, y)) <= 1e-8L * imgScale * (depth * depth), "contour point of the projected quadric (variant " << m << ") is off the conic by " << double(eval(k, x, y) / imgScale)); }
        ld px = (ld(P(0, 0)) * ctr[0] + ld(P(0, 1)) * ctr[1] + ld(P(0, 2)) * ctr[2] + P(0, 3)), py = (ld(P(1, 0)) * ctr[0] + ld(P(1, 1)) * ctr[1] + ld(P(1, 2)) * ctr[2] + P(1, 3)), pz = (ld(P(2, 0)) * ctr[0] + ld(P(2, 1)) * ctr[1] + ld(P(2, 2)) * ctr[2] + P(2, 3));
        REQ(eval(k, px / pz, py / pz) < 0 , "projected centre is not inside the projected outline (variant " << m << ")"); }
}
PROP(fit_covariance, 3000, 100000, "at least 8 points on an ellipse") {
    Ell E = genEllipse(g); E.s = std::fabs(E.s); g.assume(E.A < 4 && E.A / E.B < 4); int n = g.size(8, 40); g.nontrivial();
    // parameters in the convention of the cited paper: a x^2 + 2 b xy + c y^2 + 2 d x + 2 e y + f
    std::vector<ld> k = rounded<double>(E.k); Math::Vector<double, 6> c = lib<double>(k); c(1) /= 2; c(3) /= 2; c(4) /= 2;
    std::vector<Math::Vector<double, 2>> pts; for (int i = 0; i < n; ++i) { ld t = 2 * ref::PI * (i + g.real(-0.3, 0.3)) / n; ld u = E.A * std::cos(t), v = E.B * std::sin(t); pts.push_back(Math::Vector<double, 2>(double(E.cx + std::cos(E.th) * u - std::sin(E.th) * v), double(E.cy + std::sin(E.th) * u + std::cos(E.th) * v))); }
    ld nn = 0; for (int i = 0; i < 6; ++i) nn += ld(c(i)) * c(i); nn = std::sqrt(nn); M I(6, 6);
    for (auto& p : pts) { ld x = p(0), y = p(1), t[6] = {x * x, 2 * x * y, y * y, 2 * x, 2 * y, 1}; ld gx = (c(0) * x + c(1) * y + c(3)) / nn, gy = (c(1) * x + c(2) * y + c(4)) / nn, w = 4e-4L * (gx * gx + gy * gy); for (int i = 0; i < 6; ++i) for (int j = 0; j < 6; ++j) I(i, j) += t[i] * t[j] / w; }
    std::vector<ld> ev; M V; ref::eigSym(I, ev, V); g.assume(ev[1] > 1e-7L * ev[5]);
    M W(6, 6); for (int m = 1; m < 6; ++m) for (int i = 0; i < 6; ++i) for (int j = 0; j < 6; ++j) W(i, j) += V(i, m) * V(j, m) / ev[m];
    Math::Matrix<double, 6, 6> cov; for (int i = 0; i < 6; ++i) for (int j = 0; j < 6; ++j) cov(i, j) = 55; 
    REQ(G::estimateCovariance(pts.begin(), pts.end(), c, cov), "covariance estimation failed"); M D = ut::rm(cov) - W;
    REQ(ref::maxAbs(D) <= 1e-11L * (ev[5] / ev[1]) * ref::maxAbs(W), "covariance of the fitted conic is off by " << double(ref::maxAbs(D) / ref::maxAbs(W)) << " relative, condition " << double(ev[5] / ev[1]));
}
