// P19: homographies, projection and fundamental matrices.
#include "pbt.h"
#include "ut.h"
#include <utAlgorithm/Homography.h>
#include <utAlgorithm/Projection.h>
#include <utAlgorithm/FundamentalMatrix.h>
#include <utUtil/Exception.h>
using namespace Ubitrack; namespace A = Ubitrack::Algorithm; typedef long double ld; typedef std::vector<ld> VL;
namespace {
struct P2 { ld x, y; };
template <class T> Math::Vector<T, 2> lv(const P2& p) { Math::Vector<T, 2> v; v(0) = T(p.x); v(1) = T(p.y); return v; }
template <class T> P2 rnd(const P2& p) { return P2{ld(T(p.x)), ld(T(p.y))}; }
P2 map(const ref::M& H, const P2& p) { ld w = H(2, 0) * p.x + H(2, 1) * p.y + H(2, 2); return P2{(H(0, 0) * p.x + H(0, 1) * p.y + H(0, 2)) / w, (H(1, 0) * p.x + H(1, 1) * p.y + H(1, 2)) / w}; }
ld dist(const P2& a, const P2& b) { return std::hypot(a.x - b.x, a.y - b.y); }
struct Spread { ld mx, my, s, off; };
Spread spread(const std::vector<P2>& p) { Spread r{0, 0, 0, 0}; for (auto& a : p) { r.mx += a.x / p.size(); r.my += a.y / p.size(); } for (auto& a : p) r.s += std::hypot(a.x - r.mx, a.y - r.my) / p.size(); r.off = std::hypot(r.mx, r.my); return r; }
/// condition of the homography estimation: largest / second smallest singular value, plus the smallest
struct Cond { ld c, gap; };
Cond condH(const std::vector<P2>& f, const std::vector<P2>& t) { Spread a = spread(f), b = spread(t); int n = int(f.size()); ref::M M(std::max(9, 2 * n), 9); for (int i = 0; i < n; ++i) { ld x = (f[i].x - a.mx) / a.s, y = (f[i].y - a.my) / a.s, u = (t[i].x - b.mx) / b.s, v = (t[i].y - b.my) / b.s; ld r1[9] = {0, 0, 0, -x, -y, -1, v * x, v * y, v}, r2[9] = {x, y, 1, 0, 0, 0, -u * x, -u * y, -u}; for (int k = 0; k < 9; ++k) { M(2 * i, k) = r1[k]; M(2 * i + 1, k) = r2[k]; } } auto s = ref::singularValues(M); return Cond{s[0] / s[7], s[8] / s[7]}; }
ref::M genH(pbt::Ctx& g) { ref::M R = ref::M(3, 3); ld a = g.sym(3.2), sx = g.real(0.4, 2), sy = g.real(0.4, 2) * (g.oneIn(4) ? -1 : 1), sh = g.sym(0.5); R(0, 0) = std::cos(a) * sx; R(0, 1) = -std::sin(a) * sy + sh; R(1, 0) = std::sin(a) * sx; R(1, 1) = std::cos(a) * sy; R(0, 2) = g.nice(2); R(1, 2) = g.nice(2); R(2, 0) = g.coin() ? 0 : g.sym(0.3); R(2, 1) = g.coin() ? 0 : g.sym(0.3); R(2, 2) = 1; return R; }
template <class T> void homography(pbt::Ctx& g) {
    const bool fl = sizeof(T) == 4; int n = g.many(4, 15, 120); ref::M H = genH(g); ld sf = g.logreal(fl ? 0.1 : 1e-3, fl ? 10 : 1e3), st = g.logreal(fl ? 0.1 : 1e-3, fl ? 100 : 1e3), of = g.coin() ? 0 : g.real(0, fl ? 5 : 100), ot = g.coin() ? 0 : g.real(0, fl ? 5 : 100); std::vector<P2> f, t; ref::M Tf = ref::eye(3), Tt = ref::eye(3); Tf(0, 0) = Tf(1, 1) = 1 / sf; Tf(0, 2) = -of; Tf(1, 2) = of / 2; Tt(0, 0) = Tt(1, 1) = st; Tt(0, 2) = st * ot; Tt(1, 2) = -st * ot; ref::M F = Tt * H * Tf; for (int i = 0; i < n; ++i) { P2 u{g.sym(1), g.sym(1)}; if (g.oneIn(3)) u = P2{ld(g.range(-1, 1)), ld(g.range(-1, 1))}; P2 p = rnd<T>(P2{sf * (u.x + of), sf * (u.y - of / 2)}); f.push_back(p); t.push_back(rnd<T>(map(F, p))); }
    Spread sa = spread(f), sb = spread(t); g.assume(sa.s > 0 && sb.s > 0); for (int k = 0; k < 2; ++k) { ld lo = 1e30L, hi = -1e30L, lo2 = 1e30L, hi2 = -1e30L; for (int i = 0; i < n; ++i) { ld v = k ? f[i].y : f[i].x, w = k ? t[i].y : t[i].x; lo = std::min(lo, v); hi = std::max(hi, v); lo2 = std::min(lo2, w); hi2 = std::max(hi2, w); } g.assume(hi - lo > 0.1L * sa.s && hi2 - lo2 > 0.1L * sb.s); } Cond c = condH(f, t); g.assume(c.c < (fl ? 300 : 1e5L)); ld eps = std::numeric_limits<T>::epsilon(), tol = 100 * eps * c.c * (1 + sa.off / sa.s + sb.off / sb.s) * sb.s; g.nontrivial(n > 4 || c.c > 1); g.cls(n == 4 ? "four points" : "many points"); g.note() << n << " points, condition " << double(c.c) << ", offsets " << double(sa.off / sa.s) << " " << double(sb.off / sb.s);
    std::vector<Math::Vector<T, 2>> lf, lt; for (auto& p : f) lf.push_back(lv<T>(p)); for (auto& p : t) lt.push_back(lv<T>(p)); ref::M G = ut::rm(A::homographyDLT(lf, lt)); for (int i = 0; i < n; ++i) REQ(dist(map(G, f[i]), t[i]) < tol, "point " << i << " is mapped " << double(dist(map(G, f[i]), t[i]) / sb.s) << " of the spread away"); for (int i = 0; i < 4; ++i) { P2 p{sf * (g.sym(1) + of), sf * (g.sym(1) - of / 2)}; ld far = std::max<ld>(1, std::hypot(p.x - sa.mx, p.y - sa.my) / sa.s); P2 w = map(F, p); REQ(dist(map(G, p), w) < tol * 10 * far * far * far * std::max<ld>(1, dist(w, P2{sb.mx, sb.my}) / sb.s), "a further point is mapped wrongly, off by " << double(dist(map(G, p), w) / sb.s) << " of the spread"); } }
template <class T> void square(pbt::Ctx& g) {
    const bool fl = sizeof(T) == 4; std::vector<P2> s = {{-0.5L, 0.5L}, {-0.5L, -0.5L}, {0.5L, -0.5L}, {0.5L, 0.5L}}, c; ref::M H = genH(g); for (int i = 0; i < 2; ++i) H(2, i) *= 2; ld sc = g.logreal(fl ? 0.1 : 1e-3, 1e3), off = g.coin() ? 0 : sc * g.real(0, fl ? 5 : 50); for (auto& p : s) { P2 q = map(H, p); c.push_back(rnd<T>(P2{sc * q.x + off, sc * q.y - off})); } if (g.oneIn(5)) { c.clear(); c = {{ld(g.range(-4, 4)), ld(g.range(1, 9))}, {ld(-g.range(1, 9)), ld(-g.range(1, 9))}, {ld(g.range(1, 9)), ld(-g.range(1, 9))}, {ld(g.range(5, 9)), ld(g.range(1, 9))}}; } Spread sb = spread(c);
    // corners in general position
    for (int i = 0; i < 4; ++i) { P2 a = c[i], b = c[(i + 1) % 4], d = c[(i + 2) % 4]; g.assume(std::fabs((b.x - a.x) * (d.y - a.y) - (b.y - a.y) * (d.x - a.x)) > 0.02L * sb.s * sb.s); } Cond k = condH(s, c); g.assume(k.c < (fl ? 200 : 1e4L)); std::vector<Math::Vector<T, 2>> lc; for (auto& p : c) lc.push_back(lv<T>(p)); g.nontrivial(); g.note() << "corners"; for (auto& p : c) g.note() << " (" << double(p.x) << "," << double(p.y) << ")"; ref::M G = ut::rm(A::squareHomography(lc)); ld tol = 200 * ld(std::numeric_limits<T>::epsilon()) * k.c * (1 + sb.off / sb.s) * sb.s; for (int i = 0; i < 4; ++i) REQ(dist(map(G, s[i]), c[i]) < tol, "corner " << i << " is mapped " << double(dist(map(G, s[i]), c[i]) / sb.s) << " of the size away"); }
}
PROP(homography_maps_the_points, 2000, 150000, "more than the minimum, or a non-trivial configuration") { if (g.coin()) homography<double>(g); else homography<float>(g); }
PROP(square_homography, 1500, 100000, "always") { if (g.coin()) square<double>(g); else square<float>(g); }
PROP(homography_of_noisy_points, 800, 50000, "the estimate is unique") {
    int n = g.range(5, 15); ref::M H = genH(g); std::vector<P2> f, t; for (int i = 0; i < n; ++i) { P2 p{g.sym(1), g.sym(1)}; f.push_back(rnd<double>(p)); P2 q = map(H, p); t.push_back(rnd<double>(P2{q.x + g.sym(0.02), q.y + g.sym(0.02)})); } Cond c = condH(f, t); g.assume(c.c < 300 && c.gap < 0.3L); g.nontrivial(); g.note() << n << " points, condition " << double(c.c) << " gap " << double(c.gap); auto est = [&](const std::vector<P2>& a, const std::vector<P2>& b) { std::vector<Math::Vector<double, 2>> x, y; for (auto& p : a) x.push_back(lv<double>(p)); for (auto& p : b) y.push_back(lv<double>(p)); return ut::rm(A::homographyDLT(x, y)); }; ref::M G = est(f, t);
    // neither the order of the points nor the units and origins of the coordinates have an influence
    std::vector<int> o(n); for (int i = 0; i < n; ++i) o[i] = i; g.shuffle(o); ld ax = g.logreal(0.1, 100), ay = g.logreal(0.1, 100), bx = g.nice(50), by = g.nice(50), cx = g.logreal(0.1, 100), cy = g.logreal(0.1, 100), dx = g.nice(50), dy = g.nice(50); std::vector<P2> f2, t2; for (int i : o) { f2.push_back(rnd<double>(P2{ax * f[i].x + bx, ay * f[i].y + by})); t2.push_back(rnd<double>(P2{cx * t[i].x + dx, cy * t[i].y + dy})); } ref::M G2 = est(f2, t2); ref::M U = ref::eye(3), V = ref::eye(3), Vi; U(0, 0) = ax; U(1, 1) = ay; U(0, 2) = bx; U(1, 2) = by; V(0, 0) = cx; V(1, 1) = cy; V(0, 2) = dx; V(1, 2) = dy; ref::inverse(V, Vi); ref::M B = Vi * G2 * U; G = (1 / ref::fro(G)) * G; B = (1 / ref::fro(B)) * B; ld d = std::min(ref::maxAbs(G - B), ref::maxAbs(G + B)); REQ(d < 1e-8L * c.c, "the estimate depends on the order of the points or on the units: " << double(d));
    // the algebraic error is the smallest possible in the normalized frame: no worse than that of the true homography by more than the change of the norm
    ld worst = 0; for (int i = 0; i < n; ++i) { P2 q = f[i]; ld w = std::fabs(G(2, 0) * q.x + G(2, 1) * q.y + G(2, 2)); worst = std::max(worst, w * dist(map(G, q), t[i])); } REQ(worst < 0.03L * 40, "algebraic residual " << double(worst)); }
namespace {
typedef ref::V3 V3;
struct Cam { ref::M K, P; ref::P e; };
/// camera that looks along its negative z axis at something near the world origin
Cam genCam(pbt::Ctx& g, ld dist0) { Cam c; c.K = ref::M(3, 3); ld f = g.logreal(0.3, 2000); c.K(0, 0) = f; c.K(1, 1) = f * g.real(0.8, 1.25); c.K(0, 1) = g.oneIn(3) ? f * g.sym(0.1) : 0; c.K(0, 2) = f * g.sym(0.5); c.K(1, 2) = f * g.sym(0.5); c.K(2, 2) = -1; for (auto& x : c.K.d) x = ld(double(x)); c.e.q = ref::unit(g.coin() ? ref::genQ(g) : ref::genQuniform(g)); c.e.t = V3(g.sym(1), g.sym(1), -dist0); c.P = ref::M(3, 4); ref::M R = ref::rotM(c.e.q); ref::M E(3, 4); for (int i = 0; i < 3; ++i) { for (int j = 0; j < 3; ++j) E(i, j) = R(i, j); E(i, 3) = c.e.t[i]; } c.P = c.K * E; return c; }
P2 proj(const ref::M& P, const V3& x) { ld r[3]; for (int i = 0; i < 3; ++i) r[i] = P(i, 0) * x[0] + P(i, 1) * x[1] + P(i, 2) * x[2] + P(i, 3); return P2{r[0] / r[2], r[1] / r[2]}; }
template <class T> void projection(pbt::Ctx& g) {
    const bool fl = sizeof(T) == 4; int n = g.many(6, 20, 120); Cam c = genCam(g, g.real(4, 8)); ld sc = fl ? 1 : ld(g.logreal(1e-2, 1e2)), off = g.coin() ? 0 : sc * g.real(0, fl ? 2 : 50); V3 o(off, -off, off / 2); std::vector<V3> X; std::vector<P2> x; for (int i = 0; i < n; ++i) { V3 u(g.sym(1), g.sym(1), g.sym(1)); V3 w = sc * u + o; for (int k = 0; k < 3; ++k) w[k] = ld(T(w[k])); X.push_back(w); x.push_back(rnd<T>(proj(c.P, (1 / sc) * (w - o)))); }
    ref::M S = ref::eye(4); for (int i = 0; i < 3; ++i) { S(i, i) = 1 / sc; S(i, 3) = -o[i] / sc; } ref::M W = c.P * S; ld nrm = std::sqrt(W(2, 0) * W(2, 0) + W(2, 1) * W(2, 1) + W(2, 2) * W(2, 2)); W = (1 / nrm) * W; /* w > 0 in front of the camera */ Spread sb = spread(x); V3 m; for (auto& a : X) m = m + (ld(1) / n) * a; ld sx = 0; for (auto& a : X) sx += ref::norm(a - m) / n; ref::M M(std::max(12, 2 * n), 12); for (int i = 0; i < n; ++i) { V3 a = (1 / sx) * (X[i] - m); ld u = (x[i].x - sb.mx) / sb.s, v = (x[i].y - sb.my) / sb.s; ld h[4] = {a[0], a[1], a[2], 1}; for (int k = 0; k < 4; ++k) { M(2 * i, k) = h[k]; M(2 * i, 8 + k) = -u * h[k]; M(2 * i + 1, 4 + k) = h[k]; M(2 * i + 1, 8 + k) = -v * h[k]; } } auto s = ref::singularValues(M); ld cond = s[0] / s[10]; g.assume(cond < (fl ? 300 : 1e5L) && s[10] > 0); g.nontrivial(); g.note() << n << " points, condition " << double(cond); ld eps = std::numeric_limits<T>::epsilon(), tol = 200 * eps * cond * (1 + ref::norm(m) / sx + sb.off / sb.s);
    std::vector<Math::Vector<T, 3>> lX; std::vector<Math::Vector<T, 2>> lx; for (auto& a : X) { Math::Vector<T, 3> v; for (int k = 0; k < 3; ++k) v(k) = T(a[k]); lX.push_back(v); } for (auto& p : x) lx.push_back(lv<T>(p)); ref::M G = ut::rm(A::projectionDLT(lX, lx)); for (int i = 0; i < n; ++i) { REQ(dist(proj(G, X[i]), x[i]) < tol * sb.s, "point " << i << " is projected " << double(dist(proj(G, X[i]), x[i]) / sb.s) << " of the spread away"); ld w = G(2, 0) * X[i][0] + G(2, 1) * X[i][1] + G(2, 2) * X[i][2] + G(2, 3); REQ(w > 0, "point " << i << " lies behind the estimated camera"); }
    ld gn = std::sqrt(G(2, 0) * G(2, 0) + G(2, 1) * G(2, 1) + G(2, 2) * G(2, 2)); REQ(std::fabs(gn - 1) < 20 * eps * (1 + ref::norm(m) / sx), "viewing direction has length " << double(gn)); for (int i = 0; i < 3; ++i) { ld rs = 0, df = 0; for (int j = 0; j < 4; ++j) { ld sc2 = j < 3 ? 1 : 1 / (sx + ref::norm(m)); rs = std::max(rs, std::fabs(W(i, j)) * sc2); df = std::max(df, std::fabs(W(i, j) - G(i, j)) * sc2); } REQ(df < 30 * tol * rs * (1 + ref::norm(m) / sx), "row " << i << " of the projection matrix is off by " << double(df / rs)); } }
template <class T> void decompose(pbt::Ctx& g) {
    const bool fl = sizeof(T) == 4; Cam c = genCam(g, g.real(0.5, 20)); if (fl) { ld f = c.K(0, 0); for (int i = 0; i < 2; ++i) for (int j = 0; j < 3; ++j) c.K(i, j) /= f / 2; ref::M E(3, 4); ref::M R = ref::rotM(c.e.q); for (int i = 0; i < 3; ++i) { for (int j = 0; j < 3; ++j) E(i, j) = R(i, j); E(i, 3) = c.e.t[i]; } c.P = c.K * E; } ld s = g.coin() ? 1 : ld(g.logreal(0.05, 20)) * (g.coin() ? -1 : 1); ref::M P = s * c.P; for (auto& x : P.d) x = ld(T(x)); Math::Matrix<T, 3, 4> p; ut::set(p, P); Math::Matrix<T, 3, 3> k, r; Math::Vector<T, 3> t; A::decomposeProjection(k, r, t, p); g.nontrivial(); g.cls(s == 1 ? "normalized" : s < 0 ? "negative scale" : "scaled"); ld eps = std::numeric_limits<T>::epsilon(), f = c.K(0, 0), tol = 500 * eps * std::max<ld>(1, 1 / f) * std::max<ld>(1, f / c.K(1, 1)); g.note() << "focal length " << double(f) << " scale " << double(s) << " " << c.e;
    ref::M K = ut::rm(k), R = ut::rm(r); REQ(K(1, 0) == 0 && K(2, 0) == 0 && K(2, 1) == 0, "intrinsics are not upper triangular"); REQ(K(0, 0) > 0 && std::fabs(K(2, 2) + 1) < 4 * eps, "intrinsics are not normalized"); REQ(ref::maxAbs(R * ref::tr(R) - ref::eye(3)) < 50 * eps && ref::det(R) > 0, "not a rotation"); REQ(ref::maxAbs(K - c.K) < tol * std::max<ld>(1, f) * 3, "intrinsics " << K << ", expected " << c.K); REQ(ref::maxAbs(R - ref::rotM(c.e.q)) < tol, "rotation is off by " << double(ref::maxAbs(R - ref::rotM(c.e.q)))); for (int i = 0; i < 3; ++i) REQ(std::fabs(ld(t(i)) - c.e.t[i]) < tol * (1 + ref::norm(c.e.t)), "translation [" << i << "] is " << double(t(i)) << ", expected " << double(c.e.t[i])); }
}
PROP(projection_dlt, 1200, 80000, "always") { if (g.coin()) projection<double>(g); else projection<float>(g); }
PROP(projection_decomposition, 1500, 100000, "always") { if (g.coin()) decompose<double>(g); else decompose<float>(g); }
namespace {
template <class T> void opengl(pbt::Ctx& g) {
    ld eps = std::numeric_limits<T>::epsilon(); Cam c = genCam(g, g.real(4, 8)); if (sizeof(T) == 4) { ld f = c.K(0, 0); for (int i = 0; i < 2; ++i) for (int j = 0; j < 3; ++j) c.K(i, j) /= f / 2; } ld f0 = c.K(0, 0); ld l = -f0 * g.real(0.1, 1), r = l + f0 * g.real(0.5, 2), b = -f0 * g.real(0.1, 1), t = b + f0 * g.real(0.5, 2), n = g.logreal(0.05, 2), f = n * g.real(1.5, 50); l = T(l); r = T(r); b = T(b); t = T(t); n = T(n); f = T(f); bool full = g.coin(); ld s = full && g.coin() ? ld(g.logreal(0.1, 10)) : 1; ref::M P(3, 4); if (full) { ref::M E(3, 4); ref::M R = ref::rotM(c.e.q); for (int i = 0; i < 3; ++i) { for (int j = 0; j < 3; ++j) E(i, j) = R(i, j); E(i, 3) = c.e.t[i]; } P = s * (c.K * E); } else { c.e = ref::P(); for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) P(i, j) = c.K(i, j); } for (auto& x : P.d) x = ld(T(x)); ref::M G; if (full) { Math::Matrix<T, 3, 4> m; ut::set(m, P); G = ut::rm(A::projectionMatrixToOpenGL(T(l), T(r), T(b), T(t), T(n), T(f), m)); } else { Math::Matrix<T, 3, 3> m; ut::set(m, c.K); for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) P(i, j) = m(i, j); G = ut::rm(A::projectionMatrixToOpenGL(T(l), T(r), T(b), T(t), T(n), T(f), m)); } g.nontrivial(); g.cls(full ? "3x4" : "3x3"); g.note() << "near " << double(n) << " far " << double(f);
    for (int q = 0; q < 4; ++q) { ld d = q == 0 ? n : q == 1 ? f : ld(g.real(double(n), double(f))); V3 cam(d * g.sym(1), d * g.sym(1), -d), w = ref::inv(c.e) * cam; ld v[4]; for (int i = 0; i < 4; ++i) v[i] = G(i, 0) * w[0] + G(i, 1) * w[1] + G(i, 2) * w[2] + G(i, 3); REQ(v[3] > 0, "w of a visible point is not positive"); P2 u = proj(P, w); ld wx = 2 * (u.x - l) / (r - l) - 1, wy = 2 * (u.y - b) / (t - b) - 1, wz = (f + n - 2 * f * n / d) / (f - n); ld tol = 2000 * eps * (1 + ref::norm(w) + ref::norm(c.e.t)) * (1 + f / n) / std::min<ld>(1, d) * std::max<ld>(1, 1 / f0); REQ(std::fabs(v[0] / v[3] - wx) < tol * (1 + std::fabs(wx)), "x " << double(v[0] / v[3]) << ", expected " << double(wx)); REQ(std::fabs(v[1] / v[3] - wy) < tol * (1 + std::fabs(wy)), "y " << double(v[1] / v[3]) << ", expected " << double(wy)); REQ(std::fabs(v[2] / v[3] - wz) < tol, "depth " << double(v[2] / v[3]) << ", expected " << double(wz)); } }
}
PROP(opengl_projection, 1500, 100000, "always") { if (g.coin()) opengl<double>(g); else opengl<float>(g); }
PROP(off_axis_projection, 1000, 60000, "always") {
    ref::P s; s.q = ref::unit(ref::genQ(g)); s.t = ref::genV(g, 5); ld sw = g.real(0.2, 5), sh = g.real(0.2, 5), n = g.real(0.05, 1), f = n * g.real(1.5, 30); V3 eL(g.sym(4) + sw / 2, g.sym(4) + sh / 2, g.real(0.3, 5)); V3 ll = s.t, lr = s * V3(sw, 0, 0), ul = s * V3(0, sh, 0), eye = s * eL; ut::V3d a = ut::v(eye), b = ut::v(ll), c = ut::v(ul), d = ut::v(lr); ref::M G = ut::rm(A::offAxisProjectionMatrix(a, b, c, d, double(n), double(f), double(sw), double(sh))); g.nontrivial(); g.note() << "screen " << double(sw) << "x" << double(sh) << " eye at " << eL;
    for (int q = 0; q < 6; ++q) { ld u = q == 0 || q == 2 ? 0 : q == 1 ? 1 : ld(g.unit()), v = q < 2 ? 0 : q == 2 ? 1 : ld(g.unit()); V3 onScreen(u * sw, v * sh, 0); V3 dir = onScreen - eL; ld depth = q < 3 ? eL[2] : q == 3 ? n : q == 4 ? f : ld(g.real(double(n), double(f))); V3 x = s * (eL + (depth / eL[2]) * dir); ld h[4]; for (int i = 0; i < 4; ++i) h[i] = G(i, 0) * x[0] + G(i, 1) * x[1] + G(i, 2) * x[2] + G(i, 3); ld tol = 1e-11L * (1 + 1 / sw + 1 / sh) * (1 + f / n) / std::min<ld>(1, depth); REQ(std::fabs(h[0] / h[3] - (2 * u - 1)) < tol && std::fabs(h[1] / h[3] - (2 * v - 1)) < tol, "screen position (" << double(u) << "," << double(v) << ") is projected to (" << double(h[0] / h[3]) << "," << double(h[1] / h[3]) << ")"); ld wz = (f + n - 2 * f * n / depth) / (f - n); REQ(std::fabs(h[2] / h[3] - wz) < tol * 10, "depth " << double(h[2] / h[3]) << ", expected " << double(wz)); REQ(h[3] > 0, "w is not positive"); } }
PROP(image_origin, 500, 20000, "the origin is changed") { Cam c = genCam(g, 5); int h = g.range(1, 2000), org = g.range(0, 2); bool fl = g.coin(); g.nontrivial(org == 0); g.note() << "height " << h << " origin " << org; ref::M K0 = c.K, K1; if (fl) { Math::Matrix<float, 3, 3> k; ut::set(k, c.K); K0 = ut::rm(k); A::correctOrigin(k, org, h); K1 = ut::rm(k); } else { Math::Matrix<double, 3, 3> k; ut::set(k, c.K); A::correctOrigin(k, org, h); K1 = ut::rm(k); } ref::M I(3, 4), J(3, 4); for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { I(i, j) = K0(i, j); J(i, j) = K1(i, j); } V3 x(g.sym(1), g.sym(1), -1); P2 a = proj(I, x), b = proj(J, x); ld want = org ? a.y : ld(h - 1) - a.y; ld tol = (fl ? 1e-5L : 1e-13L) * (1 + std::fabs(a.y) + h + std::fabs(K0(1, 2))); REQ(std::fabs(b.x - a.x) < tol && std::fabs(b.y - want) < tol, "row " << double(b.y) << ", expected " << double(want)); }
namespace {
ld epi(const ref::M& F, const P2& a, const P2& b) { ld l[3]; for (int i = 0; i < 3; ++i) l[i] = F(i, 0) * a.x + F(i, 1) * a.y + F(i, 2); return (l[0] * b.x + l[1] * b.y + l[2]) / std::hypot(l[0], l[1]); }
struct Stereo { Cam a, b; std::vector<V3> X; std::vector<P2> x, y; };
Stereo genStereo(pbt::Ctx& g, int n, bool k1) { Stereo s; s.a = genCam(g, 0); ld d = g.real(4, 7); V3 c0(g.sym(0.5), g.sym(0.5), -d); if (k1) s.a.e = ref::P(); else s.a.e.t = c0 - ref::rot(s.a.e.q, V3()); s.b = genCam(g, 0); ref::P rel; V3 axis(g.sym(1), g.sym(1), g.sym(1)); if (ref::norm(axis) < 0.1L) axis = V3(0, 1, 0); rel.q = ref::axisAngle(axis, g.sym(0.5)); rel.t = V3(g.sym(2), g.sym(2), g.sym(2)); s.b.e = rel * s.a.e; auto upd = [](Cam& c) { ref::M E(3, 4); ref::M R = ref::rotM(c.e.q); for (int i = 0; i < 3; ++i) { for (int j = 0; j < 3; ++j) E(i, j) = R(i, j); E(i, 3) = c.e.t[i]; } c.P = c.K * E; }; upd(s.a); upd(s.b); V3 w0 = k1 ? V3(0, 0, -6) : V3(); for (int i = 0; i < n; ++i) { V3 X = w0 + V3(g.sym(1.5), g.sym(1.5), g.sym(1.5)); g.assume((s.a.e * X)[2] < -0.3L && (s.b.e * X)[2] < -0.3L); s.X.push_back(X); s.x.push_back(proj(s.a.P, X)); s.y.push_back(proj(s.b.P, X)); } g.assume(ref::norm(rel.t) > 0.3L); return s; }
template <class T> void fundamental(pbt::Ctx& g) {
    const bool fl = sizeof(T) == 4; int n = g.many(8, 25, 150), step = g.oneIn(4) && n >= 16 ? 2 : 1; Stereo s = genStereo(g, n, false); for (auto& p : s.x) p = rnd<T>(p); for (auto& p : s.y) p = rnd<T>(p); Spread a = spread(s.x), b = spread(s.y); g.assume(a.s > 0 && b.s > 0); ref::M M(std::max(9, n / step), 9); for (int i = 0; i < n / step; ++i) { P2 p = s.x[i * step], q = s.y[i * step]; ld x = (p.x - a.mx) / a.s, y = (p.y - a.my) / a.s, u = (q.x - b.mx) / b.s, v = (q.y - b.my) / b.s; ld r[9] = {u * x, u * y, u, v * x, v * y, v, x, y, 1}; for (int k = 0; k < 9; ++k) M(i, k) = r[k]; } auto sv = ref::singularValues(M); ld cond = sv[0] / sv[7]; g.assume(sv[7] > 0 && cond < (fl ? 300 : 1e5L)); std::vector<Math::Vector<T, 2>> lx, ly; for (auto& p : s.x) lx.push_back(lv<T>(p)); for (auto& p : s.y) ly.push_back(lv<T>(p)); ref::M F = ut::rm(step == 1 && g.coin() ? A::getFundamentalMatrix(lx, ly) : A::getFundamentalMatrix(lx, ly, step)); g.nontrivial(); g.cls(step > 1 ? "every second point" : "all points"); g.note() << n << " points, condition " << double(cond);
    ld tol = 300 * ld(std::numeric_limits<T>::epsilon()) * cond * (1 + a.off / a.s + b.off / b.s); for (int i = 0; i < n; ++i) { ld e = std::fabs(epi(F, s.x[i], s.y[i])) / b.s; ref::M Fn = F; /* line direction may be badly defined at the epipole */ P2 p = s.x[i]; ld l0 = F(0, 0) * p.x + F(0, 1) * p.y + F(0, 2), l1 = F(1, 0) * p.x + F(1, 1) * p.y + F(1, 2); ld len = std::hypot(l0, l1) * b.s / (ref::fro(F) + 1e-300L); (void)len; ref::M c1 = ref::M(3, 1), c2 = ref::M(1, 3); c1(0, 0) = p.x; c1(1, 0) = p.y; c1(2, 0) = 1; c2(0, 0) = s.y[i].x; c2(0, 1) = s.y[i].y; c2(0, 2) = 1; ref::M Na = ref::eye(3), Nb = ref::eye(3); Na(0, 0) = Na(1, 1) = a.s; Na(0, 2) = a.mx; Na(1, 2) = a.my; Nb(0, 0) = Nb(1, 1) = b.s; Nb(0, 2) = b.mx; Nb(1, 2) = b.my; ref::M FN = ref::tr(Nb) * F * Na; ld v = std::fabs((c2 * F * c1)(0, 0)) / ref::fro(FN); REQ(v < tol, "epipolar constraint of point " << i << " is violated by " << double(v) << " (distance " << double(e) << " of the spread)"); if (i == 0) { auto fs = ref::singularValues(FN); REQ(fs[2] < tol * fs[0], "the fundamental matrix has full rank: " << double(fs[2] / fs[0])); } }
    A::GetFundamentalMatrix<T> gf; Math::Matrix<T, 3, 3> fr; gf(fr, lx, ly); A::EvaluateFundamentalMatrix<T> ev; int k = g.range(0, n - 1); P2 q = rnd<T>(P2{s.y[k].x + b.s * g.sym(2), s.y[k].y + b.s * g.sym(2)}); ref::M FR = ut::rm(fr); ld want = epi(FR, s.x[k], q); want *= want; ld got = ev(fr, lx[k], lv<T>(q)); P2 p = s.x[k]; ld l0 = FR(0, 0) * p.x + FR(0, 1) * p.y + FR(0, 2), l1 = FR(1, 0) * p.x + FR(1, 1) * p.y + FR(1, 2), l2 = FR(2, 0) * p.x + FR(2, 1) * p.y + FR(2, 2); ld big = (std::fabs(l0 * q.x) + std::fabs(l1 * q.y) + std::fabs(l2)) / std::hypot(l0, l1); ld mag = (std::fabs(FR(0, 0) * p.x) + std::fabs(FR(0, 1) * p.y) + std::fabs(FR(0, 2)) + std::fabs(FR(1, 0) * p.x) + std::fabs(FR(1, 1) * p.y) + std::fabs(FR(1, 2))) / std::hypot(l0, l1); REQ(std::fabs(got - want) <= 100 * ld(std::numeric_limits<T>::epsilon()) * mag * big * (big + mag), "squared epipolar distance " << double(got) << ", expected " << double(want)); }
}
PROP(fundamental_matrix_from_points, 1200, 80000, "always") { if (g.coin()) fundamental<double>(g); else fundamental<float>(g); }
PROP(fundamental_matrix_from_poses, 1200, 80000, "always") {
    bool k1 = g.coin(); Stereo s = genStereo(g, 5, k1); Math::Matrix<double, 3, 3> K1, K2; ut::set(K1, s.a.K); ut::set(K2, s.b.K); Math::Pose c1 = ut::p(s.a.e), c2 = ut::p(s.b.e); Math::Matrix<double, 3, 3> lF = A::fundamentalMatrixFromPoses(c1, c2, K1, K2); ref::M F = ut::rm(lF); g.nontrivial(); g.cls(k1 ? "first camera at the origin" : "general"); g.note() << s.a.e << " " << s.b.e; ref::M E = ref::tr(s.b.K) * F * s.a.K; auto es = ref::singularValues(E); REQ(es[0] > 0, "the fundamental matrix is zero"); for (int i = 0; i < 5; ++i) { ref::M X1(3, 1), X2(1, 3); X1(0, 0) = s.x[i].x; X1(1, 0) = s.x[i].y; X1(2, 0) = 1; X2(0, 0) = s.y[i].x; X2(0, 1) = s.y[i].y; X2(0, 2) = 1; ref::M Ka, Kb; ref::inverse(s.a.K, Ka); ref::inverse(s.b.K, Kb); ld n1 = ref::fro(Ka * X1), n2 = ref::fro(Kb * ref::tr(X2)); ld v = std::fabs((X2 * F * X1)(0, 0)) / (es[0] * n1 * n2); REQ(v < 1e-10L, "epipolar constraint is violated by " << double(v)); }
    REQ(es[2] < 1e-10L * es[0] && std::fabs(es[1] - es[0]) < 1e-9L * es[0], "not the essential matrix of two cameras, singular values " << double(es[0]) << " " << double(es[1]) << " " << double(es[2]));
    // recover the relative pose from the fundamental matrix and one point that both cameras see
    ref::P rel = s.b.e * ref::inv(s.a.e); ld sc = g.coin() ? 1 : ld(g.logreal(0.01, 100)) * (g.coin() ? -1 : 1); ut::set(lF, sc * F); Math::Vector<double, 2> x = lv<double>(s.x[0]), y = lv<double>(s.y[0]); V3 Xc = s.a.e * s.X[0], dirT = (1 / ref::norm(rel.t)) * rel.t; V3 v1 = ref::rot(rel.q, Xc), v2 = rel * s.X[0]; (void)v2; ld par = ref::norm(ref::cross(v1, rel.t)) / (ref::norm(v1) * ref::norm(rel.t)); g.assume(par > 0.02L); ref::P got = ut::r(A::poseFromFundamentalMatrix(lF, x, y, K1, K2)); REQ(ref::rotDist(got.q, rel.q) < 1e-7L, "relative rotation is off by " << double(ref::rotDist(got.q, rel.q))); REQ(ref::norm(got.t - dirT) < 1e-7L, "relative translation " << got.t << ", expected " << dirT); }
PROP(fundamental_matrix_rejects_bad_input, 100, 2000, "always") { int n = g.range(0, 12), m = g.range(0, 12); std::size_t st = g.range(0, 1); g.assume(n < 8 || n != m || st == 0); g.nontrivial(); g.note() << n << " and " << m << " points, step " << st; std::vector<Math::Vector<double, 2>> a(n, Math::Vector<double, 2>(1, 2)), b(m, Math::Vector<double, 2>(1, 2)); bool th = false; try { A::getFundamentalMatrix(a, b, st); } catch (const Util::Exception&) { th = true; } REQ(th, "no exception"); }
