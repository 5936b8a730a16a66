// Independent long-double reference mathematics used as oracle; uses nothing of the library under test.
#pragma once
#include "pbt.h"
#include <algorithm>
#include <array>
#include <cmath>
#include <vector>
namespace ref {
typedef long double L;
const L PI = 3.14159265358979323846264338327950288L;

struct V3 { L v[3]; V3(L a = 0, L b = 0, L c = 0) : v{a, b, c} {} L& operator[](int i) { return v[i]; } const L& operator[](int i) const { return v[i]; } };
inline V3 operator+(V3 a, V3 b) { return V3(a[0] + b[0], a[1] + b[1], a[2] + b[2]); }
inline V3 operator-(V3 a, V3 b) { return V3(a[0] - b[0], a[1] - b[1], a[2] - b[2]); }
inline V3 operator*(L s, V3 a) { return V3(s * a[0], s * a[1], s * a[2]); }
inline L dot(V3 a, V3 b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; }
inline V3 cross(V3 a, V3 b) { return V3(a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]); }
inline L norm(V3 a) { return std::sqrt(dot(a, a)); }
inline std::ostream& operator<<(std::ostream& o, const V3& a) { return o << "(" << a[0] << " " << a[1] << " " << a[2] << ")"; }

struct Q { L x, y, z, w; Q(L X = 0, L Y = 0, L Z = 0, L W = 1) : x(X), y(Y), z(Z), w(W) {} };
inline std::ostream& operator<<(std::ostream& o, const Q& q) { return o << "q(" << q.x << " " << q.y << " " << q.z << " " << q.w << ")"; }
inline Q operator*(Q a, Q b) {
    return Q(a.w * b.x + a.x * b.w + a.y * b.z - a.z * b.y, a.w * b.y - a.x * b.z + a.y * b.w + a.z * b.x,
             a.w * b.z + a.x * b.y - a.y * b.x + a.z * b.w, a.w * b.w - a.x * b.x - a.y * b.y - a.z * b.z);
}
inline Q conj(Q a) { return Q(-a.x, -a.y, -a.z, a.w); }
inline Q neg(Q a) { return Q(-a.x, -a.y, -a.z, -a.w); }
inline L dot(Q a, Q b) { return a.x * b.x + a.y * b.y + a.z * b.z + a.w * b.w; }
inline L norm(Q a) { return std::sqrt(dot(a, a)); }
inline Q unit(Q a) { L n = norm(a); return Q(a.x / n, a.y / n, a.z / n, a.w / n); }
inline V3 rot(Q q, V3 v) { // exact rotation for unit q, via q v q*
    Q r = q * Q(v[0], v[1], v[2], 0) * conj(q); return V3(r.x, r.y, r.z);
}
inline Q axisAngle(V3 ax, L ang) { L n = norm(ax); L s = std::sin(ang / 2) / n; return Q(ax[0] * s, ax[1] * s, ax[2] * s, std::cos(ang / 2)); }
/// distance of the rotations (not sign sensitive): angle between them, accurate for small values
inline L rotDist(Q a, Q b) { Q d = unit(a) * conj(unit(b)); L s = std::sqrt(d.x * d.x + d.y * d.y + d.z * d.z); return 2 * std::atan2(s, std::fabs(d.w)); }
/// rotation vector with angle in [0,pi]
inline V3 logv(Q q) { L s = q.w >= 0 ? 1 : -1; L n = std::sqrt(q.x * q.x + q.y * q.y + q.z * q.z); if (n == 0) return V3(); L a = 2 * std::atan2(n, std::fabs(q.w)); return (s * a / n) * V3(q.x, q.y, q.z); }
inline Q expv(V3 v) { L n = norm(v); L h = n / 2; L s = n < 1e-8L ? 0.5L - n * n / 48 : std::sin(h) / n; return Q(v[0] * s, v[1] * s, v[2] * s, std::cos(h)); }

struct M { // dynamic matrix
    int r, c; std::vector<L> d;
    M(int R = 0, int C = 0) : r(R), c(C), d(size_t(R) * C, 0) {}
    L& operator()(int i, int j) { return d[size_t(i) * c + j]; }
    L operator()(int i, int j) const { return d[size_t(i) * c + j]; }
};
inline M eye(int n) { M m(n, n); for (int i = 0; i < n; ++i) m(i, i) = 1; return m; }
inline M operator*(const M& a, const M& b) { M m(a.r, b.c); for (int i = 0; i < a.r; ++i) for (int k = 0; k < a.c; ++k) { L x = a(i, k); if (x != 0) for (int j = 0; j < b.c; ++j) m(i, j) += x * b(k, j); } return m; }
inline M operator+(const M& a, const M& b) { M m(a); for (size_t i = 0; i < m.d.size(); ++i) m.d[i] += b.d[i]; return m; }
inline M operator-(const M& a, const M& b) { M m(a); for (size_t i = 0; i < m.d.size(); ++i) m.d[i] -= b.d[i]; return m; }
inline M operator*(L s, const M& a) { M m(a); for (auto& x : m.d) x *= s; return m; }
inline M tr(const M& a) { M m(a.c, a.r); for (int i = 0; i < a.r; ++i) for (int j = 0; j < a.c; ++j) m(j, i) = a(i, j); return m; }
inline L maxAbs(const M& a) { L m = 0; for (L x : a.d) { if (!(std::fabs(x) <= m)) m = std::fabs(x); } return m; }
inline L fro(const M& a) { L m = 0; for (L x : a.d) m += x * x; return std::sqrt(m); }
inline std::ostream& operator<<(std::ostream& o, const M& a) { o << "["; for (int i = 0; i < a.r; ++i) { if (i) o << "; "; for (int j = 0; j < a.c; ++j) o << (j ? " " : "") << a(i, j); } return o << "]"; }
/// Gauss-Jordan with full pivoting; returns det, inv optional
inline L inverse(M a, M& inv) {
    int n = a.r; inv = eye(n); L det = 1; std::vector<int> cp(n); for (int i = 0; i < n; ++i) cp[i] = i;
    M b = eye(n);
    for (int k = 0; k < n; ++k) {
        int pi = k, pj = k; L best = -1;
        for (int i = k; i < n; ++i) for (int j = k; j < n; ++j) if (std::fabs(a(i, j)) > best) { best = std::fabs(a(i, j)); pi = i; pj = j; }
        if (best <= 0) return 0;
        if (pi != k) { det = -det; for (int j = 0; j < n; ++j) { std::swap(a(k, j), a(pi, j)); std::swap(b(k, j), b(pi, j)); } }
        if (pj != k) { det = -det; for (int i = 0; i < n; ++i) std::swap(a(i, k), a(i, pj)); std::swap(cp[k], cp[pj]); }
        L p = a(k, k); det *= p;
        for (int j = 0; j < n; ++j) { a(k, j) /= p; b(k, j) /= p; }
        for (int i = 0; i < n; ++i) if (i != k) { L f = a(i, k); if (f != 0) for (int j = 0; j < n; ++j) { a(i, j) -= f * a(k, j); b(i, j) -= f * b(k, j); } }
    }
    for (int k = 0; k < n; ++k) for (int j = 0; j < n; ++j) inv(cp[k], j) = b(k, j);
    return det;
}
inline L det(const M& a) { M i; return inverse(a, i); }
/// eigen decomposition of a symmetric matrix (Jacobi): a = V diag(w) V^T, ascending
inline void eigSym(M a, std::vector<L>& w, M& V) {
    int n = a.r; V = eye(n);
    for (int sweep = 0; sweep < 100; ++sweep) {
        L off = 0, dg = 0; for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) (i == j ? dg : off) += a(i, j) * a(i, j);
        if (off <= 1e-38L * (dg + off) || off == 0) break;
        for (int p = 0; p < n; ++p) for (int q = p + 1; q < n; ++q) {
            if (a(p, q) == 0) continue;
            L th = (a(q, q) - a(p, p)) / (2 * a(p, q)); L t = (th >= 0 ? 1 : -1) / (std::fabs(th) + std::sqrt(th * th + 1)); L c = 1 / std::sqrt(t * t + 1), s = t * c;
            for (int k = 0; k < n; ++k) { L x = a(k, p), y = a(k, q); a(k, p) = c * x - s * y; a(k, q) = s * x + c * y; }
            for (int k = 0; k < n; ++k) { L x = a(p, k), y = a(q, k); a(p, k) = c * x - s * y; a(q, k) = s * x + c * y; }
            for (int k = 0; k < n; ++k) { L x = V(k, p), y = V(k, q); V(k, p) = c * x - s * y; V(k, q) = s * x + c * y; }
        }
    }
    std::vector<int> o(n); for (int i = 0; i < n; ++i) o[i] = i;
    std::sort(o.begin(), o.end(), [&](int i, int j) { return a(i, i) < a(j, j); });
    w.resize(n); M V2(n, n);
    for (int i = 0; i < n; ++i) { w[i] = a(o[i], o[i]); for (int k = 0; k < n; ++k) V2(k, i) = V(k, o[i]); }
    V = V2;
}
/// one sided Jacobi SVD for r>=c: A = U diag(s) V^T (s descending)
inline void svd(const M& A, M& U, std::vector<L>& s, M& V) {
    if (A.r < A.c) { M Ut, Vt; svd(tr(A), Vt, s, Ut); U = Ut; V = Vt; return; }
    int m = A.r, n = A.c; U = A; V = eye(n);
    for (int sweep = 0; sweep < 100; ++sweep) {
        L off = 0;
        for (int p = 0; p < n; ++p) for (int q = p + 1; q < n; ++q) {
            L al = 0, be = 0, ga = 0; for (int k = 0; k < m; ++k) { al += U(k, p) * U(k, p); be += U(k, q) * U(k, q); ga += U(k, p) * U(k, q); }
            if (ga == 0 || std::fabs(ga) <= 1e-19L * std::sqrt(al * be)) continue;
            off = std::max(off, std::fabs(ga) / std::sqrt(al * be));
            L ze = (be - al) / (2 * ga); L t = (ze >= 0 ? 1 : -1) / (std::fabs(ze) + std::sqrt(1 + ze * ze)); L c = 1 / std::sqrt(1 + t * t), sn = c * t;
            for (int k = 0; k < m; ++k) { L x = U(k, p), y = U(k, q); U(k, p) = c * x - sn * y; U(k, q) = sn * x + c * y; }
            for (int k = 0; k < n; ++k) { L x = V(k, p), y = V(k, q); V(k, p) = c * x - sn * y; V(k, q) = sn * x + c * y; }
        }
        if (off < 1e-18L) break;
    }
    std::vector<L> w(n); for (int j = 0; j < n; ++j) { L x = 0; for (int k = 0; k < m; ++k) x += U(k, j) * U(k, j); w[j] = std::sqrt(x); }
    std::vector<int> o(n); for (int i = 0; i < n; ++i) o[i] = i;
    std::sort(o.begin(), o.end(), [&](int i, int j) { return w[i] > w[j]; });
    M U2(m, n), V2(n, n); s.resize(n);
    for (int j = 0; j < n; ++j) { s[j] = w[o[j]]; for (int k = 0; k < m; ++k) U2(k, j) = s[j] > 0 ? U(k, o[j]) / s[j] : 0; for (int k = 0; k < n; ++k) V2(k, j) = V(k, o[j]); }
    U = U2; V = V2;
}
/// least squares / exact solution of a x = b, a square or tall with full rank
inline M solve(const M& a, const M& b) { M i; if (a.r == a.c) { inverse(a, i); return i * b; } M at = tr(a); inverse(at * a, i); return i * (at * b); }
inline std::vector<L> singularValues(const M& A) { M U, V; std::vector<L> s; svd(A, U, s, V); return s; }

inline M rotM(Q q) { M m(3, 3); V3 e[3] = {V3(1, 0, 0), V3(0, 1, 0), V3(0, 0, 1)}; for (int j = 0; j < 3; ++j) { V3 c = rot(q, e[j]); for (int i = 0; i < 3; ++i) m(i, j) = c[i]; } return m; }
inline V3 mul(const M& m, V3 v) { V3 r; for (int i = 0; i < 3; ++i) r[i] = m(i, 0) * v[0] + m(i, 1) * v[1] + m(i, 2) * v[2]; return r; }
/// quaternion from a rotation matrix (largest component branch)
inline Q fromM(const M& m) {
    L t = m(0, 0) + m(1, 1) + m(2, 2); Q q;
    L c[4] = {m(0, 0) - m(1, 1) - m(2, 2), m(1, 1) - m(0, 0) - m(2, 2), m(2, 2) - m(0, 0) - m(1, 1), t};
    int k = int(std::max_element(c, c + 4) - c); L s = std::sqrt(std::max<L>(0, 1 + c[k])) * 2;
    switch (k) {
    case 0: q = Q(s / 4, (m(0, 1) + m(1, 0)) / s, (m(0, 2) + m(2, 0)) / s, (m(2, 1) - m(1, 2)) / s); break;
    case 1: q = Q((m(0, 1) + m(1, 0)) / s, s / 4, (m(1, 2) + m(2, 1)) / s, (m(0, 2) - m(2, 0)) / s); break;
    case 2: q = Q((m(0, 2) + m(2, 0)) / s, (m(1, 2) + m(2, 1)) / s, s / 4, (m(1, 0) - m(0, 1)) / s); break;
    default: q = Q((m(2, 1) - m(1, 2)) / s, (m(0, 2) - m(2, 0)) / s, (m(1, 0) - m(0, 1)) / s, s / 4);
    }
    return unit(q);
}
struct P { Q q; V3 t; };
inline V3 operator*(const P& p, V3 v) { return rot(p.q, v) + p.t; }
inline P operator*(const P& a, const P& b) { return P{a.q * b.q, rot(a.q, b.t) + a.t}; }
inline P inv(const P& a) { Q c = conj(a.q); return P{c, V3() - rot(c, a.t)}; }
inline std::ostream& operator<<(std::ostream& o, const P& p) { return o << "{" << p.q << " t" << p.t << "}"; }

// ---- generators ----
/// edge biased double quaternion of unit length to double precision
inline Q genQ(pbt::Ctx& g, std::string* cls = nullptr) {
    V3 ax; L ang = 0; std::string c;
    switch (g.draw(3)) { // axis
    case 0: { int k = g.range(0, 2); ax[k] = g.coin() ? -1 : 1; break; }
    case 1: { ax = V3(g.range(-2, 2), g.range(-2, 2), g.range(-2, 2)); if (norm(ax) == 0) ax = V3(1, 0, 0); break; }
    default: ax = V3(g.sym(1), g.sym(1), g.sym(1)); if (norm(ax) < 1e-3L) ax = V3(0, 0, 1);
    }
    switch (g.draw(11)) {
    case 0: ang = 0; c = "identity"; break;
    case 1: ang = std::pow(10.0L, -L(g.range(2, 15))); c = "tiny"; break;
    case 2: ang = PI; c = "180deg"; break;
    case 3: ang = PI - std::pow(10.0L, -L(g.range(1, 15))); c = "near180"; break;
    case 4: ang = PI + std::pow(10.0L, -L(g.range(1, 15))); c = "near180"; break;
    case 5: ang = PI / 2 * g.range(-3, 3); c = "quarter"; break;
    case 6: ang = PI / 12 * g.range(-23, 23); c = "deg15"; break;
    case 7: ang = 2 * PI - std::pow(10.0L, -L(g.range(1, 15))); c = "near360"; break;
    default: ang = g.sym(double(2 * PI)); c = "general";
    }
    if (cls) *cls = c;
    Q q = axisAngle(ax, ang);
    if (g.coin()) q = neg(q);
    if (g.oneIn(3)) { L s = 1 + g.range(-6, 6) * 2.220446049250313e-16L; q = Q(q.x * s, q.y * s, q.z * s, q.w * s); } // rounding noise of earlier operations
    // the double precision quaternion is the input; the reference uses exactly those values
    return Q(double(q.x), double(q.y), double(q.z), double(q.w));
}
/// generic rotation well away from special cases
inline Q genQuniform(pbt::Ctx& g) { V3 ax(g.sym(1), g.sym(1), g.sym(1)); if (norm(ax) < 1e-2L) ax = V3(1, 2, 3); Q q = axisAngle(ax, g.sym(3.1)); q = unit(q); return Q(double(q.x), double(q.y), double(q.z), double(q.w)); }
inline V3 genV(pbt::Ctx& g, double m) { return V3(g.nice(m), g.nice(m), g.nice(m)); }
inline V3 genVr(pbt::Ctx& g, double m) { double x = g.sym(m), y = g.sym(m), z = g.sym(m); return V3(x, y, z); }
inline P genP(pbt::Ctx& g, double m, std::string* cls = nullptr) { P p; p.q = genQ(g, cls); p.t = genV(g, m); return p; }
inline L maxAbs(V3 a) { return std::max(std::fabs(a[0]), std::max(std::fabs(a[1]), std::fabs(a[2]))); }

/// central difference Jacobian in long double of a function R^n -> R^m (5 point)
template <class F> M jac(F f, std::vector<L> x, L h = 1e-4L) {
    int n = int(x.size()); std::vector<L> f0 = f(x); int m = int(f0.size()); M J(m, n);
    for (int j = 0; j < n; ++j) {
        L st = h * std::max<L>(1, std::fabs(x[j])); L x0 = x[j];
        auto at = [&](L d) { x[j] = x0 + d; auto r = f(x); x[j] = x0; return r; };
        auto p1 = at(st), m1 = at(-st), p2 = at(2 * st), m2 = at(-2 * st);
        for (int i = 0; i < m; ++i) J(i, j) = (8 * (p1[i] - m1[i]) - (p2[i] - m2[i])) / (12 * st);
    }
    return J;
}
}  // namespace ref
