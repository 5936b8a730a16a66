// P02: every rotation representation describes the same physical rotation.
#include "ut.h"
#include <utUtil/StaticAssert.h>
#include <utMath/Util/RotationCast.h>
using namespace ref;
namespace MU = Ubitrack::Math; using Ubitrack::Math::Util::RotationCast;
typedef MU::Quaternion UQ;
static const L AT = 5e-7L; // arc-cosine based conversions resolve angles to about sqrt(machine epsilon)

static Q ax(int k, L a) { V3 e; e[k] = 1; return axisAngle(e, a); }

PROP(euler, 60000, 3000000, "rotation is not the identity") {
    std::string c; Q q;
    static const int order[6][3] = {{0, 1, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}, {0, 2, 1}, {1, 0, 2}};
    int s = g.range(0, 5);
    bool nearPole = g.coin();
    if (nearPole) { // middle angle at or close to +-90 degrees
        L al = g.sym(3.1), ga = g.sym(3.1), be = PI / 2; int m = g.range(0, 3);
        if (m == 1) be -= std::pow(10.0L, -L(g.range(1, 12))); else if (m == 2) be -= g.real(0, 0.3); else if (m == 3) { be -= g.real(0, 0.3); }
        if (g.coin()) be = -be;
        q = unit(ax(order[s][2], ga) * ax(order[s][1], be) * ax(order[s][0], al)); q = Q(double(q.x), double(q.y), double(q.z), double(q.w)); c = m == 0 ? "gimbal" : "near gimbal";
    } else q = genQ(g, &c);
    g.cls(c); g.nontrivial(c != "identity"); g.note() << "sequence " << s << " " << q;
    UQ A = ut::q(q);
    V3 e = ut::r(A.getEulerAngles(UQ::t_EulerSequence(s)));
    REQ(std::isfinite(double(e[0] + e[1] + e[2])), "angles not finite " << e);
    REQ(std::fabs(e[1]) <= PI / 2 + 1e-9L, "middle angle outside +-90 degrees: " << e);
    Q b = ax(order[s][2], e[2]) * ax(order[s][1], e[1]) * ax(order[s][0], e[0]);
    // cancellation next to the singularity costs accuracy; beyond it the two outer axes coincide
    REQ(rotDist(b, q) < 2e-5L, "Euler sequence " << s << " angles " << e << " describe a rotation " << rotDist(b, q) << " rad away from " << q);
    L cb = std::cos(std::min(std::fabs(e[1]), PI / 2));
    if (cb > 0.01L) REQ(rotDist(b, q) < 1e-8L, "Euler sequence " << s << " angles " << e << " are " << rotDist(b, q) << " rad away from " << q);
    // x-y-z angles of the fixed frame variant
    V3 k = ut::r(A.getEulerAngles());
    Q bk = ax(2, k[2]) * ax(1, k[1]) * ax(0, k[0]);
    REQ(rotDist(bk, q) < 1e-4L, "Euler angles " << k << " describe a rotation " << rotDist(bk, q) << " rad away from " << q);
    if (std::cos(k[1]) > 0.01L) REQ(rotDist(bk, q) < 1e-8L, "Euler angles " << k << " are " << rotDist(bk, q) << " rad away from " << q);
}

PROP(euler_constructor, 20000, 500000, "at least two angles differ from zero") {
    double x = g.nice(7), y = g.nice(7), z = g.nice(7); g.nontrivial((x != 0) + (y != 0) + (z != 0) >= 2); g.note() << x << " " << y << " " << z;
    Q r = ut::r(UQ(x, y, z));
    REQ(std::fabs(norm(r) - 1) < 1e-12L, "not a unit quaternion " << r);
    REQ(rotDist(r, ax(1, y) * ax(2, x) * ax(0, z)) < 1e-12L, "three angle constructor gave " << r);
    // axis angle constructor
    V3 a = genVr(g, 5); if (norm(a) < 1e-6L) a = V3(0, 1, 0); a = ut::r(ut::v(a)); double an = g.nice(10);
    Q w = ut::r(UQ(ut::v(a), an)), we = axisAngle(a, an);
    REQ(std::fabs(w.x - we.x) + std::fabs(w.y - we.y) + std::fabs(w.z - we.z) + std::fabs(w.w - we.w) < 1e-12L, "axis angle constructor gave " << w << " expected " << we);
}

PROP(axis_angle, 60000, 3000000, "rotation is not the identity") {
    std::string c; Q q = genQ(g, &c); g.cls(c); g.nontrivial(c != "identity"); g.note() << q;
    UQ A = ut::q(q); ut::V3d axd; double an; A.toAxisAngle(axd, an);
    V3 a = ut::r(axd);
    REQ(std::isfinite(an) && std::isfinite(double(a[0] + a[1] + a[2])), "axis " << a << " angle " << an << " not finite");
    L n = norm(a);
    if (std::fabs(q.w) < 0.99999L) REQ(std::fabs(n - 1) < 1e-9L, "axis not normalised: " << a);
    L red = std::fabs(std::remainder((L)an, 2 * PI));
    if (n < 1e-14L) { REQ(rotDist(q, Q()) < 1e-6L && red < 1e-6L, "no axis although the rotation is " << q); return; }
    REQ(rotDist(axisAngle(a, an), q) < AT, "axis " << a << " angle " << an << " is " << rotDist(axisAngle(a, an), q) << " rad away from " << q);
}

template <class T> static void castAll(pbt::Ctx& g, const Q& q, L tol) {
    UQ A = ut::q(q);
    typedef MU::Vector<T, 4> V4; typedef MU::Vector<T, 3> VV3; typedef MU::Matrix<T, 3, 3> M3; typedef MU::Matrix<T, 4, 4> M4;
    auto fromAA = [&](const V4& v) { REQ(std::isfinite(double(v(0) + v(1) + v(2) + v(3))), "axis-angle not finite: " << v(0) << " " << v(1) << " " << v(2) << " " << v(3) << " for " << q);
        V3 a(v(0), v(1), v(2)); L n = norm(a);
        if (n < 1e-10L) { REQ(std::fabs(std::remainder(L(v(3)), 2 * PI)) < tol, "no axis but an angle of " << v(3)); return Q(); }
        REQ(std::fabs(n - 1) < std::max(tol, L(1e-6)) * 10 || std::fabs(std::remainder(L(v(3)), 2 * PI)) < 1e-4L, "axis not normalised " << a << " for " << q);
        return axisAngle(a, v(3)); };
    auto fromRV = [&](const VV3& v) { REQ(std::isfinite(double(v(0) + v(1) + v(2))), "rotation vector not finite for " << q); return expv(V3(v(0), v(1), v(2))); };
    auto fromMat = [&](const auto& m) { M r(3, 3); for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) r(i, j) = m(i, j); REQ(maxAbs(r * tr(r) - eye(3)) < tol * 20, "not a rotation matrix " << r << " for " << q); REQ(det(r) > 0.5L, "reflection"); return fromM(r); };
    auto chk = [&](const Q& r, const char* what) { REQ(std::isfinite(double(r.x + r.y + r.z + r.w)), what << " not finite for " << q); REQ(std::fabs(norm(r) - 1) < tol * 10, what << ": not a unit quaternion " << r); REQ(rotDist(r, q) < tol, what << " is " << rotDist(r, q) << " rad away from " << q); };
    V4 aa = RotationCast<V4>()(A); chk(fromAA(aa), "quaternion to axis-angle");
    VV3 rv = RotationCast<VV3>()(A); chk(fromRV(rv), "quaternion to rotation vector");
    M3 m3 = RotationCast<M3>()(A); chk(fromMat(m3), "quaternion to 3x3");
    M4 m4 = RotationCast<M4>()(A); chk(fromMat(m4), "quaternion to 4x4");
    chk(ut::r(RotationCast<UQ>()(m3)), "3x3 to quaternion");
    chk(ut::r(RotationCast<UQ>()(m4)), "4x4 to quaternion");
    chk(fromAA(RotationCast<V4>()(m3)), "3x3 to axis-angle");
    chk(fromRV(RotationCast<VV3>()(m3)), "3x3 to rotation vector");
    chk(ut::r(RotationCast<UQ>()(aa)), "axis-angle to quaternion");
    chk(ut::r(RotationCast<UQ>()(rv)), "rotation vector to quaternion");
    chk(fromMat(RotationCast<M3>()(aa)), "axis-angle to 3x3");
    chk(fromMat(RotationCast<M3>()(rv)), "rotation vector to 3x3");
    chk(fromAA(RotationCast<V4>()(rv)), "rotation vector to axis-angle");
    chk(fromRV(RotationCast<VV3>()(aa)), "axis-angle to rotation vector");
    // exact inputs (not produced by the library)
    V3 a(g.sym(1), g.sym(1), g.sym(1)); if (norm(a) < 0.1L) a = V3(0, 0, 1); a = (1 / norm(a)) * a; T an = T(g.nice(3.1));
    V4 in; in(0) = T(a[0]); in(1) = T(a[1]); in(2) = T(a[2]); in(3) = an; Q e = axisAngle(a, an);
    auto chk2 = [&](const Q& r, const char* what) { REQ(rotDist(r, e) < tol, what << " of axis " << a << " angle " << an << " gave " << r << " expected " << e); };
    chk2(ut::r(RotationCast<UQ>()(in)), "axis-angle to quaternion"); chk2(fromMat(RotationCast<M3>()(in)), "axis-angle to matrix"); chk2(fromRV(RotationCast<VV3>()(in)), "axis-angle to rotation vector");
}
PROP(casts_double, 60000, 2000000, "rotation is not the identity") { std::string c; Q q = genQ(g, &c); g.cls(c); g.nontrivial(c != "identity"); g.note() << q; castAll<double>(g, q, 5e-7L); }
PROP(casts_float, 30000, 1000000, "rotation is not the identity") { std::string c; Q q = genQ(g, &c); g.cls(c); g.nontrivial(c != "identity"); g.note() << q; castAll<float>(g, q, 4e-3L); }
PROP(small_rotations, 20000, 1000000, "the angle is not zero") {
    // an angle that can be represented keeps its relative accuracy where no cosine is inverted
    L an = g.oneIn(10) ? 0.0L : L(g.logreal(2e-10, 3)); V3 a(g.gauss(), g.gauss(), g.gauss()); if (norm(a) < 0.1L) a = V3(0, 0, -1); a = (1 / norm(a)) * a;
    typedef MU::Vector<double, 4> V4; typedef MU::Vector<double, 3> VV3;
    V3 v = ut::r(ut::v(an * a)); an = norm(v); g.nontrivial(an > 0); g.note() << "rotation vector " << v; L tol = 1e-14L * an; if (an > 0) a = (1 / an) * v;
    Q q = expv(v); q = Q(double(q.x), double(q.y), double(q.z), double(q.w));
    auto isQ = [&](const UQ& r, const char* w) { Q x = ut::r(r); L s = x.w < 0 ? -1 : 1; REQ(norm(V3(s * x.x - q.x, s * x.y - q.y, s * x.z - q.z)) <= tol && std::fabs(std::fabs(x.w) - q.w) < 1e-15L, w << " gave " << x << " for the rotation vector " << v << " of length " << an); };
    auto isV = [&](const VV3& r, const char* w) { V3 x(r(0), r(1), r(2)); REQ(norm(x - v) <= 4 * tol, w << " gave " << x << " for the rotation vector " << v << " of length " << an); };
    auto isA = [&](const V4& r, const char* w) { V3 x(r(0), r(1), r(2)); REQ(norm(L(r(3)) * x - v) <= 4 * tol, w << " gave axis " << x << " and angle " << r(3) << " for the rotation vector " << v << " of length " << an); if (an > 0) REQ(std::fabs(norm(x) - 1) < 1e-14L, w << " gave an axis of length " << norm(x)); };
    VV3 lv = ut::v(v); V4 la; L k = g.coin() ? 1 : L(g.logreal(1e-3, 1e3)); for (int i = 0; i < 3; ++i) la(i) = double(a[i]); la(3) = double(an);
    isQ(RotationCast<UQ>()(lv), "rotation vector to quaternion"); isA(RotationCast<V4>()(lv), "rotation vector to axis-angle"); isQ(RotationCast<UQ>()(la), "axis-angle to quaternion"); isV(RotationCast<VV3>()(ut::q(q)), "quaternion to rotation vector"); isA(RotationCast<V4>()(ut::q(q)), "quaternion to axis-angle"); isQ(UQ::fromLogarithm(lv), "fromLogarithm"); if (an > 0) isQ(UQ(ut::v(a), double(an)), "axis and angle");
    V4 ls(la); for (int i = 0; i < 3; ++i) ls(i) = double(k * a[i]); isV(RotationCast<VV3>()(ls), "axis-angle to rotation vector");
    // matrices know small angles up to rounding errors in their elements, inverse cosines up to the root of these
    auto m3 = RotationCast<MU::Matrix<double, 3, 3> >()(lv); L e = 0; M mr = rotM(expv(v)); for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) e = std::max(e, std::fabs(L(m3(i, j)) - mr(i, j))); REQ(e < 2e-15L, "rotation vector to matrix is " << e << " off");
    m3 = RotationCast<MU::Matrix<double, 3, 3> >()(la); e = 0; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) e = std::max(e, std::fabs(L(m3(i, j)) - mr(i, j))); REQ(e < 2e-15L, "axis-angle to matrix is " << e << " off");
    UQ bm(m3); L bs = bm.w() < 0 ? -1 : 1; REQ(norm(V3(bs * bm.x() - q.x, bs * bm.y() - q.y, bs * bm.z() - q.z)) < 2e-15L, "quaternion of the matrix is " << ut::r(bm));
    V3 lg = ut::r(ut::q(q).toLogarithm()); REQ(norm(lg - v) < 2e-7L, "logarithm " << lg);
}
