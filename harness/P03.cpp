// P03: interpolation follows the shortest geodesic, angular velocity integrates consistently.
#include "ut.h"
#include <utMath/RotationVelocity.h>
using namespace ref; namespace MU = Ubitrack::Math; typedef MU::Quaternion UQ;

static double genT(pbt::Ctx& g) { switch (g.draw(5)) { case 0: return 0; case 1: return 1; case 2: return 0.5; default: return g.unit(); } }
// partner rotation, often at a chosen angle from a
static Q genPartner(pbt::Ctx& g, const Q& a, std::string& c) {
    if (g.oneIn(3)) return genQ(g, &c);
    V3 ax(g.sym(1), g.sym(1), g.sym(1)); if (norm(ax) < 0.05L) ax = V3(0, 1, 0); L an;
    switch (g.draw(5)) { case 0: an = 0; c = "equal"; break; case 1: an = g.logreal(1e-9, 0.03); c = "close"; break; case 2: an = PI - g.logreal(1e-9, 0.1); c = "opposite"; break; case 3: an = g.real(0.01, 0.05); c = "close"; break; default: an = g.real(0, double(PI)); c = "general"; }
    Q b = unit(a * axisAngle(ax, an)); if (g.coin()) b = neg(b); return Q(double(b.x), double(b.y), double(b.z), double(b.w));
}
static void checkSlerp(const Q& a, const Q& b, L t, const Q& r) {
    L th = rotDist(a, b);
    REQ(std::fabs(norm(r) - 1) < 1e-12L, "interpolated rotation is not of unit length: " << r);
    L tol = 1e-7L + (th < 0.05L ? th * 1e-5L : 0) + (th > PI - 1e-6L ? 1e-6L : 0);
    REQ(std::fabs(rotDist(a, r) - t * th) < tol, "distance from the start is " << rotDist(a, r) << ", expected " << t * th << " of " << th << " a=" << a << " b=" << b << " t=" << t << " r=" << r);
    REQ(std::fabs(rotDist(r, b) - (1 - t) * th) < tol, "distance to the end is " << rotDist(r, b) << ", expected " << (1 - t) * th << " a=" << a << " b=" << b << " t=" << t << " r=" << r);
}
PROP(rotation, 60000, 3000000, "the two rotations differ and 0 < t < 1") {
    std::string c; Q a = genQ(g), b = genPartner(g, a, c); double t = genT(g); g.cls(c); g.note() << a << " " << b << " t=" << t; g.nontrivial(rotDist(a, b) > 1e-3L && t > 0 && t < 1);
    UQ A = ut::q(a), B = ut::q(b);
    Q r = ut::r(MU::slerp(A, B, t)); checkSlerp(a, b, t, r);
    Q l = ut::r(MU::linearInterpolate(A, B, t)); REQ(rotDist(l, r) < 1e-12L, "linearInterpolate differs from slerp");
    if (rotDist(a, b) < PI - 1e-3L) { // unique geodesic: independent of quaternion signs, reversible, frame independent
        REQ(rotDist(ut::r(MU::slerp(ut::q(neg(a)), B, t)), r) < 1e-7L, "depends on the sign of the first quaternion");
        REQ(rotDist(ut::r(MU::slerp(A, ut::q(neg(b)), t)), r) < 1e-7L, "depends on the sign of the second quaternion");
        REQ(rotDist(ut::r(MU::slerp(B, A, 1 - t)), r) < 1e-7L, "not symmetric");
        Q f = genQuniform(g); REQ(rotDist(ut::r(MU::slerp(ut::q(f * a), ut::q(f * b), t)), f * r) < 1e-6L, "depends on the reference frame");
    }
    if (t == 0) REQ(rotDist(r, a) < 1e-7L, "t=0 is not the start"); if (t == 1) REQ(rotDist(r, b) < 1e-7L, "t=1 is not the end");
}
PROP(poses, 20000, 600000, "poses differ and 0 < t < 1") {
    std::string c; double t = genT(g); int n = g.size(0, 8); std::vector<MU::Pose> X, Y; std::vector<P> x, y;
    for (int i = 0; i < n; ++i) { P a = genP(g, 10), b; b.q = genPartner(g, a.q, c); b.t = genV(g, 10); x.push_back(a); y.push_back(b); X.push_back(ut::p(a)); Y.push_back(ut::p(b)); }
    g.note() << n << " poses, t=" << t; g.nontrivial(n > 0 && t > 0 && t < 1);
    std::vector<MU::Pose> R = MU::linearInterpolate(X, Y, t);
    REQ(R.size() == X.size(), "list of " << n << " became " << R.size());
    for (int i = 0; i < n; ++i) {
        P r = ut::r(R[i]); checkSlerp(x[i].q, y[i].q, t, r.q);
        V3 e = (1 - (L)t) * x[i].t + (L)t * y[i].t; REQ(maxAbs(r.t - e) < 1e-12L * 20, "translation " << r.t << " expected " << e);
        P s = ut::r(MU::linearInterpolate(X[i], Y[i], t)); REQ(maxAbs(s.t - r.t) < 1e-13L && rotDist(s.q, r.q) < 1e-13L, "single pose and list interpolation differ");
    }
}
PROP(vectors, 10000, 300000, "vectors differ") {
    double t = genT(g); V3 a = genV(g, 100), b = genV(g, 100); g.note() << a << b << t; g.nontrivial(norm(a - b) > 0);
    V3 r = ut::r(MU::linearInterpolate(ut::v(a), ut::v(b), t)); V3 e = (1 - (L)t) * a + (L)t * b;
    REQ(maxAbs(r - e) < 1e-11L, "vector interpolation " << r << " expected " << e);
    MU::Vector<double, 2> u, w; u(0) = a[0]; u(1) = a[1]; w(0) = b[0]; w(1) = b[1]; MU::Vector<double, 2> ru = MU::linearInterpolate(u, w, t);
    REQ(std::fabs(ru(0) - e[0]) + std::fabs(ru(1) - e[1]) < 1e-11L, "2-vector interpolation");
    MU::Vector<float, 4> fa, fb; for (int i = 0; i < 4; ++i) { fa(i) = float(g.nice(10)); fb(i) = float(g.nice(10)); }
    MU::Vector<float, 4> fr = MU::linearInterpolate(fa, fb, t); for (int i = 0; i < 4; ++i) REQ(std::fabs(fr(i) - ((1 - t) * fa(i) + t * fb(i))) < 1e-4, "float 4-vector interpolation");
}
PROP(velocity, 40000, 1500000, "the rotations differ") {
    std::string c; Q a = genQ(g), b = genPartner(g, a, c); double dt = g.pick(std::vector<double>{1, 0.01, 0.1, 2.5, 1e-3, 30, -0.5}); g.cls(c); g.note() << a << b << dt; g.nontrivial(rotDist(a, b) > 1e-6L);
    MU::RotationVelocity w(ut::q(a), ut::q(b), dt); V3 wv = ut::r(w);
    REQ(std::isfinite(double(wv[0] + wv[1] + wv[2])), "velocity not finite");
    L th = rotDist(a, b);
    REQ(std::fabs(w.angularVelocity() - th / std::fabs(dt)) < 1e-6L / std::fabs(dt), "angular velocity " << w.angularVelocity() << " expected " << th / std::fabs(dt));
    Q e = a * ut::r(w.integrate(dt)); REQ(rotDist(e, b) < 1e-6L, "integrating the velocity over the interval ends " << rotDist(e, b) << " rad away from the second measurement");
    double s = g.unit(); Q p = a * ut::r(w.integrate(dt * s)); REQ(std::fabs(rotDist(a, p) - s * th) < 1e-6L, "velocity is not constant");
    Q comp = ut::r(w.integrate(dt * s)) * ut::r(w.integrate(dt * (1 - s))); REQ(rotDist(comp, ut::r(w.integrate(dt))) < 1e-7L, "integration over parts differs from the whole");
    V3 ax = ut::r(w.axis()); if (norm(wv) > 0) REQ(std::fabs(norm(ax) - 1) < 1e-12L && norm(cross(ax, wv)) < 1e-12L * norm(wv) && dot(ax, wv) > 0, "axis " << ax << " of " << wv);
    else REQ(norm(ax) == 0, "axis of a zero velocity");
    MU::RotationVelocity v(g.nice(4), g.nice(4), g.nice(4)); double iv = g.nice(3);
    Q r = ut::r(v.integrate(iv)), re = expv((L)iv * ut::r(v)); REQ(rotDist(r, re) < 1e-11L && std::fabs(norm(r) - 1) < 1e-12L, "integrate " << r << " expected " << re);
    // the inverse motion
    MU::RotationVelocity m(ut::q(b), ut::q(a), dt); if (th < PI - 1e-4L) REQ(maxAbs(ut::r(m) + wv) < 1e-6L * (1 + norm(wv)) / std::min(1.0, std::fabs(dt)), "velocity of the reversed motion is not opposite");
}
