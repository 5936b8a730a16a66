// P04: covariances follow poses and points to first order (documented error model).
#include "ut.h"
#include <utMath/ErrorPose.h>
#include <utMath/ErrorVector.h>
#include <utMath/Stochastic/CovarianceTransform.h>
using namespace ref; namespace MU = Ubitrack::Math; typedef std::vector<L> VL;
typedef MU::Matrix<double, 6, 6> M6;

static M genCov(pbt::Ctx& g, int n, std::string& c) {
    M A(n, n); L s = g.oneIn(3) ? g.logreal(1e-8, 1e2) : 1e-2;
    switch (g.draw(4)) {
    case 0: c = "zero"; return A;
    case 1: { c = "diagonal"; for (int i = 0; i < n; ++i) A(i, i) = double(s * s * g.unit()); return A; }
    case 2: { c = "single"; int i = g.range(0, n - 1); A(i, i) = double(s * s); return A; }
    default: { c = "full"; int k = g.range(1, n); M B(n, k); for (auto& x : B.d) x = g.sym(double(s)); A = B * tr(B); for (int i = 0; i < n; ++i) for (int j = 0; j <= i; ++j) A(i, j) = A(j, i) = double(A(i, j)); return A; }
    }
}
static M6 m6(const M& m) { M6 r; ut::set(r, m); return r; }
// pose disturbed by the documented error e = (et, er)
static P disturb(const P& p, const VL& e, int o = 0) { Q er = unit(Q(e[o + 3], e[o + 4], e[o + 5], 1)); return P{p.q * er, p.t + V3(e[o], e[o + 1], e[o + 2])}; }
// error of x relative to the nominal pose p
static VL errorOf(const P& p, const P& x) { Q d = conj(p.q) * x.q; V3 t = x.t - p.t; return VL{t[0], t[1], t[2], d.x / d.w, d.y / d.w, d.z / d.w}; }
static void cmpCov(const M& got, const M& exp, L scale, const char* what) {
    REQ(maxAbs(got - exp) <= 1e-7L * scale + 1e-7L * maxAbs(exp), what << ": covariance " << got << " expected " << exp);
    REQ(maxAbs(got - tr(got)) <= 1e-9L * (scale + maxAbs(exp)), what << ": covariance not symmetric");
    std::vector<L> w; M V; eigSym(0.5L * (got + tr(got)), w, V); REQ(w[0] >= -1e-9L * (scale + maxAbs(exp)), what << ": covariance not positive semidefinite");
}
static void cmpPose(const P& got, const P& exp, const char* what) { REQ(rotDist(got.q, exp.q) < 1e-10L && maxAbs(got.t - exp.t) < 1e-10L * (1 + norm(exp.t)), what << " pose " << got << " expected " << exp); }
static Q uq(pbt::Ctx& g) { Q q = unit(genQ(g)); return Q(double(q.x), double(q.y), double(q.z), double(q.w)); }
static P gp(pbt::Ctx& g) { P p; p.q = uq(g); p.t = genV(g, 5); return p; }
template <class F> static M J(F f, int n) { return jac(f, VL(n, 0), 1e-4L); }
static M blk(const M& a, const M& b) { M m(a.r + b.r, a.c + b.c); for (int i = 0; i < a.r; ++i) for (int j = 0; j < a.c; ++j) m(i, j) = a(i, j); for (int i = 0; i < b.r; ++i) for (int j = 0; j < b.c; ++j) m(a.r + i, a.c + j) = b(i, j); return m; }

PROP(pose_operations, 4000, 200000, "at least one covariance is not zero and the pose is not the identity") {
    std::string c1, c2; P a = gp(g), b = gp(g); M Ca = genCov(g, 6, c1), Cb = genCov(g, 6, c2); g.note() << a << " " << b << " covariances " << c1 << "," << c2; g.cls(c1); g.nontrivial((c1 != "zero" || c2 != "zero") && rotDist(a.q, Q()) > 1e-3L);
    MU::ErrorPose A(ut::p(a), m6(Ca)), B(ut::p(b), m6(Cb)); L sc = (maxAbs(Ca) + maxAbs(Cb)) * 1e3L * 1e-4L;
    // inverse
    { MU::ErrorPose R = ~A; P e = inv(a); cmpPose(ut::r(static_cast<const MU::Pose&>(R)), e, "inverse"); M j = J([&](const VL& x) { return errorOf(e, inv(disturb(a, x))); }, 6); cmpCov(ut::rm(R.covariance()), j * Ca * tr(j), sc, "inverse"); }
    P ab = a * b; M jab = J([&](const VL& x) { return errorOf(ab, disturb(a, x) * disturb(b, x, 6)); }, 12);
    { MU::ErrorPose R = A * B; cmpPose(ut::r(static_cast<const MU::Pose&>(R)), ab, "product"); cmpCov(ut::rm(R.covariance()), jab * blk(Ca, Cb) * tr(jab), sc, "product of two uncertain poses"); }
    { MU::ErrorPose R = A * ut::p(b); cmpPose(ut::r(static_cast<const MU::Pose&>(R)), ab, "product"); cmpCov(ut::rm(R.covariance()), jab * blk(Ca, M(6, 6)) * tr(jab), sc, "product uncertain * exact"); }
    { MU::ErrorPose R = ut::p(a) * B; cmpPose(ut::r(static_cast<const MU::Pose&>(R)), ab, "product"); cmpCov(ut::rm(R.covariance()), jab * blk(M(6, 6), Cb) * tr(jab), sc, "product exact * uncertain"); }
    { MU::ErrorPose R = MU::invertMultiply(A, B); P e = inv(a) * b; cmpPose(ut::r(static_cast<const MU::Pose&>(R)), e, "inverse times"); M j = J([&](const VL& x) { return errorOf(e, inv(disturb(a, x)) * disturb(b, x, 6)); }, 12); cmpCov(ut::rm(R.covariance()), j * blk(Ca, Cb) * tr(j), sc, "inverse(a) * b"); }
    { // double inverse restores the covariance
        MU::ErrorPose R = ~~A; cmpCov(ut::rm(R.covariance()), Ca, sc, "double inverse"); }
    { double t = g.unit(); MU::ErrorPose R = MU::linearInterpolate(A, B, t); cmpCov(ut::rm(R.covariance()), ((1 - (L)t) * (1 - (L)t)) * Ca + ((L)t * t) * Cb, sc, "interpolation");
      MU::Pose I = MU::linearInterpolate(ut::p(a), ut::p(b), t); cmpPose(ut::r(static_cast<const MU::Pose&>(R)), ut::r(I), "interpolation"); }
}
PROP(points, 6000, 300000, "covariance is not zero") {
    std::string c1, c2; P a = gp(g); V3 x = genV(g, 5); M Ca = genCov(g, 6, c1), Cx = genCov(g, 3, c2); g.note() << a << x << c1 << c2; g.nontrivial(c1 != "zero" || c2 != "zero"); g.cls(c1 + "/" + c2);
    MU::ErrorPose A(ut::p(a), m6(Ca)); L sc = (maxAbs(Ca) + maxAbs(Cx)) * 0.1L;
    auto f = [&](const VL& e) { V3 r = disturb(a, e) * (x + V3(e[6], e[7], e[8])); return VL{r[0], r[1], r[2]}; };
    M j = J(f, 9); V3 ex = a * x;
    MU::ErrorVector<double, 3> r = A * ut::v(x);
    REQ(maxAbs(ut::r(r.value) - ex) < 1e-10L * (1 + norm(ex)), "point " << ut::r(r.value) << " expected " << ex);
    cmpCov(ut::rm(r.covariance), j * blk(Ca, M(3, 3)) * tr(j), sc, "uncertain pose * exact point");
    MU::Matrix<double, 3, 3> cx; ut::set(cx, Cx); MU::ErrorVector<double, 3> ev(ut::v(x), cx);
    MU::ErrorVector<double, 3> s = A * ev;
    REQ(maxAbs(ut::r(s.value) - ex) < 1e-10L * (1 + norm(ex)), "point " << ut::r(s.value) << " expected " << ex);
    cmpCov(ut::rm(s.covariance), j * blk(Ca, Cx) * tr(j), sc, "uncertain pose * uncertain point");
    L t = 0; for (int i = 0; i < 3; ++i) t += Cx(i, i); REQ(std::fabs(ev.getRMS() - std::sqrt(t)) < 1e-12L * (1 + std::sqrt(t)), "RMS is the root of the trace");
}
PROP(additive_form, 6000, 300000, "covariance is not zero and rotation is not the identity") {
    std::string c1; P a = gp(g); M Ca = genCov(g, 6, c1); g.note() << a << " " << c1 << " " << Ca; g.nontrivial(c1 != "zero" && rotDist(a.q, Q()) > 1e-3L);
    MU::ErrorPose A(ut::p(a), m6(Ca)); MU::ErrorVector<double, 7> v; A.toAdditiveErrorVector(v); L sc = maxAbs(Ca);
    double e[7] = {double(a.t[0]), double(a.t[1]), double(a.t[2]), double(a.q.x), double(a.q.y), double(a.q.z), double(a.q.w)};
    for (int i = 0; i < 7; ++i) REQ(v.value(i) == e[i], "value " << i);
    // first order: d(vector)/d(error); the component along the quaternion carries no information about the rotation
    M j = J([&](const VL& x) { P d = disturb(a, x); return VL{d.t[0], d.t[1], d.t[2], d.q.x, d.q.y, d.q.z, d.q.w}; }, 6);
    M G = tr(j); // rows are orthonormal: recovers the 6 error components
    M got = ut::rm(v.covariance); REQ(maxAbs(got - tr(got)) < 1e-9L * sc + 1e-18L, "additive covariance not symmetric");
    cmpCov(G * got * tr(G), Ca, sc, "additive covariance seen in the pose error");
    MU::ErrorPose B = MU::ErrorPose::fromAdditiveErrorVector(v); cmpPose(ut::r(static_cast<const MU::Pose&>(B)), a, "from additive"); cmpCov(ut::rm(B.covariance()), Ca, sc, "additive round trip");
    // arbitrary additive covariance
    std::string c7; M C7 = genCov(g, 7, c7); MU::ErrorVector<double, 7> w; w.value = v.value; ut::set(w.covariance, C7);
    MU::ErrorPose D = MU::ErrorPose::fromAdditiveErrorVector(w); cmpCov(ut::rm(D.covariance()), G * C7 * tr(G), maxAbs(C7), "pose error of an additive covariance");
}
// generic first order propagation through user functions
struct Quad { // y_i = sum A_ij x_j + 0.5 k x_0 x_i
    M A; L k;
    template <class V1, class V2, class MT> void evaluateWithJacobian(V1& r, const V2& x, MT& j) const {
        for (int i = 0; i < A.r; ++i) { L s = 0; for (int q = 0; q < A.c; ++q) { s += A(i, q) * x(q); j(i, q) = double(A(i, q)); } r(i) = double(s + 0.5L * k * x(0) * x(i % A.c)); }
        for (int i = 0; i < A.r; ++i) { j(i, 0) += double(0.5L * k * x(i % A.c)); j(i, i % A.c) += double(0.5L * k * x(0)); }
    }
    M jac(const VL& x) const { M j = A; for (int i = 0; i < A.r; ++i) { j(i, 0) += 0.5L * k * x[i % A.c]; j(i, i % A.c) += 0.5L * k * x[0]; } return j; }
    VL val(const VL& x) const { VL r(A.r); for (int i = 0; i < A.r; ++i) { for (int q = 0; q < A.c; ++q) r[i] += A(i, q) * x[q]; r[i] += 0.5L * k * x[0] * x[i % A.c]; } return r; }
};
struct Bin { Quad a, b;
    template <class V1, class V2, class V3_, class M1, class M2> void evaluateWithJacobian(V1& r, const V2& x, const V3_& y, M1& j1, M2& j2) const {
        MU::Vector<double> r1(r.size()), r2(r.size()); a.evaluateWithJacobian(r1, x, j1); b.evaluateWithJacobian(r2, y, j2); for (size_t i = 0; i < r.size(); ++i) r(i) = r1(i) + r2(i); } };
PROP(function_propagation, 4000, 200000, "covariance is not zero") {
    std::string c; int n = g.range(1, 6), m = g.range(1, 6); Quad f; f.A = M(m, n); for (auto& x : f.A.d) x = g.nice(3); f.k = g.nice(1); VL x(n); for (auto& v : x) v = double(g.nice(3)); M C = genCov(g, n, c); g.nontrivial(c != "zero"); g.note() << "n=" << n << " m=" << m << " A=" << f.A << " cov=" << C;
    MU::Vector<double> iv(n), ov(m); for (int i = 0; i < n; ++i) iv(i) = double(x[i]); MU::Matrix<double, 0, 0> ic = ut::dm(C), oc(m, m);
    MU::Stochastic::transformWithCovariance(f, ov, oc, iv, ic); M j = f.jac(x); VL e = f.val(x);
    for (int i = 0; i < m; ++i) REQ(std::fabs(ov(i) - e[i]) < 1e-11L * 100, "value " << i);
    L sc = maxAbs(C) * 1e-2L;
    cmpCov(ut::rm(oc), j * C * tr(j), sc, "transformed covariance");
    // vectors of fixed size with their covariance
    { std::string c3; Quad q3; q3.A = M(2, 3); for (auto& v : q3.A.d) v = g.nice(3); q3.k = g.nice(1); VL x3(3); for (auto& v : x3) v = double(g.nice(3)); M C3 = genCov(g, 3, c3); MU::ErrorVector<double, 3> in; for (int i = 0; i < 3; ++i) { in.value(i) = double(x3[i]); for (int l = 0; l < 3; ++l) in.covariance(i, l) = double(C3(i, l)); } L t3 = C3(0, 0) + C3(1, 1) + C3(2, 2); REQ(std::fabs(in.getRMS() - std::sqrt(t3)) < 1e-12L * (1 + std::sqrt(t3)), "root mean square of an error vector");
      MU::ErrorVector<double, 2> out = MU::Stochastic::transformWithCovariance<2, 3>(q3, in); M j3 = q3.jac(x3); VL e3 = q3.val(x3); for (int i = 0; i < 2; ++i) REQ(std::fabs(out.value(i) - e3[i]) < 1e-11L * 100, "value " << i << " of a transformed error vector"); cmpCov(ut::rm(out.covariance), j3 * C3 * tr(j3), maxAbs(C3) * 1e-2L, "covariance of a transformed error vector"); }
    // in place update of a sub vector from another one
    int N = g.range(1, 7); int ib = g.range(0, N - 1), ie = g.range(ib + 1, N), ob = g.range(0, N - 1), oe = g.range(ob + 1, N);
    Quad h; h.A = M(oe - ob, ie - ib); for (auto& q : h.A.d) q = g.nice(2); h.k = g.nice(1); VL X(N); for (auto& v : X) v = double(g.nice(2)); M CX = genCov(g, N, c);
    MU::Vector<double> val(N); for (int i = 0; i < N; ++i) val(i) = double(X[i]); MU::Matrix<double, 0, 0> cov = ut::dm(CX);
    MU::Stochastic::transformRangeInternalWithCovariance(h, val, cov, ob, oe, ib, ie);
    VL sub(X.begin() + ib, X.begin() + ie), hv = h.val(sub); M hj = h.jac(sub); M full = eye(N); VL ex = X;
    for (int i = ob; i < oe; ++i) { ex[i] = hv[i - ob]; for (int q = 0; q < N; ++q) full(i, q) = 0; for (int q = ib; q < ie; ++q) full(i, q) = hj(i - ob, q - ib); }
    for (int i = 0; i < N; ++i) REQ(std::fabs(val(i) - ex[i]) < 1e-9L, "range update: value " << i << " is " << val(i) << " expected " << ex[i]);
    cmpCov(ut::rm(cov), full * CX * tr(full), maxAbs(CX) * 1e-2L, "range update covariance");
    // two independent arguments
    int k = g.range(1, 5); Bin b; b.a = f; b.b.A = M(m, k); for (auto& q : b.b.A.d) q = g.nice(2); b.b.k = g.nice(1); VL y(k); for (auto& v : y) v = double(g.nice(2)); std::string c2; M Cy = genCov(g, k, c2);
    MU::Vector<double> iy(k); for (int i = 0; i < k; ++i) iy(i) = double(y[i]); MU::Matrix<double, 0, 0> icy = ut::dm(Cy);
    MU::Stochastic::binarytransformWithCovariance(b, ov, oc, iv, ic, iy, icy); M j2 = b.b.jac(y); VL e2 = b.b.val(y);
    for (int i = 0; i < m; ++i) REQ(std::fabs(ov(i) - e[i] - e2[i]) < 1e-9L, "binary value");
    cmpCov(ut::rm(oc), j * C * tr(j) + j2 * Cy * tr(j2), sc + maxAbs(Cy) * 1e-2L, "binary covariance");
}
// Stateful: covariance tracked through a chain of operations equals one first-order propagation of all independent errors
PROP(history, 500, 20000, "at least two uncertain factors in the chain") {
    int n = g.size(2, 6); std::vector<P> ps; std::vector<M> cs; std::vector<int> ops; MU::ErrorPose cur; P c0; std::string c; int unc = 0;
    P start = gp(g); M C0 = genCov(g, 6, c); unc += c != "zero"; cur = MU::ErrorPose(ut::p(start), m6(C0)); ps.push_back(start); cs.push_back(C0); L sc = maxAbs(C0);
    for (int i = 0; i < n; ++i) {
        int k = g.range(0, 4); P b = gp(g); M C = genCov(g, 6, c); if (k == 3 || k == 4) C = M(6, 6); if (k == 2) C = M(6, 6); else if (k < 2) unc += c != "zero";
        ops.push_back(k); ps.push_back(b); cs.push_back(C); sc = std::max(sc, maxAbs(C));
        MU::ErrorPose B(ut::p(b), m6(C));
        if (k == 0) cur = cur * B; else if (k == 1) cur = B * cur; else if (k == 2) cur = ~cur; else if (k == 3) cur = cur * ut::p(b); else cur = ut::p(b) * cur;
    }
    auto eval = [&](const VL& e) { P x = disturb(ps[0], e); for (int i = 0; i < n; ++i) { P b = disturb(ps[i + 1], e, 6 * (i + 1)); if (ops[i] == 0 || ops[i] == 3) x = x * b; else if (ops[i] == 2) x = inv(x); else x = b * x; } return x; };
    P nom = eval(VL(6 * (n + 1), 0)); M j = J([&](const VL& e) { return errorOf(nom, eval(e)); }, 6 * (n + 1));
    M E(6, 6); for (int i = 0; i <= n; ++i) { M ji(6, 6); for (int r = 0; r < 6; ++r) for (int q = 0; q < 6; ++q) ji(r, q) = j(r, 6 * i + q); E = E + ji * cs[i] * tr(ji); }
    g.note() << "ops"; for (int o : ops) g.note() << " " << o; g.nontrivial(unc >= 2);
    cmpPose(ut::r(static_cast<const MU::Pose&>(cur)), nom, "chain"); cmpCov(ut::rm(cur.covariance()), E, sc * 1e-1L, "chain");
}
