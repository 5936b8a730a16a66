// P13: the analytic derivatives used for optimization and error propagation are the derivatives of the functions.
#include "pbt.h"
#include "ut.h"
#include <algorithm>
#include <iostream>
#include <list>
#include <boost/numeric/ublas/vector_proxy.hpp>
#include <boost/numeric/ublas/matrix_proxy.hpp>
#include <boost/numeric/ublas/io.hpp>
#include <utMath/Optimization/Function/DiscreteJacobianApproximation.h>
#include <utMath/Optimization/Function/LinearFunction.h>
#include <utMath/Optimization/Function/RotationVelocityIntegration.h>
#include <utMath/Optimization/Function/VectorNormalize.h>
#include <utAlgorithm/Function/CameraIntrinsicsMultiplication.h>
#include <utAlgorithm/Function/Dehomogenization.h>
#include <utAlgorithm/Function/LieRotation.h>
#include <utAlgorithm/Function/MultipleCameraProjection.h>
#include <utAlgorithm/Function/MultipleCameraProjectionError.h>
#include <utAlgorithm/Function/MultipleCameraProjectionErrorART.h>
#include <utAlgorithm/Function/MultiplePointProjection.h>
#include <utAlgorithm/Function/MultiplePointProjectionError.h>
#include <utAlgorithm/Function/ProjectivePoseNormalize.h>
#include <utAlgorithm/Function/QuaternionRotation.h>
#include <utAlgorithm/Function/QuaternionRotationError.h>
#include <utAlgorithm/Function/RadialDistortion.h>
#include <utAlgorithm/Function/RotHecFunction.h>
#include <utAlgorithm/Function/SinglePointMultiProjection.h>
#include <utAlgorithm/PoseEstimation3D3D/Optimization.h>
#include <utAlgorithm/ToolTip/Optimization.h>
#include <utTracking/Function/LinearTimeUpdate.h>
#include <utTracking/Function/QuaternionTimeUpdate.h>
#include <utTracking/Function/PoseTimeUpdate.h>
#include <utTracking/Function/InsideOutPoseTimeUpdate.h>
#include <utTracking/Function/InvertRotationVelocity.h>
// the network description that the bundle adjustment function is written for (the library does not define it)
namespace Ubitrack { namespace Algorithm {
template <class T> struct BundleAdjustmentNetwork {
    typedef std::vector<Math::Vector<T, 3> > PointsList; typedef std::vector<Math::Pose> PoseList; typedef std::vector<Math::Matrix<T, 3, 3> > IntrinsicList; typedef std::vector<Math::Vector<T, 4> > DistortionList;
    struct FreePointMeasurement { std::size_t iPoint, iCamera, iImage; Math::Vector<T, 2> measurement; };
    struct BodyPointMeasurement { std::size_t iBody, iBodyPose, iPoint, iCamera, iImage; Math::Vector<T, 2> measurement; };
    PointsList points; std::vector<PointsList> bodies; PoseList bodyPoses, images; IntrinsicList intrinsics; DistortionList distortions; bool bEstimateIntrinsics = false;
    std::vector<FreePointMeasurement> freePointMeasurements; std::vector<BodyPointMeasurement> bodyPointMeasurements;
};
} }
#include <utAlgorithm/Function/BundleAdjustment.h>
using namespace Ubitrack; namespace AF = Ubitrack::Algorithm::Function; namespace MF = Ubitrack::Math::Optimization::Function; namespace ublas = boost::numeric::ublas;
typedef long double ld; typedef std::vector<ld> VL; typedef std::function<VL(const VL&)> Fn;
namespace {
template <class T> ld rnd(ld x) { return ld(T(x)); }
template <class T> struct Tol;
template <> struct Tol<double> { static ld t() { return 2e-11L; } };
template <> struct Tol<float> { static ld t() { return 5e-4L; } };
template <class V> void garbage(V& v) { for (std::size_t i = 0; i < v.size(); ++i) v(i) = std::numeric_limits<double>::quiet_NaN(); }
template <class M> void garbageM(M& m) { for (std::size_t i = 0; i < m.size1(); ++i) for (std::size_t j = 0; j < m.size2(); ++j) m(i, j) = std::numeric_limits<double>::quiet_NaN(); }
template <class V> void cmpV(const V& got, const VL& want, ld tol, const char* what) {
    REQ(got.size() == want.size(), what << ": size " << got.size()); ld sc = 1; for (ld w : want) sc = std::max(sc, std::fabs(w));
    for (std::size_t i = 0; i < want.size(); ++i) REQ(std::fabs(ld(got(i)) - want[i]) <= tol * sc, what << ": component " << i << " is " << double(got(i)) << ", expected " << double(want[i])); }
template <class M> void cmpM(const M& got, const ref::M& want, ld tol, const char* what) {
    REQ(int(got.size1()) == want.r && int(got.size2()) == want.c, what << ": shape"); ld sc = 1; for (ld w : want.d) sc = std::max(sc, std::fabs(w));
    for (int i = 0; i < want.r; ++i) for (int j = 0; j < want.c; ++j) REQ(std::fabs(ld(got(i, j)) - want(i, j)) <= tol * sc, what << ": derivative (" << i << "," << j << ") is " << double(got(i, j)) << ", expected " << double(want(i, j)) << " (scale " << double(sc) << ")"); }
template <class T> Math::Vector<T> vec(const VL& x) { Math::Vector<T> v(x.size()); for (std::size_t i = 0; i < x.size(); ++i) v(i) = T(x[i]); return v; }
/// evaluate, jacobian and evaluateWithJacobian against the reference and its numeric derivative
template <class T, class F> void check(const F& fn, const Fn& f, const VL& x, const char* name, ld extra = 1, ld extraJ = 1) {
    VL want = f(x); ref::M J = ref::jac(f, x); std::string n(name); Math::Vector<T> in = vec<T>(x); const int m = int(want.size()), k = int(x.size());
    REQ(std::size_t(fn.size()) == want.size(), n << ": size() is " << fn.size());
    Math::Vector<T> r(m); garbage(r); fn.evaluate(r, in); cmpV(r, want, Tol<T>::t() * extra, (n + " evaluate").c_str());
    Math::Matrix<T, 0, 0> j(m, k); garbageM(j); fn.jacobian(in, j); cmpM(j, J, Tol<T>::t() * extra * extraJ, (n + " jacobian").c_str());
    Math::Vector<T> r2(m); garbage(r2); Math::Matrix<T, 0, 0> j2(m, k); garbageM(j2); fn.evaluateWithJacobian(r2, in, j2); cmpV(r2, want, Tol<T>::t() * extra, (n + " evaluateWithJacobian").c_str()); cmpM(j2, J, Tol<T>::t() * extra * extraJ, (n + " evaluateWithJacobian").c_str());
    REQ(vec<T>(x).size() == in.size() && std::equal(in.begin(), in.end(), vec<T>(x).begin()), n << " changes its input");
}
template <class T, class F> void checkJ(const F& fn, const ref::M& J, const VL& x, const char* name, ld extra = 1) {
    Math::Vector<T> in = vec<T>(x); REQ(int(fn.size()) == J.r, name << ": size()"); Math::Matrix<T, 0, 0> j(J.r, J.c); garbageM(j); fn.jacobian(in, j); cmpM(j, J, Tol<T>::t() * extra, name); }
template <class T> VL genVL(pbt::Ctx& g, int n, double m) { VL v(n); for (auto& x : v) x = rnd<T>(g.nice(m)); return v; }
ref::V3 v3(const VL& x, int o) { return ref::V3(x[o], x[o + 1], x[o + 2]); }
ref::Q q4(const VL& x, int o) { return ref::Q(x[o], x[o + 1], x[o + 2], x[o + 3]); }
VL l(const ref::V3& a) { return VL{a[0], a[1], a[2]}; }
VL l(const ref::Q& a) { return VL{a.x, a.y, a.z, a.w}; }
ref::V3 hom(const ref::Q& q, const ref::V3& v) { ref::Q r = q * ref::Q(v[0], v[1], v[2], 0) * ref::conj(q); return ref::V3(r.x, r.y, r.z); }
void app(VL& a, const VL& b) { a.insert(a.end(), b.begin(), b.end()); }
template <class T> VL rq(const ref::Q& q) { VL r = l(q); for (auto& x : r) x = rnd<T>(x); return r; }
template <class T> Math::Vector<T, 3> t3(const ref::V3& a) { return Math::Vector<T, 3>(T(a[0]), T(a[1]), T(a[2])); }
template <class T> ref::V3 r3(const Math::Vector<T, 3>& a) { return ref::V3(a(0), a(1), a(2)); }
template <class T> ref::V3 genP3(pbt::Ctx& g, double m) { return ref::V3(rnd<T>(g.nice(m)), rnd<T>(g.nice(m)), rnd<T>(g.nice(m))); }
template <class T> Math::Matrix<T, 3, 3> genK(pbt::Ctx& g, bool unit22) { Math::Matrix<T, 3, 3> K; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) K(i, j) = 0; K(0, 0) = T(g.real(0.5, 3)); K(1, 1) = T(g.real(0.5, 3)); K(0, 1) = T(g.nice(0.5)); K(0, 2) = T(g.nice(1)); K(1, 2) = T(g.nice(1)); K(2, 2) = T(unit22 ? (g.coin() ? -1 : 1) : g.coin() ? -1 : g.real(0.5, 2)); return K; }
VL dehom(const ref::V3& p) { return VL{p[0] / p[2], p[1] / p[2]}; }
VL distort(const VL& p, const VL& d) { ld x = p[0], y = p[1], r2 = x * x + y * y, f = 1 + d[0] * r2 + d[1] * r2 * r2; return VL{x * f + 2 * d[2] * x * y + d[3] * (r2 + 2 * x * x), y * f + 2 * d[3] * x * y + d[2] * (r2 + 2 * y * y)}; }
template <class T> VL toVL(const Math::Vector<T, 4>& d) { return VL{d(0), d(1), d(2), d(3)}; }
/// pose (t,q) that puts points of size m in front of the camera (z between -9 and -4)
template <class T> VL genView(pbt::Ctx& g, bool unitQ) { VL x; ref::V3 t(g.nice(1), g.nice(1), -g.real(5, 8)); app(x, l(t)); ref::Q q = ref::genQuniform(g); if (!unitQ) { ld s = g.real(0.8, 1.1); q = ref::Q(q.x * s, q.y * s, q.z * s, q.w * s); } app(x, l(q)); for (auto& v : x) v = rnd<T>(v); return x; }
template <class T> const char* tn() { return sizeof(T) == 4 ? "float" : "double"; }

template <class T> void basic(pbt::Ctx& g) {
    g.cls(tn<T>()); switch (g.range(0, 7)) {
    case 0: { int n = g.range(1, 7); VL x = genVL<T>(g, n, 3); ld s = 0; for (ld a : x) s += a * a; g.assume(s > 1e-2L); g.nontrivial(n > 1); g.cls("VectorNormalize"); check<T>(MF::VectorNormalize(n), [](const VL& x) { ld s = 0; for (ld a : x) s += a * a; s = std::sqrt(s); VL r(x); for (auto& a : r) a /= s; return r; }, x, "VectorNormalize", 1, 1); break; }
    case 1: { VL p = genVL<T>(g, 2, 3), x = genVL<T>(g, 5, 3); Math::Vector<T, 2> pp((T(p[0])), T(p[1])); g.cls("CameraIntrinsicsMultiplication"); g.nontrivial(p[0] != 0 && p[1] != 0); check<T>(AF::CameraIntrinsicsMultiplication<T>(pp), [p](const VL& i) { return VL{-(i[0] * p[0] + i[1] * p[1] + i[2]), -(i[3] * p[1] + i[4])}; }, x, "CameraIntrinsicsMultiplication"); break; }
    case 2: { g.cls("Dehomogenization"); auto f = [](const VL& x) { VL r(x.begin(), x.end() - 1); for (auto& a : r) a /= x.back(); return r; }; int n = g.range(2, 4); VL x = genVL<T>(g, n, 3); x.back() = rnd<T>((g.coin() ? 1 : -1) * g.real(0.5, 4)); g.nontrivial(); if (n == 2) check<T>(AF::Dehomogenization<2>(), f, x, "Dehomogenization<2>"); else if (n == 3) check<T>(AF::Dehomogenization<3>(), f, x, "Dehomogenization<3>"); else check<T>(AF::Dehomogenization<4>(), f, x, "Dehomogenization<4>"); break; }
    case 3: { ref::V3 v = genP3<T>(g, 3); Math::Vector<T, 3> vv = t3<T>(v); VL x = rq<T>(ref::genQ(g)); bool sc = sizeof(T) == 8 && g.coin(); if (sc) { ld s = g.real(0.5, 2); for (auto& a : x) a = rnd<T>(a * s); }
        g.cls("QuaternionRotation"); g.nontrivial(x[3] != 0); Fn f = [v](const VL& q) { return l(hom(q4(q, 0), v)); }; ref::M J = ref::jac(f, x); checkJ<T>(AF::QuaternionRotation<T>(vv), J, x, "QuaternionRotation jacobian"); Math::Vector<T, 3> r; if (!sc) { AF::QuaternionRotation<T>(vv).evaluate(r, vec<double>(x)); cmpV(r, f(x), 10 * Tol<T>::t(), "QuaternionRotation evaluate"); Math::Matrix<T, 0, 0> j2(3, 4); garbageM(j2); garbage(r); AF::QuaternionRotation<T>(vv).evaluateWithJacobian(r, vec<double>(x), j2); cmpV(r, f(x), 10 * Tol<T>::t(), "QuaternionRotation evaluateWithJacobian"); cmpM(j2, J, Tol<T>::t(), "QuaternionRotation evaluateWithJacobian"); }
        break; }
    case 4: { ref::V3 v = genP3<T>(g, 3); Math::Vector<T, 3> vv = t3<T>(v); VL x = rq<T>(ref::genQ(g)); ref::Q q = q4(x, 0); g.cls("QuaternionRotationError"); g.nontrivial();
        // e = (x,y,z,1), not normalized: the derivative at 0 is the same
        ref::M J = ref::jac([q, v](const VL& e) { return l(hom(q, hom(ref::Q(e[0], e[1], e[2], 1), v))); }, VL{0, 0, 0}); checkJ<T>(AF::QuaternionRotationError<T>(vv), J, x, "QuaternionRotationError", 5); break; }
    case 5: { g.cls("RadialDistortion"); VL p = genVL<T>(g, 2, 1), d = genVL<T>(g, 4, 0.5); Math::Vector<T, 2> pp((T(p[0])), T(p[1])); Math::Vector<T, 4> dd; for (int i = 0; i < 4; ++i) dd(i) = T(d[i]); g.nontrivial(p[0] != 0 && p[1] != 0); check<T>(AF::RadialDistortionWrtP<T>(dd), [d](const VL& p) { return distort(p, d); }, p, "RadialDistortionWrtP"); check<T>(AF::RadialDistortionWrtD<T>(pp), [p](const VL& d) { return distort(p, d); }, d, "RadialDistortionWrtD"); break; }
    case 6: { g.cls("LieRotation"); ref::V3 v = genP3<T>(g, 3); Math::Vector<T, 3> vv = t3<T>(v); ref::V3 ax(g.nice(1), g.nice(1), g.nice(1)); if (ref::norm(ax) < 0.1L) ax = ref::V3(1, -2, 0.5L); const bool fl = sizeof(T) == 4; ld ang; int k = g.range(0, 4); ang = k == 0 ? 0 : k == 1 ? (fl ? 1e-8L : g.logreal(1e-12, 9e-7)) : k == 2 ? (fl ? g.real(0.1, 0.3) : g.logreal(1.5e-6, 1)) : g.real(fl ? 0.3 : 0.05, 6.2); ax = (ang / ref::norm(ax)) * ax; VL x{rnd<T>(ax[0]), rnd<T>(ax[1]), rnd<T>(ax[2])};
        ld a = ref::norm(v3(x, 0)); ld ex = a < 1e-5L ? 1e5L : std::max<ld>(1, 0.02L / (a * a)); g.note() << "angle " << double(a); g.nontrivial(a > 1e-3L); check<double>(AF::LieRotation<double>(ut::v(v)), [v](const VL& r) { return l(ref::rot(ref::expv(v3(r, 0)), v)); }, x, "LieRotation", 5, ex);
        if (fl) { Math::Matrix<T, 0, 0> j(3, 3); garbageM(j); AF::LieRotation<T>(vv).jacobian(vec<T>(x), j); cmpM(j, ref::jac([v](const VL& r) { return l(ref::rot(ref::expv(v3(r, 0)), v)); }, x), std::max<ld>(1e-3L, 1e-5L / std::max<ld>(a * a, a < 1e-5L ? 1 : 0)), "LieRotation<float> jacobian"); } break; }
    default: { g.cls("ProjectivePoseNormalize"); VL x = genVL<T>(g, 7, 3); ld s = 0; for (int i = 3; i < 7; ++i) s += x[i] * x[i]; g.assume(s > 0.05L); g.nontrivial(std::fabs(s - 1) > 0.01L); Math::Vector<T> r(7), in = vec<T>(x); garbage(r); AF::ProjectivePoseNormalize().evaluate(r, in); VL w(7); for (int i = 0; i < 3; ++i) w[i] = x[i] / s; for (int i = 3; i < 7; ++i) w[i] = x[i] / std::sqrt(s); cmpV(r, w, Tol<T>::t(), "ProjectivePoseNormalize"); REQ(AF::ProjectivePoseNormalize().size() == 7, "size"); AF::ProjectivePoseNormalize().evaluate(in, in); cmpV(in, w, Tol<T>::t(), "ProjectivePoseNormalize in place"); break; }
    }
}
PROP(elementary_double, 4000, 300000, "all components take part") { basic<double>(g); }
PROP(elementary_float, 2000, 100000, "all components take part") { basic<float>(g); }

template <class T> void projections(pbt::Ctx& g) {
    g.cls(tn<T>()); int n = g.size(1, 6); std::vector<Math::Vector<T, 3> > pts; std::vector<ref::V3> P; for (int i = 0; i < n; ++i) { P.push_back(genP3<T>(g, 1)); pts.push_back(t3<T>(P.back())); } const ld X = 20;
    switch (g.range(0, 5)) {
    case 0: { g.cls("MultiplePointProjection"); VL x = genView<T>(g, true); Math::Matrix<T, 3, 3> K = genK<T>(g, false); ref::M k = ut::rm(K); g.nontrivial(n > 1); check<T>(AF::MultiplePointProjection<T>(pts, K), [&](const VL& x) { VL r; for (auto& p : P) app(r, dehom(ref::mul(k, hom(q4(x, 3), p) + v3(x, 0)))); return r; }, x, "MultiplePointProjection", X); break; }
    case 1: { g.cls("MultiplePointProjectionError"); VL x = genView<T>(g, true); Math::Matrix<T, 3, 3> K = genK<T>(g, false); ref::M k = ut::rm(K); g.nontrivial(n > 1); ref::M J = ref::jac([&](const VL& e) { VL r; for (auto& p : P) app(r, dehom(ref::mul(k, hom(q4(x, 3), hom(ref::Q(e[3], e[4], e[5], 1), p)) + v3(x, 0) + v3(e, 0)))); return r; }, VL(6, 0)); checkJ<T>(AF::MultiplePointProjectionError<T>(pts, K), J, x, "MultiplePointProjectionError", X); break; }
    case 2: { g.cls("SinglePointMultiProjection"); std::list<Math::Matrix<T, 3, 4> > cams; std::vector<ref::M> C; for (int i = 0; i < n; ++i) { Math::Matrix<T, 3, 4> c; VL x = genView<T>(g, true); ref::M R = ut::rm(genK<T>(g, false)) * ref::rotM(q4(x, 3)); ref::V3 t = ref::mul(ut::rm(genK<T>(g, false)), v3(x, 0)); for (int a = 0; a < 3; ++a) { for (int b = 0; b < 3; ++b) c(a, b) = T(R(a, b)); c(a, 3) = T(t[a]); } cams.push_back(c); C.push_back(ut::rm(c)); } VL x = l(genP3<T>(g, 0.5));
        Fn f = [&](const VL& x) { VL r; for (auto& c : C) app(r, dehom(ref::mul(c, v3(x, 0)) + ref::V3(c(0, 3), c(1, 3), c(2, 3)))); return r; }; for (auto& c : C) { ref::V3 y = ref::mul(c, v3(x, 0)) + ref::V3(c(0, 3), c(1, 3), c(2, 3)); g.assume(std::fabs(y[2]) > 0.3L); } g.nontrivial(n > 1);
        check<T>(AF::SinglePointMultiProjection<T, typename std::list<Math::Matrix<T, 3, 4> >::const_iterator>(cams.begin(), cams.end()), f, x, "SinglePointMultiProjection", 50 * X); break; }
    default: {
        int nc = g.size(1, 4); VL x = genView<T>(g, true); std::vector<Math::Pose> camP; std::vector<ref::P> CP; std::vector<Math::Matrix<T, 3, 3> > K; std::vector<Math::Vector<T, 4> > D; std::vector<Math::Matrix<T, 3, 4> > M; std::vector<ref::M> RM; ref::P target{ref::unit(q4(x, 3)), v3(x, 0)};
        for (int i = 0; i < nc; ++i) { ref::P c; c.q = ref::genQuniform(g); ref::V3 at(g.nice(1), g.nice(1), -g.real(5, 8)); c.t = at - ref::rot(c.q, target.t); camP.push_back(ut::p(c)); CP.push_back(ut::r(camP.back())); K.push_back(genK<T>(g, true)); D.push_back(Math::Vector<T, 4>(T(g.nice(0.2)), T(g.nice(0.1)), T(g.nice(0.05)), T(g.nice(0.05)))); ref::M R = ut::rm(genK<T>(g, false)); ref::M KR = R * ref::rotM(c.q); ref::V3 kt = ref::mul(R, c.t); Math::Matrix<T, 3, 4> m; for (int a = 0; a < 3; ++a) { for (int b = 0; b < 3; ++b) m(a, b) = T(KR(a, b)); m(a, 3) = T(kt[a]); } M.push_back(m); RM.push_back(ut::rm(m)); }
        std::vector<std::pair<std::size_t, std::size_t> > vis; std::vector<std::pair<unsigned, unsigned> > visU; int m = g.size(1, 8); for (int i = 0; i < m; ++i) { int a = g.range(0, n - 1), b = g.range(0, nc - 1); vis.push_back(std::make_pair(a, b)); visU.push_back(std::make_pair(unsigned(a), unsigned(b))); } g.nontrivial(nc > 1 && n > 1); auto proj = [&](int c, const ref::V3& p) { return dehom(ref::mul(RM[c], p) + ref::V3(RM[c](0, 3), RM[c](1, 3), RM[c](2, 3))); };
        if (g.coin()) { g.cls("MultipleCameraProjection"); Fn f = [&](const VL& x) { VL r; for (auto& v : vis) { ref::V3 w = CP[v.second] * (hom(q4(x, 3), P[v.first]) + v3(x, 0)); VL d = distort(dehom(w), toVL(D[v.second])); auto& k = K[v.second]; ld s = k(2, 2); app(r, VL{s * (k(0, 0) * d[0] + k(0, 1) * d[1] + k(0, 2)), s * (k(1, 1) * d[1] + k(1, 2))}); } return r; }; check<T>(AF::MultipleCameraProjection<T>(pts, camP, K, D, vis), f, x, "MultipleCameraProjection", 50 * X); }
        else if (g.coin()) { g.cls("MultipleCameraProjectionError"); ref::M J = ref::jac([&](const VL& e) { VL r; for (auto& v : vis) app(r, proj(v.second, hom(q4(x, 3), hom(ref::Q(e[3], e[4], e[5], 1), P[v.first])) + v3(x, 0) + v3(e, 0))); return r; }, VL(6, 0)); checkJ<T>(AF::MultipleCameraProjectionError<T>(pts, M, vis), J, x, "MultipleCameraProjectionError", 50 * X); }
        else { g.cls("MultipleCameraProjectionErrorART"); ref::V3 lg = ref::logv(ref::unit(q4(x, 3))); VL x6{x[0], x[1], x[2], rnd<T>(lg[0]), rnd<T>(lg[1]), rnd<T>(lg[2])}; bool cog = g.coin(); ref::V3 c = cog ? genP3<T>(g, 0.5) : ref::V3(); ref::Q q = ref::expv(v3(x6, 3)); ref::M J = ref::jac([&](const VL& e) { VL r; for (auto& v : vis) app(r, proj(v.second, ref::rot(ref::expv(v3(e, 3)), ref::rot(q, P[v.first] - c)) + ref::rot(q, c) + v3(x, 0) + v3(e, 0))); return r; }, VL(6, 0));
            if (cog) checkJ<T>(AF::MultipleCameraProjectionErrorART<T>(pts, M, visU, t3<T>(c)), J, x6, "MultipleCameraProjectionErrorART", 50 * X); else checkJ<T>(AF::MultipleCameraProjectionErrorART<T>(pts, M, visU), J, x6, "MultipleCameraProjectionErrorART", 50 * X); }
        break; }
    }
}
PROP(projections_double, 2500, 200000, "more than one point or camera") { projections<double>(g); }
PROP(projections_float, 1200, 60000, "more than one point or camera") { projections<float>(g); }

PROP(linear_and_discrete, 1500, 60000, "matrix is not a multiple of the identity") {
    Math::Matrix<double, 3, 4> A; for (int i = 0; i < 3; ++i) for (int j = 0; j < 4; ++j) A(i, j) = g.nice(3); ref::M a = ut::rm(A); VL x = genVL<double>(g, 4, 5); Fn f = [a](const VL& x) { VL r(3, 0); for (int i = 0; i < 3; ++i) for (int j = 0; j < 4; ++j) r[i] += a(i, j) * x[j]; return r; }; check<double>(MF::LinearFunction<3, 4, double>(A), f, x, "LinearFunction"); g.nontrivial();
    // forward differences: exact for a linear function, otherwise off by at most width * |x| * f'' / 2
    typedef MF::LinearFunction<3, 4, double> LF; bool defaultWidth = g.coin(); double w = defaultWidth ? 0.001 : g.logreal(1e-5, 1e-2); MF::DiscreteJacobianApproximation<LF> da = defaultWidth ? MF::DiscreteJacobianApproximation<LF>(LF(A)) : MF::DiscreteJacobianApproximation<LF>(LF(A), w);
    ld small = 1; for (ld v : x) if (v != 0) small = std::min(small, std::fabs(v)); Math::Vector<double> in = vec<double>(x), r(3); garbage(r); Math::Matrix<double, 0, 0> j(3, 4), j2(3, 4); garbageM(j); garbageM(j2); da.evaluateWithJacobian(r, in, j); da.jacobian(in, j2); ld tol = std::min<ld>(1, 1e-13L / (w * small)); cmpV(r, f(x), 1e-12L, "DiscreteJacobianApproximation evaluate"); cmpM(j, a, tol, "DiscreteJacobianApproximation"); cmpM(j2, a, tol, "DiscreteJacobianApproximation jacobian"); REQ(da.size() == 3, "size");
    VL v = genVL<double>(g, 3, 2); ld s = 0; for (ld q : v) s += q * q; if (s > 0.3L) { MF::VectorNormalize vn(3); MF::DiscreteJacobianApproximation<MF::VectorNormalize> dn(vn, w); Math::Matrix<double, 0, 0> k(3, 3); garbageM(k); dn.jacobian(vec<double>(v), k); ref::M J = ref::jac([](const VL& x) { ld s = 0; for (ld a : x) s += a * a; s = std::sqrt(s); VL r(x); for (auto& a : r) a /= s; return r; }, v); ld sm = 1; for (ld q : v) if (q != 0) sm = std::min(sm, std::fabs(q)); cmpM(k, J, std::min<ld>(1, 10 * w + 1e-13L / (w * sm)), "DiscreteJacobianApproximation of VectorNormalize"); }
}

PROP(rotate_vector, 1500, 60000, "general rotation") {
    VL q = rq<double>(ref::genQ(g)), v = genVL<double>(g, 3, 3); VL x(q); app(x, v); g.nontrivial(std::fabs(q[3]) > 1e-3L && std::fabs(q[3]) < 1 - 1e-6L);
    ref::M J = ref::jac([](const VL& x) { return l(hom(q4(x, 0), v3(x, 4))); }, x); Math::Vector<double, 3> r; garbage(r); Math::Matrix<double, 0, 0> jq(3, 4), jv(3, 3), no(0, 0); garbageM(jq); garbageM(jv); ref::M wq(3, 4), wv(3, 3); for (int i = 0; i < 3; ++i) { for (int j = 0; j < 4; ++j) wq(i, j) = J(i, j); for (int j = 0; j < 3; ++j) wv(i, j) = J(i, j + 4); }
    MF::QuaternionVectorRotation f; f.evaluateWithJacobian(r, vec<double>(q), vec<double>(v), jq, jv); VL want = l(hom(q4(q, 0), v3(v, 0))); cmpV(r, want, 1e-11L, "QuaternionVectorRotation"); cmpM(jq, wq, 1e-11L, "QuaternionVectorRotation wrt rotation"); cmpM(jv, wv, 1e-11L, "QuaternionVectorRotation wrt vector"); REQ(f.size() == 3, "size");
    garbageM(jq); garbageM(jv); f.jacobian(vec<double>(q), vec<double>(v), jq, no); cmpM(jq, wq, 1e-11L, "QuaternionVectorRotation wrt rotation only"); f.jacobian(vec<double>(q), vec<double>(v), no, jv); cmpM(jv, wv, 1e-11L, "QuaternionVectorRotation wrt vector only"); garbage(r); f.evaluate(r, vec<double>(q), vec<double>(v)); cmpV(r, want, 1e-11L, "QuaternionVectorRotation evaluate");
    // rotation velocity seen from the other side: -R v
    Math::Vector<double, 3> iv; garbage(iv); Math::Matrix<double, 0, 0> ji(3, 7); garbageM(ji); Tracking::Function::InvertRotationVelocity inv; inv.evaluateWithJacobian(iv, vec<double>(x), ji); VL neg(want); for (auto& a : neg) a = -a; cmpV(iv, neg, 1e-11L, "InvertRotationVelocity"); cmpM(ji, -1 * J, 1e-11L, "InvertRotationVelocity");
}

PROP(hand_eye_functions, 1500, 60000, "a is not b") {
    ref::Q a = q4(rq<double>(ref::genQ(g)), 0), b = q4(rq<double>(ref::genQ(g)), 0); VL x = rq<double>(ref::genQ(g)); g.nontrivial(ref::rotDist(a, b) > 1e-3L); ref::Q xq = q4(x, 0); auto sub = [](ref::Q p, ref::Q q) { return VL{p.x - q.x, p.y - q.y, p.z - q.z, p.w - q.w}; };
    Math::Vector<double, 4> r; garbage(r); Math::Matrix<double, 0, 0> j(4, 4), j1(4, 4), j2(4, 4); garbageM(j); AF::RotHecMeasurement m(ut::q(a), ut::q(b)); m.evaluateWithJacobian(r, vec<double>(x), j); Fn f = [&](const VL& x) { return sub(a * q4(x, 0), q4(x, 0) * b); }; cmpV(r, f(x), 1e-12L, "RotHecMeasurement"); cmpM(j, ref::jac(f, x), 1e-12L, "RotHecMeasurement"); REQ(m.size() == 4, "size");
    garbageM(j1); garbageM(j2); AF::RotHecCombine c(ut::q(xq)); c.jacobian(vec<double>(l(a)), vec<double>(l(b)), j1, j2); cmpM(j1, ref::jac([&](const VL& a) { return sub(q4(a, 0) * xq, xq * b); }, l(a)), 1e-12L, "RotHecCombine wrt a"); cmpM(j2, ref::jac([&](const VL& b) { return sub(a * xq, xq * q4(b, 0)); }, l(b)), 1e-12L, "RotHecCombine wrt b"); REQ(c.size() == 4, "size");
}

PROP(point_clouds_and_tool_tip, 1500, 60000, "more than two elements") {
    int n = g.size(1, 6); g.nontrivial(n > 2);
    if (g.coin()) { g.cls("point clouds"); std::vector<Math::Vector<double, 3> > pts; std::vector<ref::V3> P; for (int i = 0; i < n; ++i) { P.push_back(genP3<double>(g, 3)); pts.push_back(ut::v(P.back())); } VL x = genVL<double>(g, 3, 3); app(x, rq<double>(ref::genQ(g))); if (g.oneIn(3)) { ld s = g.real(0.5, 2); for (int i = 3; i < 7; ++i) x[i] = double(s * x[i]); }
        Fn f = [&](const VL& x) { VL r; for (auto& p : P) app(r, l(hom(ref::unit(q4(x, 3)), p) + v3(x, 0))); return r; }; Algorithm::PoseEstimation3D3D::PointCorrespodencesSinglePose<std::vector<Math::Vector<double, 3> >::const_iterator> fn(pts.begin(), pts.end()); REQ(int(fn.size()) == 3 * n, "size"); Math::Vector<double> r(3 * n), r2(3 * n); garbage(r); garbage(r2); fn.evaluate(r, vec<double>(x)); cmpV(r, f(x), 1e-11L, "PointCorrespodencesSinglePose"); Math::Matrix<double, 0, 0> j(3 * n, 7); garbageM(j); fn.evaluateWithJacobian(r2, vec<double>(x), j); cmpV(r2, f(x), 1e-11L, "PointCorrespodencesSinglePose");
        cmpM(j, ref::jac(f, x), 1e-10L, "PointCorrespodencesSinglePose"); return; }
    g.cls("tool tip"); std::vector<Math::Pose> poses; std::vector<ref::P> R; for (int i = 0; i < n; ++i) { poses.push_back(ut::p(ref::genP(g, 3))); R.push_back(ut::r(poses.back())); } VL x = genVL<double>(g, 6, 3); ref::V3 pw = v3(x, 0), pm = v3(x, 3); Algorithm::ToolTip::MultiplePoseSinglePointTransformation<std::vector<Math::Pose>::const_iterator> fn(poses.begin(), poses.end()); REQ(int(fn.size()) == n, "size");
    // optionally make components of a residual vanish
    if (g.oneIn(3)) { ref::P p; p.q = ref::Q(); p.t = ref::V3(double(pw[0] - pm[0]), double(pw[1] - pm[1]), g.coin() ? double(pw[2] - pm[2]) : g.nice(3)); poses[0] = ut::p(p); R[0] = ut::r(poses[0]); g.cls("residual component is zero"); }
    auto res = [&](const VL& x, int i) { return v3(x, 0) - (hom(R[i].q, v3(x, 3)) + R[i].t); }; Math::Vector<double> r(n), r2(n); Math::Matrix<double, 0, 0> j(n, 6), j2(n, 6); garbage(r); garbage(r2); garbageM(j); garbageM(j2); fn.evaluate(r, vec<double>(x)); fn.jacobian(vec<double>(x), j); fn.evaluateWithJacobian(r2, vec<double>(x), j2);
    for (int i = 0; i < n; ++i) { ld d = ref::norm(res(x, i)); REQ(std::fabs(ld(r(i)) - d) <= 1e-12L * (1 + d) && r(i) == r2(i), "tool tip distance " << r(i) << " expected " << double(d)); for (int k = 0; k < 6; ++k) REQ(std::isfinite(j(i, k)) && std::isfinite(j2(i, k)), "derivative of tool tip distance " << i << " is " << j(i, k) << " (distance " << double(d) << ")"); if (d > 1e-2L) { ref::M J = ref::jac([&](const VL& x) { return VL{ref::norm(res(x, i))}; }, x, 1e-6L * std::min<ld>(1, d)); for (int k = 0; k < 6; ++k) REQ(std::fabs(ld(j(i, k)) - J(0, k)) <= 1e-7L && std::fabs(ld(j2(i, k)) - J(0, k)) <= 1e-7L, "derivative " << k << " of tool tip distance " << i << " is " << j(i, k) << ", expected " << double(J(0, k))); } }
}

// ---- time updates: the derivatives are documented for small rotations per step, so the error may grow with the angle
PROP(linear_time_update, 1500, 60000, "at least one derivative") {
    int n = g.range(1, 4), o = g.range(0, 4); double dt = g.oneIn(8) ? 0 : g.coin() ? -g.logreal(1e-3, 3) : g.logreal(1e-3, 3); VL x = genVL<double>(g, n * (o + 1), 3); g.nontrivial(o > 0 && dt != 0);
    Fn f = [&](const VL& x) { VL r(x.begin(), x.begin() + n); ld t = 1; for (int i = 1; i <= o; ++i) { t *= ld(dt) / i; for (int k = 0; k < n; ++k) r[k] += t * x[i * n + k]; } return r; }; Math::Vector<double> r(n); garbage(r); Math::Matrix<double, 0, 0> j(n, n * (o + 1)); garbageM(j); Tracking::Function::LinearTimeUpdate u(dt, n, o); u.evaluateWithJacobian(r, vec<double>(x), j); cmpV(r, f(x), 1e-12L, "LinearTimeUpdate"); cmpM(j, ref::jac(f, x), 1e-12L, "LinearTimeUpdate"); REQ(int(u.size()) == n, "size");
}
PROP(rotation_velocity_integration, 1500, 60000, "rotates") {
    double dt = g.oneIn(10) ? 0 : (g.coin() ? 1 : -1) * g.logreal(1e-3, 2); VL v = genVL<double>(g, 3, g.coin() ? 3 : 1e-3); if (g.oneIn(6)) for (auto& a : v) a = double(a * 1e-9L); ld th = ref::norm(v3(v, 0)) * std::fabs(dt); g.note() << "angle " << double(th); g.nontrivial(th > 1e-3L); Fn f = [dt](const VL& v) { return l(ref::expv(ld(dt) * v3(v, 0))); }; MF::RotationVelocityIntegration in(dt); Math::Vector<double> r(4), r2(4); garbage(r); garbage(r2); Math::Matrix<double, 0, 0> j(4, 3), j2(4, 3); garbageM(j); garbageM(j2); in.evaluate(r, vec<double>(v)); in.evaluateWithJacobian(r2, vec<double>(v), j); in.jacobian(vec<double>(v), j2); cmpV(r, f(v), 1e-12L, "RotationVelocityIntegration"); cmpV(r2, f(v), 1e-12L, "RotationVelocityIntegration"); REQ(in.size() == 4, "size");
    ref::M J = ref::jac(f, v); for (int i = 0; i < 4; ++i) for (int k = 0; k < 3; ++k) { REQ(j(i, k) == j2(i, k), "jacobian and evaluateWithJacobian differ"); REQ(std::fabs(ld(j(i, k)) - J(i, k)) <= std::fabs(dt) * (th * th * 0.5L + 1e-11L), "RotationVelocityIntegration: derivative (" << i << "," << k << ") is " << j(i, k) << " expected about " << double(J(i, k))); }
}
PROP(pose_time_update, 2000, 80000, "position and rotation derivatives") {
    const bool inside = g.oneIn(3); int po = inside ? g.range(0, 1) : g.range(-1, 3), ro = inside ? 1 : g.range(-1, 1); g.assume(po >= 0 || ro >= 0); double dt = g.oneIn(10) ? 0 : g.logreal(1e-3, 1); VL x = genVL<double>(g, 3 * (po + 1), 3); const int rs = int(x.size()); ld th = 0; if (ro >= 0) { app(x, rq<double>(ref::genQ(g))); VL v = genVL<double>(g, 3 * ro, 3); if (ro > 0) { ld s = g.pick(std::vector<double>{1, 0.1, 1e-3, 1e-6}) / std::max<ld>(1, ref::norm(v3(v, 0)) * std::fabs(dt)); for (auto& a : v) a = double(a * s); th = ref::norm(v3(v, 0)) * std::fabs(dt); } app(x, v); }
    const int n = int(x.size()); g.cls(inside ? "inside-out" : "outside-in"); g.cls("orders " + std::to_string(po) + "," + std::to_string(ro)); g.note() << (inside ? "inside-out" : "outside-in") << " orders " << po << "," << ro << " dt " << dt << " angle " << double(th); g.nontrivial(po > 0 && ro > 0 && th > 0);
    Fn f = [&](const VL& x) { VL r; ref::Q q, d; if (ro >= 0) q = q4(x, rs); if (ro > 0) d = ref::expv(ld(dt) * v3(x, rs + 4));
        if (inside) { ref::Q w = q * d * ref::conj(q); ld nn = ref::dot(q, q); w = ref::Q(w.x / nn, w.y / nn, w.z / nn, w.w / nn); ref::V3 p = hom(w, v3(x, 0)); if (po) p = p + ld(dt) * v3(x, 3); app(r, l(p)); if (po) app(r, l(hom(w, v3(x, 3)))); }
        else for (int i = 0; i <= po; ++i) for (int k = 0; k < 3; ++k) { ld s = 0, t = 1; for (int m = i; m <= po; ++m) { s += t * x[3 * m + k]; t *= ld(dt) / (m - i + 1); } r.push_back(s); }
        if (ro >= 0) app(r, l(q * d)); if (ro > 0) app(r, l(v3(x, rs + 4))); return r; };
    Math::Vector<double> r(n); garbage(r); Math::Matrix<double, 0, 0> j(n, n); garbageM(j); if (inside) { Tracking::Function::InsideOutPoseTimeUpdate u(dt, po); REQ(int(u.size()) == n, "size"); u.evaluateWithJacobian(r, vec<double>(x), j); } else { Tracking::Function::PoseTimeUpdate u(dt, po, ro); REQ(int(u.size()) == n, "size " << u.size()); u.evaluateWithJacobian(r, vec<double>(x), j); }
    cmpV(r, f(x), 1e-11L, "time update"); ref::M J = ref::jac(f, x); ld mag = 1; for (int i = 0; i < rs; ++i) mag = std::max(mag, std::fabs(x[i]));
    // the quaternion columns are only meaningful along rotations; a small-angle approximation is off by O(angle) of the scale of its column
    ref::M D = ref::eye(n); if (ro >= 0) { D = ref::M(n, n - 1); for (int i = 0; i < rs; ++i) D(i, i) = 1; for (int k = 0; k < 3; ++k) { ref::Q d = q4(x, rs) * ref::Q(k == 0, k == 1, k == 2, 0); D(rs, rs + k) = d.x; D(rs + 1, rs + k) = d.y; D(rs + 2, rs + k) = d.z; D(rs + 3, rs + k) = d.w; } for (int i = rs + 4; i < n; ++i) D(i, i - 1) = 1; }
    ref::M got = ut::rm(j) * D, want = J * D; for (int i = 0; i < got.r; ++i) for (int c = 0; c < got.c; ++c) { ld colScale = c < rs ? 1 : c < rs + 3 ? 1 : i >= rs + 4 ? 1 : std::fabs(dt); ld rowScale = i < rs ? mag : 1; ld approx = (ro > 0 && (i >= rs || inside)) && i < rs + 4 ? 3 * th * colScale * rowScale : 0; REQ(std::fabs(got(i, c) - want(i, c)) <= approx + 1e-10L * mag, "time update: derivative (" << i << "," << c << ") is " << double(got(i, c)) << " expected " << double(want(i, c)) << " (rotation per step " << double(th) << ")"); }
}

// ---- bundle adjustment function
template <class T> void bundle(pbt::Ctx& g) {
    Algorithm::BundleAdjustmentNetwork<T> net; int np = g.size(0, 3), nb = g.size(1, 3), ni = g.size(1, 3), nc = g.size(1, 2), nbodies = g.size(1, 2); net.bEstimateIntrinsics = g.coin(); g.cls(net.bEstimateIntrinsics ? "intrinsics" : "no intrinsics"); g.cls(nb > 1 ? "bodies" : "only the world body");
    for (int i = 0; i < np; ++i) net.points.push_back(t3<T>(genP3<T>(g, 1))); for (int i = 0; i < nbodies; ++i) { typename Algorithm::BundleAdjustmentNetwork<T>::PointsList b; int k = g.size(1, 3); for (int a = 0; a < k; ++a) b.push_back(t3<T>(genP3<T>(g, 0.5))); net.bodies.push_back(b); }
    auto genPose = [&](double tz) { ref::P p; ref::V3 ax(g.nice(1), g.nice(1), g.nice(1)); if (ref::norm(ax) < 0.1L) ax = ref::V3(1, 2, -1); p.q = ref::axisAngle(ax, g.oneIn(8) ? 0 : g.real(0.2, 2.8)); p.t = ref::V3(g.nice(0.5), g.nice(0.5), tz); return ut::p(p); };
    for (int i = 0; i < nb; ++i) net.bodyPoses.push_back(i ? genPose(g.nice(0.5)) : Math::Pose(Math::Quaternion(), Math::Vector<double, 3>(0, 0, 0))); for (int i = 0; i < ni; ++i) net.images.push_back(genPose(-g.real(5, 8))); for (int i = 0; i < nc; ++i) { Math::Matrix<T, 3, 3> K = genK<T>(g, true); K(2, 2) = -1; net.intrinsics.push_back(K); net.distortions.push_back(Math::Vector<T, 4>(T(g.nice(0.2)), T(g.nice(0.1)), T(g.nice(0.05)), T(g.nice(0.05)))); }
    int mf = np ? g.size(0, 5) : 0, mb = nb ? g.size(0, 5) : 0; g.assume(mf + mb > 0); g.nontrivial(mf > 0 && mb > 0); VL meas;
    for (int i = 0; i < mf; ++i) { typename Algorithm::BundleAdjustmentNetwork<T>::FreePointMeasurement m; m.iPoint = g.range(0, np - 1); m.iCamera = g.range(0, nc - 1); m.iImage = g.range(0, ni - 1); m.measurement(0) = T(g.nice(5)); m.measurement(1) = T(g.nice(5)); net.freePointMeasurements.push_back(m); app(meas, VL{m.measurement(0), m.measurement(1)}); }
    for (int i = 0; i < mb; ++i) { typename Algorithm::BundleAdjustmentNetwork<T>::BodyPointMeasurement m; m.iBody = g.range(0, nbodies - 1); m.iBodyPose = g.range(0, nb - 1); m.iPoint = g.range(0, int(net.bodies[m.iBody].size()) - 1); m.iCamera = g.range(0, nc - 1); m.iImage = g.range(0, ni - 1); m.measurement(0) = T(g.nice(5)); m.measurement(1) = T(g.nice(5)); net.bodyPointMeasurements.push_back(m); app(meas, VL{m.measurement(0), m.measurement(1)}); }
    Algorithm::BundleAdjustmentFunction<T> fn(net); const int oB = 3 * np, oI = oB + 6 * std::max(0, nb - 1), oK = oI + 6 * ni, N = oK + (net.bEstimateIntrinsics ? 9 * nc : 0); REQ(int(fn.parameterSize()) == N, "parameterSize is " << fn.parameterSize() << " expected " << N); REQ(fn.measurementSize() == meas.size(), "measurementSize");
    Math::Vector<T> m(meas.size()), x(N); garbage(m); garbage(x); fn.buildMeasurementVector(m); cmpV(m, meas, 0, "measurement vector"); fn.buildParameterVector(x); VL p(N); for (int i = 0; i < N; ++i) { REQ(std::isfinite(double(x(i))), "parameter " << i << " is not set"); p[i] = x(i); }
    VL wantP; for (auto& q : net.points) app(wantP, l(r3(q))); auto pp = [&](const Math::Pose& q) { app(wantP, l(ut::r(q).t)); app(wantP, l(ref::logv(ut::r(q).q))); }; for (int i = 1; i < nb; ++i) pp(net.bodyPoses[i]); for (auto& q : net.images) pp(q); if (net.bEstimateIntrinsics) for (int i = 0; i < nc; ++i) { auto& K = net.intrinsics[i]; app(wantP, VL{K(0, 0), K(0, 1), K(0, 2), K(1, 1), K(1, 2)}); app(wantP, toVL(net.distortions[i])); } cmpV(x, wantP, 2e-6L, "parameter vector");
    Fn f = [&](const VL& p) { VL r; auto one = [&](const ref::V3& w, int c, int i) { ref::V3 t = ref::rot(ref::expv(v3(p, oI + 6 * i + 3)), w) + v3(p, oI + 6 * i); VL k, d; if (net.bEstimateIntrinsics) { k = VL(p.begin() + oK + 9 * c, p.begin() + oK + 9 * c + 5); d = VL(p.begin() + oK + 9 * c + 5, p.begin() + oK + 9 * c + 9); } else { auto& K = net.intrinsics[c]; k = VL{K(0, 0), K(0, 1), K(0, 2), K(1, 1), K(1, 2)}; d = toVL(net.distortions[c]); } VL u = distort(dehom(t), d); app(r, VL{-(k[0] * u[0] + k[1] * u[1] + k[2]), -(k[3] * u[1] + k[4])}); };
        for (auto& m : net.freePointMeasurements) one(v3(p, 3 * int(m.iPoint)), int(m.iCamera), int(m.iImage)); for (auto& m : net.bodyPointMeasurements) { ref::V3 w = r3(net.bodies[m.iBody][m.iPoint]); if (m.iBodyPose) { int o = oB + 6 * (int(m.iBodyPose) - 1); w = ref::rot(ref::expv(v3(p, o + 3)), w) + v3(p, o); } one(w, int(m.iCamera), int(m.iImage)); } return r; };
    Math::Vector<T> r(meas.size()), r2(meas.size()); garbage(r); garbage(r2); Math::Matrix<T, 0, 0> j(meas.size(), N), j2(meas.size(), N); garbageM(j); garbageM(j2); fn.evaluateWithJacobian(r, x, j); fn.evaluate(r2, x); fn.jacobian(x, j2); cmpV(r, f(p), 1e-9L, "bundle adjustment"); cmpV(r2, f(p), 1e-9L, "bundle adjustment evaluate"); ref::M J = ref::jac(f, p); cmpM(j, J, 1e-8L, "bundle adjustment evaluateWithJacobian"); cmpM(j2, J, 1e-8L, "bundle adjustment jacobian");
    // writing parameters back
    Math::Vector<T> y(x); for (int i = 0; i < N; ++i) y(i) += T(g.nice(0.01)); fn.updateParametersFromVector(y); Math::Vector<T> z(N); garbage(z); fn.buildParameterVector(z); VL yy(N); for (int i = 0; i < N; ++i) yy[i] = y(i); cmpV(z, yy, 2e-6L, "parameters after update");
}
PROP(bundle_adjustment, 1200, 60000, "free points and body points") { bundle<double>(g); }
}
