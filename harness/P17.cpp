// P17: Kalman measurement updates and backward propagation give the linear-Gaussian estimate.
#include "pbt.h"
#include "ut.h"
#include <boost/numeric/ublas/vector_proxy.hpp>
#include <boost/numeric/ublas/matrix_proxy.hpp>
#include <utMath/ErrorVector.h>
#include <utMath/Stochastic/Kalman.h>
#include <utMath/Stochastic/BackwardPropagation.h>
using namespace Ubitrack; namespace MS = Ubitrack::Math::Stochastic; typedef long double ld; typedef std::vector<ld> VL;
namespace {
/// y = A x + b + c * (x_0)^2 e_0: linear if c is zero
struct Meas { ref::M A; VL b; ld c; std::size_t size() const { return A.r; }
    VL f(const VL& x) const { VL y(A.r); for (int i = 0; i < A.r; ++i) { y[i] = b[i]; for (int j = 0; j < A.c; ++j) y[i] += A(i, j) * x[j]; } y[0] += c * x[0] * x[0]; return y; }
    ref::M jac(const VL& x) const { ref::M J = A; J(0, 0) += 2 * c * x[0]; return J; }
    template <class R, class I> void evaluate(R& r, const I& in) const { VL x(in.begin(), in.end()), y = f(x); for (std::size_t i = 0; i < y.size(); ++i) r(i) = typename R::value_type(y[i]); }
    template <class I, class J> void jacobian(const I& in, J& j) const { VL x(in.begin(), in.end()); ref::M m = jac(x); for (int a = 0; a < m.r; ++a) for (int b2 = 0; b2 < m.c; ++b2) j(a, b2) = typename J::value_type(m(a, b2)); }
    template <class R, class I, class J> void evaluateWithJacobian(R& r, const I& in, J& j) const { evaluate(r, in); jacobian(in, j); } };
template <class T> ref::M genSpd(pbt::Ctx& g, int n, ld lo) { ref::M A(n, n); for (auto& x : A.d) x = g.nice(1); ref::M S = A * ref::tr(A); for (int i = 0; i < n; ++i) S(i, i) += lo; for (int i = 0; i < n; ++i) for (int j = 0; j < i; ++j) S(i, j) = S(j, i); for (auto& x : S.d) x = ld(T(x)); return S; }
ref::M col(const VL& v) { ref::M m(int(v.size()), 1); m.d.assign(v.begin(), v.end()); return m; }
template <class M> void close(const M& got, const ref::M& want, ld tol, const char* what) { ld sc = std::max<ld>(1, ref::maxAbs(want)); for (int i = 0; i < want.r; ++i) for (int j = 0; j < want.c; ++j) REQ(std::fabs(ld(got(i, j)) - want(i, j)) <= tol * sc, what << " (" << i << "," << j << ") is " << double(got(i, j)) << ", expected " << double(want(i, j))); }
template <class V> void closeV(const V& got, const ref::M& want, ld tol, const char* what) { ld sc = std::max<ld>(1, ref::maxAbs(want)); for (int i = 0; i < want.r; ++i) REQ(std::fabs(ld(got(i)) - want(i, 0)) <= tol * sc, what << " [" << i << "] is " << double(got(i)) << ", expected " << double(want(i, 0))); }
struct Ref { VL x; ref::M P; ld cond; };
ld condOf(const ref::M& S) { auto s = ref::singularValues(S); ld hi = 0, lo = 1e300L; for (ld v : s) { hi = std::max(hi, v); lo = std::min(lo, v); } return hi / lo; }
/// textbook update with H restricted to [b,e)
Ref update(const VL& x, const ref::M& P, const ref::M& Hs, int b, const VL& innov, const ref::M& R) { int n = int(x.size()), m = Hs.r; ref::M H(m, n); for (int i = 0; i < m; ++i) for (int j = 0; j < Hs.c; ++j) H(i, b + j) = Hs(i, j); ref::M S = H * P * ref::tr(H); const ld mag = ref::maxAbs(S) + ref::maxAbs(R); for (std::size_t i = 0; i < S.d.size(); ++i) S.d[i] += R.d[i]; ref::M I(m, m); ref::inverse(S, I); ref::M K = P * ref::tr(H) * I; Ref r; auto sing = ref::singularValues(S); r.cond = std::max(condOf(S), mag / *std::min_element(sing.begin(), sing.end())); r.x = x; ref::M d = K * col(innov); for (int i = 0; i < n; ++i) r.x[i] += d(i, 0); ref::M KHP = K * H * P; r.P = P; for (std::size_t i = 0; i < r.P.d.size(); ++i) r.P.d[i] -= KHP.d[i]; return r; }
template <class T> void kalman(pbt::Ctx& g) {
    const bool fl = sizeof(T) == 4; int n = g.range(1, 7), b = g.range(0, n - 1), e = g.range(b + 1, n), m = g.range(1, 4); ref::M P = genSpd<T>(g, n, g.oneIn(4) ? 0 : 0.1L), R = genSpd<T>(g, m, fl ? 0.5L : g.oneIn(5) ? 1e-3L : 0.3L); bool indef = !fl && g.oneIn(6); if (indef) for (int i = 0; i < m; ++i) R(i, i) -= ld(double(g.real(0, 20))); VL x(n), z(m); for (auto& v : x) v = ld(T(g.nice(3))); for (auto& v : z) v = ld(T(g.nice(5))); Meas h; h.A = ref::M(m, e - b); for (auto& v : h.A.d) v = ld(T(g.nice(2))); h.b.resize(m); for (auto& v : h.b) v = ld(T(g.nice(1))); h.c = g.coin() ? 0 : ld(T(g.nice(1)));
    VL sub(x.begin() + b, x.begin() + e), y = h.f(sub), in(m); for (int i = 0; i < m; ++i) in[i] = z[i] - y[i]; Ref w = update(x, P, h.jac(sub), b, in, R); g.assume(w.cond < (fl ? 1e3L : 1e6L)); ld tol = (fl ? 3e-6L : 1e-14L) * (10 + w.cond) * 20; g.nontrivial(n > 1); g.cls(indef ? "indefinite" : h.c != 0 ? "non-linear" : "linear"); if (e - b < n) g.cls("part of the state"); g.note() << "state " << n << " range " << b << ".." << e << " measurement " << m;
    Math::Vector<T> s(n), zz(m); Math::Matrix<T, 0, 0> C(n, n), RR(m, m); for (int i = 0; i < n; ++i) s(i) = T(x[i]); for (int i = 0; i < m; ++i) zz(i) = T(z[i]); ut::set(C, P); ut::set(RR, R); MS::kalmanMeasurementUpdate(s, C, h, zz, RR, std::size_t(b), std::size_t(e)); closeV(s, col(w.x), tol, "updated state"); close(C, w.P, tol, "updated covariance");
    if (!indef) { ref::M D = P, N = ut::rm(C); for (std::size_t i = 0; i < D.d.size(); ++i) D.d[i] -= N.d[i]; std::vector<ld> ew; ref::M ev; ref::eigSym(N, ew, ev); for (ld v : ew) REQ(v > -tol * 20 * std::max<ld>(1, ref::maxAbs(P)), "updated covariance has the eigenvalue " << double(v)); ref::eigSym(D, ew, ev); for (ld v : ew) REQ(v > -tol * 20 * std::max<ld>(1, ref::maxAbs(P)), "a measurement increased the uncertainty, eigenvalue " << double(v)); }
    // identity measurement of a part of the state
    int k = e - b; ref::M R2 = genSpd<T>(g, k, fl ? 0.5L : 0.05L); VL z2(k); for (auto& v : z2) v = ld(T(g.nice(4))); for (int i = 0; i < k; ++i) in.resize(k), in[i] = z2[i] - x[b + i]; Ref w2 = update(x, P, ref::eye(k), b, in, R2); if (w2.cond < (fl ? 1e3L : 1e6L)) { Math::Vector<T> s2(n), zv(k); for (int i = 0; i < n; ++i) s2(i) = T(x[i]); for (int i = 0; i < k; ++i) zv(i) = T(z2[i]); Math::Matrix<T, 0, 0> C2(n, n), RK(k, k); ut::set(C2, P); ut::set(RK, R2); MS::kalmanMeasurementUpdateIdentity(s2, C2, zv, RK, std::size_t(b), std::size_t(e)); ld t2 = (fl ? 3e-6L : 1e-14L) * (10 + w2.cond) * 20; closeV(s2, col(w2.x), t2, "state after an identity measurement"); close(C2, w2.P, t2, "covariance after an identity measurement"); } }
}
PROP(measurement_update, 3000, 200000, "more than one state variable") { if (g.coin()) kalman<double>(g); else kalman<float>(g); }
PROP(error_vector_overloads_and_sequences, 1500, 100000, "always") {
    ref::M P = genSpd<double>(g, 5, 0.2L); VL x(5); for (auto& v : x) v = g.nice(3); Math::ErrorVector<double, 5> st; for (int i = 0; i < 5; ++i) st.value(i) = double(x[i]); ut::set(st.covariance, P); g.nontrivial();
    // a history of linear measurements equals the information-form estimate, in any order
    int n = g.size(1, 5); std::vector<Meas> hs; std::vector<VL> zs; std::vector<ref::M> Rs; std::vector<int> bs; for (int q = 0; q < n; ++q) { Meas h; int b = g.range(0, 3), e = g.range(b + 1, 5); h.A = ref::M(2, e - b); for (auto& v : h.A.d) v = g.nice(2); h.b = VL(2, 0); h.c = 0; hs.push_back(h); bs.push_back(b); VL z(2); for (auto& v : z) v = g.nice(5); zs.push_back(z); Rs.push_back(genSpd<double>(g, 2, 0.2L)); }
    ref::M L(5, 5); ref::inverse(P, L); ref::M xi = L * col(x); for (int q = 0; q < n; ++q) { ref::M H(2, 5); for (int i = 0; i < 2; ++i) for (int j = 0; j < hs[q].A.c; ++j) H(i, bs[q] + j) = hs[q].A(i, j); ref::M Ri(2, 2); ref::inverse(Rs[q], Ri); ref::M a = ref::tr(H) * Ri * H, c = ref::tr(H) * Ri * col(zs[q]); for (std::size_t i = 0; i < L.d.size(); ++i) L.d[i] += a.d[i]; for (std::size_t i = 0; i < xi.d.size(); ++i) xi.d[i] += c.d[i]; } ref::M PP(5, 5); ref::inverse(L, PP); ref::M xx = PP * xi; std::vector<int> ord(n); for (int i = 0; i < n; ++i) ord[i] = i; g.shuffle(ord);
    for (int q : ord) { Math::ErrorVector<double, 2> z; z.value(0) = double(zs[q][0]); z.value(1) = double(zs[q][1]); ut::set(z.covariance, Rs[q]); std::size_t b = bs[q], e = b + hs[q].A.c; if (b == 0 && e == 5) MS::kalmanMeasurementUpdate(st, hs[q], z); else MS::kalmanMeasurementUpdate(st, hs[q], z, b, e); } closeV(st.value, xx, 1e-9L, "state after a history of measurements"); close(st.covariance, PP, 1e-9L, "covariance after a history of measurements");
    Math::ErrorVector<double, 5> s2; for (int i = 0; i < 5; ++i) s2.value(i) = double(x[i]); ut::set(s2.covariance, P); int b = g.range(0, 3); Math::ErrorVector<double, 2> z; z.value(0) = g.nice(3); z.value(1) = g.nice(3); ref::M R = genSpd<double>(g, 2, 0.1L); ut::set(z.covariance, R); MS::kalmanMeasurementUpdateIdentity(s2, z, std::size_t(b), std::size_t(b + 2)); VL in{z.value(0) - x[b], z.value(1) - x[b + 1]}; Ref w = update(x, P, ref::eye(2), b, in, R); closeV(s2.value, col(w.x), 1e-9L, "identity measurement"); close(s2.covariance, w.P, 1e-9L, "identity measurement covariance"); }
namespace {
template <class T> void backward(pbt::Ctx& g) {
    const bool fl = sizeof(T) == 4; int n = g.range(1, 6), m = n + g.range(0, 8); ref::M J(m, n); for (auto& v : J.d) v = ld(T(g.nice(3))); int rank = n; if (!fl && n > 1 && g.oneIn(4)) { rank = n - 1; for (int i = 0; i < m; ++i) J(i, n - 1) = J(i, 0); } auto sv = ref::singularValues(J); std::sort(sv.begin(), sv.end(), std::greater<ld>()); g.assume(sv[rank - 1] > (fl ? 0.1L : 1e-3L) * sv[0] && sv[0] > 0.1L); ld cond = sv[0] / sv[rank - 1]; bool diag = g.coin(); if (rank < n) diag = false; ld s = ld(T(g.logreal(1e-3, 1e3))); VL e(m); for (auto& v : e) v = diag ? ld(T(g.logreal(0.1, 10))) : s; ref::M A(n, n); for (int a = 0; a < n; ++a) for (int b = 0; b < n; ++b) for (int i = 0; i < m; ++i) A(a, b) += J(i, a) * J(i, b) / e[i];
    ref::M C(n, n); if (rank == n) ref::inverse(A, C); else { std::vector<ld> w; ref::M V; ref::eigSym(A, w, V); ld hi = 0; for (ld v : w) hi = std::max(hi, v); for (int k = 0; k < n; ++k) if (w[k] > 1e-12L * hi) for (int a = 0; a < n; ++a) for (int b = 0; b < n; ++b) C(a, b) += V(a, k) * V(b, k) / w[k]; } g.nontrivial(m > n); g.cls(rank < n ? "rank deficient" : diag ? "diagonal" : "identity"); g.note() << m << "x" << n << " condition " << double(cond); ld sc = ref::maxAbs(C); ref::M Cn = C; for (auto& v : Cn.d) v /= sc; ld tol = (fl ? 1e-5L : 1e-13L) * (diag ? 10 : 1) * cond * cond * 20;
    Math::Matrix<T, 0, 0> jac(m, n), res(n, n); ut::set(jac, J); for (int a = 0; a < n; ++a) for (int b = 0; b < n; ++b) res(a, b) = T(77); Math::Vector<T> ev(m); for (int i = 0; i < m; ++i) ev(i) = T(e[i]); Meas h; h.A = J; h.b = VL(m, 0); h.c = 0; Math::Vector<T> x(n); for (int i = 0; i < n; ++i) x(i) = T(g.nice(2)); bool fn = g.coin(); if (diag) { if (fn) MS::backwardPropagationDiagonal(res, ev, h, x); else MS::backwardPropagationDiagonal(res, ev, jac); } else { if (fn) MS::backwardPropagationIdentity(res, T(s), h, x); else MS::backwardPropagationIdentity(res, T(s), jac); } ref::M G = ut::rm(res); for (auto& v : G.d) v /= sc; for (int a = 0; a < n; ++a) for (int b = 0; b < n; ++b) { REQ(std::fabs(G(a, b) - Cn(a, b)) < tol, "propagated covariance (" << a << "," << b << ") is " << double(G(a, b) * sc) << ", expected " << double(C(a, b))); REQ(res(a, b) == res(b, a), "propagated covariance is not symmetric"); } }
}
PROP(backward_propagation, 3000, 200000, "more measurements than parameters") { if (g.coin()) backward<double>(g); else backward<float>(g); }
PROP(backward_propagation_general, 2000, 100000, "correlated measurements") {
    int n = g.range(1, 4), m = n + g.range(0, 5); ref::M J(m, n), E = genSpd<double>(g, m, 0.2L); for (auto& v : J.d) v = g.nice(3); auto sv = ref::singularValues(J); std::sort(sv.begin(), sv.end()); g.assume(sv[0] > 1e-2L * sv.back() && sv[0] > 0.01L); ref::M Ei(m, m), C(n, n); ref::inverse(E, Ei); ref::inverse(ref::tr(J) * Ei * J, C); bool corr = false; for (int i = 0; i < m; ++i) for (int j = 0; j < i; ++j) corr = corr || E(i, j) != 0; g.nontrivial(corr); g.note() << m << "x" << n;
    Meas h; h.A = J; h.b = VL(m, 0); h.c = 0; Math::Matrix<double, 0, 0> res(n, n), in(m, m); ut::set(in, E); for (int a = 0; a < n; ++a) for (int b = 0; b < n; ++b) res(a, b) = 77; Math::Vector<double> x(n); for (int i = 0; i < n; ++i) x(i) = g.nice(2); MS::backwardPropagation(res, in, h, x); ld sc = ref::maxAbs(C); for (int a = 0; a < n; ++a) for (int b = 0; b < n; ++b) REQ(std::fabs(ld(res(a, b)) - C(a, b)) < 1e-7L * sc, "propagated covariance (" << a << "," << b << ") is " << res(a, b) << ", expected " << double(C(a, b))); REQ(ref::maxAbs(ut::rm(in) - E) == 0, "the input covariance was changed"); }
/// parameters and measurements in very different units: the result is the one in equal units, scaled
PROP(backward_propagation_units, 1500, 60000, "units differ by more than a thousand") {
    int n = g.range(2, 5), m = n + g.range(0, 5); ref::M J0(m, n), E0 = genSpd<double>(g, m, 0.2L); for (auto& v : J0.d) v = g.nice(3); auto sv = ref::singularValues(J0); std::sort(sv.begin(), sv.end()); g.assume(sv[0] > 2e-2L * sv.back() && sv[0] > 0.01L); const int kind = g.range(0, 2);
    const ld all = kind == 0 ? g.logreal(1e-3, 1e3) : 1; if (kind < 2) for (int i = 0; i < m; ++i) for (int j = 0; j < m; ++j) if (i != j) E0(i, j) = 0; else if (kind == 0) E0(i, i) = all;
    VL S(m, 1), D(n, 1); ld lo = 1; const ld f = g.logreal(1e-4, 1e4); if (kind) for (auto& v : S) v = ld(std::pow(10.0, double(-g.range(0, 3)))); for (auto& v : D) { v = ld(std::pow(10.0, double(-g.range(0, 5)))); lo = std::min(lo, v); } for (auto& v : D) v *= f; g.nontrivial(lo < 1e-3L); g.cls(kind == 0 ? "identity" : kind == 1 ? "diagonal" : "general");
    ref::M Ei(m, m), C(n, n), J(m, n), E(m, m); ref::inverse(E0, Ei); ref::inverse(ref::tr(J0) * Ei * J0, C); for (int a = 0; a < n; ++a) for (int b = 0; b < n; ++b) C(a, b) /= D[a] * D[b]; for (int i = 0; i < m; ++i) { for (int j = 0; j < n; ++j) J(i, j) = S[i] * J0(i, j) * D[j]; for (int j = 0; j < m; ++j) E(i, j) = S[i] * E0(i, j) * S[j]; }
    Meas h; h.A = J; h.b = VL(m, 0); h.c = 0; Math::Vector<double> x(n); for (int i = 0; i < n; ++i) x(i) = 1; Math::Matrix<double, 0, 0> res(n, n); for (int a = 0; a < n; ++a) for (int b = 0; b < n; ++b) res(a, b) = 77;
    if (kind == 0) MS::backwardPropagationIdentity(res, double(all), h, x); else if (kind == 1) { Math::Vector<double> ev(m); for (int i = 0; i < m; ++i) ev(i) = double(E(i, i)); MS::backwardPropagationDiagonal(res, ev, h, x); } else { Math::Matrix<double, 0, 0> in(m, m); ut::set(in, E); MS::backwardPropagation(res, in, h, x); }
    ld sc = ref::maxAbs(C); for (int a = 0; a < n; ++a) for (int b = 0; b < n; ++b) REQ(std::fabs(ld(res(a, b)) - C(a, b)) < 1e-6L * sc, "propagated covariance (" << a << "," << b << ") is " << res(a, b) << ", expected " << double(C(a, b))); }
