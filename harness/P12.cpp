// P12: the least squares optimizers find the minimum, never make things worse and report what they did.
#include "pbt.h"
#include "ut.h"
#include <algorithm>
#include <iostream>
#include <utMath/Optimization/LevenbergMarquardt.h>
#include <utMath/Optimization/GaussNewton.h>
#include <utMath/Optimization/DownhillSimplex.h>
#include <utMath/Optimization/TukeyWeightFunction.h>
#include <utMath/Optimization/Function/VectorNormalize.h>
using namespace Ubitrack; using namespace Ubitrack::Math::Optimization;
typedef long double ld;
namespace {
typedef std::vector<ld> VL;
/// generic problem: function and jacobian given by std::function, records every parameter vector it is evaluated at
struct Prob {
    int m; std::function<VL(const VL&)> f; mutable std::vector<VL> seen; bool keep = true;
    std::size_t size() const { return m; }
    template <class V> static VL in(const V& x) { VL r(x.size()); for (std::size_t i = 0; i < x.size(); ++i) r[i] = x(i); return r; }
    template <class V1, class V2> void evaluate(V1& res, const V2& x) const { VL p = in(x); if (keep) seen.push_back(p); VL r = f(p); for (int i = 0; i < m; ++i) res(i) = typename V1::value_type(r[i]); }
    template <class V1, class V2, class M> void evaluateWithJacobian(V1& res, const V2& x, M& J) const {
        evaluate(res, x); ref::M j = ref::jac(f, in(x), 1e-3L); for (int i = 0; i < j.r; ++i) for (int k = 0; k < j.c; ++k) J(i, k) = typename M::value_type(j(i, k)); }
};
struct LinProb : Prob {
    ref::M A; VL b;
    template <class V1, class V2, class M> void evaluateWithJacobian(V1& res, const V2& x, M& J) const { evaluate(res, x); for (int i = 0; i < A.r; ++i) for (int k = 0; k < A.c; ++k) J(i, k) = typename M::value_type(A(i, k)); }
};
/// orthogonal matrix from random reflections
ref::M genOrtho(pbt::Ctx& g, int n) { ref::M q = ref::eye(n); for (int k = 0; k < std::min(n, 3); ++k) { ref::M v(n, 1); ld s = 0; for (int i = 0; i < n; ++i) { v(i, 0) = g.sym(1); s += v(i, 0) * v(i, 0); } if (s < 1e-6L) continue; q = q - (2 / s) * (v * (ref::tr(v) * q)); } return q; }
LinProb genLin(pbt::Ctx& g, int m, int n, int rank, bool isFloat) {
    LinProb p; p.m = m; ref::M S(m, n); for (int i = 0; i < rank; ++i) S(i, i) = isFloat ? g.real(0.7, 1.5) : g.real(0.3, 3); p.A = genOrtho(g, m) * S * genOrtho(g, n); for (auto& x : p.A.d) x = isFloat ? ld(float(x)) : ld(double(x));
    p.b.resize(m); for (auto& x : p.b) x = g.oneIn(4) ? 0 : g.sym(2); ref::M A = p.A; VL b = p.b; p.f = [A, b](const VL& x) { VL r(b); for (int i = 0; i < A.r; ++i) for (int j = 0; j < A.c; ++j) r[i] += A(i, j) * x[j]; return r; };
    return p;
}
/// termination criterion that records the history
struct Rec { struct E { std::size_t it; double a, b; bool end; }; std::vector<E>* h; OptTerminate t; bool operator()(std::size_t it, double a, double b) const { bool e = t(it, a, b); h->push_back(E{it, a, b, e}); return e; } };
struct FixedWeights { VL w; bool noWeights() const { return false; } template <class X, class Y> void computeWeights(const X&, Y& o) const { for (std::size_t i = 0; i < w.size(); ++i) o(i) = w[i]; } };
template <class VV> ld sq(const Prob& p, const VV& x, const VV& m, const VL* w = 0) { VL r = p.f(Prob::in(x)); ld s = 0; for (int i = 0; i < p.m; ++i) { ld d = ld(m(i)) - r[i]; s += d * d * (w ? (*w)[i] : 1); } return s; }
ref::M lsq(const ref::M& A, const VL& rhs, const VL& w) { ref::M B(A), c(A.r, 1); for (int i = 0; i < A.r; ++i) { ld s = std::sqrt(w[i]); for (int j = 0; j < A.c; ++j) B(i, j) *= s; c(i, 0) = rhs[i] * s; } return ref::solve(ref::tr(B) * B, ref::tr(B) * c); }
const char* solverName[] = {"cholesky", "qr", "svd"};
void checkHistory(const std::vector<Rec::E>& h, ld initial, ld ret, double eps, std::size_t maxIt, double prec) {
    REQ(!h.empty() && h.size() <= maxIt, h.size() << " iterations, limit " << maxIt); ld best = initial;
    for (std::size_t i = 0; i < h.size(); ++i) {
        REQ(h[i].it >= i + 1 && h[i].it <= maxIt + 1 && (i == 0 || h[i].it > h[i - 1].it), "iteration number " << h[i].it << " reported in iteration " << i + 1); REQ(h[i].end == (i + 1 == h.size()), "optimizer does not stop when the termination criterion says so");
        if (h[i].a < best) best = h[i].a;
        bool want = h[i].it >= maxIt || (prec > 0 && std::fabs(h[i].a - h[i].b) <= prec * std::max(h[i].a, h[i].b) * (1 + 1e-12)); if (h[i].end) REQ(want, "terminates early with residuals " << h[i].a << " " << h[i].b << " in iteration " << h[i].it << " of " << maxIt);
    }
    REQ(ret <= initial * (1 + eps) + 1e-300L, "residual grew from " << double(initial) << " to " << double(ret)); REQ(ret <= best * (1 + eps), "returned residual " << double(ret) << " although " << double(best) << " was reached");
}
template <class T> void linearLM(pbt::Ctx& g) {
    const bool fl = sizeof(T) == 4; const ld eps = std::numeric_limits<T>::epsilon(); int n = g.size(1, 6), m = n + g.size(0, 8); int rank = g.oneIn(4) ? g.range(0, n) : n; LinProb p = genLin(g, m, n, rank, fl);
    Math::Vector<T> x(n), y(m); for (int i = 0; i < n; ++i) x(i) = T(g.nice(5)); for (int i = 0; i < m; ++i) y(i) = T(g.nice(5)); bool weighted = g.oneIn(2); VL w(m, 1); if (weighted) for (auto& a : w) a = g.oneIn(6) ? 0 : g.real(0.2, 4);
    int pos = 0; for (ld a : w) pos += a > 0; LmSolverType s = LmSolverType(g.range(0, 2)); std::size_t maxIt = g.oneIn(4) ? g.range(1, 5) : fl ? 30 : 100; double prec = g.oneIn(3) ? 1e-9 : 0; double step = g.pick(std::vector<double>{1, 1e-3, 100}), fac = g.pick(std::vector<double>{10, 2, 5});
    g.note() << m << "x" << n << " rank " << rank << (fl ? " float " : " double ") << solverName[s] << (weighted ? " weighted" : "") << " maxIt " << maxIt << " prec " << prec << " step " << step << " factor " << fac; g.cls(solverName[s]); g.cls(rank < n ? "rank deficient" : "full rank"); g.cls(weighted ? "weighted" : "unweighted"); g.nontrivial(n > 1 && m > n && rank == n);
    std::vector<Rec::E> h; Rec tc{&h, OptTerminate(maxIt, prec)}; ld init = sq(p, x, y, &w); Math::Vector<T> x0 = x; T r = 0;
    try {
    if (weighted) { FixedWeights fw{w}; r = weightedLevenbergMarquardt(p, x, y, tc, OptNoNormalize(), fw, s, T(step), T(fac)); } else if (g.coin()) r = levenbergMarquardt(p, x, y, tc, OptNoNormalize(), s, T(step), T(fac)); else { step = 1; fac = 10; r = levenbergMarquardt(p, x, y, tc, OptNoNormalize()); }
    } catch (const Util::Exception&) { REQ(s == lmUseQR && (rank < n || (weighted && pos < m)), "solver fails on a regular problem"); g.cls("QR reports a singular problem"); return; }
    ld at = sq(p, x, y, &w); ld mag = 0; for (int i = 0; i < m; ++i) mag += w[i] * std::pow(std::fabs(ld(y(i))) + std::fabs(p.b[i]) + 1, 2); for (int i = 0; i < n; ++i) mag += 50 * ld(x(i)) * x(i); ld tol = eps * 200 * mag;
    REQ(std::isfinite(double(r)), "residual is not finite"); REQ(std::fabs(at - r) <= tol, "returned residual " << double(r) << " but the parameters have " << double(at)); checkHistory(h, init + tol, r, double(100 * eps), maxIt, prec); REQ(int(p.seen.size()) <= int(maxIt) + 1, p.seen.size() << " evaluations for " << maxIt << " iterations");
    if (maxIt < 30) return;
    // minimum residual by the normal equations in long double (ridge limit for deficient problems: compare residual only)
    if (rank == n && pos >= n + 3) { VL rhs(m); for (int i = 0; i < m; ++i) rhs[i] = y(i) - p.b[i]; ref::M B(p.A); for (int i = 0; i < m; ++i) for (int j = 0; j < n; ++j) B(i, j) *= std::sqrt(w[i]); auto sv = ref::singularValues(B); if (sv[n - 1] < 0.1L) return; g.cls("minimum checked");
        ref::M z = lsq(p.A, rhs, w); ld rmin = 0, xs = 1; for (int i = 0; i < m; ++i) { ld d = rhs[i]; for (int j = 0; j < n; ++j) d -= p.A(i, j) * z(j, 0); rmin += w[i] * d * d; } for (int j = 0; j < n; ++j) xs += std::fabs(z(j, 0)) + std::fabs(ld(x0(j)));
        // error of the parameters from stopping at a relative residual change / float resolution of the residual
        REQ(at <= rmin + tol + (prec > 0 ? 1e-6L * (rmin + 1e-12L * init) + 1e-7L * init : 0), "residual " << double(at) << ", minimum is " << double(rmin));
        if (prec == 0) { ld xt = std::sqrt(tol) / sv[n - 1] * 4 + 1e3L * eps * xs; for (int j = 0; j < n; ++j) REQ(std::fabs(x(j) - z(j, 0)) <= xt, "parameter " << j << " is " << double(x(j)) << ", least squares solution " << double(z(j, 0)) << " tol " << double(xt)); } }
    if (rank < n && !weighted && !fl) { // best reachable residual: project on the column space
        std::vector<ld> sv; ref::M U, V; ref::svd(p.A, U, sv, V); VL rhs(m); ld rr = 0; for (int i = 0; i < m; ++i) { rhs[i] = y(i) - p.b[i]; rr += rhs[i] * rhs[i]; } for (int k = 0; k < n; ++k) if (sv[k] > 1e-6L) { ld d = 0; for (int i = 0; i < m; ++i) d += U(i, k) * rhs[i]; rr -= d * d; }
        if (prec == 0) REQ(at <= rr + 1e-7L * (1 + mag), "rank deficient problem: residual " << double(at) << ", reachable " << double(rr)); }
}
/// nonlinear zero residual problems
struct NL { int n; Prob p; VL sol; const char* name; };
NL genNL(pbt::Ctx& g) {
    NL r; int m; switch (g.draw(4)) {
    case 0: { r.name = "exponential fit"; r.n = 2; m = g.range(4, 10); r.sol = {g.real(0.5, 2), g.real(-1, 1)}; VL t; for (int i = 0; i < m; ++i) t.push_back(-1 + 2.0L * i / (m - 1)); r.p.f = [t](const VL& x) { VL o; for (ld a : t) o.push_back(x[0] * std::exp(x[1] * a)); return o; }; break; }
    case 1: { r.name = "distances to anchors"; r.n = 2; m = g.range(3, 7); r.sol = {g.sym(1), g.sym(1)}; std::vector<VL> an; for (int i = 0; i < m; ++i) { ld a = 2 * ref::PI * i / m + g.sym(0.2); an.push_back({4 * std::cos(a), 4 * std::sin(a)}); } r.p.f = [an](const VL& x) { VL o; for (auto& a : an) o.push_back(std::hypot(x[0] - a[0], x[1] - a[1])); return o; }; break; }
    case 2: { r.name = "rosenbrock"; r.n = 2; m = 2; r.sol = {g.real(0.5, 1.5), 0}; ld a = r.sol[0]; r.sol[1] = a * a; r.p.f = [a](const VL& x) { return VL{10 * (x[1] - x[0] * x[0]), a - x[0]}; }; break; }
    case 3: { r.name = "logarithms"; r.n = 2; m = 3; r.sol = {g.real(1, 3), g.real(1, 3)}; r.p.f = [](const VL& x) { return VL{std::log(x[0]), std::log(x[1]), std::sqrt(x[0] * x[1])}; }; break; }  // undefined for negative parameters
    default: { r.name = "mildly nonlinear"; r.n = 3; m = g.range(3, 6); r.sol = {g.sym(1.5), g.sym(1.5), g.sym(1.5)}; LinProb l = genLin(g, m, 3, 3, true); ref::M A = l.A; r.p.f = [A](const VL& x) { VL o(A.r, 0); for (int i = 0; i < A.r; ++i) { for (int j = 0; j < 3; ++j) o[i] += A(i, j) * x[j]; o[i] += 0.1L * std::sin(x[i % 3]); } return o; }; }
    }
    r.p.m = m; return r;
}
template <class T> void nonlinearLM(pbt::Ctx& g) {
    NL q = genNL(g); int n = q.n, m = q.p.m; bool close = g.oneIn(2); Math::Vector<T> x(n), y(m); VL target = q.p.f(q.sol); ld noise = g.oneIn(3) ? 0.1 : 0; for (int i = 0; i < m; ++i) y(i) = T(target[i] + (noise > 0 ? noise * g.sym(1) : 0)); for (int i = 0; i < n; ++i) x(i) = T(q.sol[i] + g.sym(close ? 0.2 : 0.9));
    if (std::string(q.name) == "logarithms") for (int i = 0; i < n; ++i) x(i) = close ? std::max(x(i), T(0.05)) : T(q.sol[i] * g.real(0.3, 9));  // from a far start, whole steps lead to negative parameters
    LmSolverType s = LmSolverType(g.range(0, 2)); std::size_t maxIt = g.oneIn(4) ? g.range(1, 6) : sizeof(T) == 4 ? 30 : 200; double step = g.pick(std::vector<double>{1, 1e-3, 1e-6});
    g.note() << q.name << ' ' << solverName[s] << (sizeof(T) == 4 ? " float" : " double") << " noise " << double(noise) << " maxIt " << maxIt << " step " << step; g.cls(q.name); g.nontrivial();
    std::vector<Rec::E> h; Rec tc{&h, OptTerminate(maxIt, 0)}; ld init = sq(q.p, x, y); T r = levenbergMarquardt(q.p, x, y, tc, OptNoNormalize(), s, T(step), T(10)); ld eps = std::numeric_limits<T>::epsilon(); ld mag = 0; for (int i = 0; i < m; ++i) mag += std::pow(std::fabs(ld(y(i))) + 1, 2) * 400; ld tol = eps * eps * 100 * mag * mag + eps * 100 * init;
    REQ(std::isfinite(double(r)), q.name << ": residual is " << double(r)); for (int i = 0; i < n; ++i) REQ(std::isfinite(double(x(i))), q.name << ": parameter " << i << " is not finite"); ld at = sq(q.p, x, y);
    REQ(std::fabs(at - r) <= tol + eps * 100 * (at + std::sqrt(at * mag)), q.name << ": returned residual " << double(r) << " but the parameters have " << double(at)); checkHistory(h, init + tol, r, double(100 * eps), maxIt, 0);
    if (maxIt >= 30 && noise == 0 && close) { ref::M J = ref::jac(q.p.f, q.sol, 1e-3L); auto sv = ref::singularValues(J); if (sv[n - 1] > 0.05L) { g.cls("solution checked"); ld xt = sizeof(T) == 4 ? 1e-2L : 1e-6L; for (int i = 0; i < n; ++i) REQ(std::fabs(x(i) - q.sol[i]) <= xt, q.name << ": parameter " << i << " is " << double(x(i)) << ", solution " << double(q.sol[i]) << " tol " << double(xt)); } }
}
}  // namespace
PROP(lm_linear, 20000, 1000000, "overdetermined full rank problem with at least 2 parameters") { if (g.oneIn(3)) linearLM<float>(g); else linearLM<double>(g); }
PROP(lm_nonlinear, 10000, 500000, "nonlinear problem") { if (g.oneIn(3)) nonlinearLM<float>(g); else nonlinearLM<double>(g); }
PROP(lm_unlimited_terminates, 1500, 50000, "exact data, no iteration limit") {
    int n = g.size(1, 4), m = n + g.size(0, 4); LinProb p = genLin(g, m, n, n, false); p.keep = false; { ref::M A = p.A; VL b = p.b; p.f = [A, b](const VL& x) { VL r(b.size()); for (int i = 0; i < A.r; ++i) { double s = double(b[i]); for (int j = 0; j < A.c; ++j) s += double(A(i, j)) * double(x[j]); r[i] = s; } return r; }; } Math::Vector<double> x(n), y(m); for (int i = 0; i < n; ++i) x(i) = (g.coin() ? -1 : 1) * g.range(1, 3); bool exactStart = g.oneIn(2); p.evaluate(y, x); if (!exactStart) for (int i = 0; i < n; ++i) x(i) += g.sym(1); if (g.oneIn(3)) for (int i = 0; i < m; ++i) y(i) += g.sym(1);
    g.nontrivial(); g.cls(exactStart ? "starts at the solution" : "starts elsewhere"); double r = levenbergMarquardt(p, x, y, OptTerminate(0, g.pick(std::vector<double>{1e-2, 1e-6, 1e-10})), OptNoNormalize()); REQ(r >= 0 && std::isfinite(r), "residual");
}
PROP(lm_normalizes, 8000, 400000, "unit quaternion that rotates points") {
    ref::Q q = ref::genQuniform(g); int k = g.range(3, 8); std::vector<ref::V3> pts; for (int i = 0; i < k; ++i) pts.push_back(ref::genVr(g, 2)); Prob p; p.m = 3 * k; p.f = [pts](const VL& x) { VL o; ref::Q r(x[0], x[1], x[2], x[3]); for (auto& a : pts) { ref::V3 v = ref::rot(r, a); for (int i = 0; i < 3; ++i) o.push_back(v[i]); } return o; };
    Math::Vector<double> x(4), y(3 * k); VL t = p.f({q.x, q.y, q.z, q.w}); for (int i = 0; i < 3 * k; ++i) y(i) = t[i]; ref::Q s = q * ref::expv(ref::genVr(g, 0.5)); x(0) = s.x; x(1) = s.y; x(2) = s.z; x(3) = s.w; g.nontrivial(); bool gn = g.oneIn(3); g.cls(gn ? "Gauss-Newton" : "Levenberg-Marquardt");
    ref::M c(3, 3); for (auto& a : pts) for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) c(i, j) += a[i] * a[j]; std::vector<ld> w; ref::M V; ref::eigSym(c, w, V); g.assume(w[1] > 0.3L);
    int it = g.range(1, 40); if (gn) { it = g.range(4, 12); gaussNewton(p, x, y, it, Function::VectorNormalize(4)); REQ(int(p.seen.size()) == it, p.seen.size() << " evaluations for " << it << " Gauss-Newton iterations"); } else levenbergMarquardt(p, x, y, OptTerminate(it), Function::VectorNormalize(4), LmSolverType(g.range(0, 2)), 1e-3, 10);
    for (auto& v : p.seen) { ld nn = 0; for (ld a : v) nn += a * a; REQ(std::fabs(nn - 1) < 1e-12L, "parameters were not normalized before an evaluation"); }
    ld nn = 0; for (int i = 0; i < 4; ++i) nn += ld(x(i)) * x(i); REQ(std::fabs(nn - 1) < 1e-12L, "result is not normalized"); if (it > 20) REQ(ref::rotDist(ref::Q(x(0), x(1), x(2), x(3)), q) < 1e-6L, "did not converge to the rotation");
}
PROP(tukey_weighted, 8000, 300000, "at least one outlier") {
    int n = g.size(1, 3), k = g.range(2, 3), per = n + 4 + g.size(0, 6), m = per * k; LinProb p = genLin(g, m, n, n, false); Math::Vector<double> x(n), y(m); VL sol(n); for (auto& a : sol) a = g.sym(2); VL t = p.f(sol); double c = g.real(0.5, 3); for (int i = 0; i < m; ++i) y(i) = double(t[i]) + g.sym(0.01); int no = g.range(0, 2); for (int i = 0; i < no; ++i) y(g.range(0, m - 1)) += g.real(5, 50); for (int i = 0; i < n; ++i) x(i) = double(sol[i]) + g.sym(0.3); g.nontrivial(no > 0); g.note() << m << "x" << n << " c " << c << " outliers " << no;
    auto weights = [&](const VL& d) { VL w(m); for (int i = 0; i < m; i += k) { ld e = 0; for (int j = 0; j < k; ++j) e += d[i + j] * d[i + j]; ld ro = e > ld(c) * c ? ld(c) * c / 6 : ld(c) * c / 6 * (e / (ld(c) * c)) * (3 - e / (ld(c) * c) * (3 - e / (ld(c) * c))); for (int j = 0; j < k; ++j) w[i + j] = e == 0 ? 0 : 1 / std::sqrt(ro); } return w; };
    auto res = [&](const Math::Vector<double>& q) { VL f = p.f(Prob::in(q)), d(m); for (int i = 0; i < m; ++i) d[i] = ld(y(i)) - f[i]; return d; }; auto err = [&](const Math::Vector<double>& q) { VL d = res(q), w = weights(d); ld s = 0; for (int i = 0; i < m; ++i) s += w[i] * d[i] * d[i]; return s; };
    { Math::Vector<double> d(m), w(m); VL dl = res(x); for (int i = 0; i < m; ++i) d(i) = double(dl[i]); Math::TukeyWeightFunction(k, c).computeWeights(d, w); VL ds(m); for (int i = 0; i < m; ++i) ds[i] = d(i); VL ww = weights(ds); for (int i = 0; i < m; ++i) REQ(std::fabs(w(i) - ww[i]) <= 1e-9L * ww[i] + 1e-12L, "Tukey weight " << i << " is " << w(i) << " expected " << double(ww[i])); }
    ld init = err(x); double r = weightedLevenbergMarquardt(p, x, y, OptTerminate(30, 0), OptNoNormalize(), Math::TukeyWeightFunction(k, c)); ld at = err(x); REQ(std::fabs(at - r) <= 1e-7L * (1 + at), "returned weighted residual " << r << " but the parameters have " << double(at)); REQ(r <= init * (1 + 1e-9L), "weighted residual grew from " << double(init) << " to " << r);
}
PROP(gauss_newton_linear, 10000, 500000, "at least 2 parameters, overdetermined") {
    int n = g.size(1, 6), m = n + g.size(0, 8); LinProb p = genLin(g, m, n, n, false); Math::Vector<double> x(n), y(m); for (int i = 0; i < n; ++i) x(i) = g.nice(5); for (int i = 0; i < m; ++i) y(i) = g.nice(5); g.nontrivial(n > 1 && m > n); int it = g.range(1, 4); gaussNewton(p, x, y, it, OptNoNormalize()); REQ(int(p.seen.size()) == it, p.seen.size() << " evaluations for " << it << " iterations");
    VL rhs(m); for (int i = 0; i < m; ++i) rhs[i] = y(i) - p.b[i]; ref::M z = lsq(p.A, rhs, VL(m, 1)); ld xs = 1; for (int j = 0; j < n; ++j) xs += std::fabs(z(j, 0)); for (int j = 0; j < n; ++j) REQ(std::fabs(x(j) - z(j, 0)) <= 1e-10L * xs, "Gauss-Newton parameter " << j << " is " << x(j) << ", least squares solution " << double(z(j, 0)));
}
PROP(downhill_simplex, 1500, 60000, "at least 2 parameters") {
    int n = g.size(1, 3), m = n + g.size(0, 3); LinProb p = genLin(g, m, n, n, false); p.keep = false; Math::Vector<double> x(n), y(m); for (int i = 0; i < n; ++i) { x(i) = g.nice(3); if (std::fabs(x(i)) < 0.05) x(i) = 0; } for (int i = 0; i < m; ++i) y(i) = g.sym(3); g.note() << m << "x" << n << " A " << p.A << " x " << x(0) << (n > 1 ? x(1) : 0) << " y " << y(0); g.nontrivial(n > 1); ld init = std::sqrt(sq(p, x, y)); g.cls(n == 1 ? "1d" : n == 2 ? "2d" : "3d"); for (int i = 0; i < n; ++i) if (x(i) == 0) g.cls("starts with a zero parameter");
    std::vector<Rec::E> h; int lim = g.oneIn(4) ? g.range(1, 60) : 1500; double r = downhillSimplex(p, x, y, Rec{&h, OptTerminate(lim, 0)}, OptNoNormalize()); ld at = std::sqrt(sq(p, x, y)); REQ(std::fabs(at - r) <= 1e-12L * (1 + at), "returned " << r << " but the parameters have " << double(at)); REQ(r <= init * (1 + 1e-12L), "residual grew from " << double(init) << " to " << r); REQ(!h.empty() && h.back().end, "did not stop by the termination criterion");
    if (lim >= 1500) { VL rhs(m); for (int i = 0; i < m; ++i) rhs[i] = y(i) - p.b[i]; ref::M z = lsq(p.A, rhs, VL(m, 1)); Math::Vector<double> zz(n); for (int j = 0; j < n; ++j) zz(j) = double(z(j, 0)); ld mn = std::sqrt(sq(p, zz, y)); REQ(at <= mn + 1e-3L * (init - mn) + 1e-6L, "simplex stopped at " << double(at) << ", minimum " << double(mn) << ", start " << double(init)); }
}

/// projects on the box the harness gives it, in place or not
struct Box { VL lo, hi; template <class V1, class V2> void evaluate(V1&& r, const V2& x) const { for (std::size_t i = 0; i < lo.size(); ++i) { double v = x(i); r(i) = v < lo[i] ? double(lo[i]) : v > hi[i] ? double(hi[i]) : v; } } };
PROP(downhill_simplex_normalized, 1500, 60000, "the unconstrained minimum is outside") {
    int n = g.size(1, 3), m = n + g.size(0, 3); LinProb p = genLin(g, m, n, n, false); Math::Vector<double> x(n), y(m); Box bx; for (int i = 0; i < n; ++i) { double a = g.nice(3); bx.lo.push_back(a); bx.hi.push_back(a + g.real(0.05, 3)); x(i) = g.oneIn(4) ? double(bx.hi[i]) : double(bx.lo[i] + g.unit() * (bx.hi[i] - bx.lo[i])); if (x(i) > bx.hi[i]) x(i) = bx.hi[i]; if (x(i) < bx.lo[i]) x(i) = bx.lo[i]; } for (int i = 0; i < m; ++i) y(i) = g.sym(3);
    VL rhs(m); for (int i = 0; i < m; ++i) rhs[i] = y(i) - p.b[i]; ref::M z = lsq(p.A, rhs, VL(m, 1)); bool out = false; for (int j = 0; j < n; ++j) out = out || z(j, 0) < bx.lo[j] || z(j, 0) > bx.hi[j]; g.nontrivial(out); ld init = std::sqrt(sq(p, x, y)); g.note() << m << "x" << n; std::vector<Rec::E> h; double r = downhillSimplex(p, x, y, Rec{&h, OptTerminate(g.range(1, 200), 0)}, bx); ld at = std::sqrt(sq(p, x, y)); REQ(std::fabs(at - r) <= 1e-12L * (1 + at), "returned " << r << " but the parameters have " << double(at)); REQ(r <= init * (1 + 1e-12L), "residual grew from " << double(init) << " to " << r);
    for (auto& q : p.seen) for (int i = 0; i < n; ++i) REQ(q[i] >= bx.lo[i] && q[i] <= bx.hi[i], "the function is evaluated at parameters that are not normalized: " << double(q[i]) << " is not in [" << double(bx.lo[i]) << ", " << double(bx.hi[i]) << "]"); for (int i = 0; i < n; ++i) REQ(x(i) >= bx.lo[i] && x(i) <= bx.hi[i], "result is not normalized");
}
