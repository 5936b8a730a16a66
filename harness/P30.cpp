// P30: the composable function framework: values and Jacobians of any composition are those of the composed function.
#include "pbt.h"
#include "ut.h"
#include <boost/numeric/ublas/vector_proxy.hpp>
#include <boost/numeric/ublas/matrix_proxy.hpp>
#include <boost/numeric/ublas/io.hpp>
#include <utMath/Optimization/NewFunction/Function.h>
#include <utMath/Optimization/NewFunction/Addition.h>
#include <utMath/Optimization/NewFunction/Subtraction.h>
#include <utMath/Optimization/NewFunction/Dehomogenization.h>
#include <utMath/Optimization/NewFunction/LieRotation.h>
#include <utMath/Optimization/NewFunction/LinearTransformation.h>
#include <utMath/Optimization/NewFunction/StoreIntermediate.h>
#include <utMath/Optimization/NewFunction/VectorNorm.h>
#include <utMath/Optimization/NewFunction/Subtraction.h>   // headers can be included more than once
#include <utMath/Optimization/NewFunction/VectorNorm.h>
#include <utAlgorithm/NewFunction/CameraIntrinsicsMultiplication.h>
using namespace Ubitrack; namespace F = Ubitrack::Math::Optimization::Function; namespace ublas = boost::numeric::ublas;
typedef long double ld; typedef std::vector<ld> VL; typedef Math::Vector<double> VD; typedef Math::Matrix<double> MD;

namespace {
/// one argument of an expression: where it lives in the parameter vector, or its constant value
struct Arg { int kind; std::size_t n, start; VD fixed; };
/// the whole problem: parameter vector layout with gaps, and the arguments
struct Env {
    pbt::Ctx& g; std::vector<Arg> args; std::size_t total; std::vector<VL> gen;
    Env(pbt::Ctx& g_) : g(g_), total(0) {}
    Arg mk(int kind, const VL& v) {
        Arg a; a.kind = kind; a.n = v.size(); a.start = 0; a.fixed = VD(v.size());
        for (std::size_t i = 0; i < v.size(); ++i) a.fixed(i) = double(v[i]);
        if (kind == 0) { total += g.draw(3); a.start = total; total += v.size(); x.resize(total); for (std::size_t i = 0; i < v.size(); ++i) x[a.start + i] = double(v[i]); }
        return a;
    }
    void finish() { std::size_t o = x.size(); total += g.draw(3); x.resize(total); for (std::size_t i = o; i < total; ++i) x[i] = 0; for (auto& e : x) if (e == 0) e = double(g.sym(2)); }
    std::vector<double> x;
};
VL at(const Arg& a, const VL& x) { VL r(a.n); for (std::size_t i = 0; i < a.n; ++i) r[i] = a.kind == 0 ? x[a.start + i] : ld(a.fixed(i)); return r; }

/// calls f with the library's parameter object for an argument (kind 0: optimized, 1: constant by reference, 2: constant copy)
template <std::size_t N, class Fn> void with(const Arg& a, Fn f) {
    if (a.kind == 0) f(F::parameter<N>(a.start)); else if (a.kind == 1) f(F::fixedParameterRef<N>(a.fixed)); else f(F::fixedParameterCopy<N>(a.fixed));
}
VL gv(pbt::Ctx& g, int n, ld m) { VL v(n); for (auto& e : v) e = double(g.nice(m)); return v; }
VL grot(pbt::Ctx& g) {
    ref::V3 d = ref::genVr(g, 1); d[0] += d[0] < 0 ? -0.1L : 0.1L; ld a, nd = ref::norm(d); for (int i = 0; i < 3; ++i) d[i] /= nd;
    switch (g.draw(5)) { case 0: a = 0; break; case 1: a = g.logreal(1e-9L, 1e-4L); break; case 2: a = g.logreal(1e-4L, 0.1L); break; default: a = g.real(0.05L, 6.2L); }
    return VL{ ld(double(a * d[0])), ld(double(a * d[1])), ld(double(a * d[2])) };
}
VL gfar(pbt::Ctx& g, int n) { VL v = gv(g, n, 5); v[n - 1] = double((g.coin() ? 1 : -1) * g.real(0.2L, 8)); return v; }

// reference functions
VL rDehom(const VL& v) { VL r(v.begin(), v.end() - 1); for (auto& e : r) e /= v.back(); return r; }
VL rLin(const MD& A, const VL& v) { VL r(A.size1(), 0); for (std::size_t i = 0; i < A.size1(); ++i) for (std::size_t j = 0; j < A.size2(); ++j) r[i] += ld(A(i, j)) * v[j]; return r; }
VL rAdd(const VL& a, const VL& b, ld s = 1) { VL r(a); for (std::size_t i = 0; i < r.size(); ++i) r[i] += s * b[i]; return r; }
VL rRot(const VL& r, const VL& p) { ref::V3 o = ref::rot(ref::expv(ref::V3{ r[0], r[1], r[2] }), ref::V3{ p[0], p[1], p[2] }); return VL{ o[0], o[1], o[2] }; }
VL rNorm(const VL& v) { ld s = 0; for (ld e : v) s += e * e; return VL{ std::sqrt(s) }; }
VL rCam(const VL& k, const VL& p) { return VL{ -(k[0] * p[0] + k[1] * p[1] + k[2]), -(k[3] * p[1] + k[4]) }; }
ld size(const VL& v) { ld m = 0; for (ld e : v) m = std::max(m, std::fabs(e)); return m; }

/// a function a user of the framework derives himself, with three arguments: a + (s . b) cross-like mix
struct Mix3 : public F::MultiVariateFunction<Mix3, 2> {
    template <class D, class A, class B, class C> void evaluate(D& r, const A& a, const B& b, const C& c) const { r(0) = a(0) * b(1) + c(0) * b(0); r(1) = a(1) * c(0) - b(2) * a(0); }
    template <class L, class J> static void mul(const L& l, J& j, const MD& d) { for (std::size_t r = 0; r < l.size1(); ++r) for (std::size_t c = 0; c < d.size2(); ++c) j(r, c) = l(r, 0) * d(0, c) + l(r, 1) * d(1, c); }
    template <class L, class J, class A, class B, class C> void multiplyJacobian1(const L& l, J& j, const A&, const B& b, const C& c) const { MD d(2, 2); d(0, 0) = b(1); d(0, 1) = 0; d(1, 0) = -b(2); d(1, 1) = c(0); mul(l, j, d); }
    template <class L, class J, class A, class B, class C> void multiplyJacobian2(const L& l, J& j, const A& a, const B&, const C& c) const { MD d(2, 3); d(0, 0) = c(0); d(0, 1) = a(0); d(0, 2) = 0; d(1, 0) = 0; d(1, 1) = 0; d(1, 2) = -a(0); mul(l, j, d); }
    template <class L, class J, class A, class B, class C> void multiplyJacobian3(const L& l, J& j, const A& a, const B& b, const C&) const { MD d(2, 1); d(0, 0) = b(0); d(1, 0) = a(1); mul(l, j, d); }
};
VL rMix(const VL& a, const VL& b, const VL& c) { return VL{ a[0] * b[1] + c[0] * b[0], a[1] * c[0] - b[2] * a[0] }; }

std::vector<bool> used(const Env& e, const std::vector<Arg>& as) { std::vector<bool> u(e.total, false); for (auto& a : as) if (a.kind == 0) for (std::size_t i = 0; i < a.n; ++i) u[a.start + i] = true; return u; }

/// evaluates a bound expression at several parameter vectors, in all three ways, against the reference function
template <class Ex, class Rf> void judge(pbt::Ctx& g, Env& env, const std::vector<Arg>& as, const Ex& ex, Rf rf, const char* name, ld tolScale = 1) {
    std::vector<bool> use = used(env, as); std::size_t np = env.x.size(); if (np == 0) return;
    int rounds = 1 + int(g.draw(2)); std::vector<double> base = env.x;
    for (int round = 0; round < rounds; ++round) {
        std::vector<double> xs = base;
        if (round) for (auto& e : xs) e *= 1 + double(g.sym(0.05L));
        VD x(np); VL xl(np); for (std::size_t i = 0; i < np; ++i) { x(i) = xs[i]; xl[i] = xs[i]; }
        VL want = rf(xl); std::size_t m = want.size(); ref::M WJ = ref::jac([&](const VL& p) { return rf(p); }, xl, 2e-4L);
        ld sv = 1; for (ld w : want) sv = std::max(sv, std::fabs(w)); ld sj = 1; for (ld w : WJ.d) sj = std::max(sj, std::fabs(w));
        { ref::M W2 = ref::jac([&](const VL& p) { return rf(p); }, xl, 1e-4L); bool close = true; for (std::size_t i = 0; i < W2.d.size(); ++i) close = close && std::fabs(W2.d[i] - WJ.d[i]) <= 3e-9L * tolScale * sj; if (!close) { g.cls("numerical derivative not reliable here"); continue; } }
        REQ(ex.size() == m, name << ": size() is " << ex.size() << " instead of " << m);
        int mode = int(g.draw(3)); const double mark = 12345.0625;
        VD r(m); MD j(m, np); for (std::size_t i = 0; i < m; ++i) { r(i) = mark; for (std::size_t k = 0; k < np; ++k) j(i, k) = mark; }
        bool hv = false, hj = false;
        if (mode == 0) { ex.evaluate(x, r); hv = true; } else if (mode == 1) { ex.jacobian(x, j); hj = true; } else if (mode == 2) { ex.evaluateWithJacobian(x, r, j); hv = hj = true; }
        else { ex.evaluateWithJacobian(x, r, j); Ex copy(ex); VD r2(m); copy.evaluate(x, r2); for (std::size_t i = 0; i < m; ++i) REQ(r2(i) == r(i), name << ": a copy of the expression evaluates differently"); hv = hj = true; }
        for (std::size_t i = 0; i < np; ++i) REQ(x(i) == xs[i], name << ": the parameter vector was changed");
        if (hv) for (std::size_t i = 0; i < m; ++i) REQ(std::fabs(ld(r(i)) - want[i]) <= 1e-12L * tolScale * sv, name << ": value " << i << " is " << double(r(i)) << " instead of " << double(want[i]) << " (round " << round << ", mode " << mode << ")");
        if (hj) for (std::size_t i = 0; i < m; ++i) for (std::size_t k = 0; k < np; ++k) {
            if (use[k]) REQ(std::fabs(ld(j(i, k)) - WJ(int(i), int(k))) <= 3e-8L * tolScale * sj, name << ": derivative (" << i << "," << k << ") is " << double(j(i, k)) << " instead of " << double(WJ(int(i), int(k))) << " (round " << round << ", mode " << mode << ")");
            else REQ(j(i, k) == mark, name << ": the column " << k << " of a parameter that does not occur was written");
        }
    }
}
int kind(pbt::Ctx& g) { int k = int(g.draw(3)); return k > 2 ? 0 : k; }   // half the arguments are optimized
template <std::size_t N, std::size_t K> Math::Matrix<double, N, K> gm(pbt::Ctx& g) { Math::Matrix<double, N, K> A; for (std::size_t i = 0; i < N; ++i) for (std::size_t j = 0; j < K; ++j) A(i, j) = double(g.nice(3)); return A; }
template <class A> MD dyn(const A& a) { MD m(a.size1(), a.size2()); for (std::size_t i = 0; i < a.size1(); ++i) for (std::size_t j = 0; j < a.size2(); ++j) m(i, j) = a(i, j); return m; }
}

template <std::size_t N> void dehom(pbt::Ctx& g) { Env e(g); Arg a = e.mk(0, gfar(g, N)); e.finish(); with<N>(a, [&](auto p) { judge(g, e, {a}, F::Dehomogenization<N>() << p, [&](const VL& x) { return rDehom(at(a, x)); }, "Dehomogenization", 10); }); }
template <std::size_t N> void norm(pbt::Ctx& g) { Env e(g); VL v = gv(g, N, 5); if (size(v) < 0.1L) v[0] = 1; Arg a = e.mk(0, v); e.finish(); with<N>(a, [&](auto p) { judge(g, e, {a}, F::VectorNorm<N>() << p, [&](const VL& x) { return rNorm(at(a, x)); }, "VectorNorm", 10); }); }
template <std::size_t M, std::size_t N> void lin(pbt::Ctx& g) { Env e(g); Arg a = e.mk(0, gv(g, N, 5)); e.finish(); auto A = gm<M, N>(g); MD D = dyn(A); with<N>(a, [&](auto p) { judge(g, e, {a}, F::LinearTransformation<M, N>(A) << p, [&](const VL& x) { return rLin(D, at(a, x)); }, "LinearTransformation"); }); }

PROP(single_functions, 6000, 60000, "at least one argument is an optimized parameter")
{
    g.nontrivial();
    switch (g.draw(8)) {
    case 0: switch (g.draw(2)) { case 0: dehom<3>(g); break; case 1: dehom<2>(g); break; default: dehom<4>(g); } break;
    case 1: switch (g.draw(2)) { case 0: norm<3>(g); break; case 1: norm<2>(g); break; default: norm<5>(g); } break;
    case 2: switch (g.draw(3)) { case 0: lin<3, 3>(g); break; case 1: lin<2, 3>(g); break; case 2: lin<4, 2>(g); break; default: lin<1, 3>(g); } break;
    case 3: { Env e(g); Arg a = e.mk(kind(g), gv(g, 3, 5)), b = e.mk(kind(g), gv(g, 3, 5)); e.finish(); with<3>(a, [&](auto p) { with<3>(b, [&](auto q) { judge(g, e, {a, b}, F::Addition<3>() << p << q, [&](const VL& x) { return rAdd(at(a, x), at(b, x)); }, "Addition"); }); }); break; }
    case 4: { Env e(g); Arg a = e.mk(kind(g), gv(g, 2, 5)), b = e.mk(kind(g), gv(g, 2, 5)); e.finish(); with<2>(a, [&](auto p) { with<2>(b, [&](auto q) { judge(g, e, {a, b}, F::Subtraction<2>() << p << q, [&](const VL& x) { return rAdd(at(a, x), at(b, x), -1); }, "Subtraction"); }); }); break; }
    case 5: case 6: { Env e(g); Arg a = e.mk(kind(g), grot(g)), b = e.mk(kind(g), gv(g, 3, 5)); e.finish(); with<3>(a, [&](auto p) { with<3>(b, [&](auto q) { judge(g, e, {a, b}, F::LieRotation() << p << q, [&](const VL& x) { return rRot(at(a, x), at(b, x)); }, "LieRotation", 100); }); }); break; }
    case 7: { Env e(g); Arg a = e.mk(kind(g), gv(g, 5, 500)), b = e.mk(kind(g), gv(g, 2, 2)); e.finish(); with<5>(a, [&](auto p) { with<2>(b, [&](auto q) { judge(g, e, {a, b}, Algorithm::Function::CameraIntrinsicsMultiplication() << p << q, [&](const VL& x) { return rCam(at(a, x), at(b, x)); }, "CameraIntrinsicsMultiplication"); }); }); break; }
    default: { Env e(g); Arg a = e.mk(kind(g), gv(g, 2, 3)), b = e.mk(kind(g), gv(g, 3, 3)), c = e.mk(kind(g), gv(g, 1, 3)); e.finish(); with<2>(a, [&](auto p) { with<3>(b, [&](auto q) { with<1>(c, [&](auto s) { judge(g, e, {a, b, c}, Mix3() << p << q << s, [&](const VL& x) { return rMix(at(a, x), at(b, x), at(c, x)); }, "user function of three arguments"); }); }); }); }
    }
}

PROP(compositions, 4000, 40000, "the composed expression has at least two optimized arguments")
{
    using Algorithm::Function::CameraIntrinsicsMultiplication;
    Env e(g); int form = int(g.draw(5)); int free = 0; auto K = [&] { int k = kind(g); free += k == 0; return k; };
    if (form == 0) {   // a full camera: intrinsics( dehomogenize( R_c ( t + rot(r, p) ) + t_c ) )
        ref::Q rc = ref::genQuniform(g); auto Rm = ref::rotM(rc); Math::Matrix<double, 3, 3> R; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) R(i, j) = double(Rm(i, j)); MD D = dyn(R);
        Arg k = e.mk(K(), gv(g, 5, 500)), t = e.mk(0, gv(g, 3, 2)), r = e.mk(0, grot(g)), p = e.mk(g.coin() ? 0 : 1, gv(g, 3, 2)), tc = e.mk(g.coin() ? 1 : 2, gv(g, 3, 2)); e.finish();
        auto rf = [&](const VL& x) { return rCam(at(k, x), rDehom(rAdd(rLin(D, rAdd(at(t, x), rRot(at(r, x), at(p, x)))), at(tc, x)))); };
        VL xl(e.x.begin(), e.x.end()); VL cam = rAdd(rLin(D, rAdd(at(t, xl), rRot(at(r, xl), at(p, xl)))), at(tc, xl)); g.assume(std::fabs(cam[2]) > 0.5L);
        with<5>(k, [&](auto pk) { with<3>(p, [&](auto pp) { with<3>(tc, [&](auto pt) {
            judge(g, e, {k, t, r, p, tc}, CameraIntrinsicsMultiplication() << pk << (F::Dehomogenization<3>() << (F::Addition<3>() << (F::LinearTransformation<3, 3>(R) << (F::Addition<3>() << F::parameter<3>(t.start) << (F::LieRotation() << F::parameter<3>(r.start) << pp))) << pt)), rf, "camera projection", 3000); }); }); });
        free = 2;
    } else if (form == 1) {   // distance of a projected point to a measurement
        auto A = gm<3, 3>(g); MD D = dyn(A); Arg p = e.mk(0, gfar(g, 3)), m = e.mk(K(), gv(g, 2, 2)); e.finish();
        auto rf = [&](const VL& x) { return rNorm(rAdd(rDehom(rLin(D, at(p, x))), at(m, x), -1)); };
        VL xl(e.x.begin(), e.x.end()); VL h = rLin(D, at(p, xl)); g.assume(std::fabs(h[2]) > 0.5L); g.assume(rf(xl)[0] > 0.1L); free++;
        with<2>(m, [&](auto pm) { judge(g, e, {p, m}, F::VectorNorm<2>() << (F::Subtraction<2>() << (F::Dehomogenization<3>() << (F::LinearTransformation<3, 3>(A) << F::parameter<3>(p.start))) << pm), rf, "norm of residual", 3000); });
    } else if (form == 2) {   // rotation of a difference by a linearly transformed rotation vector, in both argument positions computed
        auto A = gm<3, 2>(g); MD D = dyn(A); for (std::size_t i = 0; i < 3; ++i) for (std::size_t j = 0; j < 2; ++j) { A(i, j) /= 4; D(i, j) = A(i, j); }
        Arg a = e.mk(K(), gv(g, 2, 2)), b = e.mk(K(), gv(g, 3, 3)), c = e.mk(K(), gv(g, 3, 3)); e.finish();
        auto rf = [&](const VL& x) { return rRot(rLin(D, at(a, x)), rAdd(at(b, x), at(c, x), -1)); };
        with<2>(a, [&](auto pa) { with<3>(b, [&](auto pb) { with<3>(c, [&](auto pc) { judge(g, e, {a, b, c}, F::LieRotation() << (F::LinearTransformation<3, 2>(A) << pa) << (F::Subtraction<3>() << pb << pc), rf, "rotation of a difference", 300); }); }); });
    } else if (form == 3) {   // a scalar (norm) spread over several outputs
        auto A = gm<3, 1>(g); MD D = dyn(A); VL v = gv(g, 3, 4); v[0] = double(g.real(0.5L, 4)); Arg a = e.mk(0, v), b = e.mk(K(), gv(g, 3, 3)); e.finish(); ++free;
        auto rf = [&](const VL& x) { return rAdd(rLin(D, rNorm(at(a, x))), at(b, x)); };
        with<3>(b, [&](auto pb) { judge(g, e, {a, b}, F::Addition<3>() << (F::LinearTransformation<3, 1>(A) << (F::VectorNorm<3>() << F::parameter<3>(a.start))) << pb, rf, "norm times vector", 30); });
    } else if (form == 4) {   // three-argument user function with computed arguments
        auto A = gm<2, 3>(g); MD D = dyn(A); VL v = gv(g, 2, 3); v[1] = double(g.real(0.5L, 3)); Arg a = e.mk(K(), gv(g, 3, 2)), b = e.mk(K(), gv(g, 3, 2)), b2 = e.mk(K(), gv(g, 3, 2)), c = e.mk(0, v); e.finish(); ++free;
        auto rf = [&](const VL& x) { return rMix(rLin(D, at(a, x)), rAdd(at(b, x), at(b2, x)), rNorm(at(c, x))); };
        with<3>(a, [&](auto pa) { with<3>(b, [&](auto pb) { with<3>(b2, [&](auto pb2) { judge(g, e, {a, b, b2, c}, Mix3() << (F::LinearTransformation<2, 3>(A) << pa) << (F::Addition<3>() << pb << pb2) << (F::VectorNorm<2>() << F::parameter<2>(c.start)), rf, "three computed arguments", 300); }); }); });
    } else {   // an intermediate result is stored
        auto A = gm<3, 3>(g); MD D = dyn(A); Math::Vector<double, 3> store; for (int i = 0; i < 3; ++i) store(i) = -77; Arg p = e.mk(0, gfar(g, 3)), q = e.mk(K(), gv(g, 3, 2)); e.finish(); ++free;
        auto inner = [&](const VL& x) { return rAdd(rLin(D, at(p, x)), at(q, x)); }; auto rf = [&](const VL& x) { return rDehom(inner(x)); };
        VL xl(e.x.begin(), e.x.end()); g.assume(std::fabs(inner(xl)[2]) > 0.5L);
        with<3>(q, [&](auto pq) {
            auto ex = F::Dehomogenization<3>() << (F::StoreIntermediate<3>(store) << (F::Addition<3>() << (F::LinearTransformation<3, 3>(A) << F::parameter<3>(p.start)) << pq));
            judge(g, e, {p, q}, ex, rf, "stored intermediate", 3000);
            VD x(xl.size()); for (std::size_t i = 0; i < xl.size(); ++i) x(i) = double(xl[i]); VD r(2); VL w = inner(xl); ex.evaluate(x, r);
            // part of the stored result is outdated: it is replaced as a whole
            for (int i = 0; i < 3; ++i) if (g.coin()) store(i) = -77;
            bool jac = g.coin(); if (jac) { MD j(2, xl.size()); ex.jacobian(x, j); } else ex.evaluate(x, r);
            for (int i = 0; i < 3; ++i) REQ(std::fabs(ld(store(i)) - w[i]) <= 1e-11L * (1 + size(w)), "stored intermediate: component " << i << " is " << store(i) << " instead of " << double(w[i])); });
    }
    if (free >= 2) g.nontrivial();
}

PROP(constant_references, 500, 5000, "the referenced constant is changed between evaluations")
{
    // a constant by reference follows the referenced vector, a copied constant does not
    Env e(g); Arg a = e.mk(0, gv(g, 3, 4)); e.finish(); VL c0 = gv(g, 3, 4), c1 = gv(g, 3, 4); VD c(3); for (int i = 0; i < 3; ++i) c(i) = double(c0[i]);
    auto er = F::Subtraction<3>() << F::parameter<3>(a.start) << F::fixedParameterRef<3>(c); auto ec = F::Subtraction<3>() << F::parameter<3>(a.start) << F::fixedParameterCopy<3>(c);
    VD x(e.x.size()); for (std::size_t i = 0; i < e.x.size(); ++i) x(i) = e.x[i];
    for (int round = 0; round < 2; ++round) {
        if (round) for (int i = 0; i < 3; ++i) c(i) = double(c1[i]);
        VD r(3), s(3); er.evaluate(x, r); ec.evaluate(x, s);
        for (int i = 0; i < 3; ++i) { REQ(r(i) == x(a.start + i) - c(i), "fixedParameterRef: component " << i << " is " << r(i)); REQ(s(i) == x(a.start + i) - double(c0[i]), "fixedParameterCopy: component " << i << " is " << s(i)); }
    }
    if (c0 != c1) g.nontrivial();
}
