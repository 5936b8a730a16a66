// P09: transformation, projection and normalization of point sets against a long double reference.
#include "pbt.h"
#include "ut.h"
#include <iterator>
#include <iostream>
#include <list>
#include <deque>
#include <utMath/Geometry/PointTransformation.h>
#include <utMath/Geometry/PointProjection.h>
#include <utMath/Geometry/PointNormalization.h>
using namespace Ubitrack;
typedef long double ld;
namespace {
template <class T> T elem(pbt::Ctx& g) { return T(g.oneIn(5) ? g.nice(3) : g.sym(10)) * (g.oneIn(8) ? T(1e-3) : T(1)) * (g.oneIn(8) ? T(300) : T(1)); }
#define NEAR(got, want, tol, what) REQ(std::fabs(ld(got) - ld(want)) <= ld(tol), what << ": got " << double(got) << ", expected " << double(want))

/// homogeneous coordinates that a point of dimension d denotes for a matrix with N columns
template <class V> std::vector<ld> homog(const V& v, int N) {
    int d = int(v.size()); std::vector<ld> h;
    for (int i = 0; i < d; ++i) h.push_back(v(i));
    if (d == N) return h;
    while (int(h.size()) < N - 1) h.push_back(0);   // missing coordinates are zero
    h.push_back(1); return h;
}
template <class T, std::size_t M, std::size_t N> struct Mat { Math::Matrix<T, M, N> m; Mat(pbt::Ctx& g) { for (std::size_t i = 0; i < M; ++i) for (std::size_t j = 0; j < N; ++j) m(i, j) = elem<T>(g); } };

template <class T, std::size_t M, std::size_t N> void aliasImpl(const Math::Matrix<T, M, N>& m, std::vector<Math::Vector<T, M>>& x, const std::vector<Math::Vector<T, M>>& o1) {
    Math::Geometry::transform_points(m, x.begin(), x.end(), x.begin()); for (std::size_t i = 0; i < x.size(); ++i) REQ(x[i] == o1[i], "transforming points in place gives another result");
}
template <class MM, class V> void aliasDispatch(const MM& m, std::vector<V>& x, const std::vector<V>& o) { aliasImpl(m, x, o); }
template <class MM, class V, class W> void aliasDispatch(const MM&, std::vector<V>&, const std::vector<W>&) {}
template <class MM, class X, class O> void alias(const MM& m, X& x, const O& o) { aliasDispatch(m, x, o); }
template <class T, std::size_t M, std::size_t N, std::size_t D> void trans(pbt::Ctx& g) {
    Mat<T, M, N> A(g); int n = g.many(0, 9, 300); typedef Math::Vector<T, D> VI; typedef Math::Vector<T, M> VO;
    std::vector<VI> in(n); for (auto& v : in) for (std::size_t k = 0; k < D; ++k) v(k) = elem<T>(g);
    g.note() << M << 'x' << N << " on " << D << "-vectors, n " << n << (sizeof(T) == 4 ? " float" : " double"); g.nontrivial(n > 0); g.cls(std::to_string(M) + "x" + std::to_string(N) + "*" + std::to_string(D));
    std::vector<VO> o1; std::vector<VO> o2(n); std::list<VI> li(in.begin(), in.end()); std::vector<VO> o3; o3.reserve(n);
    Math::Geometry::transform_points(A.m, in.begin(), in.end(), std::back_inserter(o1));
    Math::Geometry::transform_points(A.m, in.begin(), in.end(), o2.begin());
    Math::Geometry::transform_points(A.m, li.begin(), li.end(), std::back_inserter(o3));
    REQ(int(o1.size()) == n && int(o3.size()) == n, "number of transformed points");
    const ld e = std::numeric_limits<T>::epsilon() * 8;
    for (int i = 0; i < n; ++i) {
        std::vector<ld> h = homog(in[i], N); VO s = Math::Geometry::TransformPoint()(A.m, in[i]);
        for (std::size_t r = 0; r < M; ++r) { ld w = 0, ab = 0; for (std::size_t k = 0; k < N; ++k) { w += ld(A.m(r, k)) * h[k]; ab += std::fabs(ld(A.m(r, k)) * h[k]); }
            NEAR(o1[i](r), w, e * ab, "transformed point " << i << " row " << r); NEAR(o2[i](r), w, e * ab, "transformed point (in place output)"); NEAR(o3[i](r), w, e * ab, "transformed point (list)"); NEAR(s(r), w, e * ab, "single transformed point"); }
    }
    if (D == M && n > 0) { // output over input
        std::vector<VI> x(in); alias(A.m, x, o1); }
}
template <class T, std::size_t N, std::size_t D> void proj(pbt::Ctx& g) {
    Mat<T, 3, N> A(g); int n = g.many(0, 9, 300); typedef Math::Vector<T, D> VI; typedef Math::Vector<T, 2> VO;
    std::vector<VI> in(n); for (auto& v : in) for (std::size_t k = 0; k < D; ++k) v(k) = elem<T>(g);
    g.note() << "3x" << N << " on " << D << "-vectors, n " << n << (sizeof(T) == 4 ? " float" : " double"); g.nontrivial(n > 0); g.cls("3x" + std::to_string(N) + "*" + std::to_string(D));
    std::vector<VO> o1, o3; std::vector<VO> o2(n); std::list<VI> li(in.begin(), in.end());
    Math::Geometry::project_points(A.m, in.begin(), in.end(), std::back_inserter(o1)); Math::Geometry::project_points(A.m, in.begin(), in.end(), o2.begin()); Math::Geometry::project_points(A.m, li.begin(), li.end(), std::back_inserter(o3));
    REQ(int(o1.size()) == n && int(o3.size()) == n, "number of projected points");
    const ld e = std::numeric_limits<T>::epsilon() * 8;
    for (int i = 0; i < n; ++i) {
        std::vector<ld> h = homog(in[i], N); ld w[3], ab[3];
        for (int r = 0; r < 3; ++r) { w[r] = ab[r] = 0; for (std::size_t k = 0; k < N; ++k) { w[r] += ld(A.m(r, k)) * h[k]; ab[r] += std::fabs(ld(A.m(r, k)) * h[k]); } }
        if (std::fabs(w[2]) < 1e-3L * ab[2] || ab[2] == 0) continue;   // on (or next to) the focal plane
        VO s = Math::Geometry::ProjectPoint()(A.m, in[i]); VO f = Math::Geometry::ProjectPoint()(in[i], A.m);
        for (int r = 0; r < 2; ++r) { ld x = w[r] / w[2], tol = 2 * e * (ab[r] / std::fabs(w[2]) + std::fabs(x) * ab[2] / std::fabs(w[2]) + std::fabs(x));
            NEAR(o1[i](r), x, tol, "projected point " << i << " coordinate " << r); NEAR(o2[i](r), x, tol, "projected point"); NEAR(o3[i](r), x, tol, "projected point (list)"); NEAR(s(r), x, tol, "single projected point"); NEAR(f(r), x, tol, "projected point (arguments flipped)"); }
    }
}
template <class T, std::size_t N> void norml(pbt::Ctx& g) {
    typedef Math::Vector<T, N> V; int n = g.many(2, 30, 600); std::vector<V> in(n); V c, s; double off = g.oneIn(3) ? 20 : 2;
    for (std::size_t k = 0; k < N; ++k) { c(k) = T(g.sym(off)); s(k) = T(g.logreal(0.5, 50)); }
    for (int i = 0; i < n; ++i) for (std::size_t k = 0; k < N; ++k) in[i](k) = c(k) + s(k) * T(i == 0 ? -1 + 0.2 * g.unit() : i == 1 ? 1 - 0.2 * g.unit() : g.sym(1));
    g.note() << N << "D, " << n << " points" << (sizeof(T) == 4 ? " float" : " double"); g.nontrivial(n > 2);
    V shift, scale; for (std::size_t k = 0; k < N; ++k) shift(k) = scale(k) = T(77);
    Math::Geometry::estimateNormalizationParameters(in.begin(), in.end(), shift, scale);
    Math::Matrix<T, N + 1, N + 1> F = Math::Geometry::generateNormalizationMatrix(shift, scale, false), B = Math::Geometry::generateNormalizationMatrix(shift, scale, true);
    const ld e = std::numeric_limits<T>::epsilon();
    for (std::size_t k = 0; k < N; ++k) {
        ld m = 0, q = 0, a = 0; for (auto& v : in) { m += v(k); a += std::fabs(ld(v(k))); } m /= n; a /= n; for (auto& v : in) q += (v(k) - m) * (v(k) - m); ld sd = std::sqrt(q / n), ms = m * m + sd * sd;
        NEAR(shift(k), m, 4 * (n + 4) * e * a, "shift is the mean, coordinate " << k);
        NEAR(scale(k), sd, 8 * (n + 4) * e * (ms / sd) + 4 * e * sd, "scale is the standard deviation, coordinate " << k);
    }
    // normalized points have mean 0 and standard deviation 1, and the other matrix is the inverse
    for (std::size_t i = 0; i <= N; ++i) for (std::size_t j = 0; j <= N; ++j) {
        ld w = 0; for (std::size_t k = 0; k <= N; ++k) w += ld(B(i, k)) * ld(F(k, j));
        NEAR(w, ld(i == j), 16 * e * (1 + (i < N ? std::fabs(ld(shift(i))) : 0)), "product of normalization and inverse normalization matrix"); }
    for (std::size_t k = 0; k < N; ++k) { ld m = 0, q = 0, t = std::fabs(ld(shift(k)) / ld(scale(k)));
        for (auto& v : in) { ld x = 0; for (std::size_t j = 0; j < N; ++j) x += ld(F(k, j)) * v(j); x += F(k, N); m += x; q += x * x; }
        NEAR(m / n, 0, 64 * (n + 4) * e * (1 + t), "mean of the normalized points"); NEAR(q / n, 1, 64 * (n + 4) * e * (1 + t) * (1 + t), "variance of the normalized points"); }
}
}  // namespace
PROP(transformation, 60000, 3000000, "at least one point") {
    typedef void (*F)(pbt::Ctx&);
    static const F f[] = {trans<double, 2, 3, 2>, trans<double, 2, 3, 3>, trans<double, 3, 3, 2>, trans<double, 3, 3, 3>, trans<double, 3, 4, 2>, trans<double, 3, 4, 3>, trans<double, 3, 4, 4>, trans<double, 4, 4, 2>, trans<double, 4, 4, 3>, trans<double, 4, 4, 4>,
                          trans<float, 2, 3, 2>, trans<float, 2, 3, 3>, trans<float, 3, 3, 2>, trans<float, 3, 3, 3>, trans<float, 3, 4, 2>, trans<float, 3, 4, 3>, trans<float, 3, 4, 4>, trans<float, 4, 4, 2>, trans<float, 4, 4, 3>, trans<float, 4, 4, 4>};
    f[g.draw(sizeof f / sizeof *f - 1)](g);
}
PROP(projection, 60000, 3000000, "at least one point") {
    typedef void (*F)(pbt::Ctx&);
    static const F f[] = {proj<double, 3, 2>, proj<double, 4, 2>, proj<double, 4, 3>, proj<double, 4, 4>, proj<float, 3, 2>, proj<float, 4, 2>, proj<float, 4, 3>, proj<float, 4, 4>};
    f[g.draw(sizeof f / sizeof *f - 1)](g);
}
PROP(normalization, 30000, 1500000, "more than two points") {
    typedef void (*F)(pbt::Ctx&);
    static const F f[] = {norml<double, 2>, norml<double, 3>, norml<float, 2>, norml<float, 3>, norml<double, 4>};
    f[g.draw(sizeof f / sizeof *f - 1)](g);
}
