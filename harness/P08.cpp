// P08: dense linear algebra building blocks against a long double reference.
#include "pbt.h"
#include "ut.h"
#include <iterator>
#include <iostream>
#include <list>
#include <utMath/Blas1.h>
#include <utMath/VectorFunctions.h>
#include <utMath/Blas2.h>
#include <utMath/Blas3.h>
#include <utMath/MatrixOperations.h>
#include <utMath/Functors/MatrixFunctors.h>
#include <utMath/Util/cast_assign.h>
using namespace Ubitrack;
typedef long double ld;
namespace {
template <class T> T elem(pbt::Ctx& g) { return T(g.oneIn(8) ? g.nice(3) : g.sym(10)) * (g.oneIn(6) ? T(1e-4) : T(1)); }
template <class T> ld eps() { return std::numeric_limits<T>::epsilon(); }
template <class V> void fillV(pbt::Ctx& g, V& v) { for (std::size_t i = 0; i < v.size(); ++i) v(i) = elem<typename V::value_type>(g); }
template <class M> void fillM(pbt::Ctx& g, M& v) { for (std::size_t i = 0; i < v.size1(); ++i) for (std::size_t j = 0; j < v.size2(); ++j) v(i, j) = elem<typename M::value_type>(g); }
#define NEAR(got, want, tol, what) REQ(std::fabs(ld(got) - ld(want)) <= ld(tol), what << ": got " << double(got) << ", expected " << double(want))

template <class V> void vecOps(pbt::Ctx& g, const V& proto) {
    typedef typename V::value_type T;
    const ld e = eps<T>() * (proto.size() + 4);
    int n = g.size(1, 8);
    std::vector<V> A(n, proto), B(n, proto);
    for (int i = 0; i < n; ++i) { fillV(g, A[i]); fillV(g, B[i]); if (g.oneIn(10)) B[i] = A[i]; }
    g.note() << "dim " << proto.size() << (sizeof(T) == 4 ? " float" : " double") << " n " << n; for (std::size_t k = 0; k < proto.size(); ++k) g.note() << ' ' << A[0](k) << ',' << B[0](k);
    g.nontrivial(proto.size() >= 2);
    std::vector<T> d1, d2, s1, s2; std::vector<V> N(n, proto);
    Math::distance(A.begin(), A.end(), std::back_inserter(d1)); Math::distance(A.begin(), A.end(), B.begin(), std::back_inserter(d2));
    Math::squared_distance(A.begin(), A.end(), std::back_inserter(s1)); Math::squared_distance(A.begin(), A.end(), B.begin(), std::back_inserter(s2));
    Math::normalize(A.begin(), A.end(), N.begin());
    REQ(int(d1.size()) == n && int(d2.size()) == n && int(s1.size()) == n && int(s2.size()) == n, "number of results");
    for (int i = 0; i < n; ++i) {
        const V &a = A[i], &b = B[i]; ld ip = 0, aip = 0, n1 = 0, n2 = 0, dd = 0, mx = 0;
        for (std::size_t k = 0; k < a.size(); ++k) { ld x = a(k), y = b(k); ip += x * y; aip += std::fabs(x * y); n1 += std::fabs(x); n2 += x * x; dd += (x - y) * (x - y); mx += x * x + y * y; }
        NEAR(Math::inner_product(a, b), ip, e * aip, "inner product"); NEAR(Math::InnerProduct()(a), n2, e * n2, "inner product with itself");
        NEAR(Math::norm_1(a), n1, e * n1, "1-norm"); NEAR(Math::norm_2(a), std::sqrt(n2), e * std::sqrt(n2), "2-norm");
        ld t2 = 4 * e * std::sqrt(mx * dd) + e * dd + e * e * mx;
        NEAR(Math::squared_distance(a, b), dd, t2, "squared distance"); NEAR(s2[i], dd, t2, "squared distances"); NEAR(s1[i], n2, e * n2, "squared distances to origin");
        NEAR(Math::distance(a, b), std::sqrt(dd), 4 * e * std::sqrt(mx), "distance"); NEAR(d2[i], std::sqrt(dd), 4 * e * std::sqrt(mx), "distances"); NEAR(d1[i], std::sqrt(n2), e * std::sqrt(n2), "distances to origin");
        if (n2 > 1e-12) { V m = Math::normalize(a); for (std::size_t k = 0; k < a.size(); ++k) { NEAR(m(k), a(k) / std::sqrt(n2), 4 * e, "normalize"); NEAR(N[i](k), a(k) / std::sqrt(n2), 4 * e, "normalize range"); } }
        // equality
        bool eq = true; for (std::size_t k = 0; k < a.size(); ++k) eq = eq && a(k) == b(k);
        REQ((a == b) == eq && (b == a) == eq && (a == V(a)), "equality of vectors");
        V c = a; std::size_t k = g.draw(a.size() - 1); c(k) = std::nextafter(c(k), T(100)); REQ(!(a == c), "vectors differing in element " << k << " compare equal");
    }
}
template <class T, std::size_t N> void fixedVec(pbt::Ctx& g) { vecOps(g, Math::Vector<T, N>()); }
template <class T> void dynVec(pbt::Ctx& g) { vecOps(g, Math::Vector<T, 0>(g.range(1, 12))); }
}  // namespace
PROP(vector_operations, 30000, 1500000, "dimension at least 2") {
    typedef void (*F)(pbt::Ctx&);
    static const F f[] = {fixedVec<double, 1>, fixedVec<double, 2>, fixedVec<double, 3>, fixedVec<double, 4>, fixedVec<double, 6>, fixedVec<double, 8>, fixedVec<float, 2>, fixedVec<float, 3>, fixedVec<float, 4>, dynVec<double>, dynVec<float>};
    f[g.draw(sizeof f / sizeof *f - 1)](g);
}
PROP(vector_order, 20000, 500000, "two different vectors that share a first component") {
    typedef Math::Vector<double, 3> V; V v[3]; for (auto& x : v) for (int i = 0; i < 3; ++i) x(i) = g.range(-1, 1);
    g.note() << v[0](0) << v[0](1) << v[0](2) << ' ' << v[1](0) << v[1](1) << v[1](2);
    g.nontrivial(v[0](0) == v[1](0) && !(v[0] == v[1]));
    auto lex = [](const V& a, const V& b) { for (int i = 0; i < 3; ++i) if (a(i) != b(i)) return a(i) < b(i); return false; };
    const V &a = v[0], &b = v[1];
    REQ((a < b) == lex(a, b) && (b < a) == lex(b, a) && !(a < a), "ordering of vectors");
}
PROP(cross_and_interpolate, 20000, 800000, "vectors not parallel") {
    typedef Math::Vector<double, 3> V; V a, b; fillV(g, a); fillV(g, b);
    V c = Math::cross_product(a, b); ref::V3 w = ref::cross(ut::r(a), ut::r(b)); double s = Math::norm_2(a) * Math::norm_2(b);
    g.note() << a(0) << ' ' << a(1) << ' ' << a(2) << ' ' << b(0) << ' ' << b(1) << ' ' << b(2); g.nontrivial(ref::norm(w) > 1e-3 * s && s > 0);
    for (int i = 0; i < 3; ++i) NEAR(c(i), w[i], 1e-15 * 4 * s, "cross product");
    double t = g.oneIn(5) ? g.range(0, 1) : g.unit(); V l = Math::linearInterpolate(a, b, t);
    for (int i = 0; i < 3; ++i) NEAR(l(i), ld(a(i)) * (1 - ld(t)) + ld(b(i)) * t, 1e-15 * (std::fabs(a(i)) + std::fabs(b(i))), "linear interpolation");
}
namespace {
template <class T, std::size_t M, std::size_t N, std::size_t K> void prods(pbt::Ctx& g) {
    Math::Matrix<T, M, N> A; Math::Matrix<T, N, K> B; Math::Vector<T, N> v; Math::Vector<T, M> u; fillM(g, A); fillM(g, B); fillV(g, v); fillV(g, u);
    g.note() << M << 'x' << N << 'x' << K << (sizeof(T) == 4 ? " float" : " double") << " A00 " << A(0, 0); g.nontrivial(M != N || N != K);
    const ld e = eps<T>() * (N + 3);
    Math::Vector<T, M> w; for (std::size_t i = 0; i < M; ++i) w(i) = T(99);
    Math::product(A, v, w); Math::Vector<T, M> w2 = Math::Product<Math::Matrix<T, M, N>, Math::Vector<T, N>, Math::Vector<T, M> >()(A, v);
    for (std::size_t i = 0; i < M; ++i) { ld s = 0, a = 0; for (std::size_t j = 0; j < N; ++j) { s += ld(A(i, j)) * v(j); a += std::fabs(ld(A(i, j)) * v(j)); } NEAR(w(i), s, e * a, "matrix-vector product"); NEAR(w2(i), s, e * a, "matrix-vector product"); }
    Math::Matrix<T, M, K> C; for (std::size_t i = 0; i < M; ++i) for (std::size_t j = 0; j < K; ++j) C(i, j) = T(77);
    Math::product(A, B, C);
    for (std::size_t i = 0; i < M; ++i) for (std::size_t k = 0; k < K; ++k) { ld s = 0, a = 0; for (std::size_t j = 0; j < N; ++j) { s += ld(A(i, j)) * B(j, k); a += std::fabs(ld(A(i, j)) * B(j, k)); } NEAR(C(i, k), s, e * a, "matrix product (" << i << ',' << k << ')'); }
    Math::Matrix<T, M, N> O = Math::outer_product(u, v), O2; Math::outer_product(u, v, O2);
    for (std::size_t i = 0; i < M; ++i) for (std::size_t j = 0; j < N; ++j) { NEAR(O(i, j), ld(u(i)) * v(j), e * std::fabs(ld(u(i)) * v(j)), "outer product"); REQ(O(i, j) == O2(i, j), "outer product by reference"); }
    // ranges
    int n = g.size(1, 5); std::vector<Math::Matrix<T, M, N> > As; std::vector<Math::Vector<T, N> > vs; for (int i = 0; i < n; ++i) { fillM(g, A); fillV(g, v); As.push_back(A); vs.push_back(v); }
    std::vector<Math::Vector<T, M> > r; Math::product(As.begin(), As.end(), vs.begin(), std::back_inserter(r)); REQ(int(r.size()) == n, "number of products");
    for (int q = 0; q < n; ++q) for (std::size_t i = 0; i < M; ++i) { ld s = 0, a = 0; for (std::size_t j = 0; j < N; ++j) { s += ld(As[q](i, j)) * vs[q](j); a += std::fabs(ld(As[q](i, j)) * vs[q](j)); } NEAR(r[q](i), s, e * a, "matrix-vector products"); }
    std::vector<Math::Vector<T, M> > us; for (int i = 0; i < n; ++i) { fillV(g, u); us.push_back(u); }
    std::vector<Math::Matrix<T, M, N> > os; Math::outer_product(us.begin(), us.end(), vs.begin(), std::back_inserter(os)); REQ(int(os.size()) == n, "number of outer products");
    for (int q = 0; q < n; ++q) for (std::size_t i = 0; i < M; ++i) for (std::size_t j = 0; j < N; ++j) NEAR(os[q](i, j), ld(us[q](i)) * vs[q](j), e * std::fabs(ld(us[q](i)) * vs[q](j)), "outer products");
}
}
PROP(products, 20000, 1000000, "not all dimensions equal") {
    typedef void (*F)(pbt::Ctx&);
    static const F f[] = {prods<double, 2, 2, 2>, prods<double, 3, 3, 3>, prods<double, 4, 4, 4>, prods<double, 2, 3, 4>, prods<double, 3, 4, 2>, prods<double, 4, 2, 3>, prods<double, 1, 3, 2>, prods<double, 3, 1, 3>, prods<float, 3, 3, 3>, prods<float, 3, 4, 4>, prods<double, 6, 6, 6>, prods<double, 2, 6, 1>};
    f[g.draw(sizeof f / sizeof *f - 1)](g);
}
namespace {
ref::M randOrth(pbt::Ctx& g, int n) {
    ref::M m(n, n); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) m(i, j) = g.gauss();
    for (int c = 0; c < n; ++c) {   // Gram-Schmidt (twice), fall back to unit vectors
        for (int rep = 0; rep < 2; ++rep) for (int k = 0; k < c; ++k) { ld d = 0; for (int i = 0; i < n; ++i) d += m(i, k) * m(i, c); for (int i = 0; i < n; ++i) m(i, c) -= d * m(i, k); }
        ld l = 0; for (int i = 0; i < n; ++i) l += m(i, c) * m(i, c); l = std::sqrt(l);
        if (l < 1e-6) { throw pbt::Discard(); }
        for (int i = 0; i < n; ++i) m(i, c) /= l;
    }
    return m;
}
// M x N matrix of given rank, singular values in [lo,hi]
ref::M withRank(pbt::Ctx& g, int M, int N, int rank, double lo, double hi, std::vector<ld>* sv = 0) {
    ref::M U = randOrth(g, M), V = randOrth(g, N), A(M, N);
    for (int k = 0; k < rank; ++k) { ld s = g.logreal(lo, hi); if (sv) sv->push_back(s); for (int i = 0; i < M; ++i) for (int j = 0; j < N; ++j) A(i, j) += s * U(i, k) * V(j, k); }
    return A;
}
using ref::maxAbs;
template <class T, std::size_t N> void inv(pbt::Ctx& g) {
    double sc = g.logreal(1e-3, 1e3); std::vector<ld> sv; ref::M R;
    if (g.oneIn(4)) { R = ref::M(N, N); for (std::size_t i = 0; i < N; ++i) for (std::size_t j = 0; j < N; ++j) R(i, j) = g.range(-3, 3); sc = 1; }   // integer matrices, permutations, zero pivots
    else R = withRank(g, N, N, N, sizeof(T) == 4 ? 0.3 * sc : 1e-2 * sc, sizeof(T) == 4 ? 3 * sc : 10 * sc, &sv);
    Math::Matrix<T, N, N> A; ut::set(A, R); R = ut::rm(A);
    ld det = ref::det(R), mx = maxAbs(R), vol = std::pow(mx, ld(N)) * N * N * 4;
    g.note() << N << 'x' << N << (sizeof(T) == 4 ? " float" : " double") << " scale " << sc << " det " << double(det); g.nontrivial(N >= 2);
    NEAR(Math::determinant(A), det, 50 * eps<T>() * vol, "determinant"); NEAR(Math::Functors::matrix_determinant()(A), det, 50 * eps<T>() * vol, "determinant functor");
    Math::Matrix<T, 0, 0> D(A); NEAR(Math::determinant(D), det, 50 * eps<T>() * vol, "determinant (dynamic)");
    g.assume(std::fabs(det) > 1e-6 * std::pow(mx, ld(N)));
    ref::M W; ref::inverse(R, W); ld wm = maxAbs(W), cond = wm * mx * N;
    Math::Matrix<T, N, N> I1 = Math::invert_matrix(A), I2 = Math::Functors::matrix_inverse()(A); Math::Matrix<T, 0, 0> I3 = Math::invert_matrix(D);
    ld tol = 50 * eps<T>() * cond * wm * N, tol2 = tol * (1 + vol / std::fabs(det));
    for (std::size_t i = 0; i < N; ++i) for (std::size_t j = 0; j < N; ++j) { NEAR(I1(i, j), W(i, j), tol, "inverse (" << i << ',' << j << ')'); NEAR(I2(i, j), W(i, j), tol2, "inverse functor (" << i << ',' << j << ')'); NEAR(I3(i, j), W(i, j), tol, "inverse (dynamic)"); }
    for (std::size_t i = 0; i < N; ++i) for (std::size_t j = 0; j < N; ++j) REQ(A(i, j) == T(R(i, j)), "the argument was changed");
}
template <class T, std::size_t M, std::size_t N> void pinv(pbt::Ctx& g) {
    int k = std::min(M, N), rank = g.coin() ? k : g.range(0, k); double sc = g.logreal(1e-2, 1e2); std::vector<ld> sv;
    ref::M R; 
    if (rank < k && g.coin()) { R = ref::M(M, N); ref::M L(M, rank ? rank : 1), Q(rank ? rank : 1, N); if (rank) for (int a = 0; a < rank; ++a) { for (std::size_t i = 0; i < M; ++i) L(i, a) = g.range(-2, 2); for (std::size_t j = 0; j < N; ++j) Q(a, j) = g.range(-2, 2); } R = L * Q; }   // exactly rank deficient
    else R = withRank(g, M, N, rank, 0.05 * sc, 5 * sc, &sv);
    Math::Matrix<T, M, N> A; ut::set(A, R); R = ut::rm(A);
    // the smallest non-zero singular value must be clearly above rounding
    ref::M S = ref::tr(R) * R; std::vector<ld> ev; ref::M ve; ref::eigSym(S, ev, ve);
    ld big = 0, small = 1e300; for (ld x : ev) big = std::max(big, x); for (ld x : ev) if (x > 1e-13L * big) small = std::min(small, x);
    if (big > 0) g.assume(small > 1e-5 * big);
    g.note() << M << 'x' << N << (sizeof(T) == 4 ? " float" : " double") << " rank " << rank << " scale " << sc << " A00 " << double(R(0, 0)); g.cls(rank == k ? "full rank" : "rank deficient"); g.nontrivial(rank > 0);
    ref::M X = ut::rm(Math::pseudoInvert_matrix(A)); REQ(X.r == int(N) && X.c == int(M), "shape of the pseudo-inverse");
    ref::M XD = ut::rm(Math::pseudoInvert_matrix(Math::Matrix<T, 0, 0>(A))); REQ(XD.r == int(N) && XD.c == int(M), "shape of the dynamic pseudo-inverse");
    ld am = maxAbs(R), cond = big > 0 ? std::sqrt(big / small) : 1, xm = big > 0 ? 1 / std::sqrt(small) : 0, t = 2000 * eps<T>() * cond;
    for (int v = 0; v < 2; ++v) {
        const ref::M& Y = v ? XD : X;
        for (int i = 0; i < Y.r; ++i) for (int j = 0; j < Y.c; ++j) REQ(std::isfinite(double(Y(i, j))) && std::fabs(Y(i, j)) <= 1.01L * xm + t * xm + 1e-300L, "element of the pseudo-inverse out of range: " << double(Y(i, j)) << " bound " << double(xm));
        ref::M AX = R * Y, XA = Y * R;
        REQ(maxAbs(AX * R - R) <= t * am * (M + N), "A X A != A"); REQ(maxAbs(XA * Y - Y) <= t * xm * (M + N), "X A X != X");
        REQ(maxAbs(AX - ref::tr(AX)) <= t * (M + N), "A X not symmetric"); REQ(maxAbs(XA - ref::tr(XA)) <= t * (M + N), "X A not symmetric");
    }
}
}
PROP(determinant_inverse, 20000, 800000, "2x2 or larger, invertible") {
    typedef void (*F)(pbt::Ctx&); static const F f[] = {inv<double, 2>, inv<double, 3>, inv<double, 4>, inv<double, 6>, inv<double, 1>, inv<float, 2>, inv<float, 3>, inv<float, 4>};
    f[g.draw(7)](g);
}
PROP(pseudo_inverse, 12000, 500000, "rank at least 1") {
    typedef void (*F)(pbt::Ctx&); static const F f[] = {pinv<double, 2, 2>, pinv<double, 3, 3>, pinv<double, 2, 3>, pinv<double, 3, 2>, pinv<double, 4, 6>, pinv<double, 6, 4>, pinv<double, 5, 1>, pinv<double, 1, 4>, pinv<float, 3, 4>, pinv<float, 4, 3>};
    f[g.draw(9)](g);
}
namespace {
template <class T, std::size_t M, std::size_t N> void layout(pbt::Ctx& g) {
    T a[M * N]; for (auto& x : a) x = elem<T>(g); Math::Matrix<T, M, N> A(a); g.nontrivial(M != N); g.note() << M << 'x' << N;
    for (std::size_t i = 0; i < M; ++i) for (std::size_t j = 0; j < N; ++j) { REQ(A(i, j) == a[i * N + j], "matrix from row-major array"); REQ(A.content()[j * M + i] == A(i, j), "column-major storage"); }
    REQ(A.size1() == M && A.size2() == N && A.size() == M * N, "size");
    Math::Matrix<T, M, N> Z = Math::Matrix<T, M, N>::zeros(); for (std::size_t i = 0; i < M * N; ++i) REQ(Z.content()[i] == 0, "zero matrix");
    Math::Matrix<T, M, N> B = A; REQ(A == B, "equal matrices"); std::size_t i = g.draw(M - 1), j = g.draw(N - 1); B(i, j) = std::nextafter(B(i, j), T(1000)); REQ(!(A == B), "different matrices compare equal");
    Math::Matrix<T, 0, 0> D(A), D2(B), D3(M + 1, N), Z0 = Math::Matrix<T, 0, 0>::zeros(M, N), I0 = Math::Matrix<T, 0, 0>::identity(M);
    Math::Matrix<T, 0, 0> DA(A); REQ(D == DA && !(D == D2) && !(D == D3), "equality of dynamic matrices");
    for (std::size_t r = 0; r < M; ++r) for (std::size_t c = 0; c < N; ++c) REQ(D(r, c) == A(r, c) && Z0(r, c) == 0, "dynamic copy / zeros");
    REQ(I0.size1() == M && I0.size2() == M, "identity size"); for (std::size_t r = 0; r < M; ++r) for (std::size_t c = 0; c < M; ++c) REQ(I0(r, c) == (r == c), "dynamic identity");
    T b[N]; for (auto& x : b) x = elem<T>(g); Math::Vector<T, N> v(b); for (std::size_t c = 0; c < N; ++c) REQ(v(c) == b[c] && v.content()[c] == b[c] && (Math::Vector<T, N>::zeros()(c) == 0), "vector from array");
    Math::Vector<T, 0> dv(v), dw(N + 1); Math::Vector<T, 0> dv2(v); REQ(dv == dv2 && !(dv == dw), "dynamic vectors"); dw = dv; REQ(dw == dv, "assigned dynamic vector"); dw(N - 1) += T(1); REQ(!(dw == dv), "dynamic vectors differing in the last element compare equal");
    // conversion between precisions
    Math::Matrix<float, M, N> F; Math::Util::matrix_cast_assign(F, A); for (std::size_t r = 0; r < M; ++r) for (std::size_t c = 0; c < N; ++c) REQ(F(r, c) == float(A(r, c)), "matrix cast");
    Math::Vector<float, N> fv; Math::Util::vector_cast_assign(fv, v); for (std::size_t c = 0; c < N; ++c) REQ(fv(c) == float(v(c)), "vector cast");
}
}
PROP(storage_layout, 20000, 500000, "non-square matrix") {
    typedef void (*F)(pbt::Ctx&); static const F f[] = {layout<double, 3, 3>, layout<double, 3, 4>, layout<double, 4, 4>, layout<double, 2, 5>, layout<float, 4, 3>, layout<double, 6, 6>, layout<double, 1, 3>};
    f[g.draw(6)](g);
    Math::Matrix<double, 4, 4> I = Math::Matrix<double, 4, 4>::identity(); for (int r = 0; r < 4; ++r) for (int c = 0; c < 4; ++c) REQ(I(r, c) == (r == c), "identity");
}
namespace {
/// a transformation of left-handed coordinates, converted, is the same transformation of points with mirrored z
template <class T> void handed(pbt::Ctx& g) {
    Math::Matrix<T, 4, 4> A, B; fillM(g, A); B = A; Math::leftHandToRightHandMatrix(B); ld x[4], y[4]; for (int i = 0; i < 4; ++i) x[i] = g.nice(3); bool nt = true;
    for (int i = 0; i < 4; ++i) { y[i] = 0; for (int j = 0; j < 4; ++j) { y[i] += ld(A(i, j)) * x[j]; nt = nt && A(i, j) != 0; } } g.nontrivial(nt && x[2] != 0); g.note() << (sizeof(T) == 4 ? "float " : "double ") << A; y[2] = -y[2]; x[2] = -x[2];
    for (int i = 0; i < 4; ++i) { ld s = 0, m = 1; for (int j = 0; j < 4; ++j) { s += ld(B(i, j)) * x[j]; m += std::fabs(ld(B(i, j)) * x[j]); } NEAR(s, y[i], 1e-17L * m, "component " << i << " of the point transformed by the right-handed matrix"); }
    Math::leftHandToRightHandMatrix(B); for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) REQ(A(i, j) == B(i, j), "converting twice changes element " << i << "," << j);
}
}
PROP(handedness, 5000, 200000, "no element is zero") { if (g.coin()) handed<double>(g); else handed<float>(g); }
