// P15: averages, covariances, correlations, distances and random generators give the documented statistics.
#include "pbt.h"
#include "ut.h"
#include <algorithm>
#include <cmath>
#include <iostream>
#include <list>
#include <sstream>
#include <utAlgorithm/Correlation.h>
#include <utMath/Scalar.h>
#include <utMath/ErrorVector.h>
#include <utMath/ErrorPose.h>
#include <utMath/Stochastic/Average.h>
#include <utMath/Stochastic/Correlation.h>
#include <utMath/Stochastic/Gaussian.h>
#include <utMath/Stochastic/MahalanobisDistance.h>
#include <utMath/Stochastic/Weighted.h>
#include <utMath/Random/Scalar.h>
#include <utMath/Random/Vector.h>
#include <utMath/Random/Matrix.h>
#include <utMath/Random/Rotation.h>
#include <utMath/Random/Pose.h>
using namespace Ubitrack; namespace MS = Ubitrack::Math::Stochastic; namespace MR = Ubitrack::Math::Random; typedef long double ld;
namespace {
template <class T> ld eps() { return sizeof(T) == 4 ? 6e-7L : 1e-15L; }
template <class T> void near(T got, ld want, ld tol, const char* what) { REQ(std::fabs(ld(got) - want) <= tol, what << ": " << double(got) << ", expected " << double(want) << " (tolerance " << double(tol) << ")"); }
struct Quiet { std::streambuf* b; std::ostringstream s; Quiet() { b = std::cout.rdbuf(s.rdbuf()); } ~Quiet() { std::cout.rdbuf(b); } };
template <class T, std::size_t N> std::vector<Math::Vector<T, N> > data(pbt::Ctx& g, int n, ld& mag) { std::vector<Math::Vector<T, N> > v(n); double m = g.logreal(1e-3, 1e3); Math::Vector<T, N> off; for (std::size_t i = 0; i < N; ++i) off(i) = T(g.coin() ? 0 : g.nice(10) * m); mag = 0; bool same = g.oneIn(8); for (int k = 0; k < n; ++k) for (std::size_t i = 0; i < N; ++i) { v[k](i) = same && k ? v[0](i) : T(off(i) + T(g.nice(m))); mag = std::max<ld>(mag, std::fabs(v[k](i))); } g.note() << n << " vectors of size " << N << ", magnitude " << double(mag) << "; "; return v; }
template <class V> void meanCov(const std::vector<V>& v, const std::vector<ld>& w, std::vector<ld>& m, ref::M& C) { int N = int(v[0].size()); m.assign(N, 0); C = ref::M(N, N); for (std::size_t k = 0; k < v.size(); ++k) for (int i = 0; i < N; ++i) m[i] += w[k] * v[k](i); for (std::size_t k = 0; k < v.size(); ++k) for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) C(i, j) += w[k] * (v[k](i) - m[i]) * (v[k](j) - m[j]); }
template <class T, std::size_t N> void averages(pbt::Ctx& g) {
    int n = g.many(1, 30, 400); ld mag; auto v = data<T, N>(g, n, mag); g.nontrivial(n > 1); std::vector<ld> m; ref::M C; meanCov(v, std::vector<ld>(n, 1.0L / n), m, C); ld e = (n + 10) * eps<T>();
    MS::Average<Math::Vector<T, N> > a; if (g.coin()) a = std::for_each(v.begin(), v.end(), a); else { std::list<Math::Vector<T, N> > l(v.begin(), v.end()); a = std::for_each(l.begin(), l.end(), a); } Math::Vector<T, N> r = a.getAverage(); for (std::size_t i = 0; i < N; ++i) near(r(i), m[i], e * mag, "average of vectors");
    MS::Average<Math::ErrorVector<T, N> > b; for (auto& x : v) b(x); Math::ErrorVector<T, N> ev = b.getAverage(); for (std::size_t i = 0; i < N; ++i) { near(ev.value(i), m[i], e * mag, "average with covariance"); for (std::size_t j = 0; j < N; ++j) near(ev.covariance(i, j), C(i, j), 3 * e * mag * mag, "covariance of vectors"); }
    // asking again, and after more data
    Math::Vector<T, N> again = a.getAverage(); for (std::size_t i = 0; i < N; ++i) REQ(again(i) == r(i), "asking for the average changes it"); auto more = v; more.push_back(v[0]); a(v[0]); meanCov(more, std::vector<ld>(n + 1, 1.0L / (n + 1)), m, C); r = a.getAverage(); for (std::size_t i = 0; i < N; ++i) near(r(i), m[i], e * mag, "average after another measurement");
}
template <class T> void scalars(pbt::Ctx& g) {
    int n = g.many(1, 40, 2000); double m = g.logreal(1e-3, 1e3); ld s = 0, mag = 0; MS::Average<T> a; MS::Average<Math::Scalar<T> > b; std::vector<T> v; for (int i = 0; i < n; ++i) { T x = T(g.nice(m)); v.push_back(x); s += x; mag = std::max<ld>(mag, std::fabs(x)); b(Math::Scalar<T>(x)); } a = std::for_each(v.begin(), v.end(), a); g.nontrivial(n > 1); near(T(a.getAverage()), s / n, (n + 5) * eps<T>() * mag, "average of numbers"); near(T(b.getAverage()), s / n, (n + 5) * eps<T>() * mag, "average of scalars"); }
}
PROP(averages_of_vectors, 2000, 100000, "more than one value") { switch (g.range(0, 7)) { case 0: averages<double, 2>(g); break; case 1: averages<double, 3>(g); break; case 2: averages<double, 4>(g); break; case 3: averages<float, 2>(g); break; case 4: averages<float, 3>(g); break; case 5: averages<double, 7>(g); break; case 6: scalars<double>(g); break; default: scalars<float>(g); } }
PROP(averages_of_rotations_and_poses, 2500, 150000, "more than one rotation") {
    int n = g.many(1, 20, 300); ref::Q c = ref::genQ(g); double spread = g.oneIn(4) ? g.logreal(1e-9, 1e-2) : g.real(0.01, 1.35); std::vector<ref::Q> q; std::vector<ref::V3> t; std::vector<Math::Pose> poses; std::vector<Math::Quaternion> qs; double mt = g.logreal(1e-2, 1e2); bool flips = g.coin();
    for (int i = 0; i < n; ++i) { ref::V3 ax(g.nice(1), g.nice(1), g.nice(1)); if (ref::norm(ax) < 0.01L) ax = ref::V3(1, 0, 0); ref::Q x = ref::unit(c * ref::axisAngle(ax, g.oneIn(6) ? 0 : g.sym(spread))); if (flips && g.coin()) x = ref::Q(-x.x, -x.y, -x.z, -x.w); qs.push_back(ut::q(x)); q.push_back(ut::r(qs.back())); t.push_back(ut::r(ut::v(ref::V3(g.nice(mt), g.nice(mt), g.nice(mt))))); poses.push_back(Math::Pose(qs.back(), ut::v(t.back()))); }
    g.nontrivial(n > 1); g.cls(std::fabs(c.w) < 0.3L ? "near half turns" : "ordinary"); g.note() << n << " rotations spread " << spread << " centre w " << double(c.w);
    // reference: all in the hemisphere of the centre
    ref::Q s(0, 0, 0, 0); ref::V3 ts; for (int i = 0; i < n; ++i) { ld d = q[i].x * c.x + q[i].y * c.y + q[i].z * c.z + q[i].w * c.w; ld k = d < 0 ? -1 : 1; s = ref::Q(s.x + k * q[i].x, s.y + k * q[i].y, s.z + k * q[i].z, s.w + k * q[i].w); ts = ts + (1.0L / n) * t[i]; } ref::Q m = ref::unit(s); const ld tol = 1e-12L;
    MS::Average<Math::Quaternion> a; a = std::for_each(qs.begin(), qs.end(), a); ref::Q r = ut::r(a.getAverage()); REQ(std::fabs(ref::norm(r) - 1) < tol, "average rotation is not a unit quaternion"); REQ(ref::rotDist(r, m) < tol * 10, "average rotation is off by " << double(ref::rotDist(r, m)) << " rad");
    MS::Average<Math::Pose> b; b = std::for_each(poses.begin(), poses.end(), b); ref::P p = ut::r(b.getAverage()); REQ(ref::rotDist(p.q, m) < tol * 10, "rotation of the average pose is off by " << double(ref::rotDist(p.q, m)) << " rad"); REQ(ref::norm(p.t - ts) < 1e-13L * mt * n, "translation of the average pose is off by " << double(ref::norm(p.t - ts)));
    MS::Average<Math::ErrorPose> e; e = std::for_each(poses.begin(), poses.end(), e); Math::ErrorPose ep = e.getAverage(); REQ(ref::rotDist(ut::r(ep.rotation()), m) < tol * 10, "rotation of the average pose with covariance is off"); REQ(ref::norm(ut::r(ep.translation()) - ts) < 1e-13L * mt * n, "translation of the average pose with covariance is off");
    ref::M C(6, 6); for (int i = 0; i < n; ++i) { ref::Q x = ref::conj(m) * q[i]; if (x.w < 0) x = ref::Q(-x.x, -x.y, -x.z, -x.w); ld y[6] = {t[i][0] - ts[0], t[i][1] - ts[1], t[i][2] - ts[2], x.x, x.y, x.z}; for (int k = 0; k < 6; ++k) for (int l = 0; l < 6; ++l) C(k, l) += y[k] * y[l] / n; }
    ref::M G = ut::rm(ep.covariance()); for (int k = 0; k < 6; ++k) for (int l = 0; l < 6; ++l) { ld sc = (k < 3 ? mt : 1) * (l < 3 ? mt : 1); REQ(std::fabs(G(k, l) - C(k, l)) < 1e-13L * sc * (n + 5), "covariance (" << k << "," << l << ") of the average pose is " << double(G(k, l)) << ", expected " << double(C(k, l))); } }
namespace {
template <class T> void corr(pbt::Ctx& g) {
    int n = g.many(2, 30, 500); double m = g.logreal(1e-3, 1e3); std::vector<T> a, b; bool lin = g.oneIn(4); double k = g.coin() ? g.real(0.1, 5) : -g.real(0.1, 5), o = g.nice(1); for (int i = 0; i < n; ++i) { a.push_back(T(m * g.nice(1))); b.push_back(lin ? T(k * a.back() + o * m) : T(m * g.nice(2))); } int n1 = n, n2 = n; if (g.coin()) { int ex = g.range(1, 5); auto& x = g.coin() ? a : b; for (int i = 0; i < ex; ++i) x.push_back(T(m * g.nice(50))); n1 = a.size(); n2 = b.size(); }
    ld ma = 0, mb = 0; for (int i = 0; i < n; ++i) { ma += a[i]; mb += b[i]; } ma /= n; mb /= n; ld sab = 0, saa = 0, sbb = 0; for (int i = 0; i < n; ++i) { sab += (a[i] - ma) * (b[i] - mb); saa += (a[i] - ma) * (a[i] - ma); sbb += (b[i] - mb) * (b[i] - mb); } g.assume(saa > 1e-2L * m * m && sbb > 1e-2L * m * m); ld want = sab / std::sqrt(saa * sbb), e = 1000 * n * eps<T>(); g.nontrivial(n > 2); g.cls(lin ? "linear" : "general"); T r; std::list<T> la(a.begin(), a.end()), lb(b.begin(), b.end()); if (g.coin()) r = MS::correlation(a.begin(), a.end(), b.begin(), b.end()); else r = MS::correlation(la.begin(), la.end(), lb.begin(), lb.end()); near(r, want, e, "correlation"); REQ(std::fabs(ld(r)) <= 1 + e, "correlation outside [-1,1]"); if (lin) near(r, k > 0 ? 1 : -1, std::max<ld>(e, 0), "correlation of linearly dependent data"); near(MS::correlation(b.begin(), b.end(), a.begin(), a.end()), r, e, "correlation is not symmetric"); std::vector<double> da(a.begin(), a.end()), db(b.begin(), b.end()); near(Ubitrack::Algorithm::computeCorrelation(da, db), want, e, "computeCorrelation"); (void)n1; (void)n2; }
template <class T, std::size_t N> void gauss(pbt::Ctx& g) {
    int n = g.many(1, 25, 300); ld mag; auto v = data<T, N>(g, n, mag); g.nontrivial(n > 1); std::vector<ld> m; ref::M C; ld e = (n + 10) * 3 * eps<T>(); MS::Gaussian<T, N> G; for (std::size_t i = 0; i < N; ++i) G.mean[i] = T(7); for (std::size_t i = 0; i < N * N; ++i) G.covariance[i] = T(-3); G.variance = G.standardDeviation = T(5); Quiet q;
    auto judge = [&](const char* what) { ld tr = 0; for (std::size_t i = 0; i < N; ++i) { near(G.mean[i], m[i], e * mag, what); tr += C(i, i); for (std::size_t j = 0; j < N; ++j) { near(G.covariance[i * N + j], C(i, j), 4 * e * mag * mag, what); REQ(G.covariance[i * N + j] == G.covariance[j * N + i], what << ": covariance is not symmetric"); } } near(G.variance, tr, 4 * N * e * mag * mag, what); near(ld(G.standardDeviation) * G.standardDeviation, tr, 5 * N * e * mag * mag, what); REQ(G.standardDeviation >= 0, what << ": standard deviation"); };
    switch (g.range(0, 2)) {
    case 0: { g.cls("plain"); REQ(MS::estimate_gaussian(v.begin(), v.end(), G), "estimate_gaussian failed"); meanCov(v, std::vector<ld>(n, 1.0L / n), m, C); judge("gaussian"); break; }
    case 1: { g.cls("weighted"); std::vector<T> w(n); ld s = 0; for (auto& x : w) { x = g.oneIn(5) ? T(0) : T(g.real(0.1, 1)); s += x; } g.assume(s > 0); std::vector<ld> wl; for (auto& x : w) { x = T(x / s); wl.push_back(x); } REQ(MS::estimate_gaussian(v.begin(), v.end(), w.begin(), G), "weighted estimate_gaussian failed"); meanCov(v, wl, m, C); judge("weighted gaussian"); break; }
    default: { g.cls("indexed"); std::vector<std::size_t> idx(n); for (auto& x : idx) x = g.range(0, 3); std::size_t sel = idx[g.range(0, n - 1)]; std::vector<Math::Vector<T, N> > part; for (int i = 0; i < n; ++i) if (idx[i] == sel) part.push_back(v[i]); REQ(MS::estimate_gaussian_index(v.begin(), v.end(), idx.begin(), sel, G), "indexed estimate_gaussian failed"); meanCov(part, std::vector<ld>(part.size(), 1.0L / part.size()), m, C); judge("gaussian of selected values"); } }
    MS::reset(G); for (std::size_t i = 0; i < N; ++i) REQ(G.mean[i] == 0, "reset"); for (std::size_t i = 0; i < N * N; ++i) REQ(G.covariance[i] == 0, "reset"); REQ(G.variance == 0 && G.standardDeviation == 0, "reset"); std::vector<Math::Vector<T, N> > none; REQ(!MS::estimate_gaussian(none.begin(), none.end(), G), "a distribution of nothing"); }
template <class T, std::size_t N> void mahal(pbt::Ctx& g) {
    ref::M A(N, N); for (auto& x : A.d) x = g.nice(2); for (std::size_t i = 0; i < N; ++i) A(i, i) += (A(i, i) < 0 ? -1 : 1) * 1.5L; ref::M S = A * ref::tr(A); MS::Gaussian<T, N> G; for (std::size_t i = 0; i < N; ++i) { G.mean[i] = T(g.nice(10)); for (std::size_t j = 0; j < N; ++j) G.covariance[i * N + j] = T(i <= j ? S(i, j) : S(j, i)); } ref::M R(N, N); for (std::size_t i = 0; i < N; ++i) for (std::size_t j = 0; j < N; ++j) R(i, j) = G.covariance[i * N + j]; std::vector<ld> ew; ref::M ev; ref::eigSym(R, ew, ev); ld lo = ew[0], hi = ew[0]; for (ld x : ew) { lo = std::min(lo, x); hi = std::max(hi, x); } g.assume(lo > (sizeof(T) == 4 ? 1e-2L : 1e-6L) * hi);
    MS::MahalanobisDistance<MS::Gaussian<T, N> > md(G); Math::Vector<T, N> x; std::vector<ld> d(N); bool at = g.oneIn(10); ld dn = 0; for (std::size_t i = 0; i < N; ++i) { x(i) = at ? G.mean[i] : T(g.nice(15)); d[i] = ld(x(i)) - G.mean[i]; dn += d[i] * d[i]; } ref::M I(N, N); ref::inverse(R, I); ld s = 0; for (std::size_t i = 0; i < N; ++i) for (std::size_t j = 0; j < N; ++j) s += d[i] * I(i, j) * d[j]; g.nontrivial(!at); T r = md(x); g.note() << "distance " << double(std::sqrt(s)) << " condition " << double(hi / lo); near(r, std::sqrt(s), 200 * eps<T>() * hi / lo * (std::sqrt(s) + 1e-3L) + (sizeof(T) == 4 ? 1e-5L : 1e-13L), "Mahalanobis distance"); if (at) REQ(r == 0, "distance of the mean"); }
}
PROP(correlations, 3000, 150000, "more than two samples") { if (g.oneIn(50)) { std::vector<double> e; REQ(MS::correlation(e.begin(), e.end(), e.begin(), e.end()) == 1 && Ubitrack::Algorithm::computeCorrelation(e, e) == 1, "empty sequences"); } else if (g.coin()) corr<double>(g); else corr<float>(g); }
PROP(gaussians, 2500, 120000, "more than one value") { switch (g.range(0, 3)) { case 0: gauss<double, 2>(g); break; case 1: gauss<double, 3>(g); break; case 2: gauss<float, 3>(g); break; default: gauss<double, 5>(g); } }
PROP(mahalanobis, 2500, 120000, "not the mean itself") {
    if (g.oneIn(10)) { MS::Gaussian<double, 2> G; MS::reset(G); if (g.coin()) { G.covariance[0] = 2; G.covariance[1] = G.covariance[2] = 2; G.covariance[3] = 2; } bool threw = false; try { MS::MahalanobisDistance<MS::Gaussian<double, 2> > md(G); } catch (const Ubitrack::Util::Exception&) { threw = true; } REQ(threw, "a singular covariance is accepted"); return; }
    switch (g.range(0, 3)) { case 0: mahal<double, 2>(g); break; case 1: mahal<double, 3>(g); break; case 2: mahal<float, 2>(g); break; default: mahal<float, 3>(g); } }
PROP(weighted_values, 500, 20000, "weights differ") {
    typedef MS::Weighted<Math::Vector<double, 3>, double> W; std::vector<W> v; int n = g.size(2, 12); for (int i = 0; i < n; ++i) v.push_back(W(Math::Vector<double, 3>(i, -i, 2 * i), g.range(0, 5) * 0.5)); W a = v[0], b = v[1]; g.nontrivial(a.weight != b.weight); REQ((a < b) == (a.weight < b.weight) && (a > b) == (a.weight > b.weight) && (a == b) == (a.weight == b.weight) && (a != b) == (a.weight != b.weight), "comparison of weighted values is not the comparison of weights"); REQ(W().weight == 0 && W(v[0]).weight == v[0].weight && W(Math::Vector<double, 3>(1, 2, 3)).weight == 0, "default weight"); auto o = v; std::sort(v.begin(), v.end()); for (int i = 0; i + 1 < n; ++i) REQ(v[i].weight <= v[i + 1].weight, "sorting by weight"); for (auto& x : v) { int id = int(x(0)); REQ(o[id].weight == x.weight && x(1) == -id, "weights and values were separated"); } }
namespace {
/// moments of independent samples: |mean| within 8 standard errors, variance within 12
void moments(const std::vector<ld>& x, ld mu, ld var, ld kurt, const char* what) { ld n = x.size(), m = 0, v = 0; for (ld a : x) m += a; m /= n; for (ld a : x) v += (a - mu) * (a - mu); v /= n; REQ(std::fabs(m - mu) <= 8 * std::sqrt(var / n) + 1e-12L * std::fabs(mu), what << ": mean " << double(m) << ", expected " << double(mu)); REQ(std::fabs(v - var) <= 12 * var * std::sqrt((kurt - 1) / n) + 1e-12L * mu * mu, what << ": variance " << double(v) << ", expected " << double(var)); }
template <class T> void rnd(pbt::Ctx& g) {
    const int n = 3000; MR::RNG.seed(unsigned(g.draw(0xffffffffULL))); std::vector<std::vector<ld> > x(4); double lo = g.nice(10), hi = lo + g.real(0.1, 10); ld u2 = (ld(T(hi)) - T(lo)) * (ld(T(hi)) - T(lo)) / 12; g.nontrivial();
    switch (g.range(0, 6)) {
    case 0: { g.cls("uniform scalar"); for (int i = 0; i < n; ++i) { T r = MR::distribute_uniform<T>(T(lo), T(hi)); REQ(r >= T(lo) && r <= T(hi), "uniform number outside the range"); x[0].push_back(r); } moments(x[0], (ld(T(lo)) + T(hi)) / 2, u2, 1.8L, "uniform numbers"); break; }
    case 1: { g.cls("normal scalar"); double mu = g.nice(10), s = g.real(0.01, 10); for (int i = 0; i < n; ++i) x[0].push_back(MR::distribute_normal<T>(T(mu), T(s))); moments(x[0], T(mu), ld(T(s)) * T(s), 3, "normal numbers"); break; }
    case 2: { g.cls("integers"); int a = g.range(-5, 5), b = a + g.range(0, 6); std::vector<int> cnt(b - a + 1, 0); for (int i = 0; i < n; ++i) { int r = MR::distribute_uniform<int>(a, b); REQ(r >= a && r <= b, "integer outside the range"); ++cnt[r - a]; } ld p = 1.0L / cnt.size(); for (int c : cnt) REQ(std::fabs(c - n * p) <= 8 * std::sqrt(n * p * (1 - p)), "integers are not uniform"); break; }
    case 3: { g.cls("uniform vector"); bool sw = g.coin(), per = g.coin(); Math::Vector<T, 3> a, b; for (int i = 0; i < 3; ++i) { a(i) = T(per ? g.nice(5) : lo); b(i) = per ? T(a(i) + T(g.real(0.1, 5))) : T(hi); } typename MR::Vector<T, 3>::Uniform gen = per ? typename MR::Vector<T, 3>::Uniform(a, b) : sw ? typename MR::Vector<T, 3>::Uniform(T(hi), T(lo)) : typename MR::Vector<T, 3>::Uniform(T(lo), T(hi)); std::vector<Math::Vector<T, 3> > v; std::generate_n(std::back_inserter(v), n, gen); std::vector<ld> cross; for (auto& q : v) for (int i = 0; i < 3; ++i) { REQ(q(i) >= a(i) && q(i) <= b(i), "vector outside the range"); x[i].push_back(q(i)); } for (int i = 0; i < 3; ++i) moments(x[i], (ld(a(i)) + b(i)) / 2, (ld(b(i)) - a(i)) * (ld(b(i)) - a(i)) / 12, 1.8L, "uniform vectors"); for (auto& q : v) cross.push_back(((q(0) - a(0)) / (b(0) - a(0)) - 0.5L) * ((q(1) - a(1)) / (b(1) - a(1)) - 0.5L)); moments(cross, 0, 1 / 144.0L, 3.24L, "independence of components"); Math::Vector<T, 2> one = MR::distribute_uniform<T, 2>(T(lo), T(hi)); REQ(one(0) >= T(lo) && one(1) <= T(hi), "distribute_uniform of vectors"); break; }
    case 4: { g.cls("normal vector"); bool per = g.coin(); Math::Vector<T, 3> mu, s; T m0 = T(g.nice(5)), s0 = T(g.real(0.1, 5)); for (int i = 0; i < 3; ++i) { mu(i) = per ? T(g.nice(5)) : m0; s(i) = per ? T(g.real(0.1, 5)) : s0; } typename MR::Vector<T, 3>::Normal gen = per ? typename MR::Vector<T, 3>::Normal(mu, s) : typename MR::Vector<T, 3>::Normal(m0, s0); for (int k = 0; k < n; ++k) { Math::Vector<T, 3> q = k % 2 && !per ? MR::distribute_normal<T, 3>(m0, s0) : gen(); for (int i = 0; i < 3; ++i) x[i].push_back(q(i)); x[3].push_back((q(0) - mu(0)) / s(0) * ((q(1) - mu(1)) / s(1))); } for (int i = 0; i < 3; ++i) moments(x[i], mu(i), ld(s(i)) * s(i), 3, "normal vectors"); moments(x[3], 0, 1, 9, "independence of components"); break; }
    case 5: { g.cls("matrix"); typename MR::Matrix<T, 2, 3>::Uniform gen = g.coin() ? typename MR::Matrix<T, 2, 3>::Uniform(T(lo), T(hi)) : typename MR::Matrix<T, 2, 3>::Uniform(T(hi), T(lo)); for (int k = 0; k < n / 6; ++k) { Math::Matrix<T, 2, 3> m = gen(); for (int i = 0; i < 2; ++i) for (int j = 0; j < 3; ++j) { REQ(m(i, j) >= T(lo) && m(i, j) <= T(hi), "matrix outside the range"); x[0].push_back(m(i, j)); } } moments(x[0], (ld(T(lo)) + T(hi)) / 2, u2, 1.8L, "uniform matrices"); break; }
    default: { g.cls("rotations and poses"); typename MR::Quaternion<T>::Uniform gen; bool pose = g.coin(); bool per = g.oneIn(3); Math::Vector<T, 3> pa, pb; for (int i = 0; i < 3; ++i) { pa(i) = T(per ? g.nice(5) : lo); pb(i) = per ? T(pa(i) + T(g.real(0.1, 5))) : T(hi); } typename MR::Pose<T>::Uniform pg = per ? typename MR::Pose<T>::Uniform(pa, pb) : g.coin() ? typename MR::Pose<T>::Uniform(T(lo), T(hi)) : typename MR::Pose<T>::Uniform(T(hi), T(lo)); std::vector<ld> c[3], t[3]; for (int k = 0; k < n; ++k) { ref::Q q; if (pose) { ref::P p = ut::r(Math::Pose(pg())); q = p.q; for (int i = 0; i < 3; ++i) { REQ(p.t[i] >= pa(i) && p.t[i] <= pb(i), "pose outside the range"); t[i].push_back(p.t[i]); } } else q = ut::r(Math::Quaternion(gen())); REQ(std::fabs(ref::norm(q) - 1) < 50 * eps<T>(), "random rotation is not a unit quaternion"); x[0].push_back(q.x); x[1].push_back(q.y); x[2].push_back(q.z); x[3].push_back(q.w); c[0].push_back(q.x * q.y); c[1].push_back(q.z * q.w); c[2].push_back(q.x * q.w); } for (int i = 0; i < 4; ++i) moments(x[i], 0, 0.25L, 2, "components of uniform rotations"); for (int i = 0; i < 3; ++i) moments(c[i], 0, 1 / 24.0L, 4, "products of components of uniform rotations"); if (pose) for (int i = 0; i < 3; ++i) moments(t[i], (ld(pa(i)) + pb(i)) / 2, (ld(pb(i)) - pa(i)) * (ld(pb(i)) - pa(i)) / 12, 1.8L, "translations of uniform poses"); break; } } }
}
PROP(random_generators, 600, 8000, "always") { if (g.coin()) rnd<double>(g); else rnd<float>(g); }
PROP(measurement_vectors, 500, 20000, "no component is zero") {
    ref::P p = ref::genP(g, 10); Math::Pose P = ut::p(p); Math::Quaternion q = P.rotation(); namespace MU = Math::Util; Math::Vector<double, 3> t = P.translation(); Math::Vector<float, 5> f; for (int i = 0; i < 5; ++i) f(i) = float(g.nice(3)); double want[7] = {t(0), t(1), t(2), q.x(), q.y(), q.z(), q.w()}; bool nt = true; for (double w : want) nt = nt && w != 0; g.nontrivial(nt);
    Math::Vector<double, 7> a, a2 = MU::castToVector<Math::Vector<double, 7> >(P); MU::castToVector(P, a); for (int i = 0; i < 7; ++i) REQ(a(i) == want[i] && a2(i) == want[i], "component " << i << " of a pose as vector"); Math::Vector<double, 4> b, b2 = MU::castToVector<Math::Vector<double, 4> >(q); MU::castToVector(q, b); for (int i = 0; i < 4; ++i) REQ(b(i) == want[3 + i] && b2(i) == want[3 + i], "component " << i << " of a rotation as vector");
    Math::Vector<double, 3> c, c2 = MU::castToVector<Math::Vector<double, 3> >(t); MU::castToVector(t, c); for (int i = 0; i < 3; ++i) REQ(c(i) == t(i) && c2(i) == t(i), "component " << i << " of a vector as vector"); Math::Vector<float, 5> d = MU::castToVector<Math::Vector<float, 5> >(f); for (int i = 0; i < 5; ++i) REQ(d(i) == f(i), "component " << i << " of a vector as vector"); }
