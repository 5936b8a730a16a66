// P16: clustering: k-means returns centroids of their own members, EM never makes the mixture less likely.
#include "pbt.h"
#include "ut.h"
#include <algorithm>
#include <cassert>
#include <cmath>
#include <iostream>
#include <set>
#include <utMath/Stochastic/k_means.h>
#include <utMath/Stochastic/expectation_maximization.h>
using namespace Ubitrack; namespace MS = Ubitrack::Math::Stochastic; typedef long double ld;
namespace {
template <class T, std::size_t N> using VV = std::vector<Math::Vector<T, N> >;
template <class V> ld d2(const V& a, const V& b) { ld s = 0; for (std::size_t i = 0; i < a.size(); ++i) s += (ld(a(i)) - b(i)) * (ld(a(i)) - b(i)); return s; }
template <class V> bool same(const V& a, const V& b) { return d2(a, b) == 0; }
template <class C> bool finite(const C& c) { for (auto& v : c) for (std::size_t i = 0; i < v.size(); ++i) if (!std::isfinite(double(v(i)))) return false; return true; }
template <class C> ld cost(const C& pts, const C& means) { ld s = 0; for (auto& p : pts) { ld b = 1e300L; for (auto& m : means) b = std::min(b, d2(p, m)); s += b; } return s; }
/// points on a coarse grid: centroids of different member sets are far apart, so converged means a fixed point
template <class T, std::size_t N> VV<T, N> grid(pbt::Ctx& g, int n, int span) { VV<T, N> v(n); for (auto& p : v) for (std::size_t i = 0; i < N; ++i) p(i) = T(64 * g.range(-span, span)); return v; }
template <class T, std::size_t N> void judge(const VV<T, N>& pts, const VV<T, N>& means, const std::vector<std::size_t>& idx, bool allowEmpty, const char* what) {
    ld sc = 1; for (auto& p : pts) for (std::size_t i = 0; i < N; ++i) sc = std::max<ld>(sc, std::fabs(p(i))); const ld e = sizeof(T) == 4 ? 1e-4L : 1e-10L; REQ(idx.size() == pts.size(), what << ": " << idx.size() << " indices for " << pts.size() << " points"); REQ(finite(means), what << ": a centroid is not a number");
    for (std::size_t i = 0; i < pts.size(); ++i) { REQ(idx[i] < means.size(), what << ": index " << idx[i] << " of " << means.size() << " clusters"); ld own = d2(pts[i], means[idx[i]]); for (auto& m : means) REQ(own <= d2(pts[i], m) + e * sc * sc, what << ": point " << i << " is not assigned to the nearest centroid"); }
    for (std::size_t k = 0; k < means.size(); ++k) { Math::Vector<ld, N> s; for (std::size_t j = 0; j < N; ++j) s(j) = 0; int c = 0; for (std::size_t i = 0; i < pts.size(); ++i) if (idx[i] == k) { ++c; for (std::size_t j = 0; j < N; ++j) s(j) += pts[i](j); } if (!c) { REQ(allowEmpty, what << ": cluster " << k << " is empty"); continue; } for (std::size_t j = 0; j < N; ++j) REQ(std::fabs(s(j) / c - means[k](j)) <= e * sc, what << ": centroid " << k << " is not the mean of its " << c << " members"); } }
template <class T, std::size_t N> void kmeans(pbt::Ctx& g) {
    int n = g.oneIn(60) ? g.range(13, 120) : g.range(2, 12), k = g.range(1, std::min(4, n - 1)); auto pts = grid<T, N>(g, n, g.range(1, 5)); Math::Random::RNG.seed(unsigned(g.draw(0xffffffffULL))); g.nontrivial(k > 1); g.note() << n << " points " << k << " clusters; ";
    std::vector<std::size_t> idx; if (g.coin()) { g.cls("k-means++"); VV<T, N> m; MS::k_means(pts.begin(), pts.end(), std::size_t(k), std::back_inserter(m), std::back_inserter(idx)); std::set<std::vector<T> > distinct; for (auto& p : pts) distinct.insert(std::vector<T>(p.begin(), p.end())); REQ(m.size() == std::min<std::size_t>(k, distinct.size()), m.size() << " centroids, " << k << " wanted, " << distinct.size() << " different points"); judge<T, N>(pts, m, idx, true, "k-means"); VV<T, N> one(1); for (std::size_t j = 0; j < N; ++j) { ld s = 0; for (auto& p : pts) s += p(j); one[0](j) = T(s / n); } REQ(cost(pts, m) <= cost(pts, one) * (1 + 1e-4L) + 1e-3L, "clustering is worse than a single cluster"); }
    else { VV<T, N> m = grid<T, N>(g, k, 6), m0 = m; bool far = g.oneIn(3); if (far) for (std::size_t j = 0; j < N; ++j) m[g.range(0, k - 1)](j) = T(64000); m0 = m; g.cls(far ? "given means, one far away" : "given means"); MS::k_means(pts.begin(), pts.end(), m.begin(), m.end(), std::back_inserter(idx), Math::SquaredDistance<Math::Vector<T, N> >()); judge<T, N>(pts, m, idx, true, "k-means from given means"); REQ(cost(pts, m) <= cost(pts, m0) * (1 + 1e-4L) + 1e-3L, "k-means made the clustering worse: " << double(cost(pts, m)) << " after " << double(cost(pts, m0))); } }
template <class T, std::size_t N> void separated(pbt::Ctx& g) {
    int k = g.range(1, 4); VV<T, N> centre(k), pts, m; std::vector<int> own; for (int c = 0; c < k; ++c) { for (std::size_t j = 0; j < N; ++j) centre[c](j) = T((j == 0 ? 100 * c : g.nice(20))); int n = g.range(2, 6); for (int i = 0; i < n; ++i) { Math::Vector<T, N> p; for (std::size_t j = 0; j < N; ++j) p(j) = T(centre[c](j) + T(g.sym(8))); pts.push_back(p); own.push_back(c); } } std::vector<int> perm(pts.size()); for (std::size_t i = 0; i < perm.size(); ++i) perm[i] = i; g.shuffle(perm); VV<T, N> P; std::vector<int> o; for (int i : perm) { P.push_back(pts[i]); o.push_back(own[i]); } for (int c = 0; c < k; ++c) { int i; do i = g.range(0, int(P.size()) - 1); while (false); int pick = -1; for (std::size_t q = 0; q < P.size(); ++q) { std::size_t r = (q + i) % P.size(); if (o[r] == c) { pick = int(r); break; } } m.push_back(P[pick]); } g.nontrivial(k > 1); g.note() << P.size() << " points in " << k << " groups";
    std::vector<std::size_t> idx(P.size(), 99); MS::k_means(P.begin(), P.end(), m.begin(), m.end(), idx.begin(), Math::SquaredDistance<Math::Vector<T, N> >()); for (std::size_t i = 0; i < P.size(); ++i) REQ(int(idx[i]) == o[i], "point " << i << " of a separated group is in another cluster"); judge<T, N>(P, m, idx, false, "separated groups"); }
template <class T, std::size_t N> void seeds(pbt::Ctx& g) {
    int n = g.oneIn(60) ? g.range(16, 100) : g.range(1, 15), k = g.range(1, n); auto pts = grid<T, N>(g, n, g.range(1, 4)); const T unit = T(std::ldexp(1.0, -int(g.draw(24)) + 8)); for (auto& p : pts) for (std::size_t j = 0; j < N; ++j) p(j) *= unit; VV<T, N> out, first; MS::copy_greedy(pts.begin(), pts.end(), std::size_t(k), std::back_inserter(first)); REQ(int(first.size()) == k, "copy_greedy copies " << first.size()); for (int i = 0; i < k; ++i) REQ(same(first[i], pts[i]), "copy_greedy"); Math::Random::RNG.seed(unsigned(g.draw(0xffffffffULL))); std::size_t r = MS::copy_probability(pts.begin(), pts.end(), std::size_t(k), std::back_inserter(out), Math::Distance<Math::Vector<T, N> >()); std::set<std::vector<T> > distinct; for (auto& p : pts) distinct.insert(std::vector<T>(p.begin(), p.end())); REQ(r == std::min<std::size_t>(k, distinct.size()) && out.size() == r, "selected " << r << " (" << out.size() << ") of " << distinct.size() << " different points, " << k << " wanted"); g.nontrivial(k > 1 && k < n);
    for (std::size_t i = 0; i < out.size(); ++i) { REQ(distinct.count(std::vector<T>(out[i].begin(), out[i].end())), "a selected element is not in the data"); for (std::size_t j = 0; j < i; ++j) REQ(!same(out[i], out[j]), "the same place is selected twice"); } }
template <class T, std::size_t N> struct Mix { std::vector<ld> w; std::vector<std::vector<ld> > mu; std::vector<ref::M> S; };
template <class G> void read(const std::vector<G>& gs, std::vector<ld>& w, std::vector<std::vector<ld> >& mu, std::vector<ref::M>& S) { const int N = int(G::size); for (auto& q : gs) { w.push_back(q.weight); mu.push_back(std::vector<ld>(q.mean, q.mean + N)); ref::M c(N, N); for (int i = 0; i < N * N; ++i) c.d[i] = q.covariance[i]; S.push_back(c); } }
ld pdf(const std::vector<ld>& x, const std::vector<ld>& mu, const ref::M& S) { int N = int(mu.size()); ref::M I(N, N); ref::inverse(S, I); ld q = 0; for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) q += (x[i] - mu[i]) * I(i, j) * (x[j] - mu[j]); return std::exp(-q / 2) / std::sqrt(std::pow(2 * acosl(-1.0L), N) * ref::det(S)); }
template <class G, class V> ld logL(const std::vector<G>& gs, const std::vector<V>& pts) { std::vector<ld> w; std::vector<std::vector<ld> > mu; std::vector<ref::M> S; read(gs, w, mu, S); ld s = 0; for (auto& p : pts) { ld q = 0; std::vector<ld> x(p.begin(), p.end()); for (std::size_t k = 0; k < w.size(); ++k) q += w[k] * pdf(x, mu[k], S[k]); s += std::log(q); } return s / pts.size(); }
/// one step of expectation maximization
template <class T, std::size_t N, class WG> std::vector<WG> emStep(const std::vector<WG>& gs, const std::vector<Math::Vector<T, N> >& pts) {
    std::vector<ld> w; std::vector<std::vector<ld> > mu; std::vector<ref::M> S; read(gs, w, mu, S);
    int k = int(gs.size());
    std::vector<std::vector<ld> > gam(k, std::vector<ld>(pts.size()));
    for (std::size_t i = 0; i < pts.size(); ++i) { std::vector<ld> x(pts[i].begin(), pts[i].end()); ld s = 0; for (int c = 0; c < k; ++c) s += gam[c][i] = w[c] * pdf(x, mu[c], S[c]); for (int c = 0; c < k; ++c) gam[c][i] /= s; }
    std::vector<WG> h = gs;
    for (int c = 0; c < k; ++c) {
        ld sw = 0; for (ld v : gam[c]) sw += v;
        h[c].weight = T(sw / pts.size());
        for (std::size_t a = 0; a < N; ++a) { ld s = 0; for (std::size_t i = 0; i < pts.size(); ++i) s += gam[c][i] * pts[i](a); h[c].mean[a] = T(s / sw); }
        for (std::size_t a = 0; a < N; ++a) for (std::size_t b = 0; b < N; ++b) { ld s = 0; for (std::size_t i = 0; i < pts.size(); ++i) s += gam[c][i] * (pts[i](a) - h[c].mean[a]) * (pts[i](b) - h[c].mean[b]); h[c].covariance[a * N + b] = T(s / sw); }
    }
    return h;
}
template <class T, std::size_t N> void em(pbt::Ctx& g) {
    typedef MS::Weighted<MS::Gaussian<T, N> > WG; int k = g.range(1, 3); std::vector<Math::Vector<T, N> > pts; std::vector<WG> gs; double sep = g.real(1, 12); for (int c = 0; c < k; ++c) { Math::Vector<T, N> m; for (std::size_t j = 0; j < N; ++j) m(j) = T(j == 0 ? sep * c : g.nice(3)); int n = g.range(12, 30); ref::M A(N, N); for (auto& x : A.d) x = g.sym(0.5); for (std::size_t j = 0; j < N; ++j) A(j, j) += 1; for (int i = 0; i < n; ++i) { std::vector<ld> z(N); for (auto& x : z) x = g.gauss(); Math::Vector<T, N> p; for (std::size_t a = 0; a < N; ++a) { ld s = m(a); for (std::size_t b = 0; b < N; ++b) s += A(a, b) * z[b]; p(a) = T(s); } pts.push_back(p); }
        WG q; MS::reset(q); for (std::size_t j = 0; j < N; ++j) { q.mean[j] = T(m(j) + T(g.sym(1))); q.covariance[j * N + j] = T(g.real(0.5, 3)); } q.weight = T(1) / T(k); gs.push_back(q); } const T u = g.coin() ? T(1) : T(g.logreal(0.1, 10)); for (auto& p : pts) for (std::size_t j = 0; j < N; ++j) p(j) *= u; for (auto& q : gs) { for (std::size_t j = 0; j < N; ++j) q.mean[j] *= u; for (std::size_t j = 0; j < N * N; ++j) q.covariance[j] *= u * u; } const ld uv = std::pow(ld(u), 2 * int(N)); g.note() << "unit " << double(u) << " "; g.shuffle(pts); g.nontrivial(k > 1); const ld e = sizeof(T) == 4 ? 1e-3L : 1e-8L; ld L0 = logL(gs, pts);
    // definition of density and likelihood
    { std::vector<ld> w; std::vector<std::vector<ld> > mu; std::vector<ref::M> S; read(gs, w, mu, S); MS::Probability<WG> pr(gs[0]); std::vector<ld> x(pts[0].begin(), pts[0].end()); ld want = pdf(x, mu[0], S[0]); if (ref::det(S[0]) > 1e-9L) REQ(std::fabs(pr(pts[0]) - want) <= 1e-5L * want + 1e-12L / std::sqrt(uv), "probability density " << double(pr(pts[0])) << ", expected " << double(want)); T l = MS::log_likelihood<T>(gs.begin(), gs.end(), pts.begin(), pts.end()); if (L0 > -60) REQ(std::fabs(l - L0) <= e * (1 + std::fabs(L0)) + 1e-5L, "log likelihood " << double(l) << ", expected " << double(L0)); }
    g.assume(L0 > -40); std::vector<WG> in = gs; T L = MS::expectation_maximization(pts.begin(), pts.end(), gs.begin(), gs.end()); std::vector<ld> w; std::vector<std::vector<ld> > mu; std::vector<ref::M> S; read(gs, w, mu, S); for (auto& c : S) g.assume(ref::det(c) > 1e-4L * uv && ref::det(c) > 1e-9L); ld sw = 0; for (ld x : w) { REQ(x >= 0 && x <= 1 + e, "a weight of the mixture is " << double(x)); sw += x; } REQ(std::fabs(sw - 1) < e, "the weights sum up to " << double(sw)); ld L1 = logL(gs, pts); g.note() << pts.size() << " points, " << k << " components, likelihood " << double(L0) << " -> " << double(L1); REQ(L1 >= L0 - e, "expectation maximization made the data less likely: " << double(L0) << " -> " << double(L1)); REQ(std::fabs(L - L1) <= e * (1 + std::fabs(L1)) + 1e-5L, "reports likelihood " << double(L) << ", it is " << double(L1));
    // every maximization step preserves mean and second moment of the data
    ld sc = 1; for (auto& p : pts) for (std::size_t j = 0; j < N; ++j) sc = std::max<ld>(sc, std::fabs(p(j))); for (std::size_t a = 0; a < N; ++a) { ld m = 0, mm = 0; for (auto& p : pts) m += p(a); m /= pts.size(); for (int c = 0; c < k; ++c) mm += w[c] * mu[c][a]; REQ(std::fabs(m - mm) < e * sc, "mean of the mixture is not the mean of the data"); for (std::size_t b = 0; b < N; ++b) { ld s = 0, ss = 0; for (auto& p : pts) s += ld(p(a)) * p(b); s /= pts.size(); for (int c = 0; c < k; ++c) ss += w[c] * (S[c](a, b) + mu[c][a] * mu[c][b]); REQ(std::fabs(s - ss) < 4 * e * sc * sc, "second moment of the mixture is not that of the data"); } }
    // converged: another run does not improve much (a reference step from the result)
    const ld ref1 = logL(emStep(gs, pts), pts), room = 2e-3L * (1 + std::max(std::fabs(L1), std::fabs(L1 + ld(N) * std::log(ld(u)))));
    if (ref1 - L1 >= room) { // the number of iterations is limited to 100
        int steps = 0; std::vector<WG> h = in; ld l = L0;
        for (; steps < 100; ++steps) { h = emStep(h, pts); ld n = logL(h, pts), d = std::fabs(n - l); l = n; if (d < 1e-5L * std::fabs(l)) break; }
        g.cls("iteration limit");
        REQ(steps > 90, "one more step improves the likelihood from " << double(L1) << " to " << double(ref1));
    } }
}
PROP(k_means_fixed_point, 5000, 300000, "more than one cluster") { switch (g.range(0, 3)) { case 0: kmeans<double, 2>(g); break; case 1: kmeans<double, 3>(g); break; case 2: kmeans<float, 2>(g); break; default: kmeans<float, 3>(g); } }
PROP(k_means_separated_groups, 2000, 100000, "more than one group") { if (g.coin()) separated<double, 2>(g); else separated<double, 3>(g); }
PROP(seeding, 3000, 150000, "a real selection") { if (g.coin()) seeds<double, 2>(g); else seeds<double, 3>(g); }
PROP(expectation_maximization, 400, 15000, "more than one component") { switch (g.range(0, 2)) { case 0: em<double, 2>(g); break; case 1: em<double, 3>(g); break; default: em<float, 2>(g); } }
