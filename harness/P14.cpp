// P14: RANSAC samples, counts and refines exactly as its parameters say, whatever the random choices are.
#include "pbt.h"
#include <algorithm>
#include <cmath>
#include <cassert>
#include <cstdlib>
#include <list>
#include <map>
#include <set>
#include <stdexcept>
#include <utMath/Optimization/Ransac.h>
using namespace Ubitrack; namespace MO = Ubitrack::Math::Optimization;
namespace {
struct Item { typedef double value_type; int id; double x; };
struct Hyp { double val = std::nan(""); std::vector<int> ids; };
struct Call { std::vector<int> a, b; bool ok; double val; };
struct World { std::vector<Call> calls; std::vector<std::pair<int, int> > evals; long nEval = 0; int failMod = 0; bool throws = false; std::size_t setSize = 0; bool mismatch = false; } W;
bool fails(std::vector<int> ids) { if (!W.failMod || ids.size() != W.setSize) return false; std::sort(ids.begin(), ids.end()); unsigned h = 7; for (int i : ids) h = h * 31 + i; return h % 7 < unsigned(W.failMod); }
template <class It> bool estimate1(Hyp& h, It b, It e) { Call c; double s = 0; int n = 0; for (It i = b; i != e; ++i) { c.a.push_back(i->id); s += i->x; ++n; } c.ok = !fails(c.a); c.val = s / n; if (c.ok) { h.val = c.val; h.ids = c.a; } else h.val = 1e300; W.calls.push_back(c); return c.ok; }
template <class It1, class It2> bool estimate2(Hyp& h, It1 b1, It1 e1, It2 b2, It2 e2) { Call c; double s = 0; int n = 0; It2 j = b2; for (It1 i = b1; i != e1; ++i) { c.a.push_back(i->id); if (j == e2) { W.mismatch = true; break; } c.b.push_back(j->id); s += j->x - i->x; ++n; ++j; } if (j != e2) W.mismatch = true; c.ok = !fails(c.a); c.val = s / n; if (c.ok) { h.val = c.val; h.ids = c.a; } else h.val = 1e300; W.calls.push_back(c); return c.ok; }
struct Functor {
    struct Estimator { template <class It> bool operator()(Hyp& h, It b, It e) const { return estimate1(h, b, e); }
        template <class It> bool operator()(Hyp& h, It b1, It e1, It b2, It e2) const { return estimate2(h, b1, e1, b2, e2); } };
    struct Evaluator { double operator()(const Hyp& h, const Item& i) const { ++W.nEval; return std::fabs(i.x - h.val); }
        double operator()(const Hyp& h, const Item& i, const Item& j) const { ++W.nEval; if (i.id != j.id) W.mismatch = true; return std::fabs(j.x - i.x - h.val); } };
};
struct Est3 { void operator()(Hyp& h, const std::vector<Item>& a, const std::vector<Item>& b) const { if (!estimate2(h, a.begin(), a.end(), b.begin(), b.end())) throw std::runtime_error("singular"); } };
struct Eva3 { double operator()(const Hyp& h, const Item& i, const Item& j) const { if (i.id != j.id) W.mismatch = true; return std::fabs(j.x - i.x - h.val); } };
struct Case { std::vector<Item> a, b; std::size_t n, k, minIn, maxIt, minRuns; double thr; int nIn; };
Case gen(pbt::Ctx& g, bool two) {
    Case c; W = World(); c.n = g.oneIn(60) ? g.range(15, 300) : g.range(1, 14); c.k = g.range(1, std::min<int>(5, c.n)); W.setSize = c.k; c.thr = g.coin() ? g.real(0.05, 1) : g.range(1, 4); double centre = g.nice(5); c.nIn = 0; const int style = g.range(0, 2);
    for (std::size_t i = 0; i < c.n; ++i) { double m = style == 0 ? centre + g.range(-3, 3) : style == 1 ? (g.range(0, 3) ? centre + c.thr * 0.4 * g.sym(1) : centre + (g.coin() ? 1 : -1) * g.real(3, 40)) : g.nice(3); double x = two ? g.nice(5) : 0; c.a.push_back(Item{int(i), two ? x : m}); c.b.push_back(Item{int(i), x + m}); }
    c.minIn = g.range(1, c.n); c.maxIt = g.oneIn(8) ? g.range(0, 1) : g.range(1, 30); c.minRuns = g.range(0, 12); W.failMod = g.oneIn(3) ? g.range(1, 7) : 0; unsigned seed = unsigned(g.draw(0xffffffffULL)); std::srand(seed); g.note() << "n=" << c.n << " set=" << c.k << " minInlier=" << c.minIn << " maxIter=" << c.maxIt << " thr=" << c.thr << " style=" << style << " srand=" << seed << " fail=" << W.failMod << "; "; return c; }
template <class T> std::vector<int> inliers(const Case& c, double val, bool two, T thr) { std::vector<int> r; for (std::size_t i = 0; i < c.n; ++i) { T d = T(two ? std::fabs(c.b[i].x - c.a[i].x - val) : std::fabs(c.a[i].x - val)); if (d < thr) r.push_back(i); } return r; }
std::vector<int> sorted(std::vector<int> v) { std::sort(v.begin(), v.end()); return v; }
/// is the last (failed) estimation one from the inliers of an earlier hypothesis that has enough of them?
template <class T> bool finalOf(const Case& c, bool two, T thr) { for (std::size_t i = 0; i + 1 < W.calls.size(); ++i) { if (!W.calls[i].ok) continue; auto in = inliers<T>(c, W.calls[i].val, two, thr); if (in.size() >= c.minIn && in == sorted(W.calls.back().a)) return true; } return false; }
template <class T> void judge(pbt::Ctx& g, const Case& c, std::size_t ret, const Hyp& h, bool two, bool distinct, T thr, std::size_t minRuns) {
    REQ(!W.mismatch, "corresponding measurements were separated"); const bool finalFails = ret == 0 && W.calls.size() >= 2 && !W.calls.back().ok && finalOf(c, two, thr); const bool okRun = ret > 0 || finalFails; std::size_t tries = W.calls.size() - (okRun ? 1 : 0); REQ(!okRun || W.calls.size() >= 2, "a result without a hypothesis"); REQ(tries <= c.maxIt, tries << " hypotheses for at most " << c.maxIt << " iterations");
    std::size_t best = 0; std::vector<std::vector<int> > cand;
    for (std::size_t i = 0; i < tries; ++i) { const Call& k = W.calls[i]; REQ(k.a.size() == c.k, "sample " << i << " has " << k.a.size() << " values instead of " << c.k); if (two) REQ(k.a == k.b, "sample " << i << " pairs values that do not correspond"); for (int id : k.a) REQ(id >= 0 && id < int(c.n), "sample " << i << " contains something that is not an input value"); if (distinct) REQ(std::set<int>(k.a.begin(), k.a.end()).size() == c.k, "sample " << i << " contains a value twice");
        if (!k.ok) continue; auto in = inliers<T>(c, k.val, two, thr); if (in.size() >= c.minIn) { if (in.size() > best) cand.clear(); if (in.size() >= best) cand.push_back(in); best = std::max(best, in.size()); } }
    g.nontrivial(tries > 1); g.cls(okRun ? (best == c.n ? "all inliers" : "some outliers") : "no result"); if (W.failMod) g.cls("failing estimations");
    if (!okRun) { REQ(best == 0, "a hypothesis had " << best << " inliers, " << c.minIn << " required, but no result"); REQ(tries == c.maxIt, "gave up after " << tries << " of " << c.maxIt << " iterations"); return; }
    if (finalFails) g.cls("final estimation fails");
    REQ(best >= c.minIn, "result although no hypothesis had " << c.minIn << " inliers"); REQ(finalFails || ret == best, "returned " << ret << " inliers; the best hypothesis tried has " << best); REQ(tries >= std::min(minRuns, c.maxIt), "stopped after " << tries << " iterations, at least " << minRuns << " required");
    const Call& f = W.calls.back(); if (two) REQ(f.a == f.b, "final estimation pairs values that do not correspond"); auto fin = sorted(f.a); REQ(std::find(cand.begin(), cand.end(), fin) != cand.end(), "the final estimation does not use exactly the inliers of the best hypothesis"); REQ(finalFails || (f.ok && h.val == f.val), "the result is not the estimate from all inliers"); }
template <class T> void one(pbt::Ctx& g) { Case c = gen(g, false); Hyp h; MO::RansacParameter<T> p(T(c.thr), c.k, c.minIn, c.maxIt); REQ(p.threshold == T(c.thr) && p.setSize == c.k && p.nMinInlier == c.minIn && p.nMaxIterations == c.maxIt, "parameters"); std::size_t r; if (g.coin()) { std::list<Item> l(c.a.begin(), c.a.end()); r = MO::ransac(l.begin(), l.end(), h, Functor(), p); } else r = MO::ransac(c.a.begin(), c.a.end(), h, Functor(), p); judge<T>(g, c, r, h, false, true, T(c.thr), 0); }
template <class T> void two(pbt::Ctx& g) { Case c = gen(g, true); Hyp h; MO::RansacParameter<T> p(T(c.thr), c.k, c.minIn, c.maxIt); std::size_t r; if (g.coin()) { std::list<Item> l(c.a.begin(), c.a.end()); r = MO::ransac(l.begin(), l.end(), c.b.begin(), c.b.end(), h, Functor(), p); } else r = MO::ransac(c.a.begin(), c.a.end(), c.b.begin(), c.b.end(), h, Functor(), p); judge<T>(g, c, r, h, true, true, T(c.thr), 0); }
}
PROP(one_list, 6000, 400000, "more than one hypothesis was tried") { if (g.coin()) one<double>(g); else one<float>(g); }
PROP(two_lists, 6000, 400000, "more than one hypothesis was tried") { if (g.coin()) two<double>(g); else two<float>(g); }
PROP(two_vectors_with_minimum_runs, 6000, 400000, "more than one hypothesis was tried") {
    Case c = gen(g, true); Hyp h; std::vector<bool> in; bool want = g.coin(); std::size_t r = 0; try { r = MO::ransac(h, c.a, c.b, c.thr, c.k, c.minIn, c.minRuns, c.maxIt, Est3(), Eva3(), want ? &in : (std::vector<bool>*)0); } catch (const std::runtime_error&) { REQ(finalOf(c, true, c.thr), "an exception of the estimator escapes"); } judge<double>(g, c, r, h, true, false, c.thr, c.minRuns);
    if (r && want) { REQ(in.size() == c.n, "inlier flags for " << in.size() << " of " << c.n << " values"); std::vector<int> ids; for (std::size_t i = 0; i < c.n; ++i) if (in[i]) ids.push_back(i); REQ(ids == sorted(W.calls.back().a), "the reported inlier flags are not the values used for the result"); } }
PROP(sampling_reaches_everything, 400, 8000, "sample is smaller than the data") {
    Case c = gen(g, true); const bool large = g.oneIn(20); c.n = large ? g.range(10, 300) : g.range(2, 9); c.a.clear(); c.b.clear(); for (std::size_t i = 0; i < c.n; ++i) { c.a.push_back(Item{int(i), 0}); c.b.push_back(Item{int(i), double(i * i)}); } c.k = g.range(1, std::min<int>(4, c.n)); W.setSize = c.k; W.failMod = 7; int variant = g.range(0, 2); Hyp h; g.nontrivial(c.k < c.n); g.cls(variant == 0 ? "one list" : variant == 1 ? "two lists" : "two vectors");
    double pPair = c.k < 2 ? 0 : variant == 2 ? 1 - std::pow(1 - 2.0 / (c.n * c.n), double(c.k / 2)) : double(c.k) * (c.k - 1) / (double(c.n) * (c.n - 1)), pOne = variant == 2 ? 1 - std::pow(1 - 1.0 / c.n, double(c.k)) : double(c.k) / c.n; double p = c.k < 2 || large ? pOne : std::min(pPair, pOne); c.maxIt = p >= 1 ? 1 : std::size_t(std::ceil(std::log(1e-14) / std::log(1 - p))); MO::RansacParameter<double> pr(1, c.k, 1, c.maxIt); std::size_t r = variant == 0 ? MO::ransac(c.a.begin(), c.a.end(), h, Functor(), pr) : variant == 1 ? MO::ransac(c.a.begin(), c.a.end(), c.b.begin(), c.b.end(), h, Functor(), pr) : MO::ransac(h, c.a, c.b, 1, c.k, 1, 0, c.maxIt, Est3(), Eva3());
    REQ(r == 0 && W.calls.size() == c.maxIt, "failing estimations"); std::set<int> seen; std::set<std::pair<int, int> > pairs; for (auto& k : W.calls) for (int i : k.a) { seen.insert(i); if (!large) for (int j : k.a) pairs.insert(std::make_pair(i, j)); } REQ(seen.size() == c.n, "after " << c.maxIt << " samples of " << c.k << " only " << seen.size() << " of " << c.n << " values have ever been used"); if (c.k >= 2 && !large) for (int i = 0; i < int(c.n); ++i) for (int j = 0; j < i; ++j) REQ(pairs.count(std::make_pair(i, j)), "values " << j << " and " << i << " never occur in one sample"); }
PROP(outliers_are_rejected, 1500, 60000, "there are outliers") {
    int variant = g.range(0, 2); int nIn = g.range(3, 12), nOut = g.range(0, nIn), n = nIn + nOut; std::size_t k = g.range(1, 3); W = World(); W.setSize = k; double val = g.nice(10); std::vector<int> perm(n); for (int i = 0; i < n; ++i) perm[i] = i; g.shuffle(perm); std::vector<Item> a, b; double far = g.real(50, 100), step = g.real(20, 30); std::set<int> good; double sum = 0, sumAbs = 0;
    for (int i = 0; i < n; ++i) { bool in = perm[i] < nIn; double m = in ? val + 0.1 * g.sym(1) : val + far + step * perm[i]; double x = variant ? g.nice(5) : 0; a.push_back(Item{i, variant ? x : m}); b.push_back(Item{i, x + m}); if (in) { good.insert(i); sum += variant ? b.back().x - a.back().x : m; } sumAbs += std::fabs(m); }
    double p = 1; for (std::size_t i = 0; i < k; ++i) p *= variant == 2 ? double(nIn) / n : double(nIn - i) / (n - i); std::size_t it = p >= 1 ? 1 : std::size_t(std::ceil(std::log(1e-14) / std::log(1 - p))); std::srand(unsigned(g.draw(0xffffffffULL))); Hyp h; std::vector<bool> fl; MO::RansacParameter<double> pr(0.5, k, nIn, it); g.nontrivial(nOut > 0); g.note() << nIn << " inliers " << nOut << " outliers set " << k << " iterations " << it;
    std::size_t r = variant == 0 ? MO::ransac(a.begin(), a.end(), h, Functor(), pr) : variant == 1 ? MO::ransac(a.begin(), a.end(), b.begin(), b.end(), h, Functor(), pr) : MO::ransac(h, a, b, 0.5, k, nIn, g.range(0, 3), it, Est3(), Eva3(), &fl);
    REQ(r == std::size_t(nIn), "found " << r << " inliers instead of " << nIn); REQ(std::fabs(h.val - sum / nIn) < 1e-9, "estimate " << h.val << " instead of " << sum / nIn); if (variant == 2) for (int i = 0; i < n; ++i) REQ(fl[i] == (good.count(i) > 0), "inlier flag " << i); }
PROP(too_little_data, 300, 5000, "fewer values than a sample needs") {
    int n = g.range(0, 3); std::size_t k = n + g.range(1, 4); W = World(); W.setSize = k; std::vector<Item> a, b; for (int i = 0; i < n; ++i) { a.push_back(Item{i, 1}); b.push_back(Item{i, 2}); } Hyp h; std::srand(unsigned(g.draw(0xffffffffULL))); MO::RansacParameter<double> pr(0.5, k, 1, std::size_t(g.range(1, 5))); g.nontrivial();
    switch (g.range(0, 2)) { case 0: REQ(MO::ransac(a.begin(), a.end(), h, Functor(), pr) == 0, "a result from too few values"); REQ(W.calls.empty(), "an estimation from too few values"); break; case 1: REQ(MO::ransac(a.begin(), a.end(), b.begin(), b.end(), h, Functor(), pr) == 0, "a result from too few values"); REQ(W.calls.empty(), "an estimation from too few values"); break;
    default: if (n == 0) REQ(MO::ransac(h, a, b, 0.5, k, 1, 0, 3, Est3(), Eva3()) == 0, "a result from nothing"); } }
namespace { template <class T> void params(pbt::Ctx& g) {
    T p = g.oneIn(6) ? T(0) : T(g.real(0.01, 0.7)), s = T(g.pick(std::vector<double>{0.5, 0.9, 0.95, 0.99, 0.999})); std::size_t k = g.range(1, 6), n = g.range(1, 500); T thr = T(g.real(0.1, 5)); bool def = g.oneIn(3); if (def) s = T(0.99); MO::RansacParameter<T> r = def ? MO::RansacParameter<T>(thr, k, n, p) : MO::RansacParameter<T>(thr, k, n, p, s); long double w = powl(1 - (long double)p, k), x = p == 0 ? 0 : logl(1 - (long double)s) / logl(1 - w), e = sizeof(T) == 4 ? 2e-3L : 1e-9L;
    g.nontrivial(p != 0); g.note() << "p=" << p << " s=" << s << " k=" << k << " n=" << n << " -> " << r.nMinInlier << ", " << r.nMaxIterations; REQ(r.threshold == thr && r.setSize == k, "threshold or set size"); REQ(r.nMinInlier <= (1 - (long double)p) * n * (1 + e) && r.nMinInlier > (1 - (long double)p) * n * (1 - e) - 1, "nMinInlier " << r.nMinInlier << " for " << n << " values with " << p << " outliers"); REQ(r.nMaxIterations >= x * (1 - e) && r.nMaxIterations >= 1 && r.nMaxIterations <= x * (1 + e) + 1, "nMaxIterations " << r.nMaxIterations << ", required " << double(x)); } }
PROP(intuitive_parameters, 3000, 100000, "outliers are expected") { if (g.coin()) params<double>(g); else params<float>(g); }
