// P23: hand-eye calibration and the selection of its data.
#include "pbt.h"
#include "ut.h"
#include <utAlgorithm/PoseEstimation6D6D/TsaiLenz.h>
#include <utAlgorithm/PoseEstimation6D6D/DataSelection.h>
#include <utAlgorithm/PoseEstimation6D6D/DualQuaternion.h>
#include <utAlgorithm/PoseEstimation6D6D/HandEyeCalibration.h>
#include <utAlgorithm/OnlineRotHec.h>
#include <utAlgorithm/RotationHecKalmanFilter.h>
#include <utUtil/Exception.h>
#include <list>
using namespace Ubitrack; namespace H = Ubitrack::Algorithm::PoseEstimation6D6D; typedef long double ld; typedef ref::V3 V3; typedef ref::P P; typedef ref::Q Q;
namespace {
inline P mul(const P& a, const P& b) { return a * b; }
struct Mute { std::streambuf* b; std::ostringstream s; Mute() { b = std::cout.rdbuf(s.rdbuf()); } ~Mute() { std::cout.rdbuf(b); } };
Q quat(pbt::Ctx& g) { return ref::unit(g.coin() ? ref::genQuniform(g) : ref::genQ(g)); }
Q sgn(pbt::Ctx& g, const Q& q) { return g.coin() ? q : Q(-q.x, -q.y, -q.z, -q.w); }
/// e_i * X * h_i is the same for all i
struct Rig { P X; std::vector<P> e, h; };
Rig gen(pbt::Ctx& g, int n, ld noise) { Rig r; r.X.q = quat(g); ld s = g.oneIn(3) ? ld(g.logreal(0.01, 100)) : 1; r.X.t = g.oneIn(6) ? V3(0, 0, 0) : s * V3(ref::genVr(g, 2)); P C; C.q = quat(g); C.t = s * V3(ref::genVr(g, 2)); int mode = g.range(0, 4); if (mode == 4) { r.X.q = Q(0, 0, 0, 1); if (g.oneIn(3)) { r.X.q = Q(0.5L, 0.5L, 0.5L, 0.5L); } r.X.t = g.oneIn(2) ? V3(0, 0, 0) : V3(g.range(-2, 2), g.range(-2, 2), g.range(-2, 2)); C.q = Q(0, 0, 0, 1); C.t = V3(0, 0, 0); s = 1; } Q base = quat(g); for (int i = 0; i < n; ++i) { P e; e.q = mode == 0 ? ref::unit(base * ref::expv(V3(ref::genVr(g, 0.7)))) : quat(g); e.t = s * V3(ref::genVr(g, 2)); if (mode == 4) { int ax = g.range(0, 2); e.q = g.oneIn(4) ? Q(0, 0, 0, 1) : Q(ax == 0 ? 0.6L : 0, ax == 1 ? 0.6L : 0, ax == 2 ? 0.6L : 0, 0.8L); if (g.oneIn(3)) e.q = Q(0.5L, 0.5L, 0.5L, 0.5L); e.t = V3(g.range(-2, 2), g.range(-2, 2), g.range(-2, 2)); } if (mode == 3 && i > 0 && g.oneIn(3)) e.q = r.e[0].q; P h = mul(ref::inv(mul(e, r.X)), C); if (noise > 0) { h.q = ref::unit(h.q * ref::expv(noise * V3(ref::genVr(g, 1)))); h.t = h.t + noise * s * V3(ref::genVr(g, 1)); } e.q = sgn(g, e.q); h.q = sgn(g, h.q); r.e.push_back(e); r.h.push_back(h); } return r; }
std::vector<Math::Pose> lp(const std::vector<P>& v) { std::vector<Math::Pose> r; for (auto& p : v) r.push_back(ut::p(p)); return r; }
ld size(const Rig& r) { ld s = ref::norm(r.X.t) + 1e-3L; for (auto& p : r.e) s = std::max(s, ref::norm(p.t)); for (auto& p : r.h) s = std::max(s, ref::norm(p.t)); return s; }
struct Rel { P a, b; };
/// relative motions with a X = X b
std::vector<Rel> relative(const Rig& r, bool all) { std::vector<Rel> v; for (std::size_t i = 0; i < r.e.size(); ++i) for (std::size_t k = i + 1; k < (all ? r.e.size() : std::min(r.e.size(), i + 2)); ++k) { Rel x; x.a = mul(ref::inv(r.e[k]), r.e[i]); x.b = mul(r.h[k], ref::inv(r.h[i])); v.push_back(x); } return v; }
/// conditioning of the Tsai-Lenz equations
bool tsaiCond(const Rig& r, bool all, ld& kr, ld& kt) { auto v = relative(r, all); ref::M A(3 * int(v.size()), 3), B(3 * int(v.size()), 3); for (std::size_t i = 0; i < v.size(); ++i) { Q a = ref::unit(v[i].a.q), b = ref::unit(v[i].b.q); if (a.w < 0) a = Q(-a.x, -a.y, -a.z, -a.w); if (b.w < 0) b = Q(-b.x, -b.y, -b.z, -b.w); if (a.w < 0.02L) return false; V3 s(a.x + b.x, a.y + b.y, a.z + b.z); ld S[3][3] = {{0, -s[2], s[1]}, {s[2], 0, -s[0]}, {-s[1], s[0], 0}}; ref::M R = ref::rotM(a); for (int p = 0; p < 3; ++p) for (int q = 0; q < 3; ++q) { A(3 * int(i) + p, q) = S[p][q]; B(3 * int(i) + p, q) = R(p, q) - (p == q); } } auto s1 = ref::singularValues(A), s2 = ref::singularValues(B); kr = std::sqrt(ld(v.size())) / s1[2]; kt = std::sqrt(ld(v.size())) / s2[2]; return true; }
ld rotd(const Q& a, const Q& b) { return ref::rotDist(ref::unit(a), ref::unit(b)); }
void dual(const P& p, ld d[8]) { Q q = p.q; d[0] = q.w; d[1] = q.x; d[2] = q.y; d[3] = q.z; Q t(p.t[0] / 2, p.t[1] / 2, p.t[2] / 2, 0); Q m = t * q; d[4] = m.w; d[5] = m.x; d[6] = m.y; d[7] = m.z; }
/// singular values of the equations for dual quaternions, scalar parts made equal
std::vector<ld> dualSv(const std::vector<Rel>& v) { ref::M A(6 * int(v.size()), 8); for (std::size_t n = 0; n < v.size(); ++n) { ld a[8], b[8]; dual(v[n].a, a); dual(v[n].b, b); if (a[0] * b[0] < 0) for (auto& x : b) x = -x; auto put = [&](int row, int col, const ld* p, const ld* q) { V3 s(p[0] + q[0], p[1] + q[1], p[2] + q[2]); ld S[3][3] = {{0, -s[2], s[1]}, {s[2], 0, -s[0]}, {-s[1], s[0], 0}}; for (int i = 0; i < 3; ++i) { A(row + i, col) = p[i] - q[i]; for (int j = 0; j < 3; ++j) A(row + i, col + 1 + j) = S[i][j]; } }; put(6 * int(n), 0, a + 1, b + 1); put(6 * int(n) + 3, 0, a + 5, b + 5); put(6 * int(n) + 3, 4, a + 1, b + 1); } return ref::singularValues(A); }
bool halfTurn(const std::vector<Rel>& v, ld lim) { for (auto& x : v) if (std::fabs(x.a.q.w) < lim || std::fabs(x.b.q.w) < lim) return true; return false; }
template <class T> Math::Matrix<T, 4, 4> mat(const P& p) { Math::Matrix<T, 4, 4> m; ref::M R = ref::rotM(p.q); for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) m(i, j) = T(i == 3 ? (j == 3) : j == 3 ? p.t[i] : R(i, j)); return m; }
void near(const Math::Pose& got, const P& want, ld tr, ld tt, const char* what) { P p = ut::r(got); REQ(rotd(p.q, want.q) < tr, what << ": rotation is " << double(rotd(p.q, want.q)) << " away, tolerance " << double(tr)); REQ(ref::norm(p.t - want.t) < tt, what << ": translation is " << double(ref::norm(p.t - want.t)) << " away, tolerance " << double(tt)); REQ(std::fabs(ref::norm(p.q) - 1) < 1e-3L, what << ": the rotation has the norm " << double(ref::norm(p.q))); }
}
PROP(tsai_lenz, 1500, 60000, "more than three poses") {
    int n = g.many(3, 10, 30); ld noise = g.coin() ? 0 : ld(g.logreal(1e-7, 1e-3)); Rig r = gen(g, n, noise); bool all = g.coin(); ld kr, kt; g.assume(tsaiCond(r, all, kr, kt) && kr < 100 && kt < 100); ld wx = std::fabs(r.X.q.w); g.assume(wx > 0.05L && kr * noise < 0.01L); g.nontrivial(n > 3); g.cls(all ? "all pairs" : "neighbours"); g.cls(noise > 0 ? "noisy" : "exact"); g.note() << n << " poses, X " << r.X << " noise " << double(noise); ld sz = size(r), tr = (1e-12L + 10 * noise) * kr * 10 / wx, tt = sz * kt * 10 * (tr + noise * 4);
    // the library calls the first factor hand, the last one eye
    near(H::performHandEyeCalibration(lp(r.e), lp(r.h), all), r.X, tr, tt, "poses"); if (all) { Math::Pose byDefault = H::performHandEyeCalibration(lp(r.e), lp(r.h)), asked = H::performHandEyeCalibration(lp(r.e), lp(r.h), true); near(byDefault, r.X, tr, tt, "default"); for (int i = 0; i < 3; ++i) REQ(byDefault.translation()(i) == asked.translation()(i), "by default not all pairs are used"); } std::vector<Math::Matrix<double, 4, 4>> ed, hd; std::vector<Math::Matrix<float, 4, 4>> ef, hf; for (int i = 0; i < n; ++i) { ed.push_back(mat<double>(r.e[i])); hd.push_back(mat<double>(r.h[i])); ef.push_back(mat<float>(r.e[i])); hf.push_back(mat<float>(r.h[i])); } near(H::performHandEyeCalibration(ed, hd, all), r.X, tr, tt, "matrices"); ld nf = noise + 1e-6L, trf = nf * kr * 100 / wx; if (trf < 0.02L) near(H::performHandEyeCalibration(ef, hf, all), r.X, trf, sz * kt * 10 * (trf + nf * 4) * 3, "float matrices");
    if (g.oneIn(4)) { int m = g.range(0, n + 2); if (m != n) { auto h2 = lp(r.h); h2.resize(m); bool th = false; try { H::performHandEyeCalibration(lp(r.e), h2, all); } catch (const Util::Exception&) { th = true; } REQ(th, "no exception for " << n << " and " << m << " poses"); hd.resize(m); th = false; try { H::performHandEyeCalibration(ed, hd, all); } catch (const Util::Exception&) { th = true; } REQ(th, "no exception for " << n << " and " << m << " matrices"); } } }
PROP(dual_quaternions, 1500, 60000, "more than three poses") {
    int n = g.many(3, 10, 30); ld noise = g.coin() ? 0 : ld(g.logreal(1e-8, 1e-4)); Rig r = gen(g, n, noise); auto v = relative(r, true); g.assume(!halfTurn(v, 1e-3L + 10 * noise)); auto s = dualSv(v); ld sz = size(r); g.assume(s[5] > 0.03L * (1 + sz * 0) && s[6] < 2e-3L && s[7] < 2e-3L); ld k = s[0] / s[5]; g.assume(k < 300 && k * noise * std::sqrt(ld(v.size())) < 0.01L); g.nontrivial(n > 3); g.cls(noise > 0 ? "noisy" : "exact"); if (ref::norm(r.X.t) == 0) g.cls("no translation"); g.note() << n << " poses, X " << r.X << " noise " << double(noise) << " condition " << double(k); Mute mute; Math::Pose p; bool ok = H::estimatePose6D_6D6D(lp(r.e), p, lp(r.h)); REQ(ok, "no solution, singular values " << double(s[5]) << " " << double(s[6]) << " " << double(s[7])); ld tol = (1e-11L + 30 * noise) * k * std::max(sz, 1.0L) * (1 + 1 / s[5]); near(p, r.X, tol, tol * std::max(sz, 1.0L) * 3, "poses"); std::vector<Math::Vector<double, 8>> a, b; H::generate_relative_6DPoses(lp(r.e), a, true); H::generate_relative_6DPoses(lp(r.h), b, false); for (auto& x : a) if (g.oneIn(3)) x = -x; for (auto& x : b) if (g.oneIn(3)) x = -x; Math::Pose p2; ok = H::estimatePose6D_6D6D(a, p2, b); REQ(ok, "no solution from relative poses"); near(p2, r.X, tol, tol * std::max(sz, 1.0L) * 3, "relative poses"); }
PROP(relative_poses, 800, 30000, "more than three poses") {
    int n = g.size(3, 7); Rig r = gen(g, n, 0); bool dir = g.coin(); std::vector<Math::Vector<double, 8>> out; int pre = g.range(0, 2); for (int i = 0; i < pre; ++i) out.push_back(Math::Vector<double, 8>::zeros()); H::generate_relative_6DPoses(lp(r.e), out, dir); REQ(int(out.size()) == pre + n * (n - 1) / 2, out.size() << " relative poses of " << n); g.nontrivial(n > 3); g.cls(dir ? "forward" : "backward"); g.note() << n << " poses"; int at = pre; ld sz = size(r); for (int i = 0; i < n; ++i) for (int k = i + 1; k < n; ++k, ++at) { P w = dir ? mul(ref::inv(r.e[i]), r.e[k]) : mul(r.e[i], ref::inv(r.e[k])); ld d[8]; dual(w, d); ld m1 = 0, m2 = 0; for (int j = 0; j < 8; ++j) { m1 = std::max(m1, std::fabs(out[at](j) - d[j])); m2 = std::max(m2, std::fabs(out[at](j) + d[j])); } REQ(std::min(m1, m2) < 1e-12L * (1 + sz), "relative pose " << i << "," << k << " differs by " << double(std::min(m1, m2))); near(Math::pose_cast<Math::Pose>()(out[at]), w, 1e-6L, 1e-12L * (1 + sz), "dual quaternion as pose"); }
    // representations
    P p = r.e[0]; Math::Pose lpz = ut::p(p); Math::Vector<double, 6> v6 = Math::pose_cast<Math::Vector<double, 6>>()(lpz); V3 ax(v6(0), v6(1), v6(2)); REQ(rotd(ref::expv(ax), p.q) < 1e-6L, "axis and angle"); for (int i = 0; i < 3; ++i) REQ(v6(3 + i) == lpz.translation()(i), "translation"); near(Math::pose_cast<Math::Pose>()(v6), p, 2e-6L, 1e-15L * (1 + sz), "pose of a 6-vector"); Math::Vector<double, 6> v68 = Math::pose_cast<Math::Vector<double, 6>>()(Math::pose_cast<Math::Vector<double, 8>>()(lpz)); REQ(rotd(ref::expv(V3(v68(0), v68(1), v68(2))), p.q) < 1e-6L, "dual quaternion to axis"); Math::Vector<double, 6> al = Math::hemisphere_alignment<Math::Vector<double, 6>, true>()(v6); V3 a2(al(0), al(1), al(2)); REQ(ref::norm(a2) < 3.14159265358980L, "aligned angle " << double(ref::norm(a2))); REQ(rotd(ref::expv(a2), p.q) < 1e-6L, "aligned rotation is " << double(rotd(ref::expv(a2), p.q)) << " away from the rotation"); }
PROP(selected_motions, 800, 30000, "fewer motions are selected than there are") {
    srand(unsigned(g.draw(1000000))); Math::Random::RNG.seed(unsigned(g.draw(0xffffffffULL))); int n = g.size(3, 9); Rig r = gen(g, n, 0); std::size_t sel = g.range(1, 12); bool trans = g.oneIn(8); if (trans) for (int i = 1; i < n; ++i) { r.e[i].q = r.e[0].q; r.h[i] = mul(ref::inv(mul(r.e[i], r.X)), mul(mul(r.e[0], r.X), r.h[0])); } std::vector<Math::Pose> a, b; H::select_6DPoses(lp(r.e), lp(r.h), sel, a, b); REQ(a.size() == b.size(), a.size() << " and " << b.size() << " poses"); std::size_t want = std::min(sel, std::size_t(n - 1)); REQ(a.size() <= want, a.size() << " of at most " << want << " motions"); REQ(a.size() >= 1, "nothing selected"); g.nontrivial(sel < std::size_t(n * (n - 1) / 2)); if (trans) g.cls("no rotation"); g.note() << n << " poses, " << sel << " to select, " << a.size() << " selected"; ld sz = size(r); std::vector<int> used(n * n, 0); std::vector<P> A, B; for (int i = 0; i < n; ++i) for (int k = i + 1; k < n; ++k) { A.push_back(mul(ref::inv(r.e[i]), r.e[k])); B.push_back(mul(r.h[i], ref::inv(r.h[k]))); }
    for (std::size_t s = 0; s < a.size(); ++s) { P pa = ut::r(a[s]), pb = ut::r(b[s]); bool f = false; int hits = 0; std::size_t hit = 0; for (std::size_t i = 0; i < A.size(); ++i) if (rotd(pa.q, A[i].q) < 2e-6L && rotd(pb.q, B[i].q) < 2e-6L && ref::norm(pa.t - A[i].t) < 1e-9L * sz && ref::norm(pb.t - B[i].t) < 1e-9L * sz) { f = true; ++hits; hit = i; } if (hits == 1) { REQ(!used[hit], "motion " << hit << " is selected twice"); used[hit] = 1; } REQ(f, "selected motion " << s << " is none of the motions: " << pa << " and " << pb); } }
PROP(calibration_history, 400, 15000, "several calls") {
    Math::Random::RNG.seed(unsigned(g.draw(0xffffffffULL))); int n = g.size(5, 12); Rig r = gen(g, n, 0); auto v = relative(r, true); g.assume(!halfTurn(v, 1e-3L)); H::HandEyeCalibration<double> c; int at = 0, calls = 0; Mute mute; ld sz = size(r); while (at < n) { at = std::min(n, at + g.range(1, 5)); ++calls; auto es = lp(std::vector<P>(r.h.begin(), r.h.begin() + at)), hs = lp(std::vector<P>(r.e.begin(), r.e.begin() + at)); Math::Pose p; bool ok = c.estimatePose6D(es, p, hs); if (at < 3) { REQ(!ok, "solution from " << at << " poses"); continue; } REQ(int(c.relativePosesAllA.size()) == at * (at - 1) / 2 && c.relativePosesAllB.size() == c.relativePosesAllA.size(), c.relativePosesAllA.size() << " motions of " << at << " poses"); REQ(c.relativePosesBestMatchA.size() == c.relativePosesBestMatchB.size(), "best matches"); int k = 0; for (int j = 0; j < at; ++j) for (int i = 0; i < j; ++i, ++k) { ld d[8]; dual(mul(ref::inv(r.e[j]), r.e[i]), d); ld m1 = 0, m2 = 0; for (int q = 0; q < 8; ++q) { m1 = std::max(m1, std::fabs(c.relativePosesAllA[k](q) - d[q])); m2 = std::max(m2, std::fabs(c.relativePosesAllA[k](q) + d[q])); } REQ(std::min(m1, m2) < 1e-11L * (1 + sz), "stored motion " << k); }
        // every selected motion is the member nearest to the centre of a cluster
        auto& ds = c.m_DataSelection; REQ(ds.comparisonPoseList.size() == c.relativePosesAllA.size(), ds.comparisonPoseList.size() << " comparison poses"); for (std::size_t q = 0; q < ds.indexList.size(); ++q) { REQ(ds.indexList[q] < ds.comparisonPoseList.size(), "index " << ds.indexList[q]); auto dist = [&](std::size_t i, std::size_t m) { ld s = 0; for (int z = 0; z < 3; ++z) s += (ds.comparisonPoseList[i](z) - ds.clusterPoseList[m](z)) * (ds.comparisonPoseList[i](z) - ds.clusterPoseList[m](z)); return std::sqrt(s); }; ld mine = dist(ds.indexList[q], q); for (std::size_t i = 0; i < ds.comparisonPoseList.size(); ++i) { bool member = true; for (std::size_t m = 0; m < ds.clusterPoseList.size(); ++m) if (m != q && dist(i, m) <= dist(i, q) + 1e-9L) member = false; if (member) REQ(mine <= dist(i, q) + 1e-9L, "motion " << ds.indexList[q] << " at " << double(mine) << " represents cluster " << q << ", motion " << i << " is nearer: " << double(dist(i, q))); } }
        REQ(c.relativePosesBestMatchA.size() == ds.indexList.size(), c.relativePosesBestMatchA.size() << " motions used, " << ds.indexList.size() << " selected"); for (std::size_t q = 0; q < ds.indexList.size(); ++q) for (int z = 0; z < 8; ++z) REQ(c.relativePosesBestMatchA[q](z) == c.relativePosesAllA[ds.indexList[q]](z) && c.relativePosesBestMatchB[q](z) == c.relativePosesAllB[ds.indexList[q]](z), "motion " << q << " used is not the one selected"); if (!ok) { g.cls("no solution"); continue; } std::vector<Rel> u; for (std::size_t i = 0; i < c.relativePosesBestMatchA.size(); ++i) { Rel x; x.a = ut::r(Math::pose_cast<Math::Pose>()(c.relativePosesBestMatchA[i])); x.b = ut::r(Math::pose_cast<Math::Pose>()(c.relativePosesBestMatchB[i])); u.push_back(x); } auto s = dualSv(u); if (s[5] < 0.03L || s[0] / s[5] > 300) { g.cls("badly conditioned"); continue; } ld tol = 1e-11L * s[0] / s[5] * std::max(sz, 1.0L) * (1 + 1 / s[5]) * 10; g.cls("solved"); near(p, ref::inv(r.X), tol, tol * std::max(sz, 1.0L) * 3, "calibration"); }
    g.nontrivial(calls > 1); g.note() << n << " poses in " << calls << " calls"; auto es = lp(r.e); es.pop_back(); Math::Pose p; REQ(!c.estimatePose6D(es, p, lp(r.h)), "accepted different numbers of poses"); }
PROP(online_rotation, 1500, 60000, "more than two motions") {
    Q X = quat(g); int n = g.many(1, 15, 200); ld noise = g.coin() ? 0 : ld(g.logreal(1e-6, 1e-1)); Algorithm::OnlineRotHec o; Algorithm::RotationHecKalmanFilter kf; ref::M N = ref::eye(3), rhs(3, 1); N = 1e-6L * N; ref::M S(4, 4); bool good = true; Math::Quaternion first = o.computeResult(); REQ(rotd(ut::r(first), Q(0, 0, 0, 1)) < 1e-12L, "start is not the identity"); Q kx(0, 0, 0, 1); for (int i = 0; i < n; ++i) { Q a = quat(g); Q b = ref::conj(X) * a * X; if (noise > 0) b = ref::unit(b * ref::expv(noise * V3(ref::genVr(g, 1)))); Math::Quaternion la = ut::q(sgn(g, a)), lb = ut::q(sgn(g, b)); a = ut::r(la); b = ut::r(lb); if (std::fabs(a.w) < 1e-9L + 2 * noise) good = false; if (a.w < 0) a = Q(-a.x, -a.y, -a.z, -a.w); if (b.w < 0) b = Q(-b.x, -b.y, -b.z, -b.w); o.addMeasurement(la, lb); kf.addMeasurement(la, lb); V3 s(a.x + b.x, a.y + b.y, a.z + b.z), z(b.x - a.x, b.y - a.y, b.z - a.z); ref::M K(3, 3); K(0, 1) = -s[2]; K(0, 2) = s[1]; K(1, 0) = s[2]; K(1, 2) = -s[0]; K(2, 0) = -s[1]; K(2, 1) = s[0]; ref::M zz(3, 1); for (int q = 0; q < 3; ++q) zz(q, 0) = z[q]; N = N + ref::tr(K) * K; rhs = rhs + ref::tr(K) * zz;
        // motions as 4x4 equations
        ref::M E(4, 4); ld m[4][4] = {{a.w - b.w, -a.z - b.z, a.y + b.y, a.x - b.x}, {a.z + b.z, a.w - b.w, -a.x - b.x, a.y - b.y}, {-a.y - b.y, a.x + b.x, a.w - b.w, a.z - b.z}, {-a.x + b.x, -a.y + b.y, -a.z + b.z, a.w - b.w}}; for (int p = 0; p < 4; ++p) for (int q = 0; q < 4; ++q) E(p, q) = m[p][q]; S = S + ref::tr(E) * E; }
    g.assume(good); g.nontrivial(n > 2); g.cls(noise > 0 ? "noisy" : "exact"); g.note() << n << " motions, x " << X << " noise " << double(noise); ref::M st = ref::solve(N, rhs); V3 p(st(0, 0), st(1, 0), st(2, 0)); Q want = ref::unit(Q(p[0], p[1], p[2], 1)); Q got = ut::r(o.computeResult()); std::vector<ld> w; ref::M V; ref::eigSym(N, w, V); ld tol = 1e-8L + (1e-5L + 1e-2L * noise) / std::max(w[0], 1e-6L) * (1 + ref::norm(p)) * (1 + ref::norm(p)); if (tol < 0.02L) REQ(rotd(got, want) < tol, "estimate is " << double(rotd(got, want)) << " away from the least-squares solution, tolerance " << double(tol)); REQ(std::fabs(ref::norm(got) - 1) < 1e-9L, "norm " << double(ref::norm(got))); ld tx = std::sqrt(1 - X.w * X.w) / std::max(std::fabs(X.w), 1e-9L); if (w[0] > 0.05L && noise == 0) { ld b = (1e-6L * tx / w[0]) * 3 + 1e-8L * (1 + tx); REQ(rotd(got, X) < b, "estimate is " << double(rotd(got, X)) << " away from the solution, tolerance " << double(b)); g.cls("determined"); }
    // filter on the quaternion
    Q gk = ut::r(kf.getResult()); REQ(std::fabs(ref::norm(gk) - 1) < 1e-9L, "norm of the filter state " << double(ref::norm(gk))); auto C = kf.getCovariance(); ref::M Cr(4, 4); ld top = 100; for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) top = std::max(top, std::fabs(ld(C(i, j)))); for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) { if (std::fabs(X.w) > 0.15L) REQ(std::fabs(C(i, j) - C(j, i)) < 1e-6L * top, "covariance is not symmetric: " << double(C(i, j) - C(j, i)) << " of " << double(top)); Cr(i, j) = (ld(C(i, j)) + C(j, i)) / 2; } ref::eigSym(Cr, w, V); if (std::fabs(X.w) > 0.15L) REQ(w[0] > -1e-6L * top, "covariance is not positive: " << double(w[0])); ref::eigSym(S, w, V); if (noise == 0 && w[1] > 0.3L && std::fabs(X.w) > 0.15L) { REQ(rotd(gk, X) < 0.05L, "filter is " << double(rotd(gk, X)) << " away from the solution"); g.cls("filter determined"); } }
