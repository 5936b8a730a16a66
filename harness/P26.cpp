// P26: the tracking filters over histories of measurements.
#include "pbt.h"
#include "ut.h"
#include <utTracking/PoseKalmanFilter.h>
#include <utTracking/RotationOnlyKF.h>
#include <utUtil/Exception.h>
#include <cstdlib>
#include <cstring>
#include <new>
#include <functional>
// fresh memory is never zero
void* operator new(std::size_t n) { void* p = std::malloc(n ? n : 1); if (!p) throw std::bad_alloc(); std::memset(p, 0x3f, n); return p; }
void operator delete(void* p) noexcept { std::free(p); }
void operator delete(void* p, std::size_t) noexcept { std::free(p); }
using namespace Ubitrack;
typedef long double ld;
typedef ref::V3 V3;
typedef ref::P P;
typedef ref::Q Q;
typedef std::vector<ld> VL;
namespace {
V3 v3(const VL& x, int i) { return V3(x[i], x[i + 1], x[i + 2]); }
Q q4(const VL& x, int i) { return Q(x[i], x[i + 1], x[i + 2], x[i + 3]); }
/// q v q*, without normalization
V3 turn(const Q& q, const V3& v) { Q r = q * Q(v[0], v[1], v[2], 0) * ref::conj(q); return V3(r.x, r.y, r.z); }
/// reference filter with derivatives of the given orders
struct Model {
    int po, ro;
    bool inside, exact;
    VL x;
    ref::M C;
    std::vector<ld> pn;
    unsigned long long time;
    bool clear;
    /// emulates the rounding errors of double arithmetic
    unsigned noisy = 0;
    ld rnd() { noisy = noisy * 1664525u + 1013904223u; return (ld(noisy >> 8) / (1u << 23) - 1) * 4.4e-16L; }
    void blur(ref::M& m, ld s) { if (noisy) for (auto& v : m.d) v += s * rnd(); }
    int rs() const { return 3 * (po + 1); }
    int n() const { return rs() + (ro >= 0 ? 4 + 3 * ro : 0); }
    Model(int p, int r, bool in, bool ex) : po(p), ro(r), inside(in), exact(ex), time(0), clear(true) { x.assign(n(), 0); if (ro >= 0) x[rs() + 3] = 1; C = ref::eye(n()); pn.assign(n(), 0); }
    VL f(const VL& x, ld dt) const {
        VL r(x);
        int s = rs();
        if (inside) {
            Q d = ref::expv(dt * turn(q4(x, s), v3(x, s + 4)));
            V3 p = turn(d, v3(x, 0));
            if (po == 1) { p = p + dt * v3(x, 3); V3 v = turn(d, v3(x, 3)); for (int i = 0; i < 3; ++i) r[3 + i] = v[i]; }
            for (int i = 0; i < 3; ++i) r[i] = p[i];
        } else
            for (int i = 0; i <= po; ++i)
                for (int k = 0; k < 3; ++k) { ld sum = 0, t = 1; for (int m = i; m <= po; ++m) { sum += t * x[3 * m + k]; t *= dt / (m - i + 1); } r[3 * i + k] = sum; }
        if (ro >= 1) { Q q = q4(x, s) * ref::expv(dt * v3(x, s + 4)); r[s] = q.x; r[s + 1] = q.y; r[s + 2] = q.z; r[s + 3] = q.w; }
        return r;
    }
    void step(ld dt) {
        ref::M J = ref::jac([&](const VL& y) { return f(y, dt); }, x);
        if (!exact && ro >= 1) {
            int s = rs();
            Q q = q4(x, s);
            for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) J(s + i, s + j) = i == j;
            for (int j = 0; j < 3; ++j) { Q d = q * Q(j == 0, j == 1, j == 2, 0); J(s, s + 4 + j) = dt / 2 * d.x; J(s + 1, s + 4 + j) = dt / 2 * d.y; J(s + 2, s + 4 + j) = dt / 2 * d.z; J(s + 3, s + 4 + j) = dt / 2 * d.w; }
            if (inside) {
                V3 w = turn(q, v3(x, s + 4));
                Q d = ref::expv(dt * w);
                ref::M T(4, 3);
                for (int i = 0; i < 3; ++i) { T(i, i) = dt / 2; T(3, i) = -dt * dt / 4 * w[i]; }
                VL qv(x.begin() + s, x.begin() + s + 7);
                ref::M W = ref::jac([&](const VL& y) { V3 r = turn(q4(y, 0), v3(y, 4)); return VL{r[0], r[1], r[2]}; }, qv);
                for (int o = 0; o <= po; ++o) {
                    V3 p = v3(x, 3 * o);
                    ref::M R = ref::jac([&](const VL& y) { V3 r = turn(q4(y, 0), p); return VL{r[0], r[1], r[2]}; }, VL{d.x, d.y, d.z, d.w});
                    ref::M F = R * T * W;
                    for (int i = 0; i < 3; ++i) for (int j = 0; j < 7; ++j) J(3 * o + i, s + j) = F(i, j);
                }
            }
        }
        x = f(x, dt);
        C = J * C * ref::tr(J);
        for (int i = 0; i < n(); ++i) C(i, i) += std::fabs(dt) * pn[i];
    }
    void advance(unsigned long long t) { if (time != 0 && time != t) step(ld((long long)(t - time)) * 1e-9L); time = t; }
    /// H selects; innovation z - h
    void update(const ref::M& H, const VL& innovation, const ref::M& R) {
        ref::M S = H * C * ref::tr(H) + R, Si;
        blur(S, ref::maxAbs(S));
        ref::inverse(S, Si);
        ref::M K = C * ref::tr(H) * Si;
        blur(K, ref::maxAbs(C) * ref::maxAbs(Si));
        for (int i = 0; i < n(); ++i) for (int j = 0; j < K.c; ++j) x[i] += K(i, j) * innovation[j];
        ld m = ref::maxAbs(C);
        C = C - K * (H * C);
        blur(C, m);
        for (auto& v : x) v += noisy ? rnd() * (1 + std::fabs(v)) : 0;
    }
    void normalize(bool reset) {
        if (ro < 0) return;
        int s = rs();
        ref::M J = ref::eye(n());
        Q q = q4(x, s);
        ld l = ref::norm(q);
        ld v[4] = {q.x / l, q.y / l, q.z / l, q.w / l};
        for (int i = 0; i < 4; ++i) { x[s + i] = v[i]; for (int j = 0; j < 4; ++j) J(s + i, s + j) = ((i == j) - v[i] * v[j]) / l; }
        C = J * C * ref::tr(J);
        if (l < 0.05L) clear = false;
        if (reset && ro >= 1) { ld w = ref::norm(v3(x, s + 4)); if (std::fabs(w - 10) < 1e-2L) clear = false; if (w > 10) for (int i = s + 4; i < n(); ++i) x[i] = 0; }
    }
    ref::M select(int a, int b) const { ref::M H(b - a, n()); for (int i = a; i < b; ++i) H(i - a, i) = 1; return H; }
    bool sign(Q& z) { ld d = ref::dot(z, q4(x, rs())); if (std::fabs(d) < 1e-6L) clear = false; if (d < 0) z = Q(-z.x, -z.y, -z.z, -z.w); return d < 0; }
    VL qdiff(const Q& z) const { int s = rs(); return VL{z.x - x[s], z.y - x[s + 1], z.z - x[s + 2], z.w - x[s + 3]}; }
    void pose(unsigned long long t, const VL& z7, const ref::M& R) {
        int s = rs();
        if (time == 0) { for (int i = 0; i < 3; ++i) x[i] = z7[i]; for (int i = 0; i < 4; ++i) x[s + i] = z7[3 + i]; }
        advance(t);
        Q z = q4(z7, 3);
        sign(z);
        ref::M H(7, n());
        for (int i = 0; i < 3; ++i) H(i, i) = 1;
        for (int i = 0; i < 4; ++i) H(3 + i, s + i) = 1;
        VL in = {z7[0] - x[0], z7[1] - x[1], z7[2] - x[2]};
        for (auto d : qdiff(z)) in.push_back(d);
        update(H, in, R);
        normalize(true);
    }
    void rotation(unsigned long long t, Q z, bool reset) {
        int s = rs();
        if (time == 0) { x[s] = z.x; x[s + 1] = z.y; x[s + 2] = z.z; x[s + 3] = z.w; }
        advance(t);
        sign(z);
        update(select(s, s + 4), qdiff(z), 0.004L * ref::eye(4));
        normalize(reset);
    }
    void velocity(unsigned long long t, const V3& w) {
        if (time == 0) return;
        advance(t);
        int s = rs() + 4;
        update(select(s, s + 3), VL{w[0] - x[s], w[1] - x[s + 1], w[2] - x[s + 2]}, 1e-11L * ref::eye(3));
        normalize(true);
    }
    void inverseVelocity(unsigned long long t, const V3& w) {
        if (time == 0) return;
        advance(t);
        int s = rs();
        auto h = [&](const VL& y) { V3 r = turn(q4(y, s), v3(y, s + 4)); return VL{-r[0], -r[1], -r[2]}; };
        ref::M H = ref::jac(h, x);
        VL p = h(x);
        update(H, VL{w[0] - p[0], w[1] - p[1], w[2] - p[2]}, 1e-11L * ref::eye(3));
        normalize(true);
    }
};
ld maxAbsOf(const VL& a) { ld m = 0; for (auto v : a) m = std::max(m, std::fabs(v)); return m; }
ld distX(const VL& a, const VL& b) { ld m = 0; for (std::size_t i = 0; i < a.size(); ++i) m = std::max(m, std::fabs(a[i] - b[i])); return m; }
template <class S, class CM> void compare(const S& s, const CM& c, const Model& b, ld dx, ld dc, const char* what) {
    REQ(int(s.size()) == b.n(), "state of size " << s.size());
    for (int i = 0; i < b.n(); ++i) REQ(std::fabs(ld(s(i)) - b.x[i]) <= dx, what << ": state " << i << " is " << double(s(i)) << ", expected " << double(b.x[i]) << ", tolerance " << double(dx));
    for (int i = 0; i < b.n(); ++i) for (int j = 0; j < b.n(); ++j) REQ(std::fabs(ld(c(i, j)) - b.C(i, j)) <= dc, what << ": covariance " << i << "," << j << " is " << double(c(i, j)) << ", expected " << double(b.C(i, j)) << ", tolerance " << double(dc));
}
/// exact derivatives, small-angle derivatives, and two copies of the latter with rounding errors
struct Models {
    Model a, b, c, d;
    Models(int po, int ro, bool in) : a(po, ro, in, true), b(po, ro, in, false), c(b), d(b) { c.noisy = 12345; d.noisy = 98765; }
    template <class F> void each(F f) { f(a); f(b); f(c); f(d); }
    bool clear() const { return a.clear && b.clear && c.clear && d.clear; }
    /// how far rounding errors alone carry
    ld spread() const { return std::max(std::max(distX(c.x, b.x), distX(d.x, b.x)), std::max(ref::maxAbs(c.C - b.C), ref::maxAbs(d.C - b.C))); }
    ld tolX(ld s) const { return 4 * distX(a.x, b.x) + 1000 * (distX(c.x, b.x) + distX(d.x, b.x)) + s; }
    ld tolC(ld s) const { return 4 * ref::maxAbs(a.C - b.C) + 1000 * (ref::maxAbs(c.C - b.C) + ref::maxAbs(d.C - b.C)) + s; }
};
Math::Matrix<double, 6, 6> cov6(pbt::Ctx& g, bool block, ld s) {
    ref::M A(6, 6);
    for (int i = 0; i < 6; ++i) for (int j = 0; j < 6; ++j) A(i, j) = (!block || (i < 3) == (j < 3)) ? ld(g.sym(1)) : 0;
    A = A * ref::tr(A) + 0.05L * ref::eye(6);
    Math::Matrix<double, 6, 6> m;
    for (int i = 0; i < 6; ++i) for (int j = 0; j < 6; ++j) m(i, j) = double(s * (A(i, j) + A(j, i)) / 2);
    return m;
}
unsigned long long start(pbt::Ctx& g) { return g.coin() ? 1000000000ULL * (1 + g.draw(1000)) : 1ULL + g.draw(2000000000000000000ULL); }
unsigned long long nextTime(pbt::Ctx& g, unsigned long long t, bool past) { unsigned long long d = g.oneIn(8) ? 0 : (unsigned long long)(g.logreal(1e-3, 0.3) * 1e9); if (past && g.oneIn(8) && t > d) return t - d; return t + d; }
}
PROP(pose_filter, 1200, 40000, "at least four measurements and derivatives in the state") {
    bool inside = g.oneIn(3);
    int po = inside ? g.range(0, 1) : g.range(0, 2), ro = inside ? 1 : g.range(0, 1);
    Tracking::LinearPoseMotionModel mm(po, ro);
    Models m4(po, ro, inside);
    Model &a = m4.a, &b = m4.b;
    REQ(mm.posOrder() == po && mm.oriOrder() == ro && int(mm.stateSize()) == a.n(), "motion model");
    for (int o = 0; o <= po; ++o) if (!g.oneIn(5)) { double v = g.logreal(1e-3, 1); mm.setPosPN(o, v); for (int i = 0; i < 3; ++i) a.pn[3 * o + i] = ld(v) * v; }
    for (int o = 0; o <= ro; ++o) if (!g.oneIn(5)) { double v = g.logreal(1e-3, 1); mm.setOriPN(o, v); int s = o == 0 ? a.rs() : a.rs() + 1 + 3 * o; for (int i = s; i < s + (o ? 3 : 4); ++i) a.pn[i] = ld(v) * v; }
    m4.each([&](Model& m) { m.pn = a.pn; });
    Tracking::PoseKalmanFilter f(mm, inside);
    unsigned long long t = start(g);
    bool thrown = false;
    try { f.predictPose(t); } catch (const Util::Exception&) { thrown = true; }
    REQ(thrown, "prediction without any measurement");
    // a motion to measure
    P pose;
    pose.q = ref::unit(ref::genQ(g));
    pose.t = V3(ref::genVr(g, 3));
    V3 w = ld(g.pick(std::vector<double>{0, 0.01, 0.3, 1})) * V3(ref::genVr(g, 1)), vel = ld(g.pick(std::vector<double>{0, 0.1, 2})) * V3(ref::genVr(g, 1));
    ld noise = g.oneIn(3) ? 0 : ld(g.logreal(1e-4, 0.1));
    int steps = g.size(1, 12), done = 0, vels = 0;
    ld top = 1;
    bool strong = false;
    g.cls(inside ? "inside-out" : "outside-in");
    g.cls("orders " + std::to_string(po) + "," + std::to_string(ro));
    unsigned long long prev = t;
    g.note() << (inside ? "inside-out" : "outside-in") << " orders " << po << "," << ro << " noise " << double(noise) << ":";
    for (int i = 0; i < steps; ++i) {
        if (i) t = nextTime(g, t, true);
        ld dt = ld((long long)(t - prev)) * 1e-9L;
        prev = t;
        pose.q = ref::unit(pose.q * ref::expv(dt * w));
        pose.t = pose.t + dt * vel;
        P z = pose;
        z.q = ref::unit(z.q * ref::expv(noise * V3(ref::genVr(g, 1))));
        z.t = z.t + noise * V3(ref::genVr(g, 1));
        if (g.coin()) z.q = Q(-z.q.x, -z.q.y, -z.q.z, -z.q.w);
        int kind = i == 0 && !g.oneIn(6) ? 0 : g.range(0, 5);
        g.note() << " " << double(dt) << (kind <= 2 ? "s pose" : kind == 3 ? "s rotation" : kind == 4 ? "s velocity" : "s inverse velocity");
        if (kind <= 2) {
            Math::Pose lz = ut::p(z);
            Math::ErrorPose ez(lz, cov6(g, g.coin(), ld(g.logreal(1e-5, 0.1))));
            Math::ErrorVector<double, 7> v;
            Math::ErrorPose(ez).toAdditiveErrorVector(v);
            VL z7;
            for (int k = 0; k < 7; ++k) z7.push_back(v.value(k));
            ref::M R = ut::rm(v.covariance);
            f.addPoseMeasurement(Measurement::ErrorPose(t, ez));
            m4.each([&](Model& m) { m.pose(t, z7, R); });
        } else if (kind == 3) {
            Math::Quaternion lq = ut::q(z.q);
            f.addRotationMeasurement(Measurement::Rotation(t, lq));
            m4.each([&](Model& m) { m.rotation(t, ut::r(lq), true); });
        } else if (ro >= 1) {
            V3 m = w + noise * V3(ref::genVr(g, 1));
            if (g.oneIn(15)) m = 20.0L * V3(ref::genVr(g, 1)) + V3(12, 0, 0);
            if (kind == 5) m = V3() - ref::rot(pose.q, m);
            Math::RotationVelocity lv; for (int k = 0; k < 3; ++k) lv(k) = double(m[k]);
            m = V3(lv(0), lv(1), lv(2));
            ++vels;
            if (kind == 4) { f.addRotationVelocityMeasurement(Measurement::RotationVelocity(t, lv)); m4.each([&](Model& k) { k.velocity(t, m); }); g.cls("velocity"); }
            else { f.addInverseRotationVelocityMeasurement(Measurement::RotationVelocity(t, lv)); m4.each([&](Model& k) { k.inverseVelocity(t, m); }); g.cls("inverse velocity"); }
        } else if (b.time != 0) { f.timeUpdate(t); m4.each([&](Model& k) { k.advance(t); }); }
        if (!m4.clear()) { g.cls("ambiguous"); break; }
        ++done;
        for (int k = 0; k < b.n(); ++k) top = std::max(top, b.C(k, k));
        ld tx = m4.tolX(1e-10L * (1 + maxAbsOf(b.x))), tc = m4.tolC(1e-12L * top);
        if (m4.spread() > 1e-9L * top) { g.cls("ill-conditioned"); break; }
        if (tx > 0.1L || top > 1e6L) { g.cls("far from linear"); break; }
        compare(f.getState(), f.getCovariance(), b, tx, tc, "filter");
        if (tx < 1e-6L) g.cls("tight");
        if (g.oneIn(3) && b.time != 0) {
            unsigned long long tp = nextTime(g, t, true);
            Math::Vector<double> sx(f.getState());
            Measurement::ErrorPose p = f.predictPose(tp);
            REQ(p.time() == tp, "prediction has the time " << p.time());
            for (std::size_t k = 0; k < sx.size(); ++k) REQ(sx(k) == f.getState()(k), "a prediction changes the state");
            Models p4(m4);
            p4.each([&](Model& m) { m.step(ld((long long)(tp - t)) * 1e-9L); });
            Model &pa = p4.a, &pb = p4.b;
            ld tol = p4.tolX(1e-10L * (1 + maxAbsOf(pb.x)));
            int s = pb.rs();
            P got = ut::r(Math::Pose(*p));
            REQ(ref::norm(got.t - v3(pb.x, 0)) <= tol * 2, "predicted position is " << double(ref::norm(got.t - v3(pb.x, 0))) << " away, tolerance " << double(tol * 2));
            REQ(ref::rotDist(ref::unit(got.q), ref::unit(q4(pb.x, s))) <= tol * 4 + 1e-7L, "predicted rotation is " << double(ref::rotDist(ref::unit(got.q), ref::unit(q4(pb.x, s)))) << " away, tolerance " << double(tol * 4));
            // covariance of the prediction
            auto conv = [&](const Model& m) { Math::ErrorVector<double, 7> e; for (int k = 0; k < 7; ++k) { int ik = k < 3 ? k : s + k - 3; e.value(k) = double(m.x[ik]); for (int l = 0; l < 7; ++l) e.covariance(k, l) = double(m.C(ik, l < 3 ? l : s + l - 3)); } return ut::rm(Math::ErrorPose::fromAdditiveErrorVector(e).covariance()); };
            ref::M cb = conv(pb), cg = ut::rm(p->covariance());
            ld tc = 4 * ref::maxAbs(conv(pa) - cb) + 1000 * (ref::maxAbs(conv(p4.c) - cb) + ref::maxAbs(conv(p4.d) - cb)) + 1e-12L * top, d = ref::maxAbs(cg - cb);
            REQ(d <= tc, "covariance of the prediction is " << double(d) << " away, tolerance " << double(tc));
            g.cls("predicted");
        }
        strong = true;
    }
    g.nontrivial(strong && done >= 4 && po + ro > 0);
}
PROP(rotation_filter, 1000, 40000, "at least four measurements") {
    Tracking::RotationOnlyKF f;
    Models m4(-1, 1, false);
    Model &b = m4.b;
    unsigned long long t = start(g), prev = t;
    Q q = ref::unit(ref::genQ(g));
    V3 w = ld(g.pick(std::vector<double>{0, 0.01, 0.3, 1})) * V3(ref::genVr(g, 1));
    ld noise = g.oneIn(3) ? 0 : ld(g.logreal(1e-4, 0.1));
    int steps = g.size(1, 12), done = 0;
    auto advance = [&](Model& m) { if (m.time != 0) { ld dt = ld((long long)(t - m.time)) * 1e-9L; m.pn.assign(7, 0); m.step(dt); for (int i = 0; i < 7; ++i) m.C(i, i) += (i < 4 ? 0.001L : 4.0L) * dt * dt; } m.time = t; };
    ld top = 1;
    REQ(ref::rotDist(ut::r(*f.predict(t)), Q(0, 0, 0, 1)) < 1e-12L, "start is not the identity");
    for (int i = 0; i < steps; ++i) {
        if (i) t = nextTime(g, t, true);
        ld dt = ld((long long)(t - prev)) * 1e-9L;
        prev = t;
        q = ref::unit(q * ref::expv(dt * w));
        if (g.oneIn(3)) {
            V3 m = w + noise * V3(ref::genVr(g, 1));
            Math::RotationVelocity lv; for (int k = 0; k < 3; ++k) lv(k) = double(m[k]);
            m = V3(lv(0), lv(1), lv(2));
            f.addVelocityMeasurement(Measurement::RotationVelocity(t, lv));
            for (Model* k : {&m4.a, &m4.b, &m4.c, &m4.d}) { advance(*k); k->update(k->select(4, 7), VL{m[0] - k->x[4], m[1] - k->x[5], m[2] - k->x[6]}, 1e-5L * ref::eye(3)); k->normalize(false); }
            g.cls("velocity");
        } else {
            Q z = ref::unit(q * ref::expv(noise * V3(ref::genVr(g, 1))));
            if (g.coin()) z = Q(-z.x, -z.y, -z.z, -z.w);
            Math::Quaternion lz = ut::q(z);
            z = ut::r(lz);
            f.addRotationMeasurement(Measurement::Rotation(t, lz));
            for (Model* k : {&m4.a, &m4.b, &m4.c, &m4.d}) { if (k->time == 0) { k->x[0] = z.x; k->x[1] = z.y; k->x[2] = z.z; k->x[3] = z.w; } advance(*k); Q y = z; k->sign(y); k->update(k->select(0, 4), k->qdiff(y), 0.004L * ref::eye(4)); k->normalize(false); }
            g.cls("rotation");
        }
        if (!m4.clear()) { g.cls("ambiguous"); break; }
        ++done;
        ld tol = m4.tolX(1e-10L);
        if (tol > 0.1L) { g.cls("far from linear"); break; }
        if (tol < 1e-6L) g.cls("tight");
        for (int k = 0; k < 7; ++k) REQ(std::fabs(f.getState()(k) - b.x[k]) < tol, "state " << k << " is " << f.getState()(k) << ", expected " << double(b.x[k]) << ", tolerance " << double(tol));
        if (g.coin()) {
            unsigned long long tp = nextTime(g, t, true);
            Measurement::Rotation p = f.predict(tp);
            REQ(p.time() == tp, "prediction has the time " << p.time());
            VL pb = b.f(b.x, ld((long long)(tp - t)) * 1e-9L);
            ld d = ref::rotDist(ut::r(*p), ref::unit(q4(pb, 0)));
            REQ(d < 4 * tol + 1e-7L, "predicted rotation is " << double(d) << " away, tolerance " << double(4 * tol + 1e-7L));
            g.cls(tp < t ? "past" : "future");
        }
    }
    g.nontrivial(done >= 4);
    g.note() << done << " measurements, noise " << double(noise);
}
static V3 dirOf(pbt::Ctx& g) { V3 d(g.gauss(), g.gauss(), g.gauss()); ld n = ref::norm(d); return n > 1e-3L ? (1 / n) * d : V3(0, 0, 1); }
PROP(measurement_as_predicted, 1500, 60000, "turns by more than half a turn or moves backwards in time") {
    // a measurement that says what the filter expects leaves the state as it is, whatever the gain and however far it has turned
    bool inside = g.oneIn(4);
    int po = inside ? g.range(0, 1) : g.range(0, 2), ro = inside ? 1 : g.range(0, 1);
    Tracking::LinearPoseMotionModel mm(po, ro);
    for (int o = 0; o <= po; ++o) mm.setPosPN(o, g.logreal(1e-2, 1));
    for (int o = 0; o <= ro; ++o) mm.setOriPN(o, g.logreal(1e-2, 1));
    Tracking::PoseKalmanFilter f(mm, inside);
    unsigned long long t = start(g);
    int steps = g.size(1, 6), s = 3 * (po + 1), n = int(mm.stateSize());
    ld low = 0.004L;
    g.cls(inside ? "inside-out" : "outside-in");
    g.note() << (inside ? "inside-out" : "outside-in") << " orders " << po << "," << ro << ":";
    for (int i = 0; i < steps; ++i) {
        if (i) t += (unsigned long long)(g.logreal(1e-2, 1) * 1e9);
        int kind = i == 0 ? 0 : g.range(0, ro ? 3 : 1);
        P z;
        z.q = ref::unit(ref::genQuniform(g));
        z.t = V3(ref::genVr(g, 3));
        if (kind == 0) f.addPoseMeasurement(Measurement::ErrorPose(t, Math::ErrorPose(ut::p(z), cov6(g, g.coin(), ld(g.logreal(1e-3, 0.1))))));
        else if (kind == 1) { Math::Quaternion lq = ut::q(z.q); f.addRotationMeasurement(Measurement::Rotation(t, lq)); }
        else { V3 w = ld(g.real(0, 9)) * dirOf(g); Math::RotationVelocity lv; for (int k = 0; k < 3; ++k) lv(k) = double(w[k]); f.addRotationVelocityMeasurement(Measurement::RotationVelocity(t, lv)); }
        g.note() << " " << kind;
    }
    int rounds = g.range(1, 3);
    bool far = false;
    for (int r = 0; r < rounds; ++r) {
        unsigned long long tp = g.oneIn(6) ? t : t + (unsigned long long)(g.logreal(1e-2, 3) * 1e9);
        if (g.oneIn(6)) { unsigned long long d = (unsigned long long)(g.logreal(1e-2, 1) * 1e9); if (d < t) tp = t - d; }
        ld dt = ld((long long)(tp - t)) * 1e-9L;
        t = tp;
        ld speed = ro ? std::sqrt(ld(f.getState()(s + 4)) * f.getState()(s + 4) + ld(f.getState()(s + 5)) * f.getState()(s + 5) + ld(f.getState()(s + 6)) * f.getState()(s + 6)) : 0;
        // fast rotations are forgotten
        g.assume(speed < 9.9L);
        Tracking::PoseKalmanFilter e(f);
        e.timeUpdate(tp);
        ld mx = 1, mc = 1e-3L;
        for (int i = 0; i < n; ++i) { mx = std::max(mx, std::fabs(ld(e.getState()(i)))); for (int j = 0; j < n; ++j) mc = std::max(mc, std::fabs(ld(e.getCovariance()(i, j)))); }
        P p;
        p.t = V3(e.getState()(0), e.getState()(1), e.getState()(2));
        p.q = ref::unit(Q(e.getState()(s), e.getState()(s + 1), e.getState()(s + 2), e.getState()(s + 3)));
        if (g.coin()) p.q = Q(-p.q.x, -p.q.y, -p.q.z, -p.q.w);
        bool rot = g.coin();
        g.note() << " " << double(dt) << "s at " << double(speed) << (rot ? " rotation" : " pose");
        if (rot) { Math::Quaternion lq = ut::q(p.q); f.addRotationMeasurement(Measurement::Rotation(t, lq)); }
        else { ld sc = ld(g.logreal(1e-3, 0.1)); low = 0.01L * sc; f.addPoseMeasurement(Measurement::ErrorPose(t, Math::ErrorPose(ut::p(p), cov6(g, g.coin(), sc)))); }
        // rounding errors are amplified by the gain
        ld tol = 1e-9L * mx + 1e-13L * mx * mc / (rot ? 0.004L : low) * (1 + mc);
        g.assume(tol < 1e-3L);
        for (int i = 0; i < n; ++i) REQ(std::fabs(ld(f.getState()(i)) - ld(e.getState()(i))) <= tol, "state " << i << " moves from " << e.getState()(i) << " to " << f.getState()(i) << " with a measurement as predicted after " << double(dt) << " s, tolerance " << double(tol));
        if (std::fabs(dt) * speed > 3.2L || dt < 0) far = true;
    }
    g.cls(far ? "far" : "near");
    g.nontrivial(far);
}
PROP(rotation_as_predicted, 1500, 60000, "turns by more than half a turn or moves backwards in time") {
    Tracking::RotationOnlyKF f;
    unsigned long long t = start(g);
    int steps = g.size(1, 6), rounds = g.range(1, 3);
    for (int i = 0; i < steps; ++i) {
        if (i) t += (unsigned long long)(g.logreal(1e-2, 1) * 1e9);
        if (i == 0 || g.oneIn(3)) { Math::Quaternion lq = ut::q(ref::genQuniform(g)); f.addRotationMeasurement(Measurement::Rotation(t, lq)); }
        else { V3 w = ld(g.real(0, 15)) * dirOf(g); Math::RotationVelocity lv; for (int k = 0; k < 3; ++k) lv(k) = double(w[k]); f.addVelocityMeasurement(Measurement::RotationVelocity(t, lv)); }
    }
    bool far = false;
    g.note() << steps << " measurements,";
    for (int r = 0; r < rounds; ++r) {
        unsigned long long tp = g.oneIn(6) ? t : t + (unsigned long long)(g.logreal(1e-2, 3) * 1e9);
        if (g.oneIn(6)) { unsigned long long d = (unsigned long long)(g.logreal(1e-2, 1) * 1e9); if (d < t) tp = t - d; }
        ld dt = ld((long long)(tp - t)) * 1e-9L;
        VL before; for (int k = 0; k < 7; ++k) before.push_back(f.getState()(k));
        ld speed = ref::norm(v3(before, 4));
        Q want = ref::unit(q4(before, 0) * ref::expv(dt * v3(before, 4))), z = g.coin() ? want : Q(-want.x, -want.y, -want.z, -want.w);
        t = tp;
        Math::Quaternion lq = ut::q(z);
        f.addRotationMeasurement(Measurement::Rotation(t, lq));
        VL now; for (int k = 0; k < 7; ++k) now.push_back(f.getState()(k));
        ld tol = 1e-8L * (1 + speed) * (1 + dt * dt);
        g.note() << " " << double(dt) << "s at " << double(speed);
        REQ(std::min(ref::norm(Q(now[0] - want.x, now[1] - want.y, now[2] - want.z, now[3] - want.w)), ref::norm(Q(now[0] + want.x, now[1] + want.y, now[2] + want.z, now[3] + want.w))) <= tol, "rotation differs from the prediction that was measured after " << double(dt) << " s");
        REQ(ref::norm(v3(now, 4) - v3(before, 4)) <= tol, "angular velocity changes by " << double(ref::norm(v3(now, 4) - v3(before, 4))) << " with a measurement as predicted after " << double(dt) << " s, tolerance " << double(tol));
        if (std::fabs(dt) * speed > 3.2L || dt < 0) far = true;
    }
    g.cls(far ? "far" : "near");
    g.nontrivial(far);
}
PROP(follows_the_motion, 500, 20000, "the object rotates") {
    // a constant motion, measured exactly, is extrapolated correctly
    int po = g.range(0, 2), ro = g.range(0, 1);
    Tracking::LinearPoseMotionModel mm(po, ro);
    for (int o = 0; o <= po; ++o) mm.setPosPN(o, o == po ? 0.5 : 0.01);
    for (int o = 0; o <= ro; ++o) mm.setOriPN(o, o == ro ? 0.5 : 0.01);
    Tracking::PoseKalmanFilter f(mm);
    P p0;
    p0.q = ref::unit(ref::genQuniform(g));
    p0.t = V3(ref::genVr(g, 3));
    V3 w = ro ? ld(g.real(0, 1)) * V3(ref::genVr(g, 1)) : V3(), vel = po ? V3(ref::genVr(g, 1)) : V3(), acc = po > 1 ? V3(ref::genVr(g, 0.5)) : V3();
    unsigned long long t0 = start(g), t = t0;
    auto at = [&](unsigned long long t) { ld s = ld((long long)(t - t0)) * 1e-9L; P p; p.q = p0.q * ref::expv(s * w); p.t = p0.t + s * vel + (s * s / 2) * acc; return p; };
    ld dt = ld(g.real(0.01, 0.04));
    for (int i = 0; i < 60; ++i) {
        if (i) t += (unsigned long long)(dt * 1e9L);
        P z = at(t);
        if (g.coin()) z.q = Q(-z.q.x, -z.q.y, -z.q.z, -z.q.w);
        f.addPoseMeasurement(Measurement::ErrorPose(t, Math::ErrorPose(ut::p(z), Math::Matrix<double, 6, 6>(Math::Matrix<double, 6, 6>::identity() * 1e-6))));
    }
    unsigned long long tp = t + (unsigned long long)(dt * 1e9L);
    P got = ut::r(Math::Pose(*f.predictPose(tp))), want = at(tp);
    g.nontrivial(ref::norm(w) > 0.05L);
    g.cls("orders " + std::to_string(po) + "," + std::to_string(ro));
    g.note() << "speed " << double(ref::norm(vel)) << " angular " << double(ref::norm(w)) << " dt " << double(dt);
    ld tt = 1e-6L + 0.03L * dt * (ref::norm(vel) + ref::norm(acc)), tr = 1e-6L + 0.1L * dt * ref::norm(w);
    REQ(ref::norm(got.t - want.t) < tt, "position is extrapolated " << double(ref::norm(got.t - want.t)) << " off, tolerance " << double(tt));
    REQ(ref::rotDist(ref::unit(got.q), ref::unit(want.q)) < tr, "rotation is extrapolated " << double(ref::rotDist(ref::unit(got.q), ref::unit(want.q))) << " off, tolerance " << double(tr));
}
PROP(motion_models, 300, 5000, "always") {
    int po = g.range(-1, 3), ro = g.range(-1, 3);
    Tracking::LinearPoseMotionModel mm(po, ro);
    int rs = 3 * (po + 1), n = rs + (ro >= 0 ? 4 + 3 * ro : 0);
    REQ(int(mm.stateSize()) == n, "state of size " << mm.stateSize() << " for orders " << po << "," << ro);
    std::vector<ld> pn(n, 0);
    int ops = g.size(0, 6);
    for (int k = 0; k < ops; ++k) {
        double v = g.nice(3);
        if (po >= 0 && (ro < 0 || g.coin())) { int o = g.range(0, po); mm.setPosPN(o, v); for (int i = 0; i < 3; ++i) pn[3 * o + i] = ld(v) * v; }
        else if (ro >= 0) { int o = g.range(0, ro); mm.setOriPN(o, v); int s = o ? rs + 1 + 3 * o : rs; for (int i = s; i < s + (o ? 3 : 4); ++i) pn[i] = ld(v) * v; }
    }
    g.nontrivial(n > 0);
    g.note() << "orders " << po << "," << ro;
    if (n == 0) return;
    Math::Matrix<double, 0, 0> c(n, n), before(n, n);
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) before(i, j) = c(i, j) = g.nice(1);
    double dt = g.nice(2);
    mm.addNoise(c, dt);
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { ld w = ld(before(i, j)) + (i == j ? std::fabs(ld(dt)) * pn[i] : 0); REQ(std::fabs(c(i, j) - w) < 1e-14L * (1 + std::fabs(w)), "noise of " << i << "," << j << " is " << c(i, j) - before(i, j) << " instead of " << double(w - before(i, j))); }
    bool ok = po >= 0 && po <= 1 && ro == 1, thrown = false;
    if (po >= 0 && ro >= 0) { try { Tracking::PoseKalmanFilter f(mm, true); } catch (const Util::Exception&) { thrown = true; } REQ(thrown == !ok, "inside-out filter with orders " << po << "," << ro << (thrown ? " refused" : " accepted")); }
}
