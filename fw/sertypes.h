// Generators, exact structural dump and type lists for everything that can be serialized.
#pragma once
#include "pbt.h"
#include "ref.h"
#include <utMeasurement/Measurement.h>
#include <utSerialization/Serialization.h>
#include <utUtil/Exception.h>
#include <cstring>

namespace st {
using namespace Ubitrack;
typedef std::vector<std::string> Dump;   // exact, ordered leaf values
/// the msgpack library itself writes integral floating point values as integers, so -0.0 arrives as 0
inline bool& foldZero() { static bool f = false; return f; }
inline std::string hex(double d) { if (foldZero() && d == 0) d = 0; uint64_t u; std::memcpy(&u, &d, 8); char b[64]; snprintf(b, 64, "%.17g/%016llx", d, (unsigned long long)u); return b; }
inline std::string hexf(float d) { if (foldZero() && d == 0) d = 0; uint32_t u; std::memcpy(&u, &d, 4); char b[64]; snprintf(b, 64, "%.9g/%08x", d, u); return b; }

enum Special { FINITE, ANY };   // ANY also yields inf / nan
inline double genD(pbt::Ctx& g, Special sp) {
    switch (g.draw(15)) {
    case 0: return 0.0;
    case 1: return -0.0;
    case 2: return double(g.range(-300, 300));
    case 3: return g.coin() ? 1.7976931348623157e308 : -1.7976931348623157e308;
    case 4: return g.coin() ? 4.9406564584124654e-324 : -2.2250738585072014e-308;
    case 5: return std::ldexp(1.0, g.range(-60, 62)) * (g.coin() ? 1 : -1);
    case 6: if (sp == ANY) return g.coin() ? INFINITY : -INFINITY; return 0.1;
    case 7: if (sp == ANY) return NAN; return 1.0 / 3;
    case 8: { for (;;) { uint64_t u = g.draw(~0ULL); double d; std::memcpy(&d, &u, 8); if (std::isfinite(d)) return d; if (u == 0) return 0; u = 0; return 2.5; } }
    case 9: return std::nextafter(double(g.range(-4, 4)), g.coin() ? 10 : -10);
    default: return g.sym(10.0);
    }
}
template <class T> struct G;
template <> struct G<double> { static double gen(pbt::Ctx& g, Special s) { return genD(g, s); } static void dump(double v, Dump& d) { d.push_back(hex(v)); } };
template <> struct G<float> {
    static float gen(pbt::Ctx& g, Special s) { double d = genD(g, s); if (std::isfinite(d) && std::fabs(d) > 3e38) d = 3e38; return float(d); }
    static void dump(float v, Dump& d) { d.push_back(hexf(v)); }
};
template <> struct G<int> {
    static int gen(pbt::Ctx& g, Special) { switch (g.draw(4)) { case 0: return 0; case 1: return 2147483647; case 2: return -2147483647 - 1; case 3: return int(uint32_t(g.draw(0xffffffffu))); default: return g.range(-200, 200); } }
    static void dump(int v, Dump& d) { d.push_back("i" + std::to_string(v)); }
};
inline uint64_t genU64(pbt::Ctx& g) {
    switch (g.draw(5)) {
    case 0: return 0;
    case 1: return ~0ULL;
    case 2: return g.draw(~0ULL);
    case 3: return 1ULL << g.draw(63);
    case 4: return 1600000000000000000ULL + g.draw(1000000000000ULL);
    default: return g.draw(300);
    }
}
template <> struct G<unsigned long> { static unsigned long gen(pbt::Ctx& g, Special) { return genU64(g); } static void dump(unsigned long v, Dump& d) { d.push_back("u" + std::to_string(v)); } };
template <> struct G<unsigned long long> { static unsigned long long gen(pbt::Ctx& g, Special) { return genU64(g); } static void dump(unsigned long long v, Dump& d) { d.push_back("t" + std::to_string(v)); } };
template <class B> struct G<Math::Scalar<B> > {
    static Math::Scalar<B> gen(pbt::Ctx& g, Special s) { return Math::Scalar<B>(G<B>::gen(g, s)); }
    static void dump(const Math::Scalar<B>& v, Dump& d) { G<B>::dump(v.m_value, d); }
};
template <class B, std::size_t N> struct G<Math::Vector<B, N> > {
    static Math::Vector<B, N> gen(pbt::Ctx& g, Special s) {
        std::size_t n = N ? N : std::size_t(g.oneIn(60) ? g.range(21, 300) : g.oneIn(1500) ? g.range(65530, 65545) : g.size(0, 20)); Math::Vector<B, N> v(n);
        for (std::size_t i = 0; i < n; ++i) v(i) = G<B>::gen(g, s);
        return v;
    }
    static void dump(const Math::Vector<B, N>& v, Dump& d) { if (N == 0) d.push_back("n" + std::to_string(v.size())); for (std::size_t i = 0; i < v.size(); ++i) G<B>::dump(v(i), d); }
};
template <class B, std::size_t M, std::size_t N> struct G<Math::Matrix<B, M, N> > {
    static Math::Matrix<B, M, N> gen(pbt::Ctx& g, Special s) {
        std::size_t m = M ? M : std::size_t(g.many(0, 6, 40)), n = N ? N : std::size_t(g.many(0, 6, 40)); Math::Matrix<B, M, N> v(m, n);
        for (std::size_t i = 0; i < m; ++i) for (std::size_t j = 0; j < n; ++j) v(i, j) = G<B>::gen(g, s);
        return v;
    }
    static void dump(const Math::Matrix<B, M, N>& v, Dump& d) {
        if (M == 0) d.push_back("n" + std::to_string(v.size1()) + "x" + std::to_string(v.size2()));
        for (std::size_t i = 0; i < v.size1(); ++i) for (std::size_t j = 0; j < v.size2(); ++j) G<B>::dump(v(i, j), d);
    }
};
template <> struct G<Math::Quaternion> {
    static Math::Quaternion gen(pbt::Ctx& g, Special s) {
        if (g.oneIn(3)) return Math::Quaternion(genD(g, s), genD(g, s), genD(g, s), genD(g, s));
        ref::Q q = ref::genQ(g); return Math::Quaternion(double(q.x), double(q.y), double(q.z), double(q.w));
    }
    static void dump(const Math::Quaternion& q, Dump& d) { G<double>::dump(q.x(), d); G<double>::dump(q.y(), d); G<double>::dump(q.z(), d); G<double>::dump(q.w(), d); }
};
template <> struct G<Math::Pose> {
    static Math::Pose gen(pbt::Ctx& g, Special s) {
        ref::Q q = ref::genQ(g); Math::Vector<double, 3> t = G<Math::Vector<double, 3> >::gen(g, s);
        return Math::Pose(Math::Quaternion(double(q.x), double(q.y), double(q.z), double(q.w)), t);
    }
    static void dump(const Math::Pose& p, Dump& d) { G<Math::Quaternion>::dump(p.rotation(), d); G<Math::Vector<double, 3> >::dump(p.translation(), d); }
};
template <> struct G<Math::ErrorPose> {
    static Math::ErrorPose gen(pbt::Ctx& g, Special s) { Math::Pose p = G<Math::Pose>::gen(g, s); return Math::ErrorPose(p, G<Math::Matrix<double, 6, 6> >::gen(g, s)); }
    static void dump(const Math::ErrorPose& p, Dump& d) { G<Math::Pose>::dump(p, d); G<Math::Matrix<double, 6, 6> >::dump(p.covariance(), d); }
};
template <class B, std::size_t N> struct G<Math::ErrorVector<B, N> > {
    static Math::ErrorVector<B, N> gen(pbt::Ctx& g, Special s) { Math::Vector<B, N> v = G<Math::Vector<B, N> >::gen(g, s); return Math::ErrorVector<B, N>(v, G<Math::Matrix<B, N, N> >::gen(g, s)); }
    static void dump(const Math::ErrorVector<B, N>& v, Dump& d) { G<Math::Vector<B, N> >::dump(v.value, d); G<Math::Matrix<B, N, N> >::dump(v.covariance, d); }
};
template <> struct G<Math::RotationVelocity> {
    static Math::RotationVelocity gen(pbt::Ctx& g, Special s) { double a = genD(g, s), b = genD(g, s), c = genD(g, s); return Math::RotationVelocity(a, b, c); }
    static void dump(const Math::RotationVelocity& v, Dump& d) { for (int i = 0; i < 3; ++i) G<double>::dump(v(i), d); }
};
template <class B> struct G<Math::CameraIntrinsics<B> > {
    typedef Math::CameraIntrinsics<B> C;
    static C gen(pbt::Ctx& g, Special s) {
        Math::Matrix<B, 3, 3> m = G<Math::Matrix<B, 3, 3> >::gen(g, s);
        Math::Vector<B, 2> t = G<Math::Vector<B, 2> >::gen(g, s);
        std::size_t w = g.draw(5000), h = g.draw(5000);
        switch (g.draw(5)) {
        case 0: return C();
        case 1: return C(m, G<Math::Vector<B, 2> >::gen(g, s), t, w, h);
        case 2: return C(m, G<Math::Vector<B, 3> >::gen(g, s), t, w, h);
        case 3: return C(m, G<Math::Vector<B, 4> >::gen(g, s), w, h);
        case 4: return C(m, G<Math::Vector<B, 6> >::gen(g, s), t, w, h);
        default: return C(Math::Vector<std::size_t, 2>(w, h), m, std::size_t(g.range(0, 6)), G<Math::Vector<B, 6> >::gen(g, s), t);
        }
    }
    // order of the archive layout: matrix, dimension, radial count, used radial, (2), tangential
    static void dump(const C& c, Dump& d) {
        G<Math::Matrix<B, 3, 3> >::dump(c.matrix, d); G<unsigned long>::dump(c.dimension(0), d); G<unsigned long>::dump(c.dimension(1), d);
        G<unsigned long>::dump(c.radial_size, d);
        for (std::size_t i = 0; i < c.radial_size && i < 6; ++i) G<B>::dump(c.radial_params(i), d);
        G<B>::dump(c.tangential_params(0), d); G<B>::dump(c.tangential_params(1), d);
        d.push_back("calib" + std::to_string(int(c.calib_type)));
    }
};
template <class T> struct G<std::vector<T> > {
    static std::vector<T> gen(pbt::Ctx& g, Special s) { std::size_t n = g.oneIn(40) ? std::size_t(g.range(14, 70)) : std::size_t(g.size(0, 18)); std::vector<T> v; for (std::size_t i = 0; i < n; ++i) v.push_back(G<T>::gen(g, s)); return v; }
    static void dump(const std::vector<T>& v, Dump& d) { d.push_back("n" + std::to_string(v.size())); for (std::size_t i = 0; i < v.size(); ++i) G<T>::dump(v[i], d); }
};
template <class T> struct G<Measurement::Measurement<T> > {
    typedef Measurement::Measurement<T> M;
    static M gen(pbt::Ctx& g, Special s) { unsigned long long t = genU64(g); return M(t, G<T>::gen(g, s)); }
    static void dump(const M& m, Dump& d) { if (!m) { d.push_back("null"); return; } G<unsigned long long>::dump(m.time(), d); G<T>::dump(*m, d); }
};
template <class T> Dump dumpOf(const T& v) { Dump d; G<T>::dump(v, d); return d; }
inline std::string show(const Dump& d) { std::string s; for (std::size_t i = 0; i < d.size() && i < 60; ++i) s += (i ? " " : "") + d[i]; return s; }
inline std::string diff(const Dump& a, const Dump& b) {
    if (a.size() != b.size()) return "leaf count " + std::to_string(a.size()) + " vs " + std::to_string(b.size()) + ": " + show(a) + " | " + show(b);
    for (std::size_t i = 0; i < a.size(); ++i) if (a[i] != b[i]) return "leaf " + std::to_string(i) + ": wrote " + a[i] + " read " + b[i];
    return "";
}
/// a stream usable with all formats of the front end (msgpack reads need a message source, archives a std::stream)
struct AnyStream : std::stringstream {
    msgpack::unpacker u;
    bool next(msgpack::object_handle& oh) {
        if (u.next(oh)) return true;
        std::string all((std::istreambuf_iterator<char>(*this)), std::istreambuf_iterator<char>());
        u.reserve_buffer(all.size() + 1); std::memcpy(u.buffer(), all.data(), all.size()); u.buffer_consumed(all.size());
        return u.next(oh);
    }
};
/// fresh value, as a receiver would declare it
template <class T> struct Fresh { static T make() { return T(); } };
}  // namespace st

/// X(name, type) for every serializable payload
#define SER_TYPES(X) \
    X(ScalarD, Math::Scalar<double>) X(ScalarI, Math::Scalar<int>) X(ScalarUL, Math::Scalar<unsigned long>) \
    X(Vector2, Math::Vector<double COMMA 2>) X(Vector3, Math::Vector<double COMMA 3>) X(Vector4, Math::Vector<double COMMA 4>) X(Vector8, Math::Vector<double COMMA 8>) \
    X(Quat, Math::Quaternion) X(Matrix33, Math::Matrix<double COMMA 3 COMMA 3>) X(Matrix34, Math::Matrix<double COMMA 3 COMMA 4>) X(Matrix44, Math::Matrix<double COMMA 4 COMMA 4>) \
    X(PoseT, Math::Pose) X(ErrPose, Math::ErrorPose) X(ErrVec2, Math::ErrorVector<double COMMA 2>) X(ErrVec3, Math::ErrorVector<double COMMA 3>) \
    X(RotVel, Math::RotationVelocity) X(Intrinsics, Math::CameraIntrinsics<double>)
#define SER_EXTRA(X) \
    X(Vector3f, Math::Vector<float COMMA 3>) X(Matrix43f, Math::Matrix<float COMMA 4 COMMA 3>) X(Intrinsicsf, Math::CameraIntrinsics<float>) X(Matrix25, Math::Matrix<double COMMA 2 COMMA 5>) X(VectorDyn, Math::Vector<double COMMA 0>)
#define COMMA ,
