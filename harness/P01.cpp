// P01: rigid transformations form a group acting on points, and all stored forms describe the same motion.
#include "ut.h"
#include <utMath/MatrixOperations.h>
using namespace ref;
static const L TOL = 1e-11L;
static void sameV(V3 a, V3 b, L scale, const char* what) { REQ(maxAbs(a - b) <= TOL * (1 + scale), what << " got " << a << " expected " << b); }
static void sameP(P a, P b, L scale, const char* what) {
    REQ(rotDist(a.q, b.q) <= TOL * 10, what << " rotation differs: got " << a << " expected " << b);
    REQ(std::fabs(norm(a.q) - 1) <= TOL, what << " rotation not of unit length " << a);
    sameV(a.t, b.t, scale, what);
}

PROP(compose, 60000, 3000000, "at least one of the two transformations is not the identity and the point is not the origin") {
    std::string c1, c2; double m = g.oneIn(4) ? g.logreal(1e-6, 1e6) : 10;
    P a = genP(g, m, &c1), b = genP(g, m, &c2), c = genP(g, m); V3 x = genV(g, m);
    g.note() << "a=" << a << " b=" << b << " x=" << x; g.cls(c1); g.nontrivial((c1 != "identity" || c2 != "identity") && norm(x) > 0);
    Ubitrack::Math::Pose A = ut::p(a), B = ut::p(b), C = ut::p(c);
    L s = 4 * m;
    sameV(ut::r(A * ut::v(x)), a * x, s, "action of a on x");
    sameV(ut::r(A.rotation() * ut::v(x)), rot(a.q, x), s, "rotation of a on x");
    sameP(ut::r(A * B), a * b, s, "a*b");
    sameV(ut::r((A * B) * ut::v(x)), ut::r(A * (B * ut::v(x))), s, "(a b) x = a (b x)");
    sameP(ut::r((A * B) * C), ut::r(A * (B * C)), s, "associativity");
    sameP(ut::r(~A), inv(a), s, "inverse");
    sameP(ut::r(A * ~A), P(), s, "a * inverse(a)"); sameP(ut::r(~A * A), P(), s, "inverse(a) * a");
    sameP(ut::r(~~A), a, s, "double inverse");
    sameP(ut::r(~(A * B)), ut::r(~B * ~A), s, "inverse of product");
    sameP(ut::r(Ubitrack::Math::Pose() * A), a, s, "left identity"); sameP(ut::r(A * Ubitrack::Math::Pose()), a, s, "right identity");
    sameV(ut::r(~A * (A * ut::v(x))), x, s, "undoing a");
    // isometry
    V3 y = genV(g, m); V3 d1 = ut::r(A * ut::v(x)) - ut::r(A * ut::v(y));
    REQ(std::fabs(norm(d1) - norm(x - y)) <= TOL * (1 + s), "distance not preserved");
    // equality
    REQ(A == A && !(A != A), "pose not equal to itself");
    REQ((A == B) == !(A != B), "== and != contradict");
    bool same = a.q.x == b.q.x && a.q.y == b.q.y && a.q.z == b.q.z && a.q.w == b.q.w && a.t[0] == b.t[0] && a.t[1] == b.t[1] && a.t[2] == b.t[2];
    REQ((A == B) == same, "equality is not componentwise");
    // differing in exactly one component
    double e[7] = {double(a.t[0]), double(a.t[1]), double(a.t[2]), double(a.q.x), double(a.q.y), double(a.q.z), double(a.q.w)};
    int k = g.range(0, 6); e[k] += 0.25;
    Ubitrack::Math::Pose D(Ubitrack::Math::Quaternion(e[3], e[4], e[5], e[6]), Ubitrack::Math::Vector<double, 3>(e[0], e[1], e[2]));
    REQ(!(A == D) && A != D, "poses that differ in component " << k << " compare equal");
}

PROP(vector_form, 40000, 1000000, "rotation is not the identity") {
    std::string c; P a = genP(g, 1e3, &c); g.nontrivial(c != "identity"); g.note() << a;
    Ubitrack::Math::Pose A = ut::p(a);
    double exp[7] = {double(a.t[0]), double(a.t[1]), double(a.t[2]), double(a.q.x), double(a.q.y), double(a.q.z), double(a.q.w)};
    Ubitrack::Math::Vector<double, 7> v; A.toVector(v);
    for (int i = 0; i < 7; ++i) REQ(v(i) == exp[i], "component " << i << " of the 7-vector is " << v(i) << " not " << exp[i]);
    REQ(Ubitrack::Math::Pose::fromVector(v) == A, "vector round trip");
    Ubitrack::Math::Vector<double, 0> w(7); A.toVector(w);
    REQ(Ubitrack::Math::Pose::fromVector(w) == A, "dynamic vector round trip");
    Ubitrack::Math::Vector<float, 7> f; A.toVector(f);
    for (int i = 0; i < 7; ++i) REQ(f(i) == float(exp[i]), "component " << i << " of the float 7-vector");
    Ubitrack::Math::Vector<double, 4> q; A.rotation().toVector(q);
    for (int i = 0; i < 4; ++i) REQ(q(i) == exp[3 + i], "component " << i << " of the quaternion vector");
    REQ(Ubitrack::Math::Quaternion::fromVector(q) == A.rotation(), "quaternion vector round trip");
    REQ(A.rotation().x() == exp[3] && A.rotation().y() == exp[4] && A.rotation().z() == exp[5] && A.rotation().w() == exp[6], "accessors");
}

PROP(matrix_form, 60000, 3000000, "rotation is not the identity") {
    std::string c; P a = genP(g, 100, &c); g.nontrivial(c != "identity"); g.cls(c); g.note() << a;
    Ubitrack::Math::Pose A = ut::p(a);
    M R = rotM(a.q);
    Ubitrack::Math::Matrix<double, 4, 4> m4(A); Ubitrack::Math::Matrix<double, 3, 4> m34(A); Ubitrack::Math::Matrix<double, 3, 3> m3(A.rotation());
    Ubitrack::Math::Matrix<double, 4, 4> n4(A.rotation(), A.translation()); Ubitrack::Math::Matrix<double, 3, 4> n34(A.rotation(), A.translation());
    Ubitrack::Math::Matrix<float, 4, 4> f4(A);
    for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) {
        L e = i == 3 ? (j == 3 ? 1 : 0) : j == 3 ? a.t[i] : R(i, j);
        L tol = 1e-13L * (1 + std::fabs(e));
        REQ(std::fabs(m4(i, j) - e) <= tol && std::fabs(n4(i, j) - e) <= tol, "4x4 entry " << i << "," << j << " " << m4(i, j) << " expected " << e);
        REQ(std::fabs(f4(i, j) - e) <= 1e-5L * (1 + std::fabs(e)), "float 4x4 entry " << i << "," << j);
        if (i < 3) REQ(std::fabs(m34(i, j) - e) <= tol && std::fabs(n34(i, j) - e) <= tol, "3x4 entry " << i << "," << j);
        if (i < 3 && j < 3) REQ(std::fabs(m3(i, j) - e) <= tol, "3x3 entry " << i << "," << j);
    }
    // back to a pose
    Ubitrack::Math::Matrix<double, 0, 0> dyn(m4);
    Ubitrack::Math::Pose B(dyn); P b = ut::r(B);
    REQ(std::fabs(norm(b.q) - 1) < 1e-12L, "quaternion from matrix not unit: " << b.q);
    REQ(rotDist(a.q, b.q) < 1e-7L, "rotation -> matrix -> quaternion changes the rotation by " << rotDist(a.q, b.q) << ": " << a.q << " became " << b.q);
    REQ(maxAbs(a.t - b.t) == 0, "translation from matrix");
    Ubitrack::Math::Quaternion q3{Ubitrack::Math::Matrix<double, 0, 0>(m3)};
    REQ(rotDist(a.q, ut::r(q3)) < 1e-7L, "3x3 matrix to quaternion");
    // homomorphism: matrix of a product is the product of the matrices
    P b2 = genP(g, 100); Ubitrack::Math::Matrix<double, 4, 4> mb(ut::p(b2)), mab(A * ut::p(b2));
    M pr = ut::rm(m4) * ut::rm(mb);
    REQ(maxAbs(pr - ut::rm(mab)) < 1e-10L, "matrix of product");
    Ubitrack::Math::Matrix<double, 4, 4> mi(~A);
    REQ(maxAbs(ut::rm(mi) * ut::rm(m4) - eye(4)) < 1e-10L, "matrix of inverse");
}

PROP(log_form, 60000, 2000000, "rotation is not the identity") {
    std::string c; Q q = genQ(g, &c); g.nontrivial(c != "identity"); g.cls(c); g.note() << q;
    Ubitrack::Math::Quaternion A = ut::q(q);
    V3 l = ut::r(A.toLogarithm()); V3 e = logv(q);
    REQ(std::isfinite(double(l[0] + l[1] + l[2])), "logarithm not finite " << l);
    REQ(norm(l) <= PI + 1e-6L, "logarithm longer than pi: " << l);
    if (std::fabs(q.w) > 1e-9L) REQ(norm(l - e) < 5e-7L, "logarithm " << l << " expected " << e);
    REQ(rotDist(ut::r(Ubitrack::Math::Quaternion::fromLogarithm(A.toLogarithm())), q) < 5e-7L, "exp(log(q)) is another rotation");
    V3 v = g.oneIn(3) ? std::pow(10.0L, -L(g.range(3, 14))) * genVr(g, 1) : genVr(g, 6); v = ut::r(ut::v(v));
    Q x = ut::r(Ubitrack::Math::Quaternion::fromLogarithm(ut::v(v))); Q xe = expv(v);
    REQ(std::fabs(x.x - xe.x) + std::fabs(x.y - xe.y) + std::fabs(x.z - xe.z) + std::fabs(x.w - xe.w) < 1e-11L, "exponential " << x << " expected " << xe);
    // negateIfCloser: same rotation, on the reference's hemisphere
    Q rf = genQ(g); Q n = ut::r(A.negateIfCloser(ut::q(rf)));
    REQ(dot(n, rf) >= -1e-15L, "result is on the opposite hemisphere");
    bool eq = n.x == q.x && n.y == q.y && n.z == q.z && n.w == q.w, op = n.x == -q.x && n.y == -q.y && n.z == -q.z && n.w == -q.w;
    REQ(eq || op, "negateIfCloser changed the rotation");
    // normalise / invert
    L s = g.logreal(1e-5, 1e5); Ubitrack::Math::Quaternion U(double(q.x * s), double(q.y * s), double(q.z * s), double(q.w * s)); U.normalize();
    Q un = ut::r(U); REQ(std::fabs(norm(un) - 1) < 1e-13L && norm(Q(un.x - q.x, un.y - q.y, un.z - q.z, un.w - q.w)) < 1e-12L, "normalize gave " << un);
    Ubitrack::Math::Quaternion I = A; I.invert(); REQ(rotDist(ut::r(I), conj(q)) < 1e-12L && I == ~A, "invert");
    REQ(rotDist(ut::r(Ubitrack::Math::Quaternion(A * I)), Q()) < 1e-12L, "q * inverse(q)");
    double an = A.angle(); L ae = 2 * std::atan2(std::sqrt(q.x * q.x + q.y * q.y + q.z * q.z), std::fabs(q.w));
    REQ(std::fabs(an - ae) < 5e-7L, "rotation angle " << an << " expected " << ae);
}

// Stateful: a chain of operations on one pose, against a 4x4 reference matrix (as rotation matrix + translation)
PROP(history, 8000, 300000, "history of at least 3 operations of at least 2 kinds") {
    int n = g.size(1, 40); P cur; Ubitrack::Math::Pose C; std::set<int> kinds; g.note() << "ops:";
    L scale = 1;
    for (int i = 0; i < n; ++i) {
        int k = g.range(0, 7); kinds.insert(k); g.note() << " " << k;
        switch (k) {
        case 0: { P b = genP(g, 10); cur = cur * b; C = C * ut::p(b); break; }
        case 1: { P b = genP(g, 10); cur = b * cur; C = ut::p(b) * C; break; }
        case 2: cur = inv(cur); C = ~C; break;
        case 3: { Ubitrack::Math::Vector<double, 7> v; C.toVector(v); C = Ubitrack::Math::Pose::fromVector(v); break; }
        case 4: { Ubitrack::Math::Matrix<double, 4, 4> m(C); C = Ubitrack::Math::Pose(Ubitrack::Math::Matrix<double, 0, 0>(m)); break; }
        case 5: { double s = g.pick(std::vector<double>{0.5, 2, -1, 1, 0.25}); cur.t = L(s) * cur.t; C.scalePose(s); break; }
        case 6: { Ubitrack::Math::Quaternion q = C.rotation(); q.normalize(); C = Ubitrack::Math::Pose(q, C.translation()); cur.q = unit(cur.q); break; }
        case 7: { Ubitrack::Math::Quaternion q = Ubitrack::Math::Quaternion::fromLogarithm(C.rotation().toLogarithm()); C = Ubitrack::Math::Pose(q, C.translation()); break; }
        }
        scale = std::max(scale, norm(cur.t));
        P r = ut::r(C);
        REQ(rotDist(r.q, cur.q) < 1e-5L, "after " << i + 1 << " operations rotation is " << r << " expected " << cur);
        REQ(maxAbs(r.t - cur.t) < 1e-4L * (1 + scale), "after " << i + 1 << " operations translation is " << r << " expected " << cur);
        REQ(std::fabs(norm(r.q) - 1) < 1e-9L, "rotation lost unit length");
    }
    g.nontrivial(n >= 3 && kinds.size() >= 2);
}
