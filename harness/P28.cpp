// P28: measurements share their payload until cloned.
#include "pbt.h"
#include "ut.h"
#include <utMeasurement/Measurement.h>
#include <utUtil/Exception.h>
#include <sstream>
#include <cstdlib>
#include <time.h>
using namespace Ubitrack;
typedef unsigned long long u64;
namespace {
/// a payload that is identified by one number and counts its instances
struct Token {
    static long alive;
    int v;
    Token() : v(-1) { ++alive; }
    Token(int x) : v(x) { ++alive; }
    Token(const Token& o) : v(o.v) { ++alive; }
    Token& operator=(const Token& o) { v = o.v; return *this; }
    ~Token() { --alive; }
};
long Token::alive = 0;
std::ostream& operator<<(std::ostream& s, const Token& t) { return s << "<" << t.v << ">"; }
template <class T> struct Val;
template <> struct Val<Token> { static Token make(int n) { return Token(n); } static int get(const Token& t) { return t.v; } static const char* name() { return "token"; } };
template <> struct Val<Math::Scalar<int>> { static Math::Scalar<int> make(int n) { return Math::Scalar<int>(n); } static int get(const Math::Scalar<int>& t) { return t.m_value; } static const char* name() { return "button"; } };
template <> struct Val<Math::Scalar<double>> { static Math::Scalar<double> make(int n) { return Math::Scalar<double>(n); } static int get(const Math::Scalar<double>& t) { return int(t.m_value); } static const char* name() { return "distance"; } };
template <std::size_t N> struct Val<Math::Vector<double, N>> {
    typedef Math::Vector<double, N> T;
    static T make(int n) { T v; for (std::size_t i = 0; i < N; ++i) v(i) = n + 0.25 * i; return v; }
    static int get(const T& t) { for (std::size_t i = 0; i < N; ++i) if (t(i) != t(0) + 0.25 * i) return -999; return int(t(0)); }
    static const char* name() { return "vector"; }
};
template <> struct Val<Math::Quaternion> { static Math::Quaternion make(int n) { return Math::Quaternion(n, n + 0.5, -n, 1); } static int get(const Math::Quaternion& q) { return q.y() == q.x() + 0.5 && q.z() == -q.x() && q.w() == 1 ? int(q.x()) : -999; } static const char* name() { return "rotation"; } };
template <> struct Val<Math::Pose> { static Math::Pose make(int n) { return Math::Pose(Math::Quaternion(0, 0.6, 0, 0.8), Val<Math::Vector<double, 3>>::make(n)); } static int get(const Math::Pose& p) { return p.rotation().y() == 0.6 ? Val<Math::Vector<double, 3>>::get(p.translation()) : -999; } static const char* name() { return "pose"; } };
template <class V> struct Val<std::vector<V>> {
    static std::vector<V> make(int n) { std::vector<V> r; for (int i = 0; i < 1 + (n & 3); ++i) r.push_back(Val<V>::make(n + i)); return r; }
    static int get(const std::vector<V>& r) { if (r.empty()) return -999; int n = Val<V>::get(r[0]); if (int(r.size()) != 1 + (n & 3)) return -999; for (std::size_t i = 0; i < r.size(); ++i) if (Val<V>::get(r[i]) != n + int(i)) return -999; return n; }
    static const char* name() { return "list"; }
};
u64 genTime(pbt::Ctx& g) { return g.oneIn(8) ? 0 : g.oneIn(8) ? ~0ULL : g.coin() ? 1 + g.draw(20) : g.draw(~0ULL); }
/// handles to shared cells
struct Handle { u64 t; int cell; };
template <class T> void history(pbt::Ctx& g) {
    typedef Measurement::Measurement<T> M;
    typedef Measurement::Measurement<const T> CM;
    long alive = Token::alive;
    {
        std::vector<M> ms;
        std::vector<Handle> hs;
        std::vector<int> cells;   // value of each payload
        int next = 0, ops = g.size(1, 30), clones = 0, writes = 0;
        g.cls(Val<T>::name());
        g.note() << Val<T>::name() << ":";
        auto add = [&](const M& m, Handle h) { if (ms.size() < 6 || g.coin()) { ms.push_back(m); hs.push_back(h); } else { std::size_t i = g.draw(ms.size() - 1); ms[i] = m; hs[i] = h; } };
        for (int o = 0; o < ops; ++o) {
            int k = ms.empty() ? g.range(0, 4) : g.range(0, 14);
            std::size_t i = ms.empty() ? 0 : g.draw(ms.size() - 1);
            u64 t = genTime(g);
            g.note() << " " << k;
            switch (k) {
            case 0: { T v(Val<T>::make(next)); M m(t, v); v = Val<T>::make(7777); cells.push_back(next++); add(m, Handle{t, int(cells.size()) - 1}); break; }
            case 1: { boost::shared_ptr<T> p(new T(Val<T>::make(next))); M m(t, p); REQ(m.get() == p.get(), "the payload of a pointer is copied"); *p = Val<T>::make(++next); cells.push_back(next++); add(m, Handle{t, int(cells.size()) - 1}); break; }
            case 2: { T v(Val<T>::make(next)); M m(v); v = Val<T>::make(7777); cells.push_back(next++); add(m, Handle{0, int(cells.size()) - 1}); break; }
            case 3: { boost::shared_ptr<T> p(new T(Val<T>::make(next))); M m(p); cells.push_back(next++); add(m, Handle{0, int(cells.size()) - 1}); break; }
            case 4: if (g.coin()) add(M(t), Handle{t, -1}); else add(M(), Handle{0, -1}); break;
            case 5: { M m(ms[i]); Handle h = hs[i]; add(m, h); break; }
            case 6: { std::size_t j = g.draw(ms.size() - 1); ms[j] = ms[i]; hs[j] = hs[i]; break; }
            case 7: case 8: { M m(ms[i].clone()); Handle h = hs[i]; if (h.cell >= 0) { cells.push_back(cells[h.cell]); h.cell = int(cells.size()) - 1; REQ(m.get() != ms[i].get(), "a clone shares its payload"); } else REQ(!m.get(), "clone of an empty measurement has a payload"); ++clones; add(m, h); break; }
            case 9: case 10: if (hs[i].cell >= 0) { *ms[i] = Val<T>::make(next); cells[hs[i].cell] = next++; ++writes; } break;
            case 11: ms[i].time(t); hs[i].t = t; break;
            case 12: ms[i].invalidate(); hs[i].t = 0; break;
            case 13: {
                CM c(ms[i].time(), boost::shared_ptr<const T>(ms[i]));
                REQ(c.invalid() == (hs[i].t == 0), "validity of a constant view");
                M m(c.template constCast<T>());
                REQ(m.get() == ms[i].get(), "constCast copies the payload");
                REQ(m.time() == hs[i].t, "constCast changes the time from " << hs[i].t << " to " << m.time());
                CM c2(m.template constCast<const T>());
                REQ(c2.get() == ms[i].get() && c2.time() == hs[i].t, "constCast to constant");
                Handle h = hs[i];
                add(m, h);
                break;
            }
            default: ms[i].reset(); hs[i].cell = -1; break;
            }
            for (std::size_t a = 0; a < ms.size(); ++a) {
                REQ(ms[a].time() == hs[a].t, "measurement " << a << " has time " << ms[a].time() << " instead of " << hs[a].t);
                REQ(ms[a].invalid() == (hs[a].t == 0), "measurement at " << hs[a].t << (ms[a].invalid() ? " is invalid" : " is valid"));
                REQ((ms[a].get() != 0) == (hs[a].cell >= 0), "measurement " << a << (ms[a].get() ? " has a payload" : " lost its payload"));
                if (hs[a].cell >= 0) REQ(Val<T>::get(*ms[a]) == cells[hs[a].cell], "measurement " << a << " has value " << Val<T>::get(*ms[a]) << " instead of " << cells[hs[a].cell]);
                for (std::size_t b = 0; b < a; ++b) REQ((ms[a].get() == ms[b].get()) == (hs[a].cell == hs[b].cell), "measurements " << a << " and " << b << (ms[a].get() == ms[b].get() ? " share" : " do not share") << " their payload");
            }
        }
        g.nontrivial(clones > 0 && writes > 0);
    }
    REQ(Token::alive == alive, Token::alive - alive << " payloads leak");
}
}
PROP(history, 3000, 200000, "both clones and writes") {
    switch (g.range(0, 9)) {
    case 0: history<Token>(g); break;
    case 1: history<Math::Scalar<int>>(g); break;
    case 2: history<Math::Scalar<double>>(g); break;
    case 3: history<Math::Vector<double, 2>>(g); break;
    case 4: history<Math::Vector<double, 3>>(g); break;
    case 5: history<Math::Quaternion>(g); break;
    case 6: history<Math::Pose>(g); break;
    case 7: history<std::vector<Math::Vector<double, 3>>>(g); break;
    case 8: history<std::vector<Math::Pose>>(g); break;
    default: history<std::vector<Math::Scalar<int>>>(g); break;
    }
}
PROP(text, 1000, 50000, "the measurement is valid") {
    setenv("TZ", "UTC", 1);
    tzset();
    u64 t = genTime(g);
    int n = g.range(-50, 50);
    g.nontrivial(t != 0);
    g.note() << n << " at " << t;
    Measurement::Measurement<Token> m(t, Token(n));
    std::ostringstream o;
    o << m << '\n';
    if (t == 0) { REQ(o.str() == "INVALID\n", "invalid measurement is written as " << o.str()); return; }
    char want[64];
    std::snprintf(want, sizeof want, "<%d> %02llu:%02llu:%02llu.%06llu\n", n, t / 3600000000000ULL % 24, t / 60000000000ULL % 60, t / 1000000000ULL % 60, t / 1000 % 1000000);
    REQ(o.str() == want, "measurement is written as " << o.str() << " instead of " << want);
    Measurement::Measurement<Token> e(0, Token(n));
    std::ostringstream o2;
    o2 << e;
    REQ(o2.str() == "INVALID", "invalid measurement is written as " << o2.str());
}
