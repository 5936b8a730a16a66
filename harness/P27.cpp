// P27: timestamps and the synchronization of clocks.
#include "pbt.h"
#include "ref.h"
#include <utMeasurement/Timestamp.h>
#include <utMeasurement/TimestampSync.h>
#include <utMeasurement/TimestampSyncLS.h>
#include <sys/time.h>
#include <time.h>
#include <cstdio>
#include <cstdlib>
using namespace Ubitrack::Measurement;
typedef long double ld;
typedef unsigned long long u64;
namespace {
struct Quiet { std::streambuf* b; std::ostringstream s; Quiet() : b(std::cerr.rdbuf(s.rdbuf())) {} ~Quiet() { std::cerr.rdbuf(b); } };
/// proleptic Gregorian calendar from days since 1970
void civil(long long z, long long& y, int& m, int& d) {
    y = 1970;
    auto leap = [](long long y) { return (y % 4 == 0 && y % 100 != 0) || y % 400 == 0; };
    while (z < 0) { --y; z += leap(y) ? 366 : 365; }
    while (z >= (leap(y) ? 366 : 365)) { z -= leap(y) ? 366 : 365; ++y; }
    int len[] = {31, leap(y) ? 29 : 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
    m = 0;
    while (z >= len[m]) z -= len[m++];
    d = int(z) + 1;
}
u64 genTime(pbt::Ctx& g) {
    u64 t;
    switch (g.range(0, 4)) {
    case 0: t = g.draw(~0ULL); break;
    case 1: t = 1000000000ULL * 86400 * g.draw(213000) + (g.coin() ? 0 : g.coin() ? 86399999999999ULL : g.draw(86399999999999ULL)); break;
    case 2: t = 1000000000ULL * g.draw(18446744073ULL) + (g.coin() ? 999999999 : 0); break;
    case 3: t = g.draw(1000000000ULL * 86400 * 400); break;
    default: t = 1000000000ULL * (1600000000ULL + g.draw(400000000ULL)) + g.draw(999999999); break;
    }
    return t;
}
const char* days[] = {"Sun", "Mon", "Tue", "Wed", "Thu", "Fri", "Sat"};
const char* months[] = {"Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"};
/// signed distance of two time stamps
ld dist(u64 a, u64 b) { return ld((long long)(a - b)); }
struct Clocks {
    u64 t0;
    ld local, native0, factor;   ///< local ticks per second, first native value, native ticks per local tick
    ld jitter;
    u64 t;                       ///< true local time of the current event
    double native;
    Clocks(pbt::Ctx& g, ld localFreq, ld nativeFreq, ld off) : local(localFreq), factor(nativeFreq / localFreq * off), jitter(0) {
        t0 = g.coin() ? 1 + g.draw(1000) : g.draw(2000000000000000000ULL);
        native0 = g.oneIn(3) ? 0 : g.coin() ? ld(g.draw(1000000)) : ld(g.draw(4000000000ULL)) * nativeFreq;
        t = t0;
        native = double(native0);
    }
    void advance(ld seconds) { t += u64(seconds * local); native = double(native0 + dist(t, t0) * factor); }
};
}
PROP(time_strings, 2000, 100000, "the time zone is not UTC") {
    u64 t = genTime(g);
    long long off = g.oneIn(3) ? 0 : 1800 * (long long)g.range(-24, 28);
    char tz[32];
    std::snprintf(tz, sizeof tz, "XYZ%s%lld:%02lld", off > 0 ? "-" : "+", std::llabs(off) / 3600, std::llabs(off) / 60 % 60);
    setenv("TZ", tz, 1);
    tzset();
    std::string full = timestampToString(t), brief = timestampToShortString(t);
    setenv("TZ", "UTC", 1);
    tzset();
    long long s = (long long)(t / 1000000000), y;
    int m, d;
    civil(s / 86400, y, m, d);
    char want[64], pad[64];
    std::snprintf(want, sizeof want, "%s %s %2d %02lld:%02lld:%02lld %lld UTC", days[(s / 86400 + 4) % 7], months[m], d, s / 3600 % 24, s / 60 % 60, s % 60, y);
    std::snprintf(pad, sizeof pad, "%s %s %02d %02lld:%02lld:%02lld %lld UTC", days[(s / 86400 + 4) % 7], months[m], d, s / 3600 % 24, s / 60 % 60, s % 60, y);
    g.nontrivial(off != 0);
    g.note() << t << " " << tz;
    REQ(full == want || full == pad, "time " << t << " is written as '" << full << "' instead of '" << want << "'");
    long long l = ((s + off) % 86400 + 86400) % 86400;
    std::snprintf(want, sizeof want, "%02lld:%02lld:%02lld.%06llu", l / 3600, l / 60 % 60, l % 60, t / 1000 % 1000000);
    REQ(brief == want, "time " << t << " is written as '" << brief << "' instead of '" << want << "' in zone " << tz);
}
PROP(now_is_the_system_clock, 300, 10000, "always") {
    timeval a, b;
    gettimeofday(&a, 0);
    u64 n1 = now(), n2 = now();
    gettimeofday(&b, 0);
    u64 x = u64(a.tv_sec) * 1000000 + a.tv_usec, z = u64(b.tv_sec) * 1000000 + b.tv_usec;
    g.nontrivial(true);
    g.note() << g.draw(1000000);
    if (z < x) return;   // the clock was set back
    REQ(n1 / 1000 >= x && n1 / 1000 <= z, "now is " << n1 << ", outside " << x << "000 to " << z << "999");
    REQ(n2 >= n1 && n2 / 1000 <= z, "now goes from " << n1 << " to " << n2);
}
namespace {
/// the documented filter: state (local time, gain), constant gain, outliers beyond three deviations skipped on a budget
struct Filter {
    ld R, qL, qG, est, gain, p1, p2, p3, avg, last;
    int budget;
    unsigned events;
    bool clear;
    Filter(ld nf, ld lf) : budget(-100), events(0), clear(true) { frequency(nf, lf); }
    void frequency(ld nf, ld lf) {
        gain = lf / nf;
        qL = 1e-6L * lf * lf; qG = 1e-8L * gain * gain; R = 9e-4L * lf * lf;
        p1 = lf * lf; p2 = 0; p3 = 100 * gain * gain; avg = 1e-6L * lf * lf;
    }
    /// times relative to the first local time
    /// slack: what the whole ticks of the real filter may have moved its estimate by so far
    ld convert(ld native, ld local, ld slack = 0) {
        if (events == 0) { last = native; est = local; }
        ld d = native - last;
        est += d * gain;
        p1 += 2 * d * p2 + d * d * p3 + qL; p2 += d * p3; p3 += qG;
        ld e = local - est;
        if (budget >= 0 && (std::fabs(e * e - 9 * avg) < 1e-2L * 9 * avg + 1000 || std::fabs(std::fabs(e) - 3 * std::sqrt(avg)) < 10 * slack + 10)) clear = false;
        if (e * e < 9 * avg || budget < 0) {
            ld k1 = p1 / (R + p1), k2 = p2 / (R + p1);
            gain += k2 * e; est += k1 * e;
            p1 = R * k1; p3 -= p2 * k2; p2 = R * k2;
            if (events > 50) avg += (e * e - avg) * 0.01L;
            budget = std::min(40, budget + 1);
        } else
            budget -= 2;
        last = native;
        ++events;
        return est;
    }
};
}
PROP(filter, 600, 20000, "at least 150 events, some of them outliers") {
    ld lf = g.oneIn(4) ? ld(g.pick(std::vector<double>{1e6, 1e3})) : 1e9L, nf = ld(g.pick(std::vector<double>{1, 30, 1000, 1e6, 1e9}));
    ld off = g.coin() ? 1 + ld(g.sym(1e-3)) : ld(g.logreal(0.2, 5));
    bool deflt = lf == 1e9L && g.coin();
    double nd = double(nf), ldd = double(lf);
    TimestampSync sync(deflt ? nd : 1, deflt ? 1e9 : ldd);
    if (!deflt) { if (lf == 1e9L && g.coin()) sync.setFrequency(nd); else sync.setFrequency(nd, ldd); }
    Filter f(nf, lf);
    Clocks c(g, lf, nf, off);
    ld jitter = g.oneIn(4) ? 0 : ld(g.logreal(1e-5, 3e-2)), mean = ld(g.logreal(1e-3, 0.5));
    // the clock may be set once, by much more than any outlier limit
    bool jumps = g.oneIn(4);
    int n = jumps ? g.range(150, 600) : g.oneIn(3) ? g.range(120, 400) : g.size(1, 130), outliers = 0, at = jumps ? g.range(110, n - 1) : -1;
    u64 shift = 0;
    if (jumps) g.cls("clock is set");
    g.cls(n > 110 ? "with outlier detection" : "settling");
    ld span = 0, slack = 0;
    g.note() << n << " events, native frequency " << nd << " off by " << double(off) << ", jitter " << double(jitter) << " interval " << double(mean);
    for (int i = 0; i < n; ++i) {
        if (i) c.advance(mean * ld(g.real(0.2, 1.8)));
        if (i == at) { shift = u64(lf * ld(g.logreal(1, 100))); if (g.coin()) shift = 0 - shift; }
        u64 l = c.t + u64(jitter * lf * std::fabs(ld(g.gauss()))) + shift;
        if (n > 110 && g.oneIn(20)) { l += u64(lf * ld(g.logreal(0.05, 20))); ++outliers; }
        if (i && g.oneIn(40) && dist(c.t, c.t0) > lf) l -= u64(lf * ld(g.real(0, 1)));
        u64 got = sync.convertNativeToLocal(c.native, l);
        ld want = f.convert(ld(c.native) - c.native0, dist(l, c.t0), slack);
        span = std::max(span, std::fabs(want));
        REQ(sync.getEventCount() == unsigned(i + 1), "counted " << sync.getEventCount() << " events");
        if (!f.clear) { g.cls("ambiguous"); break; }
        // truncation to whole ticks, rounding of the native values
        ld tol = 5 * (i + 2) + 1e-9L * span + 20 * 2.3e-16L * std::fabs(ld(c.native)) / c.factor;
        slack = std::max(slack, std::fabs(dist(got, c.t0) - want));
        if (i == 0) REQ(got == l, "the first time is changed from " << l << " to " << got);
        REQ(std::fabs(dist(got, c.t0) - want) <= tol, "event " << i << ": local time " << got - c.t0 << ", expected " << double(want) << ", tolerance " << double(tol));
    }
    g.nontrivial(n >= 150 && outliers > 0);
}
PROP(follows_the_clock, 250, 8000, "the frequency is off by more than a percent") {
    // after some events the conversion is no worse than the jitter, and single outliers do not matter
    ld lf = 1e9L, nf = ld(g.pick(std::vector<double>{30, 1000, 1e6, 1e9})), off = g.coin() ? 1 + ld(g.sym(1e-3)) : ld(g.logreal(0.2, 5));
    TimestampSync sync{double(nf)};
    Clocks c(g, lf, nf, off);
    ld jitter = g.oneIn(3) ? 0 : ld(g.logreal(1e-5, 2e-2)), dt = ld(g.logreal(0.005, 0.2));
    int n = 400;
    u64 prev = 0;
    g.nontrivial(std::fabs(off - 1) > 0.01L);
    g.cls(jitter > 0 ? "jitter" : "exact");
    g.note() << "off by " << double(off) << ", jitter " << double(jitter) << ", interval " << double(dt);
    for (int i = 0; i < n; ++i) {
        if (i) c.advance(dt * ld(g.real(0.8, 1.2)));
        u64 l = c.t + u64(jitter * lf * ld(g.unit()));
        bool out = i > 200 && g.oneIn(25);
        if (out) l += u64(lf * ld(g.real(10, 20) * std::max(jitter, 0.02L)));
        u64 got = sync.convertNativeToLocal(c.native, l);
        ld e = dist(got, c.t);
        ld noise = 20 * 2.3e-16L * std::fabs(ld(c.native)) / c.factor;
        if (i > 200) {
            REQ(e > -jitter * lf - 1e5L - noise && e < 2 * jitter * lf + 1e5L + noise, "event " << i << " is " << double(e / lf) << " s off at a jitter of " << double(jitter) << (out ? " (outlier)" : ""));
            REQ(got > prev, "time goes from " << prev << " to " << got);
        }
        prev = got;
    }
}
PROP(moved_clocks, 200, 8000, "the local clock starts elsewhere") {
    // the choice of the epochs does not matter
    double nf = g.pick(std::vector<double>{30, 1000, 1e6});
    TimestampSync a(nf), b(nf);
    u64 ta = 1 + g.draw(1000000000), tb = g.draw(2000000000000000000ULL);
    double nb = double(g.draw(1000000));
    u64 t = 0;
    int n = g.size(2, 300);
    g.nontrivial(n > 20);
    g.note() << n << " events";
    for (int i = 0; i < n; ++i) {
        if (i) t += 1000000 * (1 + g.draw(200));
        double native = double(std::floor(ld(t) * 1e-9L * nf * 16)) / 16;
        u64 j = g.draw(3000000), ra = a.convertNativeToLocal(native, ta + t + j), rb = b.convertNativeToLocal(native + nb, tb + t + j);
        REQ(ra - ta == rb - tb, "event " << i << ": moved epochs change the result by " << (long long)(rb - tb - (ra - ta)));
    }
}
namespace {
/// exponentially weighted regression of local over native time
struct Regression {
    ld n, nn, l, ln, avg;
    int budget, events;
    bool clear;
    Regression() : n(0), nn(0), l(0), ln(0), avg(1e12L), budget(0), events(0), clear(true) {}
    ld convert(ld x, ld y, ld& amp) {
        ld r = y, dev = 0, thr = 0;
        amp = 0;
        if (events > 10) {
            ld var = nn - n * n;
            r = l + (x - n) * (ln - l * n) / var;
            amp = std::fabs(x - n) / std::sqrt(var);
            dev = (r - y) * (r - y);
            thr = 9 * avg;
            if (events >= 100 && budget >= 0 && std::fabs(dev - thr) < 0.01L * thr + 1000) clear = false;
        }
        if (events < 100 || dev < thr || budget < 0) {
            ld w = events < 100 ? 1.0L / (events + 1) : 0.001L;
            n += (x - n) * w; l += (y - l) * w; nn += (x * x - nn) * w; ln += (x * y - ln) * w;
            if (events > 10) avg += (dev - avg) * 0.01L;
            budget = std::min(40, budget + 1);
        } else
            budget -= 2;
        ++events;
        return r;
    }
};
}
PROP(regression, 400, 15000, "at least 150 events, some of them outliers") {
    Quiet quiet;
    ld nf = ld(g.pick(std::vector<double>{1, 30, 1000, 1e6, 1e9})), off = ld(g.logreal(0.2, 5));
    TimestampSyncLS sync;
    Regression f;
    Clocks c(g, 1e9L, nf, off);
    ld jitter = g.oneIn(4) ? 0 : ld(g.logreal(1e-5, 3e-2)), mean = ld(g.logreal(1e-3, 0.5));
    int n = g.oneIn(3) ? g.range(120, 400) : g.size(1, 130), outliers = 0;
    ld span = 0;
    g.note() << n << " events, native frequency " << double(nf) << " off by " << double(off) << ", jitter " << double(jitter) << " interval " << double(mean);
    u64 first = 0;
    for (int i = 0; i < n; ++i) {
        if (i) c.advance(mean * ld(g.real(0.2, 1.8)));
        u64 l = c.t + u64(jitter * 1e9L * std::fabs(ld(g.gauss())));
        if (n > 110 && g.oneIn(20)) { l += u64(1e9L * ld(g.logreal(0.05, 20))); ++outliers; }
        if (i && g.oneIn(40)) l -= u64(1e9L * ld(g.real(0, 1)));
        if (i == 0) first = l;
        u64 got = sync.convertNativeToLocal(c.native, l);
        ld amp, want = f.convert(ld(c.native) - c.native0, dist(l, first), amp);
        span = std::max(span, std::max(std::fabs(want), std::fabs(dist(l, first))));
        REQ(sync.getEventCount() == unsigned(i + 1), "counted " << sync.getEventCount() << " events");
        if (!f.clear || amp > 1e3L) { g.cls("ambiguous"); break; }
        ld tol = 10 + 1e-9L * span * (1 + amp) * (1 + amp) + 100 * 2.3e-16L * std::fabs(ld(c.native)) / c.factor;
        REQ(std::fabs(dist(got, first) - want) <= tol, "event " << i << ": local time " << (long long)(got - first) << ", expected " << double(want) << ", tolerance " << double(tol) << (l < first ? " (before the first)" : ""));
    }
    g.nontrivial(n >= 150 && outliers > 0);
}
