// P07: calibration files.
#include "sertypes.h"
#include <utUtil/CalibFile.h>
#include <utUtil/SimpleStringIArchive.h>
#include <utUtil/SimpleStringOArchive.h>
#include <unistd.h>
#include <sys/stat.h>
#include <fstream>
using namespace st;
namespace U = Ubitrack::Util;
namespace {
struct Dir {   // scratch directory of this worker
    std::string d; pid_t owner;
    Dir() : owner(getpid()) { char b[] = "/tmp/p07-XXXXXX"; d = mkdtemp(b); }
    std::string f(const char* n = "calib") const { return d + "/" + n; }
    ~Dir() { if (getpid() == owner) { unlink(f().c_str()); unlink(f("second").c_str()); rmdir(d.c_str()); } }
};
std::string slurp(const std::string& f) { std::ifstream i(f.c_str(), std::ios::binary); return std::string((std::istreambuf_iterator<char>(i)), std::istreambuf_iterator<char>()); }
void spit(const std::string& f, const std::string& s) { std::ofstream o(f.c_str(), std::ios::binary); o << s; }

/// the numbers of a text file in the order in which they are stored
std::vector<double> doublesIn(const std::string& s) {
    std::vector<double> r; std::istringstream i(s); std::string t;
    while (i >> t) if (t.find('e') != std::string::npos && t.find(':') == std::string::npos) r.push_back(strtod(t.c_str(), 0));
    return r;
}
std::vector<double> doublesOf(const Dump& d) { std::vector<double> r; for (auto& s : d) { size_t p = s.find('/'); if (p != std::string::npos && s.size() - p == 17) { uint64_t u = strtoull(s.c_str() + p + 1, 0, 16); double x; std::memcpy(&x, &u, 8); r.push_back(x); } } return r; }

template <class T> void file(pbt::Ctx& g, const char* name) {
    typedef Measurement::Measurement<T> M;
    Dir dir; bool bin = g.oneIn(3), withTime = g.coin();
    T v = G<T>::gen(g, bin ? ANY : FINITE); M m(genU64(g), v);
    Dump a = dumpOf(v); g.note() << name << (bin ? " binary" : " text") << (withTime ? " measurement " : " ") << show(a);
    g.cls(std::string(bin ? "binary" : "text") + (withTime ? " measurement" : "")); g.nontrivial(a.size() > 1);
    if (g.coin()) spit(dir.f(), std::string(g.draw(3000), 'x'));   // overwrites what is there
    if (bin) { if (withTime) U::writeBinaryCalibFile(dir.f(), m); else U::writeBinaryCalibFile(dir.f(), v); }
    else { if (withTime) U::writeCalibFile(dir.f(), m); else U::writeCalibFile(dir.f(), v); }
    if (withTime) {
        M w = g.coin() ? M() : M(3, G<T>::gen(g, FINITE)), keep = w; Dump k = dumpOf(keep);
        if (bin) { w = M(0, T()); U::readBinaryCalibFile(dir.f(), w); } else U::readCalibFile(dir.f(), w);
        REQ(w && w.time() == m.time(), name << ": timestamp " << w.time() << " instead of " << m.time());
        REQ(dumpOf(*w) == a, name << ": " << diff(a, dumpOf(*w)));
        if (!bin) {
            REQ(dumpOf(keep) == k, "reading a file changed another measurement");
            T d = T(); U::readCalibFileDropMeasurement(dir.f(), d); REQ(dumpOf(d) == a, name << " without timestamp: " << diff(a, dumpOf(d)));
        }
    } else {
        T w = g.coin() ? T() : G<T>::gen(g, FINITE);
        if (bin) U::readBinaryCalibFile(dir.f(), w); else U::readCalibFile(dir.f(), w);
        REQ(dumpOf(w) == a, name << ": " << diff(a, dumpOf(w)));
    }
    if (!bin) {   // stored order of the numbers: files of other installations have to stay readable
        std::vector<double> fileV = doublesIn(slurp(dir.f())), want = doublesOf(a);
        REQ(fileV.size() == want.size(), name << ": file holds " << fileV.size() << " numbers instead of " << want.size());
        for (size_t i = 0; i < want.size(); ++i) REQ(fileV[i] == want[i], name << ": number " << i << " in the file is " << fileV[i] << " instead of " << want[i]);
    }
}
template <class T> void bad(pbt::Ctx& g, const char* name) {
    typedef Measurement::Measurement<T> M;
    Dir dir; T v = G<T>::gen(g, FINITE); M m(5, v);
    int kind = int(g.draw(4)); g.note() << name << " damage " << kind; g.cls("damage " + std::to_string(kind)); g.nontrivial();
    std::string f = dir.f();
    if (kind == 0) f = dir.f("missing");
    else {
        bool withTime = g.coin();
        if (withTime) U::writeCalibFile(f, m); else U::writeCalibFile(f, v);
        std::string s = slurp(f);
        if (kind == 1) s = "";
        else if (kind == 2) { s.resize(g.draw(24)); }                                      // header cut
        else if (kind == 3) { size_t p = s.find(' ', s.find("archive ") + 8); s.resize(p); }  // header only
        else { s = std::string(g.draw(200), 'z') + " garbage"; }
        spit(f, s);
    }
    auto expect = [&](const char* what, std::function<void()> fn) {
        std::string how = "no exception";
        try { fn(); } catch (const U::Exception&) { how = ""; } catch (const std::exception& e) { how = std::string("foreign exception ") + e.what(); }
        REQ(how.empty(), name << ' ' << what << " of an unreadable file: " << how);
    };
    expect("text read", [&] { T w = T(); U::readCalibFile(f, w); });
    expect("measurement read", [&] { M w; U::readCalibFile(f, w); });
    expect("read without timestamp", [&] { T w = T(); U::readCalibFileDropMeasurement(f, w); });
    expect("binary read", [&] { T w = T(); U::readBinaryCalibFile(f, w); });
}
// a file whose stored numbers claim more than any memory holds: unreadable, or (number not a length) read, but nothing else
template <class T> void absurd(pbt::Ctx& g, const char* name) {
    typedef std::vector<T> L; typedef Measurement::Measurement<L> M;
    Dir dir; L v; int n = 200 + int(g.draw(55)); T x = G<T>::gen(g, FINITE); for (int i = 0; i < n; ++i) v.push_back(x);
    int way = int(g.draw(2)); const char* huge = g.coin() ? "9223372036854775807" : "18446744073709551615";
    std::string f = dir.f(); g.nontrivial(); g.cls(way == 2 ? "binary" : way ? "text measurement" : "text");
    if (way == 0) U::writeCalibFile(f, v); else if (way == 1) U::writeCalibFile(f, M(5, v)); else U::writeBinaryCalibFile(f, v);
    std::string s = slurp(f); std::vector<size_t> at;
    if (way == 2) {
        std::string k(8, '\0'); k[0] = char(n); for (size_t p = s.find(k, 20); p != std::string::npos; p = s.find(k, p + 1)) at.push_back(p);
        g.assume(!at.empty()); s.replace(at[0], 8, std::string(7, '\xff') + (g.coin() ? '\x7f' : '\xff'));
    } else {
        std::string k = ' ' + std::to_string(n) + ' '; size_t p = s.find(k, 20); g.assume(p != std::string::npos);
        s.replace(p + 1, k.size() - 2, huge);
    }
    spit(f, s); g.note() << name << " list of " << n << " with its length replaced by " << huge;
    auto expect = [&](const char* what, std::function<void()> fn) {
        std::string how = "no exception";
        try { fn(); } catch (const U::Exception&) { how = ""; } catch (const std::exception& e) { how = std::string("foreign exception ") + e.what(); }
        REQ(how.empty(), name << ' ' << what << " of a list with an impossible length: " << how);
    };
    if (way == 0) expect("text read", [&] { L w; U::readCalibFile(f, w); });
    else if (way == 2) expect("binary read", [&] { L w; U::readBinaryCalibFile(f, w); });
    else { expect("measurement read", [&] { M w; U::readCalibFile(f, w); }); expect("read without timestamp", [&] { L w; U::readCalibFileDropMeasurement(f, w); }); }
}
typedef void (*Fn)(pbt::Ctx&, const char*);
struct Ent { const char* n; Fn f, l, b, a; };
#define X(n, ...) {#n, file<__VA_ARGS__ >, file<std::vector<__VA_ARGS__ > >, bad<__VA_ARGS__ >, absurd<__VA_ARGS__ >},
const Ent table[] = {SER_TYPES(X)};
const int NT = sizeof table / sizeof *table;
}  // namespace
PROP(file_round_trip, 16000, 600000, "value with more than one number") {
    foldZero() = false;
    const Ent& e = table[g.draw(NT - 1)]; if (g.oneIn(3)) e.l(g, (std::string("list of ") + e.n).c_str()); else e.f(g, e.n);
}
PROP(unreadable_file, 4000, 100000, "always (missing, empty, cut or foreign file)") { const Ent& e = table[g.draw(NT - 1)]; e.b(g, e.n); }
PROP(impossible_length, 1500, 40000, "always (the stored length of a list is beyond any memory)") { const Ent& e = table[g.draw(NT - 1)]; e.a(g, e.n); }
PROP(failed_write, 1000, 20000, "write to a full device or into a directory that does not exist") {
    g.nontrivial(); Math::Pose p = G<Math::Pose>::gen(g, FINITE); std::vector<Math::Pose> l(g.size(0, 300), p);
    Dir dir; std::string f = g.coin() ? std::string("/dev/full") : dir.f("no/such/place"); g.note() << f << " list of " << l.size();
    auto expect = [&](const char* what, std::function<void()> fn) {
        bool threw = false; try { fn(); } catch (const std::exception&) { threw = true; }
        REQ(threw, what << " to " << f << " reported success");
    };
    expect("text write", [&] { U::writeCalibFile(f, l); }); expect("binary write", [&] { U::writeBinaryCalibFile(f, l); });
    expect("text write", [&] { U::writeCalibFile(f, p); }); expect("binary write", [&] { U::writeBinaryCalibFile(f, p); });
}

namespace {
template <class T> void strRt(pbt::Ctx& g, const char* name) {
    T v = G<T>::gen(g, FINITE); Dump a = dumpOf(v); g.note() << name << ' ' << show(a); g.cls(name); g.nontrivial(a.size() > 1);
    std::vector<double> want = doublesOf(a);
    for (double x : want) g.assume(std::fabs(x) < 1e300 && (x == 0 || std::fabs(x) > 1e-300));
    U::SimpleStringOArchive o; o << v; std::string s = o.str();
    U::SimpleStringIArchive i(s); T w = T(); i >> w; Dump b = dumpOf(w); std::vector<double> got = doublesOf(b);
    REQ(a.size() == b.size() && want.size() == got.size(), name << ": " << diff(a, b));
    for (size_t k = 0; k < want.size(); ++k) REQ(std::fabs(want[k] - got[k]) <= 6e-6 * std::fabs(want[k]), name << ": number " << k << " wrote " << want[k] << " read " << got[k] << " from " << s);
    for (size_t k = 0; k < a.size(); ++k) if (a[k].find('/') == std::string::npos) REQ(a[k] == b[k], name << ": wrote " << a[k] << " read " << b[k]);
    // dropping the last item makes it unreadable
    size_t p = s.rfind(' ');
    U::SimpleStringIArchive j(p == std::string::npos ? std::string() : s.substr(0, p)); bool threw = false; T x = T();
    try { j >> x; } catch (const U::Exception&) { threw = true; }
    REQ(threw, name << ": a string with a missing item was accepted: " << s.substr(0, p));
}
typedef void (*SFn)(pbt::Ctx&, const char*);
struct SEnt { const char* n; SFn f; };
#define SX(n, ...) {#n, strRt<__VA_ARGS__ >},
const SEnt stable_[] = {SX(ScalarD, Math::Scalar<double>) SX(ScalarI, Math::Scalar<int>) SX(Vector2, Math::Vector<double, 2>) SX(Vector3, Math::Vector<double, 3>) SX(Quat, Math::Quaternion) SX(Matrix33, Math::Matrix<double, 3, 3>)
    SX(Matrix34, Math::Matrix<double, 3, 4>) SX(PoseT, Math::Pose) SX(ErrPose, Math::ErrorPose) SX(RotVel, Math::RotationVelocity) SX(ErrVec, Math::ErrorVector<double, 3>) SX(MPose, Measurement::Pose) SX(MPos, Measurement::Position)};
}  // namespace
PROP(string_archive, 10000, 400000, "value with more than one number") { const SEnt& e = stable_[g.draw(sizeof stable_ / sizeof *stable_ - 1)]; e.f(g, e.n); }
