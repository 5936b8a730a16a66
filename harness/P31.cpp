// P31: files, exceptions, timers and logging.
#include "pbt.h"
#include <utUtil/BlockTimer.h>
#include <utUtil/Exception.h>
#include <utUtil/GlobFiles.h>
#include <utUtil/Logging.h>
#include <utUtil/OS.h>
#include <log4cpp/Category.hh>
#include <cstring>
#include <new>
#include <log4cpp/LayoutAppender.hh>
#include <log4cpp/LoggingEvent.hh>
#include <log4cpp/Priority.hh>
#include <ftw.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>
#include <algorithm>
#include <cerrno>
#include <cmath>
#include <fstream>
#include <iomanip>
#include <functional>
#include <memory>
#include <set>
#include <sstream>
using namespace Ubitrack;
namespace {
// stand-in for the clock that sleeps: nothing waits, signals arrive when told
bool standIn = false, invalid = false;
unsigned long long slept = 0;
int interrupts = 0;
int fakeSleep(const timespec* q, timespec* rem) {
    if (q->tv_nsec < 0 || q->tv_nsec > 999999999 || q->tv_sec < 0) { invalid = true; return EINVAL; }
    unsigned long long n = q->tv_sec * 1000000000ULL + q->tv_nsec;
    if (interrupts > 0 && n > 1) { --interrupts; slept += n / 3; n -= n / 3; if (rem) { rem->tv_sec = n / 1000000000; rem->tv_nsec = n % 1000000000; } return EINTR; }
    slept += n;
    return 0;
}
}
extern "C" int nanosleep(const timespec* q, timespec* rem) {
    if (!standIn) { return syscall(SYS_nanosleep, q, rem); }
    int e = fakeSleep(q, rem);
    if (e) { errno = e; return -1; }
    return 0;
}
extern "C" int clock_nanosleep(clockid_t c, int flags, const timespec* q, timespec* rem) {
    if (!standIn || (flags & TIMER_ABSTIME)) { return syscall(SYS_clock_nanosleep, c, flags, q, rem) ? errno : 0; }
    return fakeSleep(q, rem);
}
extern "C" int usleep(useconds_t us) { timespec t = {time_t(us / 1000000), long(us % 1000000) * 1000}; return nanosleep(&t, 0); }
namespace {
struct Dir {
    std::string path;
    Dir() { char b[] = "/tmp/p31_XXXXXX"; if (mkdtemp(b)) path = b; }
    static int del(const char* p, const struct stat*, int, FTW*) { return remove(p); }
    ~Dir() { if (!path.empty()) nftw(path.c_str(), del, 16, FTW_DEPTH | FTW_PHYS); }
};
std::string genName(pbt::Ctx& g) {
    static const std::vector<std::string> ext = {".jpg", ".JPG", ".png", ".PNG", ".bmp", ".BMP", ".cal", ".BoostBinary", "", ".Jpg", ".jpeg", ".jpg.bak", ".cal~", ".call", "jpg", ".txt", ".xcal", ".BoostBinaries"};
    static const std::string alphabet = "abzAZ0129_- .";
    std::string s;
    int n = g.range(0, 4);
    for (int i = 0; i < n; ++i) s += alphabet[g.draw(alphabet.size() - 1)];
    s += g.pick(ext);
    if (s.empty() || s == "." || s == "..") s = "x";
    return s;
}
bool ends(const std::string& s, const std::string& e) { return s.size() >= e.size() && s.compare(s.size() - e.size(), e.size(), e) == 0; }
struct Capture : log4cpp::LayoutAppender {
    std::vector<std::string>& out;
    Capture(std::vector<std::string>& o) : log4cpp::LayoutAppender("capture"), out(o) {}
    void close() {}
    std::string file;
    unsigned line = 0;
    void _append(const log4cpp::LoggingEvent& e) { out.push_back(e.message); file = e.file; line = e.line; }
};
}
PROP(glob, 600, 15000, "some but not all entries match") {
    Dir dir;
    g.assume(!dir.path.empty());
    std::set<std::string> files, dirs;
    int n = g.size(0, 14);
    for (int i = 0; i < n; ++i) {
        std::string s = genName(g), p = dir.path + "/" + s;
        if (files.count(s) || dirs.count(s)) continue;
        struct stat st;
        if (lstat(p.c_str(), &st) == 0) continue;
        switch (g.range(0, 6)) {
        case 0: if (mkdir(p.c_str(), 0700) == 0) { dirs.insert(s); if (g.coin()) std::ofstream((p + "/inner.jpg").c_str()) << 1; } break;
        case 1: if (symlink("/nonexistent/target", p.c_str()) == 0) g.cls("dangling link"); break;
        case 2: if (symlink(g.coin() ? "/" : dir.path.c_str(), p.c_str()) == 0) dirs.insert(s); break;
        case 3: if (symlink("/dev/null", p.c_str()) == 0) files.insert(s); break;
        default: std::ofstream(p.c_str()) << i; files.insert(s);
        }
    }
    int kind = g.range(0, 6);
    std::function<bool(const std::string&)> match;
    std::string pattern;
    bool globDirs = false;
    switch (kind) {
    case 0: match = [](const std::string& s) { for (const char* e : {".jpg", ".JPG", ".png", ".PNG", ".bmp", ".BMP"}) if (ends(s, e)) return true; return false; }; break;
    case 1: match = [](const std::string& s) { return ends(s, ".cal"); }; break;
    case 2: match = [](const std::string&) { return false; }; globDirs = true; break;
    case 3: match = [](const std::string& s) { return ends(s, ".BoostBinary"); }; break;
    case 4: { std::string a(1, "abzAZ0129_"[g.draw(9)]); pattern = a + ".*"; globDirs = g.coin(); match = [a](const std::string& s) { return s.compare(0, 1, a) == 0; }; break; }
    case 5: { std::string a = g.pick(std::vector<std::string>{"txt", "cal", "jpeg", "bak"}); pattern = ".*\\." + a; globDirs = g.coin(); match = [a](const std::string& s) { return ends(s, "." + a); }; break; }
    default: { int k = g.range(1, 6); pattern = "[a-zA-Z0-9_.]{" + std::to_string(k) + "}"; globDirs = g.coin(); match = [k](const std::string& s) { return int(s.size()) == k && s.find_first_of(" -~") == std::string::npos; }; }
    }
    std::vector<std::string> want;
    for (auto& s : files) if (match(s)) want.push_back(dir.path + "/" + s);
    if (globDirs) for (auto& s : dirs) want.push_back(dir.path + "/" + s);
    std::sort(want.begin(), want.end());
    g.nontrivial(!want.empty() && want.size() < files.size() + dirs.size());
    g.cls("pattern " + std::to_string(kind));
    g.note() << kind << " " << pattern << ": " << files.size() << " files " << dirs.size() << " directories, " << want.size() << " match";
    std::list<boost::filesystem::path> got;
    bool thrown = false;
    try {
        if (kind < 4) Util::globFiles(dir.path, kind == 0 ? Util::PATTERN_OPENCV_IMAGE_FILES : kind == 1 ? Util::PATTERN_UBITRACK_CALIBRATION_FILES : kind == 2 ? Util::PATTERN_DIRECTORIES : Util::PATTERN_UBITRACK_BOOST_BINARY, got);
        else if (globDirs || g.coin()) Util::globFiles(dir.path, pattern, got, globDirs);
        else Util::globFiles(dir.path, pattern, got);
    } catch (const Util::Exception&) { thrown = true; }
    REQ(thrown == want.empty(), want.size() << " files match, " << (thrown ? "but they are refused" : "but none is not an error"));
    std::vector<std::string> names;
    for (auto& p : got) names.push_back(p.string());
    for (auto& w : want) REQ(std::count(names.begin(), names.end(), w) == 1, w << " is found " << std::count(names.begin(), names.end(), w) << " times");
    REQ(names.size() == want.size(), names.size() << " files instead of " << want.size() << ", last " << names.back());
    REQ(std::is_sorted(names.begin(), names.end()), "the files are not sorted");
    // a single file stands for itself, a missing one is an error
    if (!files.empty()) {
        std::string one = dir.path + "/" + *files.begin();
        std::list<boost::filesystem::path> l;
        Util::globFiles(one, Util::PATTERN_UBITRACK_CALIBRATION_FILES, l);
        REQ(l.size() == 1 && l.front().string() == one, "a single file");
    }
    thrown = false;
    try { std::list<boost::filesystem::path> l; Util::globFiles(dir.path + "/missing/x", Util::PATTERN_DIRECTORIES, l); } catch (const Util::Exception&) { thrown = true; }
    REQ(thrown, "a missing directory is not reported");
}
PROP(exceptions, 1000, 50000, "with a file name") {
    std::string msg, file;
    int n = g.size(0, 30);
    for (int i = 0; i < n; ++i) msg += char(g.range(32, 126));
    n = g.size(0, 20);
    for (int i = 0; i < n; ++i) file += char(g.range(32, 126));
    unsigned line = unsigned(g.draw(0xffffffffu));
    int kind = g.range(0, 3);
    bool debug = g.coin();
    g.nontrivial(kind == 0 && !file.empty());
    g.note() << msg << " " << file << ":" << line;
    std::vector<std::string> log;
    log4cpp::Category& c = log4cpp::Category::getInstance("Ubitrack.Util.Exception");
    c.removeAllAppenders();
    c.setAdditivity(false);
    Capture capture(log);
    c.addAppender(capture);
    c.setPriority(debug ? log4cpp::Priority::TRACE : log4cpp::Priority::INFO);
    std::string what, f, text;
    unsigned l = 0, expectLine = 0;
    bool caught = false;
    try {
        try {
            switch (kind) {
            case 0: throw Util::Exception(msg, line, file.c_str());
            case 1: line = line; file = ""; expectLine = line; throw Util::Exception(msg, line);
            case 2: line = 0; file = ""; throw Util::Exception(msg);
            default: line = __LINE__; file = __FILE__; UBITRACK_THROW(msg);
            }
        } catch (const Util::Exception& e) { l = e.line(); f = e.file(); std::ostringstream o; o << e; text = o.str(); throw; }
    } catch (const std::runtime_error& e) { caught = true; what = e.what(); }
    c.removeAllAppenders();
    c.setPriority(log4cpp::Priority::NOTSET);
    c.setAdditivity(true);
    (void)expectLine;
    REQ(caught, "not a runtime_error");
    REQ(what == msg, "message '" << msg << "' becomes '" << what << "'");
    REQ(l == line, "line " << line << " becomes " << l);
    REQ(f == file, "file '" << file << "' becomes '" << f << "'");
    std::ostringstream want;
    want << "Exception \"" << msg << "\" from " << file << ":" << line;
    REQ(text == want.str(), "written as " << text);
    if (!debug) REQ(log.empty(), "logged although logging is off");
    else { REQ(!log.empty(), "not logged"); REQ(log[0].find(msg) != std::string::npos && log[0].find(std::to_string(line)) != std::string::npos, "logged as '" << log[0] << "' without its message '" << msg << "'"); }
}
PROP(sleeping, 3000, 100000, "nanoseconds are given") {
    unsigned ms = g.coin() ? g.range(0, 3000) : unsigned(g.draw(~0u)), ns = g.oneIn(4) ? 0 : g.coin() ? unsigned(g.draw(3000000)) : unsigned(g.draw(~0u));
    int intr = g.oneIn(3) ? g.range(1, 3) : 0;
    g.nontrivial(ns > 0);
    if (intr) g.cls("interrupted");
    g.note() << ms << " ms " << ns << " ns, " << intr << " interruptions";
    slept = 0;
    invalid = false;
    interrupts = intr;
    standIn = true;
    if (ns || g.coin()) Util::sleep(ms, ns); else Util::sleep(ms);
    standIn = false;
    unsigned long long want = ms * 1000000ULL + ns;
    REQ(slept >= want, "sleeps " << slept << " ns instead of " << want << (invalid ? " (invalid request)" : ""));
    REQ(slept <= want + want / 1000 + 2000000, "sleeps " << slept << " ns instead of " << want);
}
PROP(real_time, 25, 400, "always") {
    unsigned ms = g.range(0, 12), ns = g.range(0, 900000);
    g.nontrivial(true);
    g.note() << ms << " ms " << ns << " ns";
    timespec a, b;
    long long c0 = Util::getHighPerformanceCounter();
    clock_gettime(CLOCK_MONOTONIC, &a);
    Util::sleep(ms, ns);
    clock_gettime(CLOCK_MONOTONIC, &b);
    long long c1 = Util::getHighPerformanceCounter();
    double dt = (b.tv_sec - a.tv_sec) + (b.tv_nsec - a.tv_nsec) * 1e-9, dc = double(c1 - c0) / Util::getHighPerformanceFrequency();
    REQ(dt >= ms * 1e-3 + ns * 1e-9, "sleeps " << dt << " s instead of " << ms << " ms + " << ns << " ns");
    // the counter may not run slower than the time it encloses
    REQ(dc >= dt * 0.99 - 2e-6, "the counter shows " << dc << " s in " << dt << " s");
    long long c2 = Util::getHighPerformanceCounter();
    REQ(c2 >= c1, "the counter runs backwards");
}
namespace { int lineOf = 0; void timed(Util::BlockTimer& timer) { lineOf = __LINE__; UBITRACK_TIME(timer); } }
PROP(block_timer, 1500, 60000, "several runs") {
    std::vector<std::string> log;
    log4cpp::Category& c = log4cpp::Category::getInstance("Ubitrack.P31.timer");
    c.removeAllAppenders();
    c.setAdditivity(false);
    Capture capture(log);
    c.addAppender(capture);
    c.setPriority(log4cpp::Priority::INFO);
    std::string name;
    int len = g.size(1, 12);
    for (int i = 0; i < len; ++i) name += char(g.range('a', 'z'));
    std::size_t runs = 0;
    unsigned long long ticks = 0;
    bool real = false, located = false, finished = false, logged = g.coin();
    long long c0 = Util::getHighPerformanceCounter();
    {
        // fresh memory is not zero
        alignas(16) static thread_local unsigned char mem[sizeof(Util::BlockTimer)];
        std::memset(mem, 0x5a, sizeof mem);
        struct Destroy { void operator()(Util::BlockTimer* t) { t->~BlockTimer(); } };
        std::unique_ptr<Util::BlockTimer, Destroy> t;
        if (!logged) t.reset(new (mem) Util::BlockTimer(name));
        else if (g.coin()) t.reset(new (mem) Util::BlockTimer(name, c));
        else t.reset(new (mem) Util::BlockTimer(name, std::string("Ubitrack.P31.timer")));
        REQ(t->getName() == name && t->getRuns() == 0 && t->getTotalTime() == 0 && !t->initialized(), "a new timer has run");
        REQ((long long)t->getStartTime() >= c0 && (long long)t->getStartTime() <= Util::getHighPerformanceCounter(), "start time");
        int ops = g.size(0, 10);
        for (int i = 0; i < ops; ++i) {
            int k = g.range(0, 5);
            if (k == 0 && g.oneIn(40)) { int many = g.range(1, 200000); for (int j = 0; j < many; ++j) t->addMeasurement(j % 7); ticks += many / 7 * 21ULL + (many % 7) * (many % 7 - 1) / 2; runs += many; }
            else if (k < 3) { unsigned long long n = g.coin() ? g.draw(1000) : g.draw(1000000000000ULL); t->addMeasurement(n); ticks += n; ++runs; }
            else if (k == 3) { Util::BlockTimer::Time a(*t); ++runs; real = finished = true; }
            else if (k == 4) { timed(*t); ++runs; real = true; if (!finished) located = true; finished = true; REQ(t->initialized(), "not initialized after a run"); }
            else { { Util::BlockTimer::Time a(*t); { Util::BlockTimer::Time b(*t); } ++runs; REQ(t->getRuns() == runs, "the inner run is not counted"); ++runs; } real = finished = true; }
            REQ(t->getRuns() == runs, t->getRuns() << " runs instead of " << runs);
            double lo = double(ticks) / 1000, hi = lo + (real ? double(Util::getHighPerformanceCounter() - c0) * 11 / 1000 : 0);
            REQ(t->getTotalTime() >= lo * (1 - 1e-12) && t->getTotalTime() <= hi * (1 + 1e-12), "total of " << t->getTotalTime() << " ms is not in " << lo << ".." << hi);
            REQ(std::fabs(t->getAvgTime() - t->getTotalTime() / runs) <= 1e-12 * t->getTotalTime(), "average of " << t->getAvgTime());
            if (real) ticks = (unsigned long long)(std::floor(t->getTotalTime() * 1000 + 0.5));
            std::ostringstream o;
            o << *t;
            std::ostringstream r;
            r << " runs: " << std::setw(6) << runs << ", total: ";
            REQ(o.str().find(name) != std::string::npos && o.str().find(r.str()) != std::string::npos, "written as " << o.str());
        }
        REQ(log.empty(), "logged before the end");
    }
    REQ(log.size() == (logged && runs ? 1u : 0u), log.size() << " log entries after " << runs << " runs");
    if (!log.empty()) {
        if (located) REQ(capture.line == unsigned(lineOf) && capture.file == __FILE__, "logged for " << capture.file << ":" << capture.line << " instead of " << __FILE__ << ":" << lineOf);
        else REQ(capture.line == 0 && capture.file.empty(), "logged for '" << capture.file << "':" << capture.line << " without a location");
    }
    if (!log.empty()) REQ(log[0].find(name) != std::string::npos, "logged as " << log[0]);
    c.removeAllAppenders();
    g.nontrivial(runs > 1);
    g.note() << name << " " << runs << " runs";
}
PROP(logging, 120, 2000, "there is a configuration") {
    Dir dir;
    g.assume(!dir.path.empty());
    bool config = !g.oneIn(4);
    static const char* names[] = {"DEBUG", "INFO", "NOTICE", "WARN", "ERROR", "CRIT"};
    static const int values[] = {log4cpp::Priority::DEBUG, log4cpp::Priority::INFO, log4cpp::Priority::NOTICE, log4cpp::Priority::WARN, log4cpp::Priority::ERROR, log4cpp::Priority::CRIT};
    int a = g.range(0, 5), b = g.range(0, 5);
    std::string file = dir.path + "/log.conf";
    g.nontrivial(config);
    g.note() << config << " " << names[a] << " " << names[b];
    if (config) std::ofstream(file.c_str()) << "log4cpp.rootCategory=" << names[a] << ", A\nlog4cpp.category.Ubitrack.P31.cfg=" << names[b] << "\nlog4cpp.appender.A=FileAppender\nlog4cpp.appender.A.fileName=" << dir.path << "/out.log\nlog4cpp.appender.A.layout=BasicLayout\n";
    else if (g.coin()) std::ofstream(file.c_str()) << "this is not a configuration\nlog4cpp.nothing\n";
    log4cpp::Category::getInstance("Ubitrack.Events").setPriority(log4cpp::Priority::NOTSET);
    Util::initLogging(file.c_str());
    int root = log4cpp::Category::getRoot().getPriority(), ev = log4cpp::Category::getInstance("Ubitrack.Events").getChainedPriority();
    if (config) {
        REQ(root == values[a], "root priority is " << root << " instead of " << values[a]);
        REQ(log4cpp::Category::getInstance("Ubitrack.P31.cfg").getPriority() == values[b], "category priority");
        REQ(ev == values[a], "events are logged from " << ev);
    } else {
        REQ(root == log4cpp::Priority::INFO && ev == log4cpp::Priority::NOTICE, "default priorities are " << root << " and " << ev);
    }
    log4cpp::Category::getRoot().removeAllAppenders();
}
