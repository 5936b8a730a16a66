#include "pbt.h"
#include <algorithm>
#include <chrono>
#include <cstdlib>
#include <fstream>
#include <iostream>
#include <unordered_set>
#include <csignal>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <malloc.h>
#include <fcntl.h>
#ifdef __SANITIZE_ADDRESS__
// allocation requests that a damaged length field can ask for fail quickly, like on a machine without the memory
__attribute__((weak)) void* operator new(std::size_t n) { if (n > (96u << 20)) throw std::bad_alloc(); void* p = std::malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
__attribute__((weak)) void* operator new[](std::size_t n) { return operator new(n); }
__attribute__((weak)) void operator delete(void* p) noexcept { std::free(p); }
__attribute__((weak)) void operator delete[](void* p) noexcept { std::free(p); }
__attribute__((weak)) void* operator new(std::size_t n, const std::nothrow_t&) noexcept { return std::malloc(n ? n : 1); }
__attribute__((weak)) void* operator new[](std::size_t n, const std::nothrow_t&) noexcept { return std::malloc(n ? n : 1); }
__attribute__((weak)) void operator delete(void* p, std::size_t) noexcept { std::free(p); }
__attribute__((weak)) void operator delete[](void* p, std::size_t) noexcept { std::free(p); }
#endif

extern "C" const char* __asan_default_options() { return "abort_on_error=1:handle_segv=0:handle_abort=0:handle_sigfpe=0:handle_sigbus=0:detect_leaks=0:alloc_dealloc_mismatch=0:allocator_may_return_null=1:detect_stack_use_after_return=0"; }
extern "C" const char* __ubsan_default_options() { return "abort_on_error=1:print_stacktrace=0"; }

namespace pbt { std::vector<Check>& registry() { static std::vector<Check> r; return r; } }
using namespace pbt;

static double now() {
    using namespace std::chrono;
    return duration<double>(steady_clock::now().time_since_epoch()).count();
}
static double caseCpuLimit = 10;  // seconds of CPU for a single case before it counts as an endless loop

static void armTimer(double s) {
    itimerval t{};
    t.it_value.tv_sec = long(s);
    t.it_value.tv_usec = long((s - long(s)) * 1e6);
    setitimer(ITIMER_PROF, &t, nullptr);
}

static uint64_t hashStr(const std::string& s) { uint64_t h = 1469598103934665603ULL; for (unsigned char c : s) { h ^= c; h *= 1099511628211ULL; } return h; }
static uint64_t caseSeed(uint64_t seed, const std::string& name, uint64_t idx) {
    uint64_t s = seed * 0x9e3779b97f4a7c15ULL ^ hashStr(name) ^ (idx + 1) * 0xd1342543de82ef95ULL;
    splitmix(s); return splitmix(s);
}
static uint64_t hashVec(const std::vector<uint64_t>& v) { uint64_t h = 1469598103934665603ULL; for (uint64_t x : v) { h ^= x; h *= 1099511628211ULL; h ^= h >> 29; } return h; }

enum { RES_OK = 0, RES_DISCARD = 1, RES_FAIL = 2 };
static int runOne(const Check& c, Ctx& g, std::string& msg) {
    try { c.fn(g); return RES_OK; }
    catch (Discard&) { return RES_DISCARD; }
    catch (Failure& f) { msg = f.msg; return RES_FAIL; }
    catch (std::exception& e) { msg = std::string("unexpected exception: ") + e.what(); return RES_FAIL; }
    catch (...) { msg = "unexpected exception of unknown type"; return RES_FAIL; }
}

// ---- running one choice sequence in a child -------------------------------------------------
struct Shared {
    int status;            // -1 running, R_*
    uint64_t nrec;
    char msg[4000];
    char note[12000];
    uint64_t rec[400000];
};
static Shared* sh = nullptr;

struct Outcome { bool fail; bool crash; std::string msg, note; std::vector<uint64_t> rec; };

static Outcome runIsolated(const Check& c, const std::vector<uint64_t>* choices, uint64_t seed) {
    Outcome o{};
    sh->status = -1; sh->nrec = 0; sh->msg[0] = 0; sh->note[0] = 0;
    fflush(stdout); fflush(stderr);
    pid_t p = fork();
    if (p == 0) {
        struct rlimit rl{0, 0}; setrlimit(RLIMIT_CORE, &rl);
        if (!getenv("PBT_VERBOSE")) { int fd = open("/dev/null", O_WRONLY); dup2(fd, 1); dup2(fd, 2); }
        armTimer(caseCpuLimit);
        Ctx* g = choices ? new Ctx(*choices) : new Ctx(seed);
        std::string m;
        int r = runOne(c, *g, m);
        const auto& rec = g->recorded();
        sh->nrec = std::min<uint64_t>(rec.size(), 400000);
        memcpy(sh->rec, rec.data(), sh->nrec * 8);
        strncpy(sh->msg, m.c_str(), sizeof(sh->msg) - 1);
        strncpy(sh->note, g->noteStr().c_str(), sizeof(sh->note) - 1);
        sh->status = r;
        _exit(0);
    }
    int st = 0; waitpid(p, &st, 0);
    if (sh->status == -1) {  // died
        o.fail = o.crash = true;
        if (WIFSIGNALED(st)) o.msg = WTERMSIG(st) == SIGPROF ? "endless loop: case exceeded " + str(caseCpuLimit) + " s of CPU" : std::string("crashed with signal ") + str(WTERMSIG(st));
        else o.msg = "process ended with exit code " + str(WEXITSTATUS(st)) + " (sanitizer report?)";
        return o;
    }
    o.fail = sh->status == RES_FAIL; o.msg = sh->msg; o.note = sh->note;
    o.rec.assign(sh->rec, sh->rec + sh->nrec);
    return o;
}

/// several cases one after the other in one process: finds failures that need what earlier calls left behind
static Outcome runSequence(const Check& c, const std::vector<uint64_t>& seeds, size_t& at) {
    Outcome o{};
    sh->status = -1; sh->nrec = 0; sh->msg[0] = 0; sh->note[0] = 0;
    fflush(stdout); fflush(stderr);
    pid_t p = fork();
    if (p == 0) {
        struct rlimit rl{0, 0}; setrlimit(RLIMIT_CORE, &rl);
        if (!getenv("PBT_VERBOSE")) { int fd = open("/dev/null", O_WRONLY); dup2(fd, 1); dup2(fd, 2); }
        int r = RES_OK;
        for (size_t i = 0; i < seeds.size(); ++i) {
            armTimer(caseCpuLimit);
            sh->nrec = i;
            Ctx g(seeds[i]);
            std::string m;
            r = runOne(c, g, m);
            if (r != RES_FAIL) continue;
            strncpy(sh->msg, m.c_str(), sizeof(sh->msg) - 1);
            strncpy(sh->note, g.noteStr().c_str(), sizeof(sh->note) - 1);
            break;
        }
        sh->status = r;
        _exit(0);
    }
    int st = 0; waitpid(p, &st, 0);
    at = size_t(sh->nrec);
    o.fail = sh->status == RES_FAIL || sh->status == -1; o.crash = sh->status == -1;
    o.msg = o.crash ? "crashed" : sh->msg; o.note = sh->note;
    return o;
}

static bool fails(const Check& c, const std::vector<uint64_t>& v, std::vector<uint64_t>& best, Outcome& bo) {
    Outcome o = runIsolated(c, &v, 0);
    if (!o.fail) return false;
    // keep the actually consumed prefix when known
    std::vector<uint64_t> cand = o.crash ? v : o.rec;
    if (cand.size() > v.size()) cand = v;
    best = cand; bo = o;
    return true;
}
static void shrink(const Check& c, std::vector<uint64_t>& best, Outcome& bo, double budget) {
    double end = now() + budget;
    bool hang = bo.msg.find("endless loop") == 0;
    double saved = caseCpuLimit;
    if (hang) caseCpuLimit = std::min(caseCpuLimit, 4.0);
    bool progress = true;
    while (progress && now() < end) {
        progress = false;
        // drop blocks
        for (size_t len = std::max<size_t>(1, best.size() / 2); len >= 1 && now() < end; len /= 2) {
            for (size_t i = 0; i + len <= best.size() && now() < end;) {
                std::vector<uint64_t> v(best);
                v.erase(v.begin() + i, v.begin() + i + len);
                if (fails(c, v, best, bo)) progress = true; else i += len;
            }
            if (len == 1) break;
        }
        // zero blocks
        for (size_t len = std::max<size_t>(1, best.size() / 2); len >= 1 && now() < end; len /= 2) {
            for (size_t i = 0; i + len <= best.size() && now() < end; i += len) {
                bool any = false; for (size_t k = i; k < i + len; ++k) any |= best[k] != 0;
                if (!any) continue;
                std::vector<uint64_t> v(best);
                std::fill(v.begin() + i, v.begin() + i + len, 0);
                if (fails(c, v, best, bo)) progress = true;
            }
            if (len == 1) break;
        }
        // minimise values
        for (size_t i = 0; i < best.size() && now() < end; ++i) {
            if (best[i] == 0) continue;
            uint64_t lo = 0, hi = best[i];  // hi fails
            int steps = 0;
            while (lo + 1 < hi && now() < end && steps++ < 60 && i < best.size()) {
                uint64_t mid = lo + (hi - lo) / 2;
                std::vector<uint64_t> v(best); v[i] = mid;
                if (fails(c, v, best, bo)) { hi = mid; progress = true; } else lo = mid;
            }
            // round doubles: clear low bits
            if (i < best.size() && best[i] > (1ULL << 20)) for (int b = 50; b >= 8 && now() < end; b -= 7) {
                uint64_t m = best[i] & ~((1ULL << b) - 1);
                if (m == best[i] || i >= best.size()) continue;
                std::vector<uint64_t> v(best); v[i] = m;
                if (fails(c, v, best, bo)) { progress = true; break; }
            }
        }
        if (best.size() > 3000) break;
    }
    caseCpuLimit = saved;
}

static std::string jesc(const std::string& s) {
    std::string o;
    for (unsigned char ch : s) {
        if (ch == '"' || ch == '\\') { o += '\\'; o += char(ch); }
        else if (ch == '\n') o += "\\n"; else if (ch == '\t') o += "\\t";
        else if (ch < 32 || ch > 126) { char b[8]; snprintf(b, 8, "\\u%04x", ch); o += b; }
        else o += char(ch);
    }
    return o;
}

struct WState { volatile long check; volatile uint64_t idx; volatile int done; };

int main(int argc, char** argv) {
    std::string prop = "P00", tier = "quick", evid, replayDir = ".", only, replay, rule, assumptions;
    uint64_t seed = 1; int workers = 8; double budget = 0; double scale = 1; double tbuild = 0; bool list = false;
    std::string skipped;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto val = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
        if (a == "--property") prop = val(); else if (a == "--tier") tier = val();
        else if (a == "--seed") seed = strtoull(val().c_str(), nullptr, 10);
        else if (a == "--workers") workers = atoi(val().c_str());
        else if (a == "--evidence") evid = val(); else if (a == "--replay-dir") replayDir = val();
        else if (a == "--only") only = val(); else if (a == "--replay") replay = val();
        else if (a == "--budget") budget = atof(val().c_str()); else if (a == "--scale") scale = atof(val().c_str());
        else if (a == "--rule") rule = val(); else if (a == "--case-cpu") caseCpuLimit = atof(val().c_str());
        else if (a == "--build-s") tbuild = atof(val().c_str()); else if (a == "--list") list = true;
        else if (a == "--skipped") skipped = val();
    }
    mallopt(M_PERTURB, 0x5a);
    if (budget <= 0) budget = tier == "quick" ? 60 : 1500;
    std::vector<Check> checks = registry();
    std::sort(checks.begin(), checks.end(), [](const Check& a, const Check& b) { return a.name < b.name; });
    if (!only.empty()) checks.erase(std::remove_if(checks.begin(), checks.end(), [&](const Check& c) { return c.name != only; }), checks.end());
    if (list) { for (auto& c : checks) std::cout << c.name << "\n"; return 0; }
    sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);

    if (!replay.empty()) {
        std::ifstream f(replay); std::string line, name; std::vector<uint64_t> v, seq;
        while (std::getline(f, line)) {
            if (line.compare(0, 6, "check ") == 0) name = line.substr(6);
            else if (line.compare(0, 9, "sequence ") == 0) { std::istringstream is(line.substr(9)); uint64_t x; while (is >> x) seq.push_back(x); }
            else if (line.compare(0, 8, "choices ") == 0) { std::istringstream is(line.substr(8)); uint64_t x; while (is >> x) v.push_back(x); }
        }
        for (auto& c : checks) if (c.name == name) {
            size_t at;
            Outcome o = seq.empty() ? runIsolated(c, &v, 0) : runSequence(c, seq, at);
            std::cout << (o.fail ? "FAILS: " : "passes ") << o.msg << "\n" << o.note << "\n";
            return o.fail ? 1 : 0;
        }
        std::cerr << "no such check: " << name << "\n"; return 2;
    }

    double t0 = now();
    double deadline = t0 + budget;
    std::string tmpl = "/tmp/pbt." + prop + ".XXXXXX"; std::vector<char> tb(tmpl.begin(), tmpl.end()); tb.push_back(0);
    std::string tmp = mkdtemp(tb.data());
    WState* ws = (WState*)mmap(nullptr, sizeof(WState) * 64, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    // stop flag per check once it has failed
    volatile int* stop = (volatile int*)mmap(nullptr, 4096 * 4, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);

    auto worker = [&](int w, const std::vector<uint64_t>& startIdx, int gen) {
        std::string base = tmp + "/w" + str(w) + "." + str(gen);
        std::ofstream hf(base + ".hash", std::ios::binary);
        size_t n = checks.size();
        struct S { uint64_t ev = 0, disc = 0, nt = 0; std::map<std::string, uint64_t> cls; std::vector<std::string> samples; uint64_t next = 0; long target = 0; size_t nh = 0; };
        std::vector<S> st(n);
        auto dump = [&]() {
            std::ofstream of(base + ".stat.tmp");
            for (size_t k = 0; k < n; ++k) {
                of << "C " << k << " " << st[k].ev << " " << st[k].disc << " " << st[k].nt << "\n";
                for (auto& kv : st[k].cls) of << "K " << k << " " << kv.second << " " << kv.first << "\n";
                for (auto& s : st[k].samples) { std::string t = s; std::replace(t.begin(), t.end(), '\n', ' '); of << "S " << k << " " << t << "\n"; }
            }
            of.close();
            rename((base + ".stat.tmp").c_str(), (base + ".stat").c_str());
            hf.flush();
        };
        for (size_t k = 0; k < n; ++k) {
            long t = tier == "quick" ? checks[k].quick : checks[k].thorough;
            st[k].target = std::max(1L, long(t * scale));
            st[k].next = startIdx[k];
        }
        bool any = true; double lastDump = now();
        while (any && now() < deadline) {
            any = false;
            for (size_t k = 0; k < n && now() < deadline; ++k) {
                // a slice of this check's cases
                long slice = std::max(1L, st[k].target / (workers * 20));
                for (long j = 0; j < slice; ++j) {
                    if (stop[k] || long(st[k].next) >= st[k].target) break;
                    any = true;
                    uint64_t idx = st[k].next; st[k].next += workers;
                    ws[w].check = long(k); ws[w].idx = idx;
                    Ctx g(caseSeed(seed, checks[k].name, idx));
                    std::string m;
                    armTimer(caseCpuLimit);
                    int r = runOne(checks[k], g, m);
                    armTimer(0);
                    st[k].ev++;
                    if (r == RES_DISCARD) st[k].disc++;
                    else if (r == RES_FAIL) {
                        stop[k] = 1;
                        std::ofstream f(base + ".fail." + str(k) + "." + str(idx)); f << k << " " << idx << "\n" << m << "\n"; f.close();
                        dump();
                    } else {
                        for (auto& cl : g.classes()) st[k].cls[cl]++;
                        if (g.isNontrivial()) {
                            st[k].nt++;
                            if (st[k].nh < 100000) { st[k].nh++; uint64_t h[2] = {k, hashVec(g.recorded())}; hf.write((char*)h, 16); }
                            if (st[k].samples.size() < 2 && !g.noteStr().empty()) st[k].samples.push_back(g.noteStr().substr(0, 600));
                        }
                    }
                    if (now() >= deadline) break;
                }
                if (now() - lastDump > 2) { dump(); lastDump = now(); }
            }
        }
        dump(); hf.close();
        ws[w].done = 1;
    };

    std::vector<pid_t> pids(workers, -1);
    std::vector<int> gens(workers, 0);
    std::vector<std::vector<uint64_t>> starts(workers, std::vector<uint64_t>(checks.size()));
    std::vector<std::pair<size_t, uint64_t>> crashes; // check, idx
    auto launch = [&](int w) {
        ws[w].done = 0; ws[w].check = -1;
        fflush(stdout); fflush(stderr);
        pid_t p = fork();
        if (p == 0) {
            struct rlimit rl{0, 0}; setrlimit(RLIMIT_CORE, &rl);
            std::string lf = tmp + "/w" + str(w) + "." + str(gens[w]) + ".log";
            int fd = open(getenv("PBT_LOG") ? lf.c_str() : "/dev/null", O_WRONLY | O_CREAT | O_TRUNC, 0600);
            int fe = open(lf.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
            dup2(getenv("PBT_LOG") ? fd : fd, 1); dup2(getenv("PBT_LOG") ? fe : fd, 2);
            worker(w, starts[w], gens[w]);
            _exit(0);
        }
        pids[w] = p;
    };
    for (int w = 0; w < workers; ++w) { for (size_t k = 0; k < checks.size(); ++k) starts[w][k] = w; launch(w); }
    int alive = workers;
    while (alive > 0) {
        int st; pid_t p = waitpid(-1, &st, 0);
        if (p < 0) break;
        for (int w = 0; w < workers; ++w) if (pids[w] == p) {
            pids[w] = -1; --alive;
            if (!ws[w].done && ws[w].check >= 0) {
                size_t k = ws[w].check; uint64_t idx = ws[w].idx;
                crashes.push_back({k, idx}); stop[k] = 1;
                if (now() < deadline && gens[w] < 20) { // go on with the other checks
                    gens[w]++;
                    launch(w); ++alive;
                }
            }
        }
    }
    // ---- collect
    struct Agg { uint64_t ev = 0, disc = 0, nt = 0; std::map<std::string, uint64_t> cls; std::vector<std::string> samples; std::unordered_set<uint64_t> h; };
    std::vector<Agg> agg(checks.size());
    std::vector<std::pair<size_t, uint64_t>> fl;
    for (int w = 0; w < workers; ++w) for (int gq = 0; gq <= gens[w]; ++gq) {
        std::string base = tmp + "/w" + str(w) + "." + str(gq);
        std::ifstream f(base + ".stat"); std::string line;
        while (std::getline(f, line)) {
            std::istringstream is(line); char t; size_t k; is >> t >> k;
            if (t == 'C') { uint64_t a, b, c; is >> a >> b >> c; agg[k].ev += a; agg[k].disc += b; agg[k].nt += c; }
            else if (t == 'K') { uint64_t a; std::string n; is >> a; std::getline(is, n); agg[k].cls[n.substr(1)] += a; }
            else if (t == 'S') { std::string n; std::getline(is, n); if (agg[k].samples.size() < 3) agg[k].samples.push_back(n.substr(1)); }
        }
        std::ifstream hfi(base + ".hash", std::ios::binary); uint64_t h[2];
        while (hfi.read((char*)h, 16)) if (h[0] < agg.size()) agg[h[0]].h.insert(h[1]);
    }
    { // failure files
        std::string cmd = "ls " + tmp + "/*.fail.* 2>/dev/null"; FILE* pf = popen(cmd.c_str(), "r"); char b[500];
        while (fgets(b, 500, pf)) { std::string fn(b); fn.erase(fn.find_last_not_of("\n") + 1); std::ifstream f(fn); size_t k; uint64_t idx; f >> k >> idx; fl.push_back({k, idx}); }
        pclose(pf);
    }
    for (auto& c : crashes) fl.push_back(c);
    std::sort(fl.begin(), fl.end());
    int violations = 0; std::vector<std::string> flaky;
    std::set<size_t> reported;
    mkdir(replayDir.c_str(), 0755);
    double postEnd = now() + 300;  // keeps a run with many hanging cases bounded
    for (auto& f : fl) {
        size_t k = f.first; if (reported.count(k)) continue;
        uint64_t cs = caseSeed(seed, checks[k].name, f.second);
        Outcome o; bool rep = false;
        if (now() > postEnd) { flaky.push_back(checks[k].name + " case " + str(f.second) + " (no time left to reproduce)"); continue; }
        int tries = tier == "quick" && fl.size() > 8 ? 2 : 5;
        for (int t = 0; t < tries && !rep; ++t) { o = runIsolated(checks[k], nullptr, cs); rep = o.fail; }
        if (!rep) {
            // not alone: then after the cases that preceded it in its worker
            bool found = false;
            uint64_t have = f.second / workers;
            for (uint64_t m : {uint64_t(1), uint64_t(4), uint64_t(16), uint64_t(64), uint64_t(256), uint64_t(1024), have}) {
                if (m > have && m != 1) m = have;
                if (now() > postEnd || m > have || m == 0) break;
                std::vector<uint64_t> idx, seeds; for (uint64_t j = 0; j <= m; ++j) { idx.push_back(f.second - (m - j) * workers); seeds.push_back(caseSeed(seed, checks[k].name, idx.back())); }
                size_t at = 0; Outcome q = runSequence(checks[k], seeds, at);
                if (!q.fail) { if (m == have) break; continue; }
                seeds.resize(at + 1); idx.resize(at + 1);
                // drop predecessors that are not needed
                for (size_t part = seeds.size() / 2; part >= 1 && now() < postEnd; part /= 2)
                    for (size_t b = 0; b + part < seeds.size() && now() < postEnd;) {
                        std::vector<uint64_t> s2 = seeds, i2 = idx; s2.erase(s2.begin() + b, s2.begin() + b + part); i2.erase(i2.begin() + b, i2.begin() + b + part);
                        size_t a2; Outcome q2 = runSequence(checks[k], s2, a2);
                        if (q2.fail && a2 + 1 == s2.size()) { seeds = s2; idx = i2; } else b += part;
                    }
                int again = 0; for (int t = 0; t < 3; ++t) { size_t a2; Outcome q2 = runSequence(checks[k], seeds, a2); if (q2.fail) { ++again; q = q2; } }
                if (again < 2) continue;
                found = true;
                reported.insert(k);
                std::string path = replayDir + "/" + prop + "-" + checks[k].name + ".replay";
                std::ofstream rf(path);
                rf << "property " << prop << "\ncheck " << checks[k].name << "\nseed " << seed << "\nsequence";
                for (uint64_t x : seeds) rf << " " << x;
                rf << "\nfailure " << q.msg << "\ncase " << q.note << "\n";
                rf.close();
                std::cout << "  check " << checks[k].name << ": " << q.msg << " (last of " << seeds.size() << " cases in one process)\n  case: " << q.note.substr(0, 1500) << "\n";
                std::cout << "VIOLATION property=" << prop << " replay=" << path << std::endl;
                ++violations;
                break;
            }
            if (!found) flaky.push_back(checks[k].name + " case " + str(f.second));
            continue;
        }
        // choices of a crashing case are recovered by replaying prefixes of the recorded stream: regenerate the raw stream
        std::vector<uint64_t> ch = o.rec;
        if (o.crash) {
            // draw values are a pure function of seed and bounds; record them through a pipe in the child
            int pp[2]; if (pipe(pp)) continue;
            fflush(stdout);
            pid_t p = fork();
            if (p == 0) {
                close(pp[0]); struct rlimit rl{0, 0}; setrlimit(RLIMIT_CORE, &rl);
                int fd = open("/dev/null", O_WRONLY); dup2(fd, 1); dup2(fd, 2);
                struct Rec : Ctx { using Ctx::Ctx; } ;
                Ctx* g = new Ctx(cs);
                // run in this process; a helper thread is avoided by dumping from a signal/exit handler
                static Ctx* sg; static int sfd; sg = g; sfd = pp[1];
                auto dumpRec = +[](int) { const auto& r = sg->recorded(); const char* q = (const char*)r.data(); size_t n = r.size() * 8; while (n) { ssize_t m = write(sfd, q, n); if (m <= 0) break; q += m; n -= size_t(m); } _exit(0); };
                for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL, SIGPROF}) signal(s, dumpRec);
                atexit(+[]() { const auto& r = sg->recorded(); const char* q = (const char*)r.data(); size_t n = r.size() * 8; while (n) { ssize_t m = write(sfd, q, n); if (m <= 0) break; q += m; n -= size_t(m); } });
                armTimer(caseCpuLimit); std::string m; runOne(checks[k], *g, m); dumpRec(0);
            }
            close(pp[1]); ch.clear(); uint64_t x; char* q = (char*)&x; size_t have = 0; ssize_t m;
            while ((m = read(pp[0], q + have, 8 - have)) > 0) { have += size_t(m); if (have == 8) { ch.push_back(x); have = 0; } }
            close(pp[0]); int s2; waitpid(p, &s2, 0);
        }
        std::vector<uint64_t> best = ch; Outcome bo = o;
        Outcome chk = runIsolated(checks[k], &ch, 0);
        bool canReplay = chk.fail;
        if (canReplay) { bo = chk; shrink(checks[k], best, bo, std::min(std::max(2.0, postEnd - now()), tier == "quick" ? 20.0 : 60.0)); }
        int ok = 0;
        bool hang = bo.msg.find("endless loop") == 0;
        for (int t = 0; t < (hang ? 1 : 3); ++t) { Outcome q = canReplay ? runIsolated(checks[k], &best, 0) : runIsolated(checks[k], nullptr, cs); if (q.fail) { ok++; bo = q; } }
        if (ok == 0) { flaky.push_back(checks[k].name + " case " + str(f.second)); continue; }
        reported.insert(k);
        std::string path = replayDir + "/" + prop + "-" + checks[k].name + ".replay";
        std::ofstream rf(path);
        rf << "property " << prop << "\ncheck " << checks[k].name << "\nseed " << seed << " case " << f.second << "\nchoices";
        for (uint64_t x : best) rf << " " << x;
        rf << "\nfailure " << bo.msg << "\ncase " << bo.note << "\n";
        rf.close();
        std::cout << "  check " << checks[k].name << ": " << bo.msg << "\n  case: " << bo.note.substr(0, 1500) << "\n";
        std::cout << "VIOLATION property=" << prop << " replay=" << path << std::endl;
        ++violations;
    }
    // ---- evidence
    uint64_t ev = 0, nt = 0, disc = 0; for (auto& a : agg) { ev += a.ev; nt += a.h.size(); disc += a.disc; }
    double wall = now() - t0 + tbuild;
    if (!evid.empty()) {
        std::ofstream e(evid);
        e.precision(6);
        e << "{\n \"property\": \"" << prop << "\",\n \"tier\": \"" << tier << "\",\n \"seed\": " << seed << ",\n \"level\": \"exploration\",\n \"coverage\": {\n";
        e << "  \"evaluations\": " << ev << ",\n  \"distinct_nontrivial\": " << nt << ",\n  \"discarded\": " << disc << ",\n";
        std::string r = "Each case is one run of a generated input (or operation history) against the oracle. Non-trivial per check:";
        for (auto& c : checks) r += " " + c.name + ": " + c.rule + ";";
        e << "  \"rule\": \"" << jesc(r) << "\",\n  \"samples\": [";
        bool first = true;
        for (size_t k = 0; k < checks.size(); ++k) for (auto& s : agg[k].samples) { e << (first ? "\n" : ",\n") << "   \"" << jesc(checks[k].name + ": " + s) << "\""; first = false; }
        if (first) e << "\"(none)\"";
        e << "],\n  \"per_check\": {";
        for (size_t k = 0; k < checks.size(); ++k) {
            e << (k ? ",\n" : "\n") << "   \"" << checks[k].name << "\": {\"cases\": " << agg[k].ev << ", \"discarded\": " << agg[k].disc << ", \"nontrivial\": " << agg[k].nt << ", \"distinct_nontrivial\": " << agg[k].h.size() << ", \"classes\": {";
            bool f2 = true; for (auto& kv : agg[k].cls) { e << (f2 ? "" : ", ") << "\"" << jesc(kv.first) << "\": " << kv.second; f2 = false; }
            e << "}}";
        }
        e << "\n  },\n  \"not_built\": \"" << jesc(skipped) << "\",\n  \"unreproducible\": [";
        for (size_t i = 0; i < flaky.size(); ++i) e << (i ? ", " : "") << "\"" << jesc(flaky[i]) << "\"";
        e << "]\n },\n \"assumptions\": [\"oracle arithmetic in long double / exact integers\", \"floating point tolerances scale with the conditioning of each generated input\"],\n";
        e << " \"wall_s\": " << wall << ",\n \"violations\": " << violations << "\n}\n";
    }
    for (size_t k = 0; k < checks.size(); ++k) {
        std::cout << "  " << checks[k].name << ": " << agg[k].ev << " cases, " << agg[k].disc << " discarded, " << agg[k].h.size() << " distinct non-trivial";
        if (getenv("PBT_CLASSES")) for (auto& kv : agg[k].cls) std::cout << " | " << kv.first << "=" << kv.second;
        std::cout << "\n";
    }
    for (auto& s : flaky) std::cout << "  unreproducible failure (not reported): " << s << "\n";
    std::cout << prop << " " << tier << " seed " << seed << ": " << ev << " cases, " << nt << " distinct non-trivial, " << violations << " violations, " << wall << " s\n";
    std::string rm = "rm -rf " + tmp; if (!getenv("PBT_LOG")) { if (system(rm.c_str())) {} }
    return violations ? 1 : 0;
}
