// Small choice-sequence based property testing engine.
//
// Every random decision of a generator is a draw of an integer in [0,max] and is recorded; a failing
// case is therefore a list of integers, which the shrinker can make shorter / smaller without knowing
// anything about the generator, and which a replay file can hold.  All cases run in forked workers so
// that a crash, a sanitizer report or an endless loop in the code under test is a reported failure.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cmath>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>
#include <limits>
#include <stdexcept>

namespace pbt {

struct Discard {};
struct Failure { std::string msg; };

inline uint64_t splitmix(uint64_t& s) {
    uint64_t z = (s += 0x9e3779b97f4a7c15ULL);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
}

class Ctx {
public:
    // random mode
    explicit Ctx(uint64_t seed) : replay_(false), s_(seed) {}
    // replay mode
    explicit Ctx(const std::vector<uint64_t>& c) : replay_(true), s_(0), in_(c) {}

    /// integer in [0,max]; 0 is the simplest value
    uint64_t draw(uint64_t max) {
        uint64_t v;
        if (replay_) {
            v = pos_ < in_.size() ? in_[pos_] : 0;
            ++pos_;
            if (v > max) v = max;
        } else {
            v = splitmix(s_);
            if (max != ~0ULL) v = v % (max + 1);
        }
        if (rec_.size() < 2000000) rec_.push_back(v);
        return v;
    }
    int range(int lo, int hi) { return lo + int(draw(uint64_t(int64_t(hi) - lo))); }
    bool coin() { return draw(1) == 1; }
    /// true with probability 1/n (0 = false is the simple value)
    bool oneIn(int n) { return draw(uint64_t(n - 1)) == uint64_t(n - 1) && n > 1; }
    /// uniform in [0,1)
    double unit() { return double(draw((1ULL << 53) - 1)) / double(1ULL << 53); }
    double real(double lo, double hi) { return lo + (hi - lo) * unit(); }
    /// symmetric real, shrinks to 0
    double sym(double m) { uint64_t k = draw((1ULL << 54) - 1); double v = double(k >> 1) / double(1ULL << 53) * m; return (k & 1) ? -v : v; }
    /// symmetric real that often is a "nice" value (0, small integers, +-m, tiny)
    double nice(double m) {
        switch (draw(11)) {
        case 0: return 0.0;
        case 1: { double v = range(0, 4); v = std::min(v, m); return v; }
        case 2: { double v = -double(range(0, 4)); return std::max(v, -m); }
        case 3: return coin() ? m : -m;
        case 4: return sym(m) * 1e-6;
        case 5: return std::max(-m, std::min(m, 0.5 * range(-8, 8)));
        default: return sym(m);
        }
    }
    /// positive value, log-uniform in [lo,hi]
    double logreal(double lo, double hi) { return lo * std::exp(unit() * std::log(hi / lo)); }
    double gauss() {  // shrinks to 0
        double u = unit(), v = unit();
        if (u <= 0) return 0.0;
        return std::sqrt(-2 * std::log(1 - u * 0.9999999999)) * std::cos(6.283185307179586 * v);
    }
    /// size in [lo,hi], biased to small values but reaching hi
    int many(int lo, int hi, int big) { return oneIn(80) ? range(hi, big) : size(lo, hi); }  ///< size(lo, hi), seldom up to big
    int size(int lo, int hi) {
        if (hi <= lo) return lo;
        int span = hi - lo;
        switch (draw(3)) {
        case 0: return lo + int(draw(std::min(span, 2)));
        case 1: return lo + int(draw(std::min(span, 6)));
        case 2: return lo + int(draw(std::max(1, span / 3)));
        default: return lo + int(draw(span));
        }
    }
    template <class T> const T& pick(const std::vector<T>& v) { return v[draw(v.size() - 1)]; }
    template <class T> void shuffle(std::vector<T>& v) {
        for (size_t i = v.size(); i > 1; --i) { size_t j = draw(i - 1); /*0=keep*/ std::swap(v[i - 1], v[i - 1 - j]); }
    }

    void nontrivial(bool b = true) { nontrivial_ = nontrivial_ || b; }
    void cls(const std::string& c) { classes_.insert(c); }
    std::ostringstream& note() { return note_; }
    void assume(bool b) { if (!b) throw Discard(); }
    [[noreturn]] void fail(const std::string& m) { throw Failure{m}; }
    void require(bool b, const std::string& m) { if (!b) throw Failure{m}; }

    const std::vector<uint64_t>& recorded() const { return rec_; }
    bool isNontrivial() const { return nontrivial_; }
    const std::set<std::string>& classes() const { return classes_; }
    std::string noteStr() const { return note_.str(); }

private:
    bool replay_;
    uint64_t s_;
    std::vector<uint64_t> in_;
    size_t pos_ = 0;
    std::vector<uint64_t> rec_;
    bool nontrivial_ = false;
    std::set<std::string> classes_;
    std::ostringstream note_;
};

typedef void (*CheckFn)(Ctx&);
struct Check {
    std::string name;
    CheckFn fn;
    long quick, thorough;   // cases
    std::string rule;       // what makes a case non-trivial
};
std::vector<Check>& registry();
struct Reg {
    Reg(const char* n, CheckFn f, long q, long t, const char* rule) { registry().push_back(Check{n, f, q, t, rule}); }
};

template <class A> std::string str(const A& a) { std::ostringstream o; o.precision(17); o << a; return o.str(); }

}  // namespace pbt

/// PROP(name, quick cases, thorough cases, "non-triviality rule") { body using `g` }
#define PROP(name, q, t, rule)                                                   \
    static void prop_##name(pbt::Ctx& g);                                        \
    static pbt::Reg reg_##name(#name, prop_##name, q, t, rule);                  \
    static void prop_##name(pbt::Ctx& g)

#define REQ(cond, what)                                                          \
    do { if (!(cond)) { std::ostringstream o_; o_.precision(17); o_ << what << "   [" #cond "] line " << __LINE__; throw pbt::Failure{o_.str()}; } } while (0)
