// P06: reading damaged or foreign bytes either raises an exception or yields a well-formed value; never memory errors.
// Built with AddressSanitizer and UndefinedBehaviorSanitizer; every case runs in a forked worker.
#include "P06_rows.h"
using namespace p06;
std::vector<Ent>& p06::rows() { static std::vector<Ent> r; return r; }

namespace {

std::size_t headerLen(Fmt f, const std::string& s) {   // archive signature, checked by the archive library itself
    if (f == TEXT) { std::size_t p = s.find("serialization::archive"); p = s.find(' ', p); p = s.find(' ', p + 1); return p == std::string::npos ? s.size() : p; }
    if (f == BINARY) { static std::size_t n = 0; if (!n) { std::stringstream ss; { boost::archive::binary_oarchive a(ss); } n = ss.str().size(); } return std::min(n, s.size()); }
    return 0;
}
void smallCount(pbt::Ctx& g, Fmt f, std::string& s, std::size_t p) {
    int v = g.range(0, 13);
    if (f == TEXT) { for (std::size_t b = p; b < s.size(); ++b) if (s[b] == ' ') { std::size_t e = s.find(' ', b + 1); if (e == std::string::npos) e = s.size(); bool num = e > b + 1 && e < b + 4; for (std::size_t k = b + 1; k < e; ++k) num = num && isdigit((unsigned char)s[k]); if (num && g.coin()) { s.replace(b + 1, e - b - 1, std::to_string(v)); break; } } }
    else if (f == BINARY) { for (std::size_t b = p; b + 8 <= s.size(); ++b) { bool zero = (unsigned char)s[b] < 14; for (int k = 1; k < 8; ++k) zero = zero && s[b + k] == 0; if (zero && g.coin()) { s[b] = char(v); break; } } }
    else { for (std::size_t b = p; b < s.size(); ++b) { unsigned char c = s[b]; if ((c < 14 || (c & 0xf0) == 0x90) && g.coin()) { s[b] = char((c & 0xf0) | v); break; } } }
}
void mutate(pbt::Ctx& g, Fmt f, std::string& s, const std::string& other) {
    int k = 1 + g.size(0, 6);
    std::size_t h = g.oneIn(8) ? 0 : headerLen(f, s);
    for (int i = 0; i < k; ++i) {
        if (s.size() <= h) { s += char(g.draw(255)); continue; }
        std::size_t p = h + g.draw(s.size() - h - 1);
        switch (g.draw(10)) {
        case 0: s.resize(p); break;                                            // truncated
        case 1: s[p] ^= char(1 << g.draw(7)); break;                           // bit flip
        case 2: s[p] = char(g.draw(255)); break;
        case 3: s.erase(p, 1 + g.draw(7)); break;
        case 4: s.insert(p, std::string(1 + g.draw(8), char(g.draw(255)))); break;
        case 5: {                                                              // length-like integers
            static const uint64_t big[] = {0, 1, 2, 7, 0x7f, 0xff, 0xffff, 0x7fffffff, 0xffffffffULL, 0x100000000ULL, 0x7fffffffffffffffULL, ~0ULL};
            uint64_t v = big[g.draw(11)];
            if (f == TEXT) { std::size_t e = s.find(' ', p); s.replace(p, e == std::string::npos ? s.size() - p : e - p, std::to_string(v)); }
            else for (int b = 0; b < 8 && p + b < s.size(); ++b) s[p + b] = char(v >> (8 * b));
            break;
        }
        case 6: {                                                              // splice
            if (other.empty()) break;
            std::size_t o = g.draw(other.size() - 1); s.replace(p, std::min<std::size_t>(s.size() - p, 1 + g.draw(60)), other.substr(o, 1 + g.draw(60))); break;
        }
        case 7: if (f == TEXT) { static const char* const w[] = {"nan", "-1", "inf", "1e400", "x", "-99999999999999999999", ".", "\n", "0x10", "18446744073709551616"}; std::size_t e = s.find(' ', p); s.replace(p, e == std::string::npos ? s.size() - p : e - p, w[g.draw(9)]); } else s[p] = char(0xc0 + g.draw(0x1f)); break;
        case 8: { std::size_t q = h + g.draw(s.size() - h - 1); std::swap(s[p], s[q]); break; }
        case 9: {                                                              // a small count next to a limit
            smallCount(g, f, s, p);
            break; }
        default: s += other.substr(0, g.draw(40)); break;
        }
    }
}
std::string printable(const std::string& s) { std::string o; char b[8]; for (std::size_t i = 0; i < s.size() && i < 200; ++i) { unsigned char c = s[i]; if (c >= 32 && c < 127 && c != '\\') o += char(c); else { snprintf(b, 8, "\\x%02x", c); o += b; } } return o; }
void genTree(pbt::Ctx& g, msgpack::packer<msgpack::sbuffer>& pk, int depth) {
    switch (depth > 3 ? g.draw(6) : g.draw(10)) {
    case 0: pk.pack_nil(); break;
    case 1: pk.pack(genD(g, ANY)); break;
    case 2: pk.pack((unsigned long long)genU64(g)); break;
    case 3: pk.pack((long long)genU64(g)); break;
    case 4: if (g.coin()) pk.pack_true(); else pk.pack_false(); break;
    case 5: pk.pack(std::string(g.draw(12), 'a')); break;
    case 6: pk.pack(float(g.sym(4))); break;
    case 7: { int n = g.range(0, 3); pk.pack_map(n); for (int i = 0; i < n; ++i) { pk.pack(i); genTree(g, pk, depth + 1); } break; }
    default: { static const int len[] = {0, 1, 2, 2, 3, 3, 4, 6, 6, 9, 12, 16, 36}; int n = len[g.draw(12)]; pk.pack_array(n); bool nums = g.coin(); for (int i = 0; i < n; ++i) if (nums) pk.pack(g.sym(3)); else genTree(g, pk, depth + 1); }
    }
}
// a tree with the shape of one of the types, one leaf or length perturbed
void genNear(pbt::Ctx& g, msgpack::packer<msgpack::sbuffer>& pk) {
    auto arr = [&](int n) { if (g.oneIn(12)) n += g.range(-1, 1); if (n < 0) n = 0; pk.pack_array(n); return n; };
    auto nums = [&](int n) { n = arr(n); for (int i = 0; i < n; ++i) { if (g.oneIn(30)) genTree(g, pk, 3); else pk.pack(g.sym(3)); } };
    auto ints = [&](int n) { n = arr(n); for (int i = 0; i < n; ++i) if (g.oneIn(10)) pk.pack((long long)genU64(g)); else pk.pack(g.range(0, 2000)); };
    if (g.coin()) { pk.pack_array(2); pk.pack((unsigned long long)genU64(g)); }
    switch (g.draw(5)) {
    case 0: arr(2); nums(4); nums(3); break;
    case 1: arr(3); nums(4); nums(3); nums(36); break;
    case 2: arr(2); nums(3); nums(9); break;
    case 3: nums(12); break;
    case 4: arr(2); nums(2); nums(4); break;
    default: arr(6); pk.pack(g.range(-2, 8)); ints(2); nums(9); if (g.coin()) pk.pack(g.range(0, 9)); else pk.pack((unsigned long long)genU64(g)); nums(6); nums(2); break;
    }
}
}  // namespace

PROP(damaged_bytes, 30000, 2000000, "the damaged bytes were rejected or decoded to a different value") {
    Fmt f = Fmt(g.draw(2)); const Ent& e = rows()[g.draw(rows().size() - 1)];
    std::string s = e.e(g, f), o = s;
    const Ent& e2 = rows()[g.draw(rows().size() - 1)];
    mutate(g, f, s, e2.e(g, f));
    g.note() << fmtName[f] << ' ' << e.n << ": " << printable(s);
    bool ok = e.d(g, f, s, e.n);
    g.cls(std::string(fmtName[f]) + (ok ? " accepted" : " rejected"));
    g.nontrivial(s != o);
}
PROP(damaged_counts, 8000, 400000, "a small count was changed") {
    static std::vector<const Ent*> in; if (in.empty()) for (auto& r : rows()) if (std::string(r.n).find("ntrinsics") != std::string::npos) in.push_back(&r);
    Fmt f = Fmt(g.draw(2)); const Ent& e = in.empty() || g.oneIn(3) ? rows()[g.draw(rows().size() - 1)] : *in[g.draw(in.size() - 1)]; std::string s = e.e(g, f), o = s; std::size_t h = headerLen(f, s); if (s.size() <= h + 1) return; smallCount(g, f, s, h + g.draw(s.size() - h - 1)); g.note() << fmtName[f] << ' ' << e.n << ": " << printable(s); g.nontrivial(s != o); bool ok = e.d(g, f, s, e.n); g.cls(std::string(fmtName[f]) + (ok ? " accepted" : " rejected"));
}
PROP(foreign_type, 15000, 1000000, "bytes of another type than the one read") {
    Fmt f = Fmt(g.draw(2)); const Ent& e = rows()[g.draw(rows().size() - 1)]; const Ent& d = rows()[g.draw(rows().size() - 1)];
    std::string s = e.e(g, f); g.note() << fmtName[f] << ' ' << e.n << " read as " << d.n << ": " << printable(s);
    bool ok = d.d(g, f, s, d.n); g.cls(ok ? "accepted" : "rejected"); g.nontrivial(e.n != d.n);
}
PROP(random_bytes, 15000, 1000000, "at least 4 bytes") {
    Fmt f = Fmt(g.draw(2)); const Ent& d = rows()[g.draw(rows().size() - 1)];
    std::string s; int n = g.size(0, 200); for (int i = 0; i < n; ++i) s += char(g.draw(255));
    if (g.coin() && f != MSGPACK) { std::string h = d.e(g, f); s = h.substr(0, headerLen(f, h)) + (f == TEXT ? " " : "") + s; }
    g.note() << fmtName[f] << ' ' << d.n << ": " << printable(s); g.nontrivial(n >= 4);
    d.d(g, f, s, d.n);
}
PROP(msgpack_trees, 30000, 2000000, "well-formed message of the wrong or nearly the right shape") {
    msgpack::sbuffer b; msgpack::packer<msgpack::sbuffer> pk(&b);
    bool near = g.coin(); if (near) genNear(g, pk); else genTree(g, pk, 0);
    std::string s(b.data(), b.size()); g.note() << printable(s); g.nontrivial(s.size() > 2);
    const Ent& d = rows()[g.draw(rows().size() - 1)];
    bool ok = d.d(g, MSGPACK, s, d.n); d.a(g, s, d.n); g.cls(ok ? "accepted" : "rejected");
    // camera intrinsics are the richest target: always try them
    static const Ent* ci = 0; if (!ci) for (auto& r : rows()) if (std::string(r.n) == "Intrinsics") ci = &r;
    const Ent& c = ci ? *ci : d; d.d(g, MSGPACK, s, d.n); if (c.d(g, MSGPACK, s, c.n)) g.cls("intrinsics accepted"); c.a(g, s, c.n);
}
