// P06: templates shared by the translation units that instantiate them
#pragma once
#include "sertypes.h"
#include <new>
#include <cstdlib>
using namespace st;
namespace S = Ubitrack::Serialization;
namespace p06 {
enum Fmt { TEXT, BINARY, MSGPACK };
static const char* const fmtName[] = {"text", "binary", "msgpack"};
template <class T> std::string enc(Fmt f, const T& v) {
    std::stringstream ss;
    if (f == TEXT) { boost::archive::text_oarchive a(ss); S::BoostArchive::serialize(a, v); }
    else if (f == BINARY) { boost::archive::binary_oarchive a(ss); S::BoostArchive::serialize(a, v); }
    else S::MsgpackArchive::serialize(ss, v);
    return ss.str();
}
template <class T> void dec(Fmt f, const std::string& s, T& v) {
    if (f == MSGPACK) {
        msgpack::unpacker u; u.reserve_buffer(s.size() + 1); std::memcpy(u.buffer(), s.data(), s.size()); u.buffer_consumed(s.size());
        S::MsgpackArchive::deserialize(u, v); return;
    }
    std::istringstream ss(s);
    if (f == TEXT) { boost::archive::text_iarchive a(ss); S::BoostArchive::deserialize(a, v); }
    else { boost::archive::binary_iarchive a(ss); S::BoostArchive::deserialize(a, v); }
}
template <class T> struct Payload { static bool has(const T&) { return true; } };
template <class T> struct Payload<Measurement::Measurement<T> > { static bool has(const Measurement::Measurement<T>& m) { return bool(m); } };

// returns true if the bytes were accepted
template <class T> bool readOne(pbt::Ctx& g, Fmt f, const std::string& s, const char* name) {
    foldZero() = f == MSGPACK;
    T v = T();
    if (g.coin()) v = G<T>::gen(g, FINITE);
    try { dec(f, s, v); }
    catch (const std::exception&) { return false; }
    // accepted: the value is an ordinary one and survives its own round trip
    Dump a = dumpOf(v);
    if (f == MSGPACK || Payload<T>::has(v)) {
        std::string again = enc(f, v);
        T w = T();
        try { dec(f, again, w); } catch (const std::exception& e) {
            // the text format cannot hold inf / nan, which text input cannot produce either
            REQ(false, name << ": accepted value cannot be read back: " << e.what());
        }
        REQ(dumpOf(w) == a, name << ": accepted value changes in a round trip: " << diff(a, dumpOf(w)));
    }
    // msgpack: value conversion agrees with in-place conversion
    return true;
}
template <class T> bool readMsgpackAs(pbt::Ctx&, const std::string& s, const char* name) {
    foldZero() = true;
    bool okA = false, okC = false; T a = T(), c = T();
    msgpack::object_handle oh; std::size_t off = 0;
    try { oh = msgpack::unpack(s.data(), s.size(), off); } catch (const std::exception&) { return false; }
    try { a = oh.get().template as<T>(); okA = true; } catch (const std::exception&) {}
    try { oh.get().convert(c); okC = true; } catch (const std::exception&) {}
    REQ(okA == okC, name << ": conversion in place " << (okC ? "accepts" : "rejects") << " what conversion by value " << (okA ? "accepts" : "rejects"));
    if (okA) REQ(dumpOf(a) == dumpOf(c), name << ": conversions differ: " << diff(dumpOf(a), dumpOf(c)));
    return okA;
}
typedef std::string (*EncFn)(pbt::Ctx&, Fmt);
typedef bool (*DecFn)(pbt::Ctx&, Fmt, const std::string&, const char*);
typedef bool (*AsFn)(pbt::Ctx&, const std::string&, const char*);
template <class T> std::string encGen(pbt::Ctx& g, Fmt f) { return enc(f, G<T>::gen(g, f == TEXT ? FINITE : ANY)); }
struct Ent { const char* n; EncFn e; DecFn d; AsFn a; };
std::vector<Ent>& rows();
struct Row { Row(const char* n, EncFn e, DecFn d, AsFn a) { rows().push_back(Ent{n, e, d, a}); } };
}  // namespace p06
#define ROW(id, s, ...) static p06::Row row_##id(s, p06::encGen<__VA_ARGS__ >, p06::readOne<__VA_ARGS__ >, p06::readMsgpackAs<__VA_ARGS__ >);
#define X(n, ...) ROW(n##_1, #n, __VA_ARGS__) ROW(n##_2, "list of " #n, std::vector<__VA_ARGS__ >) ROW(n##_3, "measurement " #n, Measurement::Measurement<__VA_ARGS__ >) ROW(n##_4, "measurement list of " #n, Measurement::Measurement<std::vector<__VA_ARGS__ > >)
