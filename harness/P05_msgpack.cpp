// P05: the same for the msgpack format, over all adaptor paths (streaming, conversion, value, zone object).
#include "sertypes.h"
#include <type_traits>
using namespace st;
namespace S = Ubitrack::Serialization;
namespace {
std::string packed(const msgpack::sbuffer& b) { return std::string(b.data(), b.size()); }
void feed(msgpack::unpacker& u, const std::string& s) { u.reserve_buffer(s.size() + 1); std::memcpy(u.buffer(), s.data(), s.size()); u.buffer_consumed(s.size()); }
template <class T> std::string packOf(const T& v) { msgpack::sbuffer b; msgpack::packer<msgpack::sbuffer> pk(&b); S::MsgpackArchive::serialize(pk, v); return packed(b); }

template <class T> void rt(pbt::Ctx& g, const char* name) {
    T v = G<T>::gen(g, ANY);
    Dump a = dumpOf(v);
    g.note() << name << ' ' << show(a); g.cls(name); g.nontrivial(a.size() > 1);
    std::string s = packOf(v);
    REQ(dumpOf(v) == a, "writing changed the value");
    { std::stringstream ss; S::serialize(S::PROTOCOL_MSGPACK, ss, v); REQ(ss.str() == s, name << ": packer and stream produce different bytes"); }
    msgpack::unpacker u; feed(u, s);
    T w = g.coin() ? G<T>::gen(g, FINITE) : T();
    S::MsgpackArchive::deserialize(u, w);
    REQ(dumpOf(w) == a, name << " convert: " << diff(a, dumpOf(w)));
    REQ(packOf(w) == s, name << ": bytes differ when written again");
    // a second read finds no message and must say so
    bool threw = false; try { S::MsgpackArchive::deserialize(u, w); } catch (const std::exception&) { threw = true; }
    REQ(threw, name << ": reading past the last message raised no error");
    REQ(dumpOf(w) == a, name << ": failed read changed the value");
}
template <class T> void as_(pbt::Ctx& g, const char* name) {
    T v = G<T>::gen(g, ANY); Dump a = dumpOf(v);
    g.note() << "as " << name << ' ' << show(a); g.cls(std::string("as ") + name); g.nontrivial(a.size() > 1);
    std::string s = packOf(v);
    msgpack::object_handle oh = msgpack::unpack(s.data(), s.size());
    T w = oh.get().template as<T>();
    REQ(dumpOf(w) == a, name << " as: " << diff(a, dumpOf(w)));
}
template <class T> void zone(pbt::Ctx& g, const char* name) {
    T v = G<T>::gen(g, ANY); Dump a = dumpOf(v);
    g.note() << "zone " << name << ' ' << show(a); g.cls(std::string("zone ") + name); g.nontrivial(a.size() > 1);
    msgpack::zone z;
    msgpack::object o(v, z);
    T w = T(); o.convert(w);
    REQ(dumpOf(w) == a, name << " object: " << diff(a, dumpOf(w)));
    msgpack::sbuffer b; msgpack::pack(b, o);
    msgpack::object_handle oh = msgpack::unpack(b.data(), b.size());
    T x = T(); oh.get().convert(x);
    REQ(dumpOf(x) == a, name << " packed object: " << diff(a, dumpOf(x)));
}
template <class T> void all(pbt::Ctx& g, const char* name) { switch (g.draw(2)) { case 0: rt<T>(g, name); break; case 1: as_<T>(g, name); break; default: zone<T>(g, name); } }
template <class T> void all0(pbt::Ctx& g, const char* name) { switch (g.draw(1)) { case 0: rt<T>(g, name); break; default: zone<T>(g, name); } }
typedef void (*Fn)(pbt::Ctx&, const char*);
struct Ent { const char* n; Fn f[4]; };
#define X(n, ...) {#n, {all<__VA_ARGS__ >, all<std::vector<__VA_ARGS__ > >, all<Measurement::Measurement<__VA_ARGS__ > >, all<Measurement::Measurement<std::vector<__VA_ARGS__ > > >}},
const Ent table[] = {SER_TYPES(X)};
const char* const kind[] = {"", "list of ", "measurement ", "measurement list of "};
const int NT = sizeof table / sizeof *table;
struct Ent2 { const char* n; Fn f; };
#define Y(n, ...) {#n, all0<__VA_ARGS__ >},
const Ent2 extra[] = {SER_EXTRA(Y)};

struct Item { std::string bytes; std::function<std::string(msgpack::unpacker&)> read; };
template <class T> Item item(pbt::Ctx& g) {
    T v = G<T>::gen(g, ANY); Dump a = dumpOf(v); Item it; it.bytes = packOf(v);
    it.read = [a](msgpack::unpacker& u) { T w = T(); S::MsgpackArchive::deserialize(u, w); return diff(a, dumpOf(w)); };
    return it;
}
typedef Item (*IFn)(pbt::Ctx&);
#define Z(n, ...) item<__VA_ARGS__ >, item<std::vector<__VA_ARGS__ > >, item<Measurement::Measurement<__VA_ARGS__ > >,
const IFn items[] = {SER_TYPES(Z)};
const int NI = sizeof items / sizeof *items;
}  // namespace
PROP(msgpack_value, 90000, 4000000, "value with more than one leaf") {
    foldZero() = true;
    const Ent& e = table[g.draw(NT - 1)]; int k = int(g.draw(1)); e.f[k](g, (std::string(kind[k]) + e.n).c_str());
}
PROP(msgpack_measurement, 90000, 4000000, "value with more than one leaf") {
    foldZero() = true;
    const Ent& e = table[g.draw(NT - 1)]; int k = 2 + int(g.draw(1)); e.f[k](g, (std::string(kind[k]) + e.n).c_str());
}
PROP(msgpack_other_types, 20000, 1000000, "value with more than one leaf") {
    foldZero() = true;
    const Ent2& e = extra[g.draw(sizeof extra / sizeof *extra - 1)]; e.f(g, e.n);
}
PROP(msgpack_stream_history, 8000, 400000, "at least 3 messages, delivered in at least 3 pieces") {
    foldZero() = true;
    int n = g.size(1, 12); std::string all; std::vector<Item> it; std::vector<size_t> end; g.note() << "messages:";
    for (int i = 0; i < n; ++i) { int k = int(g.draw(NI - 1)); g.note() << ' ' << k; it.push_back(items[k](g)); all += it.back().bytes; end.push_back(all.size()); }
    msgpack::unpacker u; size_t pos = 0; int next = 0, pieces = 0;
    while (pos < all.size()) {
        size_t len = 1 + g.draw(std::min<uint64_t>(all.size() - pos - 1, g.coin() ? 20 : 5000));
        feed(u, all.substr(pos, len)); pos += len; ++pieces;
        while (next < n && end[next] <= pos) { std::string d = it[next].read(u); REQ(d.empty(), "message " << next << ": " << d); ++next; }
        if (next < n && g.oneIn(4)) {   // an incomplete message is reported and not lost
            bool threw = false; try { Math::Scalar<double> x; S::MsgpackArchive::deserialize(u, x); } catch (const std::exception&) { threw = true; }
            REQ(threw, "an incomplete message was reported as read");
        }
    }
    REQ(next == n, "not all messages delivered");
    g.nontrivial(n >= 3 && pieces >= 3);
}
PROP(msgpack_empty_measurement, 2000, 50000, "measurement without payload, read into one that has a payload") {
    foldZero() = true;
    Measurement::Position m(g.draw(1000)); std::string s = packOf(m);
    g.note() << "time " << m.time();
    g.nontrivial();
    Measurement::Position w(77, Math::Vector<double, 3>(1, 2, 3)), keep = w; msgpack::unpacker u; feed(u, s);
    S::MsgpackArchive::deserialize(u, w);
    REQ(!w && w.invalid(), "an empty measurement was read as a valid one");
    REQ(keep && (*keep)(2) == 3, "the old payload was destroyed");
    msgpack::object_handle oh = msgpack::unpack(s.data(), s.size());
    Measurement::Position v = oh.get().as<Measurement::Position>();
    REQ(!v && v.invalid(), "an empty measurement was converted to a valid one");
    std::vector<Measurement::Position> l; l.push_back(w); l.push_back(keep); l.push_back(m);
    std::string s2 = packOf(l); std::vector<Measurement::Position> r; msgpack::unpacker u2; feed(u2, s2); S::MsgpackArchive::deserialize(u2, r);
    REQ(r.size() == 3 && !r[0] && !r[2] && dumpOf(r[1]) == dumpOf(keep), "list with empty measurements");
}
PROP(msgpack_wrong_shape, 6000, 300000, "array whose length differs from the one the type needs") {
    foldZero() = true;
    int n = g.range(0, 40); msgpack::sbuffer b; msgpack::packer<msgpack::sbuffer> pk(&b); pk.pack_array(n);
    for (int i = 0; i < n; ++i) pk.pack(g.sym(5));
    msgpack::object_handle oh = msgpack::unpack(b.data(), b.size());
    g.note() << "array of " << n; g.nontrivial();
#define W(T, len) { bool threw = false; try { T v; oh.get().convert(v); } catch (const std::exception&) { threw = true; } REQ(threw == (n != len), #T << " accepts " << n << " elements: " << !threw); }
    typedef Math::Matrix<double, 3, 3> M33; typedef Math::Matrix<double, 3, 4> M34; typedef Math::Vector<double, 3> V3; typedef Math::Vector<double, 4> V4;
    W(M33, 9) W(M34, 12) W(V3, 3) W(V4, 4) W(Math::Quaternion, 4) W(Math::RotationVelocity, 3) W(Math::Pose, -1) W(Math::ErrorPose, -1) W(Math::CameraIntrinsics<double>, -1) W(Measurement::Position, -1)
}
