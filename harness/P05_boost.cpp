// P05: everything serialized through the text / binary archive format is read back bit for bit.
#include "sertypes.h"
#include <boost/archive/text_oarchive.hpp>
using namespace st;
namespace S = Ubitrack::Serialization;

namespace {
template <class T> void single(pbt::Ctx& g, const char* name) {
    bool text = g.coin();
    S::SerializationProtocol p = text ? S::PROTOCOL_BOOST_TEXT : S::PROTOCOL_BOOST_BINARY;
    T v = G<T>::gen(g, text ? FINITE : ANY);
    Dump a = dumpOf(v);
    g.note() << name << (text ? " text " : " binary ") << show(a);
    g.cls(name); g.nontrivial(a.size() > 1);
    AnyStream ss;
    S::serialize(p, ss, v);
    REQ(dumpOf(v) == a, "writing changed the value: " << diff(a, dumpOf(v)));
    T w = g.coin() ? G<T>::gen(g, FINITE) : T();   // the receiver's variable may hold an older value
    S::deserialize(p, ss, w);
    Dump b = dumpOf(w);
    REQ(a == b, name << ": " << diff(a, b));
    // writing the read value gives the same bytes
    AnyStream s2; S::serialize(p, s2, w);
    REQ(s2.str() == ss.str(), name << ": bytes differ when the read value is written again");
}
template <class T> void list(pbt::Ctx& g, const char* name) {
    std::string n = std::string("list of ") + name;
    single<std::vector<T> >(g, n.c_str());
}
template <class T> void meas(pbt::Ctx& g, const char* name) {
    bool text = g.coin();
    S::SerializationProtocol p = text ? S::PROTOCOL_BOOST_TEXT : S::PROTOCOL_BOOST_BINARY;
    typedef Measurement::Measurement<T> M;
    M v = G<M>::gen(g, text ? FINITE : ANY);
    Dump a = dumpOf(v);
    g.note() << "measurement " << name << (text ? " text " : " binary ") << show(a);
    g.cls(std::string("measurement ") + name); g.nontrivial();
    AnyStream ss;
    S::serialize(p, ss, v);
    M w = g.coin() ? M() : M(g.draw(100), boost::shared_ptr<T>(new T(G<T>::gen(g, FINITE))));
    S::deserialize(p, ss, w);
    Dump b = dumpOf(w);
    REQ(a == b, name << ": " << diff(a, b));
    REQ(w.get() != v.get() && v.use_count() == 1, "the two measurements share data");
}
template <class T> void measList(pbt::Ctx& g, const char* name) { meas<std::vector<T> >(g, (std::string("list of ") + name).c_str()); }
typedef void (*Fn)(pbt::Ctx&, const char*);
struct Ent { const char* n; Fn f[4]; };
#define X(n, ...) {#n, {single<__VA_ARGS__ >, list<__VA_ARGS__ >, meas<__VA_ARGS__ >, measList<__VA_ARGS__ >}},
const Ent table[] = {SER_TYPES(X)};
const int NT = sizeof table / sizeof *table;
#define Y(n, ...) {#n, single<__VA_ARGS__ >},
struct Ent2 { const char* n; Fn f; };
const Ent2 extra[] = {SER_EXTRA(Y)};

// heterogeneous histories on one archive
struct Item { std::function<void(void*, bool)> write; std::function<std::string(void*, bool)> read; };
template <class T> Item item(pbt::Ctx& g, bool text) {
    boost::shared_ptr<T> v(new T(G<T>::gen(g, text ? FINITE : ANY)));
    Item it;
    it.write = [v](void* ar, bool text) { const T& c = *v; if (text) S::BoostArchive::serialize(*static_cast<boost::archive::text_oarchive*>(ar), c); else S::BoostArchive::serialize(*static_cast<boost::archive::binary_oarchive*>(ar), c); };
    it.read = [v](void* ar, bool text) { T w = T(); if (text) S::BoostArchive::deserialize(*static_cast<boost::archive::text_iarchive*>(ar), w); else S::BoostArchive::deserialize(*static_cast<boost::archive::binary_iarchive*>(ar), w); return diff(dumpOf(*v), dumpOf(w)); };
    return it;
}
typedef Item (*IFn)(pbt::Ctx&, bool);
#define Z(n, ...) item<__VA_ARGS__ >, item<std::vector<__VA_ARGS__ > >, item<Measurement::Measurement<__VA_ARGS__ > >,
const IFn items[] = {SER_TYPES(Z)};
const int NI = sizeof items / sizeof *items;
}  // namespace

PROP(archive_value, 60000, 3000000, "value with more than one leaf (vector, matrix, pose, list, ...)") {
    foldZero() = false;
    const Ent& e = table[g.draw(NT - 1)];
    e.f[g.draw(1)](g, e.n);
}
PROP(archive_value_other_types, 10000, 500000, "value with more than one leaf") {
    foldZero() = false;
    const Ent2& e = extra[g.draw(sizeof extra / sizeof *extra - 1)];
    e.f(g, e.n);
}
PROP(archive_measurement, 60000, 3000000, "always (timestamp and payload)") {
    foldZero() = false;
    const Ent& e = table[g.draw(NT - 1)];
    e.f[2 + g.draw(1)](g, e.n);
}
PROP(archive_history, 8000, 400000, "at least 3 objects in one archive") {
    foldZero() = false;
    bool text = g.coin();
    int n = g.size(1, 12);
    std::vector<Item> it; g.note() << (text ? "text" : "binary") << " objects:";
    for (int i = 0; i < n; ++i) { int k = int(g.draw(NI - 1)); g.note() << ' ' << k; it.push_back(items[k](g, text)); }
    g.nontrivial(n >= 3);
    AnyStream ss;
    if (text) { boost::archive::text_oarchive ar(ss); for (auto& i : it) i.write(&ar, true); }
    else { boost::archive::binary_oarchive ar(ss); for (auto& i : it) i.write(&ar, false); }
    if (text) { boost::archive::text_iarchive ar(ss); for (int i = 0; i < n; ++i) { std::string d = it[i].read(&ar, true); REQ(d.empty(), "object " << i << ": " << d); } }
    else { boost::archive::binary_iarchive ar(ss); for (int i = 0; i < n; ++i) { std::string d = it[i].read(&ar, false); REQ(d.empty(), "object " << i << ": " << d); } }
}
PROP(archives_in_one_stream, 8000, 400000, "at least 2 archives one after the other in a stream") {
    S::SerializationProtocol p = S::SerializationProtocol(1 + g.draw(2));
    foldZero() = p == S::PROTOCOL_MSGPACK;
    int n = g.size(1, 6); g.nontrivial(n >= 2);
    std::vector<Math::Pose> ps; std::vector<Measurement::PositionList> ls;
    AnyStream ss;
    for (int i = 0; i < n; ++i) {
        ps.push_back(G<Math::Pose>::gen(g, FINITE)); ls.push_back(G<Measurement::PositionList>::gen(g, FINITE));
        S::serialize(p, ss, ps[i]); S::serialize(p, ss, ls[i]);
    }
    g.note() << "protocol " << int(p) << ", " << n << " pairs";
    for (int i = 0; i < n; ++i) {
        Math::Pose q; Measurement::PositionList l;
        S::deserialize(p, ss, q); S::deserialize(p, ss, l);
        REQ(dumpOf(q) == dumpOf(ps[i]), "pose " << i); REQ(dumpOf(l) == dumpOf(ls[i]), "list " << i);
    }
}
PROP(unknown_protocol, 200, 2000, "protocol number outside the known ones") {
    int k = g.range(4, 1000); if (g.coin()) k = 0; g.nontrivial();
    g.note() << "protocol " << k;
    AnyStream ss; Math::Scalar<int> v(5), w(7);
    bool threw = false;
    try { S::serialize(S::SerializationProtocol(k), ss, v); } catch (const Ubitrack::Util::Exception&) { threw = true; }
    REQ(threw, "unknown protocol accepted for writing");
    threw = false;
    try { S::deserialize(S::SerializationProtocol(k), ss, w); } catch (const Ubitrack::Util::Exception&) { threw = true; }
    REQ(threw && int(w) == 7, "unknown protocol accepted for reading");
}
PROP(measurement_without_payload, 500, 5000, "measurement whose payload pointer is empty") {
    Measurement::Pose m(g.draw(1000)); g.nontrivial(); bool text = g.coin(); g.note() << "time " << m.time();
    AnyStream ss; bool threw = false;
    try { S::serialize(text ? S::PROTOCOL_BOOST_TEXT : S::PROTOCOL_BOOST_BINARY, ss, m); } catch (const std::exception&) { threw = true; }
    REQ(threw, "a measurement without payload was written without an error");
}
