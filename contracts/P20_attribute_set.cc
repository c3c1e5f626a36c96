// The attributes of a message: each is found under its own accessor, the first of a kind counts, unknown ones are reported.
// SOURCES: stun/stun_message.cpp stun/stun_method.cpp stun/stun_attribute_set.cpp stun/stun_header.cpp stun/stun_attribute.cpp stun/stun_address.cpp stun/stun_error.cpp stun/details/stun_fingerprint.cpp net/ip/ip_address.cpp net/net_error.cpp net/net_port.cpp util/util_error_code.cpp crypto/openssl/openssl_hash.cpp crypto/openssl/openssl_error.cpp stun/stun_password.cpp
// VC-LIBS: -lcrypto
// VC-STUB(accessors|behind_integrity): ^freewebrtc::stun::crc32\(craftpp::binary::ConstView const&\)$ => vcstub_crc
// VC-BOUNDED(unknown_.*|duplicate.*): two or three attributes in the message
#include "vc.hpp"
#include <netinet/in.h>
#include "stun/stun_message.hpp"
#include "stun/stun_error.hpp"
#include "stun/details/stun_fingerprint.hpp"
#include "stun_common.hpp"
using namespace freewebrtc::stun;
using namespace vcs;
// contract of crc32 (P17): some number that depends only on the bytes; these messages ask once
extern "C" uint32_t vcstub_crc(const ConstBinaryView&) {
    static bool have = false;
    static uint32_t crc;
    if (!have) { crc = vc::any<uint32_t>("crc"); have = true; }
    return crc;
}
static void put16(uint8_t* p, unsigned v) { p[0] = v >> 8; p[1] = v; }
static const unsigned TYPES[] = {0x0020, 0x0001, 0x0006, 0x8022, 0x0008, 0x8028, 0x0024, 0x802A, 0x8029, 0x0025, 0x000A, 0x0009, 0x8023};
static const size_t SIZES[] = {8, 8, 5, 7, 20, 4, 4, 8, 8, 0, 6, 9, 20};
static bool known(unsigned type) {
    bool k = false;
    for (unsigned t : TYPES) k = k | (t == type);
    return k;
}
struct Packet {
    std::vector<uint8_t> b = std::vector<uint8_t>(20);
    // class bits of the message type in c: 0 request, 2 success, 3 error
    explicit Packet(unsigned c = 0) {
        const uint8_t* id = vc_buf(12, "id");
        put16(b.data(), 1 | ((c & 1) << 4) | ((c & 2) << 7));
        put16(b.data() + 4, 0x2112);
        put16(b.data() + 6, 0xA442);
        std::memcpy(b.data() + 8, id, 12);
    }
    // returns the position of the value
    size_t add(unsigned type, const uint8_t* v, size_t n) {
        const size_t at = b.size();
        b.resize(at + 4 + (n + 3) / 4 * 4);
        put16(b.data() + at, type);
        put16(b.data() + at + 2, n);
        if (n) std::memcpy(b.data() + at + 4, v, n);
        put16(b.data() + 2, b.size() - 20);
        return at + 4;
    }
    ConstBinaryView view() const { return ConstBinaryView(b); }
};
// which accessors answer: a bit per kind, in the order of TYPES
static unsigned answers(const AttributeSet& s) {
    return unsigned(s.xor_mapped().is_some()) | s.mapped().is_some() << 1 | s.username().is_some() << 2 | s.software().is_some() << 3
        | s.integrity().is_some() << 4 | unsigned(s.has_fingerprint()) << 5 | s.priority().is_some() << 6 | s.ice_controlling().is_some() << 7
        | s.ice_controlled().is_some() << 8 | unsigned(s.has_use_candidate()) << 9 | s.unknown_attributes().is_some() << 10
        | s.error_code().is_some() << 11 | s.alternate_server().is_some() << 12;
}
static bool text_is(const std::string& s, const uint8_t* v, size_t n) { return s.size() == n && same(reinterpret_cast<const uint8_t*>(s.data()), v, n); }
static bool xored_is(const XoredAddress& a, const uint8_t* v) {
    static const uint8_t id[12] = {};
    const uint8_t plain[4] = {uint8_t(v[0] ^ 0x21), uint8_t(v[1] ^ 0x12), uint8_t(v[2] ^ 0xA4), uint8_t(v[3] ^ 0x42)};
    return is4(a.to_address(TransactionId(ConstBinaryView(id, 12))), plain);
}
// the accessor of kind k gives the value v
static bool value_is(const AttributeSet& s, unsigned k, const uint8_t* v) {
    switch (k) {
    case 0: return s.xor_mapped().unwrap().get().port.value() == (be16(v + 2) ^ 0x2112) && xored_is(s.xor_mapped().unwrap().get().addr, v + 4);
    case 1: return s.mapped().unwrap().get().port.value() == be16(v + 2) && is4(s.mapped().unwrap().get().addr, v + 4);
    case 2: return text_is(s.username().unwrap().get().value, v, SIZES[2]);
    case 3: return text_is(s.software().unwrap().get(), v, SIZES[3]);
    case 4: return same(s.integrity().unwrap().get().value.view(), v, 20);
    case 5: return true;
    case 6: return s.priority().unwrap().get() == be32(v);
    case 7: return s.ice_controlling().unwrap().get() == be64(v);
    case 8: return s.ice_controlled().unwrap().get() == be64(v);
    case 9: return true;
    case 10: { const auto& t = s.unknown_attributes().unwrap().get().types; return t.size() == 3 && t[0].value() == be16(v) && t[1].value() == be16(v + 2) && t[2].value() == be16(v + 4); }
    case 11: { const auto& e = s.error_code().unwrap().get(); return e.code == (v[2] & 7) * 100u + v[3] && text_is(e.reason_phrase.value_or(std::string{}), v + 4, SIZES[11] - 4); }
    case 12: return s.alternate_server().unwrap().get().port.value() == be16(v + 2) && is6(s.alternate_server().unwrap().get().addr, v + 4);
    }
    return false;
}
// a well-formed value of kind k
static std::vector<uint8_t> value(unsigned k) {
    const uint8_t* r = vc_buf(SIZES[k], "value");
    std::vector<uint8_t> v(r, r + SIZES[k]);
    if (k < 2 || k == 12) { v[0] = 0; v[1] = k == 12 ? 2 : 1; }
    return v;
}
CONTRACT(accessors) {
    // one attribute of each kind, read from a message
    const unsigned k = vc_fork(vc::any_in<unsigned>(0, 12, "kind"));
    const auto v = value(k);
    Packet p(vc_fork(vc::any_in<unsigned>(0, 3, "class")));
    const size_t at = p.add(TYPES[k], v.data(), v.size());
    if (k == 5) {
        const uint32_t c = crc32(ConstBinaryView(p.b.data(), at - 4)) ^ 0x5354554e;
        put16(p.b.data() + at, c >> 16);
        put16(p.b.data() + at + 2, c);
    }
    ParseStat st;
    const auto r = Message::parse(p.view(), st);
    ENSURE(r.is_ok() && st.success.count() == 1, "accepted");
    if (r.is_err()) return;
    const auto& s = r.unwrap().attribute_set;
    ENSURE(answers(s) == 1u << k, "the accessor of its kind answers, no other");
    ENSURE(value_is(s, k, v.data()), "with the value in the message");
    ENSURE(s.unknown_comprehension_required().empty(), "nothing unknown");
    COVER("end");
}
CONTRACT(created) {
    // the same for a set an application puts together
    const uint8_t* d = vc_buf(20, "d");
    const unsigned k = vc_fork(vc::any_in<unsigned>(0, 12, "kind"));
    const net::Port port = net::Port::from_uint16(be16(d));
    AttributeSet::AttrVec a;
    ParseStat st;
    switch (k) {
    case 0: a.push_back(XorMappedAddressAttribute{XoredAddress::from_view(Family::ipv4(), ConstBinaryView(d, 4)).unwrap(), port}); break;
    case 1: a.push_back(MappedAddressAttribute{addr4(d), port}); break;
    case 2: a.push_back(UsernameAttribute{precis::OpaqueString{std::string("u")}}); break;
    case 3: a.push_back(SoftwareAttribute{std::string("s")}); break;
    case 4: a.push_back(MessageIntegityAttribute::parse(ConstBinaryView(d, 20), st).unwrap()); break;
    case 5: a.push_back(FingerprintAttribute{be32(d)}); break;
    case 6: a.push_back(PriorityAttribute{be32(d)}); break;
    case 7: a.push_back(IceControllingAttribute{be64(d)}); break;
    case 8: a.push_back(IceControlledAttribute{be64(d)}); break;
    case 9: a.push_back(UseCandidateAttribute{}); break;
    case 10: a.push_back(UnknownAttributesAttribute{}); break;
    case 11: a.push_back(ErrorCodeAttribute{420, None{}}); break;
    case 12: a.push_back(AlternateServerAttribute{addr4(d), port}); break;
    }
    const auto s = AttributeSet::create(std::move(a));
    ENSURE(answers(s) == 1u << k, "the accessor of its kind answers, no other");
    if (k == 6) ENSURE(s.priority().unwrap().get() == be32(d), "the value is kept");
    if (k == 7) ENSURE(s.ice_controlling().unwrap().get() == be64(d), "the value is kept");
    if (k == 8) ENSURE(s.ice_controlled().unwrap().get() == be64(d), "the value is kept");
    COVER("end");
}
CONTRACT(duplicates) {
    // the second attribute of a kind does not count
    const unsigned k = vc_fork(vc::any_in<unsigned>(0, 12, "kind"));
    REQUIRE(k != 5);
    const auto v = value(k), w = value(k);
    Packet p;
    p.add(TYPES[k], v.data(), v.size());
    p.add(TYPES[k], w.data(), w.size());
    ParseStat st;
    const auto r = Message::parse(p.view(), st);
    ENSURE(r.is_ok(), "a repeated attribute is no error");
    if (r.is_err()) return;
    const auto& s = r.unwrap().attribute_set;
    ENSURE(answers(s) == 1u << k && value_is(s, k, v.data()), "the first of a kind counts");
    if (k == 4) ENSURE(r.unwrap().integrity_interval.unwrap().count == 20, "and the first MESSAGE-INTEGRITY ends the protected part");
    COVER("end");
}
CONTRACT(duplicates_created) {
    const auto a = vc::any<uint32_t>("a"), b = vc::any<uint32_t>("b");
    AttributeSet::AttrVec v;
    v.push_back(PriorityAttribute{a});
    v.push_back(PriorityAttribute{b});
    const auto s = AttributeSet::create(std::move(v));
    ENSURE(answers(s) == 1u << 6 && s.priority().unwrap().get() == a, "the first of a kind counts");
    COVER("end");
}
CONTRACT(unknown_types) {
    // two attributes of any unknown types around a known one
    const auto t = vc::any<uint16_t>("t"), u = vc::any<uint16_t>("u");
    REQUIRE(!known(t) && !known(u));
    const uint8_t *v = vc_buf(5, "v"), *w = vc_buf(8, "w"), *q = vc_buf(4, "q");
    Packet p;
    p.add(t, v, 5);
    p.add(0x0024, q, 4);
    p.add(u, w, 8);
    ParseStat st;
    const auto r = Message::parse(p.view(), st);
    ENSURE(r.is_ok(), "unknown attributes are no error");
    if (r.is_err()) return;
    const auto& s = r.unwrap().attribute_set;
    ENSURE(answers(s) == 1u << 6 && value_is(s, 6, q), "the known attribute is found");
    const auto list = s.unknown_comprehension_required();
    std::vector<unsigned> want;
    if (t < 0x8000) want.push_back(t);
    if (u < 0x8000) want.push_back(u);
    ENSURE(list.size() == want.size(), "each unknown type that must be understood is listed");
    for (size_t i = 0; i < want.size() && i < list.size(); ++i) ENSURE(list[i].value() == want[i], "in order");
    if (want.size() == 0) COVER("optional");
    if (want.size() == 2) COVER("both");
}
CONTRACT(behind_integrity) {
    // whatever stands behind MESSAGE-INTEGRITY, other than the fingerprint, is ignored
    const unsigned k = vc_fork(vc::any_in<unsigned>(0, 13, "kind"));
    REQUIRE(k != 5 && k != 4);
    const bool before = vc_fork(vc::any_bool("before")), fp = vc_fork(vc::any_bool("fp"));
    const uint8_t *q = vc_buf(4, "q"), *digest = vc_buf(20, "digest");
    const auto t = k == 13 ? vc::any<uint16_t>("t") : uint16_t(0);
    REQUIRE(k != 13 || !known(t));
    const uint8_t* raw = vc_buf(24, "v");
    Packet p;
    if (before) p.add(0x0024, q, 4);
    const size_t end = p.b.size();
    p.add(0x0008, digest, 20);
    p.add(k == 13 ? t : TYPES[k], raw, vc_fork(vc::any_in<size_t>(0, 1, "odd")) ? 3 : 24);
    if (fp) {
        const uint8_t zero[4] = {};
        const size_t at = p.add(0x8028, zero, 4);
        const uint32_t c = crc32(ConstBinaryView(p.b.data(), at - 4)) ^ 0x5354554e;
        put16(p.b.data() + at, c >> 16);
        put16(p.b.data() + at + 2, c);
    }
    ParseStat st;
    const auto r = Message::parse(p.view(), st);
    ENSURE(r.is_ok(), "no error, whatever its value");
    if (r.is_err()) return;
    const auto& m = r.unwrap();
    ENSURE(answers(m.attribute_set) == ((1u << 4) | (before ? 1u << 6 : 0) | (fp ? 1u << 5 : 0)), "only what stands before, the digest and the fingerprint count");
    ENSURE(m.attribute_set.unknown_comprehension_required().empty(), "not even as unknown");
    ENSURE(m.attribute_set.integrity().unwrap().get().value.view() == ConstBinaryView(digest, 20), "the digest");
    ENSURE(m.integrity_interval.unwrap().offset == 0 && m.integrity_interval.unwrap().count == end, "the protected part");
    COVER("end");
}
CONTRACT(alternate_server) {
    // a redirection is an error response with code 300
    const unsigned c = vc_fork(vc::any_in<unsigned>(0, 3, "class"));
    const bool has = vc_fork(vc::any_bool("has"));
    const uint8_t* v = vc_buf(4, "v");
    Packet p(c);
    if (has) p.add(0x0009, v, 4);
    ParseStat st;
    const auto r = Message::parse(p.view(), st);
    ENSURE(r.is_ok(), "accepted");
    if (r.is_err()) return;
    ENSURE(r.unwrap().is_alternate_server() == (c == 3 && has && (v[2] & 7) * 100 + v[3] == 300), "error response 300");
    COVER("end");
}
