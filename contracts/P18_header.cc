// STUN message header: which packets are STUN messages, and what their header says.
// SOURCES: stun/stun_message.cpp stun/stun_method.cpp stun/stun_attribute_set.cpp stun/stun_header.cpp stun/stun_attribute.cpp stun/stun_address.cpp stun/stun_error.cpp stun/details/stun_fingerprint.cpp net/ip/ip_address.cpp net/net_error.cpp net/net_port.cpp util/util_error_code.cpp crypto/openssl/openssl_hash.cpp crypto/openssl/openssl_error.cpp stun/stun_password.cpp
// VC-LIBS: -lcrypto
#include "vc.hpp"
#include <netinet/in.h>
#include "stun/stun_message.hpp"
#include "stun/stun_error.hpp"
#include "stun_common.hpp"
using namespace freewebrtc::stun;
using namespace vcs;
static const uint32_t COOKIE = 0x2112A442;
static unsigned class_bits(unsigned type) { return ((type >> 4) & 1) | ((type >> 7) & 2); }
static unsigned method_bits(unsigned type) { return (type & 0xf) | ((type >> 1) & 0x70) | ((type >> 2) & 0xf80); }
// 20 header bytes that are right or wrong in every possible way, in a packet of n bytes
static std::vector<uint8_t> packet(size_t n) {
    const uint8_t* d = vc_buf(n, "d");
    std::vector<uint8_t> b(d, d + n);
    if (!vc_symbolic() && n >= 20) {
        // random bytes are hardly ever a header: make each part right most of the time
        const auto pick = vc::any<uint8_t>("pick");
        if (pick & 3) b[0] &= 0x3f;
        if (pick & 12) { b[2] = (n - 20) >> 8; b[3] = n - 20; }
        if (pick & 48) { b[4] = 0x21; b[5] = 0x12; b[6] = 0xA4; b[7] = 0x42; }
    }
    return b;
}
CONTRACT(refused) {
    const size_t n = vc::any_in<size_t>(0, 70000, "n");
    const auto b = packet(n);
    const uint8_t* d = b.data();
    ParseStat st;
    if (n < 20) {
        const auto r = Message::parse(ConstBinaryView(d, n), st);
        ENSURE(r.is_err() && counted_failure(st) && st.invalid_size.count() == 1, "a packet without a full header is no STUN message");
        COVER("short");
        return;
    }
    const bool top = (d[0] & 0xc0) == 0, padded = d[3] % 4 == 0, length = be16(d + 2) == n - 20;
    const bool cookie = be32(d + 4) == COOKIE, request = class_bits(be16(d)) == 0;
    REQUIRE(!(top & padded & length & (cookie | request)));
    const auto r = Message::parse(ConstBinaryView(d, n), st);
    ENSURE(r.is_err(), "a packet with a wrong header is no STUN message");
    ENSURE(counted_failure(st), "it is counted once, under one reason");
    if (top & !padded & length) { ENSURE(st.not_padded.count() == 1, "length not a multiple of four"); COVER("padding"); }
    if (top & padded & !length) { ENSURE(st.message_length_error.count() == 1, "length not that of the packet"); COVER("length"); }
    if (top & padded & length) { ENSURE(st.magic_cookie_error.count() == 1, "only requests may lack the magic cookie"); COVER("cookie"); }
    if (!top & padded & length) COVER("top bits");
}
CONTRACT(bare_message) {
    // a message without attributes
    const auto b = packet(20);
    const uint8_t* d = b.data();
    const bool cookie = be32(d + 4) == COOKIE, request = class_bits(be16(d)) == 0;
    REQUIRE((d[0] & 0xc0) == 0 && be16(d + 2) == 0 && (cookie || request));
    ParseStat st;
    const auto r = Message::parse(ConstBinaryView(d, 20), st);
    ENSURE(r.is_ok(), "a right header is accepted");
    ENSURE(st.success.count() == 1 && st.error.count() == 0 && reasons(st) == 0, "and counted as success");
    if (r.is_err()) return;
    const auto& m = r.unwrap();
    ENSURE(m.header.cls.value() == static_cast<Class::Value>(class_bits(be16(d))), "class");
    ENSURE(m.header.method.to_msg_type() == (be16(d) & 0x3eef), "method");
    ENSURE((m.header.method == Method::binding()) == (method_bits(be16(d)) == 1), "method 1 is Binding");
    ENSURE(bool(m.is_rfc3489) == !cookie, "a request without the cookie is of the older standard");
    const size_t at = cookie ? 8 : 4;
    ENSURE(same(m.header.transaction_id.view(), d + at, 20 - at), "transaction id: the bytes after the cookie, or after the length");
    ENSURE(m.integrity_interval.is_none(), "nothing is protected");
    ENSURE(!m.attribute_set.has_fingerprint() && m.attribute_set.integrity().is_none() && m.attribute_set.unknown_comprehension_required().empty(), "no attributes");
    if (cookie) COVER("cookie"); else COVER("older");
}
CONTRACT(header_build) {
    // writing a header: type, length, cookie, id
    const auto type = vc::any<uint16_t>("type");
    const auto len = vc::any<uint16_t>("len");
    REQUIRE(type < 0x4000);
    const bool older = vc_fork(vc::any_bool("older"));
    const uint8_t* id = vc_buf(16, "id");
    const size_t n = older ? 16 : 12;
    const Header h{Class::from_msg_type(type), Method::from_msg_type(type), TransactionId(ConstBinaryView(id, n))};
    const auto b = h.build(len);
    ENSURE(b.size() == 20, "a header has 20 bytes");
    ENSURE(be16(b.data()) == type && be16(b.data() + 2) == len, "type and length in network order");
    ENSURE(older || be32(b.data() + 4) == COOKIE, "the magic cookie");
    ENSURE(same(b.data() + 20 - n, id, n), "the transaction id");
    COVER("end");
}
