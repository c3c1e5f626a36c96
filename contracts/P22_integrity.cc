// Message integrity: which bytes are protected, and when a message is valid.
// SOURCES: stun/stun_message.cpp stun/stun_method.cpp stun/stun_attribute_set.cpp stun/stun_header.cpp stun/stun_attribute.cpp stun/stun_address.cpp stun/stun_error.cpp stun/details/stun_fingerprint.cpp net/ip/ip_address.cpp net/net_error.cpp net/net_port.cpp util/util_error_code.cpp crypto/openssl/openssl_hash.cpp crypto/openssl/openssl_error.cpp stun/stun_password.cpp
// VC-LIBS: -lcrypto
// VC-OPT(.*): affine=1 unroll=80
#include "vc.hpp"
#include <netinet/in.h>
#include "stun/stun_message.hpp"
#include "stun_common.hpp"
#include "ghost_hash.hpp"
using namespace freewebrtc::stun;
using namespace vcs;
using namespace ghost;
static void put16(uint8_t* p, unsigned v) { p[0] = v >> 8; p[1] = v; }
static Password password(const uint8_t* key) {
    Ghost none;
    const std::string text(reinterpret_cast<const char*>(key), 64);
    return Password::short_term(precis::OpaqueString{text}, none.func()).unwrap();
}
static bool equal20(const uint8_t* a, const uint8_t* b) {
    bool r = true;
    for (int i = 0; i < 20; ++i) r = r & (a[i] == b[i]);
    return r;
}
// the hashes of one check of the protected part d[0..off) under the password
static void hashed(const Ghost& g, const Password& p, const uint8_t* d, size_t off) {
    ENSURE(g.calls == 2, "two hashes");
    if (g.calls != 2) return;
    const auto &in = g.seen[0].text, &out = g.seen[1].text;
    ENSURE(in.size() == 64 + off && out.size() == 84, "key and protected part; key and inner hash");
    if (in.size() != 64 + off || out.size() != 84) return;
    ENSURE(vc::same_bytes(in.data(), p.ipad().view().data(), 64), "the inner key of the password");
    ENSURE(in[64] == d[0] && in[65] == d[1], "the message type");
    ENSURE(be16(in.data() + 66) == off + 24 - 20, "the length of a message that ends with MESSAGE-INTEGRITY");
    ENSURE(vc::same_bytes(in.data() + 68, d + 4, off - 4), "everything else up to MESSAGE-INTEGRITY");
    ENSURE(vc::same_bytes(out.data(), p.opad().view().data(), 64), "the outer key of the password");
    ENSURE(vc::same_bytes(out.data() + 64, g.seen[0].digest, 20), "the inner hash");
}
static Message message(const uint8_t* d, const uint8_t* digest, bool has, size_t off) {
    ParseStat st;
    AttributeSet::AttrVec v;
    if (has) v.push_back(MessageIntegityAttribute::parse(ConstBinaryView(digest, 20), st).unwrap());
    Maybe<ConstBinaryView::Interval> ii = None{};
    if (has) ii = ConstBinaryView::Interval{0, off};
    return Message{Header{Class::from_msg_type(be16(d)), Method::from_msg_type(be16(d)), TransactionId(ConstBinaryView(d + 8, 12))},
                   AttributeSet::create(std::move(v)), IsRFC3489{false}, ii};
}
CONTRACT(check) {
    // a message whose MESSAGE-INTEGRITY starts at any place, with anything behind it
    const size_t off = vc::any_in<size_t>(5, 16000, "off") * 4;
    const size_t n = vc::any_in<size_t>(0, 1500, "rest") + off + 24;
    const uint8_t* d = vc_buf(n, "d");
    const Password p = password(vc_buf(64, "key"));
    const uint8_t* digest = vc_buf(20, "stated");
    const auto m = message(d, digest, true, off);
    Ghost g;
    g.fails = vc_fork(vc::any_in<unsigned>(0, 2, "fails"));
    const auto r = m.is_valid(ConstBinaryView(d, n), IntegrityData{p, g.func()});
    if (g.fails < 2) {
        ENSURE(r.is_err(), "a failing hash is reported");
        COVER("failure");
        return;
    }
    ENSURE(r.is_ok() && r.unwrap().is_some(), "the check has a result");
    if (r.is_err() || r.unwrap().is_none()) return;
    hashed(g, p, d, off);
    if (g.calls != 2) return;
    const bool valid = equal20(g.seen[1].digest, digest);
    ENSURE(r.unwrap().unwrap() == valid, "valid exactly when the digests agree");
    if (valid) COVER("valid"); else COVER("not valid");
}
CONTRACT(check_without) {
    const size_t n = vc::any_in<size_t>(20, 65000, "n");
    const uint8_t* d = vc_buf(n, "d");
    const auto m = message(d, d, false, 0);
    Ghost g;
    const auto r = m.is_valid(ConstBinaryView(d, n), IntegrityData{password(vc_buf(64, "key")), g.func()});
    ENSURE(r.is_ok() && r.unwrap().is_none() && g.calls == 0, "nothing to check without MESSAGE-INTEGRITY");
    COVER("end");
}
CONTRACT(check_parsed) {
    // the same for a message as received: USERNAME of any size, MESSAGE-INTEGRITY, and perhaps more
    const size_t len = vc::any_in<size_t>(0, 4000, "len");
    const bool name = vc_fork(vc::any_bool("name")), more = vc_fork(vc::any_bool("more"));
    const size_t off = 20 + (name ? 4 + (len + 3) / 4 * 4 : 0), n = off + 24 + (more ? 8 : 0);
    const uint8_t *raw = vc_buf(n, "d"), *more_raw = vc_buf(8, "more");
    std::vector<uint8_t> b(raw, raw + n);
    uint8_t* d = b.data();
    d[0] &= 0x3f;
    put16(d + 2, n - 20);
    put16(d + 4, 0x2112);
    put16(d + 6, 0xA442);
    if (name) { put16(d + 20, 0x0006); put16(d + 22, len); }
    put16(d + off, 0x0008);
    put16(d + off + 2, 20);
    if (more) { std::memcpy(d + off + 24, more_raw, 8); put16(d + off + 24, 0x0024); put16(d + off + 26, 4); }
    ParseStat st;
    const auto pr = Message::parse(ConstBinaryView(d, n), st);
    ENSURE(pr.is_ok(), "accepted");
    if (pr.is_err()) return;
    const Password p = password(vc_buf(64, "key"));
    Ghost g;
    const auto r = pr.unwrap().is_valid(ConstBinaryView(d, n), IntegrityData{p, g.func()});
    ENSURE(r.is_ok() && r.unwrap().is_some(), "the check has a result");
    if (r.is_err() || r.unwrap().is_none()) return;
    hashed(g, p, d, off);
    if (g.calls != 2) return;
    const bool valid = equal20(g.seen[1].digest, d + off + 4);
    ENSURE(r.unwrap().unwrap() == valid, "valid exactly when the digest in the message is the computed one");
    if (valid) COVER("valid"); else COVER("not valid");
}
