// The stateless server: what it answers to which request, and with whose password.
// SOURCES: stun/stun_server_stateless.cpp stun/stun_message.cpp stun/stun_method.cpp stun/stun_attribute_set.cpp stun/stun_header.cpp stun/stun_attribute.cpp stun/stun_address.cpp stun/stun_error.cpp stun/details/stun_fingerprint.cpp net/ip/ip_address.cpp net/net_error.cpp net/net_port.cpp util/util_error_code.cpp crypto/openssl/openssl_hash.cpp crypto/openssl/openssl_error.cpp stun/stun_password.cpp
// VC-LIBS: -lcrypto
// VC-STUB(.*): ^freewebrtc::stun::crc32\(craftpp::binary::ConstView const&\)$ => vcstub_crc
// VC-OPT(.*): affine=1 unroll=80
// VC-BOUNDED(unknown_list|any_bytes|sequence): three unknown attributes; packets of up to 28 bytes; two requests after each other
#include "vc.hpp"
#include <netinet/in.h>
#include "stun/stun_server_stateless.hpp"
#include "stun/stun_error.hpp"
#include "stun/details/stun_fingerprint.hpp"
#include "stun_common.hpp"
#include "ghost_hash.hpp"
using namespace freewebrtc::stun;
using namespace vcs;
using namespace ghost;
using server::Stateless;
// contract of crc32 (P17): some number; these packets ask about one text
extern "C" uint32_t vcstub_crc(const ConstBinaryView&) {
    static bool have = false;
    static uint32_t crc;
    if (!have) { crc = vc::any<uint32_t>("crc"); have = true; }
    return crc;
}
static void put16(uint8_t* p, unsigned v) { p[0] = v >> 8; p[1] = v; }
static Password password(const uint8_t* key) {
    Ghost none;
    const std::string text(reinterpret_cast<const char*>(key), 64);
    return Password::short_term(precis::OpaqueString{text}, none.func()).unwrap();
}
static const unsigned TYPES[] = {0x0020, 0x0001, 0x0006, 0x8022, 0x0008, 0x8028, 0x0024, 0x802A, 0x8029, 0x0025, 0x000A, 0x0009, 0x8023};
static bool known(unsigned type) {
    bool k = false;
    for (unsigned t : TYPES) k = k | (t == type);
    return k;
}
static unsigned answers(const AttributeSet& s) {
    return unsigned(s.xor_mapped().is_some()) | s.mapped().is_some() << 1 | s.username().is_some() << 2 | s.software().is_some() << 3
        | s.integrity().is_some() << 4 | unsigned(s.has_fingerprint()) << 5 | s.priority().is_some() << 6 | s.ice_controlling().is_some() << 7
        | s.ice_controlled().is_some() << 8 | unsigned(s.has_use_candidate()) << 9 | s.unknown_attributes().is_some() << 10
        | s.error_code().is_some() << 11 | s.alternate_server().is_some() << 12;
}
// a well-formed packet
struct Packet {
    std::vector<uint8_t> b = std::vector<uint8_t>(20);
    unsigned type;
    bool old;
    unsigned id_size() const { return old ? 16 : 12; }
    const uint8_t* id() const { return b.data() + 20 - id_size(); }
    Packet(unsigned t, bool o) : type(t), old(o) {
        const uint8_t* i = vc_buf(16, "id");
        put16(b.data(), t);
        std::memcpy(b.data() + 4, i, 16);
        if (old) REQUIRE(be32(i) != 0x2112A442u);
        else { put16(b.data() + 4, 0x2112); put16(b.data() + 6, 0xA442); }
    }
    size_t add(unsigned t, const uint8_t* v, size_t n) {
        const size_t at = b.size();
        b.resize(at + 4 + (n + 3) / 4 * 4);
        put16(b.data() + at, t);
        put16(b.data() + at + 2, n);
        if (n) std::memcpy(b.data() + at + 4, v, n);
        put16(b.data() + 2, b.size() - 20);
        return at + 4;
    }
    ConstBinaryView view() const { return ConstBinaryView(b); }
};
static constexpr unsigned BINDING = 1, SUCCESS = 0x101;
// a server with two users
struct Server {
    Ghost g;
    const uint8_t* names = vc_buf(6, "names");
    const Password pw[2] = {password(vc_buf(64, "key0")), password(vc_buf(64, "key1"))};
    bool fp;
    Stateless s;
    static Maybe<Stateless::Settings> settings(unsigned k) {
        if (k == 2) return None{};
        return Stateless::Settings{k == 1};
    }
    explicit Server(unsigned k) : fp(k != 0), s(g.func(), settings(k)) {
        for (int i = 0; i < 2; ++i) s.add_user(name(i), pw[i]);
    }
    precis::OpaqueString name(int i) const { return precis::OpaqueString{std::string(reinterpret_cast<const char*>(names) + 3 * i, 3)}; }
};
struct Expect {
    const Packet& p;
    bool name, mac;
    const uint8_t* user = nullptr;   // 3 bytes
    const uint8_t* digest = nullptr; // 20 bytes
    std::vector<unsigned> unknown;   // those that require comprehension
};
static net::Endpoint endpoint(const uint8_t* a, bool six, bool tcp, uint16_t port) {
    const auto addr = six ? addr6(a) : addr4(a);
    if (tcp) return net::Endpoint{net::TcpEndpoint{addr, net::Port(port)}};
    return net::Endpoint{net::UdpEndpoint{addr, net::Port(port)}};
}
static bool is_address(const net::ip::Address& x, const uint8_t* a, bool six) { return six ? is6(x, a) : is4(x, a); }
static bool hash_is(const MaybeIntegrity& mi, const Password& p) { return mi.is_some() && mi.unwrap().password == p; }
static void check(Server& sv, const Expect& e, bool endpoints = true) {
    const uint8_t* a = vc_buf(16, "address");
    const bool six = endpoints && vc_fork(vc::any_bool("six")), tcp = endpoints && vc_fork(vc::any_bool("tcp"));
    const auto port = vc::any<uint16_t>("port");
    const unsigned calls = sv.g.calls;
    const auto r = sv.s.process(endpoint(a, six, tcp, port), e.p.view());
    const auto* rsp = std::get_if<Stateless::Respond>(&r);
    const auto* ign = std::get_if<Stateless::Ignore>(&r);
    const auto* err = std::get_if<Stateless::Error>(&r);
    const bool request = (e.p.type & 0x110) == 0;
    const unsigned n = e.p.id_size();
    if (rsp) {
        ENSURE(request, "only requests are answered");
        ENSURE(same(rsp->response.header.transaction_id.view(), e.p.id(), n), "the answer has the id of the request");
        ENSURE(rsp->response.header.method == Method::from_msg_type(e.p.type), "and its method");
        ENSURE(bool(rsp->response.is_rfc3489) == e.p.old, "and its mode");
        ENSURE(same(rsp->request.header.transaction_id.view(), e.p.id(), n) && rsp->request.header.cls == Class::request(), "the request is handed out with it");
    }
    unsigned code = 0;
    if (!request) {
        ENSURE(ign && ign->message.is_some(), "not a request: ignored, handed out");
        if (ign && ign->message.is_some()) ENSURE(same(ign->message.unwrap().header.transaction_id.view(), e.p.id(), n), "the message");
        COVER("not a request");
        return;
    }
    bool authenticated = false;
    unsigned who = 0;
    if (!e.unknown.empty()) code = 420;
    else if (e.name != e.mac) code = 400;
    else if (e.name) {
        const bool u0 = same(e.user, sv.names, 3), u1 = same(e.user, sv.names + 3, 3);
        if (!u0 && !u1) code = 401;
        else {
            who = u0 ? 0 : 1; // the first of two users of one name stays
            if (sv.g.fails < calls + 2) {
                ENSURE(err != nullptr && bool(std::error_code(err->error)), "a failing hash is reported");
                COVER("failure");
                return;
            }
            ENSURE(sv.g.calls == calls + 2, "the digest is computed");
            if (sv.g.calls != calls + 2) return;
            const auto& in = sv.g.seen[sv.g.seen.size() - 2].text;
            ENSURE(in.size() >= 64 && vc::same_bytes(in.data(), sv.pw[who].ipad().view().data(), 64), "with the password of that user");
            const auto* d = sv.g.seen.back().digest;
            bool ok = true;
            for (int i = 0; i < 20; ++i) ok = ok & (d[i] == e.digest[i]);
            if (ok) authenticated = true;
            else code = 401;
        }
    }
    if (code) {
        ENSURE(rsp != nullptr, "answered");
        if (!rsp) return;
        const auto& s = rsp->response.attribute_set;
        ENSURE(rsp->response.header.cls == Class::error_response(), "with an error");
        ENSURE(rsp->maybe_integrity.is_none(), "not signed");
        ENSURE(s.error_code().is_some() && s.error_code().unwrap().get().code == code, "of the code that applies");
        ENSURE(answers(s) == ((1u << 11) | (code == 420 ? 1u << 10 : 0)), "and nothing else");
        if (code == 420 && s.unknown_attributes().is_some()) {
            const auto& t = s.unknown_attributes().unwrap().get().types;
            bool ok = t.size() == e.unknown.size();
            for (size_t i = 0; i < t.size() && i < e.unknown.size(); ++i) ok = ok & (t[i].value() == e.unknown[i]);
            ENSURE(ok, "UNKNOWN-ATTRIBUTES lists them");
        }
        if (code == 420) COVER("420");
        else if (code == 400) COVER("400");
        else COVER("401");
        return;
    }
    if ((e.p.type & 0x3eef) != BINDING) {
        ENSURE(ign && ign->message.is_some(), "another method: ignored, handed out");
        if (ign && ign->message.is_some()) ENSURE(same(ign->message.unwrap().header.transaction_id.view(), e.p.id(), n), "the message");
        COVER("another method");
        return;
    }
    ENSURE(rsp != nullptr, "answered");
    if (!rsp) return;
    const auto& s = rsp->response.attribute_set;
    ENSURE(rsp->response.header.cls == Class::success_response(), "with success");
    ENSURE(rsp->maybe_integrity.is_some() == authenticated, "signed exactly when the request was");
    if (authenticated && rsp->maybe_integrity.is_some()) {
        ENSURE(rsp->maybe_integrity.unwrap().password == sv.pw[who], "with the password of the user");
        COVER("authenticated");
    }
    ENSURE(answers(s) == ((e.p.old ? 1u << 1 : 1u) | (!e.p.old && sv.fp ? 1u << 5 : 0)), "the address and the fingerprint as configured");
    if (e.p.old) {
        if (s.mapped().is_some()) ENSURE(is_address(s.mapped().unwrap().get().addr, a, six) && s.mapped().unwrap().get().port.value() == port, "MAPPED-ADDRESS is the sender");
    } else if (s.xor_mapped().is_some()) {
        const auto& x = s.xor_mapped().unwrap().get();
        ENSURE(is_address(x.addr.to_address(rsp->response.header.transaction_id), a, six) && x.port.value() == port, "XOR-MAPPED-ADDRESS is the sender");
    }
    COVER("success");
}
// a request with or without USERNAME, MESSAGE-INTEGRITY and an unknown attribute
static void request(Server& sv, bool old, unsigned type, bool name, bool mac, unsigned unknown, bool endpoints = true) {
    Packet p(type, old);
    Expect e{p, name, mac};
    size_t at_user = 0, at_mac = 0;
    const uint8_t* v = vc_buf(23, "values");
    unsigned ut = 0;
    if (unknown) {
        ut = vc::any<uint16_t>("unknown");
        REQUIRE(!known(ut));
    }
    if (name) at_user = p.add(0x0006, v, 3);
    if (unknown == 1) p.add(ut, v, 3);
    if (mac) at_mac = p.add(0x0008, v + 3, 20);
    if (unknown == 2) p.add(ut, v, 3);
    e.user = p.b.data() + at_user;
    e.digest = p.b.data() + at_mac;
    if (unknown && (unknown == 1 || !mac) && ut < 0x8000) e.unknown.push_back(ut);
    check(sv, e, endpoints);
}
static unsigned any_setting() { return vc_fork(vc::any_in<unsigned>(0, 2, "setting")); }
CONTRACT(plain) {
    // without authentication: any class, any method
    Server sv(any_setting());
    const bool old = vc_fork(vc::any_bool("old"));
    const unsigned t = vc::any_in<unsigned>(0, 0x3fff, "type");
    request(sv, old, old ? t & 0x3eef : t, false, false, 0);
}
CONTRACT(half) {
    Server sv(0);
    const bool name = vc_fork(vc::any_bool("name"));
    request(sv, vc_fork(vc::any_bool("old")), vc::any_in<unsigned>(0, 0x3fff, "type") & 0x3eef, name, !name, 0);
}
CONTRACT(signed_requests) {
    Server sv(2);
    sv.g.fails = vc_fork(vc::any_in<unsigned>(0, 2, "fails"));
    request(sv, vc_fork(vc::any_bool("old")), vc::any_in<unsigned>(0, 0x3fff, "type") & 0x3eef, true, true, 0);
}
CONTRACT(signed_other_class) {
    Server sv(2);
    request(sv, false, vc::any_in<unsigned>(0, 0x3fff, "type"), true, true, 0);
}
CONTRACT(unknown) {
    // before or after MESSAGE-INTEGRITY, with anything else there or not
    Server sv(0);
    request(sv, vc_fork(vc::any_bool("old")), BINDING, vc_fork(vc::any_bool("name")), vc_fork(vc::any_bool("mac")), vc_fork(vc::any_in<unsigned>(1, 2, "where")));
}
CONTRACT(unknown_list) {
    Server sv(0);
    Packet p(BINDING, false);
    Expect e{p, false, false};
    const uint8_t* v = vc_buf(3, "v");
    for (int i = 0; i < 3; ++i) {
        const unsigned t = vc::any<uint16_t>("unknown");
        REQUIRE(!known(t));
        p.add(t, v, 3);
        if (t < 0x8000) e.unknown.push_back(t);
    }
    check(sv, e);
}
CONTRACT(sequence) {
    // an earlier request of any outcome changes nothing
    Server sv(2);
    request(sv, false, BINDING, true, true, 0, false);
    const bool b = vc_fork(vc::any_bool("second"));
    request(sv, false, BINDING, b, b, 0, false);
}
CONTRACT(other_user) {
    // a user name of any other length
    Server sv(2);
    const size_t n = vc::any_in<size_t>(0, 500, "n");
    REQUIRE(n != 3);
    Packet p(BINDING, false);
    p.add(0x0006, vc_buf(n, "user"), n);
    const uint8_t* d = vc_buf(20, "digest");
    p.add(0x0008, d, 20);
    const auto r = sv.s.process(endpoint(d, false, false, 1), p.view());
    const auto* rsp = std::get_if<Stateless::Respond>(&r);
    ENSURE(rsp && rsp->response.attribute_set.error_code().is_some() && rsp->response.attribute_set.error_code().unwrap().get().code == 401, "401");
    ENSURE(rsp && rsp->maybe_integrity.is_none(), "not signed");
    COVER("end");
}
CONTRACT(any_bytes) {
    // what is not a STUN message is ignored
    Server sv(2);
    const size_t n = vc_fork(vc::any_in<size_t>(0, 7, "n")) * 4;
    const uint8_t* d = vc_buf(n, "d");
    ParseStat st;
    const bool ok = Message::parse(ConstBinaryView(d, n), st).is_ok();
    const uint8_t a[4] = {192, 0, 2, 1};
    const auto r = sv.s.process(endpoint(a, false, false, 1), ConstBinaryView(d, n));
    const auto* ign = std::get_if<Stateless::Ignore>(&r);
    if (!ok) { ENSURE(ign && ign->message.is_none(), "ignored"); COVER("no message"); }
    else if (ign) ENSURE(ign->message.is_some(), "handed out");
}
