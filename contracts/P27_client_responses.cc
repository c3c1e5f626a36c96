// What the client makes of a response, and what it sends.
// SOURCES: util/util_hash_murmur.cpp stun/details/stun_client_udp_rto.cpp stun/stun_message.cpp stun/stun_method.cpp stun/stun_attribute_set.cpp stun/stun_header.cpp stun/stun_attribute.cpp stun/stun_address.cpp stun/stun_error.cpp stun/details/stun_fingerprint.cpp net/ip/ip_address.cpp net/net_error.cpp net/net_port.cpp util/util_error_code.cpp crypto/openssl/openssl_hash.cpp crypto/openssl/openssl_error.cpp stun/stun_password.cpp
// VC-LIBS: -lcrypto
// VC-STUB(success_response|unknown_.*|error_.*|other_class|no_message): ^freewebrtc::stun::Message::build\(.* => vcstub_build
// VC-STUB(.*): ^freewebrtc::stun::crc32\(craftpp::binary::ConstView const&\)$ => vcstub_crc
// VC-STUB(.*): ^freewebrtc::stun::crc32\(std::vector<craftpp::binary::ConstView.*\)$ => vcstub_crc_of
// VC-BOUNDED(unknown_attributes|no_message): two unknown attributes; packets of up to 28 bytes
// VC-OPT(.*): affine=1 unroll=80 time=300 ifconv=0
#include "client.hpp"
#include "ghost_hash.hpp"
using namespace cl;
using ghost::Ghost;
// contract of Message::build (P23): some bytes
extern "C" Result<util::ByteVec> vcstub_build(const stun::Message*, const stun::MaybeIntegrity*) { return util::ByteVec(20); }
// contract of crc32 (P17): a number that depends only on the bytes
static std::vector<uint8_t>* g_text;
static uint32_t crc_of(std::vector<uint8_t>&& t) {
    static uint32_t crc;
    if (!g_text) {
        crc = vc::any<uint32_t>("crc");
        g_text = new std::vector<uint8_t>(std::move(t));
        return crc;
    }
    if (g_text->size() == t.size() && vc::same_bytes(g_text->data(), t.data(), t.size())) return crc;
    return vc::any<uint32_t>("crc2");
}
extern "C" uint32_t vcstub_crc(const ConstBinaryView& v) { return crc_of(std::vector<uint8_t>(v.begin(), v.end())); }
extern "C" uint32_t vcstub_crc_of(const std::vector<ConstBinaryView>& vs) { return crc_of(ghost::text_of(vs)); }
using Attrs = stun::AttributeSet::AttrVec;
using Unknown = stun::AttributeSet::UnknownAttrVec;
static stun::Password password(const uint8_t* key) {
    Ghost none;
    const std::string text(reinterpret_cast<const char*>(key), 64);
    return stun::Password::short_term(precis::OpaqueString{text}, none.func()).unwrap();
}
// a client with one request under way
struct One {
    Settings s;
    Random random;
    uint64_t base = 1000;
    int64_t now = 0;
    std::unique_ptr<ClientUDP> c;
    ClientUDP::Handle h{0};
    bool ready = false;
    void start(ClientUDP::MaybeAuth&& auth = None{}) {
        c = std::make_unique<ClientUDP>(s);
        const auto r = c->create(random, at(base, 0), ClientUDP::Request{path(), {}, {}, std::move(auth)});
        ENSURE(r.is_ok(), "created");
        if (r.is_err()) return;
        h = r.unwrap();
        ready = is_send(c->next(at(base, 0)));
        ENSURE(ready, "sent");
    }
    ClientUDP::Effect next() { return c->next(at(base, now)); }
    // any number of retransmissions so far; false if there are some
    bool fresh() {
        bool none = true;
        auto f = [&](auto& cc) {
            if constexpr (requires { cc.m_tmap.find(h)->second.rtx_count; }) {
                auto it = cc.m_tmap.find(h);
                if (it == cc.m_tmap.end()) return;
                it->second.rtx_count = vc_fork(vc::any_in<unsigned>(0, 2, "k"));
                none = it->second.rtx_count == 0;
            }
        };
        f(*c);
        return none;
    }
    // nothing has come of it yet: the request is still waiting
    void pending() {
        const auto e = next();
        ENSURE(is_sleep(e), "the request goes on");
        if (is_sleep(e)) ENSURE(sleep(e) > 0, "the request goes on");
    }
    const ClientUDP::TransactionFailed* failed(const ClientUDP::Effect& e) {
        const auto* f = std::get_if<ClientUDP::TransactionFailed>(&e);
        ENSURE(f != nullptr, "failed");
        if (f) ENSURE(f->handle == h, "this request");
        return f;
    }
};
using TF = ClientUDP::TransactionFailed;
static bool is_address(const net::ip::Address& x, const uint8_t* a, bool six) { return six ? is6(x, a) : is4(x, a); }
CONTRACT(success_response) {
    One o;
    o.start();
    if (!o.ready) return;
    const bool fresh = o.fresh();
    o.now = any_duration("dt", 18); // before the first retransmission
    const unsigned which = vc_fork(vc::any_in<unsigned>(0, 3, "which"));
    const bool six = vc_fork(vc::any_bool("six"));
    const uint8_t *a = vc_buf(16, "xor"), *b = vc_buf(16, "mapped");
    const auto pa = vc::any<uint16_t>("port"), pb = vc::any<uint16_t>("port2");
    Attrs v;
    if (which & 2) v.push_back(stun::MappedAddressAttribute{six ? addr6(b) : addr4(b), net::Port(pb)});
    if (which & 1) v.push_back(stun::XorMappedAddressAttribute{stun::XoredAddress::from_address(six ? addr6(a) : addr4(a), id_of(0)), net::Port(pa)});
    ENSURE(respond(*o.c, at(o.base, o.now), message(0, stun::Class::success_response(), std::move(v))).is_ok(), "taken");
    const auto e = o.next();
    if (which == 0) {
        if (const auto* f = o.failed(e)) {
            const auto* x = std::get_if<TF::Error>(&f->reason);
            ENSURE(x && std::error_code(x->code) == make_error_code(stun::ClientError::no_address_in_response), "no address");
        }
        COVER("no address");
        return;
    }
    const auto* k = std::get_if<ClientUDP::TransactionOk>(&e);
    ENSURE(k != nullptr, "succeeded");
    if (!k) return;
    ENSURE(k->handle == o.h, "this request");
    ENSURE(k->response.header.transaction_id == id_of(0) && k->response.header.cls == stun::Class::success_response(), "the response comes with it");
    if (which & 1) ENSURE(is_address(k->result.address, a, six) && k->result.port.value() == pa, "XOR-MAPPED-ADDRESS first");
    else ENSURE(is_address(k->result.address, b, six) && k->result.port.value() == pb, "MAPPED-ADDRESS");
    ENSURE(k->round_trip.is_some() == fresh, "round trip exactly when nothing was sent twice");
    if (fresh && k->round_trip.is_some()) { ENSURE(k->round_trip.unwrap().count() == o.now, "time since the request"); COVER("round trip"); }
    else COVER("no round trip");
}
CONTRACT(unknown_attributes) {
    One o;
    o.start();
    if (!o.ready) return;
    const bool error = vc_fork(vc::any_bool("error"));
    const auto t0 = vc::any<uint16_t>("t0"), t1 = vc::any<uint16_t>("t1");
    const uint8_t* d = vc_buf(4, "d");
    Unknown u;
    u.push_back(stun::UnknownAttribute(stun::AttributeType::from_uint16(t0), ConstBinaryView(d, 4)));
    u.push_back(stun::UnknownAttribute(stun::AttributeType::from_uint16(t1), ConstBinaryView(d, 4)));
    const uint8_t a[4] = {10, 0, 0, 1};
    Attrs v;
    if (error) v.push_back(stun::ErrorCodeAttribute{400u, None{}});
    else v.push_back(stun::XorMappedAddressAttribute{stun::XoredAddress::from_address(addr4(a), id_of(0)), net::Port(1)});
    respond(*o.c, at(o.base, o.now), message(0, error ? stun::Class::error_response() : stun::Class::success_response(), std::move(v), std::move(u)));
    const auto e = o.next();
    const bool r0 = t0 < 0x8000, r1 = t1 < 0x8000;
    if (r0 || r1) {
        const auto* f = o.failed(e);
        if (!f) return;
        const auto* x = std::get_if<TF::UnknownComprehensionRequiredAttribute>(&f->reason);
        ENSURE(x != nullptr, "for the attributes that must be understood");
        if (!x) return;
        if (r0 && r1) ENSURE(x->attrs.size() == 2 && x->attrs[0].value() == t0 && x->attrs[1].value() == t1, "both");
        else ENSURE(x->attrs.size() == 1 && x->attrs[0].value() == (r0 ? t0 : t1), "the one");
        COVER("failed");
        return;
    }
    if (error) { if (const auto* f = o.failed(e)) ENSURE(std::holds_alternative<TF::ErrorCode>(f->reason), "optional attributes change nothing"); COVER("error"); }
    else { ENSURE(is_ok(e), "optional attributes change nothing"); COVER("ok"); }
}
CONTRACT(error_response) {
    One o;
    o.start();
    if (!o.ready) return;
    const unsigned shape = vc_fork(vc::any_in<unsigned>(0, 7, "shape"));
    const unsigned code = vc::any_in<unsigned>(0, 799, "code");
    const uint8_t *a = vc_buf(16, "server"), *r = vc_buf(5, "reason");
    const bool six = vc_fork(vc::any_bool("six")), has = shape & 1, alt = shape & 2, ua = shape & 4;
    const auto port = vc::any<uint16_t>("port"), t = vc::any<uint16_t>("unknown");
    Attrs v;
    if (alt) v.push_back(stun::AlternateServerAttribute{six ? addr6(a) : addr4(a), net::Port(port)});
    if (ua) v.push_back(stun::UnknownAttributesAttribute{{stun::AttributeType::from_uint16(t)}});
    if (has) v.push_back(stun::ErrorCodeAttribute{code, std::string(reinterpret_cast<const char*>(r), 5)});
    ENSURE(respond(*o.c, at(o.base, o.now), message(0, stun::Class::error_response(), std::move(v))).is_ok(), "taken");
    if (has && (code < 300 || code >= 600)) {
        o.pending();
        COVER("ignored");
        return;
    }
    const auto e = o.next();
    const auto* f = o.failed(e);
    if (!f) return;
    if (!has) {
        const auto* x = std::get_if<TF::Error>(&f->reason);
        ENSURE(x && std::error_code(x->code) == make_error_code(stun::ClientError::no_error_code_in_response), "no error code");
        COVER("no code");
    } else if (code == 300 && alt) {
        const auto* x = std::get_if<TF::AlternateServer>(&f->reason);
        ENSURE(x && is_address(x->server.address, a, six) && x->server.port.value() == port, "the other server");
        COVER("alternate");
    } else if (code == 300) {
        const auto* x = std::get_if<TF::Error>(&f->reason);
        ENSURE(x && std::error_code(x->code) == make_error_code(stun::ClientError::no_alternate_server_in_response), "no other server");
        COVER("no alternate");
    } else if (code == 420 && ua) {
        const auto* x = std::get_if<TF::UnknownAttributeReported>(&f->reason);
        ENSURE(x && x->attrs.size() == 1 && x->attrs[0].value() == t, "the attributes the server does not know");
        COVER("unknown");
    } else {
        const auto* x = std::get_if<TF::ErrorCode>(&f->reason);
        ENSURE(x && x->attr.code == code && x->attr.reason_phrase.is_some(), "the code");
        if (x && x->attr.reason_phrase.is_some()) {
            const auto& p = x->attr.reason_phrase.unwrap();
            ENSURE(p.size() == 5 && same(reinterpret_cast<const uint8_t*>(p.data()), r, 5), "and the reason given");
        }
        COVER("code");
    }
    o.c->next(at(o.base, o.now));
}
CONTRACT(other_class) {
    // requests and indications with the id of a request are no answer to it
    One o;
    o.start();
    if (!o.ready) return;
    const uint8_t a[4] = {10, 0, 0, 1};
    const bool ind = vc_fork(vc::any_bool("indication"));
    stun::Message m = success(0, addr4(a), 1);
    m.header.cls = ind ? stun::Class::indication() : stun::Class::request();
    respond(*o.c, at(o.base, o.now), std::move(m));
    o.pending();
    ENSURE(respond(*o.c, at(o.base, o.now), success(0, addr4(a), 1)).is_ok(), "the answer is still taken");
    ENSURE(is_ok(o.next()), "succeeded");
    COVER("end");
}
CONTRACT(error_unknown_id) {
    // an answer to no request of this client
    One o;
    o.start();
    if (!o.ready) return;
    const uint8_t a[4] = {10, 0, 0, 1}, *id = vc_buf(12, "id");
    REQUIRE(!same(id, id_of(0).view().data(), 12));
    stun::Message m = vc_fork(vc::any_bool("error")) ? failure(0, 400) : success(0, addr4(a), 1);
    m.header.transaction_id = stun::TransactionId(ConstBinaryView(id, 12));
    const auto r = respond(*o.c, at(o.base, o.now), std::move(m));
    ENSURE(r.is_err() && r.unwrap_err() == make_error_code(stun::ClientError::transaction_not_found), "refused");
    o.pending();
    COVER("end");
}
CONTRACT(no_message) {
    One o;
    o.start();
    if (!o.ready) return;
    const size_t n = vc_fork(vc::any_in<size_t>(0, 7, "n")) * 4;
    const uint8_t* d = vc_buf(n, "d");
    if (n >= 20) REQUIRE(!same(d + 8, id_of(0).view().data(), 12));
    ENSURE(o.c->response(at(o.base, o.now), ConstBinaryView(d, n)).is_err(), "refused");
    o.pending();
    COVER("end");
}
// the response as received: bytes
struct Packet {
    std::vector<uint8_t> b = std::vector<uint8_t>(20);
    static void put16(uint8_t* p, unsigned v) { p[0] = v >> 8; p[1] = v; }
    explicit Packet(unsigned t) {
        put16(b.data(), t);
        put16(b.data() + 4, 0x2112);
        put16(b.data() + 6, 0xA442);
        std::memcpy(b.data() + 8, id_of(0).view().data(), 12);
    }
    size_t add(unsigned t, const uint8_t* v, size_t n) {
        const size_t at = b.size();
        b.resize(at + 4 + (n + 3) / 4 * 4);
        put16(b.data() + at, t);
        put16(b.data() + at + 2, n);
        std::memcpy(b.data() + at + 4, v, n);
        put16(b.data() + 2, b.size() - 20);
        return at + 4;
    }
};
static void authenticated(bool signed_, unsigned kind, bool allow) {
    // kind: 0 success, 1 error 400, 2 error 300 with another server
    One o;
    Ghost g;
    o.s.use_fingerprint = Settings::UseFingerprint{false};
    o.s.allow_unauthenticated_alternate = allow;
    const auto pw = password(vc_buf(64, "key"));
    o.start(ClientUDP::Auth{precis::OpaqueString{"user"}, stun::IntegrityData{pw, g.func()}});
    if (!o.ready) return;
    ENSURE(g.calls == 2, "the request is signed");
    const bool parsed = vc_fork(vc::any_bool("parsed"));
    Packet p(kind == 0 ? 0x101 : 0x111);
    const uint8_t *v = vc_buf(24, "v"), *d = vc_buf(20, "stated");
    uint8_t address[8] = {0, 1, v[2], v[3], v[4], v[5], v[6], v[7]}, code[4] = {0, 0, uint8_t(kind == 1 ? 4 : 3), 0};
    if (kind == 0) p.add(0x0020, address, 8);
    else { p.add(0x0009, code, 4); if (kind == 2) p.add(0x8023, address, 8); }
    const size_t off = p.b.size();
    if (signed_) p.add(0x0008, d, 20);
    const ConstBinaryView view(p.b);
    Maybe<stun::Message> m = None{};
    stun::ParseStat st;
    if (parsed) m = stun::Message::parse(view, st).unwrap();
    g.fails = vc_fork(vc::any_in<unsigned>(2, 4, "fails"));
    const unsigned before = g.calls;
    const auto r = o.c->response(at(o.base, o.now), view, std::move(m));
    bool good = false;
    if (!signed_) {
        ENSURE(g.calls == before, "nothing to compute");
        good = kind == 2 && allow;
        if (!good) ENSURE(r.is_err() && r.unwrap_err() == make_error_code(stun::ClientError::no_integrity_attribute_in_response), "a response without MESSAGE-INTEGRITY is refused");
    } else if (g.fails < 4) {
        ENSURE(r.is_err(), "a failing hash is reported");
        COVER("hash failed");
    } else {
        ENSURE(g.calls == 4, "the digest is computed");
        if (g.calls != 4) return;
        const auto& in = g.seen[2].text;
        ENSURE(in.size() == 64 + off && vc::same_bytes(in.data(), pw.ipad().view().data(), 64), "with the password of the request");
        if (in.size() == 64 + off) ENSURE(vc::same_bytes(in.data() + 68, p.b.data() + 4, off - 4), "of the bytes received");
        good = same(d, g.seen[3].digest, 20);
        if (!good) ENSURE(r.is_err() && r.unwrap_err() == make_error_code(stun::ClientError::digest_is_not_valid), "a response with another digest is refused");
    }
    if (!good) {
        o.pending();
        COVER("refused");
        return;
    }
    ENSURE(r.is_ok(), "a valid response is taken");
    const auto e = o.next();
    if (kind == 0) ENSURE(is_ok(e), "succeeded");
    else if (const auto* f = o.failed(e)) ENSURE(kind == 1 ? std::holds_alternative<TF::ErrorCode>(f->reason) : std::holds_alternative<TF::AlternateServer>(f->reason), "as it says");
    COVER("taken");
}
CONTRACT(auth_signed) { authenticated(true, vc_fork(vc::any_in<unsigned>(0, 2, "kind")), false); }
CONTRACT(auth_missing) { authenticated(false, vc_fork(vc::any_in<unsigned>(0, 2, "kind")), vc_fork(vc::any_bool("allow"))); }
CONTRACT(request_bytes) {
    // what is sent: the given attributes, the user and the fingerprint as configured, signed with the password
    One o;
    Ghost g;
    const bool fp = vc_fork(vc::any_bool("fingerprint")), auth = vc_fork(vc::any_bool("auth"));
    o.s.use_fingerprint = Settings::UseFingerprint{fp};
    const auto pw = password(vc_buf(64, "key"));
    const auto prio = vc::any<uint32_t>("priority");
    const uint8_t *user = vc_buf(6, "user"), *data = vc_buf(5, "data");
    const auto ut = vc::any_in<uint16_t>(0x0100, 0x7fff, "unknown");
    ClientUDP::Request rq{path(), {}, {}};
    rq.attrs.push_back(stun::PriorityAttribute{prio});
    rq.unknown_attrs.push_back(stun::UnknownAttribute(stun::AttributeType::from_uint16(ut), ConstBinaryView(data, 5)));
    if (auth) rq.maybe_auth = ClientUDP::Auth{precis::OpaqueString{std::string(reinterpret_cast<const char*>(user), 6)}, stun::IntegrityData{pw, g.func()}};
    ClientUDP c(o.s);
    const auto h = c.create(o.random, at(o.base, 0), std::move(rq));
    ENSURE(h.is_ok(), "created");
    if (h.is_err()) return;
    const auto e = c.next(at(o.base, 0));
    const auto* s = std::get_if<ClientUDP::SendData>(&e);
    ENSURE(s && s->handle == h.unwrap(), "sent at once");
    if (!s) return;
    stun::ParseStat st;
    const auto pr = stun::Message::parse(s->message_view, st);
    ENSURE(pr.is_ok(), "a STUN message");
    if (pr.is_err()) return;
    const auto& m = pr.unwrap();
    ENSURE(m.header.cls == stun::Class::request() && m.header.method == stun::Method::binding() && m.header.transaction_id == id_of(0) && !m.is_rfc3489, "a binding request with its id");
    const auto& a = m.attribute_set;
    ENSURE(a.priority().is_some() && a.priority().unwrap().get() == prio, "the given attribute");
    const auto u = a.unknown_comprehension_required();
    ENSURE(u.size() == 1 && u[0].value() == ut, "the given unknown attribute");
    ENSURE(a.username().is_some() == auth && a.integrity().is_some() == auth, "user and signature exactly when asked for");
    if (auth && a.username().is_some()) {
        const auto& n = a.username().unwrap().get().value;
        ENSURE(n.size() == 6 && same(reinterpret_cast<const uint8_t*>(n.data()), user, 6), "the user");
        ENSURE(g.calls == 2, "one digest");
        if (g.calls != 2) return;
        ENSURE(vc::same_bytes(g.seen[0].text.data(), pw.ipad().view().data(), 64), "under the password");
        if (a.integrity().is_some()) ENSURE(same(a.integrity().unwrap().get().value.view(), g.seen[1].digest, 20), "the digest");
    }
    ENSURE(a.has_fingerprint() == fp, "fingerprint as configured");
    ENSURE(a.xor_mapped().is_none() && a.software().is_none() && a.error_code().is_none(), "nothing else");
    COVER("end");
}
