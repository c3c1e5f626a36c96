// Building a message: the exact bytes of every part, and that parsing them gives the message back.
// SOURCES: stun/stun_message.cpp stun/stun_method.cpp stun/stun_attribute_set.cpp stun/stun_header.cpp stun/stun_attribute.cpp stun/stun_address.cpp stun/stun_error.cpp stun/details/stun_fingerprint.cpp net/ip/ip_address.cpp net/net_error.cpp net/net_port.cpp util/util_error_code.cpp crypto/openssl/openssl_hash.cpp crypto/openssl/openssl_error.cpp stun/stun_password.cpp
// VC-LIBS: -lcrypto
// VC-STUB(.*): ^freewebrtc::stun::crc32\(craftpp::binary::ConstView const&\)$ => vcstub_crc
// VC-STUB(.*): ^freewebrtc::stun::crc32\(std::vector<craftpp::binary::ConstView.*\)$ => vcstub_crc_of
// VC-OPT(.*): affine=1 unroll=80
// VC-BOUNDED(two_attributes|round_trip_two): two attributes in the message
#include "vc.hpp"
#include <netinet/in.h>
#include "stun/stun_message.hpp"
#include "stun/stun_error.hpp"
#include "stun/details/stun_fingerprint.hpp"
#include "stun_common.hpp"
#include "ghost_hash.hpp"
using namespace freewebrtc::stun;
using namespace vcs;
using namespace ghost;
// contract of crc32 (P17): some number that depends only on the bytes
static std::vector<uint8_t>* g_crc_text;
static uint32_t g_crc, g_crc_calls;
static uint32_t crc_of(std::vector<uint8_t>&& t) {
    if (g_crc_calls++ == 0) {
        g_crc = vc::any<uint32_t>("crc");
        g_crc_text = new std::vector<uint8_t>(std::move(t));
        return g_crc;
    }
    const auto& s = *g_crc_text;
    if (s.size() == t.size() && vc::same_bytes(s.data(), t.data(), t.size())) return g_crc;
    return vc::any<uint32_t>("crc2");
}
extern "C" uint32_t vcstub_crc(const ConstBinaryView& v) { return crc_of(std::vector<uint8_t>(v.begin(), v.end())); }
extern "C" uint32_t vcstub_crc_of(const std::vector<ConstBinaryView>& vs) {
    return crc_of(text_of(vs));
}
static const unsigned TYPES[] = {0x0020, 0x0001, 0x0006, 0x8022, 0x0024, 0x802A, 0x8029, 0x0025, 0x000A, 0x0009, 0x8023};
static constexpr unsigned KINDS = 11, UNKNOWN = 11;
// an attribute and the bytes of its value
struct Item {
    unsigned type = 0;
    freewebrtc::Maybe<Attribute::Value> value = freewebrtc::None{};
    std::vector<uint8_t> bytes;
    Maybe<UnknownAttribute> unknown = None{};
};
static std::vector<uint8_t> address_bytes(bool v6, unsigned port, const uint8_t* a) {
    std::vector<uint8_t> b(v6 ? 20 : 8);
    b[1] = v6 ? 2 : 1;
    b[2] = port >> 8;
    b[3] = port;
    std::memcpy(b.data() + 4, a, v6 ? 16 : 4);
    return b;
}
static void put(std::vector<uint8_t>& b, uint64_t v, unsigned n) { for (unsigned i = n; i-- > 0;) b.push_back(v >> (8 * i)); }
static Item item(unsigned kind, size_t len) {
    Item r;
    r.type = kind < KINDS ? TYPES[kind] : vc::any_in<unsigned>(0, 0xffff, "type");
    auto text = [&](size_t from = 0) {
        const uint8_t* t = vc_buf(len, "text");
        r.bytes.insert(r.bytes.end(), t, t + len);
        return std::string(reinterpret_cast<const char*>(t) + from, len - from);
    };
    switch (kind) {
    case 0: case 1: case 10: {
        const bool v6 = vc_fork(vc::any_bool("v6"));
        const uint8_t* a = vc_buf(16, "address");
        const unsigned port = vc::any_in<unsigned>(0, 65535, "port");
        const auto addr = v6 ? addr6(a) : addr4(a);
        if (kind == 0) {
            // the hidden form is given (P14)
            const auto x = XoredAddress::from_view(v6 ? Family::ipv6() : Family::ipv4(), ConstBinaryView(a, v6 ? 16 : 4)).unwrap();
            r.value = Attribute::Value{XorMappedAddressAttribute{x, net::Port(port)}};
            r.bytes = address_bytes(v6, port ^ 0x2112, a);
        } else if (kind == 1) {
            r.value = Attribute::Value{MappedAddressAttribute{addr, net::Port(port)}};
            r.bytes = address_bytes(v6, port, a);
        } else {
            r.value = Attribute::Value{AlternateServerAttribute{addr, net::Port(port)}};
            r.bytes = address_bytes(v6, port, a);
        }
        break;
    }
    case 2: r.value = Attribute::Value{UsernameAttribute{precis::OpaqueString{text()}}}; break;
    case 3: r.value = Attribute::Value{SoftwareAttribute{text()}}; break;
    case 4: { const auto v = vc::any<uint32_t>("priority"); put(r.bytes, v, 4); r.value = Attribute::Value{PriorityAttribute{v}}; break; }
    case 5: { const auto v = vc::any<uint64_t>("controlling"); put(r.bytes, v, 8); r.value = Attribute::Value{IceControllingAttribute{v}}; break; }
    case 6: { const auto v = vc::any<uint64_t>("controlled"); put(r.bytes, v, 8); r.value = Attribute::Value{IceControlledAttribute{v}}; break; }
    case 7: r.value = Attribute::Value{UseCandidateAttribute{}}; break;
    case 8: {
        UnknownAttributesAttribute a;
        for (unsigned i = 0, n = vc_fork(vc::any_in<unsigned>(0, 3, "types")); i < n; ++i) {
            const auto t = vc::any<uint16_t>("listed");
            a.types.emplace_back(AttributeType::from_uint16(t));
            put(r.bytes, t, 2);
        }
        r.value = Attribute::Value{std::move(a)};
        break;
    }
    case 9: {
        const unsigned code = vc::any_in<unsigned>(300, 699, "code");
        put(r.bytes, code / 100 * 256 + code % 100, 4);
        Maybe<std::string> reason = None{};
        if (vc_fork(vc::any_bool("reason"))) reason = text();
        r.value = Attribute::Value{ErrorCodeAttribute{code, std::move(reason)}};
        break;
    }
    default: {
        const uint8_t* t = vc_buf(len, "data");
        r.bytes.assign(t, t + len);
        r.unknown = UnknownAttribute(AttributeType::from_uint16(r.type), ConstBinaryView(t, len));
    }
    }
    return r;
}
// any length, by what is left of it after whole words
static size_t length() { return vc::any_in<size_t>(0, 16250, "words") * 4 + vc_fork(vc::any_in<unsigned>(0, 3, "left")); }
struct Head {
    Class cls;
    Method method;
    const uint8_t* id;
    unsigned id_size;
    unsigned type;
    explicit Head(unsigned size, bool any_class = true) : cls(Class::request()), method(Method::binding()), id(vc_buf(size, "id")), id_size(size) {
        const unsigned t = any_class ? vc::any_in<unsigned>(0, 0x3fff, "type") : vc::any_in<unsigned>(0, 0x3fff, "type") & 0x3eef;
        cls = Class::from_msg_type(t);
        method = Method::from_msg_type(t);
        type = t;
    }
    Header header() const { return Header{cls, method, TransactionId(ConstBinaryView(id, id_size))}; }
    // the header of a message whose attributes take n bytes
    bool is(const uint8_t* d, size_t n) const {
        bool ok = be16(d) == type && be16(d + 2) == n;
        if (id_size == 16) return ok & same(d + 4, id, 16);
        return ok & (be32(d + 4) == 0x2112A442u) & same(d + 8, id, 12);
    }
};
static size_t padded(size_t n) { return (n + 3) / 4 * 4; }
// the bytes of an attribute at d
static bool attribute_is(const uint8_t* d, const Item& a) {
    const size_t n = a.bytes.size(), pad = padded(n) - n;
    bool ok = be16(d) == a.type && be16(d + 2) == n;
    ok = ok & vc::same_bytes(d + 4, a.bytes.data(), n);
    if (pad > 0) ok = ok & (d[4 + n] == 0);
    if (pad > 1) ok = ok & (d[5 + n] == 0);
    if (pad > 2) ok = ok & (d[6 + n] == 0);
    return ok;
}
static AttributeSet set_of(Item&& a, bool fingerprint) {
    AttributeSet::AttrVec v;
    AttributeSet::UnknownAttrVec u;
    if (a.value.is_some()) v.push_back(Attribute::Value{a.value.unwrap()});
    if (a.unknown.is_some()) u.push_back(UnknownAttribute(a.unknown.unwrap()));
    if (fingerprint) v.push_back(FingerprintAttribute{vc::any<uint32_t>("stated")});
    return AttributeSet::create(std::move(v), std::move(u));
}
static Message make(const Head& h, AttributeSet&& s) { return Message{h.header(), std::move(s), IsRFC3489{h.id_size == 16}, None{}}; }
CONTRACT(empty) {
    const Head h(vc_fork(vc::any_bool("old")) ? 16 : 12);
    const auto r = make(h, AttributeSet::create({}, {})).build();
    ENSURE(r.is_ok() && r.unwrap().size() == 20, "a header");
    if (r.is_ok() && r.unwrap().size() == 20) ENSURE(h.is(r.unwrap().data(), 0), "the fields of the header");
    COVER("end");
}
// the last attribute, with the checksum of everything before it
static void fingerprint_is(const util::ByteVec& d) {
    const uint8_t* p = d.data() + d.size() - 8;
    ENSURE(be32(p) == 0x80280004u, "FINGERPRINT comes last");
    ENSURE(be32(p + 4) == (crc32(ConstBinaryView(d.data(), d.size() - 8)) ^ 0x5354554eu), "with the checksum of everything before it");
}
static void one(unsigned kind, size_t len, bool fingerprint) {
    const Head h(vc_fork(vc::any_bool("old")) ? 16 : 12);
    Item a = item(kind, len);
    const auto m = make(h, set_of(Item(a), fingerprint));
    const auto r = m.build();
    ENSURE(r.is_ok(), "built");
    if (r.is_err()) return;
    const auto& d = r.unwrap();
    const size_t n = 4 + padded(a.bytes.size()), f = fingerprint ? 8 : 0;
    ENSURE(d.size() == 20 + n + f, "header and attributes");
    if (d.size() != 20 + n + f) return;
    ENSURE(h.is(d.data(), n + f), "header: type, length of all attributes, id");
    ENSURE(attribute_is(d.data() + 20, a), "type, length, value and zero padding");
    if (fingerprint) {
        fingerprint_is(d);
    }
    COVER("end");
}
CONTRACT(fixed_size) {
    static const unsigned fixed[] = {0, 1, 4, 5, 6, 7, 8, 10};
    one(fixed[vc_fork(vc::any_in<unsigned>(0, 7, "kind"))], 0, false);
}
CONTRACT(texts) {
    // of any length that fits
    static const unsigned kinds[] = {2, 3, 9, UNKNOWN};
    one(kinds[vc_fork(vc::any_in<unsigned>(0, 3, "kind"))], length(), false);
}
CONTRACT(with_fingerprint) {
    static const unsigned kinds[] = {2, 4, UNKNOWN};
    one(kinds[vc_fork(vc::any_in<unsigned>(0, 2, "kind"))], length(), true);
}
CONTRACT(too_long) {
    // lengths that do not fit the 16-bit fields are refused
    const Head h(12);
    const unsigned parts = vc_fork(vc::any_in<unsigned>(0, 3, "parts"));
    const size_t len = vc::any_in<size_t>(65280, 200000, "len"), n = 4 + padded(len) + (parts & 1 ? 8 : 0) + (parts & 2 ? 24 : 0);
    Item a = item(vc_fork(vc::any_bool("unknown")) ? UNKNOWN : 2, len);
    const auto m = make(h, set_of(Item(a), parts & 1));
    Ghost g;
    MaybeIntegrity mi = None{};
    if (parts & 2) mi = IntegrityData{Password::short_term(precis::OpaqueString{"secret"}, g.func()).unwrap(), g.func()};
    const auto r = m.build(mi);
    ENSURE(r.is_ok() == (len <= 65535 && n <= 65535), "built exactly when the lengths fit");
    if (r.is_ok()) {
        ENSURE(r.unwrap().size() == 20 + n && be16(r.unwrap().data() + 2) == n, "whole");
        COVER("fits");
    } else COVER("refused");
}
static Password password(const uint8_t* key) {
    Ghost none;
    const std::string text(reinterpret_cast<const char*>(key), 64);
    return Password::short_term(precis::OpaqueString{text}, none.func()).unwrap();
}
CONTRACT(with_integrity) {
    const bool fingerprint = vc_fork(vc::any_bool("fingerprint"));
    const Head h(12);
    Item a = item(vc_fork(vc::any_bool("unknown")) ? UNKNOWN : 2, length());
    const auto m = make(h, set_of(Item(a), fingerprint));
    const Password p = password(vc_buf(64, "key"));
    Ghost g;
    const auto r = m.build(IntegrityData{p, g.func()});
    ENSURE(r.is_ok(), "built");
    if (r.is_err()) return;
    const auto& d = r.unwrap();
    const size_t off = 24 + padded(a.bytes.size()), n = off + 24 + (fingerprint ? 8 : 0);
    ENSURE(d.size() == n, "header, attributes, MESSAGE-INTEGRITY");
    ENSURE(g.calls == 2, "two hashes");
    if (d.size() != n || g.calls != 2) return;
    ENSURE(h.is(d.data(), n - 20) && attribute_is(d.data() + 20, a), "header and attribute");
    const auto &in = g.seen[0].text, &out = g.seen[1].text;
    ENSURE(in.size() == 64 + off && out.size() == 84, "key and protected part; key and inner hash");
    if (in.size() != 64 + off || out.size() != 84) return;
    ENSURE(vc::same_bytes(in.data(), p.ipad().view().data(), 64), "the inner key of the password");
    ENSURE(h.is(in.data() + 64, off + 4), "the header with the length up to MESSAGE-INTEGRITY");
    ENSURE(vc::same_bytes(in.data() + 84, d.data() + 20, off - 20), "the attributes before it");
    ENSURE(vc::same_bytes(out.data(), p.opad().view().data(), 64), "the outer key of the password");
    ENSURE(vc::same_bytes(out.data() + 64, g.seen[0].digest, 20), "the inner hash");
    ENSURE(be32(d.data() + off) == 0x00080014u && vc::same_bytes(d.data() + off + 4, g.seen[1].digest, 20), "MESSAGE-INTEGRITY holds the outer hash");
    if (fingerprint) {
        fingerprint_is(d);
    }
    COVER("end");
}
CONTRACT(failing_hash) {
    const Head h(vc_fork(vc::any_bool("old")) ? 16 : 12);
    const auto m = make(h, set_of(item(2, 9), vc_fork(vc::any_bool("fingerprint"))));
    Ghost g;
    g.fails = vc_fork(vc::any_in<unsigned>(0, 2, "fails"));
    const auto r = m.build(IntegrityData{password(vc_buf(64, "key")), g.func()});
    ENSURE(r.is_ok() == (g.fails > 1), "built exactly when the hash does not fail");
    if (r.is_err()) COVER("failure"); else COVER("built");
}
// the hash of the sender, asked again for the same text
struct Again {
    Ghost g;
    Hash::Result operator()(const Hash::Input& in) {
        const auto t = text_of(in);
        for (const auto& s : g.seen) {
            if (s.text.size() != t.size() || !vc::same_bytes(s.text.data(), t.data(), t.size())) continue;
            Hash::Value v;
            std::memcpy(v.data(), s.digest, 20);
            return Hash(std::move(v));
        }
        return g(in);
    }
    Hash::Func func() { return [this](const Hash::Input& in) { return (*this)(in); }; }
};
static void back(const Head& h, const Message& m, const MaybeIntegrity& mi, bool fingerprint, size_t unknown) {
    const auto r = m.build(mi);
    ENSURE(r.is_ok(), "built");
    if (r.is_err()) return;
    const ConstBinaryView d(r.unwrap());
    ParseStat st;
    const auto pr = Message::parse(d, st);
    ENSURE(pr.is_ok() && st.success.count() == 1 && st.error.count() == 0, "accepted again");
    if (pr.is_err()) return;
    const auto& q = pr.unwrap();
    ENSURE(q.header.cls == h.cls && q.header.method == h.method, "class and method");
    ENSURE(same(q.header.transaction_id.view(), h.id, h.id_size), "id");
    ENSURE(bool(q.is_rfc3489) == (h.id_size == 16), "compatibility mode");
    ENSURE(q.attribute_set.has_fingerprint() == fingerprint, "FINGERPRINT");
    ENSURE(q.attribute_set.integrity().is_some() == mi.is_some(), "MESSAGE-INTEGRITY");
    if (mi.is_some()) {
        const auto v = q.is_valid(d, mi.unwrap());
        ENSURE(v.is_ok() && v.unwrap().is_some() && v.unwrap().unwrap(), "valid for the one who has the password");
    }
    ENSURE(q.attribute_set.unknown_comprehension_required().size() <= unknown, "nothing else unknown");
    // the attributes as they were: their bytes are those of the attributes (see above)
    const auto s = q.build(mi);
    ENSURE(s.is_ok() && s.unwrap().size() == d.size(), "the same attributes");
    if (s.is_ok() && s.unwrap().size() == d.size()) ENSURE(vc::same_bytes(s.unwrap().data(), d.data(), d.size()), "the same bytes");
    COVER("end");
}
static Head head() {
    const bool old = vc_fork(vc::any_bool("old"));
    Head h(old ? 16 : 12, !old);
    if (old) REQUIRE(be32(h.id) != 0x2112A442u);
    return h;
}
static void round(const Head& h, unsigned kind, size_t len) {
    Item a = item(kind, len);
    if (kind == UNKNOWN) REQUIRE((a.type & 0x7fc0) != 0);
    back(h, make(h, set_of(Item(a), false)), None{}, false, kind == UNKNOWN);
}
CONTRACT(round_trip_fixed) {
    const Head h = head();
    static const unsigned fixed[] = {0, 1, 4, 5, 6, 7, 8, 10};
    round(h, fixed[vc_fork(vc::any_in<unsigned>(0, 7, "kind"))], 0);
}
CONTRACT(round_trip_username) { round(Head(12), 2, length()); }
CONTRACT(round_trip_software) { round(Head(12), 3, length()); }
CONTRACT(round_trip_error_code) { round(Head(12), 9, length()); }
CONTRACT(round_trip_unknown) { round(head(), UNKNOWN, length()); }
static void round_signed(unsigned kind, bool fingerprint) {
    const Head h(12);
    Item a = item(kind, length());
    if (kind == UNKNOWN) REQUIRE((a.type & 0x7fc0) != 0);
    Again g;
    back(h, make(h, set_of(Item(a), fingerprint)), IntegrityData{password(vc_buf(64, "key")), g.func()}, fingerprint, kind == UNKNOWN);
}
CONTRACT(round_trip_signed) { round_signed(2, false); }
CONTRACT(round_trip_signed_unknown) { round_signed(UNKNOWN, false); }
CONTRACT(round_trip_signed_fingerprint) { round_signed(2, true); }
CONTRACT(round_trip_two) {
    const Head h = head();
    const unsigned k1 = vc_fork(vc::any_in<unsigned>(0, KINDS, "kind1")), k2 = vc_fork(vc::any_in<unsigned>(0, KINDS - 1, "kind2"));
    if (k2 == k1) return;
    Item a = item(k1, 5), b = item(k2, 7);
    if (k1 == UNKNOWN) { REQUIRE(a.type >= 0x40 && a.type < 0x8000); }
    AttributeSet s = set_of(Item(a), false);
    s.emplace(Attribute::create(Attribute::Value{b.value.unwrap()}));
    const auto m = make(h, std::move(s));
    const auto r = m.build();
    ENSURE(r.is_ok(), "built");
    if (r.is_err()) return;
    const auto& d = r.unwrap();
    const size_t na = 4 + padded(a.bytes.size()), nb = 4 + padded(b.bytes.size());
    ENSURE(d.size() == 20 + na + nb && h.is(d.data(), na + nb), "header");
    if (d.size() != 20 + na + nb) return;
    ENSURE((attribute_is(d.data() + 20, a) && attribute_is(d.data() + 20 + na, b)) || (attribute_is(d.data() + 20, b) && attribute_is(d.data() + 20 + nb, a)), "both attributes, each whole");
    ParseStat st;
    const auto pr = Message::parse(ConstBinaryView(d), st);
    ENSURE(pr.is_ok(), "accepted again");
    if (pr.is_err()) return;
    const auto t = pr.unwrap().build();
    ENSURE(t.is_ok() && t.unwrap().size() == d.size(), "the same attributes");
    COVER("end");
}
