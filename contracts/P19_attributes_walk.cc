// Walking the attributes of a STUN message: every byte string is decided, counted once, and exactly the
// attributes the standard wants looked at are looked at.
// SOURCES: stun/stun_message.cpp stun/stun_method.cpp stun/stun_attribute_set.cpp stun/stun_header.cpp stun/stun_attribute.cpp stun/stun_address.cpp stun/stun_error.cpp stun/details/stun_fingerprint.cpp net/ip/ip_address.cpp net/net_error.cpp net/net_port.cpp util/util_error_code.cpp crypto/openssl/openssl_hash.cpp crypto/openssl/openssl_error.cpp stun/stun_password.cpp
// VC-LIBS: -lcrypto
// VC-STUB(walk.*): ^freewebrtc::stun::Attribute::parse\( => vcstub_attribute
// VC-STUB(walk.*): ^freewebrtc::stun::crc32\(craftpp::binary::ConstView const&\)$ => vcstub_crc
// VC-BOUNDED(walk.*): up to 3 attributes (4 in the thorough tier), of any types and sizes up to 20000 bytes
// VC-OPT(walk_four): thorough_only=1 T_time=800
#include "vc.hpp"
#include <netinet/in.h>
#include "stun/stun_message.hpp"
#include "stun/stun_error.hpp"
#include "stun/details/stun_fingerprint.hpp"
#include "stun_common.hpp"
using namespace freewebrtc::stun;
using namespace vcs;
static const unsigned MI = 0x0008, FP = 0x8028;
struct Call { const uint8_t* at; size_t size; unsigned type; bool ok; uint32_t value; };
static Call calls[6];
static unsigned ncalls, ncrc;
static const uint8_t* crc_at;
static size_t crc_size;
static uint32_t crc_value;
// contract of Attribute::parse (P15, P16): an attribute of the type, or one counted failure
extern "C" Result<Attribute::ParseResult> vcstub_attribute(const ConstBinaryView& v, AttributeType type, ParseStat& st) {
    const bool ok = vc_fork(vc::any_bool("accepted"));
    const auto value = vc::any<uint32_t>("fingerprint");
    if (ncalls < 6) calls[ncalls] = Call{v.data(), v.size(), type.value(), ok, value};
    ++ncalls;
    if (!ok) {
        st.error.inc();
        st.invalid_message_integrity.inc();
        return make_error_code(ParseError::integrity_digest_size);
    }
    if (type.value() == FP) return Attribute::ParseResult(Attribute::create(FingerprintAttribute{value}));
    if (type.value() == MI) {
        static const uint8_t digest[20] = {};
        ParseStat ignored;
        return Attribute::ParseResult(Attribute::create(MessageIntegityAttribute::parse(ConstBinaryView(digest, 20), ignored).unwrap()));
    }
    return Attribute::ParseResult(UnknownAttribute(type, ConstBinaryView(v.data(), 0)));
}
extern "C" uint32_t vcstub_crc(const ConstBinaryView& v) {
    crc_at = v.data();
    crc_size = v.size();
    ++ncrc;
    return crc_value;
}
static void put16(uint8_t* p, unsigned v) { p[0] = v >> 8; p[1] = v; }
static unsigned any_type() {
    if (vc_symbolic()) return vc::any<uint16_t>("type");
    static const unsigned known[] = {MI, FP, MI, FP, 0x0006, 0x0024, 0x0025, 0x8029, 0x802A, 0x8022, 0x0009, 0x0001, 0x0020};
    const unsigned i = vc::any_in<unsigned>(0, 15, "known");
    return i < 13 ? known[i] : vc::any<uint16_t>("type");
}
static size_t any_len(unsigned type) {
    if (vc_symbolic()) return vc::any_in<size_t>(0, 20000, "len");
    if (vc::any<uint8_t>("fits") & 7) {
        if (type == MI) return 20;
        if (type == FP || type == 0x0024) return 4;
        if (type == 0x0025) return 0;
        if (type == 0x8029 || type == 0x802A || type == 0x0001 || type == 0x0020) return 8;
    }
    return vc::any_in<size_t>(0, 40, "len");
}
// odd: the only attribute whose size need not be a multiple of four (any: all of them)
static constexpr unsigned any_of_them = 99;
static void walk(unsigned k, bool broken, unsigned odd = any_of_them) {
    ncalls = ncrc = 0;
    unsigned type[6];
    size_t len[6], off[7];
    off[0] = 20;
    for (unsigned i = 0; i < k; ++i) {
        type[i] = any_type();
        len[i] = any_len(type[i]);
        if (odd != any_of_them && i != odd) len[i] = vc_symbolic() ? len[i] * 4 : (len[i] + 3) / 4 * 4;
        off[i + 1] = off[i] + 4 + (len[i] + 3) / 4 * 4;
    }
    size_t n = off[k], stated = 0;
    if (broken) {
        // one more attribute, longer than what is left of the packet
        type[k] = any_type();
        const size_t left = vc::any_in<size_t>(0, 2000, "left") * 4;
        stated = vc::any_in<size_t>(0, 65535, "stated");
        REQUIRE(stated > left);
        n += 4 + left;
    }
    REQUIRE(n - 20 <= 65535);
    const uint8_t* raw = vc_buf(n, "d");
    std::vector<uint8_t> b(raw, raw + n);
    uint8_t* d = b.data();
    d[0] &= 0x3f;
    put16(d + 2, n - 20);
    put16(d + 4, 0x2112);
    put16(d + 6, 0xA442);
    for (unsigned i = 0; i < k; ++i) { put16(d + off[i], type[i]); put16(d + off[i] + 2, len[i]); }
    if (broken) { put16(d + off[k], type[k]); put16(d + off[k] + 2, stated); }
    crc_value = vc::any<uint32_t>("crc");
    if (!vc_symbolic())
        for (unsigned i = 0; i < k; ++i)
            if (type[i] == FP && len[i] >= 4 && vc::any<uint8_t>("right") % 4) {
                const uint32_t c = crc32(ConstBinaryView(d, off[i])) ^ 0x5354554e;
                put16(d + off[i] + 4, c >> 16);
                put16(d + off[i] + 6, c);
            }
    // what the standard says
    bool structure = !broken, late = false;
    int mi = -1;
    unsigned kept[6], nkept = 0;
    const unsigned total = k + (broken ? 1 : 0);
    for (unsigned i = 0; i < k && !late; ++i) {
        if (type[i] == FP && i + 1 != total) late = true;
        else if (type[i] == FP) kept[nkept++] = i;
        else if (mi < 0) {
            kept[nkept++] = i;
            if (type[i] == MI) mi = static_cast<int>(i);
        }
    }
    ParseStat st;
    const auto r = Message::parse(ConstBinaryView(d, n), st);
    // accounting
    if (r.is_ok()) ENSURE(st.success.count() == 1 && st.error.count() == 0 && reasons(st) == 0, "an accepted message counts as one success");
    else ENSURE(counted_failure(st), "a refused message counts as one error, under one reason");
    if (late) {
        ENSURE(r.is_err() && st.fingerprint_not_last.count() == 1, "nothing may follow a fingerprint");
        COVER("late");
        return;
    }
    if (!structure) {
        ENSURE(r.is_err() && st.invalid_attr_size.count() == 1, "an attribute that reaches beyond the packet");
        COVER("broken");
        return;
    }
    if (vc_symbolic()) {
        bool right = true;
        for (unsigned i = 0; i < ncalls && i < nkept; ++i) right = right & (calls[i].at == d + off[kept[i]] + 4) & (calls[i].size == len[kept[i]]) & (calls[i].type == type[kept[i]]);
        ENSURE(right, "the attributes are read in order, each with its type and value bytes");
    }
    // an attribute with a malformed value?
    bool good = true;
    bool fingerprint = true;
    for (unsigned i = 0; i < nkept && good; ++i) {
        const unsigned j = kept[i];
        if (vc_symbolic()) {
            ENSURE(i < ncalls, "every attribute that counts is read");
            good = calls[i].ok;
            if (good && type[j] == FP) {
                fingerprint = calls[i].value == crc_value;
                ENSURE(ncrc == 1 && crc_at == d && crc_size == off[j], "the checksum is that of everything before the fingerprint");
            }
        } else {
            ParseStat s2;
            const auto a = Attribute::parse(ConstBinaryView(d + off[j] + 4, len[j]), AttributeType::from_uint16(type[j]), s2);
            good = a.is_ok();
            if (good && type[j] == FP) fingerprint = std::get<Attribute>(a.unwrap()).as<FingerprintAttribute>()->crc32 == crc32(ConstBinaryView(d, off[j]));
        }
    }
    if (!good) { ENSURE(r.is_err(), "a malformed attribute spoils the message"); COVER("value"); return; }
    ENSURE(!vc_symbolic() || ncalls == nkept, "ignored attributes are not read");
    if (!fingerprint) { ENSURE(r.is_err() && st.invalid_fingerprint.count() == 1, "a wrong fingerprint spoils the message"); COVER("fingerprint"); return; }
    ENSURE(r.is_ok(), "all other messages are accepted");
    if (r.is_err()) return;
    const auto& m = r.unwrap();
    ENSURE(m.integrity_interval.is_some() == (mi >= 0), "protected exactly with MESSAGE-INTEGRITY");
    ENSURE(m.attribute_set.integrity().is_some() == (mi >= 0), "the digest is kept");
    if (mi >= 0) {
        const auto part = ConstBinaryView(d, n).subview(m.integrity_interval.unwrap());
        ENSURE(part.is_some() && part.unwrap().data() == d && part.unwrap().size() == off[mi], "the protected part: everything before MESSAGE-INTEGRITY");
        COVER("protected");
    }
    const bool fp = nkept > 0 && type[kept[nkept - 1]] == FP;
    ENSURE(m.attribute_set.has_fingerprint() == fp, "the fingerprint is kept");
    ENSURE(bool(m.is_rfc3489) == false && m.header.cls.value() == static_cast<Class::Value>(((be16(d) >> 4) & 1) | ((be16(d) >> 7) & 2)), "the header is that of the message");
    if (vc_symbolic()) {
        // here every attribute but the two is unknown: those that require comprehension are kept, in order
        const auto list = m.attribute_set.unknown_comprehension_required();
        size_t at = 0;
        for (unsigned i = 0; i < nkept; ++i) {
            const unsigned t = type[kept[i]];
            if (t == FP || t == MI || t >= 0x8000) continue;
            ENSURE(at < list.size() && list[at].value() == t, "each unknown attribute is kept, in order");
            ++at;
        }
        ENSURE(at == list.size(), "and no other");
    }
    COVER("accepted");
}
CONTRACT(walk_one) { walk(1, false); }
CONTRACT(walk_two) { walk(2, false); }
CONTRACT(walk_three) { walk(3, false); }
CONTRACT(walk_four) { walk(4, false, vc_fork(vc::any_in<unsigned>(0, 3, "odd"))); }
CONTRACT(walk_broken) { walk(vc_fork(vc::any_in<unsigned>(0, 2, "k")), true); }
