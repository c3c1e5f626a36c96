// Attribute values on the wire: ERROR-CODE, UNKNOWN-ATTRIBUTES, texts, digests and fixed-size numbers,
// and the dispatch from the attribute type to the parser of that type.
// SOURCES: stun/stun_attribute.cpp stun/stun_address.cpp stun/stun_error.cpp net/ip/ip_address.cpp net/net_error.cpp net/net_port.cpp
#include "vc.hpp"
#include <netinet/in.h>
#include "stun/stun_attribute.hpp"
#include "stun/stun_error.hpp"
#include "stun/stun_transaction_id.hpp"
#include "stun_common.hpp"
using namespace freewebrtc::stun;
using namespace vcs;
CONTRACT(error_code_parse) {
    const size_t n = vc::any_in<size_t>(0, 70000, "n");
    const uint8_t* d = vc_buf(n, "attr");
    ParseStat st;
    const auto r = ErrorCodeAttribute::parse(ConstBinaryView(d, n), st);
    ENSURE(r.is_ok() == (n >= 4), "accepted iff the code is there");
    if (r.is_err()) {
        ENSURE(counted_failure(st) && st.invalid_error_code_size.count() == 1, "a rejected attribute is counted once, under its reason");
        COVER("rejected");
        return;
    }
    ENSURE(untouched(st), "an accepted attribute counts no error");
    const auto& a = r.unwrap();
    ENSURE(a.code == (d[2] & 7) * 100u + d[3], "code is class * 100 + number, reserved bits are ignored");
    const std::string text = a.reason_phrase.value_or(std::string{});
    ENSURE(text.size() == n - 4 && vc::same_bytes(text.data(), d + 4, n - 4), "the reason phrase is the rest of the attribute");
    COVER("accepted");
}
CONTRACT(error_code_build) {
    const auto code = vc::any_in<unsigned>(300, 799, "code");
    const bool has = vc_fork(vc::any_in<unsigned>(0, 1, "has"));
    const size_t n = vc::any_in<size_t>(0, 763, "n");
    const uint8_t* t = vc_buf(n, "reason");
    const std::string text(reinterpret_cast<const char*>(t), n);
    const ErrorCodeAttribute a{code, has ? Maybe<std::string>(text) : Maybe<std::string>(None{})};
    const auto b = a.build();
    const size_t m = has ? n : 0;
    ENSURE(b.size() == 4 + m, "size");
    ENSURE(b[0] == 0 && b[1] == 0 && b[2] == code / 100 && b[3] == code % 100, "reserved bits are zero, then class and number");
    ENSURE(vc::same_bytes(b.data() + 4, t, m), "the reason phrase follows");
    ParseStat st;
    const auto r = ErrorCodeAttribute::parse(ConstBinaryView(b), st);
    ENSURE(r.is_ok() && r.unwrap().code == code, "parsing what was built gives the same code");
    const std::string back = r.unwrap().reason_phrase.value_or(std::string{});
    ENSURE(back.size() == m && vc::same_bytes(back.data(), t, m), "and the same reason phrase");
    COVER("end");
}
CONTRACT(unknown_attributes_parse) {
    const size_t n = vc::any_in<size_t>(0, 70000, "n");
    const uint8_t* d = vc_buf(n, "attr");
    ParseStat st;
    const auto r = UnknownAttributesAttribute::parse(ConstBinaryView(d, n), st);
    ENSURE(r.is_ok() == (n % 2 == 0), "accepted iff the size is even");
    if (r.is_err()) {
        ENSURE(counted_failure(st) && st.invalid_unknown_attributes_attr_size.count() == 1, "a rejected attribute is counted once, under its reason");
        COVER("rejected");
        return;
    }
    ENSURE(untouched(st), "an accepted attribute counts no error");
    const auto& t = r.unwrap().types;
    ENSURE(t.size() == n / 2, "one type per two bytes");
    if (n == 0) return;
    const size_t i = vc::any_in<size_t>(0, 34999, "i");
    REQUIRE(i < n / 2);
    ENSURE(t[i].value() == be16(d + 2 * i), "types in order and in network order");
    COVER("accepted");
}
CONTRACT(unknown_odd_size) {
    const size_t n = vc::any_in<size_t>(0, 70000, "n");
    REQUIRE(n % 2 == 1);
    const uint8_t* d = vc_buf(n, "attr");
    ParseStat st;
    const auto r = UnknownAttributesAttribute::parse(ConstBinaryView(d, n), st);
    ENSURE(r.is_err() && counted_failure(st), "odd sizes are rejected and counted once");
    COVER("rejected");
}
CONTRACT(unknown_attributes_build) {
    const size_t n = vc::any_in<size_t>(0, 30000, "n");
    const uint8_t* d = vc_buf(2 * n, "types");
    UnknownAttributesAttribute a;
    a.types.reserve(n);
    for (size_t i = 0; i < n; ++i) a.types.push_back(AttributeType::from_uint16(be16(d + 2 * i)));
    const auto b = a.build();
    ENSURE(b.size() == 2 * n, "two bytes per type");
    if (n == 0) return;
    const size_t i = vc::any_in<size_t>(0, 29999, "i");
    REQUIRE(i < n);
    ENSURE(b[2 * i] == d[2 * i] && b[2 * i + 1] == d[2 * i + 1], "the types in order, in network order");
    COVER("end");
}
template<typename T, typename V, typename F>
static void number(size_t size, F want, V T::* field) {
    const size_t n = vc::any_in<size_t>(0, 70000, "n");
    const uint8_t* d = vc_buf(n, "attr");
    ParseStat st;
    const auto r = T::parse(ConstBinaryView(d, n), st);
    if (n < size) ENSURE(r.is_err(), "a truncated number is rejected");
    if (n == size) ENSURE(r.is_ok(), "a number of its size is accepted");
    if (r.is_err()) {
        ENSURE(counted_failure(st), "a rejected attribute is counted once, under one reason");
        COVER("rejected");
        return;
    }
    ENSURE(untouched(st), "an accepted attribute counts no error");
    ENSURE(r.unwrap().*field == want(d), "the number in network order");
    COVER("accepted");
}
CONTRACT(priority_value) { number<PriorityAttribute>(4, [](const uint8_t* d) { return be32(d); }, &PriorityAttribute::priority); }
CONTRACT(fingerprint_value) { number<FingerprintAttribute>(4, [](const uint8_t* d) { return be32(d) ^ 0x5354554eu; }, &FingerprintAttribute::crc32); }
CONTRACT(controlling_value) { number<IceControllingAttribute>(8, [](const uint8_t* d) { return be64(d); }, &IceControllingAttribute::tiebreaker); }
CONTRACT(controlled_value) { number<IceControlledAttribute>(8, [](const uint8_t* d) { return be64(d); }, &IceControlledAttribute::tiebreaker); }
CONTRACT(use_candidate_value) {
    const size_t n = vc::any_in<size_t>(0, 70000, "n");
    const uint8_t* d = vc_buf(n, "attr");
    ParseStat st;
    const auto r = UseCandidateAttribute::parse(ConstBinaryView(d, n), st);
    ENSURE(r.is_ok() == (n == 0), "the flag has no content");
    ENSURE(r.is_ok() ? untouched(st) : counted_failure(st), "counted iff rejected, once");
    if (n) COVER("rejected"); else COVER("accepted");
}
CONTRACT(integrity_value) {
    const size_t n = vc::any_in<size_t>(0, 70000, "n");
    const uint8_t* d = vc_buf(n, "attr");
    ParseStat st;
    const auto r = MessageIntegityAttribute::parse(ConstBinaryView(d, n), st);
    ENSURE(r.is_ok() == (n == 20), "a digest has 20 bytes");
    if (r.is_err()) {
        ENSURE(counted_failure(st), "a rejected attribute is counted once, under one reason");
        COVER("rejected");
        return;
    }
    ENSURE(untouched(st), "an accepted attribute counts no error");
    ENSURE(same(r.unwrap().digest.value.view(), d, 20), "the digest bytes");
    COVER("accepted");
}
CONTRACT(text_values) {
    const size_t n = vc::any_in<size_t>(0, 70000, "n");
    const uint8_t* d = vc_buf(n, "attr");
    ParseStat st;
    const auto u = UsernameAttribute::parse(ConstBinaryView(d, n), st);
    const auto s = SoftwareAttribute::parse(ConstBinaryView(d, n), st);
    ENSURE(u.is_ok() && s.is_ok() && untouched(st), "texts of any size are accepted");
    const auto& ut = u.unwrap().name.value;
    const auto& ss = s.unwrap().name;
    ENSURE(ut.size() == n && vc::same_bytes(ut.data(), d, n), "USERNAME is the attribute's bytes");
    ENSURE(ss.size() == n && vc::same_bytes(ss.data(), d, n), "SOFTWARE is the attribute's bytes");
    COVER("end");
}
// RFC 5389 18.2, RFC 8445 20.1
static size_t alternative_of(uint16_t t) {
    switch (t) {
    case 0x0020: return 0;
    case 0x0001: return 1;
    case 0x0006: return 2;
    case 0x8022: return 3;
    case 0x0008: return 4;
    case 0x8028: return 5;
    case 0x0024: return 6;
    case 0x802A: return 7;
    case 0x8029: return 8;
    case 0x0025: return 9;
    case 0x000A: return 10;
    case 0x0009: return 11;
    case 0x8023: return 12;
    }
    return 99;
}
static bool holds(const Attribute& a, size_t alt) {
    switch (alt) {
    case 0: return a.as<XorMappedAddressAttribute>();
    case 1: return a.as<MappedAddressAttribute>();
    case 2: return a.as<UsernameAttribute>();
    case 3: return a.as<SoftwareAttribute>();
    case 4: return a.as<MessageIntegityAttribute>();
    case 5: return a.as<FingerprintAttribute>();
    case 6: return a.as<PriorityAttribute>();
    case 7: return a.as<IceControllingAttribute>();
    case 8: return a.as<IceControlledAttribute>();
    case 9: return a.as<UseCandidateAttribute>();
    case 10: return a.as<UnknownAttributesAttribute>();
    case 11: return a.as<ErrorCodeAttribute>();
    case 12: return a.as<AlternateServerAttribute>();
    }
    return false;
}
CONTRACT(dispatch) {
    // every type, over value sizes that any of the parsers accepts
    const auto t = vc::any<uint16_t>("type");
    const size_t sizes[] = {0, 4, 8, 20, 7};
    const size_t n = sizes[vc_fork(vc::any_in<unsigned>(0, 4, "size"))];
    const uint8_t* d = vc_buf(n, "attr");
    ParseStat st;
    const auto r = Attribute::parse(ConstBinaryView(d, n), AttributeType::from_uint16(t), st);
    const size_t alt = alternative_of(t);
    ENSURE(r.is_ok() ? untouched(st) : counted_failure(st), "every rejected attribute is counted once, under one reason");
    if (r.is_err()) {
        ENSURE(alt != 99, "an unknown attribute is never malformed");
        COVER("rejected");
        return;
    }
    if (alt == 99) {
        ENSURE(std::holds_alternative<UnknownAttribute>(r.unwrap()), "a type without a parser is an unknown attribute");
        const auto& u = std::get<UnknownAttribute>(r.unwrap());
        ENSURE(u.type.value() == t && same(ConstBinaryView(u.data), d, n), "an unknown attribute keeps type and bytes");
        COVER("unknown");
        return;
    }
    ENSURE(std::holds_alternative<Attribute>(r.unwrap()), "a known type is a known attribute");
    const auto& a = std::get<Attribute>(r.unwrap());
    ENSURE(a.type().value() == t && holds(a, alt), "the attribute of the type's standard number");
    COVER("known");
}
CONTRACT(create_type) {
    // values built by an application get their standard type number
    const uint8_t* d = vc_buf(20, "d");
    const auto k = vc_fork(vc::any_in<unsigned>(0, 12, "k"));
    const net::Port port = net::Port::from_uint16(1);
    Attribute::Value v = UseCandidateAttribute{};
    switch (k) {
    case 0: v = XorMappedAddressAttribute{XoredAddress::from_view(Family::ipv4(), ConstBinaryView(d, 4)).unwrap(), port}; break;
    case 1: v = MappedAddressAttribute{addr4(d), port}; break;
    case 2: v = UsernameAttribute{precis::OpaqueString{std::string("u")}}; break;
    case 3: v = SoftwareAttribute{std::string("s")}; break;
    case 4: { ParseStat st; v = MessageIntegityAttribute::parse(ConstBinaryView(d, 20), st).unwrap(); break; }
    case 5: v = FingerprintAttribute{be32(d)}; break;
    case 6: v = PriorityAttribute{be32(d)}; break;
    case 7: v = IceControllingAttribute{be64(d)}; break;
    case 8: v = IceControlledAttribute{be64(d)}; break;
    case 10: v = UnknownAttributesAttribute{}; break;
    case 11: v = ErrorCodeAttribute{420, None{}}; break;
    case 12: v = AlternateServerAttribute{addr4(d), port}; break;
    }
    const auto a = Attribute::create(std::move(v));
    ENSURE(alternative_of(a.type().value()) == k && holds(a, k), "type number and content agree");
    if (k == 6) ENSURE(a.as<PriorityAttribute>()->priority == be32(d), "the value is kept");
    if (k == 7) ENSURE(a.as<IceControllingAttribute>()->tiebreaker == be64(d), "the value is kept");
    if (k == 8) ENSURE(a.as<IceControlledAttribute>()->tiebreaker == be64(d), "the value is kept");
    COVER("end");
}
