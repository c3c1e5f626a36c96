// Address attributes on the wire: MAPPED-ADDRESS, ALTERNATE-SERVER and XOR-MAPPED-ADDRESS.
// SOURCES: stun/stun_attribute.cpp stun/stun_address.cpp stun/stun_error.cpp net/ip/ip_address.cpp net/net_error.cpp net/net_port.cpp
#include "vc.hpp"
#include <netinet/in.h>
#include "stun/stun_attribute.hpp"
#include "stun/stun_error.hpp"
#include "stun/stun_transaction_id.hpp"
#include "stun_common.hpp"
using namespace freewebrtc::stun;
using namespace vcs;
// what a well formed value is: 1 = IPv4, 2 = IPv6, 0 = none
static int wellformed(const uint8_t* d, size_t n) {
    if (n < 4) return 0;
    if (d[1] == 1 && n == 8) return 1;
    if (d[1] == 2 && n == 20) return 2;
    return 0;
}
template<typename A>
static void parse_plain() {
    const size_t n = vc::any_in<size_t>(0, 70000, "n");
    const uint8_t* d = vc_buf(n, "attr");
    ParseStat st;
    const auto r = A::parse(ConstBinaryView(d, n), st);
    const int f = wellformed(d, n);
    ENSURE(r.is_ok() == (f != 0), "accepted iff family and size agree");
    if (r.is_err()) {
        ENSURE(counted_failure(st), "a rejected attribute is counted once, under one reason");
        COVER("rejected");
        return;
    }
    ENSURE(untouched(st), "an accepted attribute counts no error");
    ENSURE(r.unwrap().port.value() == be16(d + 2), "port in network order");
    if (f == 1) {
        ENSURE(is4(r.unwrap().addr, d + 4), "IPv4 address bytes");
        COVER("v4");
    } else {
        ENSURE(is6(r.unwrap().addr, d + 4), "IPv6 address bytes");
        COVER("v6");
    }
}
CONTRACT(mapped_parse) { parse_plain<MappedAddressAttribute>(); }
CONTRACT(alternate_parse) { parse_plain<AlternateServerAttribute>(); }
template<typename A>
static void build_plain() {
    const bool six = vc_fork(vc::any_in<unsigned>(0, 1, "six"));
    const uint8_t* a = vc_buf(16, "a");
    const auto port = vc::any<uint16_t>("port");
    const A attr{six ? addr6(a) : addr4(a), net::Port::from_uint16(port)};
    const auto b = attr.build();
    const size_t n = six ? 20 : 8;
    ENSURE(b.size() == n, "size");
    if (b.size() != n) return;
    ENSURE(b[0] == 0 && b[1] == (six ? 2 : 1), "address family");
    ENSURE(be16(b.data() + 2) == port, "port in network order");
    ENSURE(same(b.data() + 4, a, six ? 16 : 4), "address bytes");
    ParseStat st;
    const auto r = A::parse(ConstBinaryView(b), st);
    ENSURE(r.is_ok() && r.unwrap().addr == attr.addr && r.unwrap().port.value() == port, "parsing what was built gives the same endpoint");
    COVER("end");
}
CONTRACT(mapped_build) { build_plain<MappedAddressAttribute>(); }
CONTRACT(alternate_build) { build_plain<AlternateServerAttribute>(); }
CONTRACT(xor_mapped_parse) {
    const size_t n = vc::any_in<size_t>(0, 70000, "n");
    const uint8_t* d = vc_buf(n, "attr");
    ParseStat st;
    const auto r = XorMappedAddressAttribute::parse(ConstBinaryView(d, n), st);
    const int f = wellformed(d, n);
    ENSURE(r.is_ok() == (f != 0), "accepted iff family and size agree");
    if (r.is_err()) {
        ENSURE(counted_failure(st), "a rejected attribute is counted once, under one reason");
        COVER("rejected");
        return;
    }
    ENSURE(untouched(st), "an accepted attribute counts no error");
    ENSURE(r.unwrap().port.value() == (be16(d + 2) ^ 0x2112), "port is un-xored with the top of the cookie");
    ENSURE((r.unwrap().addr.family().type() == Family::IPv4) == (f == 1) && same(r.unwrap().addr.view(), d + 4, f == 1 ? 4 : 16), "X-Address is kept");
    if (f == 1) COVER("v4"); else COVER("v6");
}
CONTRACT(xor_mapped_build) {
    const bool six = vc_fork(vc::any_in<unsigned>(0, 1, "six"));
    const uint8_t* a = vc_buf(16, "a");
    const auto port = vc::any<uint16_t>("port");
    const uint8_t* t = vc_buf(12, "tid");
    const TransactionId tid(ConstBinaryView(t, 12));
    const XorMappedAddressAttribute attr{XoredAddress::from_address(six ? addr6(a) : addr4(a), tid), net::Port::from_uint16(port)};
    const auto b = attr.build();
    const size_t n = six ? 20 : 8;
    ENSURE(b.size() == n, "size");
    if (b.size() != n) return;
    ENSURE(b[0] == 0 && b[1] == (six ? 2 : 1), "address family");
    ENSURE(be16(b.data() + 2) == (port ^ 0x2112u), "X-Port");
    const uint8_t cookie[4] = {0x21, 0x12, 0xA4, 0x42};
    bool ok = true;
    for (size_t i = 0; i < n - 4; ++i) ok = ok & (b[4 + i] == (a[i] ^ (i < 4 ? cookie[i] : t[i - 4])));
    ENSURE(ok, "X-Address");
    ParseStat st;
    const auto r = XorMappedAddressAttribute::parse(ConstBinaryView(b), st);
    ENSURE(r.is_ok() && r.unwrap() == attr, "parsing what was built gives the same attribute");
    ENSURE(r.unwrap().addr.to_address(tid) == (six ? addr6(a) : addr4(a)) && r.unwrap().port.value() == port, "and the original endpoint");
    COVER("end");
}
