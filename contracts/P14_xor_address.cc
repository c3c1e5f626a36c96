// XOR-MAPPED-ADDRESS obfuscation (RFC 8489 14.2): for every address and transaction id.
// SOURCES: stun/stun_address.cpp stun/stun_error.cpp net/ip/ip_address.cpp net/net_error.cpp
#include "vc.hpp"
#include <netinet/in.h>
#include "stun/stun_address.hpp"
#include "stun/stun_error.hpp"
#include "stun/stun_transaction_id.hpp"
using namespace freewebrtc;
using namespace freewebrtc::stun;
using util::ConstBinaryView;
static constexpr uint8_t COOKIE[4] = {0x21, 0x12, 0xA4, 0x42};
static net::ip::Address addr4(const uint8_t* b) { return net::ip::Address::move_from_v4(net::ip::AddressV4::from_view(ConstBinaryView(b, 4)).unwrap()); }
static net::ip::Address addr6(const uint8_t* b) { return net::ip::Address::move_from_v6(net::ip::AddressV6::from_view(ConstBinaryView(b, 16)).unwrap()); }
static TransactionId any_tid(size_t n) { return TransactionId(ConstBinaryView(vc_buf(n, "tid"), n)); }
static bool same(const ConstBinaryView& v, const uint8_t* b, size_t n) {
    bool r = v.size() == n;
    for (size_t i = 0; i < n && i < v.size(); ++i) r = r & (v.data()[i] == b[i]);
    return r;
}
CONTRACT(xor_v4) {
    const uint8_t* a = vc_buf(4, "a");
    const size_t n = vc_fork(vc::any_in<size_t>(0, 20, "tidlen"));
    const auto tid = any_tid(n);
    const auto x = XoredAddress::from_address(addr4(a), tid);
    uint8_t e[4];
    for (int i = 0; i < 4; ++i) e[i] = a[i] ^ COOKIE[i];
    ENSURE(x.family().type() == Family::IPv4, "an IPv4 address stays in its family");
    ENSURE(same(x.view(), e, 4), "X-Address is the address xor the magic cookie, whatever the transaction id");
    const auto back = x.to_address(tid);
    ENSURE(std::holds_alternative<net::ip::AddressV4>(back.value()) && same(std::get<net::ip::AddressV4>(back.value()).view(), a, 4), "decoding gives the address back");
    ENSURE(back == addr4(a), "decoding gives an equal address");
    COVER("end");
}
CONTRACT(xor_v6) {
    const uint8_t* a = vc_buf(16, "a");
    const uint8_t* t = vc_buf(12, "tid");
    const TransactionId tid(ConstBinaryView(t, 12));
    const auto x = XoredAddress::from_address(addr6(a), tid);
    uint8_t e[16];
    for (int i = 0; i < 16; ++i) e[i] = a[i] ^ (i < 4 ? COOKIE[i] : t[i - 4]);
    ENSURE(x.family().type() == Family::IPv6, "an IPv6 address stays in its family");
    ENSURE(same(x.view(), e, 16), "X-Address is the address xor (cookie, transaction id)");
    const auto back = x.to_address(tid);
    ENSURE(std::holds_alternative<net::ip::AddressV6>(back.value()) && same(std::get<net::ip::AddressV6>(back.value()).view(), a, 16), "decoding gives the address back");
    COVER("end");
}
CONTRACT(xor_v6_any_tid) {
    const uint8_t* a = vc_buf(16, "a");
    const size_t n = vc_fork(vc::any_in<size_t>(0, 20, "tidlen"));
    const auto tid = any_tid(n);
    const auto x = XoredAddress::from_address(addr6(a), tid);
    const auto back = x.to_address(tid);
    ENSURE(std::holds_alternative<net::ip::AddressV6>(back.value()) && same(std::get<net::ip::AddressV6>(back.value()).view(), a, 16), "decoding inverts encoding for a transaction id of any length");
    COVER("end");
}
CONTRACT(xor_decode) {
    // the receiving direction: decoding bytes from the wire
    const bool six = vc_fork(vc::any_in<unsigned>(0, 1, "six"));
    const uint8_t* w = vc_buf(16, "wire");
    const uint8_t* t = vc_buf(12, "tid");
    const TransactionId tid(ConstBinaryView(t, 12));
    const size_t n = six ? 16 : 4;
    const auto x = XoredAddress::from_view(six ? Family::ipv6() : Family::ipv4(), ConstBinaryView(w, n)).unwrap();
    ENSURE(same(x.view(), w, n), "the wire form is kept");
    const auto a = x.to_address(tid);
    uint8_t e[16];
    for (size_t i = 0; i < n; ++i) e[i] = w[i] ^ (i < 4 ? COOKIE[i] : t[i - 4]);
    if (six) {
        ENSURE(std::holds_alternative<net::ip::AddressV6>(a.value()) && same(std::get<net::ip::AddressV6>(a.value()).view(), e, 16), "IPv6 wire bytes decode by the cookie and the transaction id");
        COVER("six");
    } else {
        ENSURE(std::holds_alternative<net::ip::AddressV4>(a.value()) && same(std::get<net::ip::AddressV4>(a.value()).view(), e, 4), "IPv4 wire bytes decode by the cookie");
        COVER("four");
    }
    const auto again = XoredAddress::from_address(a, tid);
    ENSURE(same(again.view(), w, n) && again == x, "encoding again gives the same wire bytes");
}
CONTRACT(xor_from_view) {
    const bool six = vc::any_bool("six");
    const size_t n = vc::any_in<size_t>(0, 100000, "n");
    const uint8_t* w = vc_buf(n, "wire");
    const auto f = six ? Family::ipv6() : Family::ipv4();
    const auto x = XoredAddress::from_view(f, ConstBinaryView(w, n));
    ENSURE(x.is_ok() == (n == (six ? 16u : 4u)), "accepted iff the size is that of the family");
    if (x.is_ok()) {
        ENSURE(x.unwrap().family().type() == f.type(), "in the given family");
        COVER("ok");
    } else {
        ENSURE(x.unwrap_err() == (six ? make_error_code(ParseError::invalid_ipv6_address_size) : make_error_code(ParseError::invalid_ipv4_address_size)), "size error names the family");
        COVER("bad");
    }
}
CONTRACT(family_code) {
    const auto v = vc::any<uint8_t>("v");
    const auto f = Family::from_uint8(v);
    ENSURE(f.is_ok() == (v == 1 || v == 2), "families are 1 (IPv4) and 2 (IPv6)");
    if (f.is_ok()) {
        ENSURE((f.unwrap().type() == Family::IPv4) == (v == 1) && f.unwrap().to_uint8() == v, "number and family correspond");
        COVER("ok");
    } else {
        ENSURE(f.unwrap_err() == make_error_code(ParseError::unknown_addr_family), "error");
        COVER("bad");
    }
    ENSURE(Family::ipv4().to_uint8() == 1 && Family::ipv6().to_uint8() == 2, "numbers");
}
