// IP addresses as text. The libc parsers and printers are external: their results are arbitrary here
// (under the VC generator) and the real ones natively; what is proved is that the library hands them
// exactly the text/bytes and gives back exactly their result.
// SOURCES: net/ip/ip_address.cpp net/net_error.cpp
// VC-STUB(ip_parse): ^inet_pton$ => vcstub_pton
// VC-STUB(ip_print): ^inet_ntop$ => vcstub_ntop
// VC-BOUNDED(ip_parse): texts of up to 60 bytes (the longest valid address has 45)
// VC-TRUSTED(.*): inet_pton / inet_ntop of libc (any result allowed symbolically, the real functions natively)
// VC-OPT(ip_round_trip|ip_real_text): native_only=1 fuzz=3
// VC-OPT(ip_parse): fuzz=4
#include "vc.hpp"
#include <arpa/inet.h>
#include <cerrno>
#include "net/ip/ip_address.hpp"
#include "net/net_error.hpp"
using namespace freewebrtc::net;
static std::string_view want_text;
static int rc4, rc6, bad_calls, calls4, calls6;
static const uint8_t *b4, *b6;
extern "C" int vcstub_pton(int af, const char* s, void* dst) {
    bool same = true;
    for (size_t i = 0; i < want_text.size(); ++i) same = same & (s[i] == want_text[i]);
    if (!same || s[want_text.size()] != 0) ++bad_calls;
    if (af == AF_INET) {
        ++calls4;
        if (rc4 > 0) std::memcpy(dst, b4, 4);
        return rc4;
    }
    if (af != AF_INET6) ++bad_calls;
    ++calls6;
    if (rc6 > 0) std::memcpy(dst, b6, 16);
    return rc6;
}
CONTRACT(ip_parse) {
    const auto n = vc_fork(vc::any_in<size_t>(0, 60, "n"));
    const auto s = vc::any_sv(n, "s");
    bool nul = false;
    for (char c: s) nul = nul | (c == 0);
    uint8_t r4[4], r6[16];
    if (vc_symbolic()) {
        rc4 = static_cast<int>(vc::any_in<unsigned>(0, 1, "rc4"));
        rc6 = static_cast<int>(vc::any_in<unsigned>(0, 1, "rc6"));
        b4 = vc_buf(4, "b4");
        b6 = vc_buf(16, "b6");
    } else {
        const std::string z(s);
        rc4 = inet_pton(AF_INET, z.c_str(), r4);
        rc6 = inet_pton(AF_INET6, z.c_str(), r6);
        b4 = r4;
        b6 = r6;
    }
    want_text = s;
    const auto r = ip::Address::from_string(s);
    if (nul) {
        ENSURE(r.is_err(), "text with a zero byte is never an address");
        COVER("zero byte");
        return;
    }
    ENSURE(bad_calls == 0, "the parsers see exactly the given text");
    ENSURE(r.is_ok() == (rc4 > 0 || rc6 > 0), "accepted iff it is an IPv4 or an IPv6 address");
    if (r.is_err()) {
        ENSURE(r.unwrap_err() == make_error_code(Error::ip_address_parse_error), "error");
        COVER("rejected");
        return;
    }
    const auto v = r.unwrap().view();
    if (rc4 > 0) {
        ENSURE(std::holds_alternative<ip::AddressV4>(r.unwrap().value()) && v.size() == 4 && std::memcmp(v.data(), b4, 4) == 0, "the IPv4 address in network order");
        COVER("v4");
    } else {
        ENSURE(std::holds_alternative<ip::AddressV6>(r.unwrap().value()) && v.size() == 16 && std::memcmp(v.data(), b6, 16) == 0, "the IPv6 address in network order");
        COVER("v6");
    }
}
static const uint8_t* want_src;
static int want_af;
static const uint8_t* out_text;
static size_t out_len;
extern "C" const char* vcstub_ntop(int af, const void* src, char* dst, unsigned size) {
    if (af != want_af || std::memcmp(src, want_src, af == AF_INET ? 4 : 16) != 0) ++bad_calls;
    if (size < out_len + 1) {
        errno = ENOSPC;
        return nullptr;
    }
    std::memcpy(dst, out_text, out_len);
    dst[out_len] = 0;
    return dst;
}
static freewebrtc::net::ip::Address mk(const uint8_t* b, bool v4) {
    if (v4) return ip::AddressV4::from_view(freewebrtc::util::ConstBinaryView(b, 4)).unwrap();
    return ip::AddressV6::from_view(freewebrtc::util::ConstBinaryView(b, 16)).unwrap();
}
CONTRACT(ip_print) {
    const bool v4 = vc_fork(vc::any_bool("v4"));
    const size_t n = v4 ? 4 : 16;
    const uint8_t* b = vc_buf(n, "addr");
    char real[64];
    want_src = b;
    want_af = v4 ? AF_INET : AF_INET6;
    if (vc_symbolic()) {
        out_len = vc_fork(vc::any_in<size_t>(1, v4 ? 15 : 45, "len"));
        out_text = vc_buf(out_len, "text");
        for (size_t i = 0; i < out_len; ++i) REQUIRE(out_text[i] != 0);
    } else {
        out_text = reinterpret_cast<const uint8_t*>(inet_ntop(want_af, b, real, sizeof(real)));
        out_len = std::strlen(reinterpret_cast<const char*>(out_text));
    }
    const auto a = mk(b, v4);
    const auto r = a.to_string();
    ENSURE(bad_calls == 0, "the printer sees exactly the address bytes and their family");
    ENSURE(r.is_ok(), "every address has a text");
    ENSURE(r.unwrap() == std::string_view(reinterpret_cast<const char*>(out_text), out_len), "the printed text");
    if (v4) COVER("v4"); else COVER("v6");
}
CONTRACT(ip_from_view) {
    const size_t n = vc::any_in<size_t>(0, 1000, "n");
    const uint8_t* b = vc_buf(n, "b");
    const freewebrtc::util::ConstBinaryView vv(b, n);
    const auto r4 = ip::AddressV4::from_view(vv);
    const auto r6 = ip::AddressV6::from_view(vv);
    ENSURE(r4.is_ok() == (n == 4) && r6.is_ok() == (n == 16), "exactly 4 or 16 bytes");
    ENSURE(ip::AddressV4::size() == 4 && ip::AddressV6::size() == 16, "sizes");
    if (r4.is_ok()) {
        ENSURE(std::memcmp(r4.unwrap().view().data(), b, 4) == 0 && r4.unwrap().view().size() == 4, "keeps the bytes");
        ENSURE(ip::Address(r4.unwrap()).view().size() == 4 && std::memcmp(ip::Address(r4.unwrap()).view().data(), b, 4) == 0, "keeps the bytes in the sum type");
        COVER("v4");
    } else if (r6.is_ok()) {
        ENSURE(std::memcmp(r6.unwrap().view().data(), b, 16) == 0 && r6.unwrap().view().size() == 16, "keeps the bytes");
        COVER("v6");
    } else {
        ENSURE(r4.unwrap_err() == make_error_code(Error::invalid_address_size) && r6.unwrap_err() == make_error_code(Error::invalid_address_size), "error");
        COVER("size");
    }
}
CONTRACT(ip_equality) {
    const bool x4 = vc_fork(vc::any_bool("x4")), y4 = vc_fork(vc::any_bool("y4"));
    const uint8_t* a = vc_buf(16, "a");
    const uint8_t* b = vc_buf(16, "b");
    const auto x = mk(a, x4), y = mk(b, y4);
    ENSURE((x == y) == (x4 == y4 && std::memcmp(a, b, x4 ? 4 : 16) == 0), "equal iff same family and same bytes");
    if (x4 == y4) COVER("same family"); else COVER("different family");
}
CONTRACT(ip_round_trip) {
    const bool v4 = vc::any_bool("v4");
    const auto a = mk(vc_buf(16, "b"), v4);
    const auto t = a.to_string();
    ENSURE(t.is_ok(), "prints");
    const auto b = ip::Address::from_string(t.unwrap());
    ENSURE(b.is_ok() && b.unwrap() == a, "the printed text reads back as the same address");
}
CONTRACT(ip_real_text) {
    const auto n = vc::any_in<size_t>(0, 60, "n");
    const uint8_t* raw = vc_buf(n, "raw");
    static const char al[] = "0123456789abcdefABCDEF:.::..1201";
    std::string t;
    for (size_t i = 0; i < n; ++i) t.push_back(raw[i] & 0x80 ? static_cast<char>(raw[i]) : al[raw[i] & 31]);
    uint8_t r4[4], r6[16];
    const bool nul = t.find('\0') != std::string::npos;
    const int c4 = nul ? 0 : inet_pton(AF_INET, t.c_str(), r4), c6 = nul ? 0 : inet_pton(AF_INET6, t.c_str(), r6);
    const auto r = ip::Address::from_string(t);
    ENSURE(r.is_ok() == (c4 > 0 || c6 > 0), "accepted iff it is an IPv4 or an IPv6 address");
    if (r.is_ok()) {
        const auto v = r.unwrap().view();
        ENSURE(v.size() == (c4 > 0 ? 4 : 16) && std::memcmp(v.data(), c4 > 0 ? r4 : r6, v.size()) == 0, "the address in network order");
    }
}
