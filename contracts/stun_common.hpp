// Shared by the STUN contracts.
#pragma once
#include "stun/stun_parse_stat.hpp"
#include "net/ip/ip_address.hpp"
#include "util/util_binary_view.hpp"
namespace vcs {
using namespace freewebrtc;
using util::ConstBinaryView;
template<typename S> inline unsigned message_type(const S& s) {
    if constexpr (requires { s.invalid_message_type.count(); }) return s.invalid_message_type.count();
    else return 0;
}
// number of failure reasons recorded
inline unsigned reasons(const stun::ParseStat& s) {
    return s.invalid_size.count() + message_type(s) + s.not_padded.count() + s.message_length_error.count() + s.magic_cookie_error.count() + s.invalid_attr_size.count()
        + s.fingerprint_not_last.count() + s.invalid_fingerprint.count() + s.invalid_fingerprint_size.count() + s.invalid_message_integrity.count()
        + s.invalid_mapped_address.count() + s.invalid_xor_mapped_address.count() + s.invalid_ip_address.count() + s.invalid_priority_size.count()
        + s.invalid_ice_controlling_size.count() + s.invalid_ice_controlled_size.count() + s.invalid_use_candidate_size.count()
        + s.invalid_error_code_size.count() + s.invalid_unknown_attributes_attr_size.count();
}
inline bool counted_failure(const stun::ParseStat& s) { return s.error.count() == 1 && s.success.count() == 0 && reasons(s) == 1; }
inline bool untouched(const stun::ParseStat& s) { return s.error.count() == 0 && s.success.count() == 0 && reasons(s) == 0; }
inline net::ip::Address addr4(const uint8_t* b) { return net::ip::Address::move_from_v4(net::ip::AddressV4::from_view(ConstBinaryView(b, 4)).unwrap()); }
inline net::ip::Address addr6(const uint8_t* b) { return net::ip::Address::move_from_v6(net::ip::AddressV6::from_view(ConstBinaryView(b, 16)).unwrap()); }
inline bool same(const uint8_t* a, const uint8_t* b, size_t n) {
    bool r = true;
    for (size_t i = 0; i < n; ++i) r = r & (a[i] == b[i]);
    return r;
}
inline bool same(const ConstBinaryView& v, const uint8_t* b, size_t n) { return v.size() == n && same(v.data(), b, n); }
inline bool is4(const net::ip::Address& a, const uint8_t* b) { return std::holds_alternative<net::ip::AddressV4>(a.value()) && same(std::get<net::ip::AddressV4>(a.value()).view(), b, 4); }
inline bool is6(const net::ip::Address& a, const uint8_t* b) { return std::holds_alternative<net::ip::AddressV6>(a.value()) && same(std::get<net::ip::AddressV6>(a.value()).view(), b, 16); }
inline unsigned be16(const uint8_t* p) { return p[0] * 256u + p[1]; }
inline uint32_t be32(const uint8_t* p) { return (uint32_t(be16(p)) << 16) | be16(p + 2); }
inline uint64_t be64(const uint8_t* p) { return (uint64_t(be32(p)) << 32) | be32(p + 4); }
}
