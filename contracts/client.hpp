// Shared by the contracts on the STUN client: the real client with its state open to the set-up of inductive steps
// (each use of a private member is guarded, so the contracts also fit a client without it).
#pragma once
#include "vc.hpp"
#include <array>
#include <chrono>
#include <cmath>
#include <functional>
#include <memory>
#include <optional>
#include <queue>
#include <random>
#include <ranges>
#include <sstream>
#include <unordered_map>
#include <variant>
#include <vector>
#include <netinet/in.h>
#include "stun/stun_message.hpp"
#include "stun/stun_error.hpp"
#include "net/net_path.hpp"
#include "net/net_path_hash.hpp"
#include "stun/stun_transaction_id_hash.hpp"
#include "stun/stun_client_udp_settings.hpp"
#include "stun/stun_client_udp_effects.hpp"
#define private public
#include "stun/stun_client_udp.hpp"
#include "stun/details/stun_client_udp_rto.hpp"
#include "stun/stun_client_udp.cpp"
#undef private
#include "stun_common.hpp"
namespace cl {
using namespace freewebrtc;
using namespace vcs;
using stun::ClientUDP;
using T = ClientUDP::Timepoint;
using D = clock::NativeDuration;
using Settings = ClientUDP::Settings;
using Rtx = Settings::RetransmitDefault;
inline net::Path path(uint8_t last = 2) {
    const uint8_t s[4] = {192, 168, 0, 1}, t[4] = {192, 168, 0, last};
    return net::Path{addr4(s), addr4(t)};
}
inline T at(uint64_t base, int64_t t) { return T::epoch().advance(D(int64_t(base))).advance(D(t)); }
inline int64_t any_duration(const char* name, int bits = 50) { return int64_t(vc::any_in<uint64_t>(0, uint64_t(1) << bits, name)); }
// random numbers: the given ids, then more
struct Random {
    uint32_t n = 0;
    uint32_t operator()() { return ++n; }
};
inline bool is_send(const ClientUDP::Effect& e) { return std::holds_alternative<ClientUDP::SendData>(e); }
inline bool is_ok(const ClientUDP::Effect& e) { return std::holds_alternative<ClientUDP::TransactionOk>(e); }
inline bool is_failed(const ClientUDP::Effect& e) { return std::holds_alternative<ClientUDP::TransactionFailed>(e); }
inline bool is_sleep(const ClientUDP::Effect& e) { return std::holds_alternative<ClientUDP::Sleep>(e); }
inline bool is_idle(const ClientUDP::Effect& e) { return std::holds_alternative<ClientUDP::Idle>(e); }
inline bool is_timeout(const ClientUDP::Effect& e) { return is_failed(e) && std::holds_alternative<ClientUDP::TransactionFailed::Timeout>(std::get<ClientUDP::TransactionFailed>(e).reason); }
inline int64_t sleep(const ClientUDP::Effect& e) { return std::get<ClientUDP::Sleep>(e).sleep.count(); }
// the transaction id of the n-th request made with one Random
inline stun::TransactionId id_of(unsigned n) {
    Random r{n * 3};
    return stun::TransactionId::generate(r);
}
inline stun::Message message(unsigned n, stun::Class cls, stun::AttributeSet::AttrVec&& attrs, stun::AttributeSet::UnknownAttrVec&& unknown = {}) {
    return stun::Message{stun::Header{cls, stun::Method::binding(), id_of(n)}, stun::AttributeSet::create(std::move(attrs), std::move(unknown)), stun::IsRFC3489{false}, None{}};
}
inline stun::Message success(unsigned n, const net::ip::Address& a, uint16_t port) {
    stun::AttributeSet::AttrVec v;
    v.push_back(stun::XorMappedAddressAttribute{stun::XoredAddress::from_address(a, id_of(n)), net::Port(port)});
    return message(n, stun::Class::success_response(), std::move(v));
}
inline stun::Message failure(unsigned n, unsigned code) {
    stun::AttributeSet::AttrVec v;
    v.push_back(stun::ErrorCodeAttribute{stun::ErrorCodeAttribute::Code(code), None{}});
    return message(n, stun::Class::error_response(), std::move(v));
}
inline MaybeError respond(ClientUDP& c, T now, stun::Message&& m) { return c.response(now, ConstBinaryView(&now, 0), std::move(m)); }
}
