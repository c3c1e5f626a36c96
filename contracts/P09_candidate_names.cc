// Candidate type and transport names.
// SOURCES: ice/candidate/ice_candidate_type.cpp ice/candidate/ice_candidate_transport_type.cpp ice/candidate/ice_candidate_error.cpp
#include "vc.hpp"
#include "ice/candidate/ice_candidate_type.hpp"
#include "ice/candidate/ice_candidate_transport_type.hpp"
#include "ice/candidate/ice_candidate_error.hpp"
using namespace freewebrtc::ice::candidate;
static bool eqi(std::string_view s, const char* w, size_t m) {
    if (s.size() != m) return false;
    bool r = true;
    for (size_t i = 0; i < m; ++i) {
        const unsigned char c = s[i], l = w[i];
        r = r & ((c == l) | (c + 32 == l));
    }
    return r;
}
CONTRACT(type_from_string) {
    const auto n = vc_fork(vc::any_in<size_t>(0, 5, "n"));
    const auto s = vc::any_sv(n, "s");
    const bool h = eqi(s, "host", 4), sr = eqi(s, "srflx", 5), pr = eqi(s, "prflx", 5), re = eqi(s, "relay", 5);
    const auto r = Type::from_string(s);
    ENSURE(r.is_ok() == (h | sr | pr | re), "accepted iff one of the four names in any case");
    if (r.is_ok()) {
        const auto t = r.unwrap();
        ENSURE((t == Type::host()) == h && (t == Type::server_reflexive()) == sr && (t == Type::peer_reflexive()) == pr && (t == Type::relayed()) == re, "the named type");
        const std::string back = t.to_string();
        ENSURE(Type::from_string(back).is_ok() && Type::from_string(back).unwrap() == t, "its own name reads back");
        if (h) COVER("host"); else if (sr) COVER("srflx"); else if (pr) COVER("prflx"); else COVER("relay");
    } else {
        ENSURE(r.unwrap_err() == make_error_code(Error::unknown_candidate_type), "error");
        COVER("unknown");
    }
}
CONTRACT(type_longer) {
    const auto n = vc::any_in<size_t>(6, 1000000, "n");
    const auto r = Type::from_string(vc::any_sv(n, "s"));
    ENSURE(r.is_err() && r.unwrap_err() == make_error_code(Error::unknown_candidate_type), "longer text is never a type");
    COVER("end");
}
CONTRACT(type_names) {
    ENSURE(Type::host().to_string() == "host" && Type::server_reflexive().to_string() == "srflx" && Type::peer_reflexive().to_string() == "prflx" && Type::relayed().to_string() == "relay", "standard names");
    ENSURE(Type::host().value() == Type::HOST && Type::server_reflexive().value() == Type::SERVER_REFLEXIVE && Type::peer_reflexive().value() == Type::PEER_REFLEXIVE && Type::relayed().value() == Type::RELAYED, "values");
    ENSURE(!(Type::host() == Type::relayed()) && !(Type::server_reflexive() == Type::peer_reflexive()), "types differ");
    COVER("end");
}
CONTRACT(transport_from_string) {
    const auto n = vc_fork(vc::any_in<size_t>(0, 3, "n"));
    const auto s = vc::any_sv(n, "s");
    const auto r = TransportType::from_string(s);
    ENSURE(r.is_ok() == eqi(s, "udp", 3), "accepted iff udp in any case");
    if (r.is_ok()) {
        ENSURE(r.unwrap() == TransportType::udp(), "is udp");
        COVER("udp");
    } else {
        ENSURE(r.unwrap_err() == make_error_code(Error::unknown_transport_type), "error");
        COVER("unknown");
    }
}
CONTRACT(transport_longer) {
    const auto n = vc::any_in<size_t>(4, 1000000, "n");
    const auto r = TransportType::from_string(vc::any_sv(n, "s"));
    ENSURE(r.is_err() && r.unwrap_err() == make_error_code(Error::unknown_transport_type), "longer text is never a transport");
    ENSURE(TransportType::udp().to_string() == "udp", "standard name");
    COVER("end");
}
