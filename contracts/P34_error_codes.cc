// Error codes: every failure is a code of its own in the category of its component, with a text of its own.
// SOURCES: net/net_error.cpp rtp/rtp_error.cpp ice/candidate/ice_candidate_error.cpp stun/stun_error.cpp util/util_error_code.cpp
#include "vc.hpp"
#include "net/net_error.hpp"
#include "rtp/rtp_error.hpp"
#include "ice/candidate/ice_candidate_error.hpp"
#include "stun/stun_error.hpp"
#include "util/util_error_code.hpp"
using namespace freewebrtc;
static bool ci_success(const std::string& s) {
    static const char w[] = "success";
    if (s.size() != 7) return false;
    bool r = true;
    for (size_t i = 0; i < 7; ++i) r = r & ((s[i] | 32) == w[i]);
    return r;
}
// N: number of named codes (0 is ok)
template<typename E, unsigned N> static void codes(const std::error_category& cat) {
    const unsigned a = vc::any_in<unsigned>(0, N - 1, "a"), b = vc::any_in<unsigned>(0, N - 1, "b");
    const std::error_code x = make_error_code(static_cast<E>(a)), y = make_error_code(static_cast<E>(b));
    ENSURE(x.value() == static_cast<int>(a), "a code keeps its number");
    ENSURE(&x.category() == &cat && &y.category() == &cat, "all codes of one component share its category");
    ENSURE(static_cast<bool>(x) == (a != 0), "only ok is no error");
    ENSURE((x == y) == (a == b), "codes are equal exactly when their numbers are");
    const unsigned fa = vc_fork(a), fb = vc_fork(b);
    const std::string s = cat.message(static_cast<int>(fa)), t = cat.message(static_cast<int>(fb));
    ENSURE(!s.empty(), "every code has a text");
    ENSURE(ci_success(s) == (fa == 0), "only ok reads as success");
    if (fa != fb) { ENSURE(s != t, "different codes have different texts"); COVER("different"); } else COVER("same");
}
template<typename E, unsigned N> static void unknown(const std::error_category& cat) {
    const int v = vc::any<int>("v");
    REQUIRE(v < 0 || v >= static_cast<int>(N + 20));
    const std::string s = cat.message(v);
    ENSURE(!s.empty() && !ci_success(s), "an unknown number does not read as success");
    ENSURE(cat.name() != nullptr && cat.name()[0] != 0, "the category has a name");
    COVER("end");
}
CONTRACT(net_codes) { codes<net::Error, 6>(net::net_error_category()); }
CONTRACT(rtp_codes) { codes<rtp::Error, 7>(rtp::rtp_error_category()); }
CONTRACT(ice_codes) { codes<ice::candidate::Error, 16>(ice::candidate::ice_error_category()); }
CONTRACT(stun_parse_codes) { codes<stun::ParseError, 22>(stun::stun_parse_error_category()); }
CONTRACT(stun_client_codes) { codes<stun::ClientError, 7>(stun::stun_client_error_category()); }
CONTRACT(util_codes) { codes<util::ErrorCode, 2>(util::util_error_category()); }
CONTRACT(net_unknown) { unknown<net::Error, 6>(net::net_error_category()); }
CONTRACT(rtp_unknown) { unknown<rtp::Error, 7>(rtp::rtp_error_category()); }
CONTRACT(ice_unknown) { unknown<ice::candidate::Error, 16>(ice::candidate::ice_error_category()); }
CONTRACT(stun_parse_unknown) { unknown<stun::ParseError, 22>(stun::stun_parse_error_category()); }
CONTRACT(stun_client_unknown) { unknown<stun::ClientError, 7>(stun::stun_client_error_category()); }
CONTRACT(util_unknown) { unknown<util::ErrorCode, 2>(util::util_error_category()); }
CONTRACT(components_apart) {
    const std::error_category* c[] = {&net::net_error_category(), &rtp::rtp_error_category(), &ice::candidate::ice_error_category(),
                                      &stun::stun_parse_error_category(), &stun::stun_client_error_category(), &util::util_error_category()};
    const unsigned i = vc_fork(vc::any_in<unsigned>(0, 5, "i")), j = vc_fork(vc::any_in<unsigned>(0, 5, "j"));
    const int v = vc::any<int>("v");
    ENSURE((std::error_code(v, *c[i]) == std::error_code(v, *c[j])) == (i == j), "the same number of two components is two different errors");
    COVER("end");
}
