// RTP payload types, payload map and the wrappers of header fields.
// SOURCES: rtp/rtp_payload_map.cpp
#include "vc.hpp"
#include "rtp/rtp_payload_map.hpp"
#include "rtp/rtp_timestamp.hpp"
#include "rtp/rtp_sequence.hpp"
#include "rtp/rtp_ssrc.hpp"
#include "rtp/rtp_marker.hpp"
using namespace freewebrtc::rtp;
CONTRACT(payload_type) {
    const auto v = vc::any<uint8_t>("v");
    const auto m = PayloadType::from_uint8(v);
    ENSURE(m.is_some() == (v <= 127), "exists iff it fits seven bits");
    if (m.is_some()) {
        ENSURE(m.unwrap().value() == v, "keeps its value");
        COVER("valid");
    } else {
        COVER("invalid");
    }
}
CONTRACT(payload_type_equality) {
    const auto a = vc::any_in<uint8_t>(0, 127, "a"), b = vc::any_in<uint8_t>(0, 127, "b");
    const auto x = PayloadType::from_uint8(a).unwrap(), y = PayloadType::from_uint8(b).unwrap();
    ENSURE((x == y) == (a == b), "equal iff same value");
    if (a == b) ENSURE(std::hash<PayloadType>()(x) == std::hash<PayloadType>()(y), "equal types hash equally");
    if (a == b) COVER("equal"); else COVER("different");
}
CONTRACT(payload_map) {
    const auto a = vc::any_in<uint8_t>(0, 127, "a"), b = vc::any_in<uint8_t>(0, 127, "b"), c = vc::any_in<uint8_t>(0, 127, "c"), q = vc::any_in<uint8_t>(0, 127, "q");
    REQUIRE(a != b && b != c && a != c);
    const auto ra = vc::any<unsigned>("ra"), rb = vc::any<unsigned>("rb"), rc = vc::any<unsigned>("rc");
    PayloadMap map({{PayloadType::from_uint8(a).unwrap(), PayloadMapItem{ClockRate(ra)}}, {PayloadType::from_uint8(b).unwrap(), PayloadMapItem{ClockRate(rb)}},
                    {PayloadType::from_uint8(c).unwrap(), PayloadMapItem{ClockRate(rc)}}});
    const auto r = map.rtp_clock_rate(PayloadType::from_uint8(q).unwrap());
    ENSURE(r.is_some() == (q == a || q == b || q == c), "a rate is known iff the type was mapped");
    if (r.is_some()) {
        ENSURE(r.unwrap().count() == (q == a ? ra : q == b ? rb : rc), "the rate mapped for that type");
        COVER("known");
    } else {
        COVER("unknown");
    }
}
CONTRACT(empty_map) {
    PayloadMap map({});
    ENSURE(map.rtp_clock_rate(PayloadType::from_uint8(vc::any_in<uint8_t>(0, 127, "q")).unwrap()).is_none(), "nothing is known");
    COVER("end");
}
CONTRACT(wrappers) {
    const auto s = vc::any<uint32_t>("s"), t = vc::any<uint32_t>("t");
    const auto q = vc::any<uint16_t>("q");
    const auto r = vc::any<unsigned>("rate");
    ENSURE(SSRC::from_uint32(s).value() == s, "SSRC keeps its value");
    ENSURE((SSRC::from_uint32(s) == SSRC::from_uint32(t)) == (s == t), "SSRC equality");
    ENSURE(SequenceNumber::from_uint16(q).value() == q, "sequence number keeps its value");
    ENSURE(ClockRate(r).count() == r, "clock rate keeps its value");
    ENSURE(Timestamp::from_uint32(t, ClockRate(r)).value() == t, "timestamp keeps its value");
    const bool b = vc::any_bool("m");
    ENSURE(bool(MarkerBit(b)) == b, "marker bit keeps its value");
    COVER("end");
}
