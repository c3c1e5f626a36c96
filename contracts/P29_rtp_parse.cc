// RTP packet parsing against RFC 3550 section 5.1, for every packet of up to 400000 bytes
// (longer than the largest header, so the size limit covers every shape).
// SOURCES: rtp/rtp_packet.cpp rtp/rtp_error.cpp rtp/rtp_payload_map.cpp
// VC-SPLIT: rtp_parse rtp_accept
#include "vc.hpp"
#include "rtp/rtp_packet.hpp"
#include "rtp/rtp_payload_map.hpp"
#include "rtp/rtp_error.hpp"
using namespace freewebrtc;
using namespace freewebrtc::rtp;
static constexpr size_t MAXN = 400000;
static unsigned be16(const uint8_t* p) { return p[0] * 256u + p[1]; }
static uint32_t be32(const uint8_t* p) { return (uint32_t(be16(p)) << 16) | be16(p + 2); }

// What RFC 3550 says about a packet, computed independently of the parser.
struct Spec {
    bool ok = false;
    Error err = Error::ok;
    bool csrc = false; // truncated contributing source list: the error code is left to the parser
    size_t cc = 0, ext = 0, off = 0, len = 0;
    bool has_ext = false;
};
static Spec spec(const uint8_t* d, size_t n, uint8_t known) {
    Spec s;
    if (n < 12) { s.err = Error::packet_is_too_short; return s; }
    if ((d[0] >> 6) != 2) { s.err = Error::unknown_packet_version; return s; }
    s.cc = d[0] & 15;
    s.off = 12 + 4 * s.cc;
    if (n < s.off) { s.csrc = true; return s; }
    if ((d[1] & 127) != known) { s.err = Error::unknown_rtp_clock; return s; }
    if (d[0] & 0x10) {
        s.has_ext = true;
        if (n < s.off + 4) { s.err = Error::invalid_extension_length; return s; }
        s.ext = 4 * size_t(be16(d + s.off + 2));
        if (n < s.off + 4 + s.ext) { s.err = Error::invalid_extension_length; return s; }
        s.off += 4 + s.ext;
    }
    s.len = n - s.off;
    if (d[0] & 0x20) {
        if (s.len == 0 || d[n - 1] > s.len) { s.err = Error::invalid_packet_padding; return s; }
        s.len -= d[n - 1];
    }
    s.ok = true;
    return s;
}
CONTRACT(rtp_parse) {
    const size_t n = vc::any_in<size_t>(0, MAXN, "n");
    const uint8_t* d = vc_buf(n, "pkt");
    const uint8_t known = vc::any_in<uint8_t>(0, 127, "known_pt");
    PayloadMap map({{PayloadType::from_uint8(known).unwrap(), PayloadMapItem{ClockRate(vc::any<unsigned>("rate"))}}});
    ParseStat st;
    auto rv = Packet::parse(util::ConstBinaryView(d, n), map, st);
    ENSURE(st.success.count() + st.error.count() == 1, "exactly one of success and error is counted, once");
    ENSURE(rv.is_ok() == (st.success.count() == 1), "the counted outcome is the returned one");
    const unsigned reasons = st.invalid_size.count() + st.invalid_version.count() + st.invalid_csrc.count() + st.invalid_extension.count()
        + st.invalid_payload_type.count() + st.unknown_rtp_clock.count() + st.invalid_padding.count();
    ENSURE(reasons == st.error.count(), "each error is counted under exactly one reason");
    const Spec s = spec(d, n, known);
    ENSURE(rv.is_ok() == s.ok, "accepted iff well formed");
    if (!rv.is_ok()) {
        if (!s.csrc) {
            ENSURE(rv.unwrap_err() == make_error_code(s.err), "error code names the defect");
        }
        ENSURE(st.invalid_size.count() == (s.err == Error::packet_is_too_short), "short packets counted");
        ENSURE(st.invalid_version.count() == (s.err == Error::unknown_packet_version), "versions counted");
        ENSURE(st.invalid_csrc.count() == s.csrc, "truncated source lists counted");
        ENSURE(st.unknown_rtp_clock.count() == (s.err == Error::unknown_rtp_clock), "unknown payload types counted");
        ENSURE(st.invalid_extension.count() == (s.err == Error::invalid_extension_length), "extension errors counted");
        ENSURE(st.invalid_padding.count() == (s.err == Error::invalid_packet_padding), "padding errors counted");
        COVER("rejected");
    } else {
        COVER("accepted");
    }
}
CONTRACT(rtp_accept) {
    const size_t n = vc::any_in<size_t>(0, MAXN, "n");
    const uint8_t* d = vc_buf(n, "pkt");
    const uint8_t known = vc::any_in<uint8_t>(0, 127, "known_pt");
    REQUIRE(n >= 12 && (d[1] & 127) == known);
    PayloadMap map({{PayloadType::from_uint8(known).unwrap(), PayloadMapItem{ClockRate(90000)}}});
    ParseStat st;
    auto rv = Packet::parse(util::ConstBinaryView(d, n), map, st);
    if (!rv.is_ok()) return;
    const auto& p = rv.unwrap();
    const Spec s = spec(d, n, known);
    ENSURE(bool(p.header.marker) == ((d[1] & 0x80) != 0), "marker bit");
    ENSURE(p.header.payload_type.value() == (d[1] & 0x7F), "payload type");
    ENSURE(p.header.sequence.value() == be16(d + 2), "sequence number");
    ENSURE(p.header.timestamp.value() == be32(d + 4), "timestamp");
    ENSURE(p.header.ssrc.value() == be32(d + 8), "synchronisation source");
    ENSURE(p.header.csrcs.size() == s.cc, "number of contributing sources");
    for (size_t i = 0; i < p.header.csrcs.size(); ++i) {
        ENSURE(p.header.csrcs[i].value() == be32(d + 12 + 4 * i), "contributing source");
    }
    ENSURE(p.header.maybe_extension.is_some() == s.has_ext, "extension present iff flagged");
    if (s.has_ext) {
        const auto& e = p.header.maybe_extension.unwrap();
        const size_t eo = 12 + 4 * s.cc;
        ENSURE(e.profile_defined == be16(d + eo), "extension profile");
        ENSURE(e.data.offset == eo + 4 && e.data.count == s.ext, "extension data");
        ENSURE(e.data.offset + e.data.count <= n, "extension data lies inside the packet");
        COVER("extension");
    }
    ENSURE(p.payload.offset == s.off && p.payload.count == s.len, "payload is what remains between header and padding");
    ENSURE(p.payload.offset + p.payload.count <= n, "payload lies inside the packet");
    if (d[0] & 0x20) COVER("padded"); else COVER("not padded");
    if (s.cc == 15) COVER("all sources");
}
