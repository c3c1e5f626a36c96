// SDP candidate attribute line: a line is parsed field by field. The oracle is the grammar applied to the
// token list with the field parsers (whose own contracts are P07, P09, P11, P12, P13) as callees.
// SOURCES: ice/candidate/ice_candidate_sdp.cpp ice/candidate/ice_candidate_address.cpp ice/candidate/ice_candidate_component_id.cpp ice/candidate/ice_candidate_foundation.cpp ice/candidate/ice_candidate_priority.cpp ice/candidate/ice_candidate_type.cpp ice/candidate/ice_candidate_transport_type.cpp ice/candidate/ice_candidate_error.cpp net/ip/ip_address.cpp net/net_fqdn.cpp net/net_port.cpp net/net_error.cpp util/util_token_stream.cpp
// VC-BOUNDED(sdp_.*): one token of up to 4 bytes symbolic at a time (5 for extension names), up to 14 tokens
// VC-SPLIT: sdp_foundation sdp_component sdp_transport sdp_priority sdp_address sdp_port sdp_type sdp_raddr sdp_rport sdp_extension sdp_typ
// VC-OPT(sdp_grammar): native_only=1 fuzz=20 maxlen=400
// VC-OPT(sdp_(?!grammar).*): fuzz=1
#include "vc.hpp"
#include "ice/candidate/ice_candidate_sdp.hpp"
#include "ice/candidate/ice_candidate_error.hpp"
using namespace freewebrtc;
using namespace freewebrtc::ice::candidate;
using SV = std::string_view;
static constexpr size_t MAXT = 40;
struct Line {
    std::string text;
    SV tok[MAXT];
    size_t n = 0;
    void add(SV t) {
        if (n) text.push_back(' ');
        text.append(t);
        tok[n++] = t;
    }
};
static bool same(const Address& a, const Address& b) {
    if (a.as_ip_address().is_some() != b.as_ip_address().is_some()) return false;
    if (a.as_ip_address().is_some()) return a.as_ip_address().unwrap().get() == b.as_ip_address().unwrap().get();
    return a.as_fqdn().unwrap().get() == b.as_fqdn().unwrap().get();
}
static void check(const Line& l) {
    const auto r = parse_sdp_attr("candidate:" + l.text);
    // an empty last token is not a token (the line ends after its separator)
    size_t n = l.n;
    if (n && l.tok[n - 1].empty()) --n;
    bool complete = n >= 8;
    bool unsupported = false, broken = !complete;
    if (n > 0) broken |= Foundation::from_string(l.tok[0]).is_err();
    if (n > 1) broken |= ComponentId::from_string(l.tok[1]).is_err();
    if (n > 2) unsupported |= TransportType::from_string(l.tok[2]).is_err();
    if (n > 3) broken |= Priority::from_string(l.tok[3]).is_err();
    if (n > 4) unsupported |= Address::from_string(l.tok[4]).is_err();
    if (n > 5) broken |= net::Port::from_string(l.tok[5]).is_err();
    if (n > 6) broken |= l.tok[6] != "typ";
    if (n > 7) unsupported |= Type::from_string(l.tok[7]).is_err();
    size_t ext = 0, nra = 0, nrp = 0, ra = 0, rp = 0;
    for (size_t i = 8; i < n; i += 2) {
        if (i + 1 >= n) { broken = true; break; }
        if (l.tok[i] == "raddr") { ++nra; ra = i + 1; broken |= Address::from_string(l.tok[ra]).is_err(); }
        else if (l.tok[i] == "rport") { ++nrp; rp = i + 1; broken |= net::Port::from_string(l.tok[rp]).is_err(); }
        else ++ext;
    }
    if (nra > 1 || nrp > 1) return; // repeated related address: not specified
    if (!broken && !unsupported) {
        ENSURE(r.is_ok() && std::holds_alternative<Supported>(r.unwrap()), "a valid line gives a candidate");
        const auto& s = std::get<Supported>(r.unwrap());
        const auto& c = s.candidate;
        ENSURE(c.foundation == Foundation::from_string(l.tok[0]).unwrap(), "foundation");
        ENSURE(c.component == ComponentId::from_string(l.tok[1]).unwrap(), "component");
        ENSURE(c.transport_type == TransportType::from_string(l.tok[2]).unwrap(), "transport");
        ENSURE(c.priority == Priority::from_string(l.tok[3]).unwrap(), "priority");
        ENSURE(same(c.address, Address::from_string(l.tok[4]).unwrap()), "address");
        ENSURE(c.port == net::Port::from_string(l.tok[5]).unwrap(), "port");
        ENSURE(c.type == Type::from_string(l.tok[7]).unwrap(), "type");
        ENSURE(c.maybe_related_address.is_some() == (nra == 1), "related address present iff given");
        ENSURE(c.maybe_related_port.is_some() == (nrp == 1), "related port present iff given");
        if (nra) ENSURE(same(c.maybe_related_address.unwrap(), Address::from_string(l.tok[ra]).unwrap()), "related address");
        if (nrp) ENSURE(c.maybe_related_port.unwrap() == net::Port::from_string(l.tok[rp]).unwrap(), "related port");
        ENSURE(s.extensions.size() == ext, "every other pair is an extension");
        size_t k = 0;
        for (size_t i = 8; i < n; i += 2) {
            if (l.tok[i] == "raddr" || l.tok[i] == "rport") continue;
            ENSURE(s.extensions[k].att_name == l.tok[i] && s.extensions[k].att_value == l.tok[i + 1], "extensions keep name, value and order");
            ++k;
        }
        COVER("candidate");
    } else if (!broken) {
        ENSURE(r.is_ok() && std::holds_alternative<Unsupported>(r.unwrap()), "a well-formed line with an unknown transport, type or address is unsupported, not an error");
        COVER("unsupported");
    } else if (!unsupported && complete) {
        ENSURE(r.is_err(), "a malformed line is an error");
        COVER("malformed");
    } else {
        ENSURE(r.is_err() || std::holds_alternative<Unsupported>(r.unwrap()), "never a candidate");
        COVER("doubly wrong");
    }
}
static SV any_token(size_t max, const char* name) {
    const auto n = vc_fork(vc::any_in<size_t>(1, max, name));
    const auto s = vc::any_sv(n, name);
    bool ok = true;
    for (char c: s) ok = ok & (c != ' ');
    REQUIRE(ok);
    return s;
}
static Line base(size_t hole, SV t, bool related = false) {
    static const SV d[] = {"4x", "1", "udp", "77", "1.2.3.4", "90", "typ", "host", "raddr", "5.6.7.8", "rport", "91"};
    Line l;
    for (size_t i = 0; i < (related ? 12 : 8); ++i) l.add(i == hole ? t : d[i]);
    return l;
}
CONTRACT(sdp_foundation) { check(base(0, any_token(3, "foundation"))); }
CONTRACT(sdp_component) { check(base(1, any_token(4, "component"))); }
CONTRACT(sdp_transport) { check(base(2, any_token(4, "transport"))); }
CONTRACT(sdp_priority) { check(base(3, any_token(4, "priority"))); }
CONTRACT(sdp_address) { check(base(4, any_token(3, "address"))); }
CONTRACT(sdp_port) { check(base(5, any_token(4, "port"))); }
CONTRACT(sdp_typ) { check(base(6, any_token(4, "typ"))); }
CONTRACT(sdp_type) { check(base(7, any_token(5, "type"))); }
CONTRACT(sdp_raddr) { check(base(9, any_token(3, "raddr"), true)); }
CONTRACT(sdp_rport) { check(base(11, any_token(4, "rport"), true)); }
CONTRACT(sdp_extension) {
    auto l = base(99, "");
    const size_t extra = vc_fork(vc::any_in<size_t>(0, 3, "extra"));
    if (extra > 0) l.add(any_token(5, "name"));
    if (extra > 1) l.add(any_token(2, "value"));
    if (extra > 2) { l.add("generation"); l.add("0"); }
    check(l);
}
CONTRACT(sdp_truncated) {
    static const SV d[] = {"4x", "1", "udp", "77", "1.2.3.4", "90", "typ", "host", "raddr", "5.6.7.8", "rport", "91", "x", "y"};
    const size_t n = vc_fork(vc::any_in<size_t>(0, 14, "tokens"));
    Line l;
    for (size_t i = 0; i < n; ++i) l.add(d[i]);
    check(l);
}
CONTRACT(sdp_swapped_relation) {
    // raddr and rport may come in any order and among extensions
    static const SV order[6][6] = {{"raddr", "a.b", "rport", "7", "x", "y"}, {"rport", "7", "raddr", "a.b", "x", "y"}, {"x", "y", "raddr", "a.b", "rport", "7"},
                                   {"x", "y", "rport", "7", "raddr", "a.b"}, {"raddr", "a.b", "x", "y", "rport", "7"}, {"rport", "7", "x", "y", "raddr", "a.b"}};
    auto l = base(99, "");
    const size_t k = vc_fork(vc::any_in<size_t>(0, 5, "order"));
    for (SV t: order[k]) l.add(t);
    check(l);
}
CONTRACT(sdp_prefix) {
    const auto n = vc_fork(vc::any_in<size_t>(0, 12, "n"));
    const auto s = vc::any_sv(n, "head");
    REQUIRE(!s.starts_with("candidate:"));
    const auto r = parse_sdp_attr(std::string(s) + (n >= 10 ? "" : "4x 1 udp 77 1.2.3.4 90 typ host"));
    bool whole = false;
    if (n < 10) whole = (std::string(s) + "4x 1 udp").starts_with("candidate:");
    if (!whole) {
        ENSURE(r.is_err() && r.unwrap_err() == make_error_code(Error::invalid_attr_prefix), "a line without the attribute name is an error");
        COVER("end");
    }
}
CONTRACT(sdp_grammar) {
    static const SV pool[] = {"1", "0", "99", "256", "1000", "abc+/", "udp", "UDP", "tcp", "2130706431", "4294967296", "192.168.0.1", "::1", "fe80::1", "host.example.com", "-bad", "8998", "65535", "65536",
                              "typ", "host", "srflx", "prflx", "RELAY", "raddr", "rport", "generation", "ufrag", "", "x", "~"};
    constexpr size_t P = sizeof(pool) / sizeof(pool[0]);
    static const SV good[] = {"abc+/", "1", "UDP", "2130706431", "192.168.0.1", "8998", "typ", "host", "raddr", "::1", "rport", "9", "generation", "0", "ufrag", "x"};
    const size_t n = vc::any_in<size_t>(0, 16, "n");
    Line l;
    std::string own[16];
    for (size_t i = 0; i < n; ++i) {
        const auto k = vc::any<uint8_t>("choice");
        if (k < 0xC0) l.add(good[i]);
        else if (k < 0xF0) l.add(pool[(k * 7 + vc::any<uint8_t>("pick")) % P]);
        else {
            const size_t m = vc::any_in<size_t>(0, 8, "len");
            for (size_t j = 0; j < m; ++j) { char c = static_cast<char>(vc::any<uint8_t>("c")); own[i].push_back(c == ' ' ? '_' : c); }
            l.add(own[i]);
        }
    }
    check(l);
}
