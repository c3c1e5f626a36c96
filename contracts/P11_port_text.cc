// Port numbers as text.
// SOURCES: net/net_port.cpp net/net_error.cpp
#include "vc.hpp"
#include "net/net_port.hpp"
#include "net/net_error.hpp"
using namespace freewebrtc::net;
CONTRACT(port_from_string) {
    const auto n = vc_fork(vc::any_in<size_t>(0, 5, "n"));
    const auto s = vc::any_sv(n, "s");
    bool good = n >= 1;
    uint32_t v = 0;
    for (unsigned char c: s) {
        good = good & ('0' <= c) & (c <= '9');
        v = v * 10 + (c - '0');
    }
    const auto r = Port::from_string(s);
    ENSURE(r.is_ok() == (good && v <= 65535), "accepted iff one to five digits denoting at most 65535");
    if (r.is_ok()) {
        ENSURE(r.unwrap().value() == v, "decimal value");
        ENSURE(r.unwrap() == Port::from_uint16(static_cast<uint16_t>(v)), "equals the number");
        COVER("ok");
    } else {
        ENSURE(r.unwrap_err() == make_error_code(Error::invalid_port_value), "error");
        COVER("err");
    }
}
CONTRACT(port_too_long) {
    const auto n = vc::any_in<size_t>(6, 1000000, "n");
    const auto r = Port::from_string(vc::any_sv(n, "s"));
    ENSURE(r.is_err() && r.unwrap_err() == make_error_code(Error::invalid_port_value), "longer text is rejected");
    COVER("end");
}
CONTRACT(port_value) {
    const auto a = vc::any<uint16_t>("a"), b = vc::any<uint16_t>("b");
    ENSURE(Port(a).value() == a && Port::from_uint16(a).value() == a, "keeps its value");
    ENSURE((Port(a) == Port(b)) == (a == b), "equal iff same value");
    COVER("end");
}
