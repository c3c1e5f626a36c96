// STUN message type: class and method fields.
// SOURCES: stun/stun_method.cpp
#include "vc.hpp"
#include "stun/stun_class.hpp"
#include "stun/stun_method.hpp"
using namespace freewebrtc::stun;
// M11..M7 C1 M6..M4 C0 M3..M0
static unsigned spec_class(uint16_t mt) { return ((mt >> 4) & 1) | (((mt >> 8) & 1) << 1); }
static unsigned spec_method(uint16_t mt) { return (mt & 0xF) | (((mt >> 5) & 7) << 4) | (((mt >> 9) & 0x1F) << 7); }
static Class cls(unsigned k) {
    switch (k) {
    case 0: return Class::request();
    case 1: return Class::indication();
    case 2: return Class::success_response();
    default: return Class::error_response();
    }
}
CONTRACT(class_decode) {
    const auto mt = vc::any<uint16_t>("msg_type");
    const Class c = Class::from_msg_type(mt);
    ENSURE(c.value() == spec_class(mt), "class is bits 4 and 8");
    ENSURE(c == cls(spec_class(mt)), "class equals the named class");
    COVER("end");
}
CONTRACT(method_decode) {
    const auto mt = vc::any<uint16_t>("msg_type");
    REQUIRE(mt < 0x4000);
    const unsigned m = spec_method(mt);
    ENSURE(Method::from_msg_type(mt).to_msg_type() == ((m & 0xF) | (((m >> 4) & 7) << 5) | ((m >> 7) << 9)), "method is the twelve non-class bits");
    COVER("end");
}
CONTRACT(class_named) {
    ENSURE(Class::request().value() == 0 && Class::indication().value() == 1 && Class::success_response().value() == 2 && Class::error_response().value() == 3, "named classes");
    ENSURE(Class::request().to_msg_type() == 0 && Class::indication().to_msg_type() == 0x10 && Class::success_response().to_msg_type() == 0x100 && Class::error_response().to_msg_type() == 0x110, "class encodings");
    COVER("end");
}
CONTRACT(binding_method) {
    ENSURE(Method::binding().to_msg_type() == 1, "binding is method 1");
    ENSURE(Method::from_msg_type(0x0101) == Method::binding() && Method::from_msg_type(0x0111) == Method::binding() && Method::from_msg_type(0x0011) == Method::binding(), "binding recognised in every class");
    COVER("end");
}
CONTRACT(decode_encode) {
    const auto mt = vc::any<uint16_t>("msg_type");
    REQUIRE(mt < 0x4000);
    const uint16_t back = Class::from_msg_type(mt).to_msg_type() | Method::from_msg_type(mt).to_msg_type();
    ENSURE(back == mt, "decoding then encoding is the identity");
    COVER("end");
}
CONTRACT(encode_decode) {
    const auto k = vc::any_in<unsigned>(0, 3, "class");
    const auto mt = vc::any<uint16_t>("method_source");
    REQUIRE(mt < 0x4000);
    const Class c = cls(k);
    const Method m = Method::from_msg_type(mt);
    const uint16_t t = c.to_msg_type() | m.to_msg_type();
    ENSURE(t < 0x4000, "top two bits stay zero");
    ENSURE((c.to_msg_type() & m.to_msg_type()) == 0, "class and method bits are disjoint");
    ENSURE(c.to_msg_type() == (((k & 1) << 4) | ((k >> 1) << 8)), "class encoding");
    ENSURE(m.to_msg_type() == (mt & 0x3EEF), "method encoding");
    ENSURE(Class::from_msg_type(t) == c && Method::from_msg_type(t) == m, "encoding then decoding is the identity");
    COVER("end");
}
CONTRACT(independence) {
    const auto a = vc::any<uint16_t>("a"), b = vc::any<uint16_t>("b");
    REQUIRE(a < 0x4000 && b < 0x4000);
    ENSURE((Class::from_msg_type(a) == Class::from_msg_type(b)) == ((a & 0x0110) == (b & 0x0110)), "class depends on the class bits only");
    ENSURE((Method::from_msg_type(a) == Method::from_msg_type(b)) == ((a & 0x3EEF) == (b & 0x3EEF)), "method depends on the method bits only");
    ENSURE((Method::from_msg_type(a) != Method::from_msg_type(b)) == ((a & 0x3EEF) != (b & 0x3EEF)), "method inequality");
    if ((a & 0x3EEF) == (b & 0x3EEF)) COVER("same method"); else COVER("different method");
}
