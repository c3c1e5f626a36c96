// STUN attribute types and request handles: exact identity, comprehension split, hashing.
#include "vc.hpp"
#include <compare>
#include "stun/stun_attribute_type.hpp"
#include "stun/stun_client_udp_handle.hpp"
using namespace freewebrtc::stun;
CONTRACT(attribute_type) {
    const auto a = vc::any<uint16_t>("a"), b = vc::any<uint16_t>("b");
    const AttributeType x = AttributeType::from_uint16(a), y = AttributeType::from_uint16(b);
    ENSURE(x.value() == a, "keeps its number");
    ENSURE((x == y) == (a == b), "equal iff same number");
    ENSURE(x.is_comprehension_required() == (a < 0x8000), "required iff below 0x8000");
    if (a == b) {
        ENSURE(std::hash<AttributeType>()(x) == std::hash<AttributeType>()(y), "equal types hash equally");
        COVER("equal");
    } else {
        COVER("different");
    }
    if (a < 0x8000) COVER("required"); else COVER("optional");
}
CONTRACT(hash_deterministic) {
    const auto a = vc::any<uint16_t>("a");
    const AttributeType x = AttributeType::from_uint16(a);
    const auto h = std::hash<AttributeType>()(x);
    AttributeType y = AttributeType::from_uint16(vc::any<uint16_t>("other"));
    y = x;
    ENSURE(std::hash<AttributeType>()(y) == h && y.value() == a && y == x, "copy is indistinguishable");
    COVER("end");
}
CONTRACT(handle) {
    using namespace client_udp;
    const auto a = vc::any<unsigned>("a"), b = vc::any<unsigned>("b");
    if (a == b) {
        ENSURE(HandleHash()(Handle{a}) == HandleHash()(Handle{b}), "equal handles hash equally");
        COVER("equal");
    } else {
        const auto h = HandleHash()(Handle{a});
        (void)HandleHash()(Handle{b});
        ENSURE(HandleHash()(Handle{a}) == h, "hash depends on the handle only");
        COVER("different");
    }
}
