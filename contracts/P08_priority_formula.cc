// Candidate priority: RFC 8445 5.1.2.1 over validated preferences.
// SOURCES: ice/candidate/ice_candidate_preference.cpp ice/candidate/ice_candidate_priority.cpp ice/candidate/ice_candidate_component_id.cpp ice/candidate/ice_candidate_error.cpp
#include "vc.hpp"
#include "ice/candidate/ice_candidate_preference.hpp"
#include "ice/candidate/ice_candidate_error.hpp"
using namespace freewebrtc::ice::candidate;
CONTRACT(type_preference) {
    const auto v = vc::any<unsigned>("v");
    const auto r = TypePreference::from_unsigned(v);
    ENSURE(r.is_ok() == (v <= 126), "accepted iff 0..126");
    if (r.is_ok()) { ENSURE(r.unwrap().value() == v, "keeps its value"); COVER("ok"); }
    else { ENSURE(r.unwrap_err() == make_error_code(Error::invalid_type_preference_value), "error"); COVER("err"); }
}
CONTRACT(local_preference) {
    const auto v = vc::any<unsigned>("v");
    const auto r = LocalPreference::from_unsigned(v);
    ENSURE(r.is_ok() == (v <= 65535), "accepted iff 0..65535");
    if (r.is_ok()) { ENSURE(r.unwrap().value() == v, "keeps its value"); COVER("ok"); }
    else { ENSURE(r.unwrap_err() == make_error_code(Error::invalid_local_preference_value), "error"); COVER("err"); }
}
CONTRACT(component_preference) {
    const auto v = vc::any<unsigned>("v");
    const auto r = ComponentPreference::from_unsigned(v);
    ENSURE(r.is_ok() == (v <= 255), "accepted iff 0..255");
    if (r.is_ok()) { ENSURE(r.unwrap().value() == v, "keeps its value"); COVER("ok"); }
    else { ENSURE(r.unwrap_err() == make_error_code(Error::invalid_component_preference_value), "error"); COVER("err"); }
}
CONTRACT(recommended) {
    ENSURE(TypePreference::recommended_for(Type::host()).value() == 126, "host");
    ENSURE(TypePreference::recommended_for(Type::peer_reflexive()).value() == 110, "peer reflexive");
    ENSURE(TypePreference::recommended_for(Type::server_reflexive()).value() == 100, "server reflexive");
    ENSURE(TypePreference::recommended_for(Type::relayed()).value() == 0, "relayed");
    const auto id = vc::any_in<unsigned>(1, 256, "component");
    ENSURE(ComponentPreference::recommended_for(ComponentId::from_unsigned(id).unwrap()).value() == 256 - id, "component term is 256 minus the id");
    COVER("end");
}
CONTRACT(formula) {
    const auto t = vc::any_in<unsigned>(0, 126, "type"), l = vc::any_in<unsigned>(0, 65535, "local"), c = vc::any_in<unsigned>(1, 256, "component");
    const Preference p{TypePreference::from_unsigned(t).unwrap(), LocalPreference::from_unsigned(l).unwrap(), ComponentPreference::recommended_for(ComponentId::from_unsigned(c).unwrap())};
    const uint64_t want = (uint64_t(1) << 24) * t + (uint64_t(1) << 8) * l + (256 - c);
    const auto r = p.to_priority();
    ENSURE(r.is_ok() == (want != 0), "a priority exists unless the formula gives zero");
    if (r.is_ok()) {
        ENSURE(want <= 0x7FFFFFFF, "the formula fits 31 bits");
        ENSURE(r.unwrap() == Priority::from_uint32(static_cast<uint32_t>(want)).unwrap(), "priority = 2^24*type + 2^8*local + (256 - component)");
        COVER("ok");
    } else {
        COVER("zero");
    }
}
CONTRACT(formula_any_component_preference) {
    const auto t = vc::any_in<unsigned>(0, 126, "type"), l = vc::any_in<unsigned>(0, 65535, "local"), c = vc::any_in<unsigned>(0, 255, "component");
    const Preference p{TypePreference::from_unsigned(t).unwrap(), LocalPreference::from_unsigned(l).unwrap(), ComponentPreference::from_unsigned(c).unwrap()};
    const uint32_t want = t * 16777216u + l * 256u + c;
    const auto r = p.to_priority();
    ENSURE(r.is_ok() == (want != 0), "a priority exists unless the formula gives zero");
    if (r.is_ok()) { ENSURE(r.unwrap() == Priority::from_uint32(want).unwrap(), "fields do not overlap"); COVER("ok"); }
}
CONTRACT(ordering) {
    // injective: different preference triples never get the same priority
    unsigned t[2], l[2], c[2];
    for (int i = 0; i < 2; ++i) { t[i] = vc::any_in<unsigned>(0, 126, "type"); l[i] = vc::any_in<unsigned>(0, 65535, "local"); c[i] = vc::any_in<unsigned>(1, 256, "component"); }
    REQUIRE(t[0] != t[1] || l[0] != l[1] || c[0] != c[1]);
    auto mk = [&](int i) {
        return Preference{TypePreference::from_unsigned(t[i]).unwrap(), LocalPreference::from_unsigned(l[i]).unwrap(), ComponentPreference::recommended_for(ComponentId::from_unsigned(c[i]).unwrap())}.to_priority();
    };
    const auto a = mk(0), b = mk(1);
    if (a.is_ok() && b.is_ok()) { ENSURE(!(a.unwrap() == b.unwrap()), "distinct triples get distinct priorities"); COVER("both"); }
}
