// Numeric and opaque fields of a candidate line: component id, foundation, priority.
// Every string length is covered: the accepted ones one by one, all longer ones by a symbolic length.
// SOURCES: ice/candidate/ice_candidate_component_id.cpp ice/candidate/ice_candidate_foundation.cpp ice/candidate/ice_candidate_priority.cpp ice/candidate/ice_candidate_error.cpp
#include "vc.hpp"
#include "ice/candidate/ice_candidate_component_id.hpp"
#include "ice/candidate/ice_candidate_foundation.hpp"
#include "ice/candidate/ice_candidate_priority.hpp"
#include "ice/candidate/ice_candidate_error.hpp"
using namespace freewebrtc::ice::candidate;
static bool digit(char c) { return '0' <= c && c <= '9'; }
static bool ice_char(char c) { return digit(c) || ('a' <= c && c <= 'z') || ('A' <= c && c <= 'Z') || c == '+' || c == '/'; }
static bool all_digits(std::string_view s) {
    bool r = true;
    for (char c: s) r = r & digit(c);
    return r;
}
static uint64_t decimal(std::string_view s) {
    uint64_t v = 0;
    for (char c: s) v = v * 10 + (static_cast<unsigned char>(c) - '0');
    return v;
}
CONTRACT(component_from_unsigned) {
    const auto v = vc::any<unsigned>("v");
    const auto r = ComponentId::from_unsigned(v);
    ENSURE(r.is_ok() == (1 <= v && v <= 256), "accepted iff 1..256");
    if (r.is_ok()) {
        ENSURE(r.unwrap().value() == v, "keeps its value");
        COVER("ok");
    } else {
        ENSURE(r.unwrap_err() == make_error_code(Error::invalid_component_id_value), "error names the value");
        COVER("err");
    }
}
CONTRACT(component_from_string) {
    const auto n = vc_fork(vc::any_in<size_t>(0, 3, "n"));
    const auto s = vc::any_sv(n, "s");
    const auto r = ComponentId::from_string(s);
    ENSURE(r.is_ok() == (n >= 1 && all_digits(s)), "accepted iff one to three digits");
    if (r.is_ok()) {
        ENSURE(r.unwrap().value() == decimal(s), "decimal value");
        COVER("ok");
    } else {
        ENSURE(r.unwrap_err() == make_error_code(n == 0 ? Error::invalid_component_id_length : Error::invalid_component_id_char), "error names the defect");
        COVER("err");
    }
}
CONTRACT(component_too_long) {
    const auto n = vc::any_in<size_t>(4, 1000000, "n");
    const auto r = ComponentId::from_string(vc::any_sv(n, "s"));
    ENSURE(r.is_err() && r.unwrap_err() == make_error_code(Error::invalid_component_id_length), "longer text is rejected");
    COVER("end");
}
CONTRACT(component_equality) {
    const auto a = vc::any_in<unsigned>(1, 256, "a"), b = vc::any_in<unsigned>(1, 256, "b");
    ENSURE((ComponentId::from_unsigned(a).unwrap() == ComponentId::from_unsigned(b).unwrap()) == (a == b), "equal iff same value");
    COVER("end");
}
CONTRACT(foundation_from_string) {
    const auto n = vc_fork(vc::any_in<size_t>(0, 32, "n"));
    const auto s = vc::any_sv(n, "s");
    bool good = n >= 1;
    for (char c: s) good = good & ice_char(c);
    const auto r = Foundation::from_string(s);
    ENSURE(r.is_ok() == good, "accepted iff one to 32 ice characters");
    if (r.is_ok()) {
        ENSURE(r.unwrap().to_string() == s, "keeps its text");
        ENSURE(r.unwrap() == Foundation::from_string(s).unwrap(), "equal to itself");
        COVER("ok");
    } else {
        ENSURE(r.unwrap_err() == make_error_code(n == 0 ? Error::invalid_foundation_length : Error::invalid_foundation_char), "error names the defect");
        COVER("err");
    }
}
CONTRACT(foundation_too_long) {
    const auto n = vc::any_in<size_t>(33, 1000000, "n");
    const auto r = Foundation::from_string(vc::any_sv(n, "s"));
    ENSURE(r.is_err() && r.unwrap_err() == make_error_code(Error::invalid_foundation_length), "longer text is rejected");
    COVER("end");
}
CONTRACT(priority_from_uint32) {
    const auto v = vc::any<uint32_t>("v"), w = vc::any<uint32_t>("w");
    const auto r = Priority::from_uint32(v), q = Priority::from_uint32(w);
    ENSURE(r.is_ok() == (v != 0), "every value but zero");
    if (r.is_err()) {
        ENSURE(r.unwrap_err() == make_error_code(Error::invalid_priority_value), "error names the value");
        COVER("zero");
    } else if (q.is_ok()) {
        ENSURE((r.unwrap() == q.unwrap()) == (v == w), "equal iff same value");
        COVER("ok");
    }
}
CONTRACT(priority_from_string) {
    const auto n = vc_fork(vc::any_in<size_t>(0, 10, "n"));
    const auto s = vc::any_sv(n, "s");
    const auto r = Priority::from_string(s);
    const bool good = n >= 1 && all_digits(s);
    const uint64_t v = decimal(s);
    ENSURE(r.is_ok() == (good && v >= 1 && v <= 0xFFFFFFFFull), "accepted iff one to ten digits denoting a non-zero 32-bit number");
    if (r.is_ok()) {
        ENSURE(r.unwrap() == Priority::from_uint32(static_cast<uint32_t>(v)).unwrap(), "decimal value");
        COVER("ok");
    } else {
        ENSURE(r.unwrap_err() == make_error_code(n == 0 ? Error::invalid_priority_length : Error::invalid_priority_value), "error names the defect");
        COVER("err");
    }
}
CONTRACT(priority_too_long) {
    const auto n = vc::any_in<size_t>(11, 1000000, "n");
    const auto r = Priority::from_string(vc::any_sv(n, "s"));
    ENSURE(r.is_err() && r.unwrap_err() == make_error_code(Error::invalid_priority_length), "longer text is rejected");
    COVER("end");
}
