// Time points: advancing and subtracting are exact 64-bit microsecond arithmetic.
#include "vc.hpp"
#include "clock/clock_timepoint.hpp"
using freewebrtc::clock::Timepoint;
using namespace std::chrono;

static Timepoint at(int64_t us) { return Timepoint::epoch().advance(microseconds(us)); }
static uint64_t raw(const Timepoint& t) { return static_cast<uint64_t>((t - Timepoint::epoch()).count()); }

template<typename D, typename Rep> static void advance_exact(uint64_t scale) {
    const auto a = vc::any<int64_t>("base_us");
    const auto d = vc::any<Rep>("count");
    const Timepoint t = at(a);
    const Timepoint r = t.advance(D(d));
    const uint64_t shift = static_cast<uint64_t>(static_cast<int64_t>(d)) * scale;
    ENSURE(raw(r) == static_cast<uint64_t>(a) + shift, "advanced by exactly the duration, modulo 2^64");
    ENSURE((r - t).count() == static_cast<int64_t>(shift), "difference equals the duration");
    ENSURE((t - r).count() == static_cast<int64_t>(-shift), "opposite difference");
    ENSURE(raw(t) == static_cast<uint64_t>(a), "operand unchanged");
    COVER("end");
}
CONTRACT(advance_us) { advance_exact<microseconds, int64_t>(1); }
CONTRACT(advance_ms) { advance_exact<milliseconds, int64_t>(1000); }
CONTRACT(advance_s) { advance_exact<seconds, int64_t>(1000000); }
CONTRACT(advance_min) { advance_exact<minutes, int64_t>(60000000ull); }
CONTRACT(advance_h) { advance_exact<hours, int64_t>(3600000000ull); }
CONTRACT(advance_ms_int32) { advance_exact<duration<int32_t, std::milli>, int32_t>(1000); }
CONTRACT(advance_s_uint32) {
    const auto a = vc::any<int64_t>("base_us");
    const auto d = vc::any<uint32_t>("count");
    ENSURE(raw(at(a).advance(duration<uint32_t>(d))) == uint64_t(a) + uint64_t(d) * 1000000, "advanced by exactly the duration, modulo 2^64");
    COVER("end");
}
CONTRACT(advance_native) {
    const auto a = vc::any<int64_t>("base_us"), d = vc::any<int64_t>("d");
    ENSURE(raw(at(a).advance(Timepoint::Duration(d))) == uint64_t(a) + uint64_t(d), "advanced by exactly the duration, modulo 2^64");
    ENSURE(raw(at(a).advance(freewebrtc::clock::NativeDuration(d))) == uint64_t(a) + uint64_t(d), "advanced by exactly the duration, modulo 2^64");
    COVER("end");
}
CONTRACT(difference) {
    const auto a = vc::any<int64_t>("a"), b = vc::any<int64_t>("b");
    const Timepoint x = at(a), y = at(b);
    ENSURE((x - y).count() == static_cast<int64_t>(uint64_t(a) - uint64_t(b)), "signed difference modulo 2^64");
    ENSURE((x - x).count() == 0, "self difference is zero");
    ENSURE(y.advance(x - y) == x, "difference leads back");
    ENSURE((x == y) == (a == b), "equality of instants");
    ENSURE((x != y) == (a != b), "inequality of instants");
    COVER("end");
}
CONTRACT(group_laws) {
    const auto a = vc::any<int64_t>("a"), d = vc::any<int64_t>("d"), e = vc::any<int64_t>("e");
    const Timepoint x = at(a);
    ENSURE(x.advance(microseconds(0)) == x, "zero is neutral");
    ENSURE(x.advance(milliseconds(d)).advance(seconds(e)) == x.advance(seconds(e)).advance(milliseconds(d)), "advances commute");
    REQUIRE(d != INT64_MIN);
    ENSURE(x.advance(microseconds(d)).advance(microseconds(-d)) == x, "opposite durations cancel");
    COVER("end");
}
CONTRACT(epoch_copies) {
    const auto a = vc::any<int64_t>("a"), b = vc::any<int64_t>("b");
    ENSURE(raw(Timepoint::epoch()) == 0, "epoch is the origin");
    Timepoint x = at(a);
    Timepoint y = x;
    y = at(b);
    ENSURE(raw(x) == uint64_t(a) && raw(y) == uint64_t(b), "copies are independent");
    Timepoint z(std::move(y));
    x = std::move(z);
    ENSURE(raw(x) == uint64_t(b), "moves preserve");
    COVER("end");
}
