// Time points: wrap-safe ordering.
#include "vc.hpp"
#include "clock/clock_timepoint.hpp"
using freewebrtc::clock::Timepoint;
using namespace std::chrono;
static Timepoint at(uint64_t us) { return Timepoint::epoch().advance(microseconds(static_cast<int64_t>(us))); }
static constexpr uint64_t HALF = uint64_t(1) << 63;

CONTRACT(order_is_sign_of_difference) {
    const auto a = vc::any<uint64_t>("a"), b = vc::any<uint64_t>("b");
    REQUIRE(a - b != HALF);
    const Timepoint x = at(a), y = at(b);
    const int64_t diff = static_cast<int64_t>(a - b);
    ENSURE(x.is_after(y) == (diff > 0), "after iff positive difference");
    ENSURE(x.is_before(y) == (diff < 0), "before iff negative difference");
    ENSURE(int(x.is_after(y)) + int(x.is_before(y)) + int(x == y) == 1, "exactly one of before, equal, after");
    ENSURE(x.is_after(y) == y.is_before(x), "after mirrors before");
    ENSURE((x - y).count() == diff, "difference agrees with the order");
    if (x.is_after(y)) { COVER("after"); } else if (x == y) { COVER("equal"); } else { COVER("before"); }
}
CONTRACT(irreflexive) {
    const Timepoint x = at(vc::any<uint64_t>("a"));
    ENSURE(!x.is_after(x) && !x.is_before(x) && x == x, "no point is before or after itself");
    COVER("end");
}
CONTRACT(order_follows_advance) {
    // across the wrap: any point advanced by d>0 (below half the range) is after the original
    const auto a = vc::any<uint64_t>("a");
    const auto d = vc::any_in<uint64_t>(1, HALF - 1, "d");
    const Timepoint x = at(a), y = x.advance(microseconds(static_cast<int64_t>(d)));
    ENSURE(y.is_after(x) && x.is_before(y) && !y.is_before(x) && !x.is_after(y) && !(x == y), "advanced point is after");
    const Timepoint z = x.advance(microseconds(-static_cast<int64_t>(d)));
    ENSURE(z.is_before(x) && x.is_after(z) && !z.is_after(x), "moved back point is before");
    if (a + d < a) COVER("wrapped"); else COVER("not wrapped");
}
CONTRACT(translation_invariant) {
    const auto a = vc::any<uint64_t>("a"), b = vc::any<uint64_t>("b");
    const auto s = vc::any<int64_t>("shift");
    const Timepoint x = at(a), y = at(b), xs = x.advance(microseconds(s)), ys = y.advance(microseconds(s));
    ENSURE(x.is_after(y) == xs.is_after(ys) && x.is_before(y) == xs.is_before(ys) && (x == y) == (xs == ys), "order unchanged by a common shift");
    ENSURE(x - y == xs - ys, "difference unchanged by a common shift");
    COVER("end");
}
CONTRACT(transitive_in_window) {
    const auto a = vc::any<uint64_t>("a");
    const auto d1 = vc::any_in<uint64_t>(1, HALF - 1, "d1"), d2 = vc::any_in<uint64_t>(1, HALF - 1, "d2");
    REQUIRE(d1 + d2 < HALF);
    const Timepoint x = at(a), y = at(a + d1), z = at(a + d1 + d2);
    ENSURE(y.is_after(x) && z.is_after(y) && z.is_after(x), "order is transitive inside half the range");
    COVER("end");
}
