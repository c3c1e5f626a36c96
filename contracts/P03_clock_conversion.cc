// Conversion of foreign clocks: nothing is lost, sub-microsecond parts are carried.
// VC-STUB(steady.*): ^std::chrono::_V2::steady_clock::now\(\)$ => vcstub_steady
#include "vc.hpp"
#include "clock/clock_timepoint.hpp"
#include "clock/clock_std.hpp"
using namespace freewebrtc::clock;
using namespace std::chrono;
static int64_t us(const Timepoint& t) { return (t - Timepoint::epoch()).count(); }
static constexpr int64_t LIM = int64_t(1) << 62;
using ns100 = duration<int64_t, std::ratio<1, 10000000>>;

template<typename D> static void from_fine(int64_t per_us) {
    const auto a = vc::any_in<int64_t>(0, LIM, "base_us");
    const auto c = vc::any<int64_t>("count");
    REQUIRE(c <= LIM && c >= -LIM);
    const Timepoint t = Timepoint::epoch().advance(microseconds(a));
    D d(c);
    const Timepoint r = t.advance_from(d);
    const int64_t moved = (r - t).count();
    ENSURE(moved == c / per_us, "advanced by the whole microseconds contained in the duration");
    ENSURE(d.count() == c - moved * per_us, "what was not consumed remains in the parameter");
    ENSURE(d.count() < per_us && d.count() > -per_us, "less than a microsecond remains");
    if (c < 0) COVER("negative"); else COVER("non-negative");
}
CONTRACT(advance_from_ns) { from_fine<nanoseconds>(1000); }
CONTRACT(advance_from_100ns) { from_fine<ns100>(10); }
template<typename D> static void from_coarse(uint64_t scale) {
    const auto a = vc::any<int64_t>("base_us");
    const auto c = vc::any<int64_t>("count");
    REQUIRE(c <= LIM / int64_t(scale) && c >= -(LIM / int64_t(scale)));
    const Timepoint t = Timepoint::epoch().advance(microseconds(a));
    D d(c);
    const Timepoint r = t.advance_from(d);
    ENSURE((r - t).count() == int64_t(uint64_t(c) * scale), "advanced by the whole duration");
    ENSURE(d.count() == 0, "nothing remains in the parameter");
    COVER("end");
}
CONTRACT(advance_from_us) { from_coarse<microseconds>(1); }
CONTRACT(advance_from_ms) { from_coarse<milliseconds>(1000); }
CONTRACT(advance_from_s) { from_coarse<seconds>(1000000); }
CONTRACT(advance_from_h) { from_coarse<hours>(3600000000ull); }

// ---- converter over an arbitrary clock
template<typename D> struct FakeClock {
    using duration = D;
    using rep = typename D::rep;
    using period = typename D::period;
    using time_point = std::chrono::time_point<FakeClock, D>;
    static inline D reading{0};
    static time_point now() { return time_point(reading); }
};
template<typename D> static void convert(int64_t per_us) {
    using C = FakeClock<D>;
    const auto r0 = vc::any_in<int64_t>(0, LIM, "r0");
    const auto r1 = vc::any_in<int64_t>(0, LIM, "r1");
    REQUIRE(r0 <= r1);
    C::reading = D(r0);
    ChronoClockConverter<C> conv;
    C::reading = D(r1);
    const int64_t n1 = us(conv.now());
    ENSURE(n1 == r1 / per_us, "converted reading is the clock's own microseconds");
    // induction over histories: the state only depends on the last reading
    C::reading = D(r1);
    ChronoClockConverter<C> fresh;
    ENSURE(sizeof(conv) == sizeof(fresh) && std::memcmp(&conv, &fresh, sizeof(conv)) == 0, "ind:state depends on the last reading only");
    COVER("end");
}
CONTRACT(converter_ns) { convert<nanoseconds>(1000); }
CONTRACT(converter_us) { convert<microseconds>(1); }
CONTRACT(converter_100ns) { convert<ns100>(10); }
CONTRACT(converter_ms) {
    using C = FakeClock<milliseconds>;
    const auto r0 = vc::any_in<int64_t>(0, LIM / 1000, "r0");
    const auto r1 = vc::any_in<int64_t>(0, LIM / 1000, "r1");
    C::reading = milliseconds(r0);
    ChronoClockConverter<C> conv;
    C::reading = milliseconds(r1);
    ENSURE(us(conv.now()) == r1 * 1000, "converted reading is the clock's own microseconds");
    COVER("end");
}
CONTRACT(converter_any_direction) {
    // readings may step backwards and be negative: the error stays below one microsecond
    using C = FakeClock<nanoseconds>;
    int64_t r[3];
    for (auto& x : r) { x = static_cast<int64_t>(vc::any<int32_t>("r")) ; }
    C::reading = nanoseconds(r[0]);
    ChronoClockConverter<C> conv;
    for (int i = 1; i < 3; ++i) {
        C::reading = nanoseconds(r[i]);
        const int64_t err = r[i] - us(conv.now()) * 1000;
        ENSURE(err < 1000 && err > -1000, "converted reading is within a microsecond of the clock");
    }
    COVER("end");
}
CONTRACT(converter_monotone) {
    using C = FakeClock<nanoseconds>;
    int64_t r[4];
    for (auto& x : r) x = vc::any_in<int64_t>(0, int64_t(1) << 40, "r");
    REQUIRE(r[0] <= r[1] && r[1] <= r[2] && r[2] <= r[3]);
    C::reading = nanoseconds(r[0]);
    ChronoClockConverter<C> conv;
    C::reading = nanoseconds(r[1]);
    const auto a = conv.now();
    C::reading = nanoseconds(r[2]);
    const auto b = conv.now();
    C::reading = nanoseconds(r[3]);
    const auto c = conv.now();
    ENSURE(!b.is_before(a) && !c.is_before(b), "converted time never goes back");
    ENSURE(us(c) == r[3] / 1000, "no drift over three readings");
    COVER("end");
}
static int64_t steady_reading[3];
static int steady_calls;
extern "C" int64_t vcstub_steady() { return steady_reading[steady_calls++]; }
CONTRACT(steady_monotone) {
    if (vc_symbolic()) {
        for (auto& x : steady_reading) x = static_cast<int64_t>(vc_any(64, "steady"));
        REQUIRE(steady_reading[0] >= 0 && steady_reading[2] < LIM && steady_reading[0] <= steady_reading[1] && steady_reading[1] <= steady_reading[2]);
    }
    const auto a = steady_clock_now();
    const auto b = steady_clock_now();
    ENSURE(!b.is_before(a), "library time never goes back");
    COVER("end");
}
