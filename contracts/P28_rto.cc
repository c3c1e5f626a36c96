// Retransmission timeout of a network path: RFC 6298 smoothing, Karn's rule for backoff, expiry of old paths.
// SOURCES: util/util_hash_murmur.cpp stun/details/stun_client_udp_rto.cpp net/ip/ip_address.cpp net/net_error.cpp util/util_error_code.cpp
// VC-BOUNDED(history.*): three reports on two paths
// VC-OPT(.*): time=300
// VC-OPT(history): fuzz=5
#include "vc.hpp"
#include <array>
#include <cmath>
#include <chrono>
#include <functional>
#include <memory>
#include <optional>
#include <queue>
#include <random>
#include <ranges>
#include <sstream>
#include <unordered_map>
#include <variant>
#include <vector>
#include "util/util_intrusive_list.hpp"
#include "net/net_path.hpp"
#include "net/net_path_hash.hpp"
#include "stun/stun_client_udp_settings.hpp"
// the state of the calculator is set up directly where it still has the members named below
#define private public
#include "stun/details/stun_client_udp_rto.hpp"
#undef private
using namespace freewebrtc;
using Calc = stun::details::ClientUDPRtoCalculator;
using D = Calc::Duration;
using T = Calc::Timepoint;
static net::Path path(uint8_t last) {
    const uint8_t s[4] = {192, 168, 0, 1}, t[4] = {192, 168, 0, last};
    auto addr = [](const uint8_t* b) { return net::ip::Address::move_from_v4(net::ip::AddressV4::from_view(util::ConstBinaryView(b, 4)).unwrap()); };
    return net::Path{addr(s), addr(t)};
}
// durations a caller can measure: up to a hundred thousand years
static int64_t any_duration(const char* name) { return int64_t(vc::any_in<uint64_t>(0, uint64_t(1) << 50, name)); }
static T at(uint64_t base, int64_t t) { return T::epoch().advance(D(int64_t(base))).advance(D(t)); }
// what a path is known for
struct Known {
    bool known = false, smooth = false, backoff = false;
    int64_t last = 0, srtt = 0, var = 0, b = 0;
};
struct World {
    Known p[2];
    int64_t initial, history;
    void expire(int64_t now) { for (auto& k : p) if (k.known && now - k.last > history) k = Known{}; }
    void new_rtt(int64_t now, int i, int64_t r) {
        expire(now);
        Known& k = p[i];
        k.known = true; k.last = now; k.backoff = false;
        if (!k.smooth) { k.smooth = true; k.srtt = r; k.var = r / 2; return; }
        int64_t d = k.srtt - r;
        if (d < 0) d = -d;
        k.var = (3 * k.var + d) / 4;
        k.srtt = (7 * k.srtt + r) / 8;
    }
    void backoff(int64_t now, int i, int64_t b) {
        expire(now);
        p[i].known = true; p[i].last = now; p[i].backoff = true; p[i].b = b;
    }
    int64_t rto(int i) const { return p[i].backoff ? p[i].b : p[i].smooth ? p[i].srtt + 4 * p[i].var : initial; }
};
static Calc::Settings settings(const World& w) {
    Calc::Settings s;
    s.initial_rto = D(w.initial);
    s.history_duration = D(w.history);
    return s;
}
static World any_world() {
    World w;
    w.initial = any_duration("initial");
    w.history = any_duration("history");
    return w;
}
static void agree(const Calc& c, const World& w) {
    ENSURE(c.rto(path(1)).count() == w.rto(0), "the timeout of the path reported on");
    ENSURE(c.rto(path(2)).count() == w.rto(1), "the timeout of the other path");
}
CONTRACT(unknown) {
    const World w = any_world();
    Calc c(settings(w));
    agree(c, w);
    COVER("end");
}
CONTRACT(first) {
    World w = any_world();
    const uint64_t base = vc::any<uint64_t>("base");
    Calc c(settings(w));
    const int64_t r = any_duration("r");
    if (vc_fork(vc::any_bool("backoff"))) {
        c.backoff(at(base, 0), path(1), D(r));
        ENSURE(c.rto(path(1)).count() == r, "a backoff counts as it is");
        w.backoff(0, 0, r);
        COVER("backoff");
    } else {
        c.new_rtt(at(base, 0), path(1), D(r));
        ENSURE(c.rto(path(1)).count() == r + 4 * (r / 2), "the first measurement: SRTT + 4 * RTTVAR, RTTVAR half of it");
        w.new_rtt(0, 0, r);
        COVER("measurement");
    }
    agree(c, w);
}
// any state of the two paths reached at the times of the last reports, in either order: how each is known is arbitrary
template<typename C> static void set_up(C& c, World& w, uint64_t base, int64_t t0, int64_t t1, bool swapped) {
    for (int k = 0; k < 2; ++k) {
        const int i = swapped ? 1 - k : k;
        const int64_t t = k ? t1 : t0;
        if (!vc_fork(vc::any_bool("known"))) continue;
        c.new_rtt(at(base, t), path(i + 1), D(0));
        w.new_rtt(t, i, 0);
        if (w.history < 0) continue;
        if constexpr (requires { c.m_by_path.find(path(1))->second.smooth.unwrap().srtt; c.m_by_path.find(path(1))->second.backoff.unwrap(); }) {
            if (!w.p[i].known) continue;
            auto it = c.m_by_path.find(path(i + 1));
            if (it == c.m_by_path.end()) continue;
            auto& d = it->second;
            Known& n = w.p[i];
            using Smooth = std::remove_cvref_t<decltype(d.smooth.unwrap())>;
            n.smooth = vc_fork(vc::any_bool("smooth"));
            n.backoff = vc_fork(vc::any_bool("backed off")) || !n.smooth;
            if (n.smooth) {
                n.srtt = any_duration("srtt");
                n.var = any_duration("var");
                d.smooth = Smooth{D(n.srtt), D(n.var)};
            } else d.smooth = none();
            if (n.backoff) { n.b = any_duration("b"); d.backoff = D(n.b); }
            else d.backoff = none();
        }
    }
}
static void step(bool swapped) {
    World w = any_world();
    const uint64_t base = vc::any<uint64_t>("base");
    const int64_t t0 = 0, t1 = any_duration("t1"), now = any_duration("t2") + t1;
    Calc c(settings(w));
    set_up(c, w, base, t0, t1, swapped);
    const int64_t v = any_duration("v");
    if (vc_fork(vc::any_bool("op"))) {
        c.new_rtt(at(base, now), path(1), D(v));
        w.new_rtt(now, 0, v);
        COVER("measurement");
    } else {
        c.backoff(at(base, now), path(1), D(v));
        w.backoff(now, 0, v);
        COVER("backoff");
    }
    agree(c, w);
    // what is kept for later: the next reliable measurement ends the backoff
    if (w.p[0].backoff) {
        const int64_t v2 = any_duration("v2"), later = any_duration("t3") + now;
        c.new_rtt(at(base, later), path(1), D(v2));
        w.new_rtt(later, 0, v2);
        agree(c, w);
        COVER("then a measurement");
    }
}
CONTRACT(step_older) { step(false); }
CONTRACT(step_newer) { step(true); }
CONTRACT(history) {
    World w = any_world();
    const uint64_t base = vc::any<uint64_t>("base");
    Calc c(settings(w));
    int64_t now = 0;
    for (int k = 0; k < 3; ++k) {
        now += any_duration("dt");
        const unsigned op = vc_fork(vc::any_in<unsigned>(0, 3, "op"));
        const int i = op & 1;
        const int64_t v = any_duration("v");
        if (op & 2) { c.new_rtt(at(base, now), path(i + 1), D(v)); w.new_rtt(now, i, v); }
        else { c.backoff(at(base, now), path(i + 1), D(v)); w.backoff(now, i, v); }
        agree(c, w);
    }
    COVER("end");
}
