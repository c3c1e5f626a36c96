// When the client sends a request again, how long it waits, and when it gives up.
// SOURCES: util/util_hash_murmur.cpp stun/details/stun_client_udp_rto.cpp stun/stun_message.cpp stun/stun_method.cpp stun/stun_attribute_set.cpp stun/stun_header.cpp stun/stun_attribute.cpp stun/stun_address.cpp stun/stun_error.cpp stun/details/stun_fingerprint.cpp net/ip/ip_address.cpp net/net_error.cpp net/net_port.cpp util/util_error_code.cpp crypto/openssl/openssl_hash.cpp crypto/openssl/openssl_error.cpp stun/stun_password.cpp
// VC-LIBS: -lcrypto
// VC-STUB(.*): ^freewebrtc::stun::Message::build\(.* => vcstub_build
// VC-BOUNDED(schedule_whole): up to seven requests
// VC-BOUNDED(two_requests): two requests at a time
// VC-OPT(.*): time=300
#include "client.hpp"
using namespace cl;
// contract of Message::build (P23): some bytes
extern "C" Result<util::ByteVec> vcstub_build(const stun::Message*, const stun::MaybeIntegrity*) { return util::ByteVec(28); }
struct Setup {
    int64_t rto = any_duration("rto", 40) + 1;
    Rtx rtx;
    Settings s;
    bool capped = vc_fork(vc::any_bool("capped"));
    int64_t cap = any_duration("cap") + 1;
    Setup() {
        rtx.request_count = vc::any_in<unsigned>(1, 1000, "Rc");
        rtx.retransmission_multiplier = vc::any_in<unsigned>(1, 1000, "Rm");
        if (capped) rtx.max_rto = D(cap);
        s.rto_settings.initial_rto = D(rto);
    }
    void done() { s.retransmit = rtx; }
    int64_t limit(int64_t t) const { return capped && t > cap ? cap : t; }
};
CONTRACT(schedule_start) {
    Setup u;
    u.done();
    const uint64_t base = vc::any<uint64_t>("base");
    ClientUDP c(u.s);
    Random r;
    const auto h = c.create(r, at(base, 0), ClientUDP::Request{path(), {}, {}});
    ENSURE(h.is_ok(), "created");
    if (h.is_err()) return;
    const auto e = c.next(at(base, 0));
    ENSURE(is_send(e), "the request is sent at once");
    const int64_t first = u.rtx.request_count == 1 ? u.rto * u.rtx.retransmission_multiplier : u.rto;
    const int64_t t = any_duration("t", 48);
    const auto f = c.next(at(base, t));
    if (t < first) {
        ENSURE(is_sleep(f) && sleep(f) == first - t, "sleep until the timeout");
        COVER("sleep");
    } else if (u.rtx.request_count == 1) {
        ENSURE(is_timeout(f) && is_idle(c.next(at(base, t))), "given up after the only request");
        COVER("timeout");
    } else {
        ENSURE(is_send(f), "sent again");
        const int64_t again = u.limit(u.rtx.request_count == 2 ? u.rto * u.rtx.retransmission_multiplier : 2 * u.rto);
        const auto g = c.next(at(base, t));
        if (again > 0) ENSURE(is_sleep(g) && sleep(g) == again, "the second interval");
        COVER("retransmit");
    }
}

// any number of retransmissions so far, with any last interval: one more step
CONTRACT(schedule_step) {
    Setup u;
    u.done();
    const uint64_t base = vc::any<uint64_t>("base");
    ClientUDP c(u.s);
    Random r;
    const auto h = c.create(r, at(base, 0), ClientUDP::Request{path(), {}, {}});
    ENSURE(h.is_ok(), "created");
    if (h.is_err()) return;
    c.next(at(base, 0));
    unsigned k = 0, more = 0;
    int64_t last = u.rtx.request_count == 1 ? u.rto * u.rtx.retransmission_multiplier : u.rto;
    const int64_t due = last;
    auto state = [&](auto& c) -> decltype(auto) { return (c.m_tmap.find(h.unwrap())->second.rtx_algo); };
    auto open = [&](auto& c) {
        if constexpr (requires { state(c)->m_rtx_count; state(c)->m_5xx_count; state(c)->m_last_timeout; }) {
            state(c)->m_rtx_count = k = vc::any_in<unsigned>(0, 2000, "k");
            state(c)->m_5xx_count = more = vc::any_in<unsigned>(0, 1000, "more");
            state(c)->m_last_timeout = D(last = any_duration("last") + 1);
        }
    };
    open(c);
    const int64_t t = any_duration("late", 48) + due;
    const auto e = c.next(at(base, t));
    const unsigned requests = u.rtx.request_count + more;
    if (k + 1 >= requests) {
        ENSURE(is_timeout(e), "given up after the last request");
        ENSURE(is_idle(c.next(at(base, t))), "nothing follows");
        COVER("timeout");
        return;
    }
    ENSURE(is_send(e), "sent again");
    const int64_t again = u.limit(k + 2 == requests ? u.rto * u.rtx.retransmission_multiplier : 2 * last);
    const auto f = c.next(at(base, t));
    ENSURE(is_sleep(f) && sleep(f) == again, "the next interval: doubled, limited, and a multiple of the first one after the last request");
    auto after = [&](auto& c) {
        if constexpr (requires { state(c)->m_rtx_count; state(c)->m_last_timeout; })
            ENSURE(state(c)->m_rtx_count == k + 1 && state(c)->m_last_timeout.count() == again, "one more, with this interval");
    };
    after(c);
    COVER("retransmit");
}
// the whole schedule through the public interface
CONTRACT(schedule_whole) {
    Setup u;
    u.rtx.request_count = vc_fork(vc::any_in<unsigned>(1, 7, "count"));
    u.rtx.retransmission_multiplier = 16;
    u.done();
    const uint64_t base = vc::any<uint64_t>("base");
    ClientUDP c(u.s);
    Random r;
    ENSURE(c.create(r, at(base, 0), ClientUDP::Request{path(), {}, {}}).is_ok(), "created");
    int64_t t = 0, interval = u.rto;
    for (unsigned k = 1; k <= u.rtx.request_count; ++k) {
        const auto e = c.next(at(base, t));
        ENSURE(is_send(e), "a request is due");
        if (k == u.rtx.request_count) interval = k == 1 ? u.rto * 16 : u.limit(u.rto * 16);
        const auto f = c.next(at(base, t));
        ENSURE(is_sleep(f) && sleep(f) == interval, "the interval");
        t += interval;
        interval = u.limit(2 * interval);
    }
    ENSURE(is_timeout(c.next(at(base, t))) && is_idle(c.next(at(base, t))), "given up after the last wait");
    COVER("end");
}
// a 5xx response: repeated after the server error timeout, a limited number of times
CONTRACT(server_error) {
    Setup u;
    const bool wait = vc_fork(vc::any_bool("wait"));
    const int64_t pause = any_duration("pause", 40) + 1;
    if (wait) u.rtx.server_error_timeout = D(pause);
    u.rtx.server_error_max_retransmits = vc::any_in<unsigned>(0, 100, "max");
    u.rtx.request_count = 7;
    u.rtx.retransmission_multiplier = 16;
    u.done();
    const uint64_t base = vc::any<uint64_t>("base");
    ClientUDP c(u.s);
    Random r;
    const auto h = c.create(r, at(base, 0), ClientUDP::Request{path(), {}, {}});
    ENSURE(h.is_ok(), "created");
    if (h.is_err()) return;
    c.next(at(base, 0));
    unsigned before = 0;
    auto state = [&](auto& c) -> decltype(auto) { return (c.m_tmap.find(h.unwrap())->second.rtx_algo); };
    auto open = [&](auto& c) {
        if constexpr (requires { state(c)->m_5xx_count; }) state(c)->m_5xx_count = before = vc::any_in<unsigned>(0, 100, "before");
    };
    open(c);
    const int64_t t = int64_t(vc::any_in<uint64_t>(0, u.rto - 1, "t"));
    const unsigned code = vc::any_in<unsigned>(500, 599, "code");
    ENSURE(respond(c, at(base, t), failure(0, code)).is_ok(), "the response belongs to the request");
    if (!wait || before >= u.rtx.server_error_max_retransmits) {
        const auto e = c.next(at(base, t));
        ENSURE(is_failed(e), "the request has failed");
        if (!is_failed(e)) return;
        const auto* reason = std::get_if<ClientUDP::TransactionFailed::ErrorCode>(&std::get<ClientUDP::TransactionFailed>(e).reason);
        ENSURE(reason != nullptr && reason->attr.code == code, "with the error code of the response");
        COVER("failed");
        return;
    }
    const int64_t due = t + pause, early = int64_t(vc::any_in<uint64_t>(0, pause - 1, "early")) + t;
    const auto e = c.next(at(base, early));
    ENSURE(is_sleep(e), "nothing is sent before the server error timeout");
    if (is_sleep(e)) ENSURE(sleep(e) > 0 && sleep(e) <= due - early, "and the client does not oversleep it");
    const auto f = c.next(at(base, due));
    ENSURE(is_send(f), "then the request is sent again");
    const auto g = c.next(at(base, due));
    ENSURE(is_sleep(g), "once");
    COVER("repeated");
}
// two requests keep their own schedules
CONTRACT(two_requests) {
    Setup u;
    u.rtx.request_count = 7;
    u.rtx.retransmission_multiplier = 16;
    u.done();
    const uint64_t base = vc::any<uint64_t>("base");
    ClientUDP c(u.s);
    Random r;
    const auto h0 = c.create(r, at(base, 0), ClientUDP::Request{path(), {}, {}});
    ENSURE(h0.is_ok() && is_send(c.next(at(base, 0))), "first");
    const int64_t t1 = int64_t(vc::any_in<uint64_t>(1, u.rto - 1, "t1"));
    if (t1 >= u.rto) return;
    const auto h1 = c.create(r, at(base, t1), ClientUDP::Request{path(), {}, {}});
    ENSURE(h1.is_ok() && is_send(c.next(at(base, t1))), "second");
    const auto s = c.next(at(base, t1));
    ENSURE(is_sleep(s) && sleep(s) == u.rto - t1, "sleep until the earlier one");
    const auto e = c.next(at(base, u.rto));
    ENSURE(is_send(e) && std::get<ClientUDP::SendData>(e).handle == h0.unwrap(), "the first again");
    const int64_t again = u.limit(2 * u.rto), next = t1 + u.rto < u.rto + again ? t1 + u.rto : u.rto + again;
    const auto q = c.next(at(base, u.rto));
    ENSURE(is_sleep(q) && sleep(q) == next - u.rto, "sleep until the earlier one again");
    if (again > t1) {
        const auto f = c.next(at(base, t1 + u.rto));
        ENSURE(is_send(f) && std::get<ClientUDP::SendData>(f).handle == h1.unwrap(), "the second again");
        COVER("second");
    }
    COVER("end");
}
