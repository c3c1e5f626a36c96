// The life of a request: what the client reports about it, in which order, and that it ends once.
// SOURCES: util/util_hash_murmur.cpp stun/details/stun_client_udp_rto.cpp stun/stun_message.cpp stun/stun_method.cpp stun/stun_attribute_set.cpp stun/stun_header.cpp stun/stun_attribute.cpp stun/stun_address.cpp stun/stun_error.cpp stun/details/stun_fingerprint.cpp net/ip/ip_address.cpp net/net_error.cpp net/net_port.cpp util/util_error_code.cpp crypto/openssl/openssl_hash.cpp crypto/openssl/openssl_error.cpp stun/stun_password.cpp
// VC-LIBS: -lcrypto
// VC-STUB(.*): ^freewebrtc::stun::Message::build\(.* => vcstub_build
// VC-BOUNDED(history_.*|late|next_life|ends|life_pauses|life_two): histories of up to three further calls on up to two requests, each request in any state of retransmission; with pauses after server errors: one superseded entry on the timeline
// VC-OPT(.*): time=300 ifconv=0
// VC-OPT(life_.*): nocover=1
// VC-OPT(long_history): native_only=1 fuzz=10
#include "client.hpp"
using namespace cl;
// contract of Message::build (P23): some bytes
extern "C" Result<util::ByteVec> vcstub_build(const stun::Message* m, const stun::MaybeIntegrity*) {
    util::ByteVec v(28);
    std::memcpy(v.data() + 8, m->header.transaction_id.view().data(), 12);
    return v;
}
struct Monitor {
    struct Request { ClientUDP::Handle h; bool done; unsigned sent; };
    std::vector<Request> r;
    Random random;
    Settings s;
    uint64_t base;
    int64_t now = 0;
    std::unique_ptr<ClientUDP> c;
    explicit Monitor(bool errors) {
        Rtx rtx;
        rtx.request_count = vc_fork(vc::any_in<unsigned>(1, errors ? 2 : 3, "Rc"));
        rtx.retransmission_multiplier = 2;
        if (errors) { rtx.server_error_timeout = D(any_duration("pause", 20) + 1); rtx.server_error_max_retransmits = 1; }
        s.retransmit = rtx;
        s.rto_settings.initial_rto = D(any_duration("rto", 20) + 1);
        base = 1000;
        c = std::make_unique<ClientUDP>(s);
    }
    void wait(const char* name) { now += any_duration(name, 24); }
    void create() {
        const auto h = c->create(random, at(base, now), ClientUDP::Request{path(), {}, {}});
        ENSURE(h.is_ok(), "created");
        if (h.is_err()) return;
        bool fresh = true;
        for (const auto& o : r) fresh = fresh & !(o.h == h.unwrap());
        ENSURE(fresh, "a handle of its own");
        r.push_back(Request{h.unwrap(), false, 0});
    }
    // any number of retransmissions so far
    void open(unsigned i) {
        auto state = [&](auto& c) -> decltype(auto) { return (c.m_tmap.find(r[i].h)->second.rtx_algo); };
        auto f = [&](auto& c) {
            if constexpr (requires { state(c)->m_rtx_count; c.m_tmap.find(r[i].h)->second.rtx_count; }) {
                auto it = c.m_tmap.find(r[i].h);
                if (it == c.m_tmap.end()) return;
                it->second.rtx_count = it->second.rtx_algo->m_rtx_count = vc_fork(vc::any_in<unsigned>(0, std::get<Rtx>(s.retransmit).request_count, "k"));
            }
        };
        f(*c);
    }
    Request* find(const ClientUDP::Handle& h) {
        for (auto& o : r) if (o.h == h) return &o;
        return nullptr;
    }
    // takes one effect and checks that it fits the history; false when there is nothing to do now
    bool step() {
        const auto e = c->next(at(base, now));
        if (const auto* d = std::get_if<ClientUDP::SendData>(&e)) {
            Request* o = find(d->handle);
            ENSURE(o != nullptr, "data of a request that was made");
            if (o == nullptr) return false;
            ENSURE(!o->done, "nothing is sent for a finished request");
            ENSURE(d->message_view.size() >= 20, "the request");
            const unsigned n = unsigned(o - r.data());
            if (d->message_view.size() >= 20) ENSURE(same(d->message_view.data() + 8, id_of(n).view().data(), 12), "the bytes of this request");
            o->sent++;
            return true;
        }
        const ClientUDP::Handle* h = nullptr;
        if (const auto* k = std::get_if<ClientUDP::TransactionOk>(&e)) h = &k->handle;
        if (const auto* f = std::get_if<ClientUDP::TransactionFailed>(&e)) h = &f->handle;
        if (h != nullptr) {
            Request* o = find(*h);
            ENSURE(o != nullptr, "outcome of a request that was made");
            if (o == nullptr) return false;
            ENSURE(!o->done, "one outcome for a request");
            o->done = true;
            return true;
        }
        bool all = true;
        for (const auto& o : r) all = all & o.done;
        if (is_sleep(e)) ENSURE(sleep(e) > 0, "sleep");
        if (is_idle(e)) ENSURE(all, "idle only when all requests are finished");
        return false;
    }
    // response of a kind to the n-th request
    void respond_to(unsigned n, unsigned kind) {
        const uint8_t a[4] = {10, 0, 0, 1};
        stun::Message m = kind == 0 ? success(n, addr4(a), 3478) : kind == 1 ? failure(n, 400) : failure(n, 500);
        const bool known = n < r.size() && !r[n].done;
        const bool ok = respond(*c, at(base, now), std::move(m)).is_ok();
        if (!known) ENSURE(!ok, "a response to a finished or unknown request is refused");
    }
};
static void history(unsigned requests, unsigned steps, bool errors) {
    Monitor m(errors);
    m.create();
    if (requests > 1) { m.wait("d0"); m.create(); }
    if (vc_fork(vc::any_bool("sent"))) { for (unsigned i = 0; i < requests; ++i) m.step(); }
    m.open(0);
    for (unsigned i = 0; i < steps; ++i) {
        const unsigned op = vc_fork(vc::any_in<unsigned>(0, requests > 1 ? 4 : 3, "op"));
        if (op == 0) m.wait("dt");
        if (op <= 1) m.step();
        else if (op == 2) m.respond_to(0, errors ? 2 : 0);
        else if (op == 3) m.respond_to(0, 1);
        else m.respond_to(1, errors ? 2 : 0);
    }
    m.step();
    m.step();
    COVER("end");
}
CONTRACT(history_one) { history(1, 3, false); }
CONTRACT(history_one_error) { history(1, 3, true); }
CONTRACT(history_two) { history(2, 2, false); }
// responses that arrive twice, or with a retransmission due before the outcome is taken
CONTRACT(late) {
    Monitor m(vc_fork(vc::any_bool("errors")));
    m.create();
    if (vc_fork(vc::any_bool("take"))) m.step();
    m.open(0);
    m.wait("d1");
    const unsigned k1 = vc_fork(vc::any_in<unsigned>(0, 2, "first")), k2 = vc_fork(vc::any_in<unsigned>(0, 2, "second"));
    m.respond_to(0, k1);
    m.respond_to(0, k2);
    m.wait("d3");
    for (int i = 0; i < 3; ++i) m.step();
    COVER("end");
}
// a request made when all earlier ones have ended
CONTRACT(next_life) {
    Monitor m(false);
    m.create();
    const unsigned how = vc_fork(vc::any_in<unsigned>(0, 3, "how"));
    for (unsigned life = 0; life < 2; ++life) {
        m.step();
        if (how < 3) m.respond_to(life, how);
        for (int i = 0; i < 8 && !m.r[life].done; ++i) {
            const auto e = m.c->next(at(m.base, m.now));
            if (is_sleep(e)) { m.now += sleep(e); continue; }
            if (const auto* d = std::get_if<ClientUDP::SendData>(&e)) { ENSURE(d->handle == m.r[life].h, "data of the request that is open"); continue; }
            ENSURE(is_ok(e) || is_failed(e), "nothing else happens to an open request");
            const ClientUDP::Handle* h = nullptr;
            if (const auto* k = std::get_if<ClientUDP::TransactionOk>(&e)) h = &k->handle;
            if (const auto* f = std::get_if<ClientUDP::TransactionFailed>(&e)) h = &f->handle;
            if (h == nullptr) return;
            ENSURE(*h == m.r[life].h, "outcome of the request that is open");
            m.r[life].done = true;
        }
        ENSURE(m.r[life].done, "it ends");
        m.create();
        ENSURE(m.r.size() == life + 2, "a request can be made afterwards");
        if (m.r.size() != life + 2) return;
    }
    COVER("end");
}
// every request ends: with nothing but sleeping as told
CONTRACT(ends) {
    Monitor m(false);
    m.create();
    m.wait("d0");
    m.create();
    for (int i = 0; i < 40; ++i) {
        const auto e = m.c->next(at(m.base, m.now));
        if (is_idle(e)) break;
        if (is_sleep(e)) { ENSURE(sleep(e) > 0, "sleep"); m.now += sleep(e); continue; }
        if (const auto* f = std::get_if<ClientUDP::TransactionFailed>(&e)) {
            auto* o = m.find(f->handle);
            ENSURE(o != nullptr && !o->done, "one outcome");
            if (o) o->done = true;
        } else if (const auto* d = std::get_if<ClientUDP::SendData>(&e)) {
            auto* o = m.find(d->handle);
            if (o) o->sent++;
        }
    }
    const unsigned rc = std::get<Rtx>(m.s.retransmit).request_count;
    ENSURE(m.r.size() == 2 && m.r[0].done && m.r[1].done, "both have an outcome");
    ENSURE(m.r.size() == 2 && m.r[0].sent == rc && m.r[1].sent == rc, "after all their requests");
    COVER("end");
}
// One call on a client with one request, in any state of that request's life: open, finished but not yet reported, or
// gone. By induction over calls every history of the request is covered; the state after the call is one of these again.
namespace life {
enum Phase { open, finished, gone };
// the client has the parts that make up such a state
template<typename C> constexpr bool fits = requires(C& c, ClientUDP::Handle h, T t, D d, ClientUDP::TransactionOk ok, ClientUDP::TransactionFailed failed) {
    c.m_tmap.find(h)->second.rtx_algo->m_maybe_next = t;
    c.m_tmap.find(h)->second.rtx_algo->m_maybe_next.is_none();
    c.m_tmap.find(h)->second.rtx_algo->m_rtx_count = 1u;
    c.m_tmap.find(h)->second.rtx_algo->m_5xx_count = 1u;
    c.m_tmap.find(h)->second.rtx_algo->m_last_timeout = d;
    c.m_tmap.find(h)->second.rtx_count = 1u;
    c.m_tmap.find(h)->second.finished = true;
    c.m_tid_timeline.emplace(t, h);
    { c.m_tid_timeline.top().first } -> std::convertible_to<T>;
    c.m_tid_timeline.pop();
    c.m_effects.emplace(ok);
    c.m_effects.emplace(failed);
    { c.m_effects.front() } -> std::convertible_to<ClientUDP::Effect>;
    { c.m_effects.back() } -> std::convertible_to<ClientUDP::Effect>;
    c.m_effects.pop();
    c.m_effects.size();
    c.m_tid_to_handle.contains(id_of(0));
    c.m_next_handle_value = h.value + 1;
    c.cleanup(h);
};
template<typename C> void install(C& c, ClientUDP::Handle h, const Settings& s, uint64_t base, int64_t due, Phase phase, bool queued, bool stale, int64_t old, bool& was_ok) {
    if constexpr (fits<C>) {
        auto& t = c.m_tmap.find(h)->second;
        t.rtx_count = vc::any<unsigned>("sent");
        t.rtx_algo->m_rtx_count = vc::any_in<unsigned>(0, 2000, "k");
        t.rtx_algo->m_5xx_count = vc::any_in<unsigned>(0, 1000, "more");
        t.rtx_algo->m_last_timeout = D(any_duration("last") + 1);
        t.rtx_algo->m_maybe_next = at(base, due);
        c.m_tid_timeline.pop();
        c.m_tid_timeline.emplace(at(base, due), h);
        if (stale) c.m_tid_timeline.emplace(at(base, old), h);
        if (!queued || phase == gone) c.m_effects.pop();
        if (phase == finished) {
            t.finished = true;
            if (was_ok) c.m_effects.emplace(ClientUDP::TransactionOk{h, net::UdpEndpoint{addr4(reinterpret_cast<const uint8_t*>("abcd")), net::Port(1)}, success(0, addr4(reinterpret_cast<const uint8_t*>("abcd")), 1), None{}});
            else c.m_effects.emplace(ClientUDP::TransactionFailed{h, ClientUDP::TransactionFailed::Timeout{}});
        }
        if (phase == gone) c.cleanup(h);
        c.m_next_handle_value = h.value + 1 + vc::any_in<unsigned>(0, 0x7fffffff, "handles");
    }
}
template<typename C> void install_two(C& c, const ClientUDP::Handle* h, uint64_t base, const int64_t* due, const Phase* phase, const bool* queued, unsigned first) {
    if constexpr (fits<C>) {
        while (!c.m_effects.empty()) c.m_effects.pop();
        while (!c.m_tid_timeline.empty()) c.m_tid_timeline.pop();
        for (unsigned k = 0; k < 2; ++k) {
            const unsigned i = k ^ first;
            auto& t = c.m_tmap.find(h[i])->second;
            t.rtx_count = vc::any<unsigned>("sent");
            t.rtx_algo->m_rtx_count = vc::any_in<unsigned>(0, 2000, "k");
            t.rtx_algo->m_last_timeout = D(any_duration("last") + 1);
            t.rtx_algo->m_maybe_next = at(base, due[i]);
            c.m_tid_timeline.emplace(at(base, due[i]), h[i]);
            if (queued[i]) c.m_effects.emplace(ClientUDP::SendData{h[i], util::ConstBinaryView(t.msg_data)});
            if (phase[i] == finished) {
                t.finished = true;
                c.m_effects.emplace(ClientUDP::TransactionFailed{h[i], ClientUDP::TransactionFailed::Timeout{}});
            }
            if (phase[i] == gone) c.cleanup(h[i]);
        }
    }
}
// the others are as they were
template<typename C> void still(C& c, const ClientUDP::Handle* h, const Phase* phase, const bool* ended, const int64_t* due, bool next, int64_t now) {
    if constexpr (fits<C>) {
        for (unsigned i = 0; i < 2; ++i) {
            const auto it = c.m_tmap.find(h[i]);
            const bool there = phase[i] != gone && !ended[i];
            ENSURE((it != c.m_tmap.end()) == there && c.m_tid_to_handle.contains(id_of(i)) == there, "ind: kept until its outcome is taken");
            if (it == c.m_tmap.end() || !there) continue;
            if (phase[i] == finished) ENSURE(it->second.finished, "ind: finished");
            else if (!next || now < due[i]) ENSURE(!it->second.finished, "ind: still open");
        }
    }
}
inline bool outcome(const ClientUDP::Effect& e, ClientUDP::Handle h) {
    if (const auto* k = std::get_if<ClientUDP::TransactionOk>(&e)) return k->handle == h;
    if (const auto* f = std::get_if<ClientUDP::TransactionFailed>(&e)) return f->handle == h;
    return false;
}
inline bool data(const ClientUDP::Effect& e, ClientUDP::Handle h) {
    const auto* d = std::get_if<ClientUDP::SendData>(&e);
    return d != nullptr && d->handle == h;
}
// the state after the call is one of the states it may begin with
template<typename C> void invariant(C& c, ClientUDP::Handle h, Phase phase) {
    if constexpr (fits<C>) {
        const auto it = c.m_tmap.find(h);
        ENSURE((it != c.m_tmap.end()) == (phase != gone) && c.m_tid_to_handle.contains(id_of(0)) == (phase != gone), "ind: kept until its outcome is taken");
        if (it == c.m_tmap.end() || phase == gone) { ENSURE(c.m_effects.empty(), "ind: nothing is left of it"); return; }
        ENSURE(it->second.finished == (phase == finished), "ind: finished with its outcome");
        const size_t n = c.m_effects.size();
        if (phase == finished) ENSURE(n >= 1 && n <= 2 && outcome(c.m_effects.back(), h), "ind: its outcome is the last");
        if (phase == finished && n == 2) ENSURE(data(c.m_effects.front(), h), "ind: behind its data");
        if (phase == open) ENSURE(n == 0 || (n == 1 && data(c.m_effects.front(), h)), "ind: no outcome while it is open");
        if (phase == open) {
            bool there = false;
            auto line = c.m_tid_timeline;
            const auto due = it->second.rtx_algo->m_maybe_next;
            ENSURE(due.is_some(), "ind: an open request is due at some time");
            if (due.is_none()) return;
            for (int i = 0; i < 4 && !line.empty(); ++i) { there = there | (line.top().first == due.unwrap()); line.pop(); }
            ENSURE(there, "ind: which is on the timeline");
        }
    }
}
}
static void life_of_one(bool pauses) {
    const unsigned call = vc_fork(vc::any_in<unsigned>(0, 3, "call"));
    const auto phase = static_cast<life::Phase>(vc_fork(vc::any_in<unsigned>(0, 2, "phase")));
    const bool queued = vc_fork(vc::any_bool("queued"));
    // a pause after a server error leaves a superseded entry on the timeline
    const bool stale = pauses && vc_fork(vc::any_bool("stale"));
    bool was_ok = phase == life::finished && vc_fork(vc::any_bool("ok"));
    Settings s;
    Rtx rtx;
    rtx.request_count = vc::any_in<unsigned>(1, 1000, "Rc");
    rtx.retransmission_multiplier = vc::any_in<unsigned>(1, 100, "Rm");
    if (pauses) { rtx.server_error_timeout = D(any_duration("pause", 40) + 1); rtx.server_error_max_retransmits = vc::any_in<unsigned>(0, 1000, "max"); }
    s.retransmit = rtx;
    s.rto_settings.initial_rto = D(any_duration("rto", 40) + 1);
    const uint64_t base = vc::any<uint64_t>("base");
    ClientUDP c(s);
    Random r;
    const auto hr = c.create(r, at(base, 0), ClientUDP::Request{path(), {}, {}});
    ENSURE(hr.is_ok(), "created");
    if (hr.is_err()) return;
    const auto h = hr.unwrap();
    const int64_t due = any_duration("due"), old = any_duration("old"), now = any_duration("now");
    REQUIRE(old != due);
    if (!life::fits<ClientUDP>) return;
    life::install(c, h, s, base, due, phase, queued, stale, old, was_ok);
    if (call == 0) {
        const auto e = c.next(at(base, now));
        const bool sent = life::data(e, h), ended = life::outcome(e, h);
        if (phase == life::gone) {
            ENSURE(!sent && !ended && !is_send(e) && !is_ok(e) && !is_failed(e), "nothing is reported or sent for a request after its outcome");
            life::invariant(c, h, life::gone);
            COVER("gone");
            return;
        }
        if (queued) { ENSURE(sent, "its data first"); }
        else if (phase == life::finished) { ENSURE(ended && is_ok(e) == was_ok, "its outcome"); }
        else if (now < due) { ENSURE(is_sleep(e) && sleep(e) > 0, "sleep until it is due"); }
        else ENSURE(sent || is_timeout(e), "when it is due, it is sent again or given up");
        if (phase == life::open && !ended && now >= due) {
            // the outcome may be queued behind the data
            auto again = [&](auto& c) {
                if constexpr (!life::fits<std::decay_t<decltype(c)>>) return; else {
                const auto it = c.m_tmap.find(h);
                ENSURE(it != c.m_tmap.end(), "ind: kept");
                if (it != c.m_tmap.end()) life::invariant(c, h, it->second.finished ? life::finished : life::open);
                }
            };
            again(c);
        } else life::invariant(c, h, ended ? life::gone : phase);
        COVER("next");
        return;
    }
    auto m = call == 1 ? success(0, addr4(reinterpret_cast<const uint8_t*>("abcd")), 3478) : call == 2 ? failure(0, 400) : failure(0, 500);
    const bool taken = respond(c, at(base, now), std::move(m)).is_ok();
    ENSURE(taken == (phase == life::open), "a response is taken exactly while the request is open");
    if (phase != life::open) { life::invariant(c, h, phase); COVER("refused"); return; }
    if (call != 3) { life::invariant(c, h, life::finished); COVER("outcome"); return; }
    auto paused = [&](auto& c) {
        if constexpr (!life::fits<std::decay_t<decltype(c)>>) return; else {
        const auto it = c.m_tmap.find(h);
        ENSURE(it != c.m_tmap.end(), "ind: kept");
        if (it != c.m_tmap.end()) life::invariant(c, h, it->second.finished ? life::finished : life::open);
        }
    };
    paused(c);
    COVER("server error");
}
CONTRACT(life_step) { life_of_one(false); }
CONTRACT(life_pauses) { life_of_one(true); }
// One call on a client with two requests, each in any state, their effects queued in either order.
CONTRACT(life_two) {
    const unsigned call = vc_fork(vc::any_in<unsigned>(0, 3, "call"));
    life::Phase phase[2];
    bool queued[2];
    for (int i = 0; i < 2; ++i) {
        phase[i] = static_cast<life::Phase>(vc_fork(vc::any_in<unsigned>(0, 2, "phase")));
        queued[i] = phase[i] != life::gone && vc_fork(vc::any_bool("queued"));
    }
    const unsigned first = vc_fork(vc::any_in<unsigned>(0, 1, "first"));
    Settings s;
    Rtx rtx;
    rtx.request_count = vc::any_in<unsigned>(1, 1000, "Rc");
    rtx.retransmission_multiplier = vc::any_in<unsigned>(1, 100, "Rm");
    s.retransmit = rtx;
    s.rto_settings.initial_rto = D(any_duration("rto", 40) + 1);
    const uint64_t base = vc::any<uint64_t>("base");
    ClientUDP c(s);
    if (!life::fits<ClientUDP>) return;
    Random r;
    ClientUDP::Handle h[2];
    for (int i = 0; i < 2; ++i) {
        const auto hr = c.create(r, at(base, 0), ClientUDP::Request{path(), {}, {}});
        ENSURE(hr.is_ok(), "created");
        if (hr.is_err()) return;
        h[i] = hr.unwrap();
    }
    int64_t due[2] = {any_duration("due0"), any_duration("due1")};
    const int64_t now = any_duration("now");
    life::install_two(c, h, base, due, phase, queued, first);
    bool ended[2] = {false, false};
    if (call == 0) {
        const auto e = c.next(at(base, now));
        int who = -1;
        for (int i = 0; i < 2; ++i) if (life::data(e, h[i]) || life::outcome(e, h[i])) who = i;
        ENSURE(who >= 0 || is_sleep(e) || is_idle(e), "only what concerns a request of this client");
        if (who >= 0) {
            ENSURE(phase[who] != life::gone, "nothing is reported or sent for a request after its outcome");
            if (is_send(e)) ENSURE(queued[who] || phase[who] == life::open, "nothing is sent for a finished request");
            else {
                ended[who] = true;
                ENSURE(phase[who] == life::finished || is_timeout(e), "an open request ends here only because nobody answered");
            }
        }
        bool todo = false, any = false;
        for (int i = 0; i < 2; ++i) {
            todo = todo | (phase[i] == life::finished) | queued[i] | ((phase[i] == life::open) & (now >= due[i]));
            any = any | (phase[i] != life::gone);
        }
        ENSURE((who >= 0) == todo, "something is reported exactly when there is something to do");
        if (any) ENSURE(!is_idle(e), "idle only when all requests are finished");
        if (is_sleep(e)) {
            bool right = false, early = true;
            for (int i = 0; i < 2; ++i) {
                if (phase[i] != life::open) continue;
                right = right | (sleep(e) == due[i] - now);
                early = early & (sleep(e) <= due[i] - now);
            }
            // (a request that is gone may still wake the caller earlier)
            ENSURE(early && sleep(e) > 0, "sleep no longer than until the first of them is due");
            if (phase[0] == life::open && phase[1] == life::open) ENSURE(right, "and until exactly then");
            COVER("sleep");
        }
        if (who >= 0) COVER("effect");
        if (is_idle(e)) COVER("idle");
    } else {
        auto m = call == 1 ? success(0, addr4(reinterpret_cast<const uint8_t*>("abcd")), 3478) : call == 2 ? failure(0, 400) : failure(0, 500);
        ENSURE(respond(c, at(base, now), std::move(m)).is_ok() == (phase[0] == life::open), "a response is taken exactly while its request is open");
        if (phase[0] == life::open) phase[0] = life::finished;
        COVER("response");
    }
    life::still(c, h, phase, ended, due, call == 0, now);
}
// a further request leaves the first as it is, and gets a handle of its own
CONTRACT(life_create) {
    const auto phase = static_cast<life::Phase>(vc_fork(vc::any_in<unsigned>(0, 2, "phase")));
    const bool queued = vc_fork(vc::any_bool("queued"));
    bool was_ok = false;
    Settings s;
    Rtx rtx;
    rtx.request_count = vc::any_in<unsigned>(1, 1000, "Rc");
    rtx.retransmission_multiplier = vc::any_in<unsigned>(1, 100, "Rm");
    s.retransmit = rtx;
    s.rto_settings.initial_rto = D(any_duration("rto", 40) + 1);
    const uint64_t base = vc::any<uint64_t>("base");
    ClientUDP c(s);
    Random r;
    const auto hr = c.create(r, at(base, 0), ClientUDP::Request{path(), {}, {}});
    ENSURE(hr.is_ok(), "created");
    if (hr.is_err()) return;
    const auto h = hr.unwrap();
    const int64_t due = any_duration("due"), now = any_duration("now");
    life::install(c, h, s, base, due, phase, queued, false, 0, was_ok);
    const auto next = c.create(r, at(base, now), ClientUDP::Request{path(3), {}, {}});
    ENSURE(next.is_ok(), "created");
    if (next.is_err()) return;
    ENSURE(!(next.unwrap() == h), "a handle of its own");
    auto check = [&](auto& c) {
        if constexpr (life::fits<std::decay_t<decltype(c)>>) {
            const auto it = c.m_tmap.find(h);
            ENSURE((it != c.m_tmap.end()) == (phase != life::gone) && c.m_tid_to_handle.contains(id_of(0)) == (phase != life::gone), "ind: the first request is kept as it was");
            if (it != c.m_tmap.end()) ENSURE(it->second.finished == (phase == life::finished) && it->second.rtx_algo->m_maybe_next.unwrap() == at(base, due), "ind: in its state");
            const auto own = c.m_tmap.find(next.unwrap());
            ENSURE(own != c.m_tmap.end() && !own->second.finished && c.m_tid_to_handle.contains(id_of(1)), "ind: the new one is open");
            ENSURE(life::data(c.m_effects.back(), next.unwrap()), "ind: with its data to be sent");
            ENSURE(c.m_effects.size() == 1 + (phase == life::finished) + (phase != life::gone && queued), "ind: behind what was there");
            ENSURE(c.m_next_handle_value > next.unwrap().value, "ind: later handles differ");
        }
    };
    check(c);
    COVER("end");
}
CONTRACT(long_history) {
    Monitor m(vc::any_bool("errors"));
    for (unsigned i = 0; i < 30; ++i) {
        const unsigned op = vc::any_in<unsigned>(0, 6, "op");
        if (op == 0) { m.wait("dt"); m.step(); }
        else if (op == 1) m.step();
        else if (op == 2) { if (m.r.size() < 5) m.create(); }
        else if (op == 3) { m.wait("dt"); while (m.step()) {} }
        else m.respond_to(vc::any_in<unsigned>(0, 5, "n"), op - 4);
    }
    while (m.step()) {}
    COVER("end");
}
