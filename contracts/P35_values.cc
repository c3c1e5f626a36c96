// Small value types: named flags, tagged values, counters and endpoints keep what they were given.
// SOURCES: net/ip/ip_address.cpp net/net_error.cpp net/net_port.cpp
// VC-OPT(counter_step): nocover=1
#include "vc.hpp"
#include <netinet/in.h>
#include "util/util_typed_bool.hpp"
#include "util/util_tagged_type.hpp"
#include "stat/stat_counter.hpp"
#include "precis/precis_opaque_string.hpp"
#include "net/net_endpoint.hpp"
using namespace freewebrtc;
struct A;
using Flag = util::TypedBool<A>;
using Num = util::TaggedType<uint64_t, A>;
CONTRACT(flags) {
    const bool v = vc::any_bool("v"), w = vc::any_bool("w");
    Flag f(v), g(w);
    ENSURE(bool(f) == v, "a flag keeps its value");
    const Flag c = f;
    ENSURE(bool(c) == v, "so does its copy");
    g = f;
    ENSURE(bool(g) == v && bool(f) == v, "assignment takes the value over");
    COVER("end");
}
CONTRACT(tagged_numbers) {
    const auto a = vc::any<uint64_t>("a"), b = vc::any<uint64_t>("b");
    Num x(a), y = Num::copy_from(b), z = Num::move_from(uint64_t(a));
    ENSURE(x.value == a && y.value == b && z.value == a, "a tagged value keeps its value");
    ENSURE((x == y) == (a == b) && x == z, "equal exactly when the values are");
    z = y;
    ENSURE(z == y && y.value == b, "assignment takes the value over");
    COVER("end");
}
CONTRACT(tagged_strings) {
    const auto s = vc::any_sv(vc::any_in<size_t>(0, 5000, "n"), "s"), u = vc::any_sv(vc::any_in<size_t>(0, 5000, "m"), "u");
    const precis::OpaqueString a{std::string(s)}, b{std::string(u)};
    ENSURE(a.value == s, "a tagged text keeps its text");
    ENSURE((a == b) == (s == u), "equal exactly when the texts are");
    const precis::OpaqueString c = a;
    ENSURE(c.value == s && a.value == s, "a copy has the same text");
    if (s == u) COVER("same"); else COVER("different");
}
CONTRACT(counters) {
    stat::Counter c;
    ENSURE(c.count() == 0, "a counter starts at zero");
    c.inc();
    ENSURE(c.count() == 1, "one event counts one");
    COVER("end");
}
CONTRACT(counters_many) {
    // after n events, for any n in the range of the count
    const unsigned n = vc::any_in<unsigned>(0, 0xfffffffe, "n");
    stat::Counter c;
    for (unsigned i = 0; i < n; ++i) c.inc();
    ENSURE(c.count() == n, "n events count n");
    COVER("end");
}
CONTRACT(counter_step) {
    // one more event from any count: by induction n events count n
    const unsigned n = vc::any<unsigned>("n");
    if (sizeof(stat::Counter) != sizeof(unsigned)) return;
    stat::Counter c;
    std::memcpy(static_cast<void*>(&c), &n, sizeof(n));
    REQUIRE(c.count() == n);
    const stat::Counter before = c;
    c.inc();
    ENSURE(c.count() == n + 1, "ind: one event counts one");
    ENSURE(before.count() == n, "a copy is independent");
    COVER("end");
}
template<typename E> static void endpoint(bool udp) {
    const bool v6 = vc::any_bool("v6");
    const uint8_t* d = vc_buf(v6 ? 16 : 4, "addr");
    const auto ip = v6 ? net::ip::Address(net::ip::AddressV6::from_view(util::ConstBinaryView(d, 16)).unwrap())
                       : net::ip::Address(net::ip::AddressV4::from_view(util::ConstBinaryView(d, 4)).unwrap());
    const auto port = vc::any<uint16_t>("port");
    const net::Endpoint e(E{ip, net::Port(port)});
    ENSURE(e.is_udp() == udp, "transport");
    ENSURE(e.address() == ip, "address");
    ENSURE(e.port() == net::Port(port), "port");
    const net::Endpoint c = e;
    ENSURE(c.is_udp() == udp && c.address() == ip && c.port() == net::Port(port), "a copy is the same endpoint");
    if (v6) COVER("v6"); else COVER("v4");
}
CONTRACT(udp_endpoint) { endpoint<net::UdpEndpoint>(true); }
CONTRACT(tcp_endpoint) { endpoint<net::TcpEndpoint>(false); }
