// Hashes used as keys: equal values hash equally, every byte and the seed matter, and only the bytes are read.
// SOURCES: util/util_hash_murmur.cpp net/ip/ip_address.cpp net/ip/ip_address_hash.cpp net/net_error.cpp
// VC-OPT(murmur_(pure|seed)): affine=1 unroll=12
// VC-OPT(path_source_differs_to_v4): native_only=1
// VC-BOUNDED(murmur_one_block|opaque_string|path_source_differs_to_v4): blocks of up to 40 bytes, texts of up to 20 (every length unrolled); paths into an IPv4 end whose other end differs are sampled; all other addresses, paths and transaction ids have fixed sizes and are unbounded
#include "vc.hpp"
#include <netinet/in.h>
#include <array>
#include "util/util_hash_murmur.hpp"
#include "net/net_path_hash.hpp"
#include "net/ip/ip_address_hash.hpp"
#include "stun/stun_transaction_id_hash.hpp"
#include "precis/precis_opaque_string_hash.hpp"
using namespace freewebrtc;
using View = util::ConstBinaryView;
CONTRACT(murmur_pure) {
    const size_t n = vc::any_in<size_t>(0, 5000, "n");
    const auto seed = vc::any<uint64_t>("seed");
    const uint8_t* a = vc_buf(n, "a");
    const std::vector<uint8_t> copy(a, a + n);
    const size_t h = util::hash::murmur(View(a, n), seed);
    ENSURE(h == util::hash::murmur(View(copy), seed), "the same bytes elsewhere hash equally");
    ENSURE(h == util::hash::murmur(View(a, n), seed), "hashing again gives the same");
    COVER("end");
}
CONTRACT(murmur_one_block) {
    // two texts of one length that differ only inside one group of eight bytes never collide
    const size_t n = vc_fork(vc::any_in<size_t>(1, 40, "n"));
    const size_t at = vc_fork(vc::any_in<size_t>(0, (n - 1) / 8, "block"));
    const auto seed = vc::any<uint64_t>("seed");
    const uint8_t* a = vc_buf(n, "a");
    std::vector<uint8_t> b(a, a + n);
    bool differ = false;
    for (size_t i = 8 * at; i < n && i < 8 * at + 8; ++i) {
        b[i] = vc::any<uint8_t>("other");
        differ = differ | (b[i] != a[i]);
    }
    REQUIRE(differ);
    ENSURE(util::hash::murmur(View(a, n), seed) != util::hash::murmur(View(b), seed), "a change inside one block changes the hash");
    COVER("end");
}
CONTRACT(murmur_seed) {
    const size_t n = vc::any_in<size_t>(0, 5000, "n");
    const auto s = vc::any<uint64_t>("s"), u = vc::any<uint64_t>("u");
    const uint8_t* a = vc_buf(n, "a");
    ENSURE((util::hash::murmur(View(a, n), s) == util::hash::murmur(View(a, n), u)) == (s == u), "different seeds give different hashes");
    COVER("end");
}
static net::ip::Address address(bool v6, const uint8_t* d) {
    return v6 ? net::ip::Address(net::ip::AddressV6::from_view(View(d, 16)).unwrap()) : net::ip::Address(net::ip::AddressV4::from_view(View(d, 4)).unwrap());
}
// d with the bytes from..to replaced
static std::vector<uint8_t> changed(const uint8_t* d, size_t n, size_t from, size_t to, bool& differ) {
    std::vector<uint8_t> b(d, d + n);
    for (size_t i = from; i < to; ++i) {
        b[i] = vc::any<uint8_t>("other");
        differ = differ | (b[i] != d[i]);
    }
    return b;
}
CONTRACT(address_equal) {
    const bool v6 = vc_fork(vc::any_bool("v6"));
    const uint8_t* d = vc_buf(16, "d");
    const std::vector<uint8_t> c(d, d + 16);
    const auto a = address(v6, d), b = address(v6, c.data());
    net::ip::AddressHash h;
    ENSURE(a == b, "same bytes, same address");
    ENSURE(h(a) == h(b), "equal addresses hash equally");
    net::ip::AddressHash g;
    ENSURE(h(a) == g(a), "every hasher agrees");
    COVER("end");
}
CONTRACT(address_v4_different) {
    const auto a = address(false, vc_buf(4, "a")), b = address(false, vc_buf(4, "b"));
    net::ip::AddressHash h;
    ENSURE((h(a) == h(b)) == (a == b), "IPv4 addresses never collide");
    COVER("end");
}
CONTRACT(address_v6_different) {
    const uint8_t* d = vc_buf(16, "d");
    const size_t half = vc_fork(vc::any_in<size_t>(0, 1, "half"));
    bool differ = false;
    const auto c = changed(d, 16, 8 * half, 8 * half + 8, differ);
    REQUIRE(differ);
    net::ip::AddressHash h;
    ENSURE(h(address(true, d)) != h(address(true, c.data())), "IPv6 addresses with one half in common never collide");
    COVER("end");
}
CONTRACT(path_equal) {
    const bool s6 = vc_fork(vc::any_bool("s6")), t6 = vc_fork(vc::any_bool("t6"));
    const uint8_t *s = vc_buf(16, "s"), *t = vc_buf(16, "t");
    const std::vector<uint8_t> s2(s, s + 16), t2(t, t + 16);
    const net::Path a{address(s6, s), address(t6, t)}, b{address(s6, s2.data()), address(t6, t2.data())};
    ENSURE(a == b, "same ends, same path");
    ENSURE(net::PathHash()(a) == net::PathHash()(b), "equal paths hash equally");
    COVER("end");
}
static void path_different(bool s6, bool t6, bool target, size_t half) {
    const uint8_t *s = vc_buf(s6 ? 16 : 4, "s"), *t = vc_buf(t6 ? 16 : 4, "t");
    const bool six = target ? t6 : s6;
    REQUIRE(six || half == 0);
    bool differ = false;
    const auto c = changed(target ? t : s, six ? 16 : 4, 8 * half, six ? 8 * half + 8 : 4, differ);
    REQUIRE(differ);
    const net::Path a{address(s6, s), address(t6, t)};
    const net::Path b{address(s6, target ? s : c.data()), address(t6, target ? c.data() : t)};
    ENSURE(!(a == b), "different paths");
    ENSURE(net::PathHash()(a) != net::PathHash()(b), "both ends of a path count");
    COVER("end");
}
CONTRACT(path_target_differs) {
    path_different(vc_fork(vc::any_bool("s6")), vc_fork(vc::any_bool("t6")), true, vc_fork(vc::any_in<size_t>(0, 1, "half")));
}
CONTRACT(path_source_differs) {
    path_different(vc_fork(vc::any_bool("s6")), true, false, vc_fork(vc::any_in<size_t>(0, 1, "half")));
}
CONTRACT(path_source_differs_to_v4) {
    path_different(vc_fork(vc::any_bool("s6")), false, false, vc_fork(vc::any_in<size_t>(0, 1, "half")));
}
static size_t tid_hash(const uint8_t* d, size_t n) {
    const auto h = stun::MurmurTransactionIdHash<>::create();
    return h(stun::TransactionId(View(d, n)));
}
CONTRACT(transaction_id) {
    const size_t n = vc_fork(vc::any_in<size_t>(0, 1, "rfc3489")) ? 16 : 12;
    const uint8_t* d = vc_buf(n, "d");
    const std::vector<uint8_t> c(d, d + n);
    ENSURE(stun::TransactionId(View(d, n)) == stun::TransactionId(View(c)), "same bytes, same id");
    ENSURE(tid_hash(d, n) == tid_hash(c.data(), n), "equal ids hash equally");
    const size_t half = vc_fork(vc::any_in<size_t>(0, 1, "half"));
    bool differ = false;
    const auto e = changed(d, n, 8 * half, half ? n : 8, differ);
    REQUIRE(differ);
    ENSURE(!(stun::TransactionId(View(d, n)) == stun::TransactionId(View(e))), "different bytes, different id");
    ENSURE(tid_hash(d, n) != tid_hash(e.data(), n), "ids with one part in common never collide");
    COVER("end");
}
struct Seed { size_t operator()() { return 0x1234567890abcdefull; } };
CONTRACT(transaction_id_seed) {
    const uint8_t* d = vc_buf(12, "d");
    const auto h = stun::MurmurTransactionIdHash<Seed>::create();
    ENSURE(h(stun::TransactionId(View(d, 12))) != tid_hash(d, 12), "the seed of the hasher counts");
    ENSURE(h(stun::TransactionId(View(d, 12))) == h(stun::TransactionId(View(d, 12))), "and stays the same");
    COVER("end");
}
CONTRACT(opaque_string) {
    const size_t n = vc_fork(vc::any_in<size_t>(0, 20, "n"));
    const auto s = vc::any_sv(n, "s");
    const precis::OpaqueString a{std::string(s)}, b{std::string(s)};
    ENSURE(precis::OpaqueStringHash()(a) == precis::OpaqueStringHash()(b), "equal texts hash equally");
    COVER("end");
}
