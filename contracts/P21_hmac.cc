// HMAC (RFC 2104) over any hash function, and the SHA-1 / MD5 functions themselves: what is fed to the hash.
// SOURCES: stun/stun_password.cpp crypto/openssl/openssl_hash.cpp crypto/openssl/openssl_error.cpp
// VC-LIBS: -lcrypto
// VC-OPT(hmac.*|pad.*|password.*): affine=1 unroll=80
// VC-STUB(openssl_.*): ^EVP_MD_CTX_new$ => vcstub_new
// VC-STUB(openssl_.*): ^EVP_MD_CTX_free$ => vcstub_free
// VC-STUB(openssl_.*): ^EVP_DigestInit_ex$ => vcstub_init
// VC-STUB(openssl_.*): ^EVP_DigestUpdate$ => vcstub_update
// VC-STUB(openssl_.*): ^EVP_DigestFinal_ex$ => vcstub_final
// VC-STUB(openssl_.*): ^EVP_(sha1|md5)$ => vcstub_md
// VC-STUB(openssl_.*): ^ERR_(clear|get)_error$ => vcstub_err
// VC-BOUNDED(hmac.*|openssl_.*): texts in up to 3 pieces (of any size)
// VC-TRUSTED(openssl_.*): libcrypto's digests (EVP_*) compute SHA-1 and MD5 of the bytes they are fed
#include "vc.hpp"
#include <openssl/evp.h>
#include "crypto/crypto_hmac.hpp"
#include "crypto/openssl/openssl_hash.hpp"
#include "stun/stun_password.hpp"
#include "ghost_hash.hpp"
using namespace freewebrtc;
using namespace ghost;
static bool padded(const View& v, const uint8_t* key, size_t n, uint8_t x) {
    // v is key, filled with zeros to 64 bytes, xor x
    if (v.size() != 64) return false;
    const size_t i = vc::any_in<size_t>(0, 63, "i");
    if (vc_symbolic()) return i < n ? v.data()[i] == (key[i < n ? i : 0] ^ x) : v.data()[i] == x;
    for (size_t j = 0; j < 64; ++j) if (v.data()[j] != ((j < n ? key[j] : 0) ^ x)) return false;
    return true;
}
template<typename Pad> static void pad_key(uint8_t x) {
    const size_t n = vc::any_in<size_t>(0, 300, "n");
    const uint8_t* key = vc_buf(n, "key");
    Ghost g;
    const auto r = Pad::from_key(View(key, n), g.func());
    ENSURE(r.is_ok(), "every key can be used");
    if (r.is_err()) return;
    const auto v = r.unwrap().view();
    if (n <= 64) {
        ENSURE(g.calls == 0, "a key of up to 64 bytes is used as it is");
        ENSURE(padded(v, key, n, x), "filled with zeros to 64 bytes, xored with the pad");
        COVER("short key");
    } else {
        ENSURE(g.calls == 1 && g.seen[0].text.size() == n && vc::same_bytes(g.seen[0].text.data(), key, n), "a longer key is hashed first");
        ENSURE(padded(v, g.seen[0].digest, 20, x), "its hash is filled with zeros to 64 bytes, xored with the pad");
        COVER("long key");
    }
}
CONTRACT(pad_inner) { pad_key<crypto::hmac::IPadKey>(0x36); }
CONTRACT(pad_outer) { pad_key<crypto::hmac::OPadKey>(0x5c); }
CONTRACT(pad_failure) {
    const size_t n = vc::any_in<size_t>(65, 300, "n");
    const uint8_t* key = vc_buf(n, "key");
    Ghost g;
    g.fails = 0;
    ENSURE(crypto::hmac::IPadKey::from_key(View(key, n), g.func()).is_err(), "a failing hash is reported");
    COVER("end");
}
CONTRACT(hmac) {
    // the two hash calls of HMAC, for a text in pieces
    const uint8_t* key = vc_buf(64, "key");
    Ghost none;
    const auto ip = crypto::hmac::IPadKey::from_key(View(key, 64), none.func()).unwrap();
    const auto op = crypto::hmac::OPadKey::from_key(View(key, 64), none.func()).unwrap();
    const size_t n = vc::any_in<size_t>(0, 400, "n"), m = vc::any_in<size_t>(0, 400, "m");
    const uint8_t *a = vc_buf(n, "a"), *b = vc_buf(m, "b");
    const unsigned pieces = vc_fork(vc::any_in<unsigned>(0, 2, "pieces"));
    std::vector<View> text;
    if (pieces > 0) text.push_back(View(a, n));
    if (pieces > 1) text.push_back(View(b, m));
    const size_t len = (pieces > 0 ? n : 0) + (pieces > 1 ? m : 0);
    Ghost g;
    g.fails = vc_fork(vc::any_in<unsigned>(0, 2, "fails"));
    const auto r = crypto::hmac::digest(text, op, ip, g.func());
    if (g.fails < 2) {
        ENSURE(r.is_err(), "a failing hash is reported");
        ENSURE(r.unwrap_err() == std::make_error_code(std::errc::io_error), "as it is");
        COVER("failure");
        return;
    }
    ENSURE(r.is_ok() && g.calls == 2, "two hashes");
    if (r.is_err() || g.calls != 2) return;
    const auto &in = g.seen[0].text, &out = g.seen[1].text;
    ENSURE(in.size() == 64 + len && out.size() == 64 + 20, "key and text; key and inner hash");
    if (in.size() != 64 + len || out.size() != 84) return;
    ENSURE(vc::same_bytes(in.data(), ip.view().data(), 64), "the inner hash starts with the inner key");
    if (pieces > 0) ENSURE(vc::same_bytes(in.data() + 64, a, n), "then the text");
    if (pieces > 1) ENSURE(vc::same_bytes(in.data() + 64 + n, b, m), "piece by piece");
    ENSURE(vc::same_bytes(out.data(), op.view().data(), 64), "the outer hash starts with the outer key");
    ENSURE(vc::same_bytes(out.data() + 64, g.seen[0].digest, 20), "then the inner hash");
    ENSURE(vc::same_bytes(r.unwrap().value.view().data(), g.seen[1].digest, 20), "the outer hash is the result");
    COVER("end");
}
CONTRACT(password) {
    // the short-term key is the password's bytes
    const size_t n = vc::any_in<size_t>(0, 300, "n");
    const auto s = vc::any_sv(n, "password");
    const uint8_t* p = reinterpret_cast<const uint8_t*>(s.data());
    Ghost g;
    const auto r = stun::Password::short_term(precis::OpaqueString{std::string(s)}, g.func());
    ENSURE(r.is_ok(), "every password can be used");
    if (r.is_err()) return;
    if (n <= 64) {
        ENSURE(padded(r.unwrap().ipad().view(), p, n, 0x36) && padded(r.unwrap().opad().view(), p, n, 0x5c), "the keys of the password");
        COVER("short");
    } else {
        ENSURE(g.calls == 2, "hashed once for each pad");
        for (const auto& c : g.seen) ENSURE(c.text.size() == n && vc::same_bytes(c.text.data(), p, n), "the hash of the password");
        COVER("long");
    }
}
CONTRACT(password_failure) {
    const size_t n = vc::any_in<size_t>(65, 300, "n");
    const auto s = vc::any_sv(n, "password");
    Ghost g;
    g.fails = vc_fork(vc::any_in<unsigned>(0, 1, "fails"));
    ENSURE(stun::Password::short_term(precis::OpaqueString{std::string(s)}, g.func()).is_err(), "a failing hash is reported");
    COVER("end");
}
CONTRACT(digest_value) {
    // digests as values
    const uint8_t *a = vc_buf(20, "a"), *b = vc_buf(20, "b");
    const size_t n = vc::any_in<size_t>(0, 64, "n");
    ENSURE(Hash::from_view(View(vc_buf(n, "c"), n)).is_some() == (n == 20), "a SHA-1 digest has 20 bytes");
    const auto x = Hash::from_view(View(a, 20)).unwrap(), y = Hash::from_view(View(b, 20)).unwrap();
    bool eq = true;
    for (int i = 0; i < 20; ++i) eq = eq & (a[i] == b[i]);
    ENSURE((x == y) == eq, "equal exactly when all bytes are");
    if (eq) COVER("equal"); else COVER("different");
}
// libcrypto: a context that remembers what it was fed
struct Log { unsigned news = 0, frees = 0, inits = 0, finals = 0, fails = 0, calls = 0, nfed = 0; View fed[4] = {View(nullptr, 0), View(nullptr, 0), View(nullptr, 0), View(nullptr, 0)}; bool order = true; };
static Log lib;
static char context[8];
static int step() { return lib.calls++ == lib.fails ? 0 : 1; }
extern "C" void* vcstub_new() { ++lib.news; return lib.fails == 100 ? nullptr : context; }
extern "C" void vcstub_free(void* c) { if (c == context) ++lib.frees; }
extern "C" int vcstub_init(void* c, const void*, void*) { lib.order = lib.order && c == context && lib.nfed == 0; ++lib.inits; return step(); }
extern "C" int vcstub_update(void* c, const void* d, size_t n) {
    lib.order = lib.order && c == context && lib.inits == 1 && lib.finals == 0;
    if (lib.nfed < 4) lib.fed[lib.nfed] = View(d, n);
    ++lib.nfed;
    return step();
}
static unsigned digest_size;
extern "C" int vcstub_final(void* c, uint8_t* out, unsigned* n) {
    lib.order = lib.order && c == context && lib.inits == 1;
    ++lib.finals;
    for (unsigned i = 0; i < digest_size; ++i) out[i] = uint8_t(i + 1);
    if (n) *n = digest_size;
    return step();
}
extern "C" const void* vcstub_md() { return context; }
extern "C" unsigned long vcstub_err() { return 5; }
template<typename H, typename F> static void openssl(F f, const EVP_MD* (*md)()) {
    const size_t n = vc::any_in<size_t>(0, 300, "n"), m = vc::any_in<size_t>(0, 300, "m"), l = vc::any_in<size_t>(0, 300, "l");
    const uint8_t* d = vc_buf(n + m + l, "d");
    const unsigned pieces = vc_fork(vc::any_in<unsigned>(0, 3, "pieces"));
    std::vector<View> in;
    if (pieces > 0) in.push_back(View(d, n));
    if (pieces > 1) in.push_back(View(d + n, m));
    if (pieces > 2) in.push_back(View(d + n + m, l));
    if (!vc_symbolic()) {
        uint8_t want[64];
        unsigned size = 0;
        EVP_Digest(d, (pieces > 0 ? n : 0) + (pieces > 1 ? m : 0) + (pieces > 2 ? l : 0), want, &size, md(), nullptr);
        const auto r = f(in);
        ENSURE(r.is_ok() && size == H::size && std::memcmp(r.unwrap().view().data(), want, size) == 0, "the digest of all the pieces");
        return;
    }
    lib = Log{};
    lib.order = true;
    const unsigned f0 = vc_fork(vc::any_in<unsigned>(0, 7, "fails"));
    lib.fails = f0 == 7 ? 100 : f0 == 6 ? 50 : f0;
    digest_size = H::size;
    const auto r = f(in);
    const unsigned all = pieces + 2;
    const bool fails = lib.fails < all || lib.fails == 100;
    ENSURE(r.is_err() == fails, "fails exactly when libcrypto does");
    ENSURE(lib.news == 1 && lib.frees == (lib.fails == 100 ? 0 : 1), "the context is given back");
    ENSURE(lib.order, "started, fed, finished");
    if (fails) { COVER("failure"); return; }
    ENSURE(lib.inits == 1 && lib.finals == 1 && lib.nfed == pieces, "every piece is fed once");
    bool right = true;
    for (unsigned i = 0; i < pieces && i < lib.nfed; ++i) right = right & (lib.fed[i].data() == in[i].data()) & (lib.fed[i].size() == in[i].size());
    ENSURE(right, "in order");
    bool out = r.unwrap().view().size() == H::size;
    for (unsigned i = 0; i < H::size; ++i) out = out & (r.unwrap().view().data()[i] == i + 1);
    ENSURE(out, "the digest is what libcrypto gives");
    COVER("end");
}
CONTRACT(openssl_sha1) { openssl<crypto::SHA1Hash>(crypto::openssl::sha1, EVP_sha1); }
CONTRACT(openssl_md5) { openssl<crypto::MD5Hash>(crypto::openssl::md5, EVP_md5); }
