// ABNF character classes and case-insensitive comparison.
// VC-BOUNDED(eq_short): strings of up to 7 bytes (every length unrolled; decides also when the loop rule does not apply)
// VC-OPT(eq_(strings|laws)): fuzz=3 affine=1 unroll=12
#include "vc.hpp"
#include "abnf/abnf.hpp"
#include "ice/ice_abnf.hpp"
using namespace freewebrtc;
static bool in(uint8_t c, uint8_t lo, uint8_t hi) { return lo <= c && c <= hi; }
static bool alpha(uint8_t c) { return in(c, 'A', 'Z') || in(c, 'a', 'z'); }
CONTRACT(char_classes) {
    const auto u = vc::any<uint8_t>("c");
    const char c = static_cast<char>(u);
    ENSURE(abnf::is_ALPHA(c) == alpha(u), "ALPHA is A-Z a-z");
    ENSURE(abnf::is_DIGIT(c) == in(u, '0', '9'), "DIGIT is 0-9");
    ENSURE(ice::abnf::is_ice_char(c) == (alpha(u) || in(u, '0', '9') || u == '+' || u == '/'), "ice-char is ALPHA DIGIT + /");
    if (ice::abnf::is_ice_char(c)) COVER("in"); else COVER("out");
}
static uint8_t low(uint8_t c) { return in(c, 'A', 'Z') ? c + 32 : c; }
static bool agree(const char* a, const char* b, size_t n) {
    for (size_t i = 0; i < n; ++i)
        if (low(a[i]) != low(b[i])) return false;
    return true;
}
CONTRACT(eq_strings) {
    const size_t n = vc::any_in<size_t>(0, 1000000, "n");
    const auto a = vc::any_sv(n, "a"), b = vc::any_sv(n, "b");
    const bool r = abnf::eq_string(a, b);
    ENSURE(r == agree(a.data(), b.data(), n), "strings of one length are equal iff all their letters agree up to ASCII case");
    if (r && n) {
        const size_t i = vc::any_in<size_t>(0, n - 1, "i");
        ENSURE(low(a[i]) == low(b[i]), "equal strings agree at every position");
    }
    if (r) COVER("equal"); else COVER("different");
}
CONTRACT(eq_laws) {
    const size_t n = vc::any_in<size_t>(0, 1000000, "n");
    const auto a = vc::any_sv(n, "a"), b = vc::any_sv(n, "b"), c = vc::any_sv(n, "c");
    ENSURE(abnf::eq_string(a, a), "reflexive");
    const bool ab = abnf::eq_string(a, b), bc = abnf::eq_string(b, c);
    ENSURE(ab == abnf::eq_string(b, a), "symmetric");
    if (ab && bc) {
        ENSURE(abnf::eq_string(a, c), "transitive");
        COVER("chain");
    }
}
CONTRACT(eq_short) {
    const size_t n = vc_fork(vc::any_in<size_t>(0, 7, "n")), m = vc_fork(vc::any_in<size_t>(0, 7, "m"));
    const auto a = vc::any_sv(n, "a"), b = vc::any_sv(m, "b");
    bool same = n == m;
    for (size_t i = 0; i < n && n == m; ++i) same = same & (low(a[i]) == low(b[i]));
    const bool r = abnf::eq_string(a, b);
    ENSURE(r == same, "equal iff same length and same letters up to ASCII case");
    if (r) COVER("equal"); else COVER("different");
}
CONTRACT(length_mismatch) {
    const size_t n = vc::any_in<size_t>(0, 100000, "n"), m = vc::any_in<size_t>(0, 100000, "m");
    REQUIRE(n != m);
    ENSURE(!abnf::eq_string(vc::any_sv(n, "a"), vc::any_sv(m, "b")), "different lengths are never equal");
    COVER("end");
}
