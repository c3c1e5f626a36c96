// CRC-32 (the FINGERPRINT checksum): the value of every text of every length, in one piece or many.
// SOURCES: stun/details/stun_fingerprint.cpp
// VC-OPT(crc_.*): affine=1 unroll=12
#include "vc.hpp"
#include "stun/details/stun_fingerprint.hpp"
using namespace freewebrtc;
using View = util::ConstBinaryView;
// ISO 3309 / ITU-T V.42, reflected, bit by bit
static uint32_t step(uint32_t crc, uint8_t v) {
    uint32_t c = ~crc ^ v;
    for (int i = 0; i < 8; ++i) c = (c >> 1) ^ (0xEDB88320u & (0u - (c & 1)));
    return ~c;
}
CONTRACT(crc_empty) {
    ENSURE(stun::crc32(View(vc_buf(4, "d"), 0)) == 0, "the checksum of nothing");
    ENSURE(stun::crc32(std::vector<View>{}) == 0, "the checksum of no pieces");
    ENSURE(stun::FINGERPRINT_XOR == 0x5354554e, "the standard's mask");
    COVER("end");
}
CONTRACT(crc_one_more_byte) {
    // together with crc_empty: the checksum of every text, by induction on its length
    const size_t n = vc::any_in<size_t>(0, 100000, "n");
    const uint8_t* d = vc_buf(n + 1, "d");
    ENSURE(stun::crc32(View(d, n + 1)) == step(stun::crc32(View(d, n)), d[n]), "one more byte is one more step of the polynomial division");
    if (n == 0) COVER("first"); else COVER("later");
}
CONTRACT(crc_pieces) {
    const size_t n = vc::any_in<size_t>(0, 100000, "n"), m = vc::any_in<size_t>(0, 100000, "m"), l = vc::any_in<size_t>(0, 100000, "l");
    const uint8_t* d = vc_buf(n + m + l, "d");
    const auto whole = stun::crc32(View(d, n + m + l));
    ENSURE(stun::crc32(std::vector<View>{View(d, n), View(d + n, m), View(d + n + m, l)}) == whole, "three pieces");
    ENSURE(stun::crc32(std::vector<View>{View(d, n + m), View(d + n + m, l)}) == whole, "two pieces");
    ENSURE(stun::crc32(std::vector<View>{View(d, n + m + l)}) == whole, "one piece");
    COVER("end");
}
CONTRACT(crc_elsewhere) {
    const size_t n = vc::any_in<size_t>(0, 100000, "n");
    const uint8_t* d = vc_buf(n, "d");
    const std::vector<uint8_t> c(d, d + n);
    ENSURE(stun::crc32(View(c)) == stun::crc32(View(d, n)), "only the bytes count, not where they are");
    COVER("end");
}
CONTRACT(crc_step_detects) {
    // a changed checksum state never converges again: one changed byte, whatever follows, changes the checksum
    const auto a = vc::any<uint32_t>("a"), b = vc::any<uint32_t>("b");
    const auto v = vc::any<uint8_t>("v"), w = vc::any<uint8_t>("w");
    if (a != b) ENSURE(step(a, v) != step(b, v), "different states stay different");
    if (v != w) ENSURE(step(a, v) != step(a, w), "different bytes give different states");
    COVER("end");
}
CONTRACT(crc_vectors) {
    ENSURE(stun::crc32(View("123456789", 9)) == 0xCBF43926u, "the check value of the standard");
    COVER("end");
}
