// A hash function of which nothing is known but that it is a function.
#pragma once
#include "vc.hpp"
#include "crypto/crypto_hash.hpp"
namespace ghost {
using namespace freewebrtc;
using View = util::ConstBinaryView;
using Hash = crypto::SHA1Hash;
// all bytes of the views
template<typename In> inline std::vector<uint8_t> text_of(const In& in) {
    size_t n = 0, at = 0;
    for (const auto& v : in) n += v.size();
    std::vector<uint8_t> t(n);
    for (const auto& v : in) {
        if (v.size()) std::memcpy(t.data() + at, v.data(), v.size());
        at += v.size();
    }
    return t;
}
// any function of the bytes: it gives an arbitrary digest for each text it has not seen before, or fails
struct Ghost {
    struct Seen { std::vector<uint8_t> text; const uint8_t* digest; };
    std::vector<Seen> seen;
    unsigned calls = 0, fails = 99;
    Hash::Result operator()(const Hash::Input& in) {
        if (calls++ == fails) return std::make_error_code(std::errc::io_error);
        Seen s{text_of(in), vc_buf(20, "digest")};
        seen.push_back(std::move(s));
        Hash::Value v;
        std::memcpy(v.data(), seen.back().digest, 20);
        return Hash(std::move(v));
    }
    Hash::Func func() { return [this](const Hash::Input& in) { return (*this)(in); }; }
};
}
