// Contract language. The same file is compiled twice: to LLVM IR for the VC
// generator (VC_SYMBOLIC: the vc_* functions are intrinsics), and natively with
// sanitizers as the replay driver that runs a counterexample on the real code.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <string>
#include <string_view>
#include <utility>
#include <vector>

extern "C" {
uint64_t vc_any(unsigned bits, const char* name);
uint64_t vc_any_in(uint64_t lo, uint64_t hi, const char* name);
const uint8_t* vc_buf(size_t n, const char* name);
void vc_require(bool);
void vc_ensure(bool, const char* label);
void vc_cover(const char* label);
bool vc_symbolic();
uint64_t vc_fork(uint64_t);
bool vc_same_object(const void*, const void*);
bool vc_readable(const void*, size_t);
}

#ifdef VC_SYMBOLIC
#define CONTRACT(name) extern "C" __attribute__((used)) void vcc_##name()
#else
namespace vc { struct Reg { Reg(const char*, void (*)()); }; }
#define CONTRACT(name) void vcc_##name(); static ::vc::Reg vcreg_##name(#name, &vcc_##name); void vcc_##name()
#endif

#define REQUIRE(c) vc_require(static_cast<bool>(c))
#define ENSURE(c, label) vc_ensure(static_cast<bool>(c), label)
#define COVER(label) vc_cover(label)

namespace vc {
template<typename T> inline T any(const char* name = "v") {
    return static_cast<T>(vc_any(sizeof(T) * 8, name));
}
inline bool any_bool(const char* name = "b") { return vc_any(8, name) & 1; }
template<typename T> inline T any_in(T lo, T hi, const char* name = "r") {
    return static_cast<T>(vc_any_in(static_cast<uint64_t>(lo), static_cast<uint64_t>(hi), name));
}
inline std::string_view any_sv(size_t n, const char* name = "s") {
    return std::string_view(reinterpret_cast<const char*>(vc_buf(n, name)), n);
}
// all n bytes agree; use only in a position where the claim is to be proved (an arbitrary index stands for all)
inline bool same_bytes(const void* a, const void* b, size_t n) {
    const size_t i = vc_any_in(0, n ? n - 1 : 0, "idx");
    if (vc_symbolic()) return n == 0 || static_cast<const uint8_t*>(a)[i] == static_cast<const uint8_t*>(b)[i];
    return n == 0 || std::memcmp(a, b, n) == 0;
}
}
