// Native side of vc.hpp: runs one contract on one input stream (libFuzzer entry).
#include "vc.hpp"
#include <cstdio>
#include <cstdlib>
#include <map>
#include <memory>
#include <set>

namespace {
struct Reject {};
const uint8_t* g_p;
const uint8_t* g_e;
std::vector<std::unique_ptr<uint8_t[]>> g_bufs;
std::map<std::string, void (*)()>& reg() { static std::map<std::string, void (*)()> r; return r; }
bool g_verbose;
unsigned long g_runs, g_rejects;
std::set<std::string> g_covers;
uint64_t pop(unsigned n) {
    uint64_t v = 0;
    for (unsigned i = 0; i < n; ++i) {
        uint64_t b = g_p < g_e ? *g_p++ : 0;
        v |= b << (8 * i);
    }
    return v;
}
}

namespace vc { Reg::Reg(const char* n, void (*f)()) { reg()[n] = f; } }

extern "C" {
uint64_t vc_any(unsigned bits, const char* name) {
    uint64_t v = pop((bits + 7) / 8);
    if (bits < 64) v &= (uint64_t(1) << bits) - 1;
    if (g_verbose) fprintf(stderr, "  %s = %llu (0x%llx)\n", name, (unsigned long long)v, (unsigned long long)v);
    return v;
}
uint64_t vc_any_in(uint64_t lo, uint64_t hi, const char* name) {
    if (lo > hi) throw Reject{};
    uint64_t d = hi - lo, x = d;
    unsigned w = 0;
    while (x) { ++w; x >>= 8; }
    if (!w) w = 1;
    uint64_t v = pop(w);
    v = d == UINT64_MAX ? v : v % (d + 1);
    if (g_verbose) fprintf(stderr, "  %s = %llu\n", name, (unsigned long long)(lo + v));
    return lo + v;
}
const uint8_t* vc_buf(size_t n, const char* name) {
    if (n > (1u << 20)) throw Reject{};
    g_bufs.emplace_back(new uint8_t[n]);
    uint8_t* b = g_bufs.back().get();
    for (size_t i = 0; i < n; ++i) b[i] = g_p < g_e ? *g_p++ : 0;
    if (g_verbose) {
        fprintf(stderr, "  %s = [%zu]", name, n);
        for (size_t i = 0; i < n && i < 256; ++i) fprintf(stderr, " %02x", b[i]);
        fprintf(stderr, "\n");
    }
    return b;
}
void vc_require(bool c) { if (!c) throw Reject{}; }
void vc_ensure(bool c, const char* label) {
    if (!c && strncmp(label, "ind:", 4) == 0) return; // only demotes a history claim to a bounded one
    if (!c) {
        fprintf(stderr, "ENSURE-FAIL %s\n", label);
        fflush(stderr);
        abort();
    }
}
void vc_cover(const char* l) { if (g_covers.insert(l).second && g_verbose) fprintf(stderr, "  cover %s\n", l); }
bool vc_symbolic() { return false; }
uint64_t vc_fork(uint64_t v) { return v; }
bool vc_same_object(const void*, const void*) { return true; }
bool vc_readable(const void* p, size_t n) {
    volatile uint8_t s = 0;
    for (size_t i = 0; i < n; ++i) s = s + static_cast<const uint8_t*>(p)[i];
    return true;
}
}

static void (*g_fn)();

extern "C" int LLVMFuzzerInitialize(int*, char***) {
    const char* c = getenv("VC_CONTRACT");
    g_verbose = getenv("VC_VERBOSE") != nullptr;
    if (!c || !reg().count(c)) {
        for (auto& kv : reg()) printf("%s\n", kv.first.c_str());
        fflush(stdout);
        _Exit(c ? 3 : 0);
    }
    g_fn = reg()[c];
    return 0;
}
extern "C" int LLVMFuzzerTestOneInput(const uint8_t* d, size_t n) {
    g_p = d;
    g_e = d + n;
    ++g_runs;
    int rc = 0;
    try { g_fn(); } catch (const Reject&) { ++g_rejects; rc = -1; }
    g_bufs.clear();
    return rc;
}
