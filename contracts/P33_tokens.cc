// Token streams hand out every token once and in order; splitting a text at a separator loses nothing.
// SOURCES: util/util_token_stream.cpp
// VC-BOUNDED(split_all_short|stream_history|flatten): texts of up to 6 bytes, streams of up to 3 tokens with every history of 4 reads, three containers of up to 3 bytes
// VC-OPT(split_first|stream_.*|prefix): affine=1 unroll=12
// VC-OPT(join_split): native_only=1 fuzz=4 maxlen=200
// VC-TRUSTED(join_split): joining goes through std::ostringstream and is searched natively only
#include <vector>
#include <string>
#include <string_view>
#include <functional>
#include <algorithm>
#include <iterator>
#include <sstream>
#include <memory>
#include <variant>
#include <optional>
#include <system_error>
#include "util/util_result.hpp"
#include "util/util_maybe.hpp"
#include "util/util_error.hpp"
#define private public
#include "util/util_token_stream.hpp"
#undef private
#include "vc.hpp"
#include "util/util_string_view.hpp"
#include "util/util_flat.hpp"
using namespace freewebrtc;
using SV = std::string_view;
using TS = util::TokenStream;
static bool same(SV a, SV b) { return a.size() == b.size() && (a.size() == 0 || a.data() == b.data()); }
template<typename S> static void seek(S& s, size_t k) {
    if constexpr (requires { s.m_pos = s.m_data.cbegin() + k; }) s.m_pos = s.m_data.cbegin() + k;
    else for (size_t i = 0; i < k; ++i) s.optional();
}
static bool named(const ::freewebrtc::Error& e, TS::Error code) {
    const std::error_code ec = e;
    return ec.value() == static_cast<int>(code) && SV(ec.category().name()) == "token stream error";
}
// A stream of n tokens of which k have been read; the others than the next two are empty.
struct State {
    size_t n, k;
    SV tok, next;
    std::vector<SV> data;
    State()
        : n(vc::any_in<size_t>(0, 500, "n")), k(vc::any_in<size_t>(0, 500, "k")) {
        REQUIRE(k <= n);
        uint8_t* raw = new uint8_t[sizeof(SV) * n + 1];
        std::memset(raw, 0, sizeof(SV) * n);
        data = std::vector<SV>(reinterpret_cast<const SV*>(raw), reinterpret_cast<const SV*>(raw) + n);
        delete[] raw;
        tok = vc::any_sv(vc::any_in<size_t>(0, 1000, "len"), "tok");
        next = vc::any_sv(vc::any_in<size_t>(0, 1000, "nlen"), "next");
        if (k < n) data[k] = tok;
        if (k + 1 < n) data[k + 1] = next;
    }
    void after(TS& s) {
        const auto r = s.optional();
        ENSURE(r.is_some() == (k + 1 < n), "one token was consumed");
        if (r.is_some()) ENSURE(same(r.unwrap(), next), "the next one follows");
    }
};
CONTRACT(stream_required) {
    State st;
    TS s(st.data);
    seek(s, st.k);
    const auto r = s.required();
    ENSURE(r.is_ok() == (st.k < st.n), "a token is there unless all were read");
    if (r.is_ok()) { ENSURE(same(r.unwrap(), st.tok), "it is the next token"); st.after(s); COVER("token"); }
    else {
        ENSURE(named(r.unwrap_err(), TS::Error::no_required_token), "the error says that no token is left");
        ENSURE(s.optional().is_none(), "and still none is left");
        COVER("end");
    }
}
CONTRACT(stream_optional) {
    State st;
    TS s(std::move(st.data));
    seek(s, st.k);
    const auto r = s.optional();
    ENSURE(r.is_some() == (st.k < st.n), "a token is there unless all were read");
    if (r.is_some()) { ENSURE(same(r.unwrap(), st.tok), "it is the next token"); st.after(s); COVER("token"); }
    else { ENSURE(s.required().is_err(), "and still none is left"); COVER("end"); }
}
CONTRACT(stream_expected) {
    State st;
    const auto want = vc::any_sv(vc::any_in<size_t>(0, 1000, "wlen"), "want");
    TS s(std::move(st.data));
    seek(s, st.k);
    const auto r = s.required(want);
    if (st.k == st.n) {
        ENSURE(r.is_err() && named(r.unwrap_err(), TS::Error::no_required_token), "no token is left");
        COVER("end");
        return;
    }
    const bool eq = st.tok == want;
    ENSURE(r.is_ok() == eq, "succeeds exactly on the expected token");
    if (!eq) ENSURE(named(r.unwrap_err(), TS::Error::expected_token_missed), "the error says that the token was another one");
    st.after(s);
    if (eq) COVER("expected"); else COVER("other");
}
CONTRACT(stream_bind) {
    State st;
    TS s(std::move(st.data));
    seek(s, st.k);
    const bool good = vc::any_bool("good");
    unsigned calls = 0;
    SV seen;
    const auto r = s.required_bind([&](const SV& v) {
        ++calls;
        seen = v;
        if (good) return Result<int>{17};
        return Result<int>{std::make_error_code(std::errc::invalid_argument)};
    });
    ENSURE(calls == (st.k < st.n), "the function is called once, and only with a token");
    ENSURE(r.is_ok() == (st.k < st.n && good), "its result is the result");
    if (calls) {
        ENSURE(same(seen, st.tok), "with the next token");
        if (good) ENSURE(r.unwrap() == 17, "value passed on");
        else ENSURE(r.unwrap_err() == std::make_error_code(std::errc::invalid_argument), "error passed on");
        st.after(s);
        COVER("called");
    } else COVER("not called");
}
CONTRACT(stream_history) {
    const size_t n = vc_fork(vc::any_in<size_t>(0, 3, "n"));
    std::vector<SV> data;
    for (size_t i = 0; i < n; ++i) data.push_back(vc::any_sv(i, "tok"));
    TS s(data);
    size_t k = 0;
    for (int i = 0; i < 4; ++i) {
        switch (vc_fork(vc::any_in<unsigned>(0, 2, "op"))) {
        case 0: { const auto r = s.required(); ENSURE(r.is_ok() == (k < n) && (k == n || same(r.unwrap(), data[k])), "required reads the next token"); break; }
        case 1: { const auto r = s.optional(); ENSURE(r.is_some() == (k < n) && (k == n || same(r.unwrap(), data[k])), "optional reads the next token"); break; }
        default: { const auto r = s.required("zzzz"); ENSURE(r.is_err(), "another token"); }
        }
        if (k < n) ++k;
    }
    COVER("end");
}
CONTRACT(split_first) {
    const size_t n = vc::any_in<size_t>(0, 100000, "n");
    const SV s = vc::any_sv(n, "s");
    const char sep = vc::any<char>("sep");
    const auto r = util::string_view::split(s, sep);
    const size_t at = s.find(sep);
    ENSURE(r.is_some() == (at != SV::npos), "splits exactly when the separator occurs");
    if (r.is_some()) {
        const auto& [a, b] = r.unwrap();
        ENSURE(a.data() == s.data() && a.size() < n && s[a.size()] == sep, "the first part ends at a separator");
        ENSURE(a.find(sep) == SV::npos, "and contains none");
        ENSURE(b.data() == s.data() + a.size() + 1 && b.size() == n - a.size() - 1, "the second part is all that follows it");
        COVER("split");
    } else COVER("whole");
}
CONTRACT(prefix) {
    const size_t n = vc::any_in<size_t>(0, 100000, "n"), k = vc::any<size_t>("k");
    const SV s = vc::any_sv(n, "s");
    const auto r = util::string_view::remove_prefix(s, k);
    ENSURE(r.is_some() == (k <= n), "a prefix is removed exactly when it exists");
    if (r.is_some()) { ENSURE(r.unwrap().data() == s.data() + k && r.unwrap().size() == n - k, "the rest is left"); COVER("rest"); } else COVER("none");
}
static void check_all(SV s, char sep) {
    const auto v = util::string_view::split_all(s, sep);
    // expected parts: between separators; an empty part after the last separator is not a part
    size_t k = 0, from = 0;
    for (size_t i = 0; i <= s.size(); ++i) {
        if (i < s.size() && s[i] != sep) continue;
        if (i == s.size() && from == i) break;
        ENSURE(k < v.size() && v[k].size() == i - from && v[k].data() == s.data() + from, "each part is the text between two separators, in order");
        ++k;
        from = i + 1;
    }
    ENSURE(k == v.size(), "no other parts");
}
CONTRACT(split_all_short) {
    const size_t n = vc_fork(vc::any_in<size_t>(0, 6, "n"));
    check_all(vc::any_sv(n, "s"), ' ');
    COVER("end");
}
CONTRACT(join_split) {
    const size_t n = vc::any_in<size_t>(0, 60, "n");
    const SV raw = vc::any_sv(n, "s");
    std::string s(raw);
    for (auto& c: s) if (c & 1) c = ' ';
    check_all(s, ' ');
    const auto v = util::string_view::split_all(SV(s), ' ');
    std::string j = util::string_view::join(v, " ");
    if (!s.empty() && s.back() == ' ') j += ' ';
    ENSURE(j == s, "joining the parts gives the text (up to a final separator)");
    COVER("end");
}
CONTRACT(flatten) {
    // concatenation of containers: bytes and order kept
    const size_t a = vc_fork(vc::any_in<size_t>(0, 3, "a")), b = vc_fork(vc::any_in<size_t>(0, 3, "b")), c = vc_fork(vc::any_in<size_t>(0, 3, "c"));
    const size_t len[] = {a, b, c};
    std::vector<std::vector<uint8_t>> v;
    std::vector<uint8_t> want;
    for (size_t m: len) {
        const uint8_t* d = vc_buf(m, "d");
        v.emplace_back(d, d + m);
        for (size_t i = 0; i < m; ++i) want.push_back(d[i]);
    }
    const auto r = util::flat_vec(v);
    ENSURE(r.size() == want.size(), "all bytes");
    bool same = true;
    for (size_t i = 0; i < want.size() && i < r.size(); ++i) same = same & (r[i] == want[i]);
    ENSURE(same, "in order");
    COVER("end");
}
