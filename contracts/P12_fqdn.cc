// Domain names: the longest well-formed prefix, nothing invented and nothing lost.
// SOURCES: net/net_fqdn.cpp net/net_error.cpp
// VC-BOUNDED(fqdn_(parse|whole)): text of up to 6 bytes with any number of labels; longer text is searched natively
// VC-BOUNDED(fqdn_two_labels): up to two labels (of any size)
// VC-SPLIT: fqdn_parse fqdn_whole
// VC-OPT(fqdn_(parse|whole)): T_time=1500
// VC-OPT(fqdn_two_labels): time=300
// VC-OPT(fqdn_long): native_only=1 fuzz=4 maxlen=300
#include "vc.hpp"
#include "net/net_fqdn.hpp"
#include "net/net_error.hpp"
using namespace freewebrtc;
static constexpr size_t LIM = 6;
static bool let_dig(unsigned char c) {
    return (('A' <= c) & (c <= 'Z')) | (('a' <= c) & (c <= 'z')) | (('0' <= c) & (c <= '9')) | (c == '_');
}
// s[0..k) is: labels of let-dig-hyp joined by dots, each starting and ending with let-dig, optional final dot
static bool well_formed(std::string_view s, size_t k) {
    bool r = k >= 1 && let_dig(s[0]) && s[k - 1] != '-';
    for (size_t i = 1; i < k; ++i) {
        const unsigned char c = s[i], b = s[i - 1];
        r = r & (let_dig(c) | (c == '-') | (c == '.'));
        r = r & ((c != '.') | let_dig(b));                  // a label ends with let-dig
        r = r & ((b != '.') | let_dig(c));                  // and starts with one
    }
    return r;
}
static void check_parse(std::string_view s) {
    const size_t n = s.size();
    const auto r = net::Fqdn::parse(s);
    bool any = n >= 1 && let_dig(s[0]);
    ENSURE(r.is_ok() == any, "a name is found iff the text starts with a letter, digit or underscore");
    if (r.is_err()) {
        ENSURE(r.unwrap_err() == make_error_code(net::Error::fqdn_invalid_label_expect_letter), "error");
        COVER("rejected");
        return;
    }
    const auto& p = r.unwrap();
    const std::string_view v = p.value.to_string();
    ENSURE(v.size() + p.rest.size() == n && s.substr(0, v.size()) == v && s.substr(v.size()) == p.rest, "value and rest partition the text");
    const size_t k = v.size();
    ENSURE(well_formed(s, k), "the value is a well-formed name");
    for (size_t m = k + 1; m <= n; ++m) ENSURE(!well_formed(s, m), "no longer prefix is a name");
    if (k < n) COVER("with rest"); else COVER("complete");
}
// size of the label at s[from), 0 when there is none
static size_t label(std::string_view s, size_t from) {
    if (from >= s.size() || !let_dig(s[from])) return 0;
    size_t last = 0;
    size_t i = 1;
    for (; i < s.size() - from; ++i) {
        const unsigned char c = s[from + i];
        if (!let_dig(c) & (c != '-')) break;
        last = let_dig(c) ? i : last;
    }
    return last + 1;
}
// texts of any size, with one label or two at their start
static void labels(bool two) {
    const auto n = vc::any_in<size_t>(0, 100000, "n");
    const uint8_t* raw = vc_buf(n, "s");
    const std::string_view s(reinterpret_cast<const char*>(raw), n);
    const size_t k1 = label(s, 0);
    size_t k = k1;
    if (k1 != 0 && k1 < n && s[k1] == '.') {
        REQUIRE(two);
        k += 1 + label(s, k1 + 1);
        if (k > k1 + 1 && k < n) REQUIRE(s[k] != '.');
    }
    const auto r = net::Fqdn::parse(s);
    ENSURE(r.is_ok() == (k != 0), "a name is found iff the text starts with a letter, digit or underscore");
    if (r.is_err()) {
        COVER("rejected");
        return;
    }
    const auto& p = r.unwrap();
    const std::string v = p.value.to_string();
    ENSURE(v.size() == k && p.rest.size() == n - k, "the longest name, ending with its last letter or digit before any other character than a hyphen");
    ENSURE(vc::same_bytes(v.data(), raw, k) && p.rest.data() == s.data() + k, "value and rest partition the text");
    if (k < n) COVER("with rest"); else COVER("complete");
}
CONTRACT(fqdn_label) { labels(false); }
CONTRACT(fqdn_label_whole) {
    const auto n = vc::any_in<size_t>(0, 100000, "n");
    const uint8_t* raw = vc_buf(n, "s");
    const std::string_view s(reinterpret_cast<const char*>(raw), n);
    const size_t k = label(s, 0);
    if (k != 0 && k < n) REQUIRE(s[k] != '.');
    const auto r = net::Fqdn::from_string(s);
    ENSURE(r.is_ok() == (k != 0 && k == n), "whole text accepted iff it is a name");
    if (r.is_err()) {
        COVER("rejected");
        return;
    }
    const std::string v = r.unwrap().to_string();
    ENSURE(v.size() == n && vc::same_bytes(v.data(), raw, n), "keeps its text");
    COVER("accepted");
}
CONTRACT(fqdn_two_labels) { labels(true); }
CONTRACT(fqdn_parse) {
    const auto n = vc_fork(vc::any_in<size_t>(0, LIM, "n"));
    check_parse(vc::any_sv(n, "s"));
}
CONTRACT(fqdn_whole) {
    const auto n = vc_fork(vc::any_in<size_t>(0, LIM, "n"));
    const auto s = vc::any_sv(n, "s");
    const auto r = net::Fqdn::from_string(s);
    ENSURE(r.is_ok() == (n >= 1 && well_formed(s, n)), "whole text accepted iff it is a name");
    if (r.is_ok()) {
        ENSURE(r.unwrap().to_string() == s, "keeps its text");
        COVER("ok");
    } else {
        ENSURE(r.unwrap_err() == make_error_code(n >= 1 && let_dig(s[0]) ? net::Error::fqdn_not_fully_parsed : net::Error::fqdn_invalid_label_expect_letter), "error names the defect");
        COVER("err");
    }
}
CONTRACT(fqdn_long) {
    const auto n = vc::any_in<size_t>(0, 255, "n");
    const uint8_t* raw = vc_buf(n, "raw");
    static const char alpha[] = "abzAZ019_-.--..  ~/`@[{:";
    std::string t;
    for (size_t i = 0; i < n; ++i) t.push_back(raw[i] & 0x80 ? static_cast<char>(raw[i]) : alpha[raw[i] % (sizeof(alpha) - 1)]);
    check_parse(t);
    ENSURE(net::Fqdn::from_string(t).is_ok() == (n >= 1 && well_formed(t, n)), "whole text accepted iff it is a name");
}
