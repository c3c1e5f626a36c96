// Code standing for libc functions under the VC generator (the native replay runs the real ones).
#include <cstdint>
#include <cstddef>
extern "C" {
static int vc_errno_cell;
int* __errno_location() { return &vc_errno_cell; }
static long vc_strtol10(const char* s, char** end) {
    const char* p = s;
    while (*p == ' ' || (*p >= 9 && *p <= 13)) ++p;
    bool neg = false;
    if (*p == '-' || *p == '+') neg = *p++ == '-';
    const char* d = p;
    unsigned long v = 0;
    bool over = false;
    while (*p >= '0' && *p <= '9') {
        const unsigned long k = static_cast<unsigned long>(*p - '0');
        if (v > 922337203685477580ul || (v == 922337203685477580ul && k > (neg ? 8u : 7u))) over = true;
        v = v * 10 + k;
        ++p;
    }
    if (end) *end = const_cast<char*>(p == d ? s : p);
    if (over) { vc_errno_cell = 34; return neg ? INT64_MIN : INT64_MAX; }
    return static_cast<long>(neg ? 0 - v : v);
}
long strtol(const char* s, char** e, int) { return vc_strtol10(s, e); }
long __isoc23_strtol(const char* s, char** e, int) { return vc_strtol10(s, e); }
long strtoll(const char* s, char** e, int) { return vc_strtol10(s, e); }
long __isoc23_strtoll(const char* s, char** e, int) { return vc_strtol10(s, e); }
int atoi(const char* s) { return static_cast<int>(vc_strtol10(s, nullptr)); }
static unsigned long vc_strtoul10(const char* s, char** end) {
    const char* p = s;
    while (*p == ' ' || (*p >= 9 && *p <= 13)) ++p;
    bool neg = false;
    if (*p == '-' || *p == '+') neg = *p++ == '-';
    const char* d = p;
    unsigned long v = 0;
    bool over = false;
    while (*p >= '0' && *p <= '9') {
        const unsigned long k = static_cast<unsigned long>(*p - '0');
        if (v > 1844674407370955161ul || (v == 1844674407370955161ul && k > 5)) over = true;
        v = v * 10 + k;
        ++p;
    }
    if (end) *end = const_cast<char*>(p == d ? s : p);
    if (over) { vc_errno_cell = 34; return ~0ul; }
    return neg ? 0 - v : v;
}
unsigned long strtoul(const char* s, char** e, int) { return vc_strtoul10(s, e); }
unsigned long __isoc23_strtoul(const char* s, char** e, int) { return vc_strtoul10(s, e); }
unsigned long strtoull(const char* s, char** e, int) { return vc_strtoul10(s, e); }
unsigned long __isoc23_strtoull(const char* s, char** e, int) { return vc_strtoul10(s, e); }
}
// inet_pton: strict dotted decimal (no leading zeros) and RFC 4291 text, as glibc
extern "C" {
static int vc_pton4(const char* s, uint8_t* out) {
    uint8_t tmp[4] = {0, 0, 0, 0};
    int octets = 0;
    bool digit = false;
    unsigned cur = 0;
    for (char c; (c = *s) != 0; ++s) {
        if (c >= '0' && c <= '9') {
            const unsigned nv = cur * 10 + static_cast<unsigned>(c - '0');
            if (digit && cur == 0) return 0;
            if (nv > 255) return 0;
            cur = nv;
            if (!digit) {
                if (++octets > 4) return 0;
                digit = true;
            }
            tmp[octets - 1] = static_cast<uint8_t>(cur);
        } else if (c == '.' && digit) {
            if (octets == 4) return 0;
            cur = 0;
            digit = false;
        } else {
            return 0;
        }
    }
    if (octets < 4 || !digit) return 0;
    for (int i = 0; i < 4; ++i) out[i] = tmp[i];
    return 1;
}
static int vc_hex(char c) {
    if (c >= '0' && c <= '9') return c - '0';
    if (c >= 'a' && c <= 'f') return c - 'a' + 10;
    if (c >= 'A' && c <= 'F') return c - 'A' + 10;
    return -1;
}
static int vc_pton6(const char* s, uint8_t* out) {
    uint8_t tmp[16];
    for (auto& b : tmp) b = 0;
    int pos = 0, colon = -1;
    if (*s == ':') {
        if (s[1] != ':') return 0;
        ++s;
    }
    const char* tok = s;
    int digits = 0;
    unsigned v = 0;
    while (char c = *s) {
        ++s;
        const int h = vc_hex(c);
        if (h >= 0) {
            if (digits == 4) return 0;
            v = (v << 4) | static_cast<unsigned>(h);
            ++digits;
            continue;
        }
        if (c == ':') {
            tok = s;
            if (digits == 0) {
                if (colon >= 0) return 0;
                colon = pos;
                continue;
            }
            if (*s == 0) return 0;
            if (pos + 2 > 16) return 0;
            tmp[pos++] = static_cast<uint8_t>(v >> 8);
            tmp[pos++] = static_cast<uint8_t>(v);
            digits = 0;
            v = 0;
            continue;
        }
        if (c == '.' && pos + 4 <= 16 && vc_pton4(tok, tmp + pos)) {
            pos += 4;
            digits = 0;
            break;
        }
        return 0;
    }
    if (digits > 0) {
        if (pos + 2 > 16) return 0;
        tmp[pos++] = static_cast<uint8_t>(v >> 8);
        tmp[pos++] = static_cast<uint8_t>(v);
    }
    if (colon >= 0) {
        if (pos == 16) return 0;
        const int n = pos - colon;
        for (int i = 1; i <= n; ++i) {
            tmp[16 - i] = tmp[colon + n - i];
            tmp[colon + n - i] = 0;
        }
        pos = 16;
    }
    if (pos != 16) return 0;
    for (int i = 0; i < 16; ++i) out[i] = tmp[i];
    return 1;
}
int inet_pton(int af, const char* s, void* dst) {
    if (af == 2) return vc_pton4(s, static_cast<uint8_t*>(dst));
    if (af == 10) return vc_pton6(s, static_cast<uint8_t*>(dst));
    vc_errno_cell = 97;
    return -1;
}
}
