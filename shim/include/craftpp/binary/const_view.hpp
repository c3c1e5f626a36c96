// Stand-in for the (absent) craftpp dependency: written from the way /repo uses it.
// concat() follows the body kept in /repo/src/util/util_binary_view.cpp.
#pragma once
#include <array>
#include <cstddef>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include "../maybe/maybe.hpp"
#include "../result/result.hpp"
#include "endian.hpp"
namespace craftpp::binary {

class ConstView {
public:
    using ByteVec = std::vector<uint8_t>;
    using Byte = uint8_t;
    struct Interval {
        size_t offset;
        size_t count;
        bool operator==(const Interval&) const noexcept = default;
    };
    ConstView(const void* data, size_t size) noexcept
        : m_data(static_cast<const uint8_t*>(data)), m_size(size) {}
    explicit ConstView(const ByteVec& v) noexcept : m_data(v.data()), m_size(v.size()) {}
    template<size_t N>
    explicit ConstView(const std::array<uint8_t, N>& a) noexcept : m_data(a.data()), m_size(N) {}

    const uint8_t* begin() const noexcept { return m_data; }
    const uint8_t* end() const noexcept { return m_data + m_size; }
    const uint8_t* data() const noexcept { return m_data; }
    size_t size() const noexcept { return m_size; }

    bool contains(const Interval& i) const noexcept {
        return i.offset <= m_size && i.count <= m_size - i.offset;
    }
    maybe::Maybe<uint8_t> read_u8(size_t off) const noexcept {
        if (!contains({off, 1})) return maybe::none();
        return assured_read_u8(off);
    }
    maybe::Maybe<uint16_t> read_u16be(size_t off) const noexcept {
        if (!contains({off, 2})) return maybe::none();
        return assured_read_u16be(off);
    }
    maybe::Maybe<uint32_t> read_u32be(size_t off) const noexcept {
        if (!contains({off, 4})) return maybe::none();
        return assured_read_u32be(off);
    }
    maybe::Maybe<uint64_t> read_u64be(size_t off) const noexcept {
        if (!contains({off, 8})) return maybe::none();
        return assured_read_u64be(off);
    }
    uint8_t assured_read_u8(size_t off) const noexcept { return m_data[off]; }
    uint16_t assured_read_u16be(size_t off) const noexcept {
        uint16_t v;
        std::memcpy(&v, m_data + off, sizeof(v));
        return network_to_host_u16(v);
    }
    uint32_t assured_read_u32be(size_t off) const noexcept {
        uint32_t v;
        std::memcpy(&v, m_data + off, sizeof(v));
        return network_to_host_u32(v);
    }
    uint64_t assured_read_u64be(size_t off) const noexcept {
        uint64_t v;
        std::memcpy(&v, m_data + off, sizeof(v));
        return network_to_host_u64(v);
    }
    maybe::Maybe<ConstView> subview(size_t off) const noexcept {
        if (off > m_size) return maybe::none();
        return ConstView(m_data + off, m_size - off);
    }
    maybe::Maybe<ConstView> subview(size_t off, size_t count) const noexcept {
        return subview(Interval{off, count});
    }
    maybe::Maybe<ConstView> subview(const Interval& i) const noexcept {
        if (!contains(i)) return maybe::none();
        return ConstView(m_data + i.offset, i.count);
    }
    ConstView assured_subview(size_t off, size_t count) const noexcept { return ConstView(m_data + off, count); }
    ConstView assured_subview(const Interval& i) const noexcept { return ConstView(m_data + i.offset, i.count); }

    static ByteVec concat(const std::vector<ConstView>& views) {
        size_t sz = 0;
        for (const auto& v : views) sz += v.size();
        ByteVec result(sz);
        size_t pos = 0;
        for (const auto& v : views) {
            if (v.size() != 0) std::memcpy(result.data() + pos, v.data(), v.size());
            pos += v.size();
        }
        return result;
    }
    bool operator==(const ConstView& o) const noexcept {
        return m_size == o.m_size && (m_size == 0 || std::memcmp(m_data, o.m_data, m_size) == 0);
    }

private:
    const uint8_t* m_data;
    size_t m_size;
};

}
