// Stand-in for the (absent) craftpp dependency: written from the way /repo uses it.
//
// An error is a std::error_code plus a human readable context. The context is
// dropped (not stored) when VC_SYMBOLIC is defined; no property depends on it.
#pragma once
#include <string>
#include <string_view>
#include <system_error>
#include <type_traits>
#include <utility>
#include <vector>
namespace craftpp::error {

class Error {
public:
    Error(std::error_code ec) noexcept : m_code(ec) {}

    int value() const noexcept { return m_code.value(); }
    const std::error_category& category() const noexcept { return m_code.category(); }
    std::error_code code() const noexcept { return m_code; }
    operator std::error_code() const noexcept { return m_code; }

#ifdef VC_SYMBOLIC
    template<typename... Args> Error& add_context(Args&&...) & noexcept { return *this; }
    template<typename... Args> Error&& add_context(Args&&...) && noexcept { return std::move(*this); }
    std::string message() const { return m_code.message(); }
#else
    template<typename... Args> Error& add_context(Args&&... args) & {
        std::string s;
        (append(s, args), ...);
        m_context.emplace_back(std::move(s));
        return *this;
    }
    template<typename... Args> Error&& add_context(Args&&... args) && {
        static_cast<Error&>(*this).add_context(std::forward<Args>(args)...);
        return std::move(*this);
    }
    std::string message() const {
        std::string out;
        for (auto it = m_context.rbegin(); it != m_context.rend(); ++it) {
            out += *it;
            out += ": ";
        }
        return out + m_code.message();
    }
#endif
    friend bool operator==(const Error& a, const Error& b) noexcept { return a.m_code == b.m_code; }
    friend bool operator==(const Error& a, const std::error_code& b) noexcept { return a.m_code == b; }

private:
#ifndef VC_SYMBOLIC
    template<typename A> static void append(std::string& s, const A& a) {
        if (!s.empty()) s += ' ';
        if constexpr (std::is_convertible_v<const A&, std::string_view>) s += std::string(std::string_view(a));
        else s += std::to_string(a);
    }
    std::vector<std::string> m_context;
#endif
    std::error_code m_code;
};

}
