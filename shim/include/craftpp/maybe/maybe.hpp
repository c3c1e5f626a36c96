// Stand-in for the (absent) craftpp dependency: written from the way /repo uses it.
#pragma once
#include <functional>
#include <memory>
#include <new>
#include <system_error>
#include <type_traits>
#include <utility>
#include <cstdlib>
#include "../result/fwd.hpp"
#include "../types/unit.hpp"

namespace craftpp::maybe {

struct None { bool operator==(const None&) const noexcept = default; };
inline constexpr None none() noexcept { return None{}; }

enum class MaybeErrorCode { ok = 0, value_required = 1 };

class MaybeErrorCategory : public std::error_category {
public:
    const char* name() const noexcept override { return "maybe error"; }
    std::string message(int code) const override {
        return code == (int)MaybeErrorCode::value_required ? "value required" : "success";
    }
};
inline const std::error_category& maybe_error_category() noexcept {
    static const MaybeErrorCategory cat;
    return cat;
}

template<typename T> class Maybe;
template<typename T> struct is_maybe : std::false_type {};
template<typename T> struct is_maybe<Maybe<T>> : std::true_type {};

template<typename T>
class Maybe {
public:
    using Value = T;
    Maybe() noexcept : m_some(false), m_dummy() {}
    Maybe(None) noexcept : m_some(false), m_dummy() {}
    template<typename U = T>
        requires (!std::is_same_v<std::remove_cvref_t<U>, Maybe>
                  && !std::is_same_v<std::remove_cvref_t<U>, None>
                  && std::is_constructible_v<T, U&&> && std::is_convertible_v<U&&, T>)
    Maybe(U&& u) : m_some(true) { ::new ((void*)std::addressof(m_value)) T(std::forward<U>(u)); }
    Maybe(const Maybe& o) : m_some(o.m_some), m_dummy() {
        if (m_some) ::new ((void*)std::addressof(m_value)) T(o.m_value);
    }
    Maybe(Maybe&& o) noexcept : m_some(o.m_some), m_dummy() {
        if (m_some) ::new ((void*)std::addressof(m_value)) T(std::move(o.m_value));
    }
    ~Maybe() { reset(); }
    Maybe& operator=(const Maybe& o) {
        if (this != &o) {
            Maybe tmp(o);
            *this = std::move(tmp);
        }
        return *this;
    }
    Maybe& operator=(Maybe&& o) noexcept {
        if (this != &o) {
            reset();
            if (o.m_some) {
                ::new ((void*)std::addressof(m_value)) T(std::move(o.m_value));
                m_some = true;
            }
        }
        return *this;
    }
    static Maybe none() { return Maybe(None{}); }
    static Maybe move_from(T&& t) { return Maybe(std::move(t)); }
    static Maybe copy_from(const T& t) { return Maybe(t); }

    bool is_some() const noexcept { return m_some; }
    bool is_none() const noexcept { return !m_some; }

    T& unwrap() & noexcept { check(); return m_value; }
    const T& unwrap() const& noexcept { check(); return m_value; }
    T&& unwrap() && noexcept { check(); return std::move(m_value); }

    template<typename F> auto fmap(F&& f) & { return do_fmap<T&>(m_value, f); }
    template<typename F> auto fmap(F&& f) const& { return do_fmap<const T&>(m_value, f); }
    template<typename F> auto fmap(F&& f) && { return do_fmap<T&&>(m_value, f); }

    template<typename F> auto bind(F&& f) & { return do_bind<T&>(m_value, f); }
    template<typename F> auto bind(F&& f) const& { return do_bind<const T&>(m_value, f); }
    template<typename F> auto bind(F&& f) && { return do_bind<T&&>(m_value, f); }

    template<typename F> void with_inner(F&& f) & { if (m_some) f(m_value); }
    template<typename F> void with_inner(F&& f) const& { if (m_some) f(m_value); }
    template<typename F> void with_inner(F&& f) && { if (m_some) f(std::move(m_value)); }

    template<typename U> T value_or(U&& u) const& {
        if (m_some) return m_value;
        return T(std::forward<U>(u));
    }
    template<typename U> T value_or(U&& u) && {
        if (m_some) return std::move(m_value);
        return T(std::forward<U>(u));
    }
    template<typename F> T value_or_call(F&& f) const& {
        if (m_some) return m_value;
        return f();
    }
    template<typename F> T value_or_call(F&& f) && {
        if (m_some) return std::move(m_value);
        return f();
    }
    result::Result<T> require() const&;
    result::Result<T> require() &&;

    friend bool operator==(const Maybe& a, const Maybe& b) noexcept {
        if (a.m_some != b.m_some) return false;
        return !a.m_some || a.m_value == b.m_value;
    }

private:
    void check() const noexcept { if (!m_some) std::abort(); }
    void reset() noexcept {
        if (m_some) {
            m_some = false;
            m_value.~T();
        }
    }
    template<typename R, typename V, typename F>
    auto do_fmap(V&& v, F&& f) const {
        using X = std::invoke_result_t<F, R>;
        if constexpr (std::is_void_v<X>) {
            if (!m_some) return Maybe<types::Unit>(None{});
            f(static_cast<R>(v));
            return Maybe<types::Unit>(types::Unit::create());
        } else {
            using M = Maybe<std::decay_t<X>>;
            if (!m_some) return M(None{});
            return M(f(static_cast<R>(v)));
        }
    }
    template<typename R, typename V, typename F>
    auto do_bind(V&& v, F&& f) const {
        using M = std::decay_t<std::invoke_result_t<F, R>>;
        static_assert(is_maybe<M>::value, "bind of Maybe must return Maybe");
        if (!m_some) return M(None{});
        return M(f(static_cast<R>(v)));
    }
    bool m_some;
    union {
        char m_dummy;
        T m_value;
    };
};

}
#include "../result/result.hpp"
