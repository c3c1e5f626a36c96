// Stand-in for the (absent) craftpp dependency: written from the way /repo uses it.
#pragma once
#include <cstdlib>
#include <functional>
#include <memory>
#include <new>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>
#include "../error/error.hpp"
#include "../maybe/maybe.hpp"
#include "../types/unit.hpp"
#include "fwd.hpp"

namespace craftpp::result {

using error::Error;

template<typename T> struct is_result : std::false_type {};
template<typename T> struct is_result<Result<T>> : std::true_type {};

template<typename T>
class Result {
public:
    using Value = T;

    template<typename U = T>
        requires (!std::is_same_v<std::remove_cvref_t<U>, Result>
                  && !std::is_same_v<std::remove_cvref_t<U>, Error>
                  && !std::is_same_v<std::remove_cvref_t<U>, std::error_code>
                  && std::is_constructible_v<T, U&&> && std::is_convertible_v<U&&, T>)
    Result(U&& u) : m_ok(true) { ::new ((void*)std::addressof(m_value)) T(std::forward<U>(u)); }
    Result(std::error_code ec) : m_ok(false) { ::new ((void*)std::addressof(m_error)) Error(ec); }
    Result(const Error& e) : m_ok(false) { ::new ((void*)std::addressof(m_error)) Error(e); }
    Result(Error&& e) : m_ok(false) { ::new ((void*)std::addressof(m_error)) Error(std::move(e)); }
    Result(const Result& o) : m_ok(o.m_ok) {
        if (m_ok) ::new ((void*)std::addressof(m_value)) T(o.m_value);
        else ::new ((void*)std::addressof(m_error)) Error(o.m_error);
    }
    Result(Result&& o) noexcept : m_ok(o.m_ok) {
        if (m_ok) ::new ((void*)std::addressof(m_value)) T(std::move(o.m_value));
        else ::new ((void*)std::addressof(m_error)) Error(std::move(o.m_error));
    }
    ~Result() { destroy(); }
    Result& operator=(const Result& o) {
        if (this != &o) {
            Result tmp(o);
            *this = std::move(tmp);
        }
        return *this;
    }
    Result& operator=(Result&& o) noexcept {
        if (this != &o) {
            destroy();
            m_ok = o.m_ok;
            if (m_ok) ::new ((void*)std::addressof(m_value)) T(std::move(o.m_value));
            else ::new ((void*)std::addressof(m_error)) Error(std::move(o.m_error));
        }
        return *this;
    }

    bool is_ok() const noexcept { return m_ok; }
    bool is_err() const noexcept { return !m_ok; }

    T& unwrap() & noexcept { check_ok(); return m_value; }
    const T& unwrap() const& noexcept { check_ok(); return m_value; }
    T&& unwrap() && noexcept { check_ok(); return std::move(m_value); }
    Error& unwrap_err() & noexcept { check_err(); return m_error; }
    const Error& unwrap_err() const& noexcept { check_err(); return m_error; }
    Error&& unwrap_err() && noexcept { check_err(); return std::move(m_error); }

    template<typename U> T unwrap_or(U&& u) const& {
        if (m_ok) return m_value;
        return T(std::forward<U>(u));
    }
    template<typename U> T unwrap_or(U&& u) && {
        if (m_ok) return std::move(m_value);
        return T(std::forward<U>(u));
    }

    template<typename F> auto fmap(F&& f) & { return do_fmap<T&>(m_value, m_error, f); }
    template<typename F> auto fmap(F&& f) const& { return do_fmap<const T&>(m_value, m_error, f); }
    template<typename F> auto fmap(F&& f) && {
        if constexpr (std::is_invocable_v<F, T&&>) return do_fmap<T&&>(m_value, m_error, f);
        else return do_fmap<T&>(m_value, m_error, f);
    }

    template<typename F> auto bind(F&& f) & { return do_bind<T&>(m_value, m_error, f); }
    template<typename F> auto bind(F&& f) const& { return do_bind<const T&>(m_value, m_error, f); }
    template<typename F> auto bind(F&& f) && {
        if constexpr (std::is_invocable_v<F, T&&>) return do_bind<T&&>(m_value, m_error, f);
        else return do_bind<T&>(m_value, m_error, f);
    }

    template<typename F> Result bind_err(F&& f) const& {
        if (m_ok) return *this;
        return Result(f(m_error));
    }
    template<typename F> Result bind_err(F&& f) && {
        if (m_ok) return std::move(*this);
        return Result(f(std::move(m_error)));
    }
    template<typename... Args> Result add_context(Args&&... args) const& {
        Result r(*this);
        if (!r.m_ok) r.m_error.add_context(std::forward<Args>(args)...);
        return r;
    }
    template<typename... Args> Result add_context(Args&&... args) && {
        if (!m_ok) m_error.add_context(std::forward<Args>(args)...);
        return std::move(*this);
    }
    // Raw access for combine()
    T& value_ref() & noexcept { return m_value; }
    const T& value_ref() const& noexcept { return m_value; }
    T&& value_ref() && noexcept { return std::move(m_value); }

private:
    void check_ok() const noexcept { if (!m_ok) std::abort(); }
    void check_err() const noexcept { if (m_ok) std::abort(); }
    void destroy() noexcept {
        if (m_ok) m_value.~T();
        else m_error.~Error();
    }
    template<typename R, typename V, typename E, typename F>
    auto do_fmap(V&& v, E&& e, F&& f) const {
        using X = std::invoke_result_t<F, R>;
        if constexpr (std::is_void_v<X>) {
            using Res = Result<types::Unit>;
            if (!m_ok) return Res(Error(e));
            f(static_cast<R>(v));
            return Res(types::Unit::create());
        } else {
            using Res = Result<std::decay_t<X>>;
            if (!m_ok) return Res(Error(e));
            return Res(f(static_cast<R>(v)));
        }
    }
    template<typename R, typename V, typename E, typename F>
    auto do_bind(V&& v, E&& e, F&& f) const {
        using Res = std::decay_t<std::invoke_result_t<F, R>>;
        static_assert(is_result<Res>::value, "bind of Result must return Result");
        if (!m_ok) return Res(Error(e));
        return Res(f(static_cast<R>(v)));
    }
    bool m_ok;
    union {
        T m_value;
        Error m_error;
    };
};

using MaybeError = Result<types::Unit>;

inline MaybeError success() noexcept { return MaybeError(types::Unit::create()); }
template<typename T> Result<std::decay_t<T>> success(T&& t) { return Result<std::decay_t<T>>(std::forward<T>(t)); }
template<typename T> Result<std::decay_t<T>> return_value(T&& t) { return Result<std::decay_t<T>>(std::forward<T>(t)); }

// Success, or the first error in argument order.
template<typename... Rs>
    requires (is_result<Rs>::value && ...)
MaybeError any_is_err(const Rs&... rs) {
    const Error* err = nullptr;
    auto first = [&](const auto& r) {
        if (err == nullptr && r.is_err()) err = &r.unwrap_err();
    };
    (first(rs), ...);
    if (err != nullptr) return MaybeError(*err);
    return success();
}

// Calls f on all the values, or returns the first error in argument order.
template<typename F, typename... Rs>
    requires (is_result<std::remove_cvref_t<Rs>>::value && ...)
auto combine(F&& f, Rs&&... rs) {
    const Error* err = nullptr;
    auto first = [&](const auto& r) {
        if (err == nullptr && r.is_err()) err = &r.unwrap_err();
    };
    (first(rs), ...);
    if constexpr (std::is_invocable_v<F, decltype(std::forward<Rs>(rs).value_ref())...>) {
        using Res = std::decay_t<std::invoke_result_t<F, decltype(std::forward<Rs>(rs).value_ref())...>>;
        static_assert(is_result<Res>::value, "combine function must return Result");
        if (err != nullptr) return Res(Error(*err));
        return Res(f(std::forward<Rs>(rs).value_ref()...));
    } else {
        using Res = std::decay_t<std::invoke_result_t<F, decltype(rs.value_ref())...>>;
        static_assert(is_result<Res>::value, "combine function must return Result");
        if (err != nullptr) return Res(Error(*err));
        return Res(f(rs.value_ref()...));
    }
}

}

namespace craftpp::maybe {

template<typename T>
result::Result<T> Maybe<T>::require() const& {
    if (m_some) return result::Result<T>(m_value);
    return result::Result<T>(std::error_code((int)MaybeErrorCode::value_required, maybe_error_category()));
}
template<typename T>
result::Result<T> Maybe<T>::require() && {
    if (m_some) return result::Result<T>(std::move(m_value));
    return result::Result<T>(std::error_code((int)MaybeErrorCode::value_required, maybe_error_category()));
}

}
