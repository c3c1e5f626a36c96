// Stand-in for the (absent) craftpp dependency: written from the way /repo uses it.
#pragma once
#include "result.hpp"
namespace craftpp::result {

// Apply f to each element; stops on the first error.
template<typename It, typename F>
MaybeError reduce(It begin, It end, F&& f) {
    for (auto it = begin; it != end; ++it) {
        MaybeError r = f(*it);
        if (r.is_err()) return r;
    }
    return success();
}

// Left fold; stops on the first error.
template<typename It, typename A, typename F>
Result<A> reduce(It begin, It end, A init, F&& f) {
    Result<A> acc(std::move(init));
    for (auto it = begin; it != end; ++it) {
        Result<A> next = f(std::move(acc).unwrap(), *it);
        if (next.is_err()) return next;
        acc = std::move(next);
    }
    return acc;
}

}
