// Stand-in for the (absent) craftpp dependency: written from the way /repo uses it.
#pragma once
namespace craftpp::types {
struct Unit {
    static constexpr Unit create() noexcept { return Unit{}; }
    bool operator==(const Unit&) const noexcept = default;
};
}
