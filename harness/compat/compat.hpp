// Put before every file of the project (-include): it was written for gcc < 13,
// fmt 3.0.2 and Eigen 3.3.3, apt has gcc 13, fmt 9.1 and Eigen 3.4.
#pragma once

// older standard libraries included it from the headers which the project uses
#include <cstdint>

// fmt < 9 formats any type which has an operator<<; fmt 9 still does with this
#define FMT_DEPRECATED_OSTREAM
#include <fmt/format.h>

// fmt 9 dropped "..."_format(args...), which is format("...", args...)
namespace fmt { inline namespace literals {
struct UdlFormat {
    string_view str;
    template<class... Args>
    std::string operator()(Args const&... args) const { return format(runtime(str), args...); }
};
inline UdlFormat operator"" _format(char const* s, std::size_t n) { return {{s, n}}; }
}} // namespace fmt::literals

// Eigen 3.4 has its own begin() and end(), and they reject matrices. These hide
// them. They do what begin() and end() in numeric/dense.hpp do with Eigen 3.3.
#define EIGEN_PLAINOBJECTBASE_PLUGIN "eigen_begin_end.inc"
