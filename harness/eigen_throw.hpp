// Put before every file of a checked build: failed Eigen assertions become exceptions, so that
// out-of-range accesses and size mismatches are reported (and shrunk) like any other failure.
#pragma once
#include <stdexcept>
#include <string>
namespace pbt_eigen {
struct AssertError : std::runtime_error { using std::runtime_error::runtime_error; };
[[noreturn]] inline void raise(char const* expr, char const* file, int line) {
    throw AssertError(std::string("Eigen assertion failed: ") + expr + " at " + file + ":" + std::to_string(line));
}
}
#define eigen_assert(x) do { if (!(x)) ::pbt_eigen::raise(#x, __FILE__, __LINE__); } while (false)
