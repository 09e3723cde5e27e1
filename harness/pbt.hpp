// Minimal property-based testing engine.
//
// A test case is a pure function of a *choice sequence*: every random decision is drawn from
// `Src`. Cases are generated from (seed, case index); failures are shrunk by deleting and
// reducing choices (each attempt runs in a forked child, so crashes and sanitizer reports
// shrink just like failed assertions) and the shrunk sequence is the replay file.
#pragma once
#include <cstdint>
#include <exception>
#include <map>
#include <sstream>
#include <string>
#include <vector>

namespace pbt {

struct Discard {};

/// The property does not hold
struct Failure : std::exception {
    std::string msg;
    explicit Failure(std::string m) : msg(std::move(m)) {}
    char const* what() const noexcept override { return msg.c_str(); }
};

/// A violation which is recorded in known_findings.json under `id`
struct Known {
    std::string id, msg;
};

class Src {
public:
    Src(std::uint64_t seed, std::uint64_t index);             ///< random mode
    explicit Src(std::vector<std::uint64_t> replay);          ///< replay mode (0 past the end)

    /// Uniform in [0, n), shrinks towards 0
    std::uint64_t draw(std::uint64_t n);
    /// Uniform in [lo, hi], shrinks towards lo
    int range(int lo, int hi) { return lo + static_cast<int>(draw(std::uint64_t(hi - lo) + 1)); }
    /// Uniform in [-m, m], shrinks towards 0
    int sym(int m) {
        auto const v = static_cast<int>(draw(2 * std::uint64_t(m) + 1));
        return (v % 2) ? (v + 1) / 2 : -(v / 2);
    }
    /// True with probability num/den, shrinks towards false
    bool chance(int num, int den) { return draw(std::uint64_t(den)) >= std::uint64_t(den - num); }
    template<class T> T const& pick(std::vector<T> const& v) { return v[draw(v.size())]; }
    template<class T> T pick(std::initializer_list<T> v) { return *(v.begin() + draw(v.size())); }
    /// Multiple of 1/den in [-max, max], shrinks towards 0
    double frac(int max, int den) { return double(sym(max * den)) / den; }
    /// Raw 64 bit value which does not shrink nicely (used for derived pseudo-random data)
    std::uint64_t bits() { return draw(~std::uint64_t{0}); }

    std::vector<std::uint64_t> const& record() const { return log; }
    /// Also log to this memory (the first element is the size): survives any crash
    void mirror_to(std::uint64_t* memory, std::size_t capacity) { mirror = memory; mirror_capacity = capacity; }

private:
    std::uint64_t next();
    bool random;
    std::uint64_t s[2] = {0, 0};
    std::vector<std::uint64_t> input, log;
    std::size_t pos = 0;
    std::uint64_t* mirror = nullptr;
    std::size_t mirror_capacity = 0;
};

/// Per-case bookkeeping: classification, description, non-triviality
class Ctx {
public:
    bool verbose = false;     ///< collect a readable description of the case
    bool thorough = false;    ///< larger sizes are allowed in the thorough tier
    bool nontrivial = false;
    std::map<std::string, long> classes;
    std::ostringstream desc;

    void label(std::string const& name) { ++classes[name]; }
    void label(bool condition, std::string const& name) { if (condition) { ++classes[name]; } }
    template<class F> void describe(F f) { if (verbose) { f(desc); if (on_describe) { on_describe(desc.str()); } } }
    void (*on_describe)(std::string const&) = nullptr; ///< saves the text from what happens next
};

/// To be defined by each property binary
struct Property {
    char const* id;
    char const* rule;         ///< how cases are made and what makes one non-trivial
    long quick_cases, thorough_cases;
    void (*run)(Src&, Ctx&);
    std::vector<char const*> assumptions;
    int repeats = 1;          ///< runs of a case before it is said to hold (real threads)
};
extern Property const property;

[[noreturn]] inline void fail(std::string const& msg) { throw Failure(msg); }

template<class... Args>
std::string str(Args const&... args) {
    std::ostringstream ss;
    ss.precision(9);
    using expand = int[];
    (void)expand{0, ((void)(ss << args), 0)...};
    return ss.str();
}

#define PBT_CHECK(cond, ...) do { if (!(cond)) { \
    ::pbt::fail(::pbt::str(#cond, " | ", ::pbt::str(__VA_ARGS__))); } } while (0)

} // namespace pbt
