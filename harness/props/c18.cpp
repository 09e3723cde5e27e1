// C18: damping kernels and moment counts follow their definitions
#include "pbt.hpp"
#include "kpm/Kernel.hpp"
#include "kpm/Moments.hpp"

#include <cmath>

using cpb::idx_t;
using namespace cpb::kpm;

namespace {

using real = long double;
real const pi = std::acos(real(-1));

struct Chosen {
    int type;
    double lambda = 4;
    Kernel kernel;
    std::vector<double> custom;

    /// Textbook formulas (Weiße et al., Rev. Mod. Phys. 78, 275)
    real coefficient(int n, int N) const {
        if (type == 0) {
            auto const p = pi / (N + 1);
            return ((N - n + 1) * std::cos(n * p) + std::sin(n * p) * std::cos(p) / std::sin(p)) / (N + 1);
        }
        if (type == 1) { return std::sinh(lambda * (1 - real(n) / N)) / std::sinh(real(lambda)); }
        if (type == 2) { return 1; }
        return custom[size_t(n) % custom.size()];
    }
    /// Required number times the broadening
    real resolution() const { return type == 1 ? real(lambda) : pi; }
};

Chosen choose(pbt::Src& s, bool allow_custom) {
    auto c = Chosen();
    c.type = s.range(0, allow_custom ? 3 : 2);
    if (c.type == 0) { c.kernel = jackson_kernel(); }
    if (c.type == 1) {
        if (s.chance(1, 4)) { c.kernel = lorentz_kernel(); }
        else { c.lambda = s.range(1, 120) / 10.0; c.kernel = lorentz_kernel(c.lambda); }
    }
    if (c.type == 2) { c.kernel = dirichlet_kernel(); }
    if (c.type == 3) {
        for (auto i = 0; i < 7; ++i) { c.custom.push_back(s.sym(20) / 10.0); }
        auto const v = c.custom;
        c.kernel = {[v](idx_t n) { auto r = cpb::ArrayXd(n); for (auto i = idx_t{0}; i < n; ++i) { r[i] = v[size_t(i) % v.size()]; } return r; },
                    [](double) { return idx_t{2}; }};
    }
    return c;
}

char const* name(Chosen const& c) { return c.type == 0 ? "jackson" : c.type == 1 ? "lorentz" : c.type == 2 ? "dirichlet" : "custom"; }

idx_t rounded(idx_t n) { // the smallest number of the form 4k + 2 which is not below n
    auto k = idx_t{0};
    if (n > 2) { k = (n - 2 + 3) / 4; }
    return 4 * k + 2;
}

void coefficients_case(pbt::Src& s, pbt::Ctx& ctx) {
    auto const c = choose(s, false);
    auto const N = s.chance(1, 8) ? s.range(0, ctx.thorough ? 20000 : 3000) : s.range(0, 60);
    ctx.describe([&](std::ostream& os) { os << name(c) << " coefficients (lambda " << c.lambda << ") for " << N << " moments\n"; });
    auto const g = c.kernel.damping_coefficients(N);
    PBT_CHECK(g.size() == N, g.size(), " coefficients for ", N, " moments");
    for (auto n = 0; n < N; ++n) {
        auto const e = c.coefficient(n, N);
        PBT_CHECK(std::abs(g[n] - e) <= (c.type == 0 ? 1e-6 : 1e-11), name(c), ": g[", n, "] of ", N, " is ", g[n], " expected ", double(e));
        PBT_CHECK(g[n] >= -1e-6, name(c), ": g[", n, "] of ", N, " is negative");
        if (n > 0) { PBT_CHECK(g[n] <= g[n - 1] + 1e-6, name(c), ": g[", n, "] of ", N, " increases"); }
    }
    if (N > 0) { PBT_CHECK(std::abs(g[0] - 1) < 1e-12, name(c), ": g[0] of ", N, " is ", g[0]); }
    ctx.nontrivial = N >= 2;
    ctx.label(std::string(name(c)) + " coefficients");
}

void count_case(pbt::Src& s, pbt::Ctx& ctx) {
    auto const n = s.chance(1, 4) ? s.sym(20) : s.range(0, 100000);
    PBT_CHECK(round_num_moments(n) == rounded(n), "round_num_moments(", n, ") is ", round_num_moments(n), " expected ", rounded(n));
    auto const c = choose(s, false);
    // broadenings, including those which divide pi or lambda exactly
    auto const exact = s.chance(1, 4);
    auto draw = [&] {
        return exact ? double(c.resolution()) / s.range(1, 5000) : s.range(1, 9999) * std::pow(10.0, -s.range(1, 8)) / (s.chance(1, 2) ? 1.0 : 1.0 + s.range(0, 99) / 100.0);
    };
    auto const a = std::max(draw(), 2e-6), b = std::max(draw(), 2e-6);
    ctx.describe([&](std::ostream& os) { os.precision(17); os << name(c) << " (lambda " << c.lambda << ") moments for broadenings " << a << " " << b << "\n"; });
    auto check = [&](double sigma) {
        auto const N = c.kernel.required_num_moments(sigma);
        PBT_CHECK(N >= 2 && (N - 2) % 4 == 0, name(c), ": ", N, " moments for ", sigma);
        auto const need = double(c.resolution() / sigma);
        // large enough, by no more than the rounding to 4k + 2 takes
        PBT_CHECK(double(N) >= need * (1 - 1e-6), name(c), ": ", N, " moments for ", sigma, ", needed ", need);
        PBT_CHECK(double(N) <= std::max(2.0, need * (1 + 1e-6) + 4), name(c), ": ", N, " moments for ", sigma, ", needed only ", need);
        return N;
    };
    auto const na = check(a), nb = check(b);
    PBT_CHECK(a == b || (a < b) == (na > nb) || na == nb, name(c), ": ", na, " moments for ", a, ", ", nb, " for ", b);
    ctx.nontrivial = true;
    ctx.label("moment counts");

    if (s.chance(1, 10)) {
        auto const bad = -s.range(0, 50) / 10.0;
        auto thrown = false;
        try { lorentz_kernel(bad); } catch (std::invalid_argument const&) { thrown = true; }
        PBT_CHECK(thrown, "lorentz_kernel(", bad, ") is accepted");
    }
}

template<class T> T value(pbt::Src& s) { return T(s.sym(64)) / T(8); }
template<> std::complex<float> value(pbt::Src& s) { return {value<float>(s), value<float>(s)}; }
template<> std::complex<double> value(pbt::Src& s) { return {value<double>(s), value<double>(s)}; }

template<class T>
void apply_case(pbt::Src& s, pbt::Ctx& ctx) {
    auto const c = choose(s, true);
    auto const N = s.range(0, 24), M = s.range(0, 6);
    ctx.describe([&](std::ostream& os) {
        os << name(c) << " (lambda " << c.lambda << ") applied to " << N << " moments of " << cpb::num::scalar_name<T>() << ", batches of " << M << "\n";
    });
    using Acc = std::complex<double>;
    auto const eps = sizeof(cpb::num::get_real_t<T>) == 4 ? 4e-6 : c.type == 0 ? 1e-6 : 1e-12;
    auto close = [&](T got, T before, real factor, char const* what, int i, int j) {
        auto const e = Acc(before) * double(factor);
        PBT_CHECK(std::abs(Acc(got) - e) <= eps * (1 + std::abs(e)), name(c), " ", what, " (", i, ", ", j, ") of ", N, ": ", got, " expected ", e);
    };
    auto draw = [&](int n) { auto a = cpb::ArrayX<T>(n); for (auto i = 0; i < n; ++i) { a[i] = value<T>(s); } return a; };

    auto const a0 = draw(N);
    auto a = a0;
    c.kernel(a);
    PBT_CHECK(a.size() == N, "size changes");
    for (auto n = 0; n < N; ++n) { close(a[n], a0[n], c.coefficient(n, N), "array", n, 0); }

    // the containers which the moment collectors use
    auto d = DiagonalMoments(N);
    d.data = a0;
    apply_damping(d, c.kernel);
    auto const& dd = d.data.template get<cpb::ArrayX<T>>();
    PBT_CHECK(dd.size() == N && (dd == a).all(), "moments are damped differently");

    auto const empty_op = cpb::SparseMatrixXcd();
    auto const vec = cpb::VectorXcd();
    auto g = GenericMoments(N, vec, vec, empty_op);
    g.data = a0;
    apply_damping(g, c.kernel);
    PBT_CHECK((g.data.template get<cpb::ArrayX<T>>() == a).all(), "generic moments are damped differently");
    auto const head = s.range(0, N);
    auto const cut = extract_data(g, head);
    PBT_CHECK(cut.size() == head, "extract_data gives ", cut.size(), " of ", head);
    for (auto n = 0; n < head; ++n) { PBT_CHECK(cut[n] == Acc(a[n]), "extract_data changes moment ", n); }

    auto const batch0 = [&] {
        auto b = cpb::ArrayXX<T>(N, M);
        for (auto i = 0; i < N; ++i) { for (auto j = 0; j < M; ++j) { b(i, j) = value<T>(s); } }
        return b;
    }();
    auto bm = BatchDiagonalMoments(N, M, BatchConcatenator());
    bm.data = batch0;
    apply_damping(bm, c.kernel);
    auto const& bd = bm.data.template get<cpb::ArrayXX<T>>();
    PBT_CHECK(bd.rows() == N && bd.cols() == M, "batch: shape changes");
    for (auto i = 0; i < N; ++i) { for (auto j = 0; j < M; ++j) { close(bd(i, j), batch0(i, j), c.coefficient(i, N), "batch", i, j); } }

    auto const idx = Indices(idx_t{0}, std::vector<idx_t>(size_t(M), 0));
    auto mu = MultiUnitMoments(N, idx);
    auto list0 = std::vector<cpb::ArrayX<T>>();
    for (auto j = 0; j < M; ++j) { list0.push_back(draw(N)); }
    mu.data = list0;
    apply_damping(mu, c.kernel);
    auto const& list = mu.data.template get<std::vector<cpb::ArrayX<T>>>();
    PBT_CHECK(int(list.size()) == M, "list: size changes");
    for (auto j = 0; j < M; ++j) { for (auto i = 0; i < N; ++i) { close(list[size_t(j)][i], list0[size_t(j)][i], c.coefficient(i, N), "list", i, j); } }

    auto m0 = cpb::MatrixX<T>(N, N);
    for (auto i = 0; i < N; ++i) { for (auto j = 0; j < N; ++j) { m0(i, j) = value<T>(s); } }
    auto mm = MomentMultiplication(N, cpb::var::tag<T>{});
    mm.data.template get<cpb::MatrixX<T>>() += m0;
    apply_damping(mm, c.kernel);
    auto const& md = mm.data.template get<cpb::MatrixX<T>>();
    for (auto i = 0; i < N; ++i) {
        for (auto j = 0; j < N; ++j) { close(md(i, j), m0(i, j), c.coefficient(i, N) * c.coefficient(j, N), "matrix", i, j); }
    }
    ctx.nontrivial = N >= 2;
    ctx.label(std::string(name(c)) + " applied");
}

void run(pbt::Src& s, pbt::Ctx& ctx) {
    switch (s.range(0, 6)) {
        case 0: return coefficients_case(s, ctx);
        case 1: return count_case(s, ctx);
        case 2: return coefficients_case(s, ctx);
        case 3: return apply_case<float>(s, ctx);
        case 4: return apply_case<double>(s, ctx);
        case 5: return apply_case<std::complex<float>>(s, ctx);
        default: return apply_case<std::complex<double>>(s, ctx);
    }
}

} // anonymous namespace

namespace pbt {
Property const property = {
    "C18", "at least two moments, or a pair of broadenings", 400000, 6000000, run,
    {"Coefficients are compared with the textbook formulas in extended precision (1e-6: the library keeps pi in single precision), damped moments within rounding of their type.",
     "Broadenings are at least 2e-6 of the half bandwidth."}
};
} // namespace pbt
