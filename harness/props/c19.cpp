// C19: automatic spectrum bounds and scaling confine the spectrum
#include "matrices.hpp"
#include "kpm/Core.hpp"
#include "compute/lanczos.hpp"

#include <cmath>

using namespace cpb;
using herm::cd;

namespace {

struct NoCompute : kpm::Compute::Interface {
    void moments(kpm::MomentsRef, kpm::Starter const&, kpm::AlgorithmConfig const&, kpm::OptimizedHamiltonian const&) const override {}
};

struct Spectrum {
    double min, max;
    double half() const { return (max - min) / 2; }
    double magnitude() const { return std::max(std::abs(min), std::abs(max)); }
};

Spectrum spectrum(herm::Matrix const& m) {
    auto const e = herm::eigenvalues(m.values);
    return {e.minCoeff(), e.maxCoeff()};
}

struct LanczosOf {
    double precision;
    template<class T> compute::LanczosBounds operator()(SparseMatrixRC<T> const& p) const { return compute::minmax_eigenvalues(*p, precision); }
};

/// Exact Lanczos iteration (long double, fully orthogonalised) from the same starting vector.
/// Small steps usually mean that little is left to gain, but an iteration may also stall: creep
/// along by tiny steps far from the end of the spectrum. No stopping rule based on the steps can
/// tell the difference. `fair` means that this doesn't happen for the given matrix, with a margin.
bool fair(herm::Matrix const& m, Spectrum const& e, double percent) {
    using real = long double;
    using C = std::complex<real>;
    using Vec = Eigen::Matrix<C, Eigen::Dynamic, 1>;
    auto const n = m.size();
    auto start = Vec(n);
    if (m.is_double) { auto const v = num::make_random<VectorX<double>>(n); for (auto i = 0; i < n; ++i) { start[i] = v[i]; } }
    else { auto const v = num::make_random<VectorX<float>>(n); for (auto i = 0; i < n; ++i) { start[i] = v[i]; } }
    auto const h = m.values.cast<C>().eval();
    auto basis = std::vector<Vec>{start / std::sqrt(start.squaredNorm())};
    auto alpha = std::vector<double>(), beta = std::vector<double>();
    auto const goal = 50 * percent / 100 * e.half();
    auto low = 1e300, high = -1e300;
    while (true) {
        auto next = (h * basis.back()).eval();
        alpha.push_back(double(basis.back().dot(next).real()));
        for (auto k = 0; k < 2; ++k) { for (auto const& v : basis) { next -= v.dot(next) * v; } }
        auto const k = static_cast<int>(alpha.size());
        auto t = Eigen::MatrixXd(Eigen::MatrixXd::Zero(k, k));
        for (auto i = 0; i < k; ++i) { t(i, i) = alpha[size_t(i)]; if (i > 0) { t(i, i - 1) = t(i - 1, i) = beta[size_t(i - 1)]; } }
        auto const ritz = Eigen::VectorXd(Eigen::SelfAdjointEigenSolver<Eigen::MatrixXd>(t, Eigen::EigenvaluesOnly).eigenvalues());
        auto const small = 10 * percent / 100 * (ritz[k - 1] - ritz[0]) / 2 + 100 * m.epsilon() * e.magnitude();
        if (std::abs(low - ritz[0]) < small && ritz[0] - e.min > goal) { return false; }
        if (std::abs(high - ritz[k - 1]) < small && e.max - ritz[k - 1] > goal) { return false; }
        low = ritz[0];
        high = ritz[k - 1];
        auto const b = std::sqrt(double(next.squaredNorm()));
        // without a next vector only eigenvalues which the start has a part of can be found
        if (k == n || b < 1e-13 * (1 + e.magnitude())) { return low - e.min <= goal && e.max - high <= goal; }
        beta.push_back(b);
        if (b < 1e4 * m.epsilon() * e.magnitude()) { return false; } // nearly an invariant subspace
        basis.push_back(next / real(b));
    }
}

/// Automatic bounds: inside the spectrum, and close to its ends
void check_bounds(double min, double max, herm::Matrix const& m, Spectrum const& e, double percent, bool is_fair, char const* what) {
    auto const noise = (60 + 6 * m.size()) * m.epsilon() * (e.magnitude() + 1e-30);
    PBT_CHECK(min <= max, what, ": minimum ", min, " above maximum ", max);
    PBT_CHECK(min >= e.min - noise && max <= e.max + noise, what, ": bounds ", min, " ", max, " outside of the spectrum ", e.min, " ", e.max);
    if (!is_fair) { return; }
    auto const slack = 50 * percent / 100 * e.half() + noise;
    PBT_CHECK(min - e.min <= slack && e.max - max <= slack, what, ": bounds ", min, " ", max, " of the spectrum ", e.min, " ", e.max, " at ", percent, "%");
}

void check_scale(kpm::Scale<> const& s, double min, double max, char const* what) {
    auto const a = 0.5 * (max - min) * (1 + double(0.01f)), b = 0.5 * (max + min);
    PBT_CHECK(std::abs(s.a - a) <= 1e-6 * std::abs(a), what, ": a is ", s.a, " expected ", a);
    auto const ratio = std::abs(b / a);
    if (ratio > 1.0001e-4) { PBT_CHECK(std::abs(s.b - b) <= 1e-12 * std::abs(b), what, ": b is ", s.b, " expected ", b); }
    else if (ratio < 0.9999e-4) { PBT_CHECK(s.b == 0, what, ": b is ", s.b, " expected 0 (from ", b, ")"); }
    else { PBT_CHECK(s.b == 0 || s.b == b, what, ": b is ", s.b); }
}

void check_confined(kpm::Scale<> s, herm::Matrix const& m, char const* what) {
    auto const e = herm::eigenvalues(m.values);
    for (auto i = 0; i < e.size(); ++i) {
        auto const x = (e[i] - s.b) / s.a;
        PBT_CHECK(std::abs(x) < 1, what, ": eigenvalue ", e[i], " is mapped to ", x, " by a = ", s.a, ", b = ", s.b);
    }
}

void automatic_case(pbt::Src& s, pbt::Ctx& ctx) {
    auto o = herm::Options();
    o.max_size = ctx.thorough ? (s.chance(1, 8) ? 90 : 30) : (s.chance(1, 20) ? 60 : 20);
    auto const m = herm::generate(s, o);
    auto const percent = s.pick({0.002, 0.002, 0.01, 0.0002});
    ctx.describe([&](std::ostream& os) { os << "precision " << percent << "%, " << m; });
    auto const e = spectrum(m);
    auto const h = m.hamiltonian();
    auto const is_fair = fair(m, e, percent);

    auto const l = h.get_variant().match(LanczosOf{percent});
    check_bounds(l.min, l.max, m, e, percent, is_fair, "minmax_eigenvalues");

    auto bounds = kpm::Bounds(h, percent);
    auto const scale = bounds.scaling_factors();
    PBT_CHECK(bounds.min_energy() == l.min && bounds.max_energy() == l.max, "Bounds ", bounds.min_energy(), " ", bounds.max_energy());
    auto const again = bounds.scaling_factors();
    PBT_CHECK(again.a == scale.a && again.b == scale.b, "scaling factors change");
    PBT_CHECK(scale.a > 0, "scaling factor a is ", scale.a, " for bounds ", l.min, " ", l.max);
    auto const flat = e.half() <= 200 * m.epsilon() * e.magnitude();
    if (!flat) { check_scale(scale, l.min, l.max, "Bounds"); }
    if (is_fair) { check_confined(scale, m, "Bounds"); }

    auto config = kpm::Config();
    config.lanczos_precision = static_cast<float>(percent);
    auto core = kpm::Core(h, NoCompute{}, config);
    auto const cs = core.scaling_factors();
    if (is_fair) { check_confined(cs, m, "Core"); }
    ctx.label(!is_fair, "stalling iteration");
    if (s.chance(1, 3)) { // a different Hamiltonian takes over
        auto const m2 = herm::generate(s, o);
        core.set_hamiltonian(m2.hamiltonian());
        ctx.describe([&](std::ostream& os) { os << "replaced by " << m2; });
        if (fair(m2, spectrum(m2), percent)) { check_confined(core.scaling_factors(), m2, "Core with another Hamiltonian"); }
        core.set_hamiltonian(h);
        auto const back = core.scaling_factors();
        PBT_CHECK(back.a == cs.a && back.b == cs.b, "scaling factors depend on the history");
    }
    ctx.nontrivial = m.size() > 1;
    ctx.label(m.size() == 1, "one row");
    ctx.label(flat, "flat spectrum");
    ctx.label(e.min * e.max == 0 || std::abs(e.min) < 1e-12, "zero at the edge");
    ctx.label(m.is_complex, "complex");
    ctx.label(!m.is_double, "single precision");
}

void manual_case(pbt::Src& s, pbt::Ctx& ctx) {
    auto const a = s.sym(4000) / 64.0, b = s.sym(4000) / 64.0;
    ctx.describe([&](std::ostream& os) { os << "energy range " << a << " " << b << "\n"; });
    ctx.nontrivial = a != b;
    ctx.label("given range");
    auto o = herm::Options();
    o.max_size = 6;
    auto const h = herm::generate(s, o).hamiltonian();
    auto config = kpm::Config();
    config.min_energy = static_cast<float>(a);
    config.max_energy = static_cast<float>(b);
    auto thrown = false;
    try {
        auto core = kpm::Core(h, NoCompute{}, config);
        if (a < b) {
            check_scale(core.scaling_factors(), a, b, "Core");
            core.set_hamiltonian(herm::generate(s, o).hamiltonian());
            check_scale(core.scaling_factors(), a, b, "Core with another Hamiltonian");
        }
    } catch (std::invalid_argument const&) { thrown = true; }
    PBT_CHECK(thrown == (a > b), "energy range ", a, " ", b, thrown ? " is rejected" : " is accepted");

    if (a < b) {
        auto bounds = kpm::Bounds(a, b);
        PBT_CHECK(bounds.min_energy() == a && bounds.max_energy() == b, "given bounds change to ", bounds.min_energy(), " ", bounds.max_energy());
        auto const scale = bounds.scaling_factors();
        check_scale(scale, a, b, "Bounds");
        auto const n = s.range(2, 40);
        auto const x = bounds.linspaced(n);
        PBT_CHECK(x.size() == n, "linspaced size ", x.size());
        for (auto i = 0; i < n; ++i) { PBT_CHECK(std::abs(x[i] - (a + (b - a) * i / (n - 1))) <= 1e-12 * (std::abs(a) + std::abs(b)), "linspaced ", i, " is ", x[i]); }
        auto const y = scale(ArrayXd(x));
        auto const f = kpm::Scale<float>(scale);
        PBT_CHECK(f.a == float(scale.a) && f.b == float(scale.b), "single precision factors differ");
        auto const yf = f(ArrayXf(x.cast<float>()));
        for (auto i = 0; i < n; ++i) {
            auto const expected = (x[i] - scale.b) / scale.a;
            PBT_CHECK(std::abs(y[i] - expected) <= 1e-12, "scaled ", x[i], " is ", y[i]);
            PBT_CHECK(std::abs(yf[i] - expected) <= 1e-5 * (1 + std::abs(x[i] / scale.a)), "scaled ", x[i], " is ", yf[i], " in single precision");
            PBT_CHECK(std::abs(y[i]) < 1, "energy ", x[i], " within the bounds is mapped to ", y[i]);
        }
    }
}

template<class T>
void kernel_case(pbt::Src& s, pbt::Ctx& ctx) {
    using real_t = num::get_real_t<T>;
    auto o = herm::Options();
    o.max_size = 40;
    auto m = herm::generate(s, o);
    if (!num::is_complex<T>()) { m.values = m.values.real().cast<cd>().eval(); }
    auto const n = m.size();
    ctx.describe([&](std::ostream& os) { os << "Lanczos steps with " << m; });
    auto draw = [&] { auto v = VectorX<T>(n); for (auto i = 0; i < n; ++i) { v[i] = herm::make_value<T>::from({s.sym(32) / 16.0, s.sym(32) / 16.0}); } return v; };
    auto const v1 = draw();
    auto v0 = draw();
    auto const b_prev = real_t(s.sym(20)) / 8;
    auto const eps = 200 * std::numeric_limits<real_t>::epsilon();

    auto const x1 = v1.template cast<cd>().eval();
    auto x0 = v0.template cast<cd>().eval();
    auto const hx = (m.values * x1).eval();
    auto const expected_a = x1.dot(hx).real();
    auto const scale_a = x1.cwiseAbs().dot((m.values.cwiseAbs() * x1.cwiseAbs()).eval()) + 1;
    auto const a = compute::lanczos_spmv(b_prev, m.sparse<T>(), v1, v0);
    PBT_CHECK(std::abs(a - expected_a) <= eps * scale_a, "lanczos_spmv returns ", a, " expected ", expected_a);
    x0 = hx - double(b_prev) * x0;
    auto const big = (m.values.cwiseAbs() * x1.cwiseAbs()).maxCoeff() + 60;
    for (auto i = 0; i < n; ++i) { PBT_CHECK(std::abs(cd(v0[i]) - x0[i]) <= eps * big, "lanczos_spmv element ", i, " of ", n, " is ", v0[i], " expected ", x0[i]); }

    x0 = v0.template cast<cd>().eval();
    auto const c = real_t(s.sym(20)) / 8;
    auto const norm = compute::lanczos_axpy(c, v1, v0);
    x0 -= double(c) * x1;
    for (auto i = 0; i < n; ++i) { PBT_CHECK(std::abs(cd(v0[i]) - x0[i]) <= eps * big, "lanczos_axpy element ", i, " of ", n, " is ", v0[i], " expected ", x0[i]); }
    PBT_CHECK(std::abs(norm - x0.norm()) <= eps * (big + x0.norm()), "lanczos_axpy returns ", norm, " expected ", x0.norm());
    ctx.nontrivial = n > 1;
    ctx.label("Lanczos steps");
}

template<class T>
void tridiagonal_case(pbt::Src& s, pbt::Ctx& ctx) {
    auto const n = s.range(1, 24);
    auto alpha = ArrayX<T>(n), beta = ArrayX<T>(n);
    auto const same = s.chance(1, 3);
    for (auto i = 0; i < n; ++i) {
        alpha[i] = same ? T(1) : T(s.sym(32)) / 8;
        beta[i] = s.chance(1, 6) ? T(0) : T(s.range(1, 32)) / 8 * (s.chance(1, 10) ? T(1e-6) : T(1));
    }
    ctx.describe([&](std::ostream& os) { os << "tridiagonal matrix, diagonal " << alpha.transpose() << ", next to it " << beta.transpose() << "\n"; });
    auto dense = Eigen::MatrixXd(Eigen::MatrixXd::Zero(n, n));
    for (auto i = 0; i < n; ++i) {
        dense(i, i) = alpha[i];
        if (i + 1 < n) { dense(i, i + 1) = dense(i + 1, i) = beta[i]; }
    }
    auto expected = Eigen::VectorXd(Eigen::SelfAdjointEigenSolver<Eigen::MatrixXd>(dense, Eigen::EigenvaluesOnly).eigenvalues());
    auto const got = compute::tridiagonal_eigenvalues(alpha, beta);
    PBT_CHECK(got.size() == n, got.size(), " eigenvalues of ", n);
    auto sorted = std::vector<double>();
    for (auto i = 0; i < n; ++i) { sorted.push_back(got[i]); }
    std::sort(sorted.begin(), sorted.end());
    for (auto i = 0; i < n; ++i) {
        PBT_CHECK(std::abs(sorted[size_t(i)] - expected[i]) <= 100 * std::numeric_limits<T>::epsilon() * (1 + dense.norm()), "eigenvalue ", i, " is ", sorted[size_t(i)], " expected ", expected[i]);
    }
    ctx.nontrivial = n > 1;
    ctx.label("tridiagonal matrices");
}

void run(pbt::Src& s, pbt::Ctx& ctx) {
    switch (s.range(0, 11)) {
        case 0: return tridiagonal_case<float>(s, ctx);
        case 1: return tridiagonal_case<double>(s, ctx);
        case 2: return kernel_case<float>(s, ctx);
        case 3: return kernel_case<double>(s, ctx);
        case 4: return kernel_case<std::complex<float>>(s, ctx);
        case 5: return kernel_case<std::complex<double>>(s, ctx);
        case 6: return manual_case(s, ctx);
        default: return automatic_case(s, ctx);
    }
}

} // anonymous namespace

namespace pbt {
Property const property = {
    "C19", "matrices of more than one row, or two different bounds", 200000, 1500000, run,
    {"Reference eigenvalues are Eigen's, of the dense matrix in double precision.",
     "Closeness of the automatic bounds (50 times the requested precision, well within the built-in tolerance) is required unless the exact iteration from the same starting vector stalls; that they lie inside the spectrum is required always.",
     "libsimdpp is replaced by a stand-in with the same interface."}
};
} // namespace pbt
