// C17: spectral quantities equal their exact Chebyshev definition
#include "models.hpp"
#include "KPM.hpp"

using namespace ref;
using cd = std::complex<double>;
using Vec = Eigen::VectorXcd;

namespace {

/// Chebyshev polynomials of the scaled eigenvalues: (number of moments) x (number of states), first row halved
struct Expansion {
    Eigen::MatrixXd t;
    Eigen::ArrayXd damping;
    double a, b;

    Expansion(Truth const& x, cpb::kpm::Scale<> const& s, cpb::kpm::Kernel const& kernel, int n) : t(n, x.size()), a(s.a), b(s.b) {
        damping = kernel.damping_coefficients(n);
        for (auto k = 0; k < x.size(); ++k) {
            auto const phi = std::acos((x.energies[k] - b) / a);
            for (auto i = 0; i < n; ++i) { t(i, k) = std::cos(i * phi); }
        }
    }
    int size() const { return int(t.rows()); }
    double weight(int n) const { return damping[n] * (n == 0 ? 0.5 : 1.0); }

    /// sum over states of (weights) T_n, damped
    Vec moments(Vec const& weights) const {
        Vec r = t.cast<cd>() * weights;
        for (auto n = 0; n < size(); ++n) { r[n] *= weight(n); }
        return r;
    }
    double density(Vec const& mu, double energy) const {
        auto const e = (energy - b) / a, phi = std::acos(e);
        auto sum = 0.0;
        for (auto n = 0; n < size(); ++n) { sum += mu[n].real() * std::cos(n * phi); }
        return 2 * sum / (a * std::acos(-1.0) * std::sqrt(1 - e * e));
    }
    cd greens(Vec const& mu, double energy) const {
        auto const e = (energy - b) / a, phi = std::acos(e);
        auto sum = cd{0, 0};
        for (auto n = 0; n < size(); ++n) { sum += mu[n] * std::exp(cd(0, -n * phi)); }
        return cd(0, -2) / (a * std::sqrt(1 - e * e)) * sum;
    }
};

void check(cd actual, cd expected, double tol, std::string const& what) {
    PBT_CHECK(std::isfinite(actual.real()) && std::isfinite(actual.imag()), what, " is ", actual, ", expected ", expected);
    PBT_CHECK(std::abs(actual - expected) <= tol, what, " is ", actual, ", expected ", expected, " (tolerance ", tol, ")");
}

struct Case {
    Src& s;
    Ctx& ctx;
    cpb::KPM& kpm;
    Truth const& x;
    cpb::kpm::Kernel kernel;
    cpb::kpm::Scale<> scale;
    double min, max; ///< energies within which the results are asked for

    /// Rounding of the scaled Hamiltonian and energies, (H - b) / a
    double eps() const { return x.eps() * (1 + std::abs(scale.b) / scale.a); }
    Expansion expand(int n) const { return Expansion(x, scale, kernel, n); }

    double draw_broadening(int resolution) { return scale.a * 3.0 / s.range(1, resolution); }
    cpb::ArrayXd draw_energies() {
        auto e = cpb::ArrayXd(s.range(1, 4));
        for (auto i = 0; i < e.size(); ++i) { e[i] = min + (max - min) * s.range(1, 31) / 32.0; }
        return e;
    }
    double root(double energy) const { auto const e = (energy - scale.b) / scale.a; return std::sqrt(1 - e * e); }
    /// Rounding errors of sum_n mu_n f(n acos E) / (a sqrt(1 - E^2)), for |mu_n| < magnitude
    double tolerance(int n, double energy, double magnitude) const {
        return 40 * eps() * n * (1 + n / 4.0) * n * magnitude / (scale.a * root(energy));
    }
    Vec draw_vector() {
        auto v = Vec(x.size());
        for (auto i = 0; i < v.size(); ++i) { v[i] = cd(s.sym(8) / 4.0, x.scalar.is_complex ? s.sym(8) / 4.0 : 0.0); }
        return v;
    }
    Vec unit(int i) const { Vec v = Vec::Zero(x.size()); v[i] = 1; return v; }
    /// <l| f(H) |r> = sum of these times f(energy)
    Vec weights(Vec const& l, Vec const& r) const {
        return ((x.states.adjoint() * l).conjugate().array() * (x.states.adjoint() * r).array()).matrix();
    }

    void moments() {
        auto const count = s.range(0, 40);
        auto const alpha = draw_vector();
        auto const with_beta = s.chance(1, 2), with_op = s.chance(1, 2);
        auto const beta = with_beta ? draw_vector() : Vec();
        Mat dense_op = Mat::Zero(x.size(), x.size());
        auto op = cpb::SparseMatrixXcd();
        if (with_op) {
            for (auto k = s.range(0, 2 * x.size()); k > 0; --k) {
                dense_op(s.range(0, x.size() - 1), s.range(0, x.size() - 1)) = cd(s.sym(8) / 4.0, x.scalar.is_complex ? s.sym(8) / 4.0 : 0.0);
            }
            op = dense_op.sparseView();
            op.makeCompressed();
        }
        ctx.describe([&](std::ostream& os) { os << count << " moments, alpha " << alpha.transpose() << ", beta " << beta.transpose() << (with_op ? ", with an operator\n" : "\n"); });
        auto const r = kpm.moments(count, alpha, beta, op);
        PBT_CHECK(r.size() == count, r.size(), " moments of ", count);
        auto const ex = expand(int(cpb::kpm::round_num_moments(count)));
        auto const left = Vec(with_beta ? beta : alpha);
        auto const bra = Vec(with_op ? dense_op.adjoint() * left : left);
        auto const mu = ex.moments(weights(bra, alpha));
        auto const magnitude = (1 + alpha.norm()) * (1 + left.norm()) * (with_op ? 1 + dense_op.norm() : 1.0);
        for (auto n = 0; n < count; ++n) {
            check(r[n], mu[n], 40 * eps() * (1 + n) * (1 + n / 4.0) * magnitude, pbt::str("moment ", n));
        }
        ctx.label("moments");
        ctx.label(with_op, "moments with an operator");
    }

    int draw_nearest(V3& position, std::string& sublattice) {
        auto const n = int(x.first.size());
        if (s.chance(2, 3)) { sublattice = x.family[size_t(s.range(0, n - 1))]; }
        auto const near = s.range(0, n - 1);
        position = to_d(x.sys->positions[near]);
        for (auto k = 0; k < 3; ++k) { position[k] = float(position[k] + s.sym(8) / 16.0); }
        auto best = -1;
        auto d1 = 1e9, d2 = 1e9; // nearest and second nearest
        for (auto i = 0; i < n; ++i) {
            if (!sublattice.empty() && x.family[size_t(i)] != sublattice) { continue; }
            auto const d = (to_d(x.sys->positions[i]) - position).norm();
            if (d < d1) { d2 = d1; d1 = d; best = i; } else { d2 = std::min(d, d2); }
        }
        if (d2 - d1 < 1e-4) { throw pbt::Discard(); }
        return best;
    }

    void check_density(cpb::ArrayXXdCM const& r, cpb::ArrayXd const& energy, double broadening, std::vector<std::vector<int>> const& columns, char const* what) {
        PBT_CHECK(r.rows() == energy.size() && r.cols() == int(columns.size()), what, " is ", r.rows(), "x", r.cols(), " for ", energy.size(), " energies and ", columns.size(), " columns");
        auto const ex = expand(int(kernel.required_num_moments(broadening / scale.a)));
        for (auto j = 0; j < r.cols(); ++j) {
            Vec mu = Vec::Zero(ex.size());
            for (auto i : columns[size_t(j)]) { mu += ex.moments(weights(unit(i), unit(i))); }
            for (auto i = 0; i < r.rows(); ++i) {
                auto const e = ex.density(mu, energy[i]);
                check(r(i, j), e, tolerance(ex.size(), energy[i], double(columns[size_t(j)].size())) + 3e-7 * std::abs(e), pbt::str(what, " column ", j, " at energy ", energy[i]));
            }
        }
    }

    void ldos() {
        auto position = V3();
        auto sublattice = std::string();
        auto const site = draw_nearest(position, sublattice);
        auto const reduce = s.chance(1, 2);
        auto const energy = draw_energies();
        auto const broadening = draw_broadening(60);
        ctx.describe([&](std::ostream& os) { os << "ldos at (" << position.transpose() << ") sublattice '" << sublattice << "' reduce " << reduce << " broadening " << broadening << " energies " << energy.transpose() << "\n"; });
        auto const r = kpm.calc_ldos(energy, broadening, to_f(position), sublattice, reduce);
        auto columns = std::vector<std::vector<int>>();
        for (auto i = 0; i < x.norb[size_t(site)]; ++i) {
            if (!reduce || i == 0) { columns.push_back({}); }
            columns.back().push_back(x.first[size_t(site)] + i);
        }
        check_density(r, energy, broadening, columns, "ldos");
        ctx.label("ldos");
        ctx.label(x.norb[size_t(site)] > 1, "ldos of several orbitals");
    }

    void spatial_ldos(Lat const& lat) {
        auto const shape = gen_shape(s, lat, 1.5);
        auto sublattice = std::string();
        if (s.chance(1, 2)) { sublattice = x.family[size_t(s.range(0, int(x.family.size()) - 1))]; }
        auto const energy = draw_energies();
        auto const broadening = draw_broadening(40);
        ctx.describe([&](std::ostream& os) { os << "spatial ldos on sublattice '" << sublattice << "' broadening " << broadening << " energies " << energy.transpose() << " in "; shape.print(os); });
        auto const multiorbital = *std::max_element(x.norb.begin(), x.norb.end()) > 1 || lat.multiorbital();
        if (multiorbital) {
            PBT_CHECK(throws([&] { kpm.calc_spatial_ldos(energy, broadening, shape.build(), sublattice); }), "the spatial ldos of a multi-orbital model was not rejected");
            ctx.label("rejected spatial ldos");
            return;
        }
        auto columns = std::vector<std::vector<int>>();
        for (auto i = 0; i < int(x.first.size()); ++i) {
            auto const in = shape.contains(to_d(x.sys->positions[i]));
            if (in < 0) { throw pbt::Discard(); }
            if (in && (sublattice.empty() || x.family[size_t(i)] == sublattice)) { columns.push_back({i}); }
        }
        auto const r = kpm.calc_spatial_ldos(energy, broadening, shape.build(), sublattice);
        check_density(r, energy, broadening, columns, "spatial ldos");
        ctx.label(columns.empty() ? "spatial ldos of no site" : columns.size() > 1 ? "spatial ldos of several sites" : "spatial ldos of one site");
    }

    /// The first vectors of the stochastic procedure
    std::vector<Vec> random_vectors(int count) {
        auto const& h = kpm.get_model().hamiltonian();
        auto oh = cpb::kpm::OptimizedHamiltonian(h, cpb::kpm::MatrixFormat::CSR, false);
        oh.optimize_for({0, 0}, scale);
        auto starter = cpb::kpm::random_starter(oh);
        auto r = std::vector<Vec>();
        for (auto i = 0; i < count; ++i) {
            auto const v = starter.make(oh.scalar_tag());
            auto out = Vec();
            if (v.is<cpb::VectorX<float>>()) { out = v.get<cpb::VectorX<float>>().cast<cd>(); }
            else if (v.is<cpb::VectorX<double>>()) { out = v.get<cpb::VectorX<double>>().cast<cd>(); }
            else if (v.is<cpb::VectorX<std::complex<float>>>()) { out = v.get<cpb::VectorX<std::complex<float>>>().cast<cd>(); }
            else { out = v.get<cpb::VectorX<std::complex<double>>>(); }
            PBT_CHECK(out.size() == x.size(), "random vector of size ", out.size());
            for (auto k = 0; k < out.size(); ++k) {
                PBT_CHECK(std::abs(std::abs(out[k]) - 1) < 1e-6, "element ", k, " of a random vector is ", out[k]);
                if (!x.scalar.is_complex) { PBT_CHECK(out[k].imag() == 0, "element ", k, " of a real random vector is ", out[k]); }
            }
            r.push_back(out);
        }
        auto sum = cd{0, 0}, square = cd{0, 0};
        auto total = 0.0;
        for (auto const& v : r) { sum += v.sum(); square += v.array().square().sum(); total += double(v.size()); }
        PBT_CHECK(std::abs(sum) <= 6 * std::sqrt(total), "the random vectors have a mean of ", sum / total);
        if (x.scalar.is_complex) { PBT_CHECK(std::abs(square) <= 6 * std::sqrt(total), "the random phases are not uniform: ", square / total); }
        return r;
    }

    void dos() {
        auto const count = s.range(1, 12);
        auto const energy = draw_energies();
        auto const broadening = draw_broadening(40);
        ctx.describe([&](std::ostream& os) { os << "dos with " << count << " random vectors, broadening " << broadening << " energies " << energy.transpose() << "\n"; });
        auto const r = kpm.calc_dos(energy, broadening, count);
        PBT_CHECK(r.size() == energy.size(), "dos of ", r.size(), " energies");
        auto const ex = expand(int(kernel.required_num_moments(broadening / scale.a)));
        Vec mu = Vec::Zero(ex.size());
        for (auto const& v : random_vectors(count)) { mu += ex.moments(weights(v, v)) / double(count); }
        for (auto i = 0; i < r.size(); ++i) {
            auto const e = ex.density(mu, energy[i]);
            check(r[i], e, tolerance(ex.size(), energy[i], x.size()) + 3e-7 * std::abs(e), pbt::str("dos at energy ", energy[i]));
        }
        ctx.label("dos");
    }

    void greens() {
        auto const row = s.range(0, x.size() - 1);
        auto const single = s.chance(1, 3);
        auto cols = std::vector<cpb::idx_t>();
        for (auto n = single ? 1 : s.range(0, 6); n > 0; --n) { cols.push_back(s.chance(1, 4) ? row : s.range(0, x.size() - 1)); }
        auto const energy = draw_energies();
        auto const broadening = draw_broadening(60);
        ctx.describe([&](std::ostream& os) { os << "Green's function " << row << ","; for (auto c : cols) { os << " " << c; } os << " broadening " << broadening << " energies " << energy.transpose() << "\n"; });
        auto r = std::vector<cpb::ArrayXcd>();
        if (single) { r.push_back(kpm.calc_greens(row, cols[0], energy, broadening)); }
        else { r = kpm.calc_greens_vector(row, cols, energy, broadening); }
        PBT_CHECK(r.size() == cols.size(), r.size(), " Green's functions of ", cols.size());
        auto const ex = expand(int(kernel.required_num_moments(broadening / scale.a)));
        for (auto j = size_t{0}; j < cols.size(); ++j) {
            PBT_CHECK(r[j].size() == energy.size(), "Green's function ", j, " for ", r[j].size(), " energies");
            // the matrix element between a vector at `row` and the one at `col`: mu_n = <col|T_n|row>
            auto const mu = ex.moments(weights(unit(int(cols[j])), unit(row)));
            for (auto i = 0; i < energy.size(); ++i) {
                check(r[j][i], ex.greens(mu, energy[i]), tolerance(ex.size(), energy[i], 1), pbt::str("Green's function ", row, ",", cols[j], " at energy ", energy[i]));
            }
        }
        ctx.label(cols.empty() ? "Green's function of nothing" : cols.size() > 1 ? "several Green's functions" : "Green's function");
    }

    void conductivity() {
        auto const count = s.range(1, 4);
        auto const points = s.range(2, 24);
        auto const temperature = double(s.pick({300.0, 1000.0, 4000.0, 50.0, 4.0, 0.5}));
        auto const direction = std::string(1, "xyz"[s.range(0, 2)]) + "xyz"[s.range(0, 2)];
        auto const broadening = draw_broadening(14);
        auto const mu = draw_energies();
        ctx.describe([&](std::ostream& os) { os << "conductivity " << direction << " with " << count << " random vectors, " << points << " points, " << temperature << " K, broadening " << broadening << " potentials " << mu.transpose() << "\n"; });
        auto const r = kpm.calc_conductivity(mu, broadening, temperature, direction, count, points);
        PBT_CHECK(r.size() == mu.size(), "conductivity for ", r.size(), " potentials");

        auto const N = int(kernel.required_num_moments(broadening / scale.a));
        auto const ex = expand(N);
        auto velocity = [&](char c) {
            Mat v = x.h;
            auto pos = std::vector<double>();
            for (auto i = size_t{0}; i < x.first.size(); ++i) {
                auto const p = to_d(x.sys->positions[int(i)]);
                for (auto k = 0; k < x.norb[i]; ++k) { pos.push_back(p[c - 'x']); }
            }
            for (auto i = 0; i < x.size(); ++i) { for (auto j = 0; j < x.size(); ++j) { v(i, j) *= pos[size_t(i)] - pos[size_t(j)]; } }
            return v;
        };
        auto const left = velocity(direction[0]), right = velocity(direction[1]);
        // mu_nm = average of <r|T_m right^+ T_n left|r>
        Mat moments = Mat::Zero(N, N);
        auto const t = Mat(ex.t.cast<cd>());
        Mat const middle = x.states.adjoint() * right.adjoint() * x.states;
        for (auto const& v : random_vectors(count)) {
            Vec const l = x.states.adjoint() * left * v, k = x.states.adjoint() * v;
            // (n, m): sum over states p, q of conj(k_p) T_m(p) middle_pq T_n(q) l_q
            Mat const w = k.conjugate().asDiagonal() * middle * l.asDiagonal();
            moments += t * w.transpose() * t.transpose() / double(count);
        }
        for (auto n = 0; n < N; ++n) { for (auto m = 0; m < N; ++m) { moments(n, m) *= ex.weight(n) * ex.weight(m); } }

        auto const size = left.norm() * right.norm() * x.size();
        auto const kbt = double(cpb::constant::kb) * temperature;
        for (auto i = 0; i < mu.size(); ++i) {
            auto sum = cd{0, 0};
            auto magnitude = 0.0, step_change = 0.0;
            for (auto p = 0; p < points; ++p) {
                auto const energy = bound_min + (bound_max - bound_min) * p / (points - 1);
                auto const e = (energy - scale.b) / scale.a, phi = std::acos(e), sq = std::sqrt(1 - e * e);
                auto part = cd{0, 0};
                auto part_size = 0.0;
                for (auto n = 0; n < N; ++n) {
                    for (auto m = 0; m < N; ++m) {
                        auto const gamma = cd(e, -m * sq) * std::exp(cd(0, m * phi)) * std::cos(n * phi)
                                         + cd(e, n * sq) * std::exp(cd(0, -n * phi)) * std::cos(m * phi);
                        part += moments(n, m) * gamma;
                        part_size += std::abs(gamma) * ex.weight(n) * ex.weight(m);
                    }
                }
                auto const k = 1 / std::pow(1 - e * e, 2);
                auto const fermi = 1 / (1 + std::exp((energy - mu[i]) / kbt));
                auto const end = p == 0 || p == points - 1 ? 0.5 : 1.0;
                sum += part * k * fermi * end;
                // at low temperatures, rounding of the energies moves the step
                auto const shift = 8 * eps() * (std::abs(bound_min) + std::abs(bound_max) + std::abs(energy) + std::abs(mu[i]));
                step_change += part_size * k * size * (1 / (1 + std::exp((energy - mu[i] - shift) / kbt)) - 1 / (1 + std::exp((energy - mu[i] + shift) / kbt)));
                magnitude += part_size * k * size * (fermi + std::min(1.0, 1e-2 / (kbt / scale.a)) * fermi) / (1 - e * e);
            }
            auto const step = (bound_max - bound_min) / scale.a / (points - 1);
            auto const exact = (4 / (scale.a * scale.a) * step * sum).real();
            auto const tol = 60 * eps() * N * 4 / (scale.a * scale.a) * step * magnitude + 4 / (scale.a * scale.a) * step * step_change + 3e-7 * std::abs(exact);
            // integration with range / size or range / (size - 1) as the step
            auto const low = std::min(exact, exact * (points - 1) / points), high = std::max(exact, exact * (points - 1) / points);
            PBT_CHECK(std::isfinite(r[i]) && r[i] >= low - tol && r[i] <= high + tol, "conductivity at ", mu[i], " is ", r[i], ", expected ", exact, " (tolerance ", tol, ")");
            ctx.label(tol < 0.01 * std::abs(exact), "conductivity, tight");
        }
        ctx.label("conductivity");
    }
    double bound_min = 0, bound_max = 0;

    void rejections() {
        auto const n = x.size();
        auto const energy = draw_energies();
        auto const b = draw_broadening(10);
        auto const ok = Vec(Vec::Ones(n));
        auto const none = cpb::SparseMatrixXcd();
        auto const wrong = Vec(Vec::Ones(s.chance(1, 2) ? n + s.range(1, 3) : n - 1));
        auto op = [&](int rows, int cols, cd value) {
            auto m = cpb::SparseMatrixXcd(rows, cols);
            m.insert(rows - 1, cols - 1) = value;
            m.makeCompressed();
            return m;
        };
        auto complex_vec = ok;
        complex_vec[s.range(0, n - 1)] = cd(s.sym(1), 1);
        auto const bad = n + s.range(0, 3), negative = -1 - s.range(0, 3);
        switch (s.range(0, 8)) {
            case 0: PBT_CHECK(throws([&] { kpm.moments(8, wrong); }), "alpha of size ", wrong.size(), " for ", n, " rows was accepted"); break;
            case 1:
                if (wrong.size() == 0) { break; }
                PBT_CHECK(throws([&] { kpm.moments(8, ok, wrong); }), "beta of size ", wrong.size(), " for ", n, " rows was accepted"); break;
            case 2: {
                auto const rows = n + s.range(0, 2), cols = rows == n || s.chance(1, 2) ? n + 1 : n;
                PBT_CHECK(throws([&] { kpm.moments(8, ok, {}, op(rows, cols, 1)); }), "an operator of ", rows, "x", cols, " for ", n, " rows was accepted"); break;
            }
            case 3: {
                auto const which = s.range(0, 2);
                auto const call = [&] {
                    auto const r = kpm.moments(8, which == 0 ? complex_vec : ok, which == 1 ? complex_vec : Vec(), which == 2 ? op(n, n, cd(s.sym(1), 1)) : none);
                    PBT_CHECK(r.size() == 8, "number of moments");
                };
                if (x.scalar.is_complex) { call(); }
                else { PBT_CHECK(throws(call), "complex ", which == 0 ? "alpha" : which == 1 ? "beta" : "operator", " for a real model was accepted"); }
                break;
            }
            case 4: {
                auto const i = s.range(0, n - 1), j = s.chance(1, 2) ? bad : negative;
                auto const first = s.chance(1, 2);
                PBT_CHECK(throws([&] { kpm.calc_greens(first ? j : i, first ? i : j, energy, b); }), "Green's function index ", j, " of ", n, " was accepted");
                break;
            }
            case 5: {
                auto cols = std::vector<cpb::idx_t>{s.range(0, n - 1), s.range(0, n - 1)};
                auto row = cpb::idx_t(s.range(0, n - 1));
                auto const which = s.range(0, 2);
                auto const j = s.chance(1, 2) ? bad : negative;
                (which == 0 ? row : cols[size_t(which - 1)]) = j;
                PBT_CHECK(throws([&] { kpm.calc_greens_vector(row, cols, energy, b); }), "Green's function index ", j, " of ", n, " was accepted");
                break;
            }
            case 6: {
                auto const direction = s.pick<std::string>({"", "x", "xq", "xyz", "X", "XX", "x ", "ab", "1x"});
                PBT_CHECK(throws([&] { kpm.calc_conductivity(energy, b, 300, direction, 1, 4); }), "direction '", direction, "' was accepted");
                break;
            }
            case 7:
                PBT_CHECK(throws([&] { kpm.calc_ldos(energy, b, {0, 0, 0}, "no such name"); }), "an unknown sublattice was accepted");
                if (*std::max_element(x.norb.begin(), x.norb.end()) == 1) {
                    PBT_CHECK(throws([&] { kpm.calc_spatial_ldos(energy, b, cpb::Line({-9, 0, 0}, {9, 0, 0}), "no such name"); }), "an unknown sublattice was accepted");
                }
                break;
            default: {
                auto config = cpb::kpm::Config();
                config.min_energy = float(1 + s.sym(8));
                config.max_energy = config.min_energy - float(s.range(1, 8)) / 4;
                PBT_CHECK(throws([&] { cpb::KPM(kpm.get_model(), cpb::kpm::DefaultCompute(1), config); }), "an energy range from ", config.min_energy, " to ", config.max_energy, " was accepted");
                PBT_CHECK(throws([&] { cpb::kpm::lorentz_kernel(-double(s.range(0, 4))); }), "a Lorentz kernel without a positive lambda was accepted");
            }
        }
        ctx.label("rejected arguments");
    }
};

void run(Src& s, Ctx& ctx) {
    auto const want_double = s.chance(2, 3);
    auto config = cpb::kpm::Config();
    auto const kind = s.range(0, 2);
    config.kernel = kind == 0 ? cpb::kpm::jackson_kernel() : kind == 1 ? cpb::kpm::lorentz_kernel(s.pick({4.0, 3.0, 1.0})) : cpb::kpm::dirichlet_kernel();
    config.algorithm = {s.chance(1, 2), s.chance(1, 2)};
    config.matrix_format = s.chance(1, 2) ? cpb::kpm::MatrixFormat::ELL : cpb::kpm::MatrixFormat::CSR;
    auto const threads = s.pick({1, 1, 2, 3});
    auto const automatic = s.chance(1, 4);
    ctx.describe([&](std::ostream& os) { os << "kernel " << kind << (config.algorithm.optimal_size ? " optimal_size" : "") << (config.algorithm.interleaved ? " interleaved " : " ")
        << (config.matrix_format == cpb::kpm::MatrixFormat::ELL ? "ELL " : "CSR ") << threads << " threads\n"; });

    auto models = std::vector<cpb::Model>();
    auto lats = std::vector<Lat>();
    auto truths = std::vector<Truth>();
    for (auto n = s.chance(1, 5) ? 2 : 1; n > 0; --n) {
        lats.push_back(Lat());
        models.push_back(draw_model(s, ctx, want_double, lats.back()));
        truths.push_back(make_truth(models.back()));
    }
    if (!automatic) {
        auto lo = 1e9, hi = -1e9;
        for (auto const& t : truths) { lo = std::min(lo, t.energies.minCoeff()); hi = std::max(hi, t.energies.maxCoeff()); }
        config.min_energy = float(lo - s.range(1, 8) * 0.25);
        config.max_energy = float(hi + s.range(1, 8) * 0.25);
        ctx.describe([&](std::ostream& os) { os << "energies from " << config.min_energy << " to " << config.max_energy << "\n"; });
    }
    auto kpm = cpb::KPM(models[0], cpb::kpm::DefaultCompute(threads), config);
    for (auto m = size_t{0}; m < models.size(); ++m) {
        if (s.chance(1, 20)) {
            PBT_CHECK(throws([&] { kpm.set_model(model_without_sites()); }), "a model without any sites was accepted");
            ctx.label("rejected model"); // nothing has changed
        }
        if (m > 0) { kpm.set_model(models[m]); ctx.label("second model"); }
        auto const& x = truths[m];
        auto const scale = kpm.get_core().scaling_factors();
        if (automatic && m > 0) { // the energy range is that of the current model
            auto fresh = cpb::KPM(models[m], cpb::kpm::DefaultCompute(1), config);
            auto const expected = fresh.get_core().scaling_factors();
            PBT_CHECK(std::abs(scale.a - expected.a) <= 1e-5 * expected.a && std::abs(scale.b - expected.b) <= 1e-5 * (expected.a + std::abs(expected.b)),
                      "scaling factors ", scale.a, " ", scale.b, " after a change of the model but ", expected.a, " ", expected.b, " for a new calculation with this model");
        }
        auto c = Case{s, ctx, kpm, x, config.kernel, scale, 0, 0};
        for (auto e : x.energies) { if (std::abs(e - scale.b) >= scale.a * (1 - 1e-5)) { throw pbt::Discard(); } } // another property
        if (automatic) {
            // what the scale was made from
            auto const bounds = kpm.get_core().scaling_factors();
            c.bound_max = bounds.b + bounds.a / (1 + double(cpb::kpm::Scale<>::tolerance));
            c.bound_min = bounds.b - bounds.a / (1 + double(cpb::kpm::Scale<>::tolerance));
        } else {
            c.bound_min = config.min_energy;
            c.bound_max = config.max_energy;
            auto const a = 0.5 * (c.bound_max - c.bound_min) * 1.01, b = 0.5 * (c.bound_max + c.bound_min);
            PBT_CHECK(std::abs(scale.a - a) <= 1e-6 * a && std::abs(scale.b - b) <= 2e-4 * a, "scaling factors ", scale.a, " ", scale.b, " for energies from ", config.min_energy, " to ", config.max_energy);
        }
        c.min = c.bound_min;
        c.max = c.bound_max;
        if (c.max - c.min < 1e-3) { c.min = scale.b - scale.a; c.max = scale.b + scale.a; }
        auto const change = s.chance(1, 5);
        if (change && m + 1 == models.size()) { // the calculation has a model of its own
            auto mod = EnergyMod();
            mod.a = 2;
            mod.b = 1;
            auto p = Program();
            p.mods.push_back(mod);
            p.add_mod(models[m], 0);
            models[m].hamiltonian();
            ctx.label("original model changed");
        }
        for (auto n = s.range(1, 4); n > 0; --n) {
            switch (s.range(0, 11)) {
                case 0: case 1: c.moments(); break;
                case 2: case 3: c.ldos(); break;
                case 4: c.spatial_ldos(lats[m]); break;
                case 5: case 6: c.greens(); break;
                case 7: c.dos(); break;
                case 8: case 9: if (!automatic) { c.conductivity(); } break;
                default: c.rejections();
            }
        }
    }
    ctx.label(truths[0].scalar.is_double, "double precision");
    ctx.label(truths[0].scalar.is_complex, "complex");
    ctx.label(automatic, "automatic energy range");
    ctx.nontrivial = truths[0].size() > 1 && truths[0].h.cwiseAbs().maxCoeff() > 0;
}

} // anonymous namespace

namespace pbt {
Property const property = {
    "C17",
    "random small models (blocks or periodic, with modifiers, any scalar type), kernels, algorithm switches, energy ranges and 1-4 "
    "calculations or invalid calls on each KPM object; results compared with sums over the exact eigen-decomposition of the "
    "model's own Hamiltonian; non-trivial: more than one row and a Hamiltonian which isn't zero",
    80000, 1000000, run,
    {"libsimdpp is replaced by a stand-in with the same interface",
     "the random vectors are the first ones of the library's own generator (checked for unit modulus and zero mean)",
     "the model's own Hamiltonian and site positions are taken as given (see C05-C10)",
     "rounding errors of the scalar type times the number of moments are allowed, and 3e-7 for the library's single precision pi",
     "the conductivity may be integrated with a step of range / points or range / (points - 1)"}};
}
