// C16: Chebyshev-expansion optimizations never change the result
#include "matrices.hpp"
#include "kpm/Core.hpp"
#include "kpm/default/Compute.hpp"

#include <atomic>
#include <cmath>
#include <map>

using namespace cpb;
using herm::cd;
using herm::Dense;

namespace {

using Algo = kpm::AlgorithmConfig;

struct Setup {
    herm::Matrix m;
    kpm::Scale<> scale;
    double min = 0, max = 0;
    Dense scaled; ///< (H - b) / a

    int size() const { return m.size(); }
};

Setup draw_setup(pbt::Src& s, pbt::Ctx& ctx) {
    auto x = Setup();
    auto o = herm::Options();
    o.max_size = ctx.thorough && s.chance(1, 6) ? 60 : (s.chance(1, 8) ? 36 : 14);
    x.m = herm::generate(s, o);
    auto const e = herm::eigenvalues(x.m.values);
    // a given energy range which holds the spectrum, symmetric or not (no offset or some)
    auto const wide = std::max(std::abs(e.minCoeff()), std::abs(e.maxCoeff()));
    if (s.chance(1, 3)) { x.max = wide + s.range(1, 8) * 0.25; x.min = -x.max; }
    else { x.min = e.minCoeff() - s.range(1, 8) * 0.25; x.max = e.maxCoeff() + s.range(1, 8) * 0.25; }
    x.min = float(x.min);
    x.max = float(x.max);
    x.scale = kpm::Scale<>(x.min, x.max);
    x.scaled = x.m.values;
    for (auto i = 0; i < x.size(); ++i) { x.scaled(i, i) -= x.scale.b; }
    x.scaled /= x.scale.a;
    return x;
}

/// T_0..T_{n-1} of the scaled matrix applied to v
std::vector<Eigen::VectorXcd> chebyshev(Dense const& h, Eigen::VectorXcd const& v, int n) {
    auto t = std::vector<Eigen::VectorXcd>{v};
    if (n > 1) { t.push_back(h * v); }
    while (int(t.size()) < n) { t.push_back(2 * (h * t.back()) - t[t.size() - 2]); }
    return t;
}

// --- the prepared matrix ----------------------------------------------------------------------

struct AnyToDense {
    Dense& out;
    template<class T> void operator()(SparseMatrixX<T> const& m) const {
        PBT_CHECK(m.isCompressed(), "the optimized matrix is not compressed");
        out = Dense::Zero(m.rows(), m.cols());
        for (auto r = 0; r < m.rows(); ++r) {
            for (auto k = m.outerIndexPtr()[r]; k < m.outerIndexPtr()[r + 1]; ++k) {
                auto const c = m.innerIndexPtr()[k];
                PBT_CHECK(c >= 0 && c < m.cols(), "column ", c, " in row ", r);
                out(r, c) += cd(m.valuePtr()[k]);
            }
        }
    }
    template<class T> void operator()(num::EllMatrix<T> const& m) const {
        out = Dense::Zero(m.rows(), m.cols());
        for (auto r = 0; r < m.rows(); ++r) {
            for (auto n = 0; n < m.nnz_per_row; ++n) {
                auto const c = m.indices(r, n);
                PBT_CHECK(c >= 0 && c < m.cols(), "column ", c, " in row ", r);
                out(r, c) += cd(m.data(r, n));
            }
        }
    }
};

struct IsType {
    template<class T> std::string operator()(SparseMatrixX<T> const&) const { return std::string("CSR ") + num::scalar_name<T>(); }
    template<class T> std::string operator()(num::EllMatrix<T> const&) const { return std::string("ELL ") + num::scalar_name<T>(); }
};

std::vector<idx_t> draw_indices(pbt::Src& s, int n, int max_count) {
    auto v = std::vector<idx_t>();
    auto const count = s.range(1, max_count);
    for (auto i = 0; i < count; ++i) { v.push_back(s.range(0, n - 1)); }
    return v;
}

std::string show(std::vector<idx_t> const& v) { auto r = std::string(); for (auto x : v) { r += " " + std::to_string(x); } return r; }

/// Distance of every row from the given ones along stored elements, -1 if there is no path
std::vector<int> distances(herm::Matrix const& m, std::vector<idx_t> const& from) {
    auto d = std::vector<int>(size_t(m.size()), -1);
    auto queue = std::vector<int>();
    for (auto i : from) { if (d[size_t(i)] < 0) { d[size_t(i)] = 0; queue.push_back(int(i)); } }
    for (auto k = size_t{0}; k < queue.size(); ++k) {
        for (auto j = 0; j < m.size(); ++j) {
            if (m.stored(queue[k], j) && d[size_t(j)] < 0) { d[size_t(j)] = d[size_t(queue[k])] + 1; queue.push_back(j); }
        }
    }
    return d;
}

void matrix_case(pbt::Src& s, pbt::Ctx& ctx) {
    auto const x = draw_setup(s, ctx);
    auto const n = x.size();
    auto const format = s.chance(1, 2) ? kpm::MatrixFormat::ELL : kpm::MatrixFormat::CSR;
    auto const reorder = s.chance(2, 3);
    auto oh = kpm::OptimizedHamiltonian(x.m.hamiltonian(), format, reorder);
    ctx.describe([&](std::ostream& os) { os << "prepared matrix, " << (format == kpm::MatrixFormat::ELL ? "ELL" : "CSR") << (reorder ? ", reordered" : "") << ", energy range " << x.min << " " << x.max << ", " << x.m; });
    PBT_CHECK(oh.size() == n, "size is ", oh.size());
    auto const rounds = s.range(1, 3);
    for (auto round = 0; round < rounds; ++round) {
        auto src = draw_indices(s, n, 4), dest = s.chance(1, 2) ? src : draw_indices(s, n, 4);
        ctx.describe([&](std::ostream& os) { os << "source" << show(src) << ", destination" << show(dest) << "\n"; });
        auto const idx = kpm::Indices(src, dest);
        oh.optimize_for(idx, x.scale);

        auto got = Dense();
        var::apply_visitor(AnyToDense{got}, oh.matrix());
        PBT_CHECK(got.rows() == n && got.cols() == n, "optimized matrix is ", got.rows(), "x", got.cols());
        auto const type = std::string(format == kpm::MatrixFormat::ELL ? "ELL " : "CSR ") +
            (x.m.is_complex ? (x.m.is_double ? num::scalar_name<std::complex<double>>() : num::scalar_name<std::complex<float>>())
                            : (x.m.is_double ? num::scalar_name<double>() : num::scalar_name<float>()));
        auto const actual_type = var::apply_visitor(IsType{}, oh.matrix());
        PBT_CHECK(actual_type == type, "the optimized matrix is ", actual_type, " expected ", type);

        // the permutation, from a vector of row numbers
        auto order = ArrayXi(n);
        for (auto i = 0; i < n; ++i) { order[i] = i; }
        oh.reorder(order); // order[new] = old
        auto position = std::vector<int>(size_t(n), -1);
        for (auto i = 0; i < n; ++i) {
            PBT_CHECK(order[i] >= 0 && order[i] < n && position[size_t(order[i])] < 0, "reordering isn't a permutation: row ", order[i], " at ", i);
            position[size_t(order[i])] = i;
            if (!reorder) { PBT_CHECK(order[i] == i, "row ", i, " is moved without reordering"); }
        }
        for (auto i = 0; i < n; ++i) {
            for (auto j = 0; j < n; ++j) {
                auto const e = 2.0 * x.scaled(order[i], order[j]);
                PBT_CHECK(std::abs(got(i, j) - e) <= 8 * x.m.epsilon() * (std::abs(e) + 2 * std::abs(x.scale.b / x.scale.a)), "optimized element (", i, ",", j, ") is ", got(i, j), " expected ", e);
            }
        }
        // a sparse operator moves along
        auto op = x.m.sparse<cd>();
        oh.reorder(op);
        auto const dense_op = Dense(op);
        for (auto i = 0; i < n; ++i) { for (auto j = 0; j < n; ++j) { PBT_CHECK(dense_op(i, j) == x.m.values(order[i], order[j]), "reordered operator (", i, ",", j, ")"); } }

        // indices move along
        PBT_CHECK(oh.idx().src.size() == int(src.size()) && oh.idx().dest.size() == int(dest.size()), "number of indices changes");
        for (auto i = 0; i < int(src.size()); ++i) { PBT_CHECK(oh.idx().src[i] == position[size_t(src[size_t(i)])], "source index ", i, " is ", oh.idx().src[i]); }
        for (auto i = 0; i < int(dest.size()); ++i) { PBT_CHECK(oh.idx().dest[i] == position[size_t(dest[size_t(i)])], "destination index ", i, " is ", oh.idx().dest[i]); }
        if (reorder) { PBT_CHECK(oh.idx().src[0] == 0, "the first source is at ", oh.idx().src[0]); }

        // slices: increasing borders up to the full size; matrix elements reach the next slice at most
        auto const& map = oh.map();
        auto const& border = map.get_data();
        PBT_CHECK(!border.empty() && border.back() == n, "the last slice border is ", border.empty() ? -1 : border.back(), " of ", n);
        auto slice = std::vector<int>(size_t(n), 0);
        for (auto k = size_t{0}; k < border.size(); ++k) {
            auto const from = k ? border[k - 1] : 0;
            PBT_CHECK(border[k] > from, "slice ", k, " ends at ", border[k], " and starts at ", from);
            for (auto i = from; i < border[k]; ++i) { slice[size_t(i)] = int(k); }
        }
        for (auto i = 0; i < n; ++i) {
            for (auto j = 0; j < n; ++j) {
                if (got(i, j) != 0.0) { PBT_CHECK(std::abs(slice[size_t(i)] - slice[size_t(j)]) <= 1, "element (", i, ",", j, ") connects slices ", slice[size_t(i)], " and ", slice[size_t(j)]); }
            }
        }
        // the part of the system used for a moment holds everything that contributes to it
        auto const from = distances(x.m, src), to = distances(x.m, dest);
        for (auto total : {2, 6, 10, 18, 42}) {
            auto full = false;
            for (auto k = 0; k < total; ++k) {
                auto const size = map.optimal_size(k, total);
                PBT_CHECK(size >= 1 && size <= n, "size ", size, " for moment ", k);
                full = full || size == n;
                if (k < 2) { continue; }
                // elements of T_k|src> which later moments up to the last one can move to dest
                for (auto i = 0; i < n; ++i) {
                    auto const a = from[size_t(order[i])], b = to[size_t(order[i])];
                    if (a >= 0 && b >= 0 && a <= k && b <= total - 1 - k) { PBT_CHECK(i < size, "row ", order[i], " (now ", i, ") contributes to moment ", k, " of ", total, ", but only ", size, " rows are used"); }
                }
            }
        }
        ctx.label(border.size() > 3, "many slices");
        auto const reached = distances(x.m, {src[0]});
        ctx.label(std::count(reached.begin(), reached.end(), -1) > 0, "disconnected");
    }
    ctx.nontrivial = n > 1;
    ctx.label(reorder ? "reordered matrix" : "scaled matrix");
    ctx.label(x.scale.b != 0, "with an offset");
}

// --- calculations -----------------------------------------------------------------------------

struct Query {
    int kind = 0; // 0 moments, 1 ldos, 2 greens_vector, 3 dos, 4 conductivity
    int count = 0;
    VectorXcd alpha, beta;
    Dense op;
    std::vector<idx_t> idx;
    idx_t row = 0;
    double broadening = 1;
    ArrayXd energy;
    ArrayXf left, right;
    friend std::ostream& operator<<(std::ostream& os, Query const& q) {
        static char const* const names[] = {"moments", "ldos", "greens_vector", "dos", "conductivity"};
        os << names[q.kind];
        if (q.kind == 0) { os << " count " << q.count << " alpha " << q.alpha.transpose() << " beta " << q.beta.transpose() << " operator " << (q.op.size() ? "yes" : "no"); }
        if (q.kind == 2) { os << " row " << q.row; }
        if (q.kind == 1 || q.kind == 2) { os << " indices" << show(q.idx); }
        if (q.kind >= 3) { os << " random " << q.count; }
        if (q.kind > 0) { os << " broadening " << q.broadening << " energies " << q.energy.transpose(); }
        return os << "\n";
    }
};

Query draw_query(pbt::Src& s, Setup const& x) {
    auto q = Query();
    auto const n = x.size();
    q.kind = s.pick({0, 0, 1, 1, 1, 2, 2, 2, 3, 4});
    auto vec = [&] {
        auto v = VectorXcd(n);
        for (auto i = 0; i < n; ++i) { v[i] = cd{s.sym(8) / 4.0, x.m.is_complex ? s.sym(8) / 4.0 : 0.0}; }
        return v;
    };
    if (q.kind == 0) {
        q.count = s.range(1, 40);
        q.alpha = vec();
        if (s.chance(1, 2)) { q.beta = vec(); }
        if (s.chance(1, 3)) {
            q.op = Dense::Zero(n, n);
            auto const k = s.range(0, 2 * n);
            for (auto i = 0; i < k; ++i) { q.op(s.range(0, n - 1), s.range(0, n - 1)) = cd{s.sym(8) / 4.0, x.m.is_complex ? s.sym(8) / 4.0 : 0.0}; }
            q.op(0, n - 1) = 1; // never without elements
        }
        return q;
    }
    q.broadening = x.scale.a * 3.0 / s.range(1, q.kind == 4 ? 12 : 60);
    q.energy = ArrayXd(s.range(1, 4));
    for (auto i = 0; i < q.energy.size(); ++i) { q.energy[i] = x.min + (x.max - x.min) * s.range(1, 31) / 32.0; }
    if (q.kind <= 2) {
        q.row = s.range(0, n - 1);
        q.idx = draw_indices(s, n, s.chance(1, 4) ? 20 : 5);
        if (q.kind == 2 && s.chance(1, 4)) { q.idx = {q.row}; }
    } else {
        q.count = s.range(1, q.kind == 4 ? 2 : 19);
        q.left = ArrayXf(n);
        q.right = ArrayXf(n);
        for (auto i = 0; i < n; ++i) { q.left[i] = float(s.sym(16)) / 4; q.right[i] = float(s.sym(16)) / 4; }
    }
    return q;
}

/// All results in one row of numbers
std::vector<cd> evaluate(kpm::Core& core, Query const& q) {
    auto out = std::vector<cd>();
    switch (q.kind) {
        case 0: {
            auto op = SparseMatrixXcd();
            if (q.op.size()) { op = q.op.sparseView(); op.makeCompressed(); }
            auto const r = core.moments(q.count, q.alpha, q.beta, op);
            PBT_CHECK(r.size() == q.count, r.size(), " moments of ", q.count);
            for (auto i = 0; i < r.size(); ++i) { out.push_back(r[i]); }
            break;
        }
        case 1: {
            auto const r = core.ldos(q.idx, q.energy, q.broadening);
            PBT_CHECK(r.rows() == q.energy.size() && r.cols() == int(q.idx.size()), "ldos is ", r.rows(), "x", r.cols());
            for (auto j = 0; j < r.cols(); ++j) { for (auto i = 0; i < r.rows(); ++i) { out.push_back(r(i, j)); } }
            break;
        }
        case 2: {
            auto const r = core.greens_vector(q.row, q.idx, q.energy, q.broadening);
            PBT_CHECK(r.size() == q.idx.size(), r.size(), " Green's functions of ", q.idx.size());
            for (auto const& g : r) {
                PBT_CHECK(g.size() == q.energy.size(), g.size(), " energies");
                for (auto i = 0; i < g.size(); ++i) { out.push_back(g[i]); }
            }
            break;
        }
        case 3: {
            auto const r = core.dos(q.energy, q.broadening, q.count);
            PBT_CHECK(r.size() == q.energy.size(), r.size(), " energies");
            for (auto i = 0; i < r.size(); ++i) { out.push_back(r[i]); }
            break;
        }
        default: {
            auto const r = core.conductivity(q.left, q.right, q.energy, q.broadening, 300, q.count, 20);
            PBT_CHECK(r.size() == q.energy.size(), r.size(), " potentials");
            for (auto i = 0; i < r.size(); ++i) { out.push_back(r[i]); }
        }
    }
    return out;
}

/// The plain algorithm: dense recursion (not for random vectors)
std::vector<cd> plain(Setup const& x, Query const& q, kpm::Kernel const& kernel) {
    auto out = std::vector<cd>();
    auto const n = x.size();
    auto const N = q.kind == 0 ? int(kpm::round_num_moments(q.count)) : int(kernel.required_num_moments(q.broadening / x.scale.a));
    auto const damping = kernel.damping_coefficients(N);
    auto unit = [&](idx_t i) { auto v = VectorXcd(VectorXcd::Zero(n)); v[i] = 1; return v; };
    auto moments = [&](VectorXcd const& from, std::vector<VectorXcd> const& to, Dense const& op) {
        auto const t = chebyshev(x.scaled, from, N);
        auto r = std::vector<ArrayXcd>(to.size(), ArrayXcd(N));
        for (auto k = 0; k < N; ++k) {
            auto const w = VectorXcd(op.size() ? op * t[size_t(k)] : t[size_t(k)]);
            for (auto j = size_t{0}; j < to.size(); ++j) { r[j][k] = to[j].dot(w) * damping[k] * (k == 0 ? 0.5 : 1.0); }
        }
        return r;
    };
    if (q.kind == 0) {
        auto const r = moments(q.alpha, {q.beta.size() ? q.beta : q.alpha}, q.op).front();
        for (auto i = 0; i < q.count; ++i) { out.push_back(r[i]); }
        return out;
    }
    auto value = [&](ArrayXcd const& mu, double energy) -> cd {
        auto const e = (energy - x.scale.b) / x.scale.a, phi = std::acos(e), root = std::sqrt(1 - e * e);
        auto sum = cd{0, 0};
        for (auto k = 0; k < N; ++k) { sum += q.kind == 1 ? cd(mu[k].real() * std::cos(k * phi)) : mu[k] * std::exp(cd(0, -k * phi)); }
        return q.kind == 1 ? sum * 2.0 / (x.scale.a * std::acos(-1.0) * root) : cd(0, -2) / (x.scale.a * root) * sum;
    };
    auto list = std::vector<ArrayXcd>();
    if (q.kind == 1) { for (auto i : q.idx) { list.push_back(moments(unit(i), {unit(i)}, {}).front()); } }
    else {
        auto to = std::vector<VectorXcd>();
        for (auto i : q.idx) { to.push_back(unit(i)); }
        list = moments(unit(q.row), to, {});
    }
    for (auto const& mu : list) { for (auto i = 0; i < q.energy.size(); ++i) { out.push_back(value(mu, q.energy[i])); } }
    return out;
}

struct Variant { Algo algo; kpm::MatrixFormat format; int threads; };

void calculation_case(pbt::Src& s, pbt::Ctx& ctx) {
    auto const x = draw_setup(s, ctx);
    auto const kernel_kind = s.range(0, 2);
    auto config = kpm::Config();
    config.min_energy = float(x.min);
    config.max_energy = float(x.max);
    config.kernel = kernel_kind == 0 ? kpm::jackson_kernel() : kernel_kind == 1 ? kpm::lorentz_kernel() : kpm::dirichlet_kernel();

    auto queries = std::vector<Query>();
    auto const count = s.range(1, 3);
    for (auto i = 0; i < count; ++i) {
        queries.push_back(i > 0 && s.chance(1, 4) ? queries.front() : draw_query(s, x));
        if (i > 0 && s.chance(1, 4)) { queries.back().idx = draw_indices(s, x.size(), 5); }
    }
    ctx.describe([&](std::ostream& os) {
        os << "kernel " << kernel_kind << ", energy range " << x.min << " " << x.max << ", " << x.m;
        for (auto const& q : queries) { os << q; }
    });

    auto variants = std::vector<Variant>();
    variants.push_back({{false, false}, kpm::MatrixFormat::CSR, 1});
    auto const all = s.chance(1, 4);
    for (auto optimal : {false, true}) {
        for (auto interleaved : {false, true}) {
            for (auto format : {kpm::MatrixFormat::CSR, kpm::MatrixFormat::ELL}) {
                if (all || s.chance(1, 2)) { variants.push_back({{optimal, interleaved}, format, s.pick({1, 1, 2, 3, 8})}); }
            }
        }
    }

    auto reference = std::vector<std::vector<cd>>();
    auto other = herm::Matrix(); // used in between, in some of the cases
    auto const swap = s.chance(1, 5);
    if (swap) { auto o = herm::Options(); o.max_size = 8; other = herm::generate(s, o); }

    for (auto const& v : variants) {
        auto name = [&] { return pbt::str("optimal_size ", v.algo.optimal_size, ", interleaved ", v.algo.interleaved, ", ", v.format == kpm::MatrixFormat::ELL ? "ELL" : "CSR", ", ", v.threads, " threads"); };
        config.algorithm = v.algo;
        config.matrix_format = v.format;
        auto core = kpm::Core(x.m.hamiltonian(), kpm::DefaultCompute(v.threads), config);
        if (swap) {
            core.set_hamiltonian(other.hamiltonian());
            core.ldos({0}, ArrayXd::Constant(1, x.scale.b), x.scale.a);
            core.set_hamiltonian(x.m.hamiltonian());
        }
        for (auto k = size_t{0}; k < queries.size(); ++k) {
            auto const& q = queries[k];
            auto const r = evaluate(core, q);
            auto const N = q.kind == 0 ? kpm::round_num_moments(q.count) : config.kernel.required_num_moments(q.broadening / x.scale.a);
            auto const again = &v == &variants.front();
            if (again && q.kind <= 2) { reference.push_back(plain(x, q, config.kernel)); }
            if (again && q.kind > 2) { reference.push_back(r); }
            auto const& e = reference[k];
            // rounding: grows with the number of moments, and with the size of what is added up
            auto magnitude = 1e-3;
            for (auto z : e) { magnitude = std::max(magnitude, std::abs(z)); }
            if (q.kind == 0) {
                auto const b = q.beta.size() ? q.beta : q.alpha;
                magnitude = (1 + q.alpha.norm()) * (1 + b.norm()) * (q.op.size() ? 1 + q.op.norm() : 1);
            } else {
                auto const root = [&] { auto r = 1.0; for (auto i = 0; i < q.energy.size(); ++i) { auto const y = (q.energy[i] - x.scale.b) / x.scale.a; r = std::min(r, std::sqrt(1 - y * y)); } return r; }();
                if (q.kind <= 2) { magnitude = double(N) / (x.scale.a * root); }
                if (q.kind == 3) { magnitude = double(N) * x.size() / (x.scale.a * root); }
                if (q.kind == 4) { // velocity operators, and (1 - E^2)^-2 near the end of the range
                    auto const v2 = double(x.m.values.norm()) * 8;
                    magnitude = double(N) * N * N * x.size() * v2 * v2 / (x.scale.a * x.scale.a) * 1e4;
                }
            }
            // acos and n * acos(E) near the ends of the range
            // and the rounding of the scaled Hamiltonian, if the range is narrow and far from zero
            auto const shift = 1 + std::abs(x.scale.b / x.scale.a) / 8;
            auto const tol = 40 * x.m.epsilon() * double(N) * (1 + double(N) / 4) * magnitude * shift;
            PBT_CHECK(r.size() == e.size(), "number of results");
            for (auto i = size_t{0}; i < r.size(); ++i) {
                PBT_CHECK(std::abs(r[i] - e[i]) <= tol + (q.kind == 1 ? 3e-7 * std::abs(e[i]) : 0.0), name(), ", query ", k, ", result ", i, " is ", r[i], " expected ", e[i], " (tolerance ", tol, ")");
            }
            // statistics
            auto const& st = core.get_stats();
            auto const counted = q.kind == 0 ? q.count : N;
            PBT_CHECK(st.num_moments == counted, name(), ": stats report ", st.num_moments, " moments of ", counted);
            auto const diagonal = q.kind != 2 || (q.idx.size() == 1 && q.idx[0] == q.row);
            auto const full_vec = size_t(counted) * size_t(x.size()) / (diagonal ? 2 : 1);
            PBT_CHECK(st.vec == full_vec, name(), ", query ", k, ": stats report ", st.vec, " vector elements, expected ", full_vec);
            PBT_CHECK(st.opt_vec <= st.vec && st.opt_nnz <= st.nnz, name(), ": the optimizations take more work: ", st.opt_vec, " of ", st.vec, ", ", st.opt_nnz, " of ", st.nnz);
            if (!v.algo.optimal_size || q.kind == 0 || q.kind >= 3) { PBT_CHECK(st.opt_vec == st.vec && st.opt_nnz == st.nnz, name(), ": work is removed without the size optimization"); }
            PBT_CHECK(st.vector_memory == size_t(x.size()) * (x.m.is_double ? 8 : 4) * (x.m.is_complex ? 2 : 1), name(), ": vector memory ", st.vector_memory);
            auto const multiplier = q.kind == 1 ? double(q.idx.size()) : q.kind >= 3 ? double(q.count) : 1.0;
            PBT_CHECK(st.multiplier == multiplier, name(), ": multiplier ", st.multiplier);
        }
        ctx.label(name().substr(0, name().rfind(',')));
    }
    for (auto const& q : queries) {
        static char const* const names[] = {"moments", "ldos", "greens", "dos", "conductivity"};
        ctx.label(names[q.kind]);
    }
    ctx.nontrivial = x.size() > 1 && variants.size() > 1;
}

void progress_case(pbt::Src& s, pbt::Ctx& ctx) {
    auto const x = draw_setup(s, ctx);
    auto const threads = s.pick({1, 2, 5});
    auto calls = std::vector<std::pair<idx_t, idx_t>>();
    std::mutex mutex;
    auto config = kpm::Config();
    config.min_energy = float(x.min);
    config.max_energy = float(x.max);
    config.algorithm = {s.chance(1, 2), s.chance(1, 2)};
    auto core = kpm::Core(x.m.hamiltonian(), kpm::DefaultCompute(threads, [&](idx_t delta, idx_t total) {
        std::lock_guard<std::mutex> lock(mutex);
        calls.emplace_back(delta, total);
    }), config);
    auto const use_dos = s.chance(1, 2);
    auto const idx = draw_indices(s, x.size(), 20);
    auto const total = idx_t(idx.size());
    ctx.describe([&](std::ostream& os) { os << "progress of " << (use_dos ? "dos" : "ldos") << " for " << total << " vectors, " << threads << " threads, " << x.m; });
    auto const energy = ArrayXd(ArrayXd::Constant(1, x.scale.b));
    if (use_dos) { core.dos(energy, x.scale.a / 3, total); } else { core.ldos(idx, energy, x.scale.a / 3); }
    PBT_CHECK(calls.size() >= 3, calls.size(), " progress reports");
    PBT_CHECK(calls.front().first == -1, "the first progress report is ", calls.front().first);
    PBT_CHECK(calls.back().first == total, "the last progress report is ", calls.back().first, " of ", total);
    auto sum = idx_t{0};
    for (auto i = size_t{0}; i < calls.size(); ++i) {
        PBT_CHECK(calls[i].second == total, "progress total is ", calls[i].second, " of ", total);
        if (i > 0 && i + 1 < calls.size()) { PBT_CHECK(calls[i].first > 0, "progress by ", calls[i].first); sum += calls[i].first; }
    }
    PBT_CHECK(sum >= total, "progress adds up to ", sum, " of ", total);
    ctx.nontrivial = true;
    ctx.label("progress");
}

void run(pbt::Src& s, pbt::Ctx& ctx) {
    auto const k = s.range(0, 15);
    if (k < 6) { return matrix_case(s, ctx); }
    if (k < 15) { return calculation_case(s, ctx); }
    return progress_case(s, ctx);
}

} // anonymous namespace

namespace pbt {
Property const property = {
    "C16", "more than one row and more than one variant of the algorithm (or a prepared matrix with more than one row)", 24000, 300000, run,
    {"libsimdpp is replaced by a stand-in with the same interface; the instruction set only selects vector lengths.",
     "Results are compared within rounding errors of the scalar type, times the number of moments (3e-7 for the LDOS: the library keeps pi in single precision).",
     "The energy range is given and holds the spectrum."}
};
} // namespace pbt
