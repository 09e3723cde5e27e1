// C20: densities of states from a solver are Gaussian sums over its eigenpairs
#include "models.hpp"
#include "solver/Solver.hpp"

using namespace ref;

namespace {

/// What the solver strategies were asked to do
struct SolverLog {
    int solves = 0, made = 0, changed = 0;
    bool fail = false;         ///< the next one
    double part = 1;           ///< how much of the spectrum is found
    Mat solved;                ///< the matrix which was solved last
    Eigen::VectorXd values;    ///< exactly as reported
    Mat states;
};

struct ExactConfig { std::shared_ptr<SolverLog> log; };

template<class scalar_t>
class Exact : public cpb::SolverStrategy {
    using real_t = cpb::num::get_real_t<scalar_t>;
    cpb::SparseMatrixRC<scalar_t> h;
    std::shared_ptr<SolverLog> log;
    cpb::ArrayX<real_t> values;
    cpb::ColMajorArrayXX<scalar_t> states;

public:
    using Config = ExactConfig;

    explicit Exact(cpb::SparseMatrixRC<scalar_t> h, Config const& c = {}) : h(std::move(h)), log(c.log) { ++log->made; }

    bool change_hamiltonian(cpb::Hamiltonian const& x) override {
        if (!cpb::ham::is<scalar_t>(x)) { return false; }
        h = cpb::ham::get_shared_ptr<scalar_t>(x);
        ++log->changed;
        return true;
    }
    void solve() override {
        ++log->solves;
        if (log->fail) { log->fail = false; throw std::runtime_error("the solver failed"); }
        auto scalar = Scalar();
        log->solved = to_dense(cpb::Hamiltonian(h), scalar);
        Eigen::SelfAdjointEigenSolver<Mat> es(log->solved);
        auto const n = int(std::ceil(log->part * double(log->solved.rows())));
        auto const from = (int(log->solved.rows()) - n) / 2;
        values = es.eigenvalues().segment(from, n).array().template cast<real_t>();
        states.resize(log->solved.rows(), n);
        for (auto i = 0; i < states.rows(); ++i) {
            for (auto j = 0; j < n; ++j) { assign(states(i, j), es.eigenvectors()(i, from + j)); }
        }
        log->values = values.matrix().template cast<double>();
        log->states = states.matrix().template cast<cplx>();
    }
    std::string report(bool shortform) const override { return shortform ? "short" : "long"; }
    cpb::RealArrayConstRef eigenvalues() const override { return cpb::arrayref(values); }
    cpb::ComplexArrayConstRef eigenvectors() const override { return cpb::arrayref(states); }

private:
    template<class T> static void assign(std::complex<T>& x, cplx y) { x = std::complex<T>(y); }
    template<class T> static void assign(T& x, cplx y) { x = T(y.real()); }
};

using TestSolver = cpb::Solver<Exact>;

template<class T> Mat dense_of(void const* data, int rows, int cols) {
    using Array = cpb::ColMajorArrayXX<T>;
    return Eigen::Map<Array const>(static_cast<T const*>(data), rows, cols).matrix().template cast<cplx>();
}

Mat dense_of(cpb::num::ArrayConstRef const& a) {
    auto const rows = int(a.shape[0]), cols = a.ndim == 1 ? 1 : int(a.shape[1]);
    PBT_CHECK(a.ndim == 1 || !a.is_row_major, "the eigenvectors are row major");
    switch (a.tag) {
        case cpb::num::Tag::f32: return dense_of<float>(a.data, rows, cols);
        case cpb::num::Tag::f64: return dense_of<double>(a.data, rows, cols);
        case cpb::num::Tag::cf32: return dense_of<std::complex<float>>(a.data, rows, cols);
        case cpb::num::Tag::cf64: return dense_of<std::complex<double>>(a.data, rows, cols);
        default: pbt::fail("unknown scalar type");
    }
}

struct Sum { double value, tolerance; };

/// sum of weight * Gaussian(energy - state energy)
Sum gaussian_sum(Eigen::VectorXd const& values, Eigen::VectorXd const& weights, double energy, double broadening) {
    auto r = Sum{0, 1e-30};
    for (auto k = 0; k < values.size(); ++k) {
        auto const x = 0.5 * std::pow((energy - values[k]) / broadening, 2);
        auto const g = std::exp(-x) / (broadening * std::sqrt(2 * std::acos(-1.0))) * weights[k];
        r.value += g;
        r.tolerance += g * (x + 4) * 1e-6;
    }
    return r;
}

void run(Src& s, Ctx& ctx) {
    auto models = std::vector<cpb::Model>();
    auto truths = std::vector<Truth>();
    for (auto n = s.range(1, 3); n > 0; --n) {
        auto lat = Lat();
        models.push_back(draw_model(s, ctx, s.chance(1, 2), lat));
        truths.push_back(make_truth(models.back()));
    }
    auto const log = std::make_shared<SolverLog>();
    log->part = s.pick({1.0, 1.0, 0.5, 0.1});
    auto current = size_t{0};
    auto solver = TestSolver(models[0], {log});
    PBT_CHECK(log->solves == 0 && log->made == 1, "a new solver has already solved");
    auto solves = 0;
    auto solved = false;
    auto changes = 0, sums = 0;

    // asks for something which needs a solution
    auto with_solution = [&](std::function<void()> const& f) {
        if (!solved) { ++solves; }
        f();
        solved = true;
        PBT_CHECK(log->solves == solves, "solved ", log->solves, " times, expected ", solves);
        PBT_CHECK((log->solved - truths[current].h).isZero(0), "solved for another matrix than the model's");
    };
    ctx.describe([&](std::ostream& os) { os << "part of the spectrum " << log->part << "\n"; });
    for (auto n = s.range(1, ctx.thorough ? 14 : 8); n > 0; --n) {
        auto const what = s.range(0, 12);
        auto const& x = truths[current];
        if (what <= 2) {
            auto energies = cpb::ArrayXf(s.range(0, 5));
            auto const broadening = float(s.range(1, 32)) / float(s.pick({8, 64, 512}));
            for (auto i = 0; i < energies.size(); ++i) { energies[i] = float(x.energies[s.range(0, x.size() - 1)] + broadening * s.sym(24) / 8.0); }
            ctx.describe([&](std::ostream& os) { os << "dos at " << energies.transpose() << " broadening " << broadening << "\n"; });
            auto r = cpb::ArrayXd();
            with_solution([&] { r = solver.calc_dos(energies, broadening); });
            PBT_CHECK(r.size() == energies.size(), "dos for ", r.size(), " energies of ", energies.size());
            for (auto i = 0; i < r.size(); ++i) {
                auto const e = gaussian_sum(log->values, Eigen::VectorXd::Ones(log->values.size()), energies[i], broadening);
                PBT_CHECK(std::abs(r[i] - e.value) <= e.tolerance, "dos at ", energies[i], " is ", r[i], ", expected ", e.value, " (tolerance ", e.tolerance, ")");
            }
            ++sums;
            ctx.label("dos");
        } else if (what <= 5) {
            auto const broadening = float(s.range(1, 32)) / float(s.pick({8, 64, 512}));
            auto const energy = float(x.energies[s.range(0, x.size() - 1)] + broadening * s.sym(24) / 8.0);
            ctx.describe([&](std::ostream& os) { os << "spatial ldos at " << energy << " broadening " << broadening << "\n"; });
            auto r = cpb::ArrayXd();
            with_solution([&] { r = solver.calc_spatial_ldos(energy, broadening); });
            PBT_CHECK(r.size() == x.size(), "spatial ldos of ", r.size(), " orbitals of ", x.size());
            for (auto i = 0; i < r.size(); ++i) {
                auto const e = gaussian_sum(log->values, log->states.row(i).cwiseAbs2().transpose(), energy, broadening);
                PBT_CHECK(std::abs(r[i] - e.value) <= e.tolerance, "ldos of orbital ", i, " is ", r[i], ", expected ", e.value, " (tolerance ", e.tolerance, ")");
            }
            ++sums;
            ctx.label("spatial ldos");
        } else if (what <= 7) {
            ctx.describe([&](std::ostream& os) { os << "eigenvalues and eigenvectors\n"; });
            auto const vectors_first = s.chance(1, 2);
            with_solution([&] {
                if (vectors_first) { solver.eigenvectors(); }
                auto const e = dense_of(solver.eigenvalues());
                auto const v = dense_of(solver.eigenvectors());
                PBT_CHECK(e.rows() == log->values.size() && (e.col(0) - log->values.cast<cplx>()).isZero(0), "the eigenvalues are not those of the solver");
                PBT_CHECK(v.rows() == log->states.rows() && v.cols() == log->states.cols() && (v - log->states).isZero(0), "the eigenvectors are not those of the solver");
            });
        } else if (what == 8) {
            ctx.describe([&](std::ostream& os) { os << "solve\n"; });
            with_solution([&] { solver.solve(); });
        } else if (what == 9) {
            ctx.describe([&](std::ostream& os) { os << "clear\n"; });
            solver.clear();
            solved = false;
        } else if (what == 10) { // a solver which fails is asked again the next time
            ctx.describe([&](std::ostream& os) { os << "failing solver\n"; });
            if (solved && s.chance(1, 2)) { solver.clear(); solved = false; }
            log->fail = true;
            auto const failed = throws([&] { solver.solve(); });
            PBT_CHECK(failed == !solved, "a failure of the solver is not reported");
            if (!solved) { ++solves; ctx.label("solver failed"); }
            log->fail = false;
        } else if (what == 11) {
            if (s.chance(1, 4)) { // a model which cannot be built
                ctx.describe([&](std::ostream& os) { os << "a model without any sites\n"; });
                auto const bad = model_without_sites();
                PBT_CHECK(throws([&] { solver.set_model(bad); }), "a model without any sites was accepted");
                // still the previous one, and its results
                ctx.label("rejected model");
            } else {
                current = size_t(s.range(0, int(models.size()) - 1));
                ctx.describe([&](std::ostream& os) { os << "set model " << current << "\n"; });
                solver.set_model(models[current]);
                solved = false;
                ++changes;
            }
        } else {
            PBT_CHECK(solver.report(true).substr(0, 6) == "short " && solver.report(false).substr(0, 5) == "long ", "report is ", solver.report(false));
        }
        auto scalar = Scalar();
        PBT_CHECK((to_dense(solver.get_model().hamiltonian(), scalar) - truths[current].h).isZero(0), "the solver's model is another one");
        PBT_CHECK(solver.system()->num_sites() == truths[current].sys->num_sites(), "the solver's system is another one");
        PBT_CHECK(log->solves == solves, "solved ", log->solves, " times, expected ", solves);
        if (s.chance(1, 8)) { // the solver has a model of its own
            auto p = Program();
            auto mod = EnergyMod();
            mod.b = 1;
            p.mods.push_back(mod);
            auto copy = models[current];
            p.add_mod(models[current], 0);
            models[current].hamiltonian();
            models[current] = copy;
        }
    }
    ctx.nontrivial = sums > 0 && truths[0].size() > 1;
    ctx.label(changes > 0, "model replaced");
    ctx.label(log->made > 1, "scalar type changed");
    ctx.label(log->part < 1, "part of the spectrum");
}

} // anonymous namespace

namespace pbt {
Property const property = {
    "C20",
    "1-3 random small models of all scalar types and histories of 1-14 calculations, model changes, failures and invalid models on one "
    "solver whose strategy is an exact diagonalization (of all or the middle of the spectrum); every sum compared with the "
    "definition; non-trivial: at least one density was calculated for more than one orbital",
    300000, 4000000, run,
    {"the eigenpairs given by the strategy are taken as they are", "1e-6 is allowed for each Gaussian (times its exponent), the library keeps pi and the arguments in single precision"}};
}
