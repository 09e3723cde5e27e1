// C06: the Hamiltonian is the Hermitian tight-binding matrix of the system
#include "ref.hpp"
using namespace ref;

static void run(Src& s, Ctx& ctx) {
    auto o = LatOptions();
    o.max_subs = 4;
    o.max_orb = 4;
    auto lat = gen_lattice(s, o);
    auto size = I3(1, 1, 1);
    auto budget = (ctx.thorough ? 80 : 40) / int(lat.subs.size());
    for (auto k = 0; k < lat.ndim(); ++k) {
        size[k] = s.range(1, std::min(5, std::max(1, budget)));
        budget /= size[k];
    }

    // wild values: single precision rounding and non-finite numbers
    auto const kind = s.range(0, 11);
    auto nonfinite_used = false;
    auto tol = 1e-12;
    if (kind == 1) { // not representable: the values are rounded once to single precision
        tol = 1e-6;
        for (auto& f : lat.fams) { f.energy *= 1.0 / 3; }
        for (auto& sub : lat.subs) { if (sub.alias_of < 0) { sub.energy *= 0.1; } }
        for (auto& sub : lat.subs) { if (sub.alias_of >= 0) { sub.energy = lat.subs[lat.root(int(&sub - &lat.subs[0]))].energy; } }
    }
    auto const bad = s.pick<double>({std::numeric_limits<double>::infinity(), -std::numeric_limits<double>::infinity(),
                                     std::numeric_limits<double>::quiet_NaN(), 1e300});
    auto bad_family = -1;
    if (kind == 2 && !lat.fams.empty()) {
        bad_family = s.range(0, int(lat.fams.size()) - 1);
        auto& e = lat.fams[bad_family].energy;
        e(s.range(0, int(e.rows()) - 1), s.range(0, int(e.cols()) - 1)) = bad;
    }

    ctx.describe([&](std::ostream& os) { lat.print(os); os << "Primitive " << size.transpose() << "\n"; });

    auto const lo = I3(-(size[0] / 2), -(size[1] / 2), -(size[2] / 2));
    auto expected = make_block(lat, lo, I3(lo + size - I3::Ones()));
    if (bad_family >= 0) {
        for (auto const& h : expected.hops) { nonfinite_used |= h.family == lat.fams[bad_family].name; }
    }

    auto model = cpb::Model(lat.build(), cpb::Primitive(size[0], size[1], size[2]));
    auto const complex = lat.any_complex();
    PBT_CHECK(model.is_complex() == complex, "declared complex: ", complex);
    PBT_CHECK(!model.is_double(), "single precision is the default");

    if (bad_family >= 0) {
        auto const rejected = throws([&] { model.hamiltonian(); });
        PBT_CHECK(rejected == nonfinite_used, "non-finite energy in use: ", nonfinite_used, " rejected: ", rejected);
        ctx.label(nonfinite_used, "non-finite rejected");
        ctx.nontrivial = nonfinite_used;
        return;
    }

    auto const& sys = *model.system();
    auto const map = match_sites(sys, expected);
    auto scalar = Scalar();
    auto const h = to_dense(model.hamiltonian(), scalar);
    PBT_CHECK(scalar.is_complex == complex, "stored as complex: ", scalar.is_complex, " declared: ", complex);
    PBT_CHECK(!scalar.is_double, "stored in double precision");
    PBT_CHECK(model.hamiltonian().rows() == expected.ham_size() && model.hamiltonian().cols() == expected.ham_size(),
              "rows/cols");
    auto const d = dense(expected);
    check_equal(reorder(h, sys, map, expected), d, tol, "H");
    check_equal(h, h.adjoint(), 0, "H and its adjoint");
    auto nnz = 0;
    for (auto i = 0; i < h.rows(); ++i) { for (auto j = 0; j < h.cols(); ++j) { nnz += h(i, j) != 0.0; } }
    PBT_CHECK(model.hamiltonian().non_zeros() >= nnz, "non_zeros is less than the number of non-zero values");

    ctx.nontrivial = !expected.hops.empty();
    ctx.label(complex, "complex");
    ctx.label(lat.multiorbital(), "multi-orbital");
    ctx.label(kind == 1, "rounded");
    auto rect = false;
    for (auto const& f : lat.fams) { rect |= f.energy.rows() != f.energy.cols() && !f.terms.empty(); }
    ctx.label(rect, "rectangular hoppings");
    ctx.label(expected.ham_size() > 30, "size > 30");
}

namespace pbt {
Property const property = {
    "C06",
    "random lattices (1-3D, 1-4 sublattices, 1-4 orbitals, real or complex, rectangular hopping matrices, aliases, a few "
    "with non-finite energies) as primitive blocks; every matrix element compared with a dense double precision "
    "reference; non-trivial: at least one hopping",
    100000, 2000000, run,
    {"energies are multiples of 1/4 (exact in single precision) except in the rounding class"}};
}
