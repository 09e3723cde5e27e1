// C07: a periodic system gives the Bloch Hamiltonian of the infinite lattice
#include "shapes.hpp"
#include "periodic.hpp"
using namespace ref;

static void run(Src& s, Ctx& ctx) {
    auto o = LatOptions();
    o.max_subs = 3; o.max_orb = 2; o.max_fams = 3; o.max_terms = 3;
    o.max_range = s.pick({1, 1, 2});
    auto lat = gen_lattice(s, o);
    auto const ndim = lat.ndim();
    lat.min_neighbors = s.pick({1, 0, 2});
    auto sym = gen_symmetry(s, lat, ctx.thorough ? 4 : 3);

    auto sys0 = Sys(); // sites before the symmetry is applied
    auto shape = RShape();
    auto const shaped = s.chance(1, 3);
    auto model = cpb::Model(lat.build());
    auto size = I3(1, 1, 1);
    if (shaped) {
        // a parallelepiped: long in the periodic directions
        if (s.chance(1, 2)) {
            for (auto k = 0; k < ndim; ++k) { lat.offset += (s.sym(4) / 8.0) * lat.vecs[k]; }
            auto const lattice = lat.build();
            model = cpb::Model(lattice);
        }
        shape.kind = RShape::cell;
        shape.lat = std::make_shared<Lat>(lat);
        for (auto k = 0; k < 3; ++k) {
            shape.cell_center[k] = k < ndim ? s.sym(8) / 8.0 + 1.0 / 64 : 0;
            shape.cell_half[k] = k < ndim ? (sym.period[k] > 0 ? (sym.period[k] + 3) / (s.chance(1, 8) ? 4.0 : 1.0) : s.range(2, 10) / 4.0) + 1.0 / 128 : 1e3;
        }
        shape.finish();
    } else {
        for (auto k = 0; k < ndim; ++k) {
            size[k] = sym.period[k] > 0 ? std::max(1, sym.period[k] + s.pick({0, 0, 1, 2, -1})) : s.range(1, 3);
        }
    }
    ctx.describe([&](std::ostream& os) {
        lat.print(os); sym.print(os);
        if (shaped) { shape.print(os); } else { os << "Primitive " << size.transpose() << "\n"; }
    });

    if (shaped) {
        sys0 = make_cut(lat, shape, shape.reach(), 1000);
        ref::remove_dangling(lat, sys0, lat.min_neighbors);
        model.add(shape.build());
    } else {
        auto const lo = I3(-(size[0] / 2), -(size[1] / 2), -(size[2] / 2));
        sys0 = make_block(lat, lo, I3(lo + size - I3::Ones()));
        model.add(cpb::Primitive(size[0], size[1], size[2]));
    }
    model.add(sym.build(lat));

    if (sys0.sites.empty()) {
        PBT_CHECK(throws([&] { model.system(); }), "a system without sites was not rejected");
        return;
    }
    auto per = Periodic();
    try {
        per = find_period(lat, sym, sys0, *model.system());
    } catch (pbt::Failure const&) { throw; }
    catch (std::runtime_error const& e) {
        // only legal if some period of the shape has no sites at all
        PBT_CHECK(shaped && has_empty_period(lat, sym, sys0), "unexpected exception: ", e.what());
        return;
    }
    auto const& sys = *model.system();
    auto const map = check_system(sys, per.sys);

    // boundaries: nonzero shifts by whole periods, every inter-period hopping once
    auto have = std::map<std::tuple<std::string, int, int, int, int, int>, int>(), want = have;
    for (auto const& b : per.hops) { ++want[std::make_tuple(b.family, b.i, b.j, b.t[0], b.t[1], b.t[2])]; }
    for (auto const& b : sys.boundaries) {
        auto const c = lat.coords(to_d(b.shift));
        auto t = I3(0, 0, 0);
        for (auto k = 0; k < ndim; ++k) {
            if (sym.period[k] > 0) { t[k] = int(std::lround(c[k] / sym.period[k])); }
        }
        V3 expected = V3::Zero();
        for (auto k = 0; k < ndim; ++k) { expected += double(t[k] * sym.period[k]) * lat.vecs[k]; }
        PBT_CHECK(t != I3(0, 0, 0) && (to_d(b.shift) - expected).norm() < 1e-3, "boundary shift (", b.shift.transpose(), ") is not a period");
        for (auto const& block : b.hopping_blocks) {
            for (auto const& coo : block.coordinates()) {
                PBT_CHECK(coo.row >= 0 && coo.row < int(map.size()) && coo.col >= 0 && coo.col < int(map.size()), "boundary index");
                ++have[std::make_tuple(sys.hopping_registry.name(block.family_id()), map[coo.row], map[coo.col], t[0], t[1], t[2])];
            }
        }
    }
    PBT_CHECK(have == want, "inter-period hoppings differ: have ", have.size(), " distinct, expected ", want.size());

    // Bloch Hamiltonian at a few wave vectors (in sequence, on one object)
    auto const nk = s.range(1, 3);
    V3 previous = V3::Zero();
    for (auto n = 0; n < nk; ++n) {
        V3 k(s.frac(3, 8), s.frac(3, 8), s.frac(3, 8));
        if (n > 0 && s.chance(1, 3)) { k = previous * (1 + s.pick<double>({1, -1, 0.125}) / 128); } // a small step
        previous = k;
        model.set_wave_vector(to_f(k));
        auto scalar = Scalar();
        auto const h = to_dense(model.hamiltonian(), scalar);
        PBT_CHECK(scalar.is_complex, "periodic Hamiltonians are complex");
        check_equal(reorder(h, sys, map, per.sys), bloch(lat, sym, per, k), 1e-4, "H(k)");
        check_equal(h, h.adjoint(), 2e-6, "H and its adjoint");
    }

    auto longest = false;
    for (auto const& b : per.hops) { for (auto k = 0; k < 3; ++k) { longest |= std::abs(b.t[k]) > 1; } }
    ctx.nontrivial = !per.hops.empty();
    ctx.label(longest, "hopping beyond the next period");
    ctx.label(shaped, "shape");
    ctx.label("dim" + std::to_string(ndim));
    ctx.label(sym.count() > 1, "several periodic directions");
    ctx.label(sym.count() < ndim, "a finite direction");
    auto larger = false;
    for (auto k = 0; k < ndim; ++k) { larger |= sym.period[k] > 1; }
    ctx.label(larger, "period > 1 cell");
    ctx.label(lat.multiorbital(), "multi-orbital");
}

namespace pbt {
Property const property = {
    "C07",
    "random 1-3D lattices (hopping range up to 3 cells), symmetry in any subset of directions with periods of 1-4 cells, as "
    "primitive blocks (equal to, larger or smaller than the period) or shapes in the other directions; sites, boundary hoppings and "
    "H(k) compared with sums over the infinite lattice; non-trivial: at least one inter-period hopping",
    60000, 1200000, run,
    {"which period of the block is chosen is left open", "a period length stands for the nearest whole number of cells (at least 1); halves are not judged", "shapes do not pass within 1e-3 of a site"}};
}
