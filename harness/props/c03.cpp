// C03: a primitive-shaped system holds every cell site and every hopping exactly once
#include "ref.hpp"
using namespace ref;
using cpb::idx_t;

/// Thousands of cells and lengths which are not exact in binary: sites are told apart by their position
static void run_large(Src& s, Ctx& ctx) {
    auto o = LatOptions();
    o.wide_positions = true;
    o.max_subs = 3;
    auto lat = gen_lattice(s, o);
    auto const ndim = lat.ndim();
    auto budget = (ctx.thorough ? 60000 : 12000) / int(lat.subs.size());
    auto size = I3(1, 1, 1);
    auto const first = s.range(0, ndim - 1);
    for (auto i = 0; i < ndim; ++i) {
        auto const k = (first + i) % ndim;
        auto const limit = i == ndim - 1 ? budget : s.pick({3, 17, 129, 1001});
        size[k] = s.range(1, std::max(1, std::min(limit, budget)));
        budget /= size[k];
    }
    // the lengths as the library gets to know them
    auto const unit = s.pick({0.24595, 0.142, 1.0 / 3, 2.7182818, 1.0});
    auto const rounded = [&](V3 const& v) { return to_d(to_f(v * unit)); };
    for (auto& v : lat.vecs) { v = rounded(v); }
    for (auto& sub : lat.subs) { sub.pos = rounded(sub.pos); }
    if (s.chance(1, 3)) { for (auto const& v : lat.vecs) { lat.offset += (s.sym(4) / 8.0) * v; } }
    lat.offset = to_d(to_f(lat.offset));
    ctx.describe([&](std::ostream& os) { lat.print(os); os << "Primitive " << size.transpose() << "\n"; });

    auto const lo = I3(-(size[0] / 2), -(size[1] / 2), -(size[2] / 2));
    auto const model = cpb::Model(lat.build(), cpb::Primitive(size[0], size[1], size[2]));
    auto const& sys = *model.system();
    auto const ncells = idx_t(size.prod());
    PBT_CHECK(sys.num_sites() == ncells * idx_t(lat.subs.size()), sys.num_sites(), " sites");

    auto extent = 0.0;
    for (auto k = 0; k < ndim; ++k) { extent += size[k] * lat.vecs[k].norm(); }
    auto const number = [&](I3 const& c) {
        auto const r = I3(c - lo);
        for (auto k = 0; k < 3; ++k) { if (r[k] < 0 || r[k] >= size[k]) { return idx_t(-1); } }
        return (idx_t(r[2]) * size[1] + r[1]) * size[0] + r[0];
    };
    struct Where { int sub; I3 cell; };
    auto where = std::vector<Where>(size_t(sys.num_sites()));
    auto index = std::vector<std::vector<int>>(lat.subs.size(), std::vector<int>(size_t(ncells), -1));
    for (auto const& group : sys.compressed_sublattices) {
        auto const name = sys.site_registry.name(group.id());
        for (auto i = group.sys_start(); i < group.sys_end(); ++i) {
            auto const p = to_d(sys.positions[i]);
            auto best = -1; auto best_error = 1e9; auto best_cell = I3(0, 0, 0);
            for (auto k = 0; k < int(lat.subs.size()); ++k) {
                if (lat.subs[lat.root(k)].name != name) { continue; }
                auto const c = lat.coords(p - lat.offset - lat.subs[k].pos);
                auto const cell = I3(c.array().round().cast<int>());
                auto const error = (lat.site_pos(k, cell) - p).norm();
                if (error < best_error) { best = k; best_error = error; best_cell = cell; }
            }
            PBT_CHECK(best >= 0, "site ", i, " belongs to no sublattice");
            auto const tolerance = 5e-7 * (lat.offset.norm() + lat.subs[best].pos.norm() + extent);
            PBT_CHECK(best_error <= tolerance, "site ", i, " at (", p.transpose(), ") is ", best_error, " away from ",
                      lat.subs[best].name, " in cell (", best_cell.transpose(), ")");
            auto const n = number(best_cell);
            PBT_CHECK(n >= 0, "cell (", best_cell.transpose(), ") is not in the block");
            PBT_CHECK(index[size_t(best)][size_t(n)] < 0, "the same site is there twice: ", i);
            index[size_t(best)][size_t(n)] = int(i);
            where[size_t(i)] = {best, best_cell};
        }
    }

    auto total = idx_t(0);
    for (auto const& fam : lat.fams) {
        auto const id = sys.hopping_registry.id(fam.name);
        auto expected = std::set<std::pair<int, int>>();
        for (auto const& t : fam.terms) {
            for (auto n = idx_t(0); n < ncells; ++n) {
                auto const c = I3(lo + I3(int(n % size[0]), int(n / size[0] % size[1]), int(n / size[0] / size[1])));
                auto const m = number(c + t.d);
                if (m < 0) { continue; }
                expected.insert({index[size_t(t.from)][size_t(n)], index[size_t(t.to)][size_t(m)]});
            }
        }
        for (auto const& block : sys.hopping_blocks) {
            if (block.family_id() != id) { continue; }
            for (auto const& coo : block.coordinates()) {
                PBT_CHECK(expected.erase({coo.row, coo.col}) == 1, fam.name, ": ", coo.row, " -> ", coo.col,
                          " is wrong or repeated");
                ++total;
            }
        }
        PBT_CHECK(expected.empty(), fam.name, ": ", expected.size(), " hoppings are missing, first ",
                  expected.begin()->first, " -> ", expected.begin()->second);
    }
    PBT_CHECK(total == sys.hopping_blocks.nnz(), "hoppings outside of the declared families");
    ctx.nontrivial = ncells > 1000 && total > 0;
    ctx.label("large");
}

static void run(Src& s, Ctx& ctx) {
    if (s.chance(1, 400)) { return run_large(s, ctx); }
    auto o = LatOptions();
    o.wide_positions = true;
    o.max_subs = 5;
    o.many_subs = 26;
    auto lat = gen_lattice(s, o);
    auto const ndim = lat.ndim();
    auto size = I3(1, 1, 1);
    auto budget = ctx.thorough ? 500 : 160;
    budget /= int(lat.subs.size());
    for (auto k = 0; k < ndim; ++k) {
        size[k] = s.range(1, std::min(ndim == 1 ? 12 : 6, std::max(1, budget)));
        budget /= size[k];
    }
    if (s.chance(1, 3)) { // any accepted offset
        for (auto k = 0; k < ndim; ++k) { lat.offset += (s.sym(4) / 8.0) * lat.vecs[k]; }
        for (auto k = ndim; k < 3; ++k) { lat.offset[k] = s.sym(2) / 4.0; }
    }
    ctx.describe([&](std::ostream& os) { lat.print(os); os << "Primitive " << size.transpose() << "\n"; });

    auto const lo = I3(-(size[0] / 2), -(size[1] / 2), -(size[2] / 2));
    auto const hi = I3(lo + size - I3::Ones());
    auto expected = make_block(lat, lo, hi);

    auto const lattice = lat.build();
    auto const model = cpb::Model(lattice, cpb::Primitive(size[0], size[1], size[2]));
    auto const& sys = *model.system();

    check_system(sys, expected);
    PBT_CHECK(sys.boundaries.empty(), "boundaries without symmetry");

    // one contiguous group per family, ordered by orbital count
    auto ids = std::set<int>();
    auto last_norb = 0, total = 0;
    for (auto const& sub : sys.compressed_sublattices) {
        PBT_CHECK(ids.insert(sub.id().value()).second, "sublattice group ", sub.id().value(), " is split");
        PBT_CHECK(sub.num_orbitals() >= last_norb, "groups are not ordered by orbital count");
        last_norb = int(sub.num_orbitals());
        auto const& name = sys.site_registry.name(sub.id());
        auto count = 0, norb = 0;
        for (auto k = 0; k < int(lat.subs.size()); ++k) {
            if (lat.subs[lat.root(k)].name == name) { ++count; norb = lat.norb(k); }
        }
        PBT_CHECK(norb == sub.num_orbitals(), "group ", name, " has ", sub.num_orbitals(), " orbitals");
        PBT_CHECK(sub.num_sites() == count * size.prod(), "group ", name, " has ", sub.num_sites(), " sites");
        total += int(sub.num_sites());
    }
    PBT_CHECK(total == sys.num_sites(), "groups hold ", total, " sites of ", sys.num_sites());

    auto aliased = false;
    for (auto const& sub : lat.subs) { aliased = aliased || sub.alias_of >= 0; }
    ctx.nontrivial = size.prod() > 1 && !expected.hops.empty();
    ctx.label("dim" + std::to_string(ndim));
    ctx.label(aliased, "aliases");
    ctx.label(lat.multiorbital(), "multi-orbital");
    ctx.label(expected.hops.size() > 20, ">20 hoppings");
}

namespace pbt {
Property const property = {
    "C03",
    "random lattices (1-3D, 1-5, rarely up to 26, sublattices incl. aliases, 1-3 orbitals, hoppings up to two cells away) and block "
    "sizes; sites and hoppings compared with a naive enumeration; 1 case in 400 with thousands of cells and inexact lengths, sites identified by "
    "position; non-trivial: more than one cell (large: 1000) and at least one hopping",
    150000, 3000000, run,
    {"sites of one lattice never coincide (distinct positions on a 1/8 grid)"}};
}
