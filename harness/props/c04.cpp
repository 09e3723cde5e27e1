// C04: a shape-cut system is exactly the lattice inside the shape minus dangling sites
#include "shapes.hpp"
using namespace ref;

static void run(Src& s, Ctx& ctx) {
    auto o = LatOptions();
    o.wide_positions = s.chance(1, 8);
    o.max_terms = 3;
    auto lat = gen_lattice(s, o);
    auto const ndim = lat.ndim();
    lat.min_neighbors = s.pick({1, 1, 0, 2, 3});
    if (s.chance(1, 3)) { // any accepted offset
        for (auto k = 0; k < ndim; ++k) { lat.offset += (s.sym(4) / 8.0) * lat.vecs[k]; }
    }
    auto const extent = (ndim == 1 ? 6.0 : ndim == 2 ? 2.5 : 1.4) * (s.chance(1, 4) ? 0.4 : 1) * (ctx.thorough ? 1.3 : 1);
    auto sh = gen_shape(s, lat, extent);
    if (s.chance(1, 3)) {
        V3 total = lat.offset;
        for (auto k = 0; k < ndim; ++k) {
            auto const c = s.sym(4) / 8.0;
            total += c * lat.vecs[k];
            if (lat.coords(total).cwiseAbs().maxCoeff() > 0.52) { total -= c * lat.vecs[k]; continue; }
            sh.lattice_offset += c * lat.vecs[k];
        }
    }
    ctx.describe([&](std::ostream& os) { lat.print(os); sh.print(os); });
    auto const lattice = lat.build();
    lat.offset += sh.lattice_offset;

    auto expected = make_cut(lat, sh, 3 * extent + 1, ctx.thorough ? 1200 : 500);
    auto const inside = expected.sites.size();
    ref::remove_dangling(lat, expected, lat.min_neighbors);

    auto const model = cpb::Model(lattice, sh.build());
    if (expected.sites.empty()) {
        PBT_CHECK(throws([&] { model.system(); }), "a system without sites was not rejected");
        ctx.label("empty");
        return;
    }
    auto const& sys = *model.system();
    check_system(sys, expected);

    ctx.nontrivial = expected.sites.size() > 1 && !expected.hops.empty();
    ctx.label("dim" + std::to_string(ndim));
    ctx.label(expected.sites.size() < inside, "dangling sites removed");
    ctx.label(lat.offset != V3(0, 0, 0), "lattice offset");
    ctx.label(sh.kind == RShape::polygon, "polygon");
    ctx.label(sh.kind == RShape::line, "line");
    ctx.label(sh.kind == RShape::ball, "ball/ring");
    ctx.label(sh.kind == RShape::box, "box");
    ctx.label(expected.sites.size() > 50, ">50 sites");
}

namespace pbt {
Property const property = {
    "C04",
    "random 1-3D lattices (offset, minimum neighbour count 0-3, long-range hoppings) cut by polygons, lines (1D), boxes, balls "
    "and rings placed anywhere; compared with a brute-force enumeration of the infinite lattice and a naive fixed point for "
    "dangling sites; non-trivial: at least two sites and one hopping survive",
    40000, 800000, run,
    {"shapes do not pass within 1e-3 of a site", "sites which never had the minimum number of neighbours in the infinite lattice and lost none are kept"}};
}
