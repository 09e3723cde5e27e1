// C09: site-state and position modifiers act in order on exactly the named sites
#include "program.hpp"
using namespace ref;

static void run(Src& s, Ctx& ctx) {
    auto prog = Program();
    auto o = LatOptions();
    o.max_fams = 3; o.max_terms = 3; o.max_orb = 2;
    o.max_range = s.pick({1, 1, 2});
    prog.lat = gen_lattice(s, o);
    auto& lat = prog.lat;
    auto const ndim = lat.ndim();
    lat.min_neighbors = s.pick({1, 0, 2});
    prog.shaped = s.chance(1, 2);
    auto const extent = ndim == 3 ? 1.25 : 2.25;
    if (prog.shaped) {
        prog.shape = gen_shape(s, lat, extent);
        if (s.chance(1, 3)) { for (auto k = 0; k < ndim; ++k) { prog.shape.lattice_offset += (s.sym(3) / 8.0) * lat.vecs[k]; } }
        prog.reach = 8;
    }
    for (auto k = 0; k < ndim; ++k) { prog.size[k] = s.range(1, ndim == 3 ? 3 : ndim == 2 ? 5 : 9); }
    auto const subs = sub_names(lat);
    auto positions = 0, states = 0, cascades = 0;
    for (auto n = s.range(1, ctx.thorough ? 7 : 5); n > 0; --n) {
        if (s.chance(2, 3)) {
            auto st = gen_state(s, lat, subs, extent / 2);
            if (s.chance(1, 2)) { st.min_neighbors = s.range(1, 4); ++cascades; }
            if (st.off_above > 1e8 && st.on_below < -1e8 && s.chance(1, 2)) { st.on_below = gen_threshold(s, extent / 2); }
            prog.steps.push_back(st);
            ++states;
        } else {
            prog.steps.push_back(gen_position(s, lat, subs));
            ++positions;
        }
    }
    ctx.describe([&](std::ostream& os) { prog.print(os); });

    auto model = prog.make_model();
    auto sp = std::shared_ptr<cpb::System const>();
    auto rejected = std::string();
    try { sp = model.system(); }
    catch (pbt::Failure const&) { throw; }
    catch (pbt_eigen::AssertError const&) { throw; }
    catch (std::runtime_error const& e) { rejected = e.what(); }
    auto const w = prog.replay(sp.get());
    if (!sp) {
        PBT_CHECK(w.sys.sites.empty(), "a system with ", w.sys.sites.size(), " sites was rejected: ", rejected);
        PBT_CHECK(throws([&] { model.system(); }), "a model without sites was not rejected the second time");
        ctx.label("no sites left");
        ctx.nontrivial = w.removed > 0;
        return;
    }
    PBT_CHECK(!w.sys.sites.empty(), "a model without sites was not rejected");
    auto const map = check_system(*sp, w.sys);
    auto scalar = Scalar();
    auto const h = to_dense(model.hamiltonian(), scalar);
    check_equal(reorder(h, *sp, map, w.sys), dense(w.sys), 1e-5, "H");

    ctx.nontrivial = (w.removed + w.revived > 0 || positions > 0) && sp->hopping_blocks.nnz() > 0;
    ctx.label(w.removed > 0, "sites removed");
    ctx.label(w.revived > 0, "sites revived");
    ctx.label(w.removed_by_cascade > 0, "removed for lack of neighbours");
    ctx.label(positions && states, "positions and states");
    ctx.label(states > 1, "several state modifiers");
    ctx.label(prog.shaped, "shape");
    ctx.label("dim" + std::to_string(ndim));
}

namespace pbt {
Property const property = {
    "C09",
    "random 1-3D lattices as blocks or shapes and sequences of 1-7 state modifiers (half-spaces on or off, per sublattice, minimum "
    "neighbour counts) and position modifiers (affine); every recorded call and the final sites, hoppings and Hamiltonian compared "
    "with a naive replay; non-trivial: a site was changed and some hopping remains, or no site was left",
    60000, 1500000, run,
    {"modifier functions depend only on their arguments", "the extent of the block around a shape is taken from the first call",
     "thresholds and shapes do not pass within 1e-3 of a site"}};
}
