// C10: generated sites and hoppings stay consistent with everything applied around them
#include "program.hpp"
using namespace ref;

static void run(Src& s, Ctx& ctx) {
    auto prog = Program();
    auto o = LatOptions();
    o.max_subs = 3; o.max_fams = 2; o.max_terms = 3;
    o.max_range = s.pick({1, 1, 2});
    prog.lat = gen_lattice(s, o);
    auto& lat = prog.lat;
    auto const ndim = lat.ndim();
    lat.min_neighbors = s.pick({1, 0});
    if (s.chance(1, 4)) { prog.sym = gen_symmetry(s, lat, 2); }
    prog.shaped = !prog.sym.count() && s.chance(1, 4);
    auto const extent = ndim == 3 ? 1.0 : 1.75;
    if (prog.shaped) { prog.shape = gen_shape(s, lat, extent); prog.reach = 8; }
    for (auto k = 0; k < ndim; ++k) {
        prog.size[k] = prog.sym.period[k] > 0 ? prog.sym.period[k] + s.range(0, 1) : s.range(1, ndim == 3 ? 2 : ndim == 2 ? 3 : 5);
    }

    auto families = std::vector<std::pair<std::string, int>>(); // known site families and orbital counts
    auto hops = std::vector<std::string>();
    for (auto i = 0; i < int(lat.subs.size()); ++i) { if (lat.subs[i].alias_of < 0) { families.push_back({lat.subs[i].name, lat.norb(i)}); } }
    for (auto const& f : lat.fams) { hops.push_back(f.name); }
    auto names = sub_names(lat);
    auto const complex = s.chance(1, 2);
    auto generators = 0, ngen = 0, later = 0;
    auto bad = false;
    if (!prog.sym.count()) {
        for (auto n = s.range(0, 2); n > 0; --n) {
            auto st = s.chance(1, 2) ? gen_state(s, lat, names, extent / 2) : gen_position(s, lat, names);
            if (st.kind == Step::state && s.chance(1, 3)) { st.min_neighbors = s.range(1, 2); }
            prog.steps.push_back(st);
        }
    }
    auto const steps = s.range(1, ctx.thorough ? 8 : 6);
    for (auto n = 0; n < steps; ++n) {
        auto const what = generators == 0 ? s.range(0, 1) : s.range(0, 3);
        auto st = Step();
        if (what == 0) {
            st.kind = Step::site_gen;
            st.name = "G" + std::to_string(ngen);
            auto const norb = s.chance(1, 2) ? s.range(1, 3) : s.pick(families).second;
            st.energy = gen_onsite(s, norb, complex);
            for (auto m = s.range(0, 4); m > 0; --m) {
                V3 p(s.sym(12) / 8.0 + 3.0 / 64, 0, 0);
                for (auto k = 1; k < 3; ++k) { p[k] = s.sym(12) / 8.0 + 3.0 / 64; }
                st.new_positions.push_back(p);
            }
            families.push_back({st.name, norb});
            names.push_back(st.name);
            ++ngen; ++generators;
        } else if (what == 1) {
            st.kind = Step::hop_gen;
            st.name = "u" + std::to_string(ngen++);
            auto const a = s.pick(families).second, b = s.pick(families).second;
            st.energy = gen_hopping(s, a, b, complex);
            st.seed = s.range(0, 1 << 20);
            st.percent = s.range(0, 100);
            if (!bad && s.chance(1, 16)) { st.bad = s.pick({Step::negative, Step::too_large, Step::misfit, Step::unequal}); bad = true; }
            hops.push_back(st.name);
            ++generators;
        } else if (what == 2) {
            st = gen_state(s, lat, names, extent / 2);
            st.on_below = -1e9; // switching on a site which is gone is not possible
            ++later;
        } else {
            st = gen_position(s, lat, names);
            ++later;
        }
        prog.steps.push_back(st);
    }
    auto mod_subs = std::vector<std::string>();
    for (auto const& f : families) { mod_subs.push_back(f.first); }
    for (auto n = s.chance(1, 2) ? s.range(0, 2) : 0; n > 0; --n) { prog.mods.push_back(gen_mod(s, mod_subs, hops, false)); }
    ctx.describe([&](std::ostream& os) { prog.print(os); });

    auto model = prog.make_model();
    if (s.chance(1, 8)) { // invalid generators leave the model as it was
        auto const f = [](cpb::System const&) { return cpb::CartesianArray(0); };
        auto const g = [](cpb::System const&) { return cpb::HoppingGenerator::Result{cpb::ArrayXi(0), cpb::ArrayXi(0)}; };
        auto const name = s.pick(mod_subs);
        PBT_CHECK(throws([&] { model.add(cpb::SiteGenerator(name, Mat(Mat::Zero(1, 1)), f)); }), "a second site family '", name, "' was accepted");
        PBT_CHECK(throws([&] { model.add(cpb::SiteGenerator("", Mat(Mat::Zero(1, 1)), f)); }), "a site family without a name was accepted");
        Mat m = Mat::Zero(2, 3);
        PBT_CHECK(throws([&] { model.add(cpb::SiteGenerator("new", m, f)); }), "a rectangular onsite energy was accepted");
        m = Mat::Zero(2, 2); m(0, 0) = cplx(0, 1);
        PBT_CHECK(throws([&] { model.add(cpb::SiteGenerator("new", m, f)); }), "an imaginary onsite energy was accepted");
        if (!hops.empty()) {
            auto const h = s.pick(hops);
            PBT_CHECK(throws([&] { model.add(cpb::HoppingGenerator(h, Mat(Mat::Ones(1, 1)), g)); }), "a second hopping family '", h, "' was accepted");
        }
        PBT_CHECK(throws([&] { model.add(cpb::HoppingGenerator("", Mat(Mat::Ones(1, 1)), g)); }), "a hopping family without a name was accepted");
    }
    auto sp = std::shared_ptr<cpb::System const>();
    auto rejected = std::string();
    try { sp = model.system(); }
    catch (pbt::Failure const&) { throw; }
    catch (pbt_eigen::AssertError const&) { throw; }
    catch (std::exception const& e) { rejected = e.what(); }
    if (bad) {
        PBT_CHECK(!sp, "invalid generated hoppings were not rejected");
        PBT_CHECK(throws([&] { model.hamiltonian(); }), "invalid generated hoppings were not rejected the second time");
        ctx.label("rejected generator output");
        ctx.nontrivial = true;
        return;
    }
    if (!sp && prog.sym.count()) { throw pbt::Discard(); }
    auto const nfound = prog.first_generator();
    auto before = prog; // 0 sites may be found before all modifiers were called
    (void)nfound;
    auto const w = before.replay(sp.get());
    if (!sp) {
        PBT_CHECK(w.sys.sites.empty(), "a system with ", w.sys.sites.size(), " sites was rejected: ", rejected);
        return;
    }
    PBT_CHECK(!w.sys.sites.empty(), "a model without sites was not rejected");
    auto const map = check_system(*sp, w.sys);

    auto const expected_h = [&](V3 const& k) { return prog.final_hamiltonian(w, k); };
    for (auto n = prog.sym.count() ? s.range(1, 2) : 1; n > 0; --n) {
        auto k = V3(0, 0, 0);
        if (prog.sym.count()) { k = V3(s.frac(2, 8), s.frac(2, 8), s.frac(2, 8)); model.set_wave_vector(to_f(k)); }
        auto scalar = Scalar();
        auto const h = to_dense(model.hamiltonian(), scalar);
        PBT_CHECK(scalar.is_complex == prog.expect_complex(), "the Hamiltonian is ", scalar.is_complex ? "complex" : "real");
        auto const expected = expected_h(k);
        auto const scale = expected.size() ? expected.cwiseAbs().maxCoeff() : 0;
        check_equal(reorder(h, *sp, map, w.sys), expected, 3e-5 * (1 + scale), "H");
        check_equal(h, h.adjoint(), 1e-6 * (1 + scale), "H and its adjoint");
    }

    auto new_sites = 0, new_hops = 0;
    for (auto const& site : w.sys.sites) { new_sites += site.sub < 0; }
    for (auto const& h : w.sys.hops) { new_hops += h.family[0] == 'u'; }
    ctx.nontrivial = new_sites + new_hops > 0;
    ctx.label(new_sites > 0, "generated sites");
    ctx.label(new_hops > 0, "generated hoppings");
    ctx.label(w.removed_late > 0, "sites removed after a generator");
    ctx.label(w.removed_late > 0 && !w.sys.hops.empty(), "sites removed after a generator, hoppings remain");
    ctx.label(later > 0, "modifiers after a generator");
    ctx.label(!w.phops.empty(), "periodic");
    ctx.label(lat.multiorbital(), "multi-orbital");
}

namespace pbt {
Property const property = {
    "C10",
    "random lattices as blocks, shapes or periodic systems; up to 2 modifiers before and 1-8 interleaved site generators, hopping "
    "generators (repeated and reversed pairs, sometimes invalid), state and position modifiers, up to 2 energy modifiers; recorded "
    "calls, sites, hoppings and Hamiltonian compared with a naive replay; non-trivial: generated sites or hoppings remain, or "
    "invalid output was given",
    50000, 1200000, run,
    {"modifier functions depend only on their arguments", "state modifiers after a generator only remove sites",
     "a generated hopping matrix applies from the lower to the higher site index"}};
}
