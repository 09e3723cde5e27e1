// C13: site, sublattice and Hamiltonian index lookups agree with one another
#include "program.hpp"
using namespace ref;

static void check_lookups(Src& s, Ctx& ctx, cpb::System const& sys, std::vector<std::string> const& family, std::vector<int> const& norb,
                          std::vector<std::string> const& known) {
    auto const n = int(family.size());
    PBT_CHECK(sys.num_sites() == n, "num_sites ", sys.num_sites(), " expected ", n);

    // Hamiltonian rows
    auto next = 0;
    auto const ep = sys.expanded_positions();
    for (auto i = 0; i < n; ++i) {
        auto const idx = sys.to_hamiltonian_indices(i);
        PBT_CHECK(idx.size() == norb[size_t(i)], "site ", i, " has ", idx.size(), " Hamiltonian indices, expected ", norb[size_t(i)]);
        for (auto k = 0; k < idx.size(); ++k, ++next) {
            PBT_CHECK(idx[k] == next, "orbital ", k, " of site ", i, " is row ", idx[k], ", expected ", next);
            PBT_CHECK(next < ep.size(), "there are only ", ep.size(), " expanded positions");
            PBT_CHECK(ep.x[next] == sys.positions.x[i] && ep.y[next] == sys.positions.y[i] && ep.z[next] == sys.positions.z[i],
                      "expanded position ", next, " is not that of site ", i);
        }
    }
    PBT_CHECK(sys.hamiltonian_size() == next, "hamiltonian_size ", sys.hamiltonian_size(), " expected ", next);
    PBT_CHECK(ep.x.size() == next && ep.y.size() == next && ep.z.size() == next, ep.size(), " expanded positions, expected ", next);
    for (auto bad : {-1, n, n + 1, n + 1000, -1000}) {
        PBT_CHECK(throws([&] { sys.to_hamiltonian_indices(bad); }), "site index ", bad, " of ", n, " was not rejected");
    }

    // number of elements
    auto nnz = cpb::idx_t{0};
    for (auto x : norb) { nnz += x * x; }
    for (auto const& block : sys.hopping_blocks) {
        for (auto const& c : block.coordinates()) { nnz += 2 * cpb::idx_t(norb.at(size_t(c.row))) * norb.at(size_t(c.col)); }
    }
    PBT_CHECK(sys.hamiltonian_nnz() == nnz, "hamiltonian_nnz ", sys.hamiltonian_nnz(), " expected ", nnz);

    // ranges
    auto const all = sys.sublattice_range("");
    PBT_CHECK(all.start == 0 && all.end == n, "the range of all sites is ", all.start, "-", all.end);
    auto queries = std::vector<std::pair<std::string, std::vector<int>>>();
    auto everything = std::vector<int>();
    for (auto i = 0; i < n; ++i) { everything.push_back(i); }
    queries.push_back({"", everything});
    for (auto const& name : known) {
        auto members = std::vector<int>();
        for (auto i = 0; i < n; ++i) { if (family[size_t(i)] == name) { members.push_back(i); } }
        queries.push_back({name, members});
        if (members.empty()) {
            ctx.label("absent sublattice");
            try {
                auto const r = sys.sublattice_range(name);
                PBT_CHECK(r.start == r.end, "sublattice ", name, " without sites has the range ", r.start, "-", r.end);
            }
            catch (pbt::Failure const&) { throw; }
            catch (pbt_eigen::AssertError const&) { throw; }
            catch (std::exception const&) {} // also a valid answer
            PBT_CHECK(throws([&] { sys.find_nearest({0, 0, 0}, name); }), "a site was found in the empty sublattice ", name);
            continue;
        }
        auto const r = sys.sublattice_range(name);
        auto got = std::vector<int>();
        PBT_CHECK(r.start >= 0 && r.end <= n, "sublattice ", name, " has the range ", r.start, "-", r.end, " of ", n, " sites");
        for (auto i = r.start; i < r.end; ++i) { got.push_back(int(i)); }
        PBT_CHECK(got == members, "sublattice ", name, " has the range ", r.start, "-", r.end, ", expected ", members.front(), "-", members.back() + 1,
                  " (", members.size(), " sites)");
    }
    for (auto name : {"no such sublattice", "?", "A ", " "}) {
        PBT_CHECK(throws([&] { sys.sublattice_range(name); }), "unknown sublattice '", name, "' was accepted");
        PBT_CHECK(throws([&] { sys.find_nearest({0, 0, 0}, name); }), "unknown sublattice '", name, "' was accepted");
    }

    // nearest site
    for (auto q = 0; q < 6; ++q) {
        auto const& query = s.pick(queries);
        auto const on_site = n > 0 && s.chance(1, 3);
        cpb::Cartesian p = to_f(V3(s.sym(40) / 8.0, s.sym(40) / 8.0, s.sym(8) / 8.0));
        if (on_site) { p = sys.positions[s.range(0, n - 1)]; }
        if (s.chance(1, 16)) { p *= 1000.f; }
        if (query.second.empty()) { continue; }
        auto const i = sys.find_nearest(p, query.first);
        PBT_CHECK(std::find(query.second.begin(), query.second.end(), int(i)) != query.second.end(), "the site nearest to (", p.transpose(), ") in '",
                  query.first, "' is ", i, " which is not in the sublattice");
        auto const d = (to_d(sys.positions[i]) - to_d(p)).norm();
        for (auto j : query.second) {
            auto const dj = (to_d(sys.positions[j]) - to_d(p)).norm();
            PBT_CHECK(d <= dj * (1 + 1e-5) + 1e-6, "site ", i, " at distance ", d, " was found nearest to (", p.transpose(), ") in '", query.first,
                      "' but site ", j, " is at ", dj);
        }
        if (query.first.empty()) { PBT_CHECK(sys.find_nearest(p) == i, "the default is to search all sublattices"); }
    }
}

static void run(Src& s, Ctx& ctx) {
    auto prog = Program();
    auto o = LatOptions();
    o.max_fams = 2; o.max_terms = 3; o.max_subs = 5;
    prog.lat = gen_lattice(s, o);
    auto& lat = prog.lat;
    auto const ndim = lat.ndim();
    lat.min_neighbors = s.pick({0, 1});
    prog.shaped = s.chance(1, 3);
    auto const extent = ndim == 3 ? 1.25 : 2.25;
    if (prog.shaped) { prog.shape = gen_shape(s, lat, extent); prog.reach = 8; }
    for (auto k = 0; k < ndim; ++k) { prog.size[k] = s.range(1, ndim == 3 ? 3 : ndim == 2 ? 4 : 9); }
    auto names = sub_names(lat);
    auto known = std::vector<std::string>();
    auto norbs = std::vector<int>();
    for (auto i = 0; i < int(lat.subs.size()); ++i) { if (lat.subs[i].alias_of < 0) { known.push_back(lat.subs[i].name); norbs.push_back(lat.norb(i)); } }
    auto const complex = s.chance(1, 3);
    auto generators = 0;
    for (auto n = s.range(0, 4); n > 0; --n) {
        auto const what = s.range(0, 3);
        if (what <= 1) {
            auto st = gen_state(s, lat, names, extent / 2);
            if (generators) { st.on_below = -1e9; }
            if (what == 0 && s.chance(1, 3)) { st.only = s.pick(names); st.normal = V3(1, 0, 0); st.off_above = -100; st.on_below = -1e9; } // all of it
            prog.steps.push_back(st);
        } else if (what == 2) {
            auto st = Step();
            st.kind = Step::site_gen;
            st.name = "G" + std::to_string(generators++);
            auto const norb = s.chance(1, 2) ? s.range(1, 3) : s.pick(norbs);
            st.energy = gen_onsite(s, norb, complex);
            for (auto m = s.range(0, 4); m > 0; --m) {
                V3 p;
                for (auto k = 0; k < 3; ++k) { p[k] = s.sym(12) / 8.0 + 3.0 / 64; }
                st.new_positions.push_back(p);
            }
            names.push_back(st.name); known.push_back(st.name); norbs.push_back(norb);
            prog.steps.push_back(st);
        } else {
            auto st = Step();
            st.kind = Step::hop_gen;
            st.name = "u" + std::to_string(generators++);
            auto const a = s.pick(norbs), b = s.pick(norbs);
            st.energy = gen_hopping(s, a, b, complex);
            st.seed = s.range(0, 1 << 20);
            st.percent = s.range(0, 100);
            prog.steps.push_back(st);
        }
    }
    ctx.describe([&](std::ostream& os) { prog.print(os); });

    auto model = prog.make_model();
    auto sp = std::shared_ptr<cpb::System const>();
    try { sp = model.system(); }
    catch (pbt::Failure const&) { throw; }
    catch (pbt_eigen::AssertError const&) { throw; }
    catch (std::exception const&) { throw pbt::Discard(); } // the subject of C04, C09 and C10
    auto const w = prog.replay(*sp);
    if (w.sys.sites.empty()) { throw pbt::Discard(); }
    auto const map = match_sites(*sp, w.sys);
    auto family = std::vector<std::string>();
    auto norb = std::vector<int>();
    for (auto m : map) { family.push_back(w.sys.sites[size_t(m)].family); norb.push_back(w.sys.sites[size_t(m)].norb()); }
    check_lookups(s, ctx, *sp, family, norb, known);

    // the rows are those of the Hamiltonian
    auto scalar = Scalar();
    auto const h = to_dense(model.hamiltonian(), scalar);
    check_equal(reorder(h, *sp, map, w.sys), dense(w.sys), 1e-5, "H");
    PBT_CHECK(cpb::idx_t(model.hamiltonian().non_zeros()) <= sp->hamiltonian_nnz(), "there are ", model.hamiltonian().non_zeros(),
              " elements, more than the predicted ", sp->hamiltonian_nnz());
    PBT_CHECK(model.hamiltonian().rows() == sp->hamiltonian_size(), "rows");

    auto distinct = std::set<std::string>(family.begin(), family.end());
    auto sizes = std::set<int>(norb.begin(), norb.end());
    ctx.nontrivial = distinct.size() > 1;
    ctx.label(sizes.size() > 1, "mixed orbital counts");
    ctx.label(generators > 0, "generators");
    ctx.label(w.removed + w.removed_late > 0, "vacancies");
    ctx.label(lat.min_neighbors && prog.shaped, "shape");
    ctx.label("dim" + std::to_string(ndim));
}

namespace pbt {
Property const property = {
    "C13",
    "random 1-3D lattices with 1-5 sublattices of 1-3 orbitals (and aliases) as blocks or shapes, with vacancies, emptied sublattices and "
    "generated sites and hoppings; every site index, sublattice name and random positions looked up and compared with plain loops; "
    "non-trivial: at least two site families remain",
    60000, 1500000, run,
    {"looking up a sublattice which has no sites may either give an empty range or be rejected", "names of aliases are not looked up"}};
}
