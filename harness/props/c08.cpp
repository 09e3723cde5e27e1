// C08: onsite and hopping modifiers see and replace every term exactly once
#include "program.hpp"
using namespace ref;

namespace {

struct Triple { std::string name; V3 p1, p2; int rows, cols; };

void match_calls(std::vector<Triple> const& got, std::vector<Triple> const& want, int mod, char const* what) {
    PBT_CHECK(got.size() == want.size(), "modifier ", mod, " was given ", got.size(), " ", what, "s, expected ", want.size());
    auto used = std::vector<char>(want.size(), 0);
    for (auto const& g : got) {
        auto found = false;
        for (size_t k = 0; k < want.size() && !found; ++k) {
            auto const& w = want[k];
            if (used[k] || w.name != g.name) { continue; }
            if ((w.p1 - g.p1).cwiseAbs().maxCoeff() > 2e-3 || (w.p2 - g.p2).cwiseAbs().maxCoeff() > 2e-3) { continue; }
            PBT_CHECK(w.rows == g.rows && w.cols == g.cols, "modifier ", mod, " on '", g.name, "' was given ", g.rows, "x", g.cols, " terms");
            used[k] = 1; found = true;
        }
        PBT_CHECK(found, "modifier ", mod, " was given an unexpected or repeated ", what, " '", g.name, "' (", g.p1.transpose(), ") (", g.p2.transpose(), ")");
    }
}

struct Elements {
    std::function<void(int, int, cplx)> f; Scalar& s; long& nnz;
    template<class scalar_t>
    void operator()(cpb::SparseMatrixRC<scalar_t> const& p) const {
        s.is_double = std::is_same<scalar_t, double>::value || std::is_same<scalar_t, std::complex<double>>::value;
        s.is_complex = std::is_same<scalar_t, std::complex<float>>::value || std::is_same<scalar_t, std::complex<double>>::value;
        nnz = p->nonZeros();
        for (auto r = 0; r < p->rows(); ++r) {
            for (auto k = p->outerIndexPtr()[r]; k < p->outerIndexPtr()[r + 1]; ++k) { f(r, p->innerIndexPtr()[k], cplx(p->valuePtr()[k])); }
        }
    }
};

/// Large hopping matrices: several internal batches with few hoppings
void run_batches(Src& s, Ctx& ctx) {
    auto prog = Program();
    auto& lat = prog.lat;
    lat.vecs = {V3(1, 0, 0)};
    auto const huge = s.chance(1, 12);
    auto const rows = huge ? 320 : s.pick({20, 25, 40, 50, 33}), cols = huge ? 320 : s.pick({20, 25, 40, 50, 47});
    lat.subs.resize(2);
    auto state = s.bits() | 1;
    auto rnd = [&] { state ^= state << 13; state ^= state >> 7; state ^= state << 17; return double(int((state * 0x2545F4914F6CDD1Dull) >> 60) + 1) / 4; };
    lat.subs[0].name = "A"; lat.subs[0].energy = Mat::Zero(rows, rows);
    lat.subs[1].name = "B"; lat.subs[1].energy = Mat::Zero(cols, cols); lat.subs[1].pos = V3(0.5, 0, 0);
    auto const complex = s.chance(1, 3);
    auto nfam = s.range(1, 2);
    for (auto f = 0; f < nfam; ++f) {
        auto fam = Fam();
        fam.name = f == 0 ? "t0" : "t1";
        fam.energy = Mat(rows, cols);
        for (auto i = 0; i < rows; ++i) { for (auto j = 0; j < cols; ++j) { fam.energy(i, j) = cplx(rnd(), complex ? rnd() : 0); } }
        fam.terms = {{I3(f == 0 ? 0 : -1, 0, 0), 0, 1}};
        lat.fams.push_back(fam);
    }
    lat.min_neighbors = 0;
    auto const batch = std::max(100000 / (rows * cols), 1);
    auto n = huge ? s.range(1, 3) : batch * s.range(0, 2) + s.sym(2) + 2;
    prog.size = I3(std::max(1, n), 1, 1);
    auto m = EnergyMod();
    m.onsite = false;
    m.a = 2; m.b = 1; m.d = 0.25; m.g = V3(0.5, 0, 0); m.h = V3(1.0 / 16, 0, 0);
    prog.mods = {m};
    if (s.chance(1, 2)) { m.a = 0.5; m.b = -2; m.only = s.pick({"t0", "t1"}); prog.mods.push_back(m); }
    if (s.chance(1, 4)) { prog.mods[0].is_double = true; }
    ctx.describe([&](std::ostream& os) { os << rows << "x" << cols << " orbitals, " << nfam << " families, chain of " << prog.size[0] << " cells\n"; });

    auto model = prog.make_model();
    auto const& sys = *model.system();
    auto const nsites = int(sys.num_sites());
    auto ham_to_site = std::vector<std::pair<int, int>>();
    for (auto i = 0; i < nsites; ++i) {
        auto const idx = sys.to_hamiltonian_indices(i);
        for (auto k = 0; k < idx.size(); ++k) {
            PBT_CHECK(int(idx[k]) == int(ham_to_site.size()), "Hamiltonian indices are not consecutive");
            ham_to_site.push_back({i, k});
        }
    }
    auto const names = family_names(sys);
    auto expect = std::map<std::pair<int, int>, Mat>(); // per pair of sites, A to B
    auto a_sites = std::vector<int>(), b_sites = std::vector<int>();
    auto total = 0, expected_nnz = 0;
    for (auto i = 0; i < nsites; ++i) {
        if (names[i] != "A") { continue; }
        for (auto j = 0; j < nsites; ++j) {
            if (names[j] != "B") { continue; }
            auto const x = double(sys.positions[j][0]) - double(sys.positions[i][0]);
            for (auto const& fam : lat.fams) {
                if (std::abs(x - 0.5 - fam.terms[0].d[0]) > 1e-2) { continue; }
                auto t = fam.energy;
                for (auto const& mod : prog.mods) {
                    if (!mod.only.empty() && mod.only != fam.name) { continue; }
                    for (auto r = 0; r < rows; ++r) { for (auto c = 0; c < cols; ++c) { t(r, c) = mod.hopping_value(t(r, c), r, c, to_d(sys.positions[i]), to_d(sys.positions[j])); } }
                }
                for (auto r = 0; r < rows; ++r) { for (auto c = 0; c < cols; ++c) { expected_nnz += 2 * (std::abs(t(r, c)) > 1e-3); } }
                expect[{i, j}] = t;
                ++total;
            }
        }
    }
    auto scalar = Scalar();
    auto nnz = 0l, counted = 0l;
    auto f = [&](int r, int c, cplx v) {
        auto p = ham_to_site[r], q = ham_to_site[c];
        auto e = cplx(0, 0);
        auto it = expect.find({p.first, q.first});
        if (it != expect.end()) { e = it->second(p.second, q.second); }
        else if ((it = expect.find({q.first, p.first})) != expect.end()) { e = std::conj(it->second(q.second, p.second)); }
        PBT_CHECK(std::abs(v - e) < 1e-3 * (1 + std::abs(e) / 10), "H(", r, ",", c, ") between sites ", p.first, " and ", q.first, " is ", v, " expected ", e);
        counted += std::abs(v) > 1e-3;
    };
    cpb::var::apply_visitor(Elements{f, scalar, nnz}, model.hamiltonian().get_variant());
    PBT_CHECK(counted == expected_nnz, "the matrix has ", counted, " non-zero elements, expected ", expected_nnz);
    for (auto k = 0; k < int(prog.mods.size()); ++k) {
        auto num = 0;
        for (auto const& c : prog.log->energy_calls) { if (c.mod == k) { num += c.num; } }
        PBT_CHECK(num == total, "modifier ", k, " was given ", num, " hoppings of ", total);
    }
    ctx.nontrivial = prog.size[0] > batch;
    ctx.label(prog.size[0] > batch, "more than one batch");
    ctx.label(huge, "one hopping larger than the buffer");
}

void run(Src& s, Ctx& ctx) {
    if (s.chance(1, 300)) { return run_batches(s, ctx); }
    auto prog = Program();
    auto o = LatOptions();
    o.max_subs = 3; o.max_fams = 3; o.max_terms = 3;
    o.max_range = s.pick({1, 1, 2});
    prog.lat = gen_lattice(s, o);
    auto& lat = prog.lat;
    auto const ndim = lat.ndim();
    lat.min_neighbors = s.pick({1, 0});
    if (s.chance(1, 3)) { prog.sym = gen_symmetry(s, lat, 3); }
    prog.shaped = !prog.sym.count() && s.chance(1, 4);
    if (prog.shaped) {
        prog.shape = gen_shape(s, lat, ndim == 3 ? 1.0 : 1.75);
        prog.reach = 8;
    }
    for (auto k = 0; k < ndim; ++k) {
        prog.size[k] = prog.sym.period[k] > 0 ? prog.sym.period[k] + s.range(0, 2) : s.range(1, ndim == 3 ? 2 : 3);
    }
    auto const subs = sub_names(lat);
    if (!prog.sym.count() && s.chance(1, 4)) {
        for (auto n = s.range(1, 2); n > 0; --n) {
            prog.steps.push_back(s.chance(1, 2) ? gen_state(s, lat, subs, 1) : gen_position(s, lat, subs));
        }
    }
    auto families = std::vector<std::string>();
    for (auto i = 0; i < int(lat.subs.size()); ++i) { if (lat.subs[i].alias_of < 0) { families.push_back(lat.subs[i].name); } }
    auto hops = std::vector<std::string>();
    for (auto const& f : lat.fams) { hops.push_back(f.name); }
    auto const allow_complex = s.chance(2, 3);
    for (auto n = s.range(0, 5); n > 0; --n) { prog.mods.push_back(gen_mod(s, families, hops, allow_complex)); }
    if (!prog.mods.empty() && s.chance(1, 10)) {
        auto& m = prog.mods[size_t(s.range(0, int(prog.mods.size()) - 1))];
        m.bad_above = s.sym(8) / 4.0 + 1.0 / 64;
        m.bad_value = s.pick({double(NAN), double(INFINITY), -double(INFINITY)});
    }
    ctx.describe([&](std::ostream& os) { prog.print(os); });

    auto model = prog.make_model();
    auto sp = std::shared_ptr<cpb::System const>();
    try { sp = model.system(); }
    catch (pbt::Failure const&) { throw; }
    catch (pbt_eigen::AssertError const&) { throw; }
    catch (std::runtime_error const&) { throw pbt::Discard(); } // no sites: C04, C09
    auto const& sys = *sp;
    auto w = prog.replay(sys);
    auto const map = check_system(sys, w.sys);
    auto k = V3(0, 0, 0);
    if (prog.sym.count() && s.chance(2, 3)) { k = V3(s.frac(2, 8), s.frac(2, 8), s.frac(2, 8)); model.set_wave_vector(to_f(k)); }

    // what will the modifiers be given?
    auto expect_complex = prog.expect_complex();
    auto bad = false;
    auto want = std::vector<std::vector<Triple>>(prog.mods.size());
    for (auto n = 0; n < int(prog.mods.size()); ++n) {
        auto const& m = prog.mods[n];
        auto const acts = [&](std::string const& name) { return m.only.empty() || m.only == name; };
        auto near_bad = [&](double x) { if (std::abs(x - m.bad_above) < 1e-2) { throw pbt::Discard(); } return x > m.bad_above; };
        if (m.onsite) {
            for (auto const& site : w.sys.sites) {
                want[n].push_back({site.family, site.pos, V3(0, 0, 0), site.norb(), site.norb()});
                if (!acts(site.family)) { continue; }
                expect_complex |= m.wants_complex() && site.norb() > 1;
                bad |= near_bad(site.pos[0]);
            }
        } else {
            auto add = [&](std::string const& family, V3 const& p1, V3 const& p2, Mat const& t) {
                want[n].push_back({family, p1, p2, int(t.rows()), int(t.cols())});
                if (!acts(family)) { return; }
                expect_complex |= m.wants_complex();
                bad |= near_bad(p1[0]);
            };
            for (auto const& h : w.sys.hops) { add(h.family, w.sys.sites[h.i].pos, w.sys.sites[h.j].pos, h.energy); }
            for (auto const& h : w.phops) {
                V3 r = V3::Zero();
                for (auto q = 0; q < ndim; ++q) { r += double(h.t[q] * prog.sym.period[q]) * lat.vecs[q]; }
                add(h.family, w.sys.sites[h.i].pos, w.sys.sites[h.j].pos - r, h.energy);
            }
        }
    }

    if (bad) {
        PBT_CHECK(throws([&] { model.hamiltonian(); }), "a Hamiltonian with NaN or infinite values was returned");
        PBT_CHECK(throws([&] { model.hamiltonian(); }), "a Hamiltonian with NaN or infinite values was returned the second time");
        ctx.label("non-finite");
        ctx.nontrivial = true;
        return;
    }
    auto scalar = Scalar();
    auto const h = to_dense(model.hamiltonian(), scalar);
    PBT_CHECK(scalar.is_complex == expect_complex, "the Hamiltonian is ", scalar.is_complex ? "complex" : "real");
    PBT_CHECK(scalar.is_double == prog.expect_double(), "the Hamiltonian is in ", scalar.is_double ? "double" : "single", " precision");
    auto const expected = prog.final_hamiltonian(w, k);
    auto const scale = expected.size() ? expected.cwiseAbs().maxCoeff() : 0;
    check_equal(reorder(h, sys, map, w.sys), expected, 1e-5 * (1 + scale) * (1 + prog.mods.size()), "H");
    check_equal(h, h.adjoint(), 1e-6 * (1 + scale), "H and its adjoint");
    auto positional = prog.sym.count() > 0;
    for (auto const& m : prog.mods) { positional |= !m.g.isZero(0) || !m.h.isZero(0); }
    if (scalar.is_double && !positional) { check_equal(reorder(h, sys, map, w.sys), expected, 1e-13 * (1 + scale), "double precision H"); }

    // what were they given? (in the run that counts)
    auto got = std::vector<std::vector<Triple>>(prog.mods.size());
    for (auto const& c : prog.log->energy_calls) {
        if (c.is_complex != scalar.is_complex) { continue; }
        PBT_CHECK(c.is_double == scalar.is_double, "modifier ", c.mod, " was given the wrong precision");
        for (auto i = 0; i < c.num; ++i) {
            got[c.mod].push_back({c.name, c.pos1[i], c.pos2.empty() ? V3(0, 0, 0) : c.pos2[i], c.rows, c.cols});
        }
    }
    for (auto n = 0; n < int(prog.mods.size()); ++n) { match_calls(got[n], want[n], n, prog.mods[n].onsite ? "site" : "hopping"); }

    auto const retried = expect_complex && !prog.expect_complex();
    auto effective = false;
    for (auto n = 0; n < int(prog.mods.size()); ++n) { effective |= !want[n].empty(); }
    ctx.nontrivial = effective;
    ctx.label(retried, "redone as complex");
    ctx.label(scalar.is_double, "double");
    ctx.label(scalar.is_complex, "complex");
    ctx.label(prog.mods.size() > 1, "several modifiers");
    ctx.label(!w.phops.empty(), "periodic");
    ctx.label(lat.multiorbital(), "multi-orbital");
    ctx.label(!prog.steps.empty(), "with structure modifiers");
    ctx.label(prog.shaped, "shape");
}

} // namespace

namespace pbt {
Property const property = {
    "C08",
    "random lattices, blocks, shapes or periodic systems and sequences of up to 5 onsite and hopping modifiers (affine in position, "
    "orbital- and name-dependent, real/complex/double, sometimes non-finite); every recorded call and the final matrix compared with "
    "a term-by-term evaluation; 1 in 300 cases uses large orbital matrices so that hoppings span several internal batches; "
    "non-trivial: some modifier received at least one term",
    60000, 1500000, run,
    {"modifier functions depend only on their arguments", "which period of a periodic block is chosen is left open"}};
}
