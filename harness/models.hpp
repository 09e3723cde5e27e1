// Small random models of every scalar type, and the exact eigen-decomposition of their Hamiltonian
#pragma once
#include "program.hpp"
#include <Eigen/Eigenvalues>

namespace ref {

/// What the exact results follow from: the model's own system and matrix
struct Truth {
    Mat h, states;
    Eigen::VectorXd energies;
    Scalar scalar;
    std::shared_ptr<cpb::System const> sys;
    std::vector<int> first;    ///< first Hamiltonian index of each site
    std::vector<int> norb;
    std::vector<std::string> family;

    int size() const { return int(h.rows()); }
    double eps() const { return scalar.is_double ? 2.3e-16 : 1.2e-7; }
};

inline Truth make_truth(cpb::Model const& model) {
    auto t = Truth();
    t.sys = model.system();
    t.h = to_dense(model.hamiltonian(), t.scalar);
    if (t.size() == 0 || t.size() > 60) { throw pbt::Discard(); }
    if (!t.h.allFinite() || (t.h - t.h.adjoint()).cwiseAbs().maxCoeff() > 0) { throw pbt::Discard(); }
    Eigen::SelfAdjointEigenSolver<Mat> es(t.h);
    t.energies = es.eigenvalues();
    t.states = es.eigenvectors();
    t.family = family_names(*t.sys);
    auto n = 0;
    for (auto const& sub : t.sys->compressed_sublattices) {
        for (auto i = 0; i < sub.num_sites(); ++i) {
            t.first.push_back(n);
            t.norb.push_back(int(sub.num_orbitals()));
            n += t.norb.back();
        }
    }
    PBT_CHECK(n == t.size() && t.first.size() == size_t(t.sys->num_sites()), "the Hamiltonian has ", t.size(), " rows for ", n, " orbitals");
    return t;
}

inline Program draw_program(Src& s, Ctx& ctx, bool want_double) {
    auto prog = Program();
    auto o = LatOptions();
    o.max_fams = 3; o.max_terms = 3; o.max_subs = 3;
    o.max_orb = s.pick({1, 1, 2, 3, 1, 5});
    o.planar = s.chance(1, 2);
    prog.lat = gen_lattice(s, o);
    auto const& lat = prog.lat;
    auto const ndim = lat.ndim();
    auto const subs = sub_names(lat);
    auto hops = std::vector<std::string>();
    for (auto const& f : lat.fams) { hops.push_back(f.name); }
    if (s.chance(1, 4)) { prog.sym = gen_symmetry(s, lat, 2); }
    for (auto k = 0; k < ndim; ++k) {
        prog.size[k] = prog.sym.period[k] > 0 ? prog.sym.period[k] : s.range(1, ndim == 3 ? 2 : ndim == 2 ? 4 : 8);
    }
    if (!prog.sym.count() && s.chance(1, 3)) { prog.steps.push_back(gen_state(s, lat, subs, 1)); }
    if (s.chance(1, 4)) { prog.steps.push_back(gen_position(s, lat, subs)); }
    for (auto n = s.range(0, ctx.thorough ? 3 : 2); n > 0; --n) { prog.mods.push_back(gen_mod(s, subs, hops, true)); }
    if (want_double) {
        auto m = EnergyMod();
        m.is_double = true;
        m.b = s.sym(8) / 8.0;
        m.g = V3(s.sym(4) / 8.0, s.sym(4) / 8.0, 0);
        prog.mods.push_back(m);
    }
    return prog;
}

inline cpb::Model draw_model(Src& s, Ctx& ctx, bool want_double, Lat& lat) {
    auto prog = draw_program(s, ctx, want_double);
    ctx.describe([&](std::ostream& os) { prog.print(os); });
    lat = prog.lat;
    auto model = prog.make_model();
    if (prog.sym.count()) {
        auto const k = V3(s.frac(2, 4), s.frac(2, 4), s.frac(2, 4));
        ctx.describe([&](std::ostream& os) { os << "wave vector (" << k.transpose() << ")\n"; });
        model.set_wave_vector(to_f(k));
    }
    try { model.hamiltonian(); }
    catch (pbt::Failure const&) { throw; }
    catch (pbt_eigen::AssertError const&) { throw; }
    catch (std::exception const&) { throw pbt::Discard(); } // no sites left, not Hermitian, ... (other properties)
    return model;
}

inline cpb::Model model_without_sites() {
    auto p = Program();
    p.lat.vecs = {V3(1, 0, 0)};
    p.lat.subs.resize(1);
    p.lat.subs[0].name = "A";
    p.lat.subs[0].energy = Mat::Zero(1, 1);
    auto off = Step();
    off.off_above = -1e6;
    p.steps.push_back(off);
    return p.make_model();
}

} // namespace ref
