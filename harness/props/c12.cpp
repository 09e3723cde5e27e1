// C12: a model's results depend only on its final parameters, not on its history
#include "program.hpp"
using namespace ref;

namespace {

using Digest = std::vector<double>;

void put(Digest& d, std::string const& s) { d.push_back(double(s.size())); for (auto c : s) { d.push_back(c); } }
void put(Digest& d, cpb::CartesianArray const& p) {
    d.push_back(double(p.size()));
    for (auto i = 0; i < p.size(); ++i) { d.push_back(p.x[i]); d.push_back(p.y[i]); d.push_back(p.z[i]); }
}
void put(Digest& d, cpb::HoppingBlocks const& blocks, cpb::HoppingRegistry const& reg) {
    // families without hoppings are not content
    auto by_name = std::map<std::string, std::vector<std::pair<int, int>>>();
    for (auto const& b : blocks) {
        for (auto const& c : b.coordinates()) { by_name[reg.name(b.family_id())].push_back({c.row, c.col}); }
    }
    d.push_back(double(by_name.size()));
    for (auto const& p : by_name) {
        put(d, p.first);
        d.push_back(double(p.second.size()));
        for (auto const& c : p.second) { d.push_back(c.first); d.push_back(c.second); }
    }
}
void put(Digest& d, cpb::System const& sys) {
    put(d, sys.positions);
    for (auto const& sub : sys.compressed_sublattices) {
        if (sub.num_sites() == 0) { continue; }
        put(d, sys.site_registry.name(sub.id()));
        d.push_back(double(sub.num_sites())); d.push_back(double(sub.num_orbitals()));
    }
    put(d, sys.hopping_blocks, sys.hopping_registry);
    d.push_back(double(sys.boundaries.size()));
    for (auto const& b : sys.boundaries) {
        for (auto k = 0; k < 3; ++k) { d.push_back(b.shift[k]); }
        put(d, b.hopping_blocks, sys.hopping_registry);
    }
}
struct PutCsr {
    Digest& d;
    template<class scalar_t>
    void operator()(cpb::SparseMatrixRC<scalar_t> const& p) const {
        PBT_CHECK(p != nullptr, "no Hamiltonian");
        d.push_back(sizeof(scalar_t)); d.push_back(Eigen::NumTraits<scalar_t>::IsComplex);
        d.push_back(double(p->rows())); d.push_back(double(p->nonZeros()));
        for (auto r = 0; r < p->rows(); ++r) {
            for (auto k = p->outerIndexPtr()[r]; k < p->outerIndexPtr()[r + 1]; ++k) {
                auto const v = cplx(p->valuePtr()[k]);
                d.push_back(r); d.push_back(p->innerIndexPtr()[k]); d.push_back(v.real()); d.push_back(v.imag());
            }
        }
    }
};
void put(Digest& d, cpb::Hamiltonian const& h) { cpb::var::apply_visitor(PutCsr{d}, h.get_variant()); }

enum Query { q_system, q_hamiltonian, q_leads, q_eval };

Digest query(cpb::Model const& model, int what) {
    auto d = Digest();
    try {
        if (what == q_eval) { model.eval(); }
        if (what == q_system || what == q_eval) { put(d, *model.system()); }
        if (what == q_hamiltonian || what == q_eval) { put(d, model.hamiltonian()); }
        if (what == q_leads || what == q_eval) {
            auto const& leads = model.leads();
            d.push_back(leads.size());
            for (auto i = 0; i < leads.size(); ++i) {
                auto const l = model.lead(size_t(i));
                d.push_back(l.spec().axis); d.push_back(l.spec().sign);
                d.push_back(double(l.indices().size()));
                for (auto k : l.indices()) { d.push_back(k); }
                put(d, l.system());
                put(d, l.h0());
                put(d, l.h1());
            }
        }
    }
    catch (pbt::Failure const&) { throw; }
    catch (pbt_eigen::AssertError const&) { throw; }
    catch (std::exception const&) { return {-12345}; }
    return d;
}

/// The parameters of a model
struct Recipe {
    std::shared_ptr<Program> prog; ///< owns all steps and modifiers ever made
    I3 size = {1, 1, 1};
    bool has_size = false;
    int shape = -1;
    int sym = -1;
    std::vector<std::pair<int, int>> leads; // direction, shape
    std::vector<int> steps, mods;
    V3 k = {0, 0, 0};
};

struct Pool {
    std::vector<RShape> shapes;
    std::vector<RShape> contacts;
    std::vector<RSym> syms;
};

cpb::Model fresh(Recipe const& r, Pool const& pool) {
    auto model = cpb::Model(r.prog->lat.build());
    if (r.has_size) { model.add(cpb::Primitive(r.size[0], r.size[1], r.size[2])); }
    if (r.shape >= 0) { model.add(pool.shapes[size_t(r.shape)].build()); }
    if (r.sym >= 0) { model.add(pool.syms[size_t(r.sym)].build(r.prog->lat)); }
    for (auto i : r.steps) { r.prog->add_step(model, i); }
    for (auto i : r.mods) { r.prog->add_mod(model, i); }
    for (auto const& l : r.leads) { model.attach_lead(l.first, pool.contacts[size_t(l.second)].build()); }
    model.set_wave_vector(to_f(r.k));
    return model;
}

void run(Src& s, Ctx& ctx) {
    auto prog = std::make_shared<Program>();
    auto o = LatOptions();
    o.max_subs = 3; o.max_orb = 2; o.max_fams = 2; o.max_terms = 3; o.long_range = false;
    prog->lat = gen_lattice(s, o);
    auto& lat = prog->lat;
    auto const ndim = lat.ndim();
    lat.min_neighbors = s.pick({0, 1, 2});
    if (s.chance(1, 4)) { lat.offset = (s.sym(3) / 8.0) * lat.vecs[0]; }
    auto pool = Pool();

    struct Live { cpb::Model model; Recipe recipe; std::vector<std::pair<int, Digest>> last; };
    auto lattice = lat.build();
    auto first = Recipe();
    first.prog = prog;
    auto live = std::vector<Live>();
    live.push_back(Live{cpb::Model(lattice), first, {}});
    // the model has its own copy of the lattice
    if (s.chance(1, 4)) { lattice.set_min_neighbors(7); try { lattice.add_sublattice("other", cpb::Cartesian(0.1f, 0, 0)); } catch (std::exception const&) {} }

    auto subs = sub_names(lat);
    auto families = std::vector<std::string>(), hops = std::vector<std::string>();
    for (auto i = 0; i < int(lat.subs.size()); ++i) { if (lat.subs[i].alias_of < 0) { families.push_back(lat.subs[i].name); } }
    for (auto const& f : lat.fams) { hops.push_back(f.name); }

    // results which were handed out stay as they are
    auto kept = std::vector<std::pair<std::shared_ptr<cpb::System const>, Digest>>();
    auto kept_h = std::vector<std::pair<cpb::Hamiltonian, Digest>>();

    auto queries = 0, changes_after_query = 0, rejected = 0, copies = 0, failing = 0, lead_queries = 0, cleared = 0;
    auto const nops = s.range(3, ctx.thorough ? 20 : 14);
    auto queried = false;
    for (auto op = 0; op < nops; ++op) {
        auto const which = size_t(s.range(0, int(live.size()) - 1));
        auto& m = live[which];
        auto& r = m.recipe;
        auto what = op + 1 == nops ? 0 : s.range(0, 15);
        auto note = [&](std::string const& text) { ctx.describe([&](std::ostream& os) { if (op == 0 || true) { os << "model " << which << ": " << text << "\n"; } }); };
        // apply a change to the model and to a fresh one: both must accept or reject it
        auto change = [&](std::string const& text, std::function<void(cpb::Model&)> const& f, std::function<void(Recipe&)> const& g) {
            auto other = fresh(r, pool);
            auto const bad = throws([&] { f(m.model); });
            auto const expected = throws([&] { f(other); });
            note(text + (bad ? " (rejected)" : ""));
            PBT_CHECK(bad == expected, text, bad ? " was rejected" : " was accepted", ", but not by a fresh model");
            if (bad) { ++rejected; return; }
            g(r);
            m.last.clear();
            changes_after_query += queried;
        };
        if (what <= 4) {
            auto const q = s.pick({int(q_hamiltonian), int(q_system), int(q_leads), int(q_eval), int(q_hamiltonian)});
            note(std::string("query ") + (q == q_system ? "system" : q == q_hamiltonian ? "hamiltonian" : q == q_leads ? "leads" : "all"));
            auto const a = query(m.model, q);
            auto const b = query(fresh(r, pool), q);
            PBT_CHECK(a == b, "the result differs from that of a fresh model with the same parameters (", a.size(), " and ", b.size(), " values", a.size() == 1 ? "; it throws)" : ")");
            auto const c = query(m.model, q);
            PBT_CHECK(a == c, "the second query gives a different result");
            for (auto const& l : m.last) { if (l.first == q) { PBT_CHECK(a == l.second, "a repeated query gives a different result"); } }
            m.last.push_back({q, a});
            ++queries; queried = true;
            lead_queries += (q == q_leads || q == q_eval) && !r.leads.empty() && a.size() > 1;
            failing += a.size() == 1;
            if (a.size() > 1 && q != q_leads) {
                auto const sp = m.model.system();
                PBT_CHECK(sp == m.model.system(), "the system is built again without changes");
                auto d = Digest(); put(d, *sp);
                kept.push_back({sp, d});
                if (q != q_system) {
                    auto const h = m.model.hamiltonian();
                    auto dh = Digest(); put(dh, h);
                    kept_h.push_back({h, dh});
                }
            }
        } else if (what == 5) {
            auto n = I3(1, 1, 1);
            for (auto k = 0; k < ndim; ++k) { n[k] = s.range(1, 3); }
            if (ndim < 3 && s.chance(1, 5)) { n[ndim] = 2; }
            change(pbt::str("primitive ", n.transpose()), [n](cpb::Model& x) { x.add(cpb::Primitive(n[0], n[1], n[2])); },
                   [n](Recipe& x) { x.size = n; x.has_size = true; });
        } else if (what == 6) {
            auto shape = gen_shape(s, lat, ndim == 3 ? 1.0 : 1.5);
            if (s.chance(1, 2)) { for (auto k = 0; k < ndim; ++k) { shape.lattice_offset += (s.sym(s.chance(1, 6) ? 7 : 2) / 8.0) * lat.vecs[k]; } }
            pool.shapes.push_back(shape);
            auto const i = int(pool.shapes.size()) - 1;
            change(pbt::str("shape ", i), [shape](cpb::Model& x) { x.add(shape.build()); }, [i](Recipe& x) { x.shape = i; });
            ctx.describe([&](std::ostream& os) { shape.print(os); });
        } else if (what == 7) {
            auto const sym = gen_symmetry(s, lat, 2);
            pool.syms.push_back(sym);
            auto const i = int(pool.syms.size()) - 1;
            change(pbt::str("symmetry ", i), [sym, &lat](cpb::Model& x) { x.add(sym.build(lat)); }, [i](Recipe& x) { x.sym = i; });
        } else if (what == 8) {
            auto k = V3(s.frac(2, 4), s.frac(2, 4), 0);
            if (s.chance(1, 4)) { k = r.k * (s.chance(1, 2) ? 1 + s.pick<double>({1, -1, 0.125}) / 128 : 1); }
            change(pbt::str("wave vector ", k.transpose()), [k](cpb::Model& x) { x.set_wave_vector(to_f(k)); }, [k](Recipe& x) { x.k = k; });
        } else if (what == 9 || what == 10) {
            auto st = Step();
            auto const kind = s.range(0, 3);
            if (kind == 0) { st = gen_state(s, lat, subs, 0.75); if (s.chance(1, 4)) { st.min_neighbors = s.range(1, 2); } }
            else if (kind == 1) { st = gen_position(s, lat, subs); }
            else if (kind == 2) {
                st.kind = Step::site_gen;
                st.name = s.pick({std::string("G0"), std::string("G1"), s.pick(subs)});
                st.energy = gen_onsite(s, s.range(1, 2), s.chance(1, 3));
                for (auto n = s.range(0, 3); n > 0; --n) { st.new_positions.push_back(V3(s.sym(8) / 8.0 + 3.0 / 64, s.sym(8) / 8.0, 1)); }
            } else {
                st.kind = Step::hop_gen;
                st.name = s.pick({std::string("u0"), std::string("u1"), std::string("")});
                st.energy = gen_hopping(s, s.range(1, 2), s.range(1, 2), s.chance(1, 3));
                st.seed = s.range(0, 1 << 16);
                st.percent = s.range(0, 40);
                if (s.chance(1, 8)) { st.bad = s.pick({Step::negative, Step::too_large, Step::unequal}); }
            }
            prog->steps.push_back(st);
            auto const i = int(prog->steps.size()) - 1;
            ctx.describe([&](std::ostream& os) { st.print(os); });
            change(pbt::str("structure modifier ", i), [prog, i](cpb::Model& x) { prog->add_step(x, i); }, [i](Recipe& x) { x.steps.push_back(i); });
        } else if (what == 11 || what == 12) {
            auto mod = gen_mod(s, families, hops, true);
            if (s.chance(1, 12)) { mod.bad_above = -1e6; mod.bad_value = NAN; }
            prog->mods.push_back(mod);
            auto const i = int(prog->mods.size()) - 1;
            ctx.describe([&](std::ostream& os) { mod.print(os); });
            change(pbt::str("energy modifier ", i), [prog, i](cpb::Model& x) { prog->add_mod(x, i); }, [i](Recipe& x) { x.mods.push_back(i); });
        } else if (what == 13) {
            auto contact = RShape();
            contact.kind = RShape::box;
            contact.center = V3(s.sym(4) / 8.0 + 1.0 / 64, s.sym(4) / 8.0 + 1.0 / 64, s.sym(4) / 8.0 + 1.0 / 64);
            contact.width = V3(s.range(4, 24) / 8.0, s.range(4, 24) / 8.0, s.range(4, 24) / 8.0);
            pool.contacts.push_back(contact);
            auto const i = int(pool.contacts.size()) - 1;
            auto const dir = s.chance(1, 8) ? s.pick({0, 3, -3, 4}) : (s.chance(1, 2) ? -1 : 1) * s.range(1, ndim);
            ctx.describe([&](std::ostream& os) { contact.print(os); });
            change(pbt::str("lead ", dir), [contact, dir](cpb::Model& x) { x.attach_lead(dir, contact.build()); },
                   [dir, i](Recipe& x) { x.leads.push_back({dir, i}); });
        } else if (what == 14) {
            auto const c = s.range(0, 2);
            change(c == 0 ? "clear structure modifiers" : c == 1 ? "clear energy modifiers" : "clear all modifiers",
                   [c](cpb::Model& x) { if (c == 0) { x.clear_structure_modifiers(); } else if (c == 1) { x.clear_hamiltonian_modifiers(); } else { x.clear_all_modifiers(); } },
                   [c](Recipe& x) { if (c != 1) { x.steps.clear(); } if (c != 0) { x.mods.clear(); } });
            ++cleared;
        } else if (live.size() < 3) {
            note("copy");
            auto copy = Live{m.model, m.recipe, m.last};
            live.push_back(copy);
            ++copies;
        } else {
            auto const to = (which + 1) % live.size();
            note(pbt::str("assign to model ", to));
            auto copy = Live{m.model, m.recipe, m.last};
            live[to].model = copy.model; live[to].recipe = copy.recipe; live[to].last = copy.last;
            ++copies;
        }
        prog->log->calls.clear(); prog->log->energy_calls.clear(); prog->log->pairs.clear();
    }
    for (auto i = size_t{0}; i < live.size(); ++i) {
        ctx.describe([&](std::ostream& os) { os << "model " << i << ": final query\n"; });
        auto const a = query(live[i].model, q_eval);
        PBT_CHECK(a == query(fresh(live[i].recipe, pool), q_eval), "the final result differs from that of a fresh model with the same parameters");
    }
    for (auto const& k : kept) { auto d = Digest(); put(d, *k.first); PBT_CHECK(d == k.second, "a system which was returned earlier has changed"); }
    for (auto const& k : kept_h) { auto d = Digest(); put(d, k.first); PBT_CHECK(d == k.second, "a Hamiltonian which was returned earlier has changed"); }
    ctx.describe([&](std::ostream& os) { lat.print(os); });

    ctx.nontrivial = changes_after_query > 0;
    ctx.label(changes_after_query > 0, "change after a query");
    ctx.label(copies > 0, "copies");
    ctx.label(rejected > 0, "rejected parameter");
    ctx.label(failing > 0, "failing query");
    ctx.label(lead_queries > 0, "leads");
    ctx.label(cleared > 0, "modifiers cleared");
}

} // namespace

namespace pbt {
Property const property = {
    "C12",
    "histories of 3-20 operations (primitive, shape with offset, symmetry, wave vector, all kinds of modifiers, leads, clearing, "
    "copies and assignment, rejected parameters, queries) on up to 3 models; every query compared bit by bit with a fresh model given "
    "only the current parameters, and results returned earlier compared with what they were; non-trivial: a change after a query",
    40000, 1000000, run,
    {"modifier functions depend only on their arguments", "building a fresh model is deterministic"}};
}
