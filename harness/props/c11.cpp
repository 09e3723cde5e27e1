// C11: a lead is the periodic continuation of the system edge it is attached to
#include "program.hpp"
using namespace ref;

namespace {

struct RLead {
    int axis = 0, sign = 1;
    RShape shape;     ///< its transverse lattice coordinates decide membership
    bool line = false;
    V3 lo, hi;        ///< transverse interval (lattice coordinates, offset included)
    bool slanted = false; ///< membership also depends on the position along the lead
    V3 slope = V3::Zero(); ///< shift of the transverse interval per lattice vector along the lead

    int direction() const { return sign * (axis + 1); }

    /// 1 inside, 0 outside, -1 too close to tell
    int contains(Lat const& lat, V3 const& pos) const {
        if (slanted && line) { // between the planes which go through the end points
            auto const v = end_points(lat);
            V3 const ab = v[1] - v[0];
            auto const t = (pos - v[0]).dot(ab) / ab.norm();
            if (std::abs(t) < 2e-3 || std::abs(t - ab.norm()) < 2e-3) { return -1; }
            return t > 0 && t < ab.norm();
        }
        auto c = lat.coords(pos);
        if (slanted) { V3 const d = (c[axis] - (lo[axis] + hi[axis]) / 2) * slope; c -= d; }
        auto in = 1;
        for (auto k = 0; k < lat.ndim(); ++k) {
            if (k == axis) { continue; }
            if (std::abs(c[k] - lo[k]) < 2e-3 || std::abs(c[k] - hi[k]) < 2e-3) { return -1; }
            if (c[k] < lo[k] || c[k] > hi[k]) { in = 0; }
        }
        return in;
    }

    std::vector<V3> end_points(Lat const& lat) const {
        V3 a = V3::Zero(), b = V3::Zero();
        for (auto k = 0; k < lat.ndim(); ++k) {
            a += (lo[k] - slope[k]) * lat.vecs[k]; b += (hi[k] + slope[k]) * lat.vecs[k];
        }
        return {a, b};
    }

    V3 center(Lat const& lat) const {
        V3 c = V3::Zero();
        for (auto k = 0; k < lat.ndim(); ++k) { c += (lo[k] + hi[k]) / 2 * lat.vecs[k]; }
        return c;
    }
    V3 width(Lat const& lat) const {
        V3 w = V3::Zero();
        for (auto k = 0; k < lat.ndim(); ++k) { w += (hi[k] - lo[k]) * (lat.vecs[k] + (k == axis ? slant(lat) : V3(0, 0, 0))).cwiseAbs(); }
        for (auto k = lat.ndim(); k < 3; ++k) { w[k] = 8; }
        return w;
    }
    /// Cartesian shift of the shape per lattice vector along the lead
    V3 slant(Lat const& lat) const {
        V3 d = V3::Zero();
        if (!line) { for (auto k = 0; k < lat.ndim(); ++k) { d += slope[k] * lat.vecs[k]; } }
        return d;
    }
    std::vector<V3> vertices(Lat const& lat) const {
        if (line) { return end_points(lat); }
        auto v = std::vector<V3>();
        V3 const w = width(lat);
        for (auto n = 0; n < 8; ++n) {
            V3 p = center(lat);
            for (auto k = 0; k < 3; ++k) { p[k] += ((n >> k) & 1 ? 0.5 : -0.5) * w[k]; }
            v.push_back(p);
        }
        return v;
    }

    /// The cells which would have a sublattice at a vertex: the smallest and largest coordinates
    std::pair<V3, V3> cells(Lat const& full_lat, Lat const& lat) const {
        V3 first = V3::Constant(1e9), last = V3::Constant(-1e9);
        for (auto const& v : vertices(lat)) {
            for (auto i = 0; i < int(full_lat.subs.size()); ++i) {
                V3 const c = full_lat.coords(v - full_lat.site_pos(i, I3(0, 0, 0)));
                first = first.cwiseMin(c); last = last.cwiseMax(c);
            }
        }
        return {first, last};
    }

    /// Is the column of this site a part of the lead? The shape decides at its centre along the lead
    /// (of the part within the block).
    int member(Lat const& full_lat, Lat const& lat, int sub, I3 cell, I3 blo, I3 bhi) const {
        if (!slanted) { return contains(lat, full_lat.site_pos(sub, cell)); }
        auto const box = cells(full_lat, lat);
        auto const first = box.first[axis], last = box.second[axis], b0 = double(blo[axis]), b1 = bhi[axis] + 1.0;
        auto const row0 = int(std::ceil((std::max(first - 2, b0) + std::min(last + 1, b1)) / 2 - 0.6));
        auto const row1 = int(std::floor((std::max(first, b0) + std::min(last + 3, b1)) / 2 + 0.1));
        if (row0 > row1) { return -1; }
        auto in = -2;
        for (auto r = row0; r <= row1; ++r) {
            cell[axis] = r;
            auto const c = contains(lat, full_lat.site_pos(sub, cell));
            if (c < 0 || (in != -2 && c != in)) { return -1; }
            in = c;
        }
        if (in == 0) { return 0; }
        for (auto k = 0; k < lat.ndim(); ++k) {
            if (k == axis) { continue; }
            if (cell[k] < box.first[k] - 2 || cell[k] > box.second[k] + 2) { in = 0; }
            else if (in && (cell[k] < box.first[k] || cell[k] > box.second[k])) { return -1; }
        }
        return in;
    }

    cpb::Shape build(Lat const& lat) const {
        if (line) {
            auto const v = end_points(lat);
            return cpb::Line(to_f(v[0]), to_f(v[1]));
        }
        auto const self = *this;
        return cpb::FreeformShape([self, lat](cpb::CartesianArrayConstRef p) -> cpb::ArrayX<bool> {
            auto r = cpb::ArrayX<bool>(p.size());
            for (auto i = 0; i < p.size(); ++i) {
                auto const in = self.contains(lat, V3(p.x()[i], p.y()[i], p.z()[i]));
                if (in < 0) { throw pbt::Discard(); }
                r[i] = in != 0;
            }
            return r;
        }, to_f(width(lat)), to_f(center(lat)));
    }
    void print(std::ostream& os) const {
        os << "Lead " << direction() << (line ? " line" : " box") << " from (" << lo.transpose() << ") to (" << hi.transpose() << ") in lattice coordinates";
        if (slanted) { os << ", slanted by " << slope.transpose(); }
        os << "\n";
    }
};

/// Cells of the system sites which a lead is attached to, in the order of `indices`
struct Section { int cell = 0; std::set<Key> sites; };

void run(Src& s, Ctx& ctx) {
    auto prog = Program();
    auto o = LatOptions();
    o.min_dim = 2; o.max_subs = 3; o.max_orb = 2; o.max_fams = 3; o.max_terms = 3; o.long_range = false;
    o.planar = true;
    prog.lat = gen_lattice(s, o);
    auto& lat = prog.lat;
    auto const ndim = lat.ndim();
    auto const orthogonal = s.chance(1, 3);
    if (orthogonal) {
        // straight vectors; keep the sublattices where they are in lattice coordinates
        auto old = lat;
        for (auto k = 0; k < ndim; ++k) { auto const d = lat.vecs[k].norm(); lat.vecs[k].setZero(); lat.vecs[k][k] = std::round(d * 4) / 4; }
        for (auto& sub : lat.subs) { auto const c = old.coords(sub.pos); sub.pos = lat.translation({0, 0, 0}); for (auto k = 0; k < ndim; ++k) { sub.pos += c[k] * lat.vecs[k]; } }
    }
    lat.min_neighbors = s.pick({0, 1, 0, 2});
    if (s.chance(1, 3)) { for (auto k = 0; k < ndim; ++k) { lat.offset += (s.sym(3) / 8.0) * lat.vecs[k]; } }
    prog.shaped = s.chance(1, 2);
    auto extent = ndim == 3 ? 1.25 : 2.25;
    if (prog.shaped) { prog.shape = gen_shape(s, lat, extent); prog.reach = 8; }
    for (auto k = 0; k < ndim; ++k) { prog.size[k] = s.range(1, ndim == 3 ? 3 : 5); }
    auto const subs = sub_names(lat);

    // the first step only records the block
    prog.steps.push_back(Step());
    if (s.chance(1, 3)) {
        auto st = gen_state(s, lat, subs, extent / 2);
        prog.steps.push_back(st);
    }
    if (s.chance(1, 4)) { // a hole or a ragged edge
        auto st = gen_state(s, lat, subs, extent / 2);
        st.only = s.pick(subs);
        prog.steps.push_back(st);
    }

    // generators afterwards renumber the sites
    auto const generator = s.chance(1, 4);
    if (generator) {
        auto st = Step();
        st.kind = Step::site_gen; st.name = "G"; st.energy = gen_onsite(s, s.range(1, 2), false);
        for (auto m = s.range(0, 2); m > 0; --m) { st.new_positions.push_back(V3(s.sym(40) / 8.0 + 3.0 / 64, s.sym(40) / 8.0 + 3.0 / 64, 1)); }
        prog.steps.push_back(st);
        if (s.chance(1, 2)) {
            auto st2 = gen_state(s, lat, subs, extent);
            st2.only = s.pick(subs); st2.on_below = -1e9;
            prog.steps.push_back(st2);
        }
    }
    auto model = prog.make_model();
    auto leads = std::vector<RLead>();
    auto const full_lat = [&] { auto l = lat; l.offset += prog.shaped ? prog.shape.lattice_offset : V3(0, 0, 0); return l; }();
    auto existing = std::set<Key>(), original = std::set<Key>(); // sites before the next lead, and before any
    auto index = std::map<Key, size_t>();
    auto world = Program::World();
    auto lo = I3(0, 0, 0), hi = I3(0, 0, 0);
    auto attached = 0, filled = 0, inter = 0, intra = 0, conj = 0;
    auto late_removed = 0, slanted = 0;

    for (auto n = -1; n < int(leads.size()); ++n) {
        prog.log->calls.clear(); prog.log->before.reset(); prog.log->energy_calls.clear(); prog.log->pairs.clear();
        if (n >= 0) { model.attach_lead(leads[n].direction(), leads[n].build(lat)); }
        auto sp = std::shared_ptr<cpb::System const>();
        auto rejected = std::string();
        try { sp = model.system(); }
        catch (pbt::Failure const&) { throw; }
        catch (pbt_eigen::AssertError const&) { throw; }
        catch (std::exception const& e) { rejected = e.what(); }
        auto const* base = prog.log->before ? prog.log->before.get() : sp.get();

        // what should happen?
        auto columns = std::vector<std::vector<Key>>(); // of the new lead
        auto possible = true, outside = false; // outside: may also be rejected
        auto reference = [&](Sys& block, std::vector<char>& valid, I3 blo, I3 bhi) {
            lo = blo; hi = bhi;
            index.clear();
            for (size_t i = 0; i < block.sites.size(); ++i) { index[key(block.sites[i].sub, block.sites[i].cell)] = i; }
            if (n < 0) {
                for (size_t i = 0; i < block.sites.size(); ++i) { if (valid[i]) { original.insert(key(block.sites[i].sub, block.sites[i].cell)); } }
                existing = original;
                return;
            }
            auto const& l = leads[n];
            outside = (l.lo[l.axis] > bhi[l.axis] - 0.5 || l.hi[l.axis] < blo[l.axis] + 0.5);
            if (l.slanted) {
                auto const box = l.cells(full_lat, lat);
                outside = box.first[l.axis] > bhi[l.axis] - 0.5 || box.second[l.axis] < blo[l.axis] + 0.5;
            }
            auto column = std::map<Key, char>(); // (sub, transverse cell): holds a site
            for (auto const& site : block.sites) {
                auto const in = l.member(full_lat, lat, site.sub, site.cell, blo, bhi);
                if (in < 0) { throw pbt::Discard(); }
                if (!in) { continue; }
                auto c = site.cell; c[l.axis] = 0;
                column[key(site.sub, c)] |= char(existing.count(key(site.sub, site.cell)));
            }
            possible = !column.empty();
            for (auto const& c : column) { possible &= c.second != 0; }
            if (!base) { return; }
            // the sites after attaching all leads so far
            auto now = std::set<Key>();
            auto const names = family_names(*base);
            for (auto i = 0; i < base->num_sites(); ++i) {
                if (names[i] == "G") { continue; }
                auto found = false;
                for (auto const& site : block.sites) {
                    if (site.family == names[i] && (site.pos - to_d(base->positions[i])).cwiseAbs().maxCoeff() < 2e-3) {
                        found = true;
                        PBT_CHECK(now.insert(key(site.sub, site.cell)).second, "duplicate site at (", site.pos.transpose(), ")");
                    }
                }
                PBT_CHECK(found, "site ", i, " at (", base->positions[i].transpose(), ") is not on the lattice");
            }
            for (auto const& k : existing) { PBT_CHECK(now.count(k), "attaching a lead removed a site of sublattice ", k[0], " in cell ", k[1], " ", k[2], " ", k[3]); }
            filled += int(now.size() - existing.size());
            existing = now;
            for (size_t i = 0; i < valid.size(); ++i) { valid[i] = char(now.count(key(block.sites[i].sub, block.sites[i].cell))); }
        };
        prog.attach = reference;
        // without a system the calls up to the point of failure are known
        auto steps = prog.steps;
        if (!sp) {
            auto foundation = prog;
            foundation.steps.resize(size_t(prog.first_generator()));
            foundation.attach = reference;
            foundation.replay(nullptr);
            if (n < 0) { throw pbt::Discard(); } // no sites: C09
            if (possible && prog.steps.back().kind == Step::state && generator) { throw pbt::Discard(); } // may have removed a site of the junction
            PBT_CHECK(!possible || outside, "lead ", n, " was rejected: ", rejected);
            PBT_CHECK(throws([&] { model.leads(); }), "an impossible lead was accepted the second time");
            ctx.label("lead rejected");
            ctx.nontrivial = true;
            return;
        }
        world = prog.replay(sp.get());
        late_removed = world.removed_late;
        if (n < 0) {
            ctx.describe([&](std::ostream& os) { prog.print(os); });
            if (original.empty()) { throw pbt::Discard(); }
            // leads in front of actual sites
            auto sites = std::vector<V3>();
            for (auto const& k : original) { sites.push_back(full_lat.coords(full_lat.site_pos(k[0], I3(k[1], k[2], k[3])))); }
            auto const same_axis = s.chance(1, 3);
            for (auto n = s.range(1, 3); n > 0; --n) {
                auto l = RLead();
                l.axis = s.range(0, ndim - 1);
                if (same_axis && !leads.empty()) { l.axis = leads[0].axis; }
                l.sign = s.chance(1, 2) ? -1 : 1;
                l.line = orthogonal && ndim == 2 && s.chance(1, 2);
                l.slanted = s.chance(1, 4);
                if (l.slanted) { l.line = ndim == 2 && s.chance(1, 2); }
                l.lo.setZero(); l.hi.setZero();
                auto const grid = [](double x) { return std::round(x * 8) / 8; };
                auto const c = s.pick(sites);
                auto const wide = s.chance(1, 4);
                for (auto k = 0; k < ndim; ++k) {
                    l.lo[k] = grid(c[k]) - s.range(0, wide ? 40 : 6) / 8.0 - 7.0 / 64;
                    l.hi[k] = grid(c[k]) + s.range(0, wide ? 40 : 6) / 8.0 + 7.0 / 64;
                    if (k == l.axis) {
                        auto const at = grid(c[k]) + (s.chance(1, 16) ? s.sym(8) : s.sym(16) / 8.0);
                        l.lo[k] = l.hi[k] = at;
                        if (!l.line) { auto const w = s.range(0, 16) / 8.0; l.lo[k] -= w; l.hi[k] += w; }
                    }
                }
                if (l.slanted) {
                    for (auto k = 0; k < ndim; ++k) {
                        // the end points of a line move apart along the lead, a box is sheared across it
                        if (l.line == (k == l.axis)) { l.slope[k] = s.sym(l.line ? 24 : 8) / 8.0; }
                    }
                    if (!l.line) { l.lo[l.axis] -= 1; l.hi[l.axis] += 1; }
                }
                slanted += l.slanted;
                leads.push_back(l);
            }
            // energy modifiers
            auto families = std::vector<std::string>(), hops = std::vector<std::string>();
            for (auto i = 0; i < int(lat.subs.size()); ++i) { if (lat.subs[i].alias_of < 0) { families.push_back(lat.subs[i].name); } }
            for (auto const& f : lat.fams) { hops.push_back(f.name); }
            for (auto n = s.chance(1, 2) ? s.range(1, 2) : 0; n > 0; --n) {
                auto m = gen_mod(s, families, hops, true);
                if (s.chance(1, 2)) { m.is_complex |= m.wants_complex(); }
                prog.mods.push_back(m);
            }
            for (auto k = 0; k < int(prog.mods.size()); ++k) { prog.add_mod(model, k); }
            ctx.describe([&](std::ostream& os) { for (auto const& m : prog.mods) { m.print(os); } for (auto const& l : leads) { l.print(os); } });
            // invalid directions
            for (auto d : {0, ndim + 1, -ndim - 1, 7}) {
                if (d != 0 && std::abs(d) <= ndim) { continue; }
                if (s.chance(1, 8)) { PBT_CHECK(throws([&] { model.attach_lead(d, leads[0].build(lat)); }), "a lead in direction ", d, " was accepted"); }
            }
            continue;
        }
        PBT_CHECK(possible, "lead ", n, " misses the structure but was accepted");
        ++attached;

        auto const& sys = *sp;
        auto const map = check_system(sys, world.sys);
        auto scalar = Scalar();
        auto const h = to_dense(model.hamiltonian(), scalar);
        auto const expected_h = prog.final_hamiltonian(world);
        auto const scale = 1 + expected_h.cwiseAbs().maxCoeff();
        check_equal(reorder(h, sys, map, world.sys), expected_h, 3e-5 * scale, "H");

        // every lead so far
        auto sections = std::vector<Section>();
        PBT_CHECK(model.leads().size() == n + 1, "there are ", model.leads().size(), " leads");
        for (auto m = 0; m <= n; ++m) {
            auto const& l = leads[m];
            auto const lead = model.lead(size_t(m));
            auto const& lsys = lead.system();
            V3 const shift = l.sign * lat.vecs[l.axis];
            PBT_CHECK(lead.spec().axis == l.axis && lead.spec().sign == l.sign, "lead ", m, " has the wrong direction");
            auto const num = int(lead.indices().size());
            PBT_CHECK(lsys.num_sites() == num, "lead ", m, " has ", lsys.num_sites(), " sites and ", num, " indices");
            auto const names = family_names(lsys);
            PBT_CHECK(int(names.size()) == num, "lead ", m, " names ", names.size(), " sites of ", num);
            auto section = Section();
            auto ref_sys = Sys();
            for (auto i = 0; i < num; ++i) {
                auto const idx = lead.indices()[i];
                PBT_CHECK(idx >= 0 && idx < sys.num_sites(), "lead ", m, ": index ", idx, " of ", sys.num_sites());
                auto site = world.sys.sites[map[idx]];
                PBT_CHECK(site.sub >= 0, "lead ", m, " is attached to a generated site");
                PBT_CHECK(section.sites.insert(key(site.sub, site.cell)).second, "lead ", m, " uses a site twice");
                PBT_CHECK(site.family == names[i], "lead ", m, " site ", i, " has the family ", names[i], " instead of ", site.family);
                PBT_CHECK((to_d(lsys.positions[i]) - site.pos - shift).norm() < 2e-3, "lead ", m, " site ", i, " is at (", lsys.positions[i].transpose(), ") instead of (", (site.pos + shift).transpose(), ")");
                if (i == 0) { section.cell = site.cell[l.axis]; }
                PBT_CHECK(site.cell[l.axis] == section.cell, "lead ", m, " is attached to several cross-sections");
                site.pos += shift;
                ref_sys.sites.push_back(site);
            }
            // all columns of the lead and nothing else
            auto want = std::set<Key>();
            for (auto const& p : index) {
                auto const sub = p.first[0];
                auto const cell = I3(p.first[1], p.first[2], p.first[3]);
                if (cell[l.axis] != section.cell) { continue; }
                if (l.member(full_lat, lat, sub, cell, lo, hi) == 1) { want.insert(p.first); }
            }
            PBT_CHECK(want == section.sites, "lead ", m, " has ", section.sites.size(), " sites, expected ", want.size());
            sections.push_back(section);

            connect(full_lat, ref_sys);
            auto identity = std::vector<int>();
            for (auto i = 0; i < num; ++i) { identity.push_back(i); }
            check_hoppings(lsys.hopping_blocks, lsys.hopping_registry, identity, ref_sys.hops);
            intra += int(ref_sys.hops.size());

            auto lw = Program::World();
            lw.sys = ref_sys;
            prog.apply_mods(lw);
            auto s0 = Scalar(), s1 = Scalar();
            auto const h0 = to_dense(lead.h0(), s0), h1 = to_dense(lead.h1(), s1);
            PBT_CHECK(s0.is_complex >= scalar.is_complex && s0.is_double == scalar.is_double && s1.is_complex == s0.is_complex && s1.is_double == scalar.is_double, "scalar types differ");
            auto const e0 = dense(lw.sys);
            check_equal(h0, e0, 3e-5 * (scale + e0.cwiseAbs().maxCoeff()), pbt::str("h0 of lead ", m).c_str());

            // from the lead cell (one vector outward of the section) to the section
            auto const off = ref_sys.offsets();
            Mat e1 = Mat::Zero(e0.rows(), e0.cols());
            for (auto const& f : lat.fams) {
                for (auto const& t : f.terms) {
                    for (auto i = 0; i < num; ++i) { // i: outer, j: inner
                        for (auto j = 0; j < num; ++j) {
                            auto const &a = ref_sys.sites[i], &b = ref_sys.sites[j];
                            I3 outer = a.cell; outer[l.axis] += l.sign;
                            auto e = f.energy;
                            auto change = [&](V3 const& p1, V3 const& p2) {
                                for (auto const& mod : prog.mods) {
                                    if (mod.onsite || (!mod.only.empty() && mod.only != f.name)) { continue; }
                                    for (auto r = 0; r < e.rows(); ++r) { for (auto c = 0; c < e.cols(); ++c) { e(r, c) = mod.hopping_value(e(r, c), r, c, p1, p2); } }
                                }
                            };
                            if (t.from == a.sub && t.to == b.sub && b.cell == outer + t.d) {
                                change(a.pos, b.pos - shift);
                                e1.block(off[i], off[j], e.rows(), e.cols()) += e;
                                ++inter;
                            } else if (t.from == b.sub && t.to == a.sub && outer == b.cell + t.d) {
                                change(b.pos - shift, a.pos);
                                e1.block(off[i], off[j], e.cols(), e.rows()) += e.adjoint();
                                ++inter; ++conj;
                            }
                        }
                    }
                }
            }
            check_equal(h1, e1, 3e-5 * (scale + e1.cwiseAbs().maxCoeff()), pbt::str("h1 of lead ", m).c_str());
            check_equal(h0, h0.adjoint(), 1e-6 * scale, "h0 and its adjoint");
        }

        // the fill: from the section up to the first original site, in the columns of the leads
        auto justified = original;
        for (auto m = 0; m <= n; ++m) {
            auto const& l = leads[m];
            auto const step = -l.sign;
            auto slice_in_use = false;
            for (auto const& k : existing) { slice_in_use |= k[size_t(1 + l.axis)] == sections[m].cell; }
            for (auto const& start : sections[m].sites) {
                auto k = start;
                // nothing of the original structure further out
                auto outer = k;
                for (auto c = sections[m].cell - step; c >= lo[l.axis] && c <= hi[l.axis]; c -= step) {
                    outer[size_t(1 + l.axis)] = c;
                    PBT_CHECK(!original.count(outer), "lead ", m, " is attached inside of the structure");
                }
                for (; k[size_t(1 + l.axis)] >= lo[l.axis] && k[size_t(1 + l.axis)] <= hi[l.axis]; k[size_t(1 + l.axis)] += step) {
                    justified.insert(k);
                    if (original.count(k)) { break; }
                    if (n == 0) { PBT_CHECK(existing.count(k), "lead ", m, " leaves a gap in front of the structure"); }
                }
            }
            PBT_CHECK(slice_in_use, "lead ", m, " is attached to an empty slice");
            if (n == 0) {
                auto touching = false;
                for (auto const& k : original) { touching |= k[size_t(1 + l.axis)] == sections[m].cell; }
                PBT_CHECK(touching, "lead ", m, " is attached further out than the edge of the structure");
            }
        }
        for (auto const& k : existing) {
            PBT_CHECK(justified.count(k), "attaching lead ", n, " added a site which no lead needs: sublattice ", k[0], " in cell ", k[1], " ", k[2], " ", k[3]);
        }
    }
    ctx.nontrivial = attached > 0 && intra + inter > 0;
    ctx.label(attached > 1, "several leads");
    ctx.label(slanted > 0, "a lead shape which is slanted across the lead");
    ctx.label(filled > 0, "sites were filled in");
    ctx.label(inter > 0, "hoppings between the cells of a lead");
    ctx.label(conj > 0, "hoppings declared outward");
    ctx.label(generator, "with generators");
    ctx.label(late_removed > 0, "sites removed after the leads were attached");
    ctx.label(!prog.mods.empty(), "with energy modifiers");
    ctx.label(lat.multiorbital(), "multi-orbital");
    ctx.label(lat.any_complex(), "complex");
    ctx.label("dim" + std::to_string(ndim));
}

} // namespace

namespace pbt {
Property const property = {
    "C11",
    "random 2D and 3D lattices as blocks or shapes with ragged edges, up to 3 leads in any directions attached one at a time (boxes in "
    "lattice coordinates or lines), energy modifiers and generators; lead sites, hoppings, h0, h1 and the filled sites compared with "
    "the lattice definition; non-trivial: a lead with at least one hopping was attached, or an impossible lead was given",
    40000, 1000000, run,
    {"a slanted lead shape is judged at the centre of the part of its bounding cells which is in the block, and discarded when the rows near it disagree; "
     "other lead shapes depend on the transverse lattice coordinates only",
     "hoppings reach at most one cell along a lead", "hopping modifiers are invariant along the leads"}};
}
